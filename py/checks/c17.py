"""C17: operations stored by name."""
import json
from checks.common import *

BE = "exhaustive over the stated family, on the real operations"
H = {
    "c17_sympy": "an expression of up to two characters is read back from the arguments it is stored with",
    "c17_result_bool": "a bool result with any tag of up to two characters is read back from the arguments it is stored with",
    "c17_result_f64": "a float result with any tag of up to two characters is read back from the arguments it is stored with",
    "c17_state": "a state result with any tag of up to two characters and any 64-bit size is read back from the arguments it is stored with",
}
# families whose operation type holds the definition only (the arguments stay in the extension operation)
DEF_ONLY = {"Modifier", "RuntimeBarrier"}
TWINS = {"FutureOp": "FutureOpDef", "ResultOp": "ResultOpDef", "WasmOp": "WasmOpDef", "GpuOp": "GpuOpDef", "SympyOp": "SympyOpDef", "StateResult": "StateResultDef"}
NO_READER = {"declared/tket.guppy.drop"}


def refusable(c):
    """A power of what captures values that cannot be copied."""
    return c["family"] == "Modifier" and "/PowerModifier:" in c["case"] and c["case"].split(":")[3] not in ("", "bool", "usize", "int5", "f64")


def op_of(c):
    if c.get("refused"):
        if c["family"] in ("WasmOp", "GpuOp") and not c["expected"] and " rows Copyable" not in c["case"]:
            return None
        return "could not be stored"
    f = c["family"]
    own = {f, TWINS.get(f, f)}
    if not c["back"]:
        return "read back as another operation"
    if not c["cast"]:
        return "not recognised as an operation of a graph"
    if set(c["readers"]) != own:
        return f"recognised as {sorted(c['readers'])}, not only as {sorted(own)}"
    if c["readers"][f] != c["op"]:
        return f"{c['op']} recognised as {c['readers'][f]}"
    if not c.get("signature", True):
        return f"signature {c['stored']['ins']} -> {c['stored']['outs']}"
    for k in ("text", "binary"):
        t = c.get(k)
        if t is None:
            continue
        if "error" in t:
            return f"lost in a {k} envelope: {t['error']}"
        for x in ("stored", "back", "cast", "readers"):
            if t[x] != c[x]:
                return f"{x} after a {k} envelope: {t[x]}, was {c[x]}"
    return None


def type_of(c):
    if not c["back"]:
        return "read back as another type"
    if c["other"]:
        return "recognised as a type of another extension"
    b = "Linear" if c["type"].split("(")[0].split(" ")[0] in ("Context", "Result") else "Copyable"
    if c["bound"] != b:
        return f"{c['type']} is {c['bound']}, expected {b}"
    return None


def declared(c):
    n = 0 if c["case"] in NO_READER else 1
    return None if len(c["readers"]) == n else f"{len(c['readers'])} operation types recognise it: {c['readers']}"


def judge(c):
    if "family" not in c:
        return f"no answer: {c}"
    if c["family"] == "declared":
        return declared(c)
    if c["family"] in ("WasmType", "GpuType"):
        return type_of(c)
    if c.get("refused") and refusable(c):
        return None
    return op_of(c)


def clashes(cs):
    """Different operations under the same name and arguments."""
    by = {}
    for c in cs:
        if "stored" not in c or not isinstance(c["stored"], dict):
            continue
        s = c["stored"]
        key = (s["ext"], s["name"], json.dumps(s["args"]))
        o = (c["family"], c["op"])
        if c["family"] in DEF_ONLY:
            o = o[:1] + (c["op"], "def")
        p = by.setdefault(key, o)
        if p != o:
            yield f"{key[:2]} stores both {p} and {o}"


def names(cs):
    """Different kinds of operation (the name before its arguments) under the same name."""
    by = {}
    for c in cs:
        if isinstance(c.get("stored"), dict):
            kind = c["op"].split("(")[0].split("{")[0].split(" ")[0]
            if c["family"] in ("FutureOp", "ResultOp"):
                kind = [v for v in c["readers"].values() if "{" not in v][0] if any("{" not in v for v in c["readers"].values()) else kind
            by.setdefault((c["stored"]["ext"], c["stored"]["name"]), set()).add((c["family"], kind))
    for k, v in by.items():
        if len(v) > 1:
            yield f"{k} names {sorted(v)}"


def run(ctx):
    ctx.kani(H, timeout=200, crate="kanio", exe="replayo", label="Kani (CBMC) on the real crates")
    def w(d, c=None):
        return d and (d, c, True)
    cs = ctx.native("opnames")
    if len(cs) < 4000:
        raise RuntimeError(f"only {len(cs)} cases: {cs[-1]}")
    ctx.prove_all([(f"{c['case']}: read back unchanged, known under its own name only", lambda c=c: w(judge(c), c)) for c in cs], BE)
    for n, f in (("different operations are stored differently", clashes), ("different kinds of operation have different names", names)):
        ctx.prove(n, BE, lambda f=f: w(next(iter(f(cs)), None)))
    # every declared operation was stored at least once
    decl = {c["case"][9:] for c in cs if c.get("family") == "declared"}
    seen = {s["ext"] + "." + s["name"] for c in cs for s in [c.get("stored")] if isinstance(s, dict)}
    ctx.prove("every operation the extensions declare is one of those", BE, lambda: w(", ".join(sorted(decl - seen - {k[9:] for k in NO_READER})) or None))

    def mut(k, f):
        c = json.loads(json.dumps(next(c for c in cs if c["case"].startswith(k) and "stored" in c)))
        f(c)
        return judge(c) is not None
    ctx.canary("read back as another", mut("TketOp/H", lambda c: c.update(back=False)))
    ctx.canary("a second reader", mut("TketOp/H", lambda c: c["readers"].update(BoolOp="eq")))
    ctx.canary("another signature", mut("ResultOp/", lambda c: c.update(signature=False)))
    ctx.canary("an argument changed by an envelope", mut("ResultOp/", lambda c: c["text"]["stored"]["args"].reverse() or c["text"]["stored"]["args"].append("x")))
    ctx.canary("could not be stored", judge(dict(case="TketOp/H", family="TketOp", refused=True, expected=False)) is not None and judge(dict(case="WasmOp/call:bool:", family="WasmOp", refused=True, expected=True)) is not None)
    a, b = [c for c in cs if c["case"] in ("TketOp/H", "TketOp/X")]
    ctx.canary("two operations under one name", next(clashes([a, dict(b, stored=a["stored"])]), None) is not None and next(names([a, dict(b, stored=a["stored"])]), None) is not None)
    ctx.functions += ["MakeOpDef/MakeExtensionOp/HasConcrete impls of TketOp, BoolOp, RotationOp, SympyOp, StateResult, GlobalPhase, Modifier, FutureOp, QSystemOp, RuntimeBarrierDef, RandomOp, UtilsOp, ResultOp, WasmOp, GpuOp", "WasmType and GpuType: to and from Type"]
    ctx.trusted += ["Kani 0.68 / CBMC 6.11", "hugr's envelopes and extension registry", "the type equality and printing of hugr"]
    ctx.assumptions += ["sizes, identifiers and widths: representatives (0, 1, 2, 5, 255, 256, 65536, 2^32-1, 2^32, 2^63-1), all widths 0..6; tags: ten strings; types: sixteen, rows of up to two; the size of a state result and tags of up to two characters are proved for all values",
                        "a call or a lookup with values that cannot be copied is not admissible and is refused"]
