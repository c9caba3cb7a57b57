"""C10: splitting a circuit into chunks and reassembling it."""
import itertools, json, os, subprocess, tempfile
from checks.common import *
import graph

Z3 = "symbolic execution of the real generic code with an unknown cost type + z3 (linear integer arithmetic)"


# ------------------------------------------------------------------ the cost bound, for all costs
def smt(cons, n, chunk):
    """Costs and a maximum that take this path and make the chunk too expensive; None if there are none."""
    v = lambda i: "m" if i == 1000 else f"v{i}"
    s = ["(set-option :timeout 20000)", "(declare-const m Int)", "(assert (>= m 0))"]
    for i in range(n):
        s += [f"(declare-const v{i} Int)", f"(assert (>= v{i} 0))"]
    for d, r in cons:
        if r == "?":
            continue
        e = "(+ 0 " + " ".join(f"(* {k if k >= 0 else f'(- {-k})'} {v(i)})" for i, k in d) + ")"
        s.append(f"(assert ({r} {e} 0))")
    s.append("(assert (> (+ 0 " + " ".join(v(i) for i in chunk) + ") m))" if chunk is not None else "")
    s += ["(check-sat)", "(get-value (m " + " ".join(f"v{i}" for i in range(n)) + "))"]
    p = subprocess.run(["z3", "-in"], input="\n".join(s), capture_output=True, text=True)
    o = p.stdout.split("\n", 1)
    if o[0] == "unsat":
        return None
    if o[0] == "sat":
        return o[1].strip()
    raise I.Unsupported(f"z3: {p.stdout[:100]}")


def bound(path, res):
    if "panic" in res:
        if "undecided" in res["panic"]:
            raise I.Unsupported(res["panic"])
        if smt(path["cons"], path["n"], None) is None:
            return None
        return (f"splitting panics: {res['panic']}", dict(path=path), True)
    flat = [x for c in res["chunks"] for x in c]
    if flat != list(range(path["n"])) and not path["wide"] or sorted(flat) != list(range(path["n"])):
        if smt(path["cons"], path["n"], None) is not None:
            return (f"the chunks {res['chunks']} are not the operations in order", dict(path=path, chunks=res["chunks"]), True)
    for c in res["chunks"]:
        if len(c) > 1:
            m = smt(path["cons"], path["n"], c)
            if m is not None:
                return (f"a chunk of {len(c)} operations costs more than the maximum: chunks {res['chunks']}, costs {m}", dict(path=path, chunks=res["chunks"], model=m), "?" not in [r for _, r in path["cons"]])
        if not c:
            return ("an empty chunk", dict(path=path), True)
    return None


# ------------------------------------------------------------------ reassembly
G1 = ["H", "X", "T", "Z"]


class B:
    """Builds a program over named wires."""

    def __init__(self, nq, nb=0, floats=0):
        self.ins = ["q"] * nq + ["b"] * nb + ["r"] * floats
        self.q = [f"x{i}" for i in range(nq)]
        self.b = [f"x{nq + i}" for i in range(nb)]
        self.r = [f"x{nq + nb + i}" for i in range(floats)]
        self.body = []
        self.k = 0

    def new(self):
        self.k += 1
        return f"w{self.k}"

    def g(self, op, *qs, r=()):
        o = [self.new() for _ in qs]
        self.body.append([f"tket.quantum.{op}", [self.q[i] for i in qs] + list(r), o])
        for i, w in zip(qs, o):
            self.q[i] = w

    def op(self, op, ins, n=1):
        o = [self.new() for _ in range(n)]
        self.body.append([op, ins, o])
        return o

    def const(self, kind, v):
        w = self.new()
        self.body.append(["const", kind, v, w])
        return w

    def done(self, outs=None, **kw):
        outs = outs if outs is not None else [[w, "q"] for w in self.q] + [[w, "b"] for w in self.b]
        return dict({"in": self.ins, "out": outs, "body": self.body}, **kw)


def programs():
    # all words of gates on two qubits
    alph = [("H", 0), ("X", 1), ("CX", 0, 1), ("CX", 1, 0), ("T", 0)]
    for n in range(0, 5):
        ws = itertools.product(alph, repeat=n)
        for i, w in enumerate(ws):
            if n == 4 and i % 5:
                continue
            b = B(2)
            for g in w:
                b.g(*g)
            yield "word:" + ".".join("".join(map(str, g)) for g in w), b.done()
    # qubits that leave in another order, three qubits with swaps
    for p in itertools.permutations(range(3)):
        b = B(3)
        for _ in range(2):
            b.g("CX", 0, 1), b.g("CX", 1, 0), b.g("CX", 0, 1)
            b.g("T", 0)
            b.g("CX", 2, 1), b.g("CX", 1, 2), b.g("CX", 2, 1)
            b.g("H", 2), b.g("H", 2)
        yield f"swaps:{p}", b.done([[b.q[i], "q"] for i in p])
    for n in (0, 1, 2, 3):
        b = B(n)
        yield f"empty:{n}", b.done([[w, "q"] for w in b.q[::-1]])
    # classical fan-out across chunks
    NOT, AND, XOR = "logic.Not", "logic.And", "logic.Xor"
    for k in range(4):
        b = B(2, 1)
        b.g("H", 0)
        x = b.b[0]
        y = b.op(NOT, [x])[0]
        z = b.op(NOT, [y])[0]
        b.g("CX", 0, 1)
        outs = [[z, "b"], [x, "b"], [z, "b"], [y, "b"]][: k + 1]
        w = b.op(NOT, [z])[0]
        if k % 2:
            outs.append([w, "b"])
        yield f"fanout:{k}", b.done([[q, "q"] for q in b.q] + outs)
    for k in range(3):
        b = B(2)
        b.g("H", 0)
        q, m = b.op("tket.quantum.Measure", [b.q[0]], 2)
        b.q[0] = q
        n1 = b.op(NOT, [m])[0]
        b.g("CX", 0, 1)
        n2 = b.op(NOT, [n1])[0]
        q, m2 = b.op("tket.quantum.Measure", [b.q[1]], 2)
        b.q[1] = q
        outs = [[[m, "b"], [m2, "b"]], [[m2, "b"], [n2, "b"], [m, "b"], [m, "b"]], [[n2, "b"], [n1, "b"]]][k]
        yield f"measure:{k}", b.done([[w, "q"] for w in b.q[::-1]] + outs)
    # angles: inputs that fan out, constants, symbols
    for k in range(4):
        b = B(2, 0, 2)
        r = [lambda: b.r[0], lambda: b.const("r", 0.25), lambda: b.op("tket.rotation.radd", [b.r[0], b.r[1]])[0], lambda: b.op("sympy a", [])[0]][k]()
        b.g("Rz", 0, r=[r])
        b.g("CRz", 0, 1, r=[r])
        s = b.op("tket.rotation.radd", [r, b.r[1]])[0]
        b.g("Rx", 1, r=[s])
        b.g("Ry", 0, r=[b.r[1]])
        yield f"angles:{k}", b.done([[w, "q"] for w in b.q] + ([[s, "r"], [b.r[0], "r"]] if k < 2 else []))
    # allocation inside, nested dataflow
    b = B(1)
    a = b.op("tket.quantum.QAlloc", [])[0]
    b.q.append(a)
    b.g("H", 1), b.g("CX", 1, 0), b.g("H", 1)
    b.body.append(["tket.quantum.QFree", [b.q[1]], []])
    yield "alloc", b.done([[b.q[0], "q"]])
    b = B(2)
    b.g("H", 0)
    b.body.append(["dfg", [["i0", b.q[0], "q"], ["i1", b.q[1], "q"]], [["tket.quantum.CX", ["i0", "i1"], ["j0", "j1"]]], [["j1", "q"], ["j0", "q"]], ["d0", "d1"]])
    b.q = ["d0", "d1"]
    b.g("T", 0), b.g("CX", 1, 0)
    yield "nested", b.done()
    # the same wire to several inputs of one chunk, and of several chunks
    for n in (2, 3):
        b = B(n, 0, 1)
        for i in range(n):
            b.g("Rz", i, r=[b.r[0]])
        b.g("CRz", 0, 1, r=[b.r[0]])
        s = b.op("tket.rotation.radd", [b.r[0], b.r[0]])[0]
        for i in range(n):
            b.g("Rx", i, r=[s])
        yield f"shared:{n}", b.done([[w, "q"] for w in b.q] + [[s, "r"], [b.r[0], "r"], [s, "r"]])
    yield "named", dict(b.done(), name="kernel")


def judge(req, out):
    if "error" in out and out["error"].startswith("build"):
        raise RuntimeError(out["error"])
    if "panic" in out:
        return (f"panic: {out['panic'][:300]}", dict(request=req), True)
    if "error" in out:
        return (out["error"][:300], dict(request=req), True)
    rep = dict(request=req, before=out["before"], after=out["after"])
    if out["valid"]:
        return (f"the result is invalid: {out['valid'][:300]}", rep, True)
    if out["sig"][0] != out["sig"][1]:
        return (f"signature {out['sig']}", rep, True)
    if out["name"][0] != out["name"][1]:
        return (f"name {out['name']}", rep, True)
    if any(s > max(1, req["max"]) for s in out["sizes"]):
        return (f"chunks of {out['sizes']} operations", rep, True)
    if sum(out["sizes"]) != out["commands"]:
        return (f"chunks of {out['sizes']} operations for {out['commands']}", rep, True)
    h1, h2 = I.Hugr(out["before"]), I.Hugr(out["after"])
    f1, f2 = fn_of(h1, req["prog"].get("name", "main")), fn_of(h2, req["prog"].get("name", "main"))
    if req["replace"] in ("none", "reload"):
        d = graph.same(h1, f1, h2, f2)
        return d and (d, rep, True)
    return equiv(out["before"], out["after"], phase="global", fname=req["prog"].get("name", "main"))


def run(ctx):
    # every number of operations, every unknown cost
    lines = ctx.native("chunk-costs", 5 if ctx.tier == "quick" else 6)
    pairs, conc, last = [], [], None
    for l in lines:
        if "path" in l:
            pairs.append((l, last))
        elif "concrete" in l or l.get("case", "").startswith(("usize", "lex")):
            conc.append(l)
        else:
            last = l
    if len(pairs) < 50 or len(conc) < 300:
        raise RuntimeError("cost paths missing")
    ctx.prove_all([(f"cost/{r['case']}: chunks of more than one operation cost at most the maximum", lambda p=p, r=r: bound(p, r)) for p, r in pairs], Z3)
    for l in conc:
        if l.get("bad") or "panic" in l:
            ctx.violation(f"cost/{l['case']}", f"chunks {l.get('concrete')} for maximum {l.get('max')} {l.get('panic', '')}", l)
    b = ctx.run_bounded("concrete costs", "chains of up to 3 operations with machine-integer and two-component costs below 4: chunks within the maximum; non-trivial: more than one operation")
    b["evaluations"] += len(conc)
    b["distinct_nontrivial"] += sum(not l["case"].startswith(("usize:1", "lex:1")) for l in conc)

    reqs = {}
    for k, p in programs():
        n = len(p["body"])
        for mx in sorted({0, 1, 2, 3, max(n - 1, 1), n + 1}):
            for rp in ("none", "reload", "simplify", "pad"):
                if k == "angles:3" and rp in ("simplify", "pad"):
                    continue
                if rp != "none" and (mx == 0 or (k.startswith("word") and mx not in (1, 2, 3))):
                    continue
                reqs[f"{k}/{mx}/{rp}"] = dict(prog=p, max=mx, replace=rp)
        if not k.startswith("word") and k != "angles:3":
            for rp in ("simplify", "pad"):
                for o in range(3):
                    reqs[f"{k}/3/{rp}@{o}"] = dict(prog=p, max=3, replace=rp, only=o)
    fd, path = tempfile.mkstemp(suffix=".jsonl")
    with os.fdopen(fd, "w") as f:
        for k, r in reqs.items():
            f.write(json.dumps(dict(case=k, **r)) + "\n")
    outs = {c["case"]: c for c in ctx.native("chunks", path)}
    os.unlink(path)
    for k in reqs:
        if k not in outs:
            raise RuntimeError(f"no answer for {k}: {list(outs.values())[-1]}")
    same = "the same operations, wiring, name and signature"
    eqv = "an equivalent circuit"
    ctx.prove_all([(f"reassemble/{k}: {same if r['replace'] in ('none', 'reload') else eqv}", lambda k=k, r=r: judge(r, outs[k])) for k, r in reqs.items()], SYMVC + "; port-labelled graph comparison")
    changed = sum(sum(outs[k].get("changed", [])) for k, r in reqs.items() if r["replace"] == "simplify")
    if changed < 50:
        raise RuntimeError("chunks were not replaced")

    k = "word:H0.CX01.T0/2/none"
    ctx.canary("another circuit", judge(reqs[k], dict(outs[k], before=outs["word:H0.CX10.T0/2/none"]["before"])) is not None)
    ctx.canary("another meaning", judge(reqs["swaps:(0, 1, 2)/3/simplify"], dict(outs["swaps:(0, 1, 2)/3/simplify"], before=outs["swaps:(0, 2, 1)/3/simplify"]["before"])) is not None)
    ctx.canary("a path that joins without comparing", bound(dict(cons=[], n=2, wide=False), dict(chunks=[[0, 1]])) is not None)
    ctx.functions += ["CircuitChunks::{split, split_with_cost, reassemble, iter_mut}", "Chunk::{extract, insert, empty_chunk_insert_result}"]
    ctx.trusted += ["z3 4.8.12", "hugr: SiblingSubgraph, insert_subgraph, FunctionBuilder", "Circuit::commands (order of the operations)", "py/interp.py, py/algebra.py, py/graph.py"]
    ctx.assumptions += ["costs are non-negative and ordered like their sums (C08)", "lemma: the splitting loop keeps only the running cost between operations, so chains of a few operations with unknown costs cover every step of longer ones; reassembly is shown chunk by chunk on an enumeration of circuits"]
