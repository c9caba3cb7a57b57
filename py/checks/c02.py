"""C02: resolution of control / dagger modifiers."""
from checks.common import *
import vf

STACKS = ["", "d", "dd", "c1", "dc1", "c1d", "c1dc1", "c1c1", "c2", "dc2", "c2d", "c1c2", "c2c1", "dc2dc1", "c3", "dc3", "c1c1c1"]
DEEP = ["c4", "dc4", "c2c2", "c3c1", "c5", "dc5d", "c1c2dc1"]


def judge(c):
    if "after" not in c:
        why = c.get("resolve_error") or c.get("resolve_panic") or c.get("error") or c.get("panic")
        return (f"the modifier is not resolved: {why}", c, True)
    if c["left"]:
        return ("a modifier is left in the program", c, True)
    return None


def run(ctx):
    cases = ctx.native("modifier", 6 if ctx.tier == "quick" else 7, *(STACKS + (DEEP if ctx.tier != "quick" else [])))
    seen = set()
    for c in cases:
        cid = c["case"]
        op, _, st = cid.partition("/")
        seen.add(op)

        def go(c=c):
            if "error" in c or ("panic" in c):
                return judge(c)
            r = judge(c)
            return r if r else equiv(c["before"], c["after"])

        ctx.prove(f"modify {op[3:]} by [{st}]: denotation(resolved) == the {st or 'plain'} version of {op[3:]} for all angles", SYMVC, go)
    if len(seen) != 20:
        raise RuntimeError(f"operations not enumerated: {sorted(seen)}")
    by = {c["case"]: c for c in cases}
    ctx.canary("dagger(S) == S", equiv(by["op:S/d"]["before"], by["op:S/"].get("after", {})) is not None)
    ctx.canary("control(Rx) == control(Ry)", equiv(by["op:Rx/c1"]["before"], by["op:Ry/c1"]["after"]) is not None)

    n = 100 if ctx.tier == "quick" else 1500
    b = ctx.run_bounded("programs", f"random function bodies (all gates, global phases, nested regions, conditionals on classical inputs, direct/indirect/modified calls, arrays) of 1-3 qubits under 12 modifier stacks; resolved by the real pass and compared at random angles; seed {ctx.seed}")
    sigs = set()
    for c in ctx.native("modifier-programs", ctx.seed, n):
        b["evaluations"] += 1
        r = judge(c)
        if r:
            ctx.violation(c["case"] + ":" + r[0][:60], *r)
            continue
        try:
            r = equiv(c["before"], c["after"], exact=False, rng=ctx.rng)
        except I.Unsupported as e:
            b["undecided"] += 1
            continue
        if r:
            ctx.violation(c["case"], *r)
        s = repr([x.get("name") or x["op"] for x in c["before"]["nodes"]])
        if s not in sigs:
            sigs.add(s)
            b["distinct_nontrivial"] += 1
        if len(b["samples"]) < 2:
            b["samples"].append([x.get("name") or x["op"] for x in c["before"]["nodes"]])
    ctx.functions += ["modify_tket_op (every gate arm)", "modify_global_phase", "CombinedModifier::push/modified/rot_angle", "modify_signature, pack_controls, unpack_controls", "modify_dfg_body", "resolve_modifier_with_entrypoints"]
    ctx.trusted += ["contract of the modifiers: control(U) = |0><0| (x) 1 + |1><1| (x) U, dagger(U) = U^-1, phase of U included; V V = X",
                    "contracts of hugr's float and array operations", "hugr's builders, insertion and serialiser", "py/algebra.py, py/interp.py"]
    ctx.assumptions += ["floating point angle arithmetic is treated as real arithmetic",
                        "gate obligations are enumerated per gate and modifier stack with at most three (quick) or five (thorough) controls; for each of them all angles are covered"]
