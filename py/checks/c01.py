"""C01: lowering to the native gate set."""
from checks.common import *
import vf

BUILD = {
    "zz_max": (2, lambda A, b: G.zzphase(A, A.rconst(Al.F(1, 2)))),
    **{n.lower(): (1, (lambda n: lambda A, b: G.tket_gate(A, n, []))(n)) for n in "H X Y Z S Sdg V Vdg T Tdg".split()},
    **{n.lower(): (2, (lambda n: lambda A, b: G.tket_gate(A, n, []))(n)) for n in "CX CY CZ".split()},
    "toffoli": (3, lambda A, b: G.tket_gate(A, "Toffoli", [])),
    # the builders take radians
    "rx": (1, lambda A, b: G.rx(A, b("x1") / A.pi)),
    "ry": (1, lambda A, b: G.ry(A, b("x1") / A.pi)),
    "crz": (2, lambda A, b: G.control(A, G.rz(A, b("x2") / A.pi))),
}
EXPECT = "H CX CY CZ CRz T Tdg S Sdg X Y Z Rx Ry Rz Toffoli Measure MeasureFree QAlloc TryQAlloc QFree Reset V Vdg".split()


def run(ctx):
    cases = ctx.native("qsystem")
    byid = {c["case"]: c for c in cases}
    for c in cases:
        cid = c["case"]
        if cid.startswith("op:"):
            op = cid[3:]

            def go(c=c, op=op):
                if "after" not in c:
                    return (f"{op} is not lowered: {c.get('lower_error') or c.get('panic') or c.get('error')}", c, True)
                if c["unlowered"]:
                    return (f"a tket operation is left after lowering {op}", c, True)
                return equiv(c["before"], c["after"])

            ctx.prove(f"lower_tk2_op/{op}: denotation(lowered) == denotation({op}) for all angles", SYMVC, go)
        elif cid.startswith("build:"):
            n = cid[6:]

            def go(c=c, n=n):
                if "after" not in c:
                    return (f"build_{n} fails: {c}", c, True)
                nq, spec = BUILD[n]
                return against(c["after"], spec, nq, 0)

            ctx.prove(f"QSystemOpBuilder::build_{n}: implements {n} for all angles", SYMVC, go)
    for op in EXPECT:
        if f"op:{op}" not in byid:
            raise RuntimeError(f"operation {op} was not enumerated")
    # vacuity: wrong specifications must be rejected
    h = byid["op:H"]
    ctx.canary("lower(H) == X", against(h["after"], lambda A, b: G.X(A), 1, 0) is not None)
    h = byid["op:CRz"]
    ctx.canary("lower(CRz(a)) == CRz(-a)", against(h["after"], lambda A, b: G.control(A, G.rz(A, -b("x2"))), 2, 1) is not None)
    h = byid["op:Measure"]
    ctx.canary("lower(Measure) == lower(Reset)", equiv(byid["op:Measure"]["before"], byid["op:CX"]["after"]) is not None)

    # bounded: whole programs
    n = 40 if ctx.tier == "quick" else 600
    b = ctx.run_bounded("programs", f"random programs of 1-4 qubits, up to 14 operations (all tket operations, barriers, branches on measured bits, nested functions), lowered by the real pass and compared as channels at random angles; seed {ctx.seed}")
    sigs = set()
    for c in ctx.native("qsystem-programs", ctx.seed, n):
        if "after" not in c:
            ctx.violation(c["case"], f"lowering failed: {c.get('error') or c.get('panic') or c.get('lower_error')}", c)
            continue
        b["evaluations"] += 1
        try:
            r = equiv(c["before"], c["after"], exact=False, rng=ctx.rng)
        except I.Unsupported as e:
            b["undecided"] += 1
            continue
        if c.get("unlowered"):
            ctx.violation(c["case"], "a tket operation is left after lowering", c)
        if r:
            ctx.violation(c["case"], r[0], r[1], r[2])
        s = repr([x.get("name") or x["op"] for x in c["before"]["nodes"]])
        if s not in sigs and len(c["before"]["nodes"]) > 5:
            sigs.add(s)
            b["distinct_nontrivial"] += 1
        if len(b["samples"]) < 2:
            b["samples"].append([x.get("name") or x["op"] for x in c["before"]["nodes"]])
    ctx.functions += ["lower_tk2_op", "build_func", "build_to_radians", "direct_map", "check_lowered"] + [f"QSystemOpBuilder::build_{n}" for n in BUILD] + ["build_measure_flip", "build_qalloc", "add_* (inlined)"]
    ctx.trusted += ["contracts of the native operations: Rz(t)=exp(-itZ/2), PhasedX(t,p)=Rz(p)Rx(t)Rz(-p), ZZPhase(t)=exp(-itZZ/2), Measure/Reset in the Z basis",
                    "contracts of hugr's float, prelude, sum and array operations", "hugr's ReplaceTypes, FunctionBuilder and serialiser",
                    "py/algebra.py normal form, py/interp.py"]
    ctx.assumptions += ["floating point angle arithmetic is treated as real arithmetic; the correctly rounded multiples of pi denote the exact multiples",
                        "builder code treats wires opaquely (it cannot inspect a wire's runtime value), so one symbolic execution covers all inputs",
                        "qubit allocation succeeds"]
