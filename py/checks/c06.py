"""C06: commutation data and the greedy commutation pass."""
from checks.common import *

PAULI = {"I": lambda A: G.ident(A, 2), "X": G.X, "Y": G.Y, "Z": G.Z}


def wrap(h, i, pauli, before):
    """The single-operation program with the Pauli in front of (behind) its i-th qubit."""
    import copy
    h = copy.deepcopy(h)
    if pauli == "I":
        return h
    node = dict(parent=1, op="Extension", extension="tket.quantum", name=pauli, signature=dict(input=[dict(t="Q")], output=[dict(t="Q")]), args=[], description="")
    k = len(h["nodes"])
    h["nodes"].append(node)
    if "metadata" in h:
        h["metadata"].append(None)
    # nodes: 0 module, 1 main, 2 input, 3 output, 4 the operation
    src, dst = (2, 4) if before else (4, 3)
    es = []
    for (a, ap), (b, bp) in h["edges"]:
        if a == src and b == dst and (bp if before else ap) == i:
            es += [[[a, ap], [k, 0]], [[k, 0], [b, bp]]]
        else:
            es.append([[a, ap], [b, bp]])
    h["edges"] = es
    return h


def pass_case(c):
    if "panic" in c:
        return (f"the pass panics: {c['panic']}", c, True)
    if "error" in c:
        raise RuntimeError(f"{c['case']}: {c['error']}")
    if "failed" in c:
        return (f"the pass fails or leaves an invalid program: {c['failed']}", c, True)
    if not c["same_ops"]:
        return ("the operations changed", c, True)
    if c["depth1"] is None or c["depth1"] > c["depth0"]:
        return (f"depth {c['depth0']} became {c['depth1']}", c, True)
    return None


def run(ctx):
    cases = ctx.native("commute")
    n = dict(table=0, pauli=0, pair=0)
    moved = 0
    for c in cases:
        k = c["case"].split(":")[0]
        n[k] = n.get(k, 0) + 1
        if k == "table":
            op = c["case"][6:]
            if "table" not in c:
                ctx.notes.append(f"no commutation data readable for {op}: {c}")
                ctx.ob(f"commutation data of {op}", "undecided", SYMVC, 0, str(c)[:200])
                continue
            for i, p in c["table"]:
                def go(c=c, i=i, p=p, op=op):
                    if p == "I":
                        # commutes with everything: the operation must leave that qubit alone
                        for q in "XZ":
                            r = equiv(wrap(c["hugr"], i, q, True), wrap(c["hugr"], i, q, False))
                            if r:
                                return r
                        return None
                    return equiv(wrap(c["hugr"], i, p, True), wrap(c["hugr"], i, p, False))
                ctx.prove(f"qubit_commutation/{op}: {op} commutes with {p} on qubit {i}, for all angles", SYMVC, go)
        elif k == "pauli":
            a, b = c["pauli"]
            ma, mb = PAULI[a](EX), PAULI[b](EX)
            x, y = G.matmul(EX, ma, mb), G.matmul(EX, mb, ma)
            com = all(EX.eq(x[r][s], y[r][s]) for r in range(2) for s in range(2))
            ctx.prove(f"Pauli::commutes_with({a}, {b}) == {com}", "exact matrices over Q[i]", lambda c=c, com=com: None if c["commute"] == com else (f"{c['commute']}", c, True))
        else:
            moved += bool(c.get("moved"))

            def go(c=c):
                r = pass_case(c)
                if r:
                    return r
                return equiv(c["before"], c["after"]) if c["moved"] else None
            ctx.prove(f"apply_greedy_commutation/{c['case']}: same action for all angles, depth and gates kept", SYMVC, go)
    if n["table"] < 20 or n["pauli"] != 16 or n["pair"] < 500:
        raise RuntimeError(f"enumeration incomplete: {n}")
    t = {c["case"]: c for c in cases}
    if moved < 20:
        ctx.notes.append("few operations were moved")
    ctx.canary("H commutes with Z", equiv(wrap(t["table:H"]["hugr"], 0, "Z", True), wrap(t["table:H"]["hugr"], 0, "Z", False)) is not None)
    ctx.canary("CX commutes with X on its control", equiv(wrap(t["table:CX"]["hugr"], 0, "X", True), wrap(t["table:CX"]["hugr"], 0, "X", False)) is not None)
    ctx.canary("Measure commutes with X", equiv(wrap(t["table:Measure"]["hugr"], 0, "X", True), wrap(t["table:Measure"]["hugr"], 0, "X", False)) is not None)
    ctx.canary("Rz commutes with X", equiv(wrap(t["table:Rz"]["hugr"], 0, "X", True), wrap(t["table:Rz"]["hugr"], 0, "X", False)) is not None)

    n = 300 if ctx.tier == "quick" else 4000
    b = ctx.run_bounded("programs", f"random circuits of 2-5 qubits, up to 18 operations (movable gates, barriers, nested and conditional regions, angles computed from measurements, allocation and release); pass output compared as channels at random angles; non-trivial: at least one operation moved; seed {ctx.seed}")
    for c in ctx.native("commute-programs", ctx.seed, n):
        b["evaluations"] += 1
        r = pass_case(c)
        if r is None and c["moved"]:
            b["distinct_nontrivial"] += 1
            try:
                r = equiv(c["before"], c["after"], exact=False, rng=ctx.rng)
            except I.Unsupported:
                b["undecided"] += 1
        if r:
            ctx.violation(c["case"], *r)
    ctx.functions += ["TketOp::qubit_commutation", "Pauli::commutes_with", "apply_greedy_commutation, available_slice, commutes_at_slice, PullForward::apply (composed: every pair of operations on every overlap of their qubits)"]
    ctx.trusted += ["py/algebra.py normal form, py/interp.py, contracts of the tket operations (py/gates.py)", "hugr's graph and serialiser"]
    ctx.assumptions += ["lemma used beyond pairs: two operations that on every shared qubit commute with the same non-identity Pauli act on it through that Pauli's projectors, so they commute"]
