"""C13: the hash of a circuit."""
import itertools, json, os, random, tempfile
from checks.common import *
from checks.c10 import B

Q = "tket.quantum."
BE = "exhaustive over the stated family, on the real hash"
H = {
    "c13_ops": "two leaves on the same values have the same hash exactly if their operations agree in extension, name, arguments, tag, type arguments and printed text",
    "c13_arity0": "an operation on two values and one on none have different hashes",
    "c13_arity1": "an operation on two values and one on the first of them have different hashes",
    "c13_values": "two leaves with the same operation have the same hash exactly if their inputs come from the same ports of nodes with the same hash, or of the same function or constant outside the region",
    "c13_links": "the links of a port have no order",
    "c13_region": "the hash of a region does not depend on the order in which its nodes are visited, nor on their numbers (nor does that of a circuit)",
    "c13_region_rev": "the same with the numbers reversed",
    "c13_region_apart": "two regions of two operations have the same hash exactly if the operations, their operands and the outputs are the same",
    "c13_errors": "what is no dataflow region, or has a cycle above its output, is reported as such",
}


# ------------------------------------------------------------------ what the hash must tell apart
class Key:
    """The operation trees above the outputs, as interned structures: equal trees, equal numbers."""

    def __init__(self):
        self.ids = {}

    def mk(self, *x):
        return self.ids.setdefault(x, len(self.ids))

    def region(self, body, env, funcs):
        order = {}
        for st in body:
            k = st[0]
            if k == "const":
                env[st[3]] = (self.mk("load", self.mk("const", st[1], json.dumps(st[2]))), 0)
            elif k == "dfg":
                inner = dict(env)
                for j, i in enumerate(st[1]):
                    inner[i[0]] = (self.mk("in"), j)
                outs = self.region(st[2], inner, funcs)
                n = self.mk("dfg", tuple(inner[w] for w, _ in st[3]), tuple(env[i[1]] for i in st[1]))
                for j, w in enumerate(st[4]):
                    env[w] = (n, j)
            elif k == "call":
                n = self.mk("call", st[1], tuple(env[w] for w in st[2]))
                for j, w in enumerate(st[3]):
                    env[w] = (n, j)
            elif k == "loadf":
                env[st[2]] = (self.mk("loadf", st[1]), 0)
            else:
                n = self.mk("op", k, tuple(env[w] for w in st[1]))
                for j, w in enumerate(st[2]):
                    env[w] = (n, j)
        return env

    def of(self, p):
        env = {f"x{i}": (self.mk("in"), i) for i in range(len(p["in"]))}
        env = self.region(p["body"], env, p.get("funcs"))
        return tuple(env[w] for w, _ in p["out"])


def fun(name, op):
    return {"name": name, "in": ["q"], "out": [["y", "q"]], "body": [[Q + op, ["x0"], ["y"]]]}


FUNCS = [fun("f", "H"), fun("g", "T"), fun("f2", "H"), {"name": "d", "in": ["q"], "out": ["q"]}, {"name": "e", "in": ["q"], "out": ["q"]}]


def family(tier):
    # every word on two qubits
    def one(op, *qs):
        return lambda b: b.g(op, *qs)
    def rot(op, arg):
        return lambda b: b.g(op, 0, r=[b.r[0] if arg is None else b.const("r", arg)])
    def call(f, q):
        def go(b):
            w = b.new()
            b.body.append(["call", f, [b.q[q]], [w]])
            b.q[q] = w
        return go
    def dfg(op, swap):
        def go(b):
            i = [b.new() for _ in range(6)]
            if not op:
                i[2:4] = i[0:2]
            b.body.append(["dfg", [[i[0], b.q[0], "q"], [i[1], b.q[1], "q"]], [[Q + op, [i[0], i[1]], [i[2], i[3]]]] if op else [], [[w, "q"] for w in ([i[3], i[2]] if swap else [i[2], i[3]])], [i[4], i[5]]])
            b.q[:] = [i[4], i[5]]
        return go
    alph = {"H0": one("H", 0), "H1": one("H", 1), "T0": one("T", 0), "Tdg0": one("Tdg", 0), "X1": one("X", 1), "CX01": one("CX", 0, 1), "CX10": one("CX", 1, 0), "CZ01": one("CZ", 0, 1), "CRz0": lambda b: b.g("CRz", 0, 1, r=[b.r[0]]),
            "Rz": rot("Rz", None), "Rx": rot("Rx", None), "Rz.25": rot("Rz", 0.25), "Rz.5": rot("Rz", 0.5), "f": call("f", 0), "g": call("g", 0), "f2": call("f2", 0), "d": call("d", 0), "e": call("e", 0), "dfg": dfg("CX", 0), "dfgs": dfg("CX", 1), "dfgz": dfg("CZ", 0), "id": dfg("", 0), "swap": dfg("", 1)}
    for n in range(0, 4):
        for i, w in enumerate(itertools.product(alph, repeat=n)):
            if n == 3 and i % (9 if tier == "quick" else 2):
                continue
            for sw in (0, 1):
                b = B(2, 0, 1)
                for a in w:
                    alph[a](b)
                yield f"word:{'.'.join(w)}:{sw}", dict(b.done([[q, "q"] for q in (b.q[::-1] if sw else b.q)]), funcs=FUNCS)
    # three qubits: every wiring of a two-qubit operation and of the outputs
    for a, c, perm in itertools.product(itertools.permutations(range(3), 2), itertools.permutations(range(3), 2), itertools.permutations(range(3))):
        b = B(3)
        b.g("CX", *a), b.g("CRz", *c, r=[b.const("r", 0.125)])
        yield f"wires:{a}{c}{perm}", dict(b.done([[b.q[i], "q"] for i in perm]), funcs=FUNCS)
    # constants
    for kind, vals in {"r": [0.0, 0.25, 0.5, 1.0, 1.5, 1e-9, 0.1, 0.30000000000000004, 0.3], "f": [0.0, 0.25, -0.25, 1.0, 1e300, 5e-324, 0.1, 0.3, 0.30000000000000004], "b": [True, False], "tb": [True, False], "u": [0, 1, 2, 2 ** 40],
                       "tup:b,b": [[["b", x], ["b", y]] for x in (True, False) for y in (True, False)], "tup:f,u": [[["f", x], ["u", y]] for x in (0.5, 1.5) for y in (1, 2)]}.items():
        for v in vals:
            b = B(0)
            w = b.const(kind, v)
            yield f"const:{kind}:{v}", b.done([[w, kind]])
            if kind == "f":
                for v2 in vals:
                    b = B(0)
                    w, w2 = b.const(kind, v), b.const(kind, v2)
                    yield f"const2:{v}:{v2}", b.done([[w, kind], [w2, kind]])
                    b = B(0)
                    w, w2 = b.const(kind, v), b.const(kind, v2)
                    s = b.op("arithmetic.float.fsub", [w, w2])[0]
                    yield f"fsub:{v}:{v2}", b.done([[s, kind]])
    # parameters of operations
    for o, i, t in [("noop q", "q", "q"), ("noop b", "b", "b"), ("noop f", "f", "f"), ("barrier q", "q", "q"), ("barrier b", "b", "b"), ("tup b", "b", "tup:b"), ("tup b;b", "bb", "tup:b,b"), ("tup b;f", "bf", "tup:b,f"), ("tag 0|b|b", "b", "sum:b|b"), ("tag 1|b|b", "b", "sum:b|b"), ("tag 0|b|f", "b", "sum:b|f"), ("tag 1|f|b", "b", "sum:f|b"), ("newarr 2 q", "qq", "arr:2,q"), ("newarr 1 q", "q", "arr:1,q")]:
        for pm in itertools.permutations(range(len(i))):
            if any(i[a] != i[k] for k, a in enumerate(pm)):
                continue
            b = B(0)
            b.ins = list(i)
            w = b.op(o, [f"x{k}" for k in pm])[0]
            yield f"args:{o}:{pm}", b.done([[w, t]])
    for x in ["a", "b", "a+b", "b+a", "a*b", "sin(a)", "", "a ", "2*a", "3*a"]:
        b = B(1)
        w = b.op("sympy " + x, [])[0]
        b.g("Rz", 0, r=[w])
        yield f"sympy:{x}", b.done()
    # classical fan-out and operand order
    for op in ("logic.And", "logic.Or", "logic.Xor"):
        for a, c, d in itertools.product(range(3), repeat=3):
            b = B(0, 3)
            y = b.op(op, [b.b[a], b.b[c]])[0]
            z = b.op("logic.Or", [y, b.b[d]])[0]
            for outs in ([z, y], [y, z], [z, z]):
                yield f"bits:{op}:{a}{c}{d}:{[o == z for o in outs]}", b.done([[o, "b"] for o in outs])
    for k, (n1, n2) in enumerate(itertools.product(range(3), repeat=2)):
        # measured after a gate or not, the results in either order
        for pm in (0, 1):
            b = B(2)
            for _ in range(n1):
                b.g("H", 0)
            for _ in range(n2):
                b.g("X", 1)
            q, m = b.op(Q + "Measure", [b.q[0]], 2)
            q2, m2 = b.op(Q + "Measure", [b.q[1]], 2)
            yield f"measure:{n1}{n2}{pm}", b.done([[q, "q"], [q2, "q"]] + [[w, "b"] for w in ((m, m2) if pm else (m2, m))])


def run(ctx):
    thorough = ctx.tier != "quick"
    cases = dict(family(ctx.tier))
    K = Key()
    keys = {k: K.of(p) for k, p in cases.items()}
    rng = random.Random(ctx.seed)
    fd, path = tempfile.mkstemp(suffix=".jsonl")
    with os.fdopen(fd, "w") as f:
        for k, p in cases.items():
            f.write(json.dumps(dict(case=k, prog=p)) + "\n")
    outs = {c["case"]: c for c in ctx.native("hash", path, 4 if thorough else 2)}
    os.unlink(path)
    b = ctx.run_bounded("circuits", f"the hash of {len(cases)} enumerated circuits and of copies of each with the nodes inserted in other orders and with other indices: equal within a circuit, different between circuits whose operations, constants, operands or wiring differ; non-trivial: more than one insertion order")
    by = {}
    for k, p in cases.items():
        o = outs.get(k)
        if o is None or o.get("error", "").startswith("build"):
            raise RuntimeError(f"{k}: {o}")
        if "panic" in o or "error" in o or o["hash"].startswith("error"):
            ctx.violation(f"hash/{k}", f"no hash: {o}"[:300], dict(program=p, got=o))
            continue
        b["evaluations"] += 1
        b["distinct_nontrivial"] += o["orders"] > 1
        if o["bad"]:
            ctx.violation(f"order/{k}", o["bad"][0], dict(program=p, got=o))
        by.setdefault(o["hash"], {}).setdefault(keys[k], k)
    seen = {}
    for k in cases:
        h = outs[k].get("hash")
        if seen.setdefault(keys[k], (h, k))[0] != h:
            ctx.violation(f"same/{k}", f"the same circuit as {seen[keys[k]][1]} has another hash", dict(a=cases[k], b=cases[seen[keys[k]][1]]))
    for h, ks in by.items():
        if len(ks) > 1:
            a, c = list(ks.values())[:2]
            ctx.violation(f"apart/{a}/{c}", f"different circuits have the hash {h}: {list(ks.values())[:6]}", dict(a=cases[a], b=cases[c]))
    ops = {}
    for o in ctx.native("hash-ops"):
        if o.get("skip") or "panic" in o:  # an operation that needs arguments
            continue
        if "hash" not in o:
            raise RuntimeError(f"hash-ops: {o}")
        b["evaluations"] += 1
        k = (o["hash"], o["sig"])
        if k in ops and o["outputs"]:
            ctx.violation(f"ops/{o['case']}", f"the same hash as {ops[k]}", o)
        ops[k] = o["case"]
    b["samples"] = [dict(case=k, hash=outs[k]["hash"]) for k in list(cases)[:3]]
    if len(ops) < 60:
        raise RuntimeError(f"only {len(ops)} operations were hashed")
    # canaries: the oracle tells circuits apart and finds the same ones
    ks = list(keys)
    ctx.canary("the oracle tells apart", keys["word:H0:0"] != keys["word:T0:0"] and keys["word:f:0"] != keys["word:g:0"] and keys["word:f:0"] != keys["word:f2:0"])
    ctx.canary("the oracle identifies", keys["word:H0.H1:0"] == keys["word:H1.H0:0"] and keys["word:CX01:0"] != keys["word:CX10:0"])
    ctx.kani(H, timeout=500, fuzz=2000, label="Kani (CBMC) on the real source of tket/src/circuit/hash.rs", crate="kanih", exe="replayh")
    ctx.functions += ["tket::circuit::hash::{hash_node, hashable_op, CircuitHash::circuit_hash (Hugr, Circuit)}"]
    ctx.trusted += [
        "the 64-bit hash functions of fxhash: by contract, different sequences of words have different hashes (a collision is outside the property)",
        "format!, OpType::to_string, qualified_id, serde_json::to_string: by contract, the text determines its parts; region_portgraph and petgraph's Topo give the nodes of the region in a topological order",
        "bounds of the contracts: leaves with at most two inputs, regions of two operations; more in the bounded part",
    ]
