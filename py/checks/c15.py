"""C15: register names of exported circuits, and the implicit permutation."""
import itertools, json, os, tempfile
from checks.common import *
from checks.c04 import Prog, TQ, randprog

BE = "exhaustive over the stated finite domain, on the real encoder"
H = {f"c15_fresh{n}": f"names generated after any list of {n} names (indices below 2^62, any number of them) are new, and three in a row differ" for n in range(4)}


def trace(prog):
    """Chain of each qubit of the program: wire -> ('in', k) or ('new', wire), by linearity of the operations."""
    chain, k = {}, 0
    for i, t in enumerate(prog["in"]):
        if t == "q":
            chain[f"x{i}"] = ("in", k)
            k += 1
    for st in prog["body"]:
        if len(st) < 3 or st[0] == "const" or not isinstance(st[1], list):
            continue
        ins = [chain[w] for w in st[1] if w in chain]
        if st[0].endswith("QAlloc"):
            chain[st[2][0]] = ("new", st[2][0])
            continue
        if st[0].endswith((".QFree", ".MeasureFree")):
            continue
        for w, c in zip(st[2], ins):
            chain[w] = c
    return chain


def judge(req, out):
    prog = req["prog"]
    rep = dict(request=req, circuit=out.get("circuit"))
    if "error" in out or "panic" in out:
        raise RuntimeError(f"the test program could not be built: {out} {prog}")
    c = out["circuit"]
    if "panic" in c:
        return (f"the encoder panics: {c['panic']}"[:300], rep, True)
    if "rejected" in c:
        return (f"the encoder rejects the program: {c['rejected']}"[:300], rep, True)
    name = lambda r: (r[0], tuple(r[1]))
    qs, bs = [name(r) for r in c["qubits"]], [name(r) for r in c["bits"]]
    if len(set(qs + bs)) != len(qs + bs):
        d = [x for x in qs + bs if (qs + bs).count(x) > 1][0]
        return (f"two qubits or bits are called {d[0]}{list(d[1])}: qubits {c['qubits']} bits {c['bits']}", rep, True)
    meta = prog.get("meta", {})
    for got, key in ((qs, "TKET1.qubit_registers"), (bs, "TKET1.bit_registers")):
        want = [name(r) for r in meta.get(key, [])]
        if got[: len(want)] != want:
            return (f"the names the program gives to its registers change: {want} became {got}", rep, True)
    for cmd in c["commands"]:
        for a in cmd["args"]:
            if name(a) not in qs + bs:
                return (f"a command acts on {a}, which the circuit does not have", rep, True)
        if len({name(a) for a in cmd["args"]}) != len(cmd["args"]) and cmd["op"]["type"] not in ("ClExpr", "CopyBits", "SetBits", "Barrier") and "data" not in cmd["op"]:
            return (f"a command acts twice on a register: {cmd['args']}", rep, True)
    perm = [(name(a), name(b)) for a, b in c["implicit_permutation"]]
    p = dict(perm)
    if len(p) != len(perm) or set(p) != set(qs) or sorted(p.values()) != sorted(qs):
        return (f"the implicit permutation is not a permutation of the qubits: {c['implicit_permutation']}", rep, True)
    chain = trace(prog)
    for k, (w, t) in enumerate([o for o in prog["out"] if o[1] == "q"]):
        ch = chain[w]
        if ch[0] == "in" and p[qs[ch[1]]] != qs[k]:
            return (f"input qubit {ch[1]} ({qs[ch[1]]}) leaves at output {k} ({qs[k]}), the permutation sends it to {p[qs[ch[1]]]}", rep, True)
    return None


def cases(tier):
    mk = lambda p, outs, **kw: dict(prog=p.json(outs), **kw)
    IDX = [[0], [1], [2], [7], [65534], [65535], [65536], [70000], [2 ** 32], [-1], [], [0, 0], [1, 5]]
    names = [["q", i] for i in IDX] + [["c", i] for i in IDX] + [["z", [0]], ["qq", [3]]]

    def prog(qn, bn, nin, bits):
        p = Prog(" ".join(["q"] * nin + ["b"] * bits), meta={"TKET1.qubit_registers": qn, "TKET1.bit_registers": bn})
        a = p.op(TQ + "QAlloc", [], "q")
        b = p.op(TQ + "QAlloc", [], "q")
        m = []
        qs = [f"x{i}" for i in range(nin)] + [a, b]
        for i in (0, len(qs) - 1):
            qs[i], x = p.op(TQ + "Measure", [qs[i]], "q b")
            m.append(x)
        return mk(p, qs[::-1] + [f"x{nin+i}" for i in range(bits)] + m)

    ok = lambda l: len({json.dumps(x) for x in l}) == len(l)
    for x in names:
        for nin, bits in ((0, 0), (1, 1), (2, 0)):
            yield f"names:q:{x}:{nin}", prog([x], [], nin, bits)
            yield f"names:b:{x}:{nin}", prog([], [x], nin, bits)
    for x, y in itertools.product(names, repeat=2):
        if x == y:
            continue
        yield f"names:qq:{x}{y}", prog([x, y], [], 2, 1)
        yield f"names:bb:{x}{y}", prog([], [x, y], 1, 2)
        yield f"names:qb:{x}{y}", prog([x], [y], 1, 1)
    if tier != "quick":
        for x, y, z in itertools.permutations(names[:16], 3):
            yield f"names:qqb:{x}{y}{z}", prog([x, y], [z], 1, 1)
            yield f"names:qbb:{x}{y}{z}", prog([x], [y, z], 1, 1)
    # every order of the outputs, with allocated, released and re-allocated qubits
    for n in range(0, 5):
        for al, fr in itertools.product(range(0, 3), range(0, n + 1)):
            if n - fr + al > (4 if tier == "quick" else 5) or fr > 2:
                continue
            for early in (0, 1):
                for frees in itertools.combinations(range(n), fr):
                    base = Prog(" ".join(["q"] * n))
                    live = []
                    if early:
                        for i in frees:
                            base.op(TQ + "QFree", [f"x{i}"], "")
                    live += [base.op(TQ + "QAlloc", [], "q") for _ in range(al)]
                    live = [f"x{i}" for i in range(n) if i not in frees] + live
                    if len(live) > 1:
                        live[0], live[-1] = base.op(TQ + "CX", [live[0], live[-1]], "q q")
                    if not early:
                        for i in frees:
                            base.op(TQ + "QFree", [f"x{i}"], "")
                    ps = list(itertools.permutations(range(len(live))))
                    for pm in ps if len(ps) <= 24 else ps[:: 7]:
                        yield f"perm:{n}:{al}:{frees}:{early}:{pm}", mk(base, [live[i] for i in pm])
    for names3 in ([["q", [0]], ["q", [1]], ["q", [2]]], [["q", [2]], ["a", [0]], ["q", [0]]], [["b", [1]], ["b", [0]], ["a", [9]], ["q", [4]], ["q", [1]]]):
        for pm in itertools.permutations(range(3)):
            p = Prog("q q q", meta={"TKET1.qubit_registers": names3})
            yield f"perm:names:{names3}:{pm}", mk(p, [f"x{i}" for i in pm])
            p = Prog("q q q", meta={"TKET1.qubit_registers": names3})
            p.op(TQ + "QFree", ["x0"], "")
            w = ["x1", "x2", p.op(TQ + "QAlloc", [], "q")]
            yield f"perm:names:free:{names3}:{pm}", mk(p, [w[i] for i in pm])


def run(ctx):
    ctx.kani(H, features="c15")
    reqs = dict(cases(ctx.tier))
    n = 1500 if ctx.tier == "quick" else 15000
    rnd = {}
    for i in range(n):
        p = randprog(ctx.rng, False)
        p["body"] = [s for s in p["body"]]
        pool = [[r, [k]] for r in ("q", "c", "d") for k in (0, 1, 2, 3, 9)]
        ctx.rng.shuffle(pool)
        a, b = ctx.rng.randint(0, 4), ctx.rng.randint(0, 4)
        p["meta"] = {"TKET1.qubit_registers": pool[:a], "TKET1.bit_registers": pool[a:a + b]}
        if any(s[0] == "cond" for s in p["body"]):
            continue
        rnd[f"random:{i}"] = dict(prog=p)
    fd, path = tempfile.mkstemp(suffix=".jsonl")
    with os.fdopen(fd, "w") as f:
        for k, r in {**reqs, **rnd}.items():
            f.write(json.dumps(dict(case=k, **r)) + "\n")
    outs = {c["case"]: c for c in ctx.native("encode", path)}
    os.unlink(path)
    for k in reqs:
        if k not in outs:
            raise RuntimeError(f"no answer for {k}: {list(outs.values())[-1]}")
    ctx.prove_all([(f"{k}: distinct names, kept names, the permutation is a permutation and follows the wires", lambda k=k, r=r: judge(r, outs[k])) for k, r in reqs.items()], BE)

    def wrong(k, mut):
        o = json.loads(json.dumps(outs[k]))
        mut(o["circuit"])
        return judge(reqs[k], o) is not None
    k = "perm:3:0:():0:(1, 2, 0)"
    ctx.canary("inverse permutation", wrong(k, lambda c: c.update(implicit_permutation=[[b, a] for a, b in c["implicit_permutation"]])))
    ctx.canary("identity permutation", wrong(k, lambda c: c.update(implicit_permutation=[[a, a] for a, b in c["implicit_permutation"]])))
    ctx.canary("partial permutation", wrong(k, lambda c: c["implicit_permutation"].pop()))
    ctx.canary("the same name twice", wrong(k, lambda c: c["bits"].append(c["qubits"][0])))
    b = ctx.run_bounded("random", f"random programs with random names for some of their registers; non-trivial: the circuit has at least two registers; seed {ctx.seed}")
    ctx.bounded_all(b, [(k, lambda k=k, r=r: judge(r, outs[k]), len(outs[k].get("circuit", {}).get("qubits", [])) > 1) for k, r in rnd.items()])
    ctx.functions += ["RegisterUnitGenerator::{new, next} (Kani, compiled from the real source file)", "ValueTracker::{new, new_qubit, new_bit, finish}, compute_final_permutation (through EncodedCircuit::new_standalone)"]
    ctx.trusted += ["Kani 0.68 / CBMC 6.11", "tket-json-rs register types", "hugr's linearity: an operation's qubits leave in the order they come in"]
    ctx.assumptions += ["lists of up to 3 existing names in the proof (the loop is a fold of max over them); up to 3 names generated in a row", "indices below 2^62", "programs whose metadata gives the same name twice are malformed"]
