"""C03: importing a pytket circuit keeps the meaning of every command."""
import itertools, json, os, random, tempfile
from checks.common import *
import pytk as P

Q3 = [["q", [0]], ["r", [1]], ["q", [2]], ["w", [0]]]
B3 = [["c", [0]], ["d", [5]], ["c", [1]], ["e", [0]], ["c", [9]]]


def circ(nq, nb, commands, perm=None, name=None):
    qs, bs = Q3[:nq], B3[:nb]
    if perm is None:
        perm = [(i, i) for i in range(nq)]
    c = dict(phase="0", qubits=qs, bits=bs, commands=[], implicit_permutation=[[qs[a], qs[b]] for a, b in perm])
    for op, qa, ba in commands:
        # bits before qubits for conditional operations, as pytket writes them
        w = op["conditional"]["width"] if op["type"] == "Conditional" else 0
        c["commands"].append(dict(op=op, args=[bs[b] for b in ba[:w]] + [qs[q] for q in qa] + [bs[b] for b in ba[w:]]))
    if name:
        c["name"] = name
    return c


def op(t, *params, **kw):
    d = dict(type=t, **kw)
    if params:
        d["params"] = list(params)
    return d


def cl(e, nbits, ins, outs, regs=()):
    """A ClExpr over nbits command bits; ins: bit variable -> position."""
    return dict(type="ClExpr", expr=dict(bit_posn=[[i, p] for i, p in enumerate(ins)], reg_posn=[[i, list(r)] for i, r in enumerate(regs)], output_posn=list(outs), expr=e))


def var(i):
    return dict(type="term", input=dict(type="var", term=dict(type="bit", var=dict(index=i))))


def regvar(i):
    return dict(type="term", input=dict(type="var", term=dict(type="reg", var=dict(index=i))))


def lit(v):
    return dict(type="term", input=dict(type="int", term=v))


def sub(e):
    return dict(type="expr", input=e)


def ex_(o, *args):
    return dict(op=o, args=list(args))


def box(c):
    return dict(type="CircBox", box=dict(type="CircBox", id="3f0b7e4c-6f0a-4c7a-9b57-0d1f4b2a9b1%d" % (len(c["commands"]) % 10), circuit=c))


def cond(o, width, value):
    return dict(type="Conditional", conditional=dict(op=o, width=width, value=value))


def has_q(t):
    return t == "q"


def judge(req, out):
    if "panic" in out:
        return (f"the decoder panics: {out['panic'][:300]}", dict(request=req), True)
    if "rejected" in out or "error" in out:
        return (f"the decoder rejects the circuit: {out.get('rejected', out.get('error'))[:300]}", dict(request=req), True)
    if out["valid"]:
        return (f"the decoded program is invalid: {out['valid'][:300]}", dict(request=req), True)
    c = req["circuit"]
    try:
        h = I.Hugr(out["hugr"])
        f = fn_of(h)
    except I.Stuck as e:
        return (f"ill-formed graph: {e}", dict(request=req), True)
    sig = h.nodes[f]["signature"]
    sig = sig.get("body", sig)
    names = out["params"] or []
    dflt = ["q"] * len(c["qubits"]) + ["b"] * len(c["bits"])
    want_in, want_out = req.get("signature", {}).get("in", dflt), req.get("signature", {}).get("out", dflt)
    TY = dict(q=("q",), f=("float",), r=("rot",), tb=("tbool",), b=("sum", [[], []]))
    got_in = [I.ty_of(t) for t in sig["input"]]
    got_out = [I.ty_of(t) for t in sig["output"]]
    exp_in = [TY[t] for t in want_in]
    exp_in += [("rot",)] * (len(got_in) - len(exp_in))
    if got_in != exp_in or got_out != [TY[t] for t in want_out]:
        return (f"wrong signature: {got_in} -> {got_out}", dict(request=req, after=out["hugr"]), True)
    kinds = want_in + ["r"] * (len(got_in) - len(want_in))
    pos = [i for i, t in enumerate(kinds) if t in "fr"]
    named = dict(zip(pos, names))
    if len(names) > len(pos):
        return (f"parameter names {names} for {len(pos)} inputs", dict(request=req, after=out["hugr"]), True)

    def run(alg, values, assign):
        def bind(n):
            i = int(n.split(".")[0][1:])
            return values("var:" + named[i]) if i in named else values(f"unused{i}")

        class E(P.TkExec):
            varf = staticmethod(values)

        def ref(ex, args):
            qs, bs = [], []
            for t, a in zip(kinds, args):
                if t == "q":
                    qs.append(a)
                elif t in ("b", "tb"):
                    bs.append(a.tag if t == "b" else int(a.b))
            bs = bs[: len(c["bits"])]
            qs += [ex.new_slot() for _ in range(len(c["qubits"]) - len(qs))]
            bs += [0] * (len(c["bits"]) - len(bs))
            oq, ob = P.circuit(ex, c, qs, bs, values)
            oq, ob = iter(oq), iter(ob)
            return [next(oq) if t == "q" else I.Sum(next(ob)) for t in want_out]

        cls = lambda n, k: assign.get(n, 0) % k
        d1 = I.run_paths(h, f, alg, bind, cls, E, runner=ref)
        try:
            d2 = I.run_paths(h, f, alg, bind, cls, E)
        except I.Stuck as e:
            return f"the decoded program has no meaning: {e}"
        return I.compare(alg, d1, d2)

    for assign in classical_inputs(h, f):
        r = run(EX, lambda n: sym(n), assign) if req.get("exact", True) else None
        if r is None and req.get("exact", True):
            continue
        for s in range(4):
            rng = random.Random(f"{s}{req.get('seed', 0)}")
            cache = {}

            def val(n):
                if n not in cache:
                    cache[n] = rng.uniform(-3, 3)
                return cache[n]
            n = run(NU, val, assign)
            if n is not None:
                return (n, dict(request=req, params=cache, classical=assign, symbolic=r, after=out["hugr"]), True)
            if not req.get("exact", True):
                break
        if r is not None:
            return (r, dict(request=req, classical=assign, after=out["hugr"]), False)
    return None


ONE = "H T Tdg S Sdg V Vdg X Y Z".split()
OPS = {  # name -> (operation, qubits, bits, qsystem decoder only)
    **{g: (op(g), 1, 0) for g in ONE},
    "CX": (op("CX"), 2, 0), "CY": (op("CY"), 2, 0), "CZ": (op("CZ"), 2, 0), "CCX": (op("CCX"), 3, 0),
    "CRz": (op("CRz", "a"), 2, 0), "Rx": (op("Rx", "a"), 1, 0), "Ry": (op("Ry", "-a + 0.25"), 1, 0), "Rz": (op("Rz", "2*a/b"), 1, 0),
    "Measure": (op("Measure"), 1, 1), "Reset": (op("Reset"), 1, 0), "noop": (op("noop"), 1, 0),
    "Barrier1": (op("Barrier"), 1, 0), "Barrier3": (op("Barrier", signature=["Q"] * 3), 3, 0), "BarrierQB": (op("Barrier", signature=["Q", "Q", "B"]), 2, 1), "BarrierB": (op("Barrier", signature=["B", "B"]), 0, 2),
    "PhasedX": (op("PhasedX", "a", "b"), 1, 0), "ZZPhase": (op("ZZPhase", "a"), 2, 0), "ZZMax": (op("ZZMax"), 2, 0),
    "TK1": (op("TK1", "a", "-b", "0.5"), 1, 0), "TK2": (op("TK2", "a", "b", "c"), 2, 0), "SWAP": (op("SWAP"), 2, 0), "Wq": (op("CnX"), 4, 0),
    "SetBits": (op("SetBits", classical=dict(values=[True, False])), 0, 2),
    "CopyBits": (op("CopyBits", classical=dict(n_i=1)), 0, 2),
    "Range": (op("RangePredicate", classical=dict(n_i=2, lower=1, upper=2)), 0, 3),
    "Explicit": (op("ExplicitPredicate", classical=dict(n_i=2, name="p", values=[True, False, False, True])), 0, 3),
    "CondX": (cond(op("X"), 1, 1), 1, 1), "CondRz": (cond(op("Rz", "a"), 2, 2), 1, 2), "CondMeas": (cond(op("Measure"), 1, 0), 1, 2), "CondCX": (cond(op("CX"), 2, 3), 2, 2),
    "CondSet": (cond(op("SetBits", classical=dict(values=[True])), 1, 1), 0, 2),
}
BOXES = {
    "box-h-cx": (circ(2, 0, [(op("H"), [0], []), (op("CX"), [1, 0], [])]), 2, 0),
    "box-swap": (circ(2, 0, [(op("T"), [0], [])], perm=[(0, 1), (1, 0)]), 2, 0),
    "box-cycle": (circ(3, 0, [(op("S"), [1], []), (op("CX"), [0, 2], [])], perm=[(0, 1), (1, 2), (2, 0)]), 3, 0),
    "box-measure": (circ(1, 2, [(op("X"), [0], []), (op("Measure"), [0], [1])]), 1, 2),
    "box-cond": (circ(2, 1, [(cond(op("CX"), 1, 1), [1, 0], [0])]), 2, 1),
    "box-const": (circ(1, 0, [(op("Rx", "0.3"), [0], [])]), 1, 0),
    "box-symbol": (circ(1, 0, [(op("Rx", "a"), [0], [])]), 1, 0),
    "box-symbols": (circ(2, 0, [(op("Rx", "b"), [0], []), (op("Rz", "a - b"), [1], []), (op("H"), [1], [])]), 2, 0),
    "box-empty": (circ(1, 1, []), 1, 1),
    "box-bits": (circ(0, 2, [(op("SetBits", classical=dict(values=[True])), [], [1])]), 0, 2),
}
OPS.update({k: (box(c), n, m) for k, (c, n, m) in BOXES.items()})
OPS["box-box"] = (box(circ(2, 1, [(OPS["box-swap"][0], [0, 1], []), (op("H"), [1], []), (OPS["box-cond"][0], [1, 0], [0])])), 2, 1)
OPS["box-box-symbol"] = (box(circ(2, 0, [(OPS["box-symbols"][0], [1, 0], []), (op("Ry", "c"), [0], [])])), 2, 0)


def clcases():
    for o, n in dict(BitAnd=2, BitOr=2, BitXor=2, BitEq=2, BitNeq=2, BitNot=1, BitZero=0, BitOne=0).items():
        v = [var(i) for i in range(n)]
        yield f"{o}", cl(ex_(o, *v), n + 1, range(n), [n]), n + 1
        if n == 2:
            yield f"{o}-rev", cl(ex_(o, var(1), var(0)), 3, [0, 1], [2]), 3
            yield f"{o}-pos", cl(ex_(o, var(0), var(1)), 3, [1, 0], [2]), 3
            yield f"{o}-mid", cl(ex_(o, var(0), var(1)), 3, [0, 2], [1]), 3
            yield f"{o}-front", cl(ex_(o, var(0), var(1)), 3, [1, 2], [0]), 3
            yield f"{o}-over", cl(ex_(o, var(0), var(1)), 2, [0, 1], [0]), 2
            yield f"{o}-over2", cl(ex_(o, var(0), var(1)), 2, [0, 1], [1]), 2
            yield f"{o}-same", cl(ex_(o, var(0), var(0)), 2, [0], [1]), 2
            yield f"{o}-lit", cl(ex_(o, var(0), lit(1)), 2, [0], [1]), 2
            yield f"{o}-lit3", cl(ex_(o, var(0), lit(1)), 3, [0, 1], [2]), 3
            yield f"{o}-lit0", cl(ex_(o, lit(0), var(1)), 3, [0, 1], [2]), 3
            yield f"{o}-sub", cl(ex_(o, var(0), sub(ex_("BitNot", var(1)))), 3, [0, 1], [2]), 3
            yield f"{o}-sub2", cl(ex_(o, sub(ex_("BitNot", var(0))), var(1)), 3, [0, 1], [2]), 3
        if n == 1:
            yield f"{o}-over", cl(ex_(o, var(0)), 1, [0], [0]), 1
            yield f"{o}-rev", cl(ex_(o, var(0)), 2, [1], [0]), 2
            yield f"{o}-lit", cl(ex_(o, lit(1)), 2, [0], [1]), 2
            yield f"{o}-sub", cl(ex_(o, sub(ex_("BitAnd", var(0), var(1)))), 3, [0, 1], [2]), 3
            yield f"{o}-sub1", cl(ex_(o, sub(ex_("BitNot", var(0)))), 2, [0], [1]), 2
    for o in ("BitAnd", "BitOr", "BitXor"):
        yield f"{o}-3", cl(ex_(o, var(0), var(1), var(2)), 4, [0, 1, 2], [3]), 4
    yield "BitAnd-1", cl(ex_("BitAnd", var(0)), 2, [0], [1]), 2
    for o in ("RegAnd", "RegOr", "RegXor", "RegAdd"):
        yield f"{o}", cl(ex_(o, regvar(0), regvar(1)), 3, [], [2], regs=[[0], [1]]), 3
        yield f"{o}-wide", cl(ex_(o, regvar(0), regvar(1)), 5, [], [4], regs=[[0, 1], [2, 3]]), 5
    for o in ("BitAnd", "BitXor"):
        yield f"{o}-reg", cl(ex_(o, regvar(0), regvar(1)), 3, [], [2], regs=[[0], [1]]), 3
        yield f"{o}-regswap", cl(ex_(o, regvar(0), regvar(1)), 3, [], [2], regs=[[1], [0]]), 3
        yield f"{o}-regbit", cl(ex_(o, var(0), regvar(1)), 3, [0], [2], regs=[[1]] ), 3
    yield "RegEq", cl(ex_("RegEq", regvar(0), regvar(1)), 5, [], [4], regs=[[0, 1], [2, 3]]), 5


for k, o, m in clcases():
    if k.endswith("-regbit"):
        o["expr"]["reg_posn"] = [[1, [1]]]
    OPS["ClExpr-" + k] = (o, 0, m)
QONLY = {"PhasedX", "ZZPhase", "ZZMax"}

# The value-level inputs that make a classical operation visible: all bits are inputs and outputs.


def cases(tier):
    for k, (o, n, m) in OPS.items():
        nq = min(4, max(n + 1, 2)) if n < 4 else 4
        nb = min(5, m + 1)
        # every assignment of registers to the arguments
        bas = list(itertools.permutations(range(nb), m))
        qas = list(itertools.permutations(range(nq), n))
        for qa in qas:
            for ba in (bas if m <= 2 else bas[:: max(1, len(bas) // 6)]):
                if n and m and qa != qas[0] and ba != bas[0] and tier == "quick" and (qas.index(qa) + bas.index(ba)) % 3:
                    continue
                for qsys in ((False, True) if k in QONLY or qa == qas[-1] else (False,)):
                    yield f"op:{k}:{'qsystem:' if qsys else ''}{''.join(map(str, qa))}/{''.join(map(str, ba))}", dict(circuit=circ(nq, nb, [(o, qa, ba)]), qsystem=qsys)
    # what follows sees the registers as the command left them
    probes = [("CRz", [(0, 1), (1, 0)], [()]), ("Measure", [(0,), (1,)], [(0,), (1,)]), ("TK2", [(1, 0)], [()]), ("CondCX", [(0, 1)], [(0, 1), (1, 0)]),
              ("ClExpr-BitAnd", [()], [(0, 1, 2), (2, 1, 0), (1, 2, 0)]), ("ClExpr-BitNot", [()], [(0, 1), (1, 0), (2, 1)]), ("BarrierQB", [(1, 0)], [(1,)]), ("box-measure", [(1,)], [(1, 0)]), ("Reset", [(0,)], [()]), ("SetBits", [()], [(1, 2)]), ("CopyBits", [()], [(0, 2), (1, 0)])]
    for k, (o, n, m) in OPS.items():
        if n > 2 or m > 3:
            continue
        for p, pqs, pbs in probes:
            for pq, pb in itertools.product(pqs, pbs):
                po = OPS[p][0]
                yield f"pair:{k}>{p}:{''.join(map(str, pq))}/{''.join(map(str, pb))}", dict(circuit=circ(2, 3, [(o, range(n), range(m)), (po, pq, pb)]), qsystem=k in QONLY)
                yield f"pair:{p}:{''.join(map(str, pq))}/{''.join(map(str, pb))}>{k}", dict(circuit=circ(2, 3, [(po, pq, pb), (o, range(n), range(m))]), qsystem=k in QONLY)
    # implicit permutations, in every order of the list, and partial lists
    for n in (1, 2, 3, 4):
        mark = [(op(g), [i], []) for i, g in enumerate(["T", "H", "V", "X"][:n])] + ([(op("CX"), [0, n - 1], [])] if n > 1 else [])
        for p in itertools.permutations(range(n)):
            yield f"perm:{p}", dict(circuit=circ(n, 1, mark, perm=list(enumerate(p))))
            yield f"perm:reversed{p}", dict(circuit=circ(n, 1, mark, perm=list(enumerate(p))[::-1]))
            moved = [(a, b) for a, b in enumerate(p) if a != b]
            yield f"perm:partial{p}", dict(circuit=circ(n, 1, mark, perm=moved))
            yield f"perm:box{p}", dict(circuit=circ(n, 0, [(box(circ(n, 0, mark, perm=list(enumerate(p)))), range(n)[::-1], [])]))
            yield f"perm:signature{p}", dict(circuit=circ(n, 1, mark, perm=list(enumerate(p))), signature={"in": ["q"] * (n - 1), "out": ["q"] * (n - 1)})
    # signatures
    body = [(op("Rx", "a"), [0], []), (op("CX"), [0, 1], []), (op("Rz", "b*a"), [1], []), (op("Measure"), [1], [0]), (cl(ex_("BitXor", var(0), var(1)), 3, [0, 1], [2]), [], [0, 1, 2]), (op("Ry", "c"), [2], [])]
    for i, s in enumerate([
        (["q", "q", "q", "b", "b", "b"], ["q", "q", "q", "b", "b", "b"]), (["q", "q", "q", "tb", "tb", "tb"], ["q", "q", "q", "tb", "tb", "tb"]),
        (["b", "q", "b", "q", "b", "q"], ["q", "b", "q", "b", "q", "b"]), (["q", "q"], ["q", "q", "q", "b", "b", "b"]), ([], ["b", "b", "b"]), ([], ["q", "q"]), (["q", "q", "q"], []),
        (["r", "q", "q", "f", "q", "b", "r"], ["q", "q", "q", "b", "b"]), (["f", "f", "f", "f", "q", "q", "q", "b", "tb", "b"], ["q", "b", "q", "tb", "q", "b"]), (["q", "f", "q", "q"], ["q"]), (["r", "r", "r"], ["tb", "tb", "tb", "q", "q", "q"]),
        (["tb", "b"], ["b", "tb", "b"]), (["q", "tb", "q", "b", "q"], ["b", "q", "q"])]):
        for names in (None, [], ["c", "a"], ["b"], ["zz", "a", "b", "c"], ["c", "b", "a"]):
            r = dict(circuit=circ(3, 3, body, perm=[(0, 1), (1, 2), (2, 0)]), signature={"in": s[0], "out": s[1]})
            if names is not None:
                r["input_params"] = names
            yield f"signature:{i}:{names}", r
    for e in ["a", "-a", "0.25", "pi*a", "a/pi", "max(a,b)", "foo(a)", "a**2", "1.5e0", "-0.3"]:
        for t in ("Rx", "CRz", "TK2", "PhasedX"):
            n = OPS[t][1]
            ps = [e] + ["c"] * (len(OPS[t][0]["params"]) - 1)
            for qs in (False, True):
                yield f"param:{t}:{qs}:{e}", dict(circuit=circ(n, 0, [(op(t, *ps), range(n), []), (op(t, *ps[::-1]), range(n)[::-1], [])]), qsystem=qs)

    # every node of the expression grammar over every pair of leaves, and every node under every node
    for e in exprs():
        for t, qs in (("Rx", False), ("PhasedX", True)):
            ps = [e] + ["b"] * (t == "PhasedX")
            yield f"expr:{t}:{e}", dict(circuit=circ(1, 0, [(op(t, *ps), [0], []), (op("Ry", "a"), [0], [])]), qsystem=qs)


def exprs():
    leaves = ["a", "pi", "0.25"]
    un = ["-{}", "abs({})", "floor({})", "ceil({})", "round({})"]
    bi = ["{} + {}", "{} - {}", "{} * {}", "{} / {}", "{} ** {}", "max({}, {})", "min({}, {})"]
    yield from leaves
    yield from ["2pi", "2 a", "3pi/4", "sin(a)", "-2.5", "1e-3", "a_1"]
    for u in un:
        yield from (u.format(x) for x in leaves)
    for o in bi:
        yield from (o.format(x, y) for x in leaves for y in leaves)
        for i, o2 in enumerate(bi):
            yield o.format("(" + o2.format("a", leaves[i % 3]) + ")", "b")
            yield o.format("pi", "(" + o2.format(leaves[(i + 1) % 3], "a") + ")")
        for u in un:
            yield u.format("(" + o.format("a", "pi") + ")")
            yield o.format(u.format("(a)"), "(" + u.format("pi") + ")")


def randcirc(rng, nq, nb, depth, nest=1):
    cs = []
    ks = list(OPS)
    for _ in range(depth):
        k = rng.choice(ks)
        o, n, m = OPS[k]
        if rng.random() < 0.1 and nest:
            n, m = rng.randint(1, min(2, nq)), rng.randint(0, min(2, nb))
            o = box(randcirc(rng, n, m, 3, nest - 1))
        if n > nq or m > nb:
            continue
        o = json.loads(json.dumps(o))
        if "params" in o:
            o["params"] = [rng.choice(["a", "b", "-a", "0.3", "a*b", "a-b/2", "pi/4", "pi", "pi+b", "foo(a)"]) for _ in o["params"]]
        if rng.random() < 0.1 and n + m and m < nb and o["type"] not in ("Barrier", "Conditional") and not k.startswith("box-symb") and "symbol" not in k:
            o, m = cond(o, 1, rng.randint(0, 1)), m + 1
        cs.append((o, rng.sample(range(nq), n), rng.sample(range(nb), m)))
    p = list(range(nq))
    rng.shuffle(p)
    return circ(nq, nb, cs, perm=list(enumerate(p)))


def run(ctx):
    reqs = {}
    for k, r in cases(ctx.tier):
        reqs.setdefault(k, r)
    n = 600 if ctx.tier == "quick" else 8000
    rnd = {}
    for i in range(n):
        nq, nb = ctx.rng.randint(1, 4), ctx.rng.randint(0, 3)
        r = dict(circuit=randcirc(ctx.rng, nq, nb, ctx.rng.randint(2, 12)), qsystem=bool(i % 2), exact=False, seed=i)
        rnd[f"random:{i}"] = r
    fd, path = tempfile.mkstemp(suffix=".jsonl")
    with os.fdopen(fd, "w") as f:
        for k, r in {**reqs, **rnd}.items():
            f.write(json.dumps(dict(case=k, **r)) + "\n")
    outs = {c["case"]: c for c in ctx.native("decode", path)}
    os.unlink(path)
    for k in reqs:
        if k not in outs:
            raise RuntimeError(f"no answer for {k}: {list(outs.values())[-1]}")
    ctx.prove_all([(f"decode/{k}: the program has the signature and the meaning of the circuit", lambda k=k, r=r: judge(r, outs[k])) for k, r in reqs.items()], SYMVC)

    def wrong(k, mut):
        r = json.loads(json.dumps(reqs[k]))
        mut(r["circuit"])
        return judge(r, outs[k]) is not None

    def swapargs(c):
        c["commands"][0]["args"].reverse()
    def reparam(c):
        c["commands"][0]["op"]["params"] = ["a + 0.001"]
    k = "op:CX:01/"
    ctx.canary("CX with its qubits exchanged", wrong("op:CX:01/", swapargs))
    ctx.canary("TK2 with its qubits exchanged", wrong("op:TK2:01/", swapargs))
    ctx.canary("another angle", wrong("op:Rx:0/", reparam))
    ctx.canary("another permutation", wrong("perm:(1, 2, 0)", lambda c: c.update(implicit_permutation=[[b, a] for a, b in c["implicit_permutation"]])))
    b = ctx.run_bounded("random", f"random circuits of 1-4 qubits, 0-3 bits, up to 12 commands of every kind, nested boxes, conditionals and implicit permutations, compared as channels at a random parameter point; seed {ctx.seed}")
    ctx.bounded_all(b, [(k, lambda k=k, r=r: judge(r, outs[k]), len(r["circuit"]["commands"]) > 1) for k, r in rnd.items()])
    ctx.functions += ["SerialCircuit::decode: PytketDecoderContext::{new, init_wire_tracker, process_command, wire_up_node, register_node_outputs, finish, add_implicit_qfree_operations}", "CoreDecoder, TketOpEmitter, PreludeEmitter, BoolEmitter, QSystemEmitter: op_to_hugr", "build_opaque_tket_op", "WireTracker::{find_typed_wire, track_wire, track_qubit, track_bit, known_pytket_qubits, compute_output_permutation}", "LoadedParameter::{as_rotation, as_float_radians}"]
    ctx.trusted += ["py/pytk.py: the meaning of pytket commands (textbook gates; classical operations as pytket documents them)", "operations pytket_rs does not describe are read as one fixed generic operation on their qubits, bits and parameters in order", "py/algebra.py normal form, py/interp.py", "hugr's builder and serialiser"]
    ctx.assumptions += ["lemma: a command is decoded from the latest wires of its registers only, so every operation under every argument assignment, and every pair of an operation and a probe that reads what it left, determine longer circuits; random circuits are the bounded stand-in for that step", "machine floats are treated as reals; the global phase is not compared"]
