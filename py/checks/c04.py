"""C04: exporting to pytket and re-importing keeps the circuit's meaning."""
import itertools, json, os, random, tempfile
from checks.common import *
import pytk as P

TY = dict(q=("q",), f=("float",), r=("rot",), tb=("tbool",), b=("sum", [[], []]), u=("usize",))


class Prog:
    """A program, written down as the JSON that harness/src/prog.rs builds."""

    def __init__(self, ins, funcs=None, meta=None):
        self.ins, self.body, self.types, self.n = ins.split(), [], {}, 0
        for i, t in enumerate(self.ins):
            self.types[f"x{i}"] = t
        self.funcs, self.meta, self.outs = funcs, meta, []

    def fresh(self, t):
        self.n += 1
        w = f"w{self.n}"
        self.types[w] = t
        return w

    def op(self, name, ins, outs, label=None):
        r = [self.fresh(t) for t in outs.split()]
        self.body.append([name, list(ins), r] + ([label] if label else []))
        return r[0] if len(r) == 1 else r

    def const(self, kind, v):
        w = self.fresh(kind)
        self.body.append(["const", kind, v, w])
        return w

    def step(self, st, outs):
        r = [self.fresh(t) for t in outs.split()]
        self.body.append(st + [r])
        return r

    def json(self, outs=None):
        o = outs if outs is not None else self.outs
        d = {"in": self.ins, "out": [[w, self.types[w]] for w in o], "body": list(self.body)}
        if self.funcs:
            d["funcs"] = self.funcs
        if self.meta:
            d["meta"] = self.meta
        return d


def sig_of(h, f):
    s = h.nodes[f]["signature"]
    s = s.get("body", s)
    return [I.ty_of(t) for t in s["input"]], [I.ty_of(t) for t in s["output"]]


def skip(req, out, part):
    """The part does not apply to the case: a documented limit of circuits on their own."""
    if "error" in out or "panic" in out:
        return False
    ser = out["circuit"]
    if part != "inplace" and not in_order(req["prog"], req):
        return True  # a circuit on its own has its bits in register order
    if "panic" in ser:
        return False
    if part == "inplace":
        return "has no qubits or bits to attach" in out[part].get("rejected", "")
    if "rejected" in ser:
        return not req.get("standalone", True) or "in an standalone circuit" in ser["rejected"]
    if part == "decoded":
        return "has no qubits or bits to attach" in out[part].get("rejected", "")
    return any(c["op"].get("data") for c in ser["commands"])  # refers to parts of the program


def judge(req, out, part):
    """part: circuit (the meaning of the commands), decoded, inplace."""
    rep = dict(request=req)
    for k in ("error", "panic"):
        if k in out:
            raise RuntimeError(f"the test program could not be built: {out[k]} {req['prog']}")
    ser = out["circuit"]
    if "panic" in ser:
        return (f"the encoder panics: {ser['panic']}"[:300], rep, True)
    if "rejected" in ser and part in ("circuit", "decoded"):
        return (f"the encoder rejects the program: {ser['rejected']}"[:300], rep, True)
    rep["circuit"] = ser
    h1 = I.Hugr(out["before"]["hugr"])
    f1 = fn_of(h1)
    i1, o1 = sig_of(h1, f1)
    names = list(out["before"]["params"] or [])
    names += [x for x in (f"f{i}" for i in range(40)) if x not in names]
    pos = [i for i, t in enumerate(i1) if t in (("rot",), ("float",))]
    named = dict(zip(pos, names))
    h2 = None
    if part != "circuit":
        d = out[part]
        for k in ("panic", "rejected"):
            if k in d:
                return (f"{part}: {'panic' if k == 'panic' else 'the encoded program is rejected'}: {d[k]}"[:300], rep, True)
        rep["after"] = d["hugr"]
        if d["valid"]:
            return (f"{part}: the program is invalid: {d['valid']}"[:300], rep, True)
        try:
            h2 = I.Hugr(d["hugr"])
            f2 = fn_of(h2)
        except I.Stuck as e:
            return (f"{part}: ill-formed graph: {e}", rep, True)
        i2, o2 = sig_of(h2, f2)
        extra = i2[len(i1):]
        if i2[: len(i1)] != i1 or o2 != o1 or any(t != ("rot",) for t in extra):
            return (f"{part}: the signature changes: {i1} -> {o1} becomes {i2} -> {o2}", rep, True)
        nm = d["params"] or []
        named2 = {p: n for p, n in zip([i for i, t in enumerate(i2) if t in (("rot",), ("float",))], nm)}
        for p, n in named2.items():
            if p >= len(i1):
                named[p] = n

    def run(alg, values, assign):
        def bind(n):
            i = int(n.split(".")[0][1:])
            return values("var:" + named[i]) if i in named else values("in:" + n)

        class E(P.TkExec):
            varf = staticmethod(lambda n: values(n if n.startswith(("sympy:", "var:")) else "var:" + n))

            def symbol(self, nd):
                return P.param(P.sympy_arg(nd["args"][0]), self.A, self.varf)

        cls = lambda n, k: assign.get(n, 0) % k
        ins = h1.nodes[f1]["signature"]
        ins = list(ins.get("body", ins)["input"])
        d1 = I.run_paths(h1, f1, alg, bind, cls, E)
        if part == "circuit":
            def ref(ex, args):
                qs, bs = [], []
                for a in args:
                    flat(a, qs, bs)
                nq, nb = len(ser["qubits"]), len(ser["bits"])
                if len(qs) > nq or len(bs) > nb:
                    raise I.Stuck("the circuit has too few registers for its inputs")
                qs += [ex.new_slot() for _ in range(nq - len(qs))]
                bs += [0] * (nb - len(bs))
                oq, ob = P.circuit(ex, ser, qs, bs, E.varf)
                oq, ob = iter(oq), iter(ob)
                return [build(t, oq, ob) for t in o1]
            try:
                d2 = I.run_paths(h1, f1, alg, bind, cls, E, runner=ref)
            except (I.Stuck, P.Bad) as e:
                return f"the circuit has no meaning: {e}"
        else:
            s2 = h2.nodes[f2]["signature"]
            try:
                d2 = I.run_paths(h2, f2, alg, bind, cls, E, ins=s2.get("body", s2)["input"])
            except I.Stuck as e:
                return f"the result has no meaning: {e}"
        return I.compare(alg, d1, d2)

    for assign in classical_inputs(h1, f1):
        ex = req.get("exact", True)
        r = run(EX, lambda n: sym(n), assign) if ex else None
        if ex and r is None:
            continue
        for s in range(4 if ex else 1):
            rng = random.Random(f"{s}{req.get('seed', 0)}")
            cache = {}

            def val(n):
                if n not in cache:
                    cache[n] = rng.uniform(-3, 3)
                return cache[n]
            n = run(NU, val, assign)
            if n is not None:
                return (f"{part}: {n}", dict(rep, params=cache, classical=assign, symbolic=r), True)
        if r is not None:
            return (f"{part}: {r}", dict(rep, classical=assign), False)
    return None


def in_order(prog, req):
    """The bit outputs are none, or the registers in order (marked by the case)."""
    return req.get("order") or not any(t in ("b", "tb") or ":" in t for _, t in prog["out"])


def flat(a, qs, bs):
    if isinstance(a, I.Q):
        qs.append(a)
    elif isinstance(a, I.TBool):
        bs.append(int(a.b))
    elif isinstance(a, I.Sum) and not a.vals and a.tag in (0, 1):
        bs.append(a.tag)
    elif isinstance(a, I.Sum):
        for x in a.vals:
            flat(x, qs, bs)
    elif isinstance(a, (I.Flt, I.Rot)):
        pass
    else:
        raise I.Unsupported(f"input {a}")


def build(t, oq, ob):
    if t == ("q",):
        return next(oq)
    if t == ("tbool",) or t == ("sum", [[], []]):
        return I.Sum(next(ob))
    if t[0] == "sum" and len(t[1]) == 1:
        return I.Sum(0, [build(x, oq, ob) for x in t[1][0]])
    raise I.Unsupported(f"output {t}")


TQ = "tket.quantum."
ONE = "H T Tdg S Sdg V Vdg X Y Z".split()


def cases(tier):
    def out(p, outs, **kw):
        return dict(prog=p.json(outs), **kw)

    # 1. every gate on every placement of its qubits
    for g in ONE + ["Reset"]:
        for i in range(2):
            p = Prog("q q")
            w = ["x0", "x1"]
            w[i] = p.op(TQ + g, [w[i]], "q")
            yield f"gate:{g}:{i}", out(p, w)
    for g, n in (("CX", 2), ("CY", 2), ("CZ", 2), ("Toffoli", 3)):
        for pl in itertools.permutations(range(3), n):
            p = Prog("q q q")
            w = ["x0", "x1", "x2"]
            r = p.op(TQ + g, [w[i] for i in pl], " ".join(["q"] * n))
            for i, x in zip(pl, r):
                w[i] = x
            yield f"gate:{g}:{pl}", out(p, w)
    for g, n in (("Rx", 1), ("Ry", 1), ("Rz", 1), ("CRz", 2)):
        for pl in itertools.permutations(range(2), n):
            for a in (2, 3):
                p = Prog("q q r r")
                w = ["x0", "x1"]
                r = p.op(TQ + g, [w[i] for i in pl] + [f"x{a}"], " ".join(["q"] * n))
                for i, x in zip(pl, [r] if n == 1 else r):
                    w[i] = x
                yield f"gate:{g}:{pl}:{a}", out(p, w)
    for i in range(2):
        for o in (0, 1):
            p = Prog("q q b")
            w = ["x0", "x1"]
            w[i], b = p.op(TQ + "Measure", [w[i]], "q b")
            yield f"Measure:{i}:{o}", out(p, w + ([b, "x2"] if o else ["x2", b]), order=not o)
            p = Prog("q q tb")
            b = p.op(TQ + "MeasureFree", [f"x{i}"], "tb")
            yield f"MeasureFree:{i}:{o}", out(p, [f"x{1 - i}"] + ([b, "x2"] if o else ["x2", b]), order=not o)

    # 2. the order of the outputs
    for n in (2, 3):
        for pm in itertools.permutations(range(n)):
            p = Prog(" ".join(["q"] * n))
            w = [p.op(TQ + g, [f"x{i}"], "q") for i, g in enumerate(["T", "H", "V"][:n])]
            yield f"outputs:q:{pm}", out(p, [w[i] for i in pm])
            p = Prog(" ".join(["q"] * n))
            yield f"outputs:q:plain{pm}", out(p, [f"x{i}" for i in pm])
            for t in ("b", "tb"):
                p = Prog(" ".join([t] * n))
                yield f"outputs:{t}:{pm}", out(p, [f"x{i}" for i in pm], order=pm == tuple(range(n)))
            p = Prog(" ".join(["q"] * n))
            bs = [p.op(TQ + "Measure", [f"x{i}"], "q b") for i in range(n)]
            yield f"outputs:measure:{pm}", out(p, [b[0] for b in bs] + [bs[i][1] for i in pm])
            yield f"outputs:measure:first{pm}", out(p, [bs[i][1] for i in pm] + [bs[i][0] for i in pm])
        for pm in itertools.product(range(n), repeat=n):
            p = Prog(" ".join(["b"] * n))
            yield f"outputs:copies:{pm}", out(p, [f"x{i}" for i in pm])
    for pm in itertools.permutations(range(3)):
        p = Prog("q q q")
        a = p.op(TQ + "QAlloc", [], "q")
        a, x1 = p.op(TQ + "CX", ["x1", a], "q q")
        b = p.op(TQ + "MeasureFree", ["x0"], "tb")
        w = [a, x1, "x2"]
        yield f"outputs:alloc:{pm}", out(p, [w[i] for i in pm] + [b])

    # 3. classical values read more than once, operations on bits
    BO = ("and", "or", "xor", "eq")
    for o in BO + ("not",):
        n = 1 if o == "not" else 2
        for pl in itertools.product(range(2), repeat=n):
            p = Prog("tb tb")
            r = p.op("tket.bool." + o, [f"x{i}" for i in pl], "tb")
            yield f"bool:{o}:{pl}:only", out(p, [r])
            yield f"bool:{o}:{pl}:all", out(p, ["x0", "x1", r], order=len(set(pl)) == n)
            yield f"bool:{o}:{pl}:first", out(p, [r, "x0", "x1"])
            yield f"bool:{o}:{pl}:one", out(p, [r, "x1"])
            for o2 in ("xor", "not"):
                p = Prog("tb tb")
                r = p.op("tket.bool." + o, [f"x{i}" for i in pl], "tb")
                r2 = p.op("tket.bool." + o2, [r, "x0"][: 1 if o2 == "not" else 2], "tb")
                yield f"bool:{o}>{o2}:{pl}", out(p, [r, r2, "x1"])
                p = Prog("tb tb")
                r = p.op("tket.bool." + o, [f"x{i}" for i in pl], "tb")
                r2 = p.op("tket.bool." + o2, ["x0", r][: 1 if o2 == "not" else 2], "tb")
                yield f"bool:{o}>{o2}:{pl}:fan", out(p, [r, r2])
                yield f"bool:{o}>{o2}:{pl}:fan2", out(p, [r2, r, "x0"])
    for v in (True, False):
        for n in (1, 2):
            p = Prog("tb")
            c = p.const("tb", v)
            r = [p.op("tket.bool.xor", ["x0", c], "tb") for _ in range(n)]
            yield f"const:tb:{v}:{n}", out(p, r + [c])
            p = Prog("q")
            b = p.op(TQ + "MeasureFree", ["x0"], "tb")
            b2 = p.op("tket.bool.not", [b], "tb")
            c = p.const("tb", v)
            r = p.op("tket.bool.or", [b2, c], "tb")
            yield f"const:tb:{v}:after:{n}", out(p, [r, c, b2][: n + 1])
        p = Prog("q")
        c = p.const("b", v)
        yield f"const:b:{v}", out(p, ["x0", c])
        p = Prog("b")
        c = p.const("b", v)
        r = p.op("logic.And", ["x0", c], "b")
        yield f"const:b:and:{v}", out(p, [r, c])
    for i, vs in enumerate(itertools.product((False, True), repeat=3)):
        p = Prog("q")
        c = p.const("tup:b,tb,b", [["b", vs[0]], ["tb", vs[1]], ["b", vs[2]]])
        b1, b2, b3 = p.op("untup b;tb;b", [c], "b tb b")
        yield f"const:tuple:{i}", out(p, ["x0", b1, b2, b3])
        yield f"const:tuple:{i}:rev", out(p, [b3, b2, b1, "x0"])
    p = Prog("q b")
    t = p.op("tket.bool.make_opaque", ["x1"], "tb")
    n = p.op("tket.bool.not", [t], "tb")
    r = p.op("tket.bool.read", [n], "b")
    yield "bool:convert", out(p, ["x0", r, t, n, "x1"])
    yield "bool:convert2", out(p, ["x0", "x1", t, r])
    for a, b in itertools.product(("And", "Or", "Xor", "Eq", "Not"), ("x0", "x1")):
        p = Prog("b b")
        r = p.op("logic." + a, (["x0"] if a == "Not" else ["x0", b]), "b")
        yield f"logic:{a}:{b}", out(p, [r, "x1", "x0"])

    # 4. parameters: every operation, every pair of nested operations in each position
    F2, F1 = ("fadd", "fsub", "fmul", "fdiv", "fpow", "fmax", "fmin"), ("fneg", "ffloor", "fceil", "fround", "fabs")

    def leaf(p, k):
        return {"x": "x1", "y": "x2", "1": None, "c": None}.get(k)

    def val(p, e):
        if isinstance(e, str):
            if e in ("x", "y"):
                return {"x": "x1", "y": "x2"}[e]
            return p.const("f", float(e))
        return p.op("arithmetic.float." + e[0], [val(p, a) for a in e[1:]], "f")

    def uses(e, tag, extra=()):
        # half-turns through a rotation; radians through the native gates
        p = Prog("q f f")
        r = p.op("tket.rotation.from_halfturns_unchecked", [val(p, e)], "r")
        yield f"param:{tag}", out(p, [p.op(TQ + "Rx", ["x0", r], "q")])
        p = Prog("q f f")
        v = val(p, e)
        yield f"param:qsystem:{tag}", out(p, [p.op("tket.qsystem.Rz", ["x0", v], "q")], qsystem=True)

    exprs = {}
    for f in F2:
        for a, b in (("x", "y"), ("y", "x"), ("x", "x"), ("1", "x"), ("x", "1"), ("0.5", "x"), ("x", "-2"), ("-2", "x"), ("x", "0.25"), ("3.141592653589793", "x"), ("x", "3.141592653589793"), ("1.5707963267948966", "x"), ("x", "-2.356194490192345")):
            exprs[f"{f}({a},{b})"] = (f, a, b)
    for f in F1:
        for a in ("x", "-2", "1"):
            exprs[f"{f}({a})"] = (f, a)
    for f, g in itertools.product(F2 + F1, repeat=2):
        e = (g, "y", "0.5") if g in F2 else (g, "y")
        if f in F2:
            exprs[f"{f}(x,{g})"] = (f, "x", e)
            exprs[f"{f}({g},x)"] = (f, e, "x")
        else:
            exprs[f"{f}({g})"] = (f, e)
    for f, g in itertools.product(("fadd", "fsub", "fmul", "fdiv", "fpow"), repeat=2):
        exprs[f"{f}({g},{g})"] = (f, (g, "x", "y"), (g, "y", "x"))
        exprs[f"fadd({f}({g}),pi*)"] = ("fadd", (f, "x", (g, "x", "y")), ("fmul", "y", "3.141592653589793"))
        exprs[f"fmul({f}({g}),pi)"] = ("fmul", (f, (g, "x", "y"), "y"), "3.141592653589793")
    for c in ("0", "1", "-1", "0.1", "-0.25", "1e-7", "-1e-9", "1e-11", "1e22", "123456.789", "3.141592653589793", "-3.141592653589793", "1.5707963267948966", "-1.5707963267948966", "0.7853981633974483", "-0.7853981633974483", "2.356194490192345", "-2.356194490192345", "6.283185307179586", "0.30000000000000004", "5e-324"):
        exprs[f"const {c}"] = c
        p = Prog("q")
        r = p.const("r", float(c))
        yield f"param:rotation const {c}", out(p, [p.op(TQ + "Rz", ["x0", r], "q")])
        for f in ("fadd", "fsub", "fmul", "fpow", "fdiv"):
            exprs[f"{f}(x,{c})"] = (f, "x", c)
    for k, e in exprs.items():
        yield from uses(e, k)
    for e, n in ((("radd", "x1", "x2"), 1), (("radd", ("radd", "x1", "x2"), "x1"), 2), (("radd", "x1", ("radd", "x2", "x1")), 3)):
        p = Prog("q r r")

        def rv(e):
            return e if isinstance(e, str) else p.op("tket.rotation.radd", [rv(a) for a in e[1:]], "r")
        yield f"param:radd:{n}", out(p, [p.op(TQ + "Rx", ["x0", rv(e)], "q")])
        p = Prog("q r r")
        h = p.op("tket.rotation.to_halfturns", [rv(e)], "f")
        h = p.op("arithmetic.float.fmul", [h, p.const("f", 0.5)], "f")
        r = p.op("tket.rotation.from_halfturns_unchecked", [h], "r")
        yield f"param:halfturns:{n}", out(p, [p.op(TQ + "Rx", ["x0", r], "q")])
    for g, na, nq in (("PhasedX", 2, 1), ("ZZPhase", 1, 2), ("Rz", 1, 1)):
        for args in itertools.permutations(("x2", "x3"), na):
            for pl in itertools.permutations(range(2), nq):
                p = Prog("q q f f")
                w = ["x0", "x1"]
                r = p.op("tket.qsystem." + g, [w[i] for i in pl] + list(args), " ".join(["q"] * nq))
                for i, x in zip(pl, [r] if nq == 1 else r):
                    w[i] = x
                yield f"qsystem:{g}:{args}:{pl}", out(p, w, qsystem=True)
    for e in ("foo(a)", "sin(b + 1)", "a", "2*a", "a + b*c"):
        p = Prog("q r")
        s = p.op("sympy " + e, [], "r")
        q = p.op(TQ + "Rx", ["x0", s], "q")
        yield f"sympy:{e}", out(p, [q])
        p = Prog("q r")
        s = p.op("sympy " + e, [], "r")
        s = p.op("tket.rotation.radd", [s, "x1"], "r")
        yield f"sympy:radd:{e}", out(p, [p.op(TQ + "Rx", ["x0", s], "q")])
    for ins, pos in (("r q f r", (1, (0, 3, 2))), ("f q f f", (1, (3, 2, 0)))):
        p = Prog(ins)
        q = f"x{pos[0]}"
        for i, g in zip(pos[1], ("Rx", "Rz", "Ry")):
            a = f"x{i}"
            if p.types[a] == "f":
                a = p.op("tket.rotation.from_halfturns_unchecked", [a], "r")
            q = p.op(TQ + g, [q, a], "q")
        yield f"param:inputs:{ins}", out(p, [q])
        p2 = Prog(ins, meta={"TKET1.input_parameters": ["zeta", "alpha"]})
        p2.body, p2.types, p2.n = p.body, p.types, p.n
        yield f"param:inputs:named:{ins}", out(p2, [q])
        p2 = Prog(ins, meta={"TKET1.input_parameters": ["f1", "f0"]})
        p2.body, p2.types, p2.n = p.body, p.types, p.n
        yield f"param:inputs:clash:{ins}", out(p2, [q])

    # 5. allocation, release, reuse
    p = Prog("q")
    p.op(TQ + "QFree", ["x0"], "")
    a = p.op(TQ + "QAlloc", [], "q")
    yield "alloc:after-free", out(p, [a])
    for fr in ("MeasureFree", "QFree", "qsystem"):
        for between in (False, True):
            p = Prog("q q")
            b = None
            x = p.op(TQ + "H", ["x0"], "q")
            if fr == "MeasureFree":
                b = p.op(TQ + fr, [x], "tb")
            elif fr == "qsystem":
                p.op("tket.qsystem.QFree", [x], "")
            else:
                p.op(TQ + fr, [x], "")
            if between:
                a = p.op(TQ + "QAlloc", [], "q")
                p.op(TQ + "QFree", [a], "")
            # the result of the measurement orders the allocation after it
            y = "x1"
            a = p.op(TQ + "QAlloc", [], "q")
            y, a = p.op(TQ + "CX", [y, a], "q q")
            a2 = p.op(TQ + "QAlloc", [], "q")
            a, a2 = p.op(TQ + "CX", [a, a2], "q q")
            yield f"alloc:{fr}:{between}", out(p, [y, a, a2] + ([b] if b else []), qsystem=fr == "qsystem")
    p = Prog("q")
    w = "x0"
    bs = []
    for _ in range(3):
        a = p.op(TQ + "QAlloc", [], "q")
        w, a = p.op(TQ + "CX", [w, a], "q q")
        w = p.op(TQ + "H", [w], "q")
        bs.append(p.op(TQ + "MeasureFree", [a], "tb"))
    yield "alloc:loop", out(p, [w] + bs)
    yield "alloc:loop-reversed", out(p, bs[::-1] + [w])

    # 6. parts pytket cannot express, in every position of a circuit
    def opaque_parts():
        def dfg(p, w, b, r):
            w[0], w[1] = p.step(["dfg", [["a", w[0], "q"], ["b", w[1], "q"]], [[TQ + "CX", ["a", "b"], ["c", "d"]]], [["d", "q"], ["c", "q"]]], "q q")
        yield "dfg", dfg

        def dfgr(p, w, b, r):
            w[1], = p.step(["dfg", [["a", w[1], "q"], ["t", r, "r"]], [[TQ + "Rx", ["a", "t"], ["c"]]], [["c", "q"]]], "q")
        yield "dfg-param", dfgr

        def cond(p, w, b, r):
            w[0], = p.step(["cond", b, [[], []], [["a", w[0], "q"]], [[[], [], ["a"]], [[], [[TQ + "H", ["a"], ["c"]]], ["c"]]], ["q"]], "q")
        yield "cond", cond

        def tup(p, w, b, r):
            t = p.op("tup q;r", [w[0], r], "tup:q,r")
            w[0], r2 = p.op("untup q;r", [t], "q r")
            w[0] = p.op(TQ + "Rz", [w[0], r2], "q")
        yield "tuple-param", tup

        def tupq(p, w, b, r):
            t = p.op("tup q;b;q", [w[1], b, w[0]], "tup:q,b,q")
            w[0], b2, w[1] = p.op("untup q;b;q", [t], "q b q")
            p.bits.append(b2)
        yield "tuple", tupq

        def arr(p, w, b, r):
            a = p.op("newarr 2 q", [w[1], w[0]], "arr:2,q")
            w[0], w[1] = p.op("unarr 2 q", [a], "q q")
        yield "array", arr

        def logic(p, w, b, r):
            c = p.op("logic.Not", [b], "b")
            p.bits.append(p.op("logic.Xor", [c, b], "b"))
            p.bits.append(c)
        yield "logic", logic

        def usz(p, w, b, r):
            u = p.const("u", 3)
            p.bits.append(u)
        yield "usize", usz

        def half(p, w, b, r):
            h = p.op("tket.rotation.to_halfturns", [r], "f")
            t = p.op("tup f;b", [h, b], "tup:f,b")
            h2, b2 = p.op("untup f;b", [t], "f b")
            r2 = p.op("tket.rotation.from_halfturns_unchecked", [h2], "r")
            w[1] = p.op(TQ + "Ry", [w[1], r2], "q")
            p.bits.append(b2)
        yield "tuple-float", half

        def noop(p, w, b, r):
            w[1] = p.op("noop q", [w[1]], "q")
        yield "noop", noop

        def bar(p, w, b, r):
            w[1], b2, w[0] = p.op("barrier q;b;q", [w[1], b, w[0]], "q b q")
            p.bits.append(b2)
        yield "barrier", bar

        def barr(p, w, b, r):
            w[1], r2 = p.op("barrier q;r", [w[1], r], "q r")
            w[1] = p.op(TQ + "Rx", [w[1], r2], "q")
        yield "barrier-param", barr

        def swapcond(p, w, b, r):
            w[0], w[1] = p.step(["cond", b, [[], []], [["a", w[0], "q"], ["b", w[1], "q"]], [[[], [], ["a", "b"]], [[], [], ["b", "a"]]], ["q", "q"]], "q q")
        yield "cond-swap", swapcond

        def call(p, w, b, r):
            p.funcs = [{"name": "f", "in": ["q", "r", "q"], "body": [[TQ + "CX", ["x0", "x2"], ["a", "b"]], [TQ + "Rx", ["a", "x1"], ["c"]]], "out": [["b", "q"], ["c", "q"]]}]
            w[0], w[1] = p.step(["call", "f", [w[0], r, w[1]]], "q q")
        yield "call", call

        def tk1(p, w, b, r):
            pl = dict(op=dict(type="TK2", params=["a", "b", "c"], signature=["Q", "Q"]), num_qubits=2, num_bits=0, param_inputs=[dict(index=i) for i in range(3)], num_params=3)
            w[0], w[1] = p.op("tk1 " + json.dumps(pl), [w[1], w[0], r, "x4", r], "q q")
        yield "tk1", tk1

        def tk1b(p, w, b, r):
            pl = dict(op=dict(type="RangePredicate", classical=dict(n_i=1, lower=1, upper=1), signature=["B", "B"]), num_qubits=0, num_bits=2, param_inputs=[], num_params=0)
            b1, b2 = p.op("tk1 " + json.dumps(pl), [b, "x3"], "b b")
            p.bits += [b1, b2]
        yield "tk1-bits", tk1b

        def nonlocal_(p, w, b, r):
            w[0], = p.step(["dfg", [["a", w[0], "q"]], [[TQ + "Rx", ["a", r], ["c"]]], [["c", "q"]]], "q")
        yield "nonlocal", nonlocal_

        def order(p, w, b, r):
            w[0] = p.op(TQ + "H", [w[0]], "q")
            x = w[0]
            w[1] = p.op(TQ + "X", [w[1]], "q")
            p.body.append(["order", x, w[1]])
        yield "order", order

        def frh(p, w, b, r):
            h = p.op("tket.rotation.to_halfturns", [r], "f")
            o = p.op("tket.rotation.from_halfturns", [h], "opt")
            w[0], = p.step(["cond", o, [[], ["r"]], [["a", w[0], "q"]], [[[], [], ["a"]], [["t"], [[TQ + "Rz", ["a", "t"], ["c"]]], ["c"]]], ["q"]], "q")
        yield "from_halfturns", frh

        def glob(p, w, b, r):
            w[0], = p.step(["dfg", [["a", w[0], "q"]], [["const", "r", 0.25, "k"], [TQ + "Rx", ["a", "k"], ["c"]]], [["c", "q"]]], "q")
        yield "dfg-const", glob

        def tryalloc(p, w, b, r):
            o = p.op(TQ + "TryQAlloc", [], "opt")
            w[0], = p.step(["cond", o, [[], ["q"]], [["a", w[0], "q"]], [[[], [], ["a"]], [["n"], [[TQ + "CX", ["a", "n"], ["c", "d"]], [TQ + "QFree", ["d"], []]], ["c"]]], ["q"]], "q")
        yield "tryalloc", tryalloc

        def gph(p, w, b, r):
            p.op("tket.global_phase.global_phase", [r], "")
        yield "global-phase", gph

    NONLOCAL = {"call", "nonlocal", "global-phase"}

    def base(tag, parts, between, outs=None):
        p = Prog("q q b b r r")
        p.bits = []
        w, b, r = ["x0", "x1"], "x2", "x5"
        pre, mid, post = between
        if pre:
            w[0], w[1] = p.op(TQ + "CX", w, "q q")
            w[0], b = p.op(TQ + "Measure", [w[0]], "q b")
            r = p.op("tket.rotation.radd", [r, "x4"], "r")
        for i, f in enumerate(parts):
            f(p, w, b, r)
            if mid and i == 0:
                w[1], w[0] = p.op(TQ + "CX", w[::-1], "q q")
        if post:
            w[0], w[1] = p.op(TQ + "CX", w, "q q")
            w[1], b2 = p.op(TQ + "Measure", [w[1]], "q b")
            p.bits.append(b2)
            w[0] = p.op(TQ + "Rx", [w[0], r], "q")
        return p, w, b

    parts = dict(opaque_parts())
    for k, f in parts.items():
        for bt in itertools.product((0, 1), (0,), (0, 1)):
            for oi in range(4):
                p, w, b = base(k, [f], bt)
                o = [w + p.bits + ["x2", b], p.bits[::-1] + [b] + w[::-1], [b] + w + p.bits + [b], w][oi]
                yield f"part:{k}:{bt}:{oi}", out(p, o, standalone=k not in NONLOCAL)
    for (k, f), (k2, f2) in itertools.product(parts.items(), repeat=2):
        if "call" in (k, k2) and k != k2 and False:
            continue
        for mid in (0, 1):
            p, w, b = base(k, [f, f2], (1, mid, mid))
            yield f"parts:{k}+{k2}:{mid}", out(p, w + (p.bits + [b, "x3"] if mid else []), standalone=not NONLOCAL & {k, k2}, subcircuits=bool(mid))
    # futures, lazy measurements
    for i, (lz, outs) in enumerate((("LazyMeasure", ""), ("LazyMeasureReset", "q "), ("LazyMeasureLeaked", ""))):
        for dup in (0, 1):
            t = "int6" if lz == "LazyMeasureLeaked" else "b"
            if t != "b":
                continue
            p = Prog("q q")
            r = p.op("tket.qsystem." + lz, ["x0"], outs + f"fut:{t}")
            r = [r] if isinstance(r, str) else r
            fs = [r[-1]]
            if dup:
                fs = p.op("fut.Dup " + t, [fs[0]], f"fut:{t} fut:{t}")
            rs = [p.op("fut.Read " + t, [f], t) for f in fs]
            yield f"future:{lz}:{dup}", out(p, r[:-1] + ["x1"] + rs, qsystem=True)
            yield f"future:{lz}:{dup}:rev", out(p, rs[::-1] + ["x1"] + r[:-1], qsystem=True)
            if dup:
                p.body.pop()
                p.op("fut.Free " + t, [fs[1]], "")
                yield f"future:{lz}:free", out(p, r[:-1] + ["x1", rs[0]], qsystem=True)
    for op_, outs in (("Measure", "tb"), ("MeasureReset", "q tb"), ("Reset", "q")):
        p = Prog("q q")
        r = p.op("tket.qsystem." + op_, ["x1"], outs)
        r = [r] if isinstance(r, str) else r
        yield f"qsystem:{op_}", out(p, ["x0"] + r, qsystem=True)
        yield f"qsystem:{op_}:rev", out(p, r[::-1] + ["x0"], qsystem=True)
    p = Prog("q q q")
    a = p.op("newarr 3 q", ["x2", "x0", "x1"], "arr:3,q")
    a = p.op("rbarrier 3", [a], "arr:3,q")
    yield "qsystem:rbarrier", out(p, p.op("unarr 3 q", [a], "q q q"), qsystem=True)
    # register names of the program
    for qn, bn in (([["z", [3]], ["a", [0]]], [["k", [1]], ["c", [7]]]), ([["q", [1]], ["q", [0]]], [["c", [1]], ["c", [0]]]), ([["q", [0]]], []), ([["q", [2]], ["q", [5]], ["m", [0]], ["q", [9]]], [["c", [0]], ["c", [1]], ["c", [2]], ["c", [3]]])):
        p = Prog("q b q b", meta={"TKET1.qubit_registers": qn, "TKET1.bit_registers": bn})
        a = p.op(TQ + "QAlloc", [], "q")
        u, a = p.op(TQ + "CX", ["x2", a], "q q")
        u, m = p.op(TQ + "Measure", [u], "q b")
        m2 = p.op(TQ + "MeasureFree", [a], "tb")
        yield f"names:{json.dumps(qn)}", out(p, ["x0", "x1", u, m, m2, "x3"])
        yield f"names:swapped:{json.dumps(qn)}", out(p, [m2, u, "x3", m, "x1", "x0"])


def randprog(rng, qsys, bits=True):
    nq, nb = rng.randint(1, 3), rng.randint(0, 2)
    p = Prog(" ".join(["q"] * nq + ["b"] * nb + ["r", "f"]))
    qs = [f"x{i}" for i in range(nq)]
    bs = [f"x{nq+i}" for i in range(nb)]
    tbs, rs, fs = [], [f"x{nq+nb}"], [f"x{nq+nb+1}"]

    def pick(n):
        w = rng.sample(qs, n)
        for x in w:
            qs.remove(x)
        return w
    for _ in range(rng.randint(2, 10)):
        k = rng.randrange(14)
        if k <= 2 and qs:
            qs.append(p.op(TQ + rng.choice(ONE), pick(1), "q"))
        elif k <= 4 and len(qs) > 1:
            qs += p.op(TQ + rng.choice(["CX", "CY", "CZ"]), pick(2), "q q")
        elif k == 5 and qs:
            qs.append(p.op(TQ + rng.choice(["Rx", "Ry", "Rz"]), pick(1) + [rng.choice(rs)], "q"))
        elif k == 6 and qs:
            q, b = p.op(TQ + "Measure", pick(1), "q b")
            qs.append(q)
            bs.append(b)
        elif k == 7 and qs:
            tbs.append(p.op(TQ + "MeasureFree", pick(1), "tb"))
        elif k == 8 and len(qs) < 4:
            qs.append(p.op(TQ + "QAlloc", [], "q"))
        elif k == 9 and tbs:
            o = rng.choice(["and", "or", "xor", "eq", "not"])
            tbs.append(p.op("tket.bool." + o, [rng.choice(tbs) for _ in range(1 if o == "not" else 2)], "tb"))
        elif k == 10:
            o = rng.choice(["fadd", "fmul", "fsub"])
            fs.append(p.op("arithmetic.float." + o, [rng.choice(fs), rng.choice(fs)], "f"))
            rs.append(p.op("tket.rotation.from_halfturns_unchecked", [fs[-1]], "r"))
        elif k == 11 and bs:
            if rng.random() < 0.5:
                tbs.append(p.op("tket.bool.make_opaque", [rng.choice(bs)], "tb"))
            else:
                bs.append(p.op("logic." + rng.choice(["And", "Xor"]), [rng.choice(bs), rng.choice(bs)], "b"))
        elif k == 12 and tbs:
            bs.append(p.op("tket.bool.read", [rng.choice(tbs)], "b"))
        elif k == 13 and bs and qs:
            g = rng.choice(ONE)
            qs.append(p.step(["cond", rng.choice(bs), [[], []], [["a", pick(1)[0], "q"]], [[[], [], ["a"]], [[], [[TQ + g, ["a"], ["c"]]], ["c"]]], ["q"]], "q")[0])
        if qsys and qs and rng.random() < 0.3:
            qs.append(p.op("tket.qsystem.PhasedX", pick(1) + [rng.choice(fs), rng.choice(fs)], "q"))
    outs = qs if not bits else qs + [rng.choice(bs) for _ in range(min(2, len(bs)))] + [rng.choice(tbs) for _ in range(min(3, len(tbs)))]
    rng.shuffle(outs)
    return p.json(outs)


PARTS = {"circuit": "the commands mean what the program means", "decoded": "decoding gives back the program", "inplace": "reassembling in place gives back the program"}


def run(ctx):
    reqs = {}
    for k, r in cases(ctx.tier):
        assert k not in reqs, k
        reqs[k] = r
    n = 600 if ctx.tier == "quick" else 6000
    rnd = {f"random:{i}": dict(prog=randprog(ctx.rng, i % 2, i % 3), qsystem=bool(i % 2), exact=False, seed=i, subcircuits=bool(i % 3 == 0)) for i in range(n)}
    fd, path = tempfile.mkstemp(suffix=".jsonl")
    with os.fdopen(fd, "w") as f:
        for k, r in {**reqs, **rnd}.items():
            f.write(json.dumps(dict(case=k, **r)) + "\n")
    outs = {c["case"]: c for c in ctx.native("encode", path)}
    os.unlink(path)
    for k in reqs:
        if k not in outs:
            raise RuntimeError(f"no answer for {k}: {list(outs.values())[-1]}")
    items = [(f"{part}/{k}: {t}", lambda k=k, r=r, part=part: judge(r, outs[k], part)) for part, t in PARTS.items() for k, r in reqs.items() if not skip(r, outs[k], part)]
    ctx.prove_all(items, SYMVC)
    nskip = len(PARTS) * len(reqs) - len(items)
    ctx.notes.append(f"{nskip} of {len(PARTS) * len(reqs)} pairs (program, part) do not apply: documented limits of standalone circuits (bit outputs that are not the registers in order, outputs that are not qubits or bits, commands that refer to parts of the program)")
    if len(items) < len(PARTS) * len(reqs) * 0.6:
        raise RuntimeError("too many programs are rejected as beyond the limits of circuits")

    def wrong(k, part, mut):
        o = json.loads(json.dumps(outs[k]))
        r = json.loads(json.dumps(reqs[k]))
        mut(r, o)
        return not skip(r, o, part) and judge(r, o, part) is not None

    def swap(r, o):
        o["circuit"]["commands"][0]["args"].reverse()
    def perm(r, o):
        o["circuit"]["implicit_permutation"] = [[b, a] for a, b in o["circuit"]["implicit_permutation"]]
    def angle(r, o):
        c = o["circuit"]["commands"][0]["op"]
        c["params"] = [f"({x}) + 1/1000" for x in c["params"]]
    def other(k2):
        def f(r, o):
            o["decoded"] = o["inplace"] = outs[k2]["decoded"]
        return f
    for name, a in ((f"gate:CX:{(0, 1)}", ("circuit", swap)), (f"outputs:q:{(1, 2, 0)}", ("circuit", perm)), (f"gate:Rx:{(0,)}:2", ("circuit", angle)),
                    (f"gate:CX:{(0, 1)}", ("decoded", other(f"gate:CX:{(1, 0)}"))), ("gate:S:0", ("inplace", other("gate:T:0"))), ("Measure:0:0", ("decoded", other("Measure:1:0")))):
        if "panic" not in outs[name]["circuit"] and "rejected" not in outs[name]["circuit"]:
            ctx.canary(f"{a[0]}/{name} with {a[1].__name__}", wrong(name, *a))
    b = ctx.run_bounded("random", f"random programs of 1-4 qubits with classical bits, parameters, allocation, conditionals; the three parts of each compared as channels at a random parameter point; seed {ctx.seed}")
    ctx.bounded_all(b, [(f"{part}/{k}", lambda k=k, r=r, part=part: judge(r, outs[k], part), len(r["prog"]["body"]) > 1) for part in PARTS for k, r in rnd.items() if not skip(r, outs[k], part)])
    ctx.functions += ["EncodedCircuit::{new, new_standalone, reassemble, reassemble_inplace, ensure_standalone}", "TketEncoderContext::{run_encoder, emit_node, emit_node_command, emit_transparent_node, get_input_values, encode_unsupported, emit_subgraph, make_op}", "ValueTracker::{new, register_wire, new_param, free_qubits/bits, finish}", "CoreOps emitters: TketOpEmitter, BoolEmitter, PreludeEmitter, FloatEmitter, RotationEmitter, QSystemEmitter, FutureEmitter", "OpaqueSubgraphs::{convert, register, reconstruct}", "PytketDecoderContext (as under C03)"]
    ctx.trusted += ["py/pytk.py: the meaning of pytket commands (textbook gates; classical operations as pytket documents them)", "py/interp.py: the meaning of hugr programs", "py/algebra.py normal form", "hugr's builder and serialiser"]
    ctx.assumptions += ["lemma: an operation is encoded from the registers its input values are tracked to, and the tracker is changed by its outputs only, so every operation on every placement, every pair of classical operations, and every pair of opaque parts determine longer programs; random programs are the bounded stand-in for that step", "machine floats are treated as reals; the global phase is not compared", "a standalone circuit returns its bits in register order, as it documents"]
