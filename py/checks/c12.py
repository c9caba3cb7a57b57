"""C12: measurements made lazy, the opaque bool replaced by a sum of a bool and a future."""
import itertools, json, os, random, tempfile
from checks.common import *

Q = "tket.quantum."
QS = "tket.qsystem."
SE = "symbolic execution of the programs before and after the real pass, every boolean input in every representation, every measurement outcome; exact comparison in Q[e^{i pi*}]"


# ------------------------------------------------------------------ meaning with linear futures
class Exec(I.Exec):
    """Futures are linear: each is read, duplicated, freed or returned exactly once."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.futs = []

    def ext(self, e, name, targs, a, nd, n):
        if e in ("tket.guppy", "guppylang") and name == "drop":
            for v in a:
                self.consume(v)
            return []
        if e == "tket.result":
            self.events.append((name, json.dumps(targs), tuple(I.freeze(x) for x in a)))
            self.events.sort()
            return []
        outs = super().ext(e, name, targs, a, nd, n)
        for v in outs:
            self.found(v)
        return outs

    def found(self, v):
        if isinstance(v, I.Fut):
            if v.alive and not any(v is f for f in self.futs):
                self.futs.append(v)
        elif isinstance(v, I.Sum):
            for x in v.vals:
                self.found(x)
        elif isinstance(v, I.Arr):
            for x in v.xs:
                self.found(x)

    def consume(self, v):
        if isinstance(v, I.Fut):
            if not v.alive:
                raise I.Stuck("a future is used twice")
            v.alive = False
        elif isinstance(v, I.Q):
            self.use(v)
        elif isinstance(v, I.Sum):
            for x in v.vals:
                self.consume(x)
        elif isinstance(v, I.Arr):
            for x in v.xs:
                self.consume(x)

    def leftover(self):
        return [f for f in self.futs if f.alive]


def mk(h, A, choices, *a):
    return Exec(h, A, choices, *a)


def has(t, k):
    return t[0] == k or (t[0] == "sum" and any(has(x, k) for r in t[1] for x in r)) or (t[0] == "arr" and has(t[2], k))


def rep_in(ex, t, v, rep):
    """The replaced representation of a value of type t; rep() says which one each bool has."""
    if v is None:
        return v
    if t[0] == "tbool":
        if rep():
            f = I.Fut(I.Sum(int(v.b)))
            ex.futs.append(f)
            return I.Sum(1, [f])
        return I.Sum(0, [I.Sum(int(v.b))])
    if t[0] == "sum":
        return I.Sum(v.tag, [rep_in(ex, x, y, rep) for x, y in zip(t[1][v.tag], v.vals)])
    if t[0] == "arr":
        return I.Arr([rep_in(ex, t[2], x, rep) for x in v.xs])
    if t[0] == "fut":
        ex.futs.append(v)
    return v


def rep_out(t, v):
    if v is None:
        return v
    if t[0] == "tbool":
        if not isinstance(v, I.Sum) or v.tag not in (0, 1) or len(v.vals) != 1:
            raise I.Stuck(f"an opaque bool became {v!r}")
        x = v.vals[0]
        if v.tag == 1:
            if not isinstance(x, I.Fut):
                raise I.Stuck(f"an opaque bool holds {x!r} as its future")
            if not x.alive:
                raise I.Stuck("a future is returned after its use")
            x.alive = False
            x = x.v
        if not isinstance(x, I.Sum) or x.vals or x.tag > 1:
            raise I.Stuck(f"an opaque bool holds {x!r}")
        return I.TBool(x.tag)
    if t[0] == "sum":
        if not isinstance(v, I.Sum) or v.tag >= len(t[1]):
            raise I.Stuck(f"a sum became {v!r}")
        return I.Sum(v.tag, [rep_out(x, y) for x, y in zip(t[1][v.tag], v.vals)])
    if t[0] == "arr":
        return I.Arr([rep_out(t[2], x) for x in v.xs])
    if t[0] == "fut":
        if not v.alive:
            raise I.Stuck("a future is returned after its use")
        v.alive = False
    return v


def count(t):
    return 1 if t[0] == "tbool" else max([sum(count(x) for x in r) for r in t[1]] or [0]) if t[0] == "sum" else t[1] * count(t[2]) if t[0] == "arr" else 0


def lazy_equiv(before, after, replaced=True, max_paths=256):
    h1, h2 = I.Hugr(before), I.Hugr(after)
    f1, f2 = fn_of(h1), fn_of(h2)
    sig = h1.nodes[f1]["signature"]
    sig = sig.get("body", sig)
    tin, tout = [I.ty_of(t) for t in sig["input"]], [I.ty_of(t) for t in sig["output"]]
    nb = sum(count(t) for t in tin) if replaced else 0
    masks = range(1 << nb) if nb <= 3 else [0, (1 << nb) - 1, 0x5555555555 & ((1 << nb) - 1), 0xAAAAAAAAAA & ((1 << nb) - 1)]

    def run(h, f, alg, bind, assign, mask, first):
        def runner(ex, args):
            k = [0]

            def rep():
                k[0] += 1
                return mask >> (k[0] - 1) & 1
            if not first and replaced:
                args = [rep_in(ex, t, v, rep) for t, v in zip(tin, args)]
            else:
                for v in args:
                    ex.found(v)
            outs = ex.call(f, args)
            if not first and replaced:
                outs = [rep_out(t, v) for t, v in zip(tout, outs)]
            else:
                for t, v in zip(tout, outs):
                    if has(t, "fut"):
                        ex.consume_futures(v) if hasattr(ex, "consume_futures") else rep_out(t, v)
            if ex.leftover():
                raise I.Stuck("a future is neither read nor freed")
            return outs
        return I.run_paths(h, f, alg, bind, lambda n, k: assign.get(n, 0) % k, mk, max_paths, runner=runner, ins=sig["input"])

    for assign in classical_inputs(h1, f1):
        d1 = {}
        for mask in masks:
            def one(alg, bind):
                if alg.name == "num":
                    a = run(h1, f1, alg, bind, assign, 0, True)
                else:
                    a = d1["d"] = d1.get("d") or run(h1, f1, alg, bind, assign, 0, True)
                try:
                    b = run(h2, f2, alg, bind, assign, mask, False)
                except I.Stuck as e:
                    return f"the result has no meaning: {e}"
                return I.compare(alg, a, b)
            r = one(EX, sym)
            if r is not None:
                b = params(random.Random(7))
                n = one(NU, b)
                return (r, dict(classical=assign, representation=mask, params=b.cache, numeric=n, before=before, after=after), n is not None)
    return None


# ------------------------------------------------------------------ programs
class P:
    """A program under construction; wires are names."""

    def __init__(self, ins):
        self.ins, self.body, self.n = ins, [], 0

    def new(self):
        self.n += 1
        return f"w{id(self) % 997}_{self.n}"

    def op(self, name, ins, k=1):
        o = [self.new() for _ in range(k)]
        self.body.append([name, list(ins), o])
        return o[0] if k == 1 else list(o)

    def x(self, name, args, ins, k=1):
        return self.op(f"x {name} {args}", ins, k)

    def const(self, kind, v):
        w = self.new()
        self.body.append(["const", kind, v, w])
        return w

    def cond(self, w, rows, other, cases, outs):
        """cases: functions of (program, row wires, other wires) to wires; other: [(wire, type)]"""
        names = [self.new() for _ in other]
        cs = []
        for row, c in zip(rows, cases):
            ins = [self.new() for _ in row]
            saved, self.body = self.body, []
            o = c(ins, names)
            b, self.body = self.body, saved
            cs.append([ins, b, o])
        o = [self.new() for _ in outs]
        self.body.append(["cond", w, rows, [[n, w2, t] for n, (w2, t) in zip(names, other)], cs, outs, list(o)])
        return o

    def dfg(self, ins, f, outs):
        names = [self.new() for _ in ins]
        saved, self.body = self.body, []
        o = f(names)
        b, self.body = self.body, saved
        r = [self.new() for _ in outs]
        self.body.append(["dfg", [[n, w, t] for n, (w, t) in zip(names, ins)], b, [[w, t] for w, t in zip(o, outs)], list(r)])
        return r

    def loop(self, it, other, outs, f):
        n1, n2 = [self.new() for _ in it], [self.new() for _ in other]
        saved, self.body = self.body, []
        o = f(n1, n2)
        b, self.body = self.body, saved
        r = [self.new() for _ in list(outs) + list(other)]
        self.body.append(["loop", [[n, w, t] for n, (w, t) in zip(n1, it)], [[n, w, t] for n, (w, t) in zip(n2, other)], outs, b, o, list(r)])
        return r

    def call(self, f, ins, k):
        o = [self.new() for _ in range(k)]
        self.body.append(["call", f, list(ins), list(o)])
        return o

    def done(self, outs, **kw):
        return dict(**{"in": self.ins, "out": [list(o) for o in outs], "body": self.body}, **kw)


BIN = ["tket.bool.eq", "tket.bool.and", "tket.bool.or", "tket.bool.xor"]
rd = lambda p, w: p.op("tket.bool.read", [w])


def singles():
    for o in BIN:
        p = P(["tb", "tb"])
        yield f"op:{o}", p.done([[p.op(o, ["x0", "x1"]), "tb"]])
        p = P(["tb"])
        yield f"op:{o}:same", p.done([[p.op(o, ["x0", "x0"]), "tb"]])
        p = P(["tb", "tb"])
        yield f"op:{o}:swapped", p.done([[p.op(o, ["x1", "x0"]), "tb"], ["x0", "tb"]])
    p = P(["tb"])
    yield "op:not", p.done([[p.op("tket.bool.not", ["x0"]), "tb"]])
    p = P(["tb"])
    yield "op:read", p.done([[rd(p, "x0"), "b"]])
    p = P(["b"])
    yield "op:make_opaque", p.done([[p.op("tket.bool.make_opaque", ["x0"]), "tb"]])
    for v in (True, False):
        p = P([])
        yield f"const:{v}", p.done([[p.const("tb", v), "tb"]])
        p = P([])
        w = p.const("tb", v)
        yield f"const:{v}:read", p.done([[rd(p, w), "b"], [w, "tb"]])
        for c, ty in ((["tup(tb,b)", [["tb", v], ["b", not v]]], "tup(tb,b)"), (["sum(tb|b)", [0, [["tb", v]]]], "sum(tb|b)"), (["opt(tb)", [1, [["tb", v]]]], "opt(tb)"), (["opt(tb)", [0, []]], "opt(tb)"), (["arr(2,tb)", [["tb", v], ["tb", not v]]], "arr(2,tb)"), (["barr(2,tb)", [["tb", v], ["tb", not v]]], "barr(2,tb)")):
            p = P([])
            yield f"const:{v}:{ty}:{len(c[1][-1]) if ty.startswith('opt') else ''}", p.done([[p.const(*c), ty]])
    for pre in ([], ["H"], ["X"], ["H", "T", "H"]):
        for m, k in ((Q + "MeasureFree", 1), (QS + "Measure", 1), (QS + "MeasureReset", 2)):
            p = P(["q"])
            q = "x0"
            for g in pre:
                q = p.op(Q + g, [q])
            r = p.op(m, [q], k)
            yield f"measure:{m}:{'.'.join(pre)}", p.done([[r, "tb"]] if k == 1 else [[r[0], "q"], [r[1], "tb"]])
            p = P(["q"])
            q = "x0"
            for g in pre:
                q = p.op(Q + g, [q])
            r = p.op(m, [q], k)
            if k == 1:
                yield f"measure:{m}:{'.'.join(pre)}:dropped", p.done([])
            else:
                yield f"measure:{m}:{'.'.join(pre)}:dropped", p.done([[r[0], "q"]])
            p = P(["q", "q"])
            q = p.op(Q + "CX", ["x0", "x1"], 2)
            r = p.op(m, [q[1]], k)
            b = r if k == 1 else r[1]
            yield f"measure:{m}:entangled:{'.'.join(pre)}", p.done([[q[0], "q"], [b, "tb"], [b, "tb"], [rd(p, b), "b"]] + ([] if k == 1 else [[r[0], "q"]]))
    # what is measured eagerly as a plain bool, or lazily already, stays as it is
    p = P(["q"])
    r = p.op(Q + "Measure", ["x0"], 2)
    yield "measure:plain", p.done([[r[0], "q"], [r[1], "b"]])
    p = P(["q"])
    f = p.op(QS + "LazyMeasure", ["x0"])
    f = p.op("fut.Dup b", [f], 2)
    yield "measure:lazy", p.done([[p.op("fut.Read b", [f[1]]), "b"], [f[0], "fut(b)"]])
    p = P(["q"])
    r = p.op(QS + "LazyMeasureReset", ["x0"], 2)
    p.op("fut.Free b", [r[1]], 0)
    yield "measure:lazyfree", p.done([[r[0], "q"]])


def sources():
    """Ways of getting a bool."""
    yield "in", lambda p: "x0"
    yield "measure", lambda p: p.op(QS + "Measure", [p.op(Q + "H", [p.op(Q + "QAlloc", [])])])
    yield "const", lambda p: p.const("tb", True)
    yield "not", lambda p: p.op("tket.bool.not", ["x0"])


def uses():
    """Ways of using one: program and wire to outputs."""
    yield "nothing", lambda p, w: []
    yield "out", lambda p, w: [[w, "tb"]]
    yield "read", lambda p, w: [[rd(p, w), "b"]]
    yield "self-xor", lambda p, w: [[p.op(BIN[3], [w, w]), "tb"]]
    yield "with-x1", lambda p, w: [[p.op(BIN[1], [w, "x1"]), "tb"]]
    yield "tuple", lambda p, w: [[p.op("tup tb;b", [w, rd(p, w)]), "tup(tb,b)"]]
    yield "tuple-out", lambda p, w: [[x, t] for x, t in zip(p.op("untup tb;tb", [p.op("tup tb;tb", [w, "x1"])], 2), ["tb", "tb"])]
    yield "tuple-drop", lambda p, w: [[p.op("untup tb;tb", [p.op("tup tb;tb", [w, "x1"])], 2)[1], "tb"]]
    yield "tag", lambda p, w: [[p.op("tag 1|b|tb", [w]), "sum(b|tb)"]]
    yield "branch", lambda p, w: [[x, "tb"] for x in p.cond(rd(p, w), [[], []], [(w, "tb"), ("x1", "tb")], [lambda r, o: [o[0]], lambda r, o: [p.op(BIN[2], o)]], ["tb"])]
    yield "branch-drop", lambda p, w: [[x, "tb"] for x in p.cond(rd(p, "x1"), [[], []], [(w, "tb")], [lambda r, o: [p.const("tb", False)], lambda r, o: [o[0]]], ["tb"])]
    yield "branch-sum", lambda p, w: [[x, "b"] for x in p.cond(p.op("tag 0|tb|b", [w]), [["tb"], ["b"]], [("x1", "tb")], [lambda r, o: [rd(p, p.op(BIN[0], [r[0], o[0]]))], lambda r, o: [r[0]]], ["b"])]
    yield "dfg", lambda p, w: [[x, "tb"] for x in p.dfg([(w, "tb")], lambda i: [p.op(BIN[3], [i[0], i[0]]), i[0]], ["tb", "tb"])]
    yield "dfg-drop", lambda p, w: [[x, "b"] for x in p.dfg([(w, "tb")], lambda i: [p.const("b", True)], ["b"])]
    yield "call", lambda p, w: [[x, "tb"] for x in p.call("f", [w, w], 2)]
    yield "calli", lambda p, w: calli(p, w)
    yield "loop", lambda p, w: [[x, "tb"] for x in p.loop([(w, "tb")], [("x1", "tb")], ["tb"], lambda i, o: [p.op("tag 1|tb|tb", [p.op(BIN[1], [i[0], o[0]])]), o[0]])]
    yield "loop-again", lambda p, w: [[x, "b"] for x in p.loop([], [(w, "tb")], ["b"], lambda i, o: [p.cond(rd(p, o[0]), [[], []], [], [lambda r, q: [p.op("tag 1||b", [p.const("b", True)])], lambda r, q: [p.op("tag 0||b", [])]], ["sum(|b)"])[0], p.const("tb", False)])[:1]]
    yield "result", lambda p, w: result(p, w)
    for a, A in (("arr", "collections.array"), ("barr", "collections.borrow_arr")):
        new = lambda p, w, A=A: p.x(A + ".new_array", "2;tb", [w, "x1"])
        yield a, lambda p, w, a=a, new=new: [[new(p, w), f"{a}(2,tb)"]]
        yield a + "-drop", lambda p, w, new=new, A=A: [p.x(A + ".discard", "2;tb", [new(p, w)], 0), []][1]
        yield a + "-copy", lambda p, w, a=a, new=new, A=A: [[x, f"{a}(2,tb)"] for x in p.x(A + ".clone", "2;tb", [new(p, w)], 2)]
        yield a + "-unpack", lambda p, w, a=a, new=new, A=A: [[x, "tb"] for x in p.x(A + ".unpack", "2;tb", [new(p, w)], 2)]
        yield a + "-pop", lambda p, w, a=a, new=new, A=A: [[p.x(A + ".pop_left", "2;tb", [new(p, w)]), f"opt(tb,{a}(1,tb))"]]
        yield a + "-popr", lambda p, w, a=a, new=new, A=A: [[p.x(A + ".pop_right", "2;tb", [new(p, w)]), f"opt(tb,{a}(1,tb))"]]
        for i in range(3):
            yield f"{a}-swap{i}", lambda p, w, a=a, new=new, A=A, i=i: [[p.x(A + ".swap", "2;tb", [new(p, w), p.const("u", i), p.const("u", 1)]), f"sum({a}(2,tb)|{a}(2,tb))"]]
            yield f"{a}-set{i}", lambda p, w, a=a, new=new, A=A, i=i: [[p.x(A + ".set", "2;tb", [new(p, w), p.const("u", i), w]), f"sum(tb,{a}(2,tb)|tb,{a}(2,tb))"]]
            yield f"{a}-get{i}", lambda p, w, a=a, new=new, A=A, i=i: list(zip(p.x(A + ".get", "2;tb", [new(p, w), p.const("u", i)], 2), ["opt(tb)", f"{a}(2,tb)"]))
    B_ = "collections.borrow_arr"
    for i in range(2):
        def borrow(p, w, i=i, ret=True):
            a, v = p.x(B_ + ".borrow", "2;tb", [p.x(B_ + ".new_array", "2;tb", [w, "x1"]), p.const("u", i)], 2)
            v2 = p.op("tket.bool.not", [v])
            return [[p.x(B_ + ".return", "2;tb", [a, p.const("u", i), v2]), "barr(2,tb)"], [v, "tb"]] if ret else [[a, "barr(2,tb)"], [v, "tb"]]
        yield f"barr-borrow{i}", borrow
    def get2(p, w):
        a, r = "x0", []
        o, a = p.x(B_ + ".get", "2;tb", [p.x(B_ + ".new_array", "2;tb", [w, "x1"]), p.const("u", 0)], 2)
        o2, a = p.x(B_ + ".get", "2;tb", [a, p.const("u", 0)], 2)
        return [[o, "opt(tb)"], [o2, "opt(tb)"], [a, "barr(2,tb)"]]
    yield "barr-get-twice", get2
    yield "conv", lambda p, w: [[p.x(B_ + ".to_array", "2;tb", [p.x(B_ + ".new_array", "2;tb", [w, "x1"])]), "arr(2,tb)"]]
    yield "varr", lambda p, w: [[p.x("collections.value_array.new_array", "2;tb", [w, w]), "varr(2,tb)"]]
    yield "nested", lambda p, w: nested(p, w)
    yield "barr-drop-fn", lambda p, w: [p.x("tket.guppy.drop", "barr(2,tb)", [p.x(B_ + ".new_array", "2;tb", [w, "x1"])], 0), []][1]


def nested(p, w):
    a = p.x("collections.borrow_arr.new_array", "2;tb", [w, "x1"])
    t = p.op("tup barr(2,tb);tb", [a, w])
    n = p.x("collections.borrow_arr.new_array", "1;tup(barr(2,tb),tb)", [t])
    a, v = p.x("collections.borrow_arr.borrow", "1;tup(barr(2,tb),tb)", [n, p.const("u", 0)], 2)
    a = p.x("collections.borrow_arr.return", "1;tup(barr(2,tb),tb)", [a, p.const("u", 0), v])
    return [[a, "barr(1,tup(barr(2,tb),tb))"]]


def calli(p, w):
    f = p.new()
    p.body.append(["loadf", "f", f])
    o = [p.new(), p.new()]
    p.body.append(["calli", f, ["tb", "tb"], ["tb", "tb"], [w, "x1"], list(o)])
    return [[x, "tb"] for x in o]


def result(p, w):
    b = rd(p, w)
    p.x("tket.result.result_bool", "'r", [b], 0)
    return [[w, "tb"]]


def F():
    p = P(["tb", "tb"])
    a = p.op(BIN[2], ["x0", "x1"])
    return dict(p.done([[a, "tb"], ["x0", "tb"]]), name="f")


def statics():
    """Static arrays of bools and of containers of bools."""
    for i in range(4):
        for vals in itertools.product((True, False), repeat=2):
            p = P(["tb"])
            a = p.const("sarr(tb)", [["tb", v] for v in vals])
            o = p.x("collections.static_array.get", "tb", [a, p.const("u", i)])
            yield f"static:{i}:{vals}", p.done([[o, "opt(tb)"], [p.x("collections.static_array.len", "tb", [a]), "u"]])
    for el, vals in (("tup(tb,b)", [[["tb", True], ["b", False]], [["tb", False], ["b", True]]]), ("tup(b,tb,tb)", [[["b", True], ["tb", True], ["tb", False]]])):
        for i in range(len(vals) + 1):
            p = P([])
            a = p.const(f"sarr({el})", [[el, v] for v in vals])
            yield f"static:{el}:{i}", p.done([[p.x("collections.static_array.get", el, [a, p.const("u", i)]), f"opt({el})"]])
    for el, vals in (("sum(|tb|b)", [[0, []], [1, [["tb", True]]], [2, [["b", True]]], [1, [["tb", False]]]]), ("sum(tb|tb,tb)", [[0, [["tb", True]]], [1, [["tb", False], ["tb", True]]]]), ("sum(sum(tb|b)|tb)", [[0, [["sum(tb|b)", [0, [["tb", True]]]]]], [1, [["tb", False]]], [0, [["sum(tb|b)", [1, [["b", True]]]]]]])):
        for i in range(len(vals) + 1):
            p = P([])
            a = p.const(f"sarr({el})", [[el, v] for v in vals])
            yield f"static:{el}:{i}", p.done([[p.x("collections.static_array.get", el, [a, p.const("u", i)]), f"opt({el})"]])
    p = P([])
    a = p.const("sarr(b)", [["b", True], ["b", False]])
    yield "static:plain", p.done([[p.x("collections.static_array.get", "b", [a, p.const("u", 1)]), "opt(b)"]])


def family():
    yield from singles()
    yield from statics()
    us = list(uses())
    for (sn, s), (un, u) in itertools.product(sources(), us):
        p = P(["tb", "tb"])
        w = s(p)
        yield f"use:{sn}:{un}", p.done(u(p, w), funcs=[F()])
    # the same bool used in two ways
    few = [x for x in us if x[0] in ("out", "read", "self-xor", "with-x1", "tuple-drop", "branch", "branch-drop", "call", "loop-again", "barr-copy", "barr-get0", "arr-drop", "branch-sum", "dfg-drop")]
    for (sn, s), (un, u), (vn, v) in itertools.product([x for x in sources() if x[0] in ("in", "measure")], few, few):
        p = P(["tb", "tb"])
        w = s(p)
        a = u(p, w)
        yield f"two:{sn}:{un}:{vn}", p.done(a + v(p, w), funcs=[F()])


def randprog(rng, size):
    """Measurements, bools, branches with gates."""
    p = P(["q", "q", "tb", "b"])
    qs, bs = ["x0", "x1"], ["x2"]

    def step(d):
        k = rng.randrange(12)
        if k < 3:
            i = rng.randrange(len(qs))
            qs[i] = p.op(Q + rng.choice(["H", "X", "T", "S", "Z"]), [qs[i]])
        elif k == 3 and len(qs) > 1:
            i, j = rng.sample(range(len(qs)), 2)
            qs[i], qs[j] = p.op(Q + rng.choice(["CX", "CZ"]), [qs[i], qs[j]], 2)
        elif k == 4 and len(qs) > 1:
            bs.append(p.op(rng.choice([QS + "Measure", Q + "MeasureFree"]), [qs.pop(rng.randrange(len(qs)))]))
        elif k == 5:
            i = rng.randrange(len(qs))
            qs[i], b = p.op(QS + "MeasureReset", [qs[i]], 2)
            bs.append(b)
        elif k == 6:
            bs.append(p.op(rng.choice(BIN), [rng.choice(bs), rng.choice(bs)]))
        elif k == 7:
            bs.append(p.op("tket.bool.not", [rng.choice(bs)]))
        elif k == 8:
            bs.append(p.op("tket.bool.make_opaque", [rd(p, rng.choice(bs))]))
        elif k in (9, 10) and d:
            i = rng.randrange(len(qs))
            o = [rng.choice(bs) for _ in range(2)]

            def case(r, n):
                q, *b = n
                for _ in range(rng.randrange(3)):
                    q = p.op(Q + rng.choice(["H", "X", "Z", "T"]), [q])
                if rng.random() < .3:
                    q, m = p.op(QS + "MeasureReset", [q], 2)
                    b.append(m)
                x = rng.choice(b)
                if rng.random() < .5:
                    x = p.op(rng.choice(BIN), [x, rng.choice(b)])
                return [q, x]
            q, b = p.cond(rd(p, rng.choice(bs)), [[], []], [(qs[i], "q"), (o[0], "tb"), (o[1], "tb")], [case, case], ["q", "tb"])
            qs[i] = q
            bs.append(b)
        elif k == 11:
            o = p.call("f", [rng.choice(bs), rng.choice(bs)], 2)
            bs.extend(o)
    for _ in range(size):
        step(1)
    outs = [[q, "q"] for q in qs] + [[rng.choice(bs), "tb"] for _ in range(2)] + [[rd(p, rng.choice(bs)), "b"]]
    return p.done(outs, funcs=[F()])


def passes(ctx, reqs):
    fd, path = tempfile.mkstemp(suffix=".jsonl")
    with os.fdopen(fd, "w") as f:
        for k, r in reqs.items():
            f.write(json.dumps(dict(case=k, **r)) + "\n")
    outs = {c["case"]: c for c in ctx.native("passes", path)}
    os.unlink(path)
    for k in reqs:
        if k not in outs:
            raise RuntimeError(f"no answer for {k}")
        if "error" in outs[k] or "panic" in outs[k]:
            raise RuntimeError(f"{k} could not be built: {outs[k]} {reqs[k]}")
    return outs


def remaining(after):
    """What must be gone: the opaque bool and the eager measurements."""
    t = json.dumps(after)
    if '"extension": "tket.bool"' in t or '"extension":"tket.bool"' in t:
        return "the opaque bool is still used"
    for n in after["nodes"]:
        if n.get("op") == "Extension" and (n["extension"], n["name"]) in (("tket.quantum", "MeasureFree"), ("tket.qsystem", "Measure"), ("tket.qsystem", "MeasureReset")):
            return f"the eager {n['name']} is still used"
    return None


def judge(o, replaced=True, max_paths=256, rem=True):
    if "crash" in o:
        return (f"the pass panics: {o['crash']}"[:300], o, True)
    if "refused" in o:
        return (f"the pass fails: {o['refused']}"[:300], o, True)
    if o["invalid"]:
        return (f"the result is not valid: {o['invalid']}"[:300], o, True)
    if replaced and rem:
        r = remaining(o["after"])
        if r:
            return (r, o, True)
    return lazy_equiv(o["before"], o["after"], replaced, max_paths)


RANDOM = [["bools"], ["bools"], ["qsystem 0100"], ["qsystem 1111"], ["qsystem 0110"], ["qsystem 1010"], ["guppy 111111", "bools"], ["guppy 111111", "qsystem 1111"]]


def lazy(passes):
    return any(p == "bools" or p.startswith("qsystem") and p[9] == "1" for p in passes)


def mutant(o, f):
    o = json.loads(json.dumps(o))
    for i, n in enumerate(o["after"]["nodes"]):
        f(o["after"], i, n)
    return o


def canaries(ctx, outs):
    def ren(ext, a, b):
        def f(h, i, n):
            if n.get("op") == "Extension" and (n["extension"], n["name"]) == (ext, a):
                n["name"] = b
        return f
    for k, f in (("op:tket.bool.and", ren("logic", "And", "Or")), ("op:tket.bool.eq", ren("logic", "Eq", "Xor")), ("measure:tket.qsystem.MeasureReset:H", ren("tket.qsystem", "LazyMeasureReset", "LazyMeasureX"))):
        if k in outs and "after" in outs[k]:
            try:
                r = judge(mutant(outs[k], f)) is not None
            except I.Unsupported:
                r = True
            ctx.canary(k, r)

    # a future that is not freed, and one that is not duplicated
    def cut(op):
        def g(o):
            o, hit = json.loads(json.dumps(o)), []
            h = o["after"]
            for i, n in enumerate(h["nodes"]):
                if n.get("op") == "Extension" and (n["extension"], n["name"]) == ("tket.futures", op):
                    if op == "Free":
                        n["extension"], n["name"] = "prelude", "print"
                    else:
                        for e in h["edges"]:
                            if e[0] == [i, 1]:
                                e[0] = [i, 0]
                    hit.append(i)
            return o if hit else None
        return g
    for k, op in (("use:in:nothing", "Free"), ("use:measure:nothing", "Free"), ("use:measure:self-xor", "Dup")):
        o = cut(op)(outs[k]) if "after" in outs.get(k, {}) else None
        if o:
            ctx.canary(f"{k} without {op}", judge(o) is not None)


def run(ctx):
    thorough = ctx.tier != "quick"
    cases = dict(family())
    outs = passes(ctx, {k: dict(prog=p, passes=["bools"], module=True) for k, p in cases.items()})
    ctx.prove_all([(f"{k}: same outputs and quantum action, futures used once, nothing eager left", lambda k=k: judge(outs[k])) for k in cases], SE)
    canaries(ctx, outs)
    n = 1500 if thorough else 400
    rng = random.Random(ctx.seed * 31 + 4)
    reqs = {f"random {i}": dict(prog=randprog(rng, rng.randrange(3, 11)), passes=RANDOM[i % len(RANDOM)], module=True) for i in range(n)}
    outs = passes(ctx, reqs)
    b = ctx.run_bounded("programs", f"random programs of up to 10 steps (gates, measurements, logic, conditionals, calls on shared bools), through the lazy pass alone, inside the whole QSystem pass, and after the guppy normalisation; every boolean input and representation, every outcome; non-trivial: at least one measurement; seed {ctx.seed}")
    ctx.bounded_all(b, [(k, lambda k=k: judge(outs[k], lazy(reqs[k]["passes"]), rem="bools" in reqs[k]["passes"]), "Measure" in json.dumps(reqs[k])) for k in reqs])
    ctx.functions += ["ReplaceBoolPass::run, lowerer (type, constants, all boolean operations, the three eager measurements, array clone / discard / get), read_builder, read_op_dest, make_opaque_op_dest, binary_logic_op_dest, not_op_dest, measure_dest, measure_reset_dest, copy_dfg, barray_get_dest", "ReplaceStaticArrayBoolPass (static arrays of bools and of sums and tuples of bools)", "bounded: QSystemPass, NormalizeGuppy around it"]
    ctx.trusted += ["py/interp.py: the meaning of hugr's operations, of lazy measurements (a future holds the outcome at the time of the measurement) and of futures (linear)", "hugr's ReplaceTypes and linearizer: run, and their output checked"]
    ctx.assumptions += ["composition: the pass replaces each operation on its own and the linearizer serves each wire on its own, so programs are covered by their operations on every source and use (stated lemma; random programs are a bounded stand-in)", "an opaque bool of an input may come in either representation; all are covered for up to 3 input bools", "an array of bools stands for its elements; arrays of 1 and 2 elements"]
