"""C16: clean-up passes keep what the program computes."""
import itertools, json, os, random, tempfile
from checks.common import *
from checks import c12
from checks.c12 import P, Q, QS, rd, BIN, passes, judge

SE = "symbolic execution of the programs before and after the real pass, every classical input, panics included; exact comparison in Q[e^{i pi*}]"
B_ = "collections.borrow_arr"
A_ = "collections.array"


# ------------------------------------------------------------------ tuples
def tuples():
    rows = [["q"], ["b"], ["q", "b"], ["b", "b"], ["q", "q"], ["b", "tb", "q"], ["f", "q", "f"], ["q", "b", "q", "b"]]

    def T(r):
        return f"tup({','.join(r)})"

    def pack(p, ws, r):
        return p.op("tup " + ";".join(r), ws)

    def unpack(p, w, r):
        return p.op("untup " + ";".join(r), [w], len(r)) if len(r) != 1 else [p.op("untup " + ";".join(r), [w])]
    for r in rows:
        n = ",".join(r)
        ws = [f"x{i}" for i in range(len(r))]
        p = P(r)
        u = unpack(p, pack(p, ws, r), r)
        yield f"once:{n}", p.done(zip(u, r))
        p = P(r)
        u = unpack(p, pack(p, ws, r), r)
        yield f"reversed:{n}", p.done(list(zip(u, r))[::-1])
        p = P(r)
        u = unpack(p, pack(p, unpack(p, pack(p, ws, r), r), r), r)
        yield f"twice:{n}", p.done(zip(u, r))
        p = P(r)
        u = unpack(p, pack(p, ws, r), r)
        yield f"again:{n}", p.done([[pack(p, u, r), T(r)]])
        p = P([T(r)])
        yield f"unpack-pack:{n}", p.done([[pack(p, unpack(p, "x0", r), r), T(r)]])
        p = P([T(r)])
        u = unpack(p, pack(p, unpack(p, "x0", r), r), r)
        yield f"unpack-pack-unpack:{n}", p.done(zip(u, r))
        # nested tuples
        p = P(r + ["b"])
        t = pack(p, [pack(p, ws, r), f"x{len(r)}"], [T(r), "b"])
        u, b = unpack(p, t, [T(r), "b"])
        yield f"nested:{n}", p.done(list(zip(unpack(p, u, r), r)) + [[b, "b"]])
        p = P(r + ["b"])
        t = pack(p, [pack(p, ws, r), f"x{len(r)}"], [T(r), "b"])
        u, b = unpack(p, t, [T(r), "b"])
        yield f"nested-kept:{n}", p.done([[u, T(r)], [b, "b"]])
        # across a region
        p = P(r)
        o = p.dfg([(pack(p, ws, r), T(r))], lambda i: [pack(p, unpack(p, i[0], r), r)], [T(r)])
        yield f"region:{n}", p.done(zip(unpack(p, o[0], r), r))
        p = P(r)
        o = p.dfg([(w, t) for w, t in zip(ws, r)], lambda i: unpack(p, pack(p, i, r), r), r)
        yield f"inside:{n}", p.done(zip(o, r))
        # work between
        if r[0] == "q":
            p = P(r)
            u = unpack(p, pack(p, ws, r), r)
            u[0] = p.op(Q + "H", [u[0]])
            u = unpack(p, pack(p, u, r), r)
            u[0] = p.op(Q + "T", [u[0]])
            yield f"work:{n}", p.done(zip(u, r))
        if "q" not in r:
            p = P(r)
            t = pack(p, ws, r)
            u, v = unpack(p, t, r), unpack(p, t, r)
            yield f"two:{n}", p.done(list(zip(u, r)) + list(zip(v, r)))
            p = P(r)
            t = pack(p, ws, r)
            u, v = unpack(p, t, r), unpack(p, t, r)
            yield f"two-crossed:{n}", p.done([[x, y] for a, b, y in zip(v, u, r) for x in (a, b)])
            p = P(r)
            t = pack(p, ws, r)
            yield f"kept:{n}", p.done([[t, T(r)]] + list(zip(unpack(p, t, r), r)))
            p = P(r)
            t = pack(p, ws, r)
            u, v = unpack(p, t, r), unpack(p, t, r)
            yield f"two-kept:{n}", p.done([[t, T(r)]] + list(zip(v, r)) + [[t, T(r)]] + list(zip(u, r)))
            p = P(r)
            t = pack(p, ws, r)
            u = unpack(p, t, r)
            o = p.dfg([(t, T(r))], lambda i: unpack(p, i[0], r), r)
            yield f"kept-region:{n}", p.done(list(zip(u, r)) + list(zip(o, r)))
            p = P(r)
            pack(p, ws, r)
            yield f"unused:{n}", p.done(zip(ws, r))
            p = P(r)
            unpack(p, pack(p, ws, r), r)
            yield f"parts-unused:{n}", p.done(zip(ws, r))
            for k in range(len(r)):
                p = P(r)
                u = unpack(p, pack(p, ws, r), r)
                yield f"part:{n}:{k}", p.done([[u[k], r[k]]])
                p = P(r)
                t = pack(p, ws, r)
                u, v = unpack(p, t, r), unpack(p, t, r)
                yield f"part-two:{n}:{k}", p.done([[u[k], r[k]], [v[-1 - k], r[-1 - k]], [u[k], r[k]]])
                p = P(r)
                t = pack(p, ws, r)
                u = unpack(p, t, r)
                yield f"part-kept:{n}:{k}", p.done([[u[k], r[k]], [t, T(r)]])
        elif "b" in r:
            for k in [i for i, t in enumerate(r) if t == "b"]:
                p = P(r)
                u = unpack(p, pack(p, ws, r), r)
                yield f"part:{n}:{k}", p.done([[w, t] for i, (w, t) in enumerate(zip(u, r)) if i != k])
                p = P(r)
                u = unpack(p, pack(p, ws, r), r)
                yield f"part-many:{n}:{k}", p.done([[w, t] for i, (w, t) in enumerate(zip(u, r))] + [[u[k], "b"]])
    p = P(["b"])
    t = pack(p, ["x0", "x0"], ["b", "b"])
    u = unpack(p, t, ["b", "b"])
    yield "same", p.done([[u[1], "b"], [u[0], "b"]])
    p = P(["b"])
    t = pack(p, ["x0", "x0"], ["b", "b"])
    u = unpack(p, t, ["b", "b"])
    yield "same-part", p.done([[u[1], "b"]])
    p = P(["q"])
    p.op("untup ", [p.op("tup ", [])], 0)
    yield "empty", p.done([["x0", "q"]])
    p = P(["q"])
    yield "empty-kept", p.done([["x0", "q"], [p.op("tup ", []), "tup()"]])
    # one tuple of a measurement and its qubit
    p = P(["q"])
    q, b = p.op(QS + "MeasureReset", ["x0"], 2)
    t = pack(p, [q, b], ["q", "tb"])
    q, b = unpack(p, t, ["q", "tb"])
    yield "measured", p.done([[b, "tb"], [p.op(Q + "H", [q]), "q"], [rd(p, b), "b"]])


# ------------------------------------------------------------------ borrow and return
def arrprog(word, elem="q", n=2, src="in", fifo=True, passback=True):
    """A word over b0 b1 r0 r1 (constant index), bx rx (index from the input), s (swap), h (gate on what is held)."""
    ins = ([f"barr({n},{elem})"] if src == "in" else []) + ["u"]
    p = P(ins)
    a = "x0" if src == "in" else p.x(B_ + ".new_all_borrowed", f"{n};{elem}", []) if src == "empty" else None
    x = ins.index("u")
    held, consts, extra = [], {}, []

    def idx(c):
        if c == "x":
            return f"x{x}"
        return p.const("u", int(c))
    for o in word:
        k, i = o[0], o[1:]
        if k == "b":
            a, v = p.x(B_ + ".borrow", f"{n};{elem}", [a, idx(i)], 2)
            held.append(v)
        elif k == "r":
            if not held:
                if elem != "q":
                    return None
                v = p.op(Q + "QAlloc", [])
            else:
                v = held.pop(0 if fifo else -1)
            if elem == "b" and i != "9":
                extra.append(v)
            a = p.x(B_ + ".return", f"{n};{elem}", [a, idx(i), v])
        elif k == "s":
            s = p.x(B_ + ".swap", f"{n};{elem}", [a, p.const("u", 0), p.const("u", 1)])
            a = p.cond(s, [[f"barr({n},{elem})"], [f"barr({n},{elem})"]], [], [lambda r, _: [r[0]], lambda r, _: [r[0]]], [f"barr({n},{elem})"])[0]
        elif k == "h":
            if not held:
                return None
            held[-1] = p.op(Q + "H", [held[-1]]) if elem == "q" else p.op("logic.Not", [held[-1]])
        elif k == "c":
            if len(held) < 2:
                return None
            held[-1], held[0] = p.op(Q + "CX", [held[-1], held[0]], 2)
    return p.done([[a, f"barr({n},{elem})"]] + [[w, elem] for w in held] + [[w, elem] for w in extra])


def borrows(depth):
    seen = set()

    def add(k, p):
        if p is not None:
            yield k, p
    al = ["b0", "b1", "r0", "r1"]
    for L in range(1, depth + 1):
        for w in itertools.product(al, repeat=L):
            yield from add(f"q:{''.join(w)}", arrprog(w))
            if L == depth:
                yield from add(f"q:lifo:{''.join(w)}", arrprog(w, fifo=False))
    for L in range(1, depth):
        for w in itertools.product(al + ["bx", "rx"], repeat=L):
            if "bx" in w or "rx" in w:
                yield from add(f"x:{''.join(w)}", arrprog(w))
    for L in range(2, depth):
        for w in itertools.product(al, repeat=L):
            yield from add(f"e:{''.join(w)}", arrprog(w, src="empty"))
            yield from add(f"b:{''.join(w)}", arrprog(w, elem="b"))
            yield from add(f"b:lifo:{''.join(w)}", arrprog(w, elem="b", fifo=False))
    # gates on what is held, other operations on the array, and indices out of range
    for w in ("b0 h r0 b0 h r0", "b0 h r0 b0 h r0 b0 h r0", "b0 h r0 b1 h r1 b0 h r0 b1 h r1", "b0 b1 c r0 r1 b0 b1 c r0 r1", "b0 b1 c r0 r1 b1 b0 c r1 r0", "b0 r0 s b0 r0", "b0 h r0 s b0 h r0 b0 r0", "b0 r0 b0 s r0", "b0 h r0 bx h rx b0 h r0", "bx h rx b0 h r0 b0 h r0", "b0 h r0 b0 bx r0 rx",
              "b0 h r0 b0 rx b0 h r0", "b5 r5 b5", "b5 r5", "b0 r5 b0", "b2", "r2", "b0 h r0 b5 r5 b0 r0", "b1 h r1 b1 b0 h r0 b0 r0 r1", "b0 b1 h r1 b1 h r1 r0 b0 b1", "b0 b1 h r0 h r1 b0 h r0", "b0 h b1 r1 h r0 b0 b1 c r1 r0", "b0 h r0 b0 h r0 b0 r0 b0 r0 b0 r0"):
        w = w.split()
        for src in ("in", "empty"):
            for n in (2, 3):
                yield from add(f"w:{src}:{n}:{'.'.join(w)}", arrprog(w, src=src, n=n))
                yield from add(f"wb:{src}:{n}:{'.'.join(w)}", arrprog([x for x in w if x != "c"], src=src, n=n, elem="b"))
    # indices that are not loaded where they are used, and constants of both kinds
    for a, b, c in itertools.product((0, 1), repeat=3):
        p = P(["barr(2,q)"])
        i = [p.const("u", a), p.const("u", b), p.const("u", c)]
        z, q = p.x(B_ + ".borrow", "2;q", ["x0", i[0]], 2)
        z = p.x(B_ + ".return", "2;q", [z, i[1], q])
        z, q = p.x(B_ + ".borrow", "2;q", [z, i[2]], 2)
        yield f"shared:{a}{b}{c}", p.done([[z, "barr(2,q)"], [q, "q"]])
        # through a region
        p = P(["barr(2,q)"])
        z, q = p.x(B_ + ".borrow", "2;q", ["x0", p.const("u", a)], 2)

        def inner(n, b=b, p=p):
            y = p.x(B_ + ".return", "2;q", [n[0], p.const("u", b), n[1]])
            return [y]
        z = p.dfg([(z, "barr(2,q)"), (q, "q")], inner, ["barr(2,q)"])[0]
        z, q = p.x(B_ + ".borrow", "2;q", [z, p.const("u", c)], 2)
        yield f"region:{a}{b}{c}", p.done([[z, "barr(2,q)"], [q, "q"]])
        # inside a branch, a loop
        p = P(["barr(2,q)", "b"])

        def case(x, p=p):
            def f(r, o):
                z, q = p.x(B_ + ".borrow", "2;q", [o[0], p.const("u", x)], 2)
                z = p.x(B_ + ".return", "2;q", [z, p.const("u", b), p.op(Q + "H", [q])])
                z, q = p.x(B_ + ".borrow", "2;q", [z, p.const("u", c)], 2)
                return [p.x(B_ + ".return", "2;q", [z, p.const("u", c), p.op(Q + "T", [q])])]
            return f
        yield f"branch:{a}{b}{c}", p.done([[p.cond("x1", [[], []], [("x0", "barr(2,q)")], [case(a), case(1 - a)], ["barr(2,q)"])[0], "barr(2,q)"]])
    # two arrays
    for a, b, c in itertools.product((0, 1), repeat=3):
        p = P(["barr(2,q)", "barr(2,q)"])
        z, q = p.x(B_ + ".borrow", "2;q", ["x0", p.const("u", a)], 2)
        y, r = p.x(B_ + ".borrow", "2;q", ["x1", p.const("u", b)], 2)
        q, r = p.op(Q + "CX", [q, r], 2)
        z = p.x(B_ + ".return", "2;q", [z, p.const("u", a), r])
        y = p.x(B_ + ".return", "2;q", [y, p.const("u", b), q])
        z, q = p.x(B_ + ".borrow", "2;q", [z, p.const("u", c)], 2)
        y, r = p.x(B_ + ".borrow", "2;q", [y, p.const("u", b)], 2)
        yield f"arrays:{a}{b}{c}", p.done([[z, "barr(2,q)"], [y, "barr(2,q)"], [q, "q"], [r, "q"]])
    # arrays in arrays
    O = "2;barr(2,q)"
    for i, j, k, l, m, n in itertools.product((0, 1), repeat=6):
        p = P(["barr(2,barr(2,q))"])
        z, a = p.x(B_ + ".borrow", O, ["x0", p.const("u", i)], 2)
        a, q = p.x(B_ + ".borrow", "2;q", [a, p.const("u", j)], 2)
        a = p.x(B_ + ".return", "2;q", [a, p.const("u", k), p.op(Q + "H", [q])])
        z = p.x(B_ + ".return", O, [z, p.const("u", l), a])
        z, a = p.x(B_ + ".borrow", O, [z, p.const("u", m)], 2)
        a, q = p.x(B_ + ".borrow", "2;q", [a, p.const("u", n)], 2)
        a = p.x(B_ + ".return", "2;q", [a, p.const("u", n), p.op(Q + "T", [q])])
        z = p.x(B_ + ".return", O, [z, p.const("u", m), a])
        yield f"nested:{i}{j}{k}{l}{m}{n}", p.done([[z, "barr(2,barr(2,q))"]])
    for i, j, k in itertools.product((0, 1), repeat=3):
        # a part held while its array is returned; the array changed outside
        p = P(["barr(2,barr(2,q))"])
        z, a = p.x(B_ + ".borrow", O, ["x0", p.const("u", i)], 2)
        a, q = p.x(B_ + ".borrow", "2;q", [a, p.const("u", j)], 2)
        z = p.x(B_ + ".return", O, [z, p.const("u", i), a])
        z, a = p.x(B_ + ".borrow", O, [z, p.const("u", k)], 2)
        a = p.x(B_ + ".return", "2;q", [a, p.const("u", j), q])
        z = p.x(B_ + ".return", O, [z, p.const("u", k), a])
        yield f"held:{i}{j}{k}", p.done([[z, "barr(2,barr(2,q))"]])
        p = P(["barr(2,barr(2,q))"])
        z, a = p.x(B_ + ".borrow", O, ["x0", p.const("u", i)], 2)
        z, b = p.x(B_ + ".borrow", O, [z, p.const("u", 1 - i)], 2)
        a, q = p.x(B_ + ".borrow", "2;q", [a, p.const("u", j)], 2)
        b, r = p.x(B_ + ".borrow", "2;q", [b, p.const("u", j)], 2)
        q, r = p.op(Q + "CX", [q, r], 2)
        a = p.x(B_ + ".return", "2;q", [a, p.const("u", j), r])
        b = p.x(B_ + ".return", "2;q", [b, p.const("u", j), q])
        z = p.x(B_ + ".return", O, [z, p.const("u", k), a])
        z = p.x(B_ + ".return", O, [z, p.const("u", 1 - k), b])
        z, a = p.x(B_ + ".borrow", O, [z, p.const("u", i)], 2)
        a, q = p.x(B_ + ".borrow", "2;q", [a, p.const("u", j)], 2)
        yield f"exchanged:{i}{j}{k}", p.done([[z, "barr(2,barr(2,q))"], [a, "barr(2,q)"], [q, "q"]])


# ------------------------------------------------------------------ containers
LEAVES = ["q", "b"]


def ctypes(leaf):
    o = "b" if leaf == "q" else "f"
    base = [leaf, o, f"tup({leaf})", f"tup({leaf},{o})", f"tup({o},{leaf},{o},{leaf})", f"tup({o},{o})", "tup()", f"opt({leaf})", f"opt({o})", f"sum({leaf}|{o})"]
    for k in ("arr", "barr", "varr"):
        base += [f"{k}({n},{t})" for n in (0, 1, 2, 3) for t in (leaf, o, f"opt({leaf})")]
        base += [f"{k}(2,tup({leaf},{o}))", f"{k}(2,tup({o},{leaf},{leaf}))", f"{k}(2,tup({o},{o}))", f"{k}(2,opt({o}))", f"{k}(1,sum({leaf}|{o}))", f"{k}(2,tup())"]
    base += [f"tup(arr(2,{leaf}),{o},barr(2,{leaf}))", f"arr(2,barr(2,{leaf}))", f"barr(2,arr(3,{leaf}))", f"varr(2,arr(1,tup({leaf},{o})))", f"tup(tup({leaf},{o}),tup({o},{leaf}))", f"arr(2,tup(arr(2,{leaf}),{o}))", f"tup(opt({leaf}),{leaf})", f"tup(arr(2,opt({leaf})),{leaf})", f"barr(2,tup({leaf},barr(1,opt({leaf}))))", f"arr(2,arr(0,{leaf}))", f"tup({leaf},arr(0,{leaf}))", f"arr(0,tup({leaf},{o}))", f"tup(arr(1,{leaf}),arr(1,{leaf}),arr(1,{leaf}))", f"arr(2,tup(tup({leaf}),tup({o},{leaf})))", f"tup({leaf},{leaf},{leaf},{leaf},{leaf})", f"arr(2,opt(arr(2,{leaf})))"]
    return list(dict.fromkeys(base))


def isopt(t, leaf):
    return t[0] == "sum" and len(t[1]) == 2 and not t[1][0] and t[1][1] == [leaf]


def leaves(t, leaf):
    """The types of the parts, or None if there is nothing to take apart."""
    if t == leaf:
        return [t]
    if t[0] == "sum" and len(t[1]) == 1:
        r = [leaves(x, leaf) for x in t[1][0]]
        if all(x is None for x in r):
            return None
        return [y for x, l in zip(t[1][0], r) for y in (l if l is not None else [x])]
    if t[0] == "arr":
        if isopt(t[2], leaf):
            return [leaf] * t[1]
        r = leaves(t[2], leaf)
        return None if r is None else r * t[1]
    return None


def rebuild(t, leaf, it):
    if t == leaf or leaves(t, leaf) is None:
        return next(it)
    if t[0] == "sum":
        return I.Sum(0, [rebuild(x, leaf, it) for x in t[1][0]])
    if isopt(t[2], leaf):
        return I.Arr([I.Sum(1, [next(it)]) for _ in range(t[1])])
    return I.Arr([rebuild(t[2], leaf, it) for _ in range(t[1])])


def full(t, leaf, v):
    """Panics where an array of options that is taken apart holds none."""
    if leaves(t, leaf) is None or t == leaf:
        return
    if t[0] == "sum":
        for x, y in zip(t[1][0], v.vals):
            full(x, leaf, y)
    elif t[0] == "arr":
        for x in v.xs:
            if isopt(t[2], leaf):
                if x.tag == 0:
                    raise I.Panic("none")
            else:
                full(t[2], leaf, x)


def container(o, ident, leaf):
    """o: the answer of the real builder; ident: the identity program on the type."""
    if "panic" in o or "error" in o:
        return (f"{o.get('panic', o.get('error'))}"[:300], o, True)
    if o["invalid"]:
        return (f"the result is not valid: {o['invalid']}"[:300], o, True)
    h0 = I.Hugr(ident)
    f0 = fn_of(h0)
    sig = h0.nodes[f0]["signature"]
    sig = sig.get("body", sig)
    t = I.ty_of(sig["input"][0])
    lt = {"q": ("q",), "b": ("sum", [[], []])}[leaf]
    ls = leaves(t, lt)
    if (o["row"] is None) != (ls is None):
        return (f"takes apart: {o['row']}, the leaves are {ls}", o, True)
    n = 1 if ls is None else len(ls)
    if not (o["wires"] == o["num"] == n) or ls is not None and len(o["row"]) != n:
        return (f"{o['wires']} wires, {o['num']} announced, row {o['row']}, {n} leaves", o, True)

    def ref(ex, args):
        full(t, lt, args[0])
        return args
    h1, h2 = I.Hugr(o["after"]), I.Hugr(o["parts"])

    def parts(ex, args):
        r = ex.call(fn_of(h2), args)
        return [rebuild(t, lt, iter(r))]
    for assign in classical_inputs(h0, f0):
        cls = lambda k, m: assign.get(k, 0) % m
        d0 = I.run_paths(h0, f0, EX, sym, cls, c12.mk, runner=ref, ins=sig["input"])
        for nm, h, run in (("there and back", h1, lambda ex, a: ex.call(fn_of(h1), a)), ("parts", h2, parts)):
            try:
                d = I.run_paths(h, fn_of(h), EX, sym, cls, c12.mk, runner=run, ins=sig["input"])
            except I.Stuck as e:
                return (f"{nm}: no meaning: {e}", o, True)
            r = I.compare(EX, d0, d)
            if r:
                return (f"{nm}: {r}", dict(o, classical=assign), True)
    return None


# ------------------------------------------------------------------ drops
def drops():
    ts = ["b", "u", "f", "tup(b,f)", "fut(b)", "tup(fut(b),b)", "tup(fut(b),fut(b))", "opt(fut(b))", "sum(fut(b)|b)", "sum(fut(b),fut(b)|b|fut(b))", "tup()"]
    for k in ("arr", "barr", "varr"):
        ts += [f"{k}({n},{t})" for n in (0, 1, 2) for t in ("b", "fut(b)", "opt(fut(b))", "tup(fut(b),b)")]
        ts += [f"{k}(2,{j}(2,{t}))" for j in ("arr", "barr") for t in ("b", "fut(b)")]
    ts += ["tup(arr(2,fut(b)),fut(b))", "opt(barr(2,fut(b)))", "tup(barr(2,u),b)", "barr(2,tup(fut(b),barr(1,fut(b))))"]
    for t in ts:
        p = P([t, "b"])
        p.x("tket.guppy.drop", t, ["x0"], 0)
        yield f"drop:{t}", p.done([["x1", "b"]])
        p = P([t, "b"])
        o = p.cond("x1", [[], []], [("x0", t)], [lambda r, o: [p.x("tket.guppy.drop", t, [o[0]], 0), p.const("b", True)][1:], lambda r, o: [p.x("tket.guppy.drop", t, [o[0]], 0), p.const("b", False)][1:]], ["b"])
        yield f"drop-branch:{t}", p.done([[o[0], "b"]])
        p = P([t, t])
        p.x("tket.guppy.drop", t, ["x0"], 0)
        yield f"drop-one:{t}", p.done([["x1", t]])
    # an array with borrowed parts
    for i in (0, 1):
        p = P(["barr(2,fut(b))"])
        a, f = p.x(B_ + ".borrow", "2;fut(b)", ["x0", p.const("u", i)], 2)
        p.x("tket.guppy.drop", "barr(2,fut(b))", [a], 0)
        yield f"drop-borrowed:{i}", p.done([[p.op("fut.Read b", [f]), "b"]])


def nodrops(o):
    r = judge(o, False)
    if r:
        return r
    for n in o["after"]["nodes"]:
        if n.get("op") == "Extension" and n["name"] == "drop":
            return ("a drop remains", o, True)
    return None


# ------------------------------------------------------------------ whole programs
def randprog(rng, size):
    """Arrays, tuples, regions, constants."""
    p = P(["barr(3,q)", "q", "b", "tup(b,q)"])
    arr, qs, bs, held = "x0", ["x1"], ["x2"], 0
    t = p.op("untup b;q", ["x3"], 2)
    bs.append(t[0])
    qs.append(t[1])
    out = set()

    def step(d):
        nonlocal arr
        k = rng.randrange(12)
        if k < 4:
            i = rng.randrange(3)
            if i in out and qs and rng.random() < .9 or i not in out and qs and rng.random() < .05:
                arr = p.x(B_ + ".return", "3;q", [arr, p.const("u", i), qs.pop(rng.randrange(len(qs)))])
                out.discard(i)
            else:
                arr, q = p.x(B_ + ".borrow", "3;q", [arr, p.const("u", i)], 2)
                qs.append(q)
                out.add(i)
        elif k < 7 and qs:
            i = rng.randrange(len(qs))
            qs[i] = p.op(Q + rng.choice(["H", "X", "T", "S"]), [qs[i]])
        elif k == 7 and len(qs) > 1:
            i, j = rng.sample(range(len(qs)), 2)
            qs[i], qs[j] = p.op(Q + "CX", [qs[i], qs[j]], 2)
        elif k == 8 and qs:
            i = rng.randrange(len(qs))
            b = rng.choice(bs)
            w = p.op("tup b;q", [b, qs[i]])
            if rng.random() < .3:
                w = p.op("tup tup(b,q);b", [w, b])
                w, b = p.op("untup tup(b,q);b", [w], 2)
            b, qs[i] = p.op("untup b;q", [w], 2)
            bs.append(b)
        elif k == 9:
            bs.append(p.op("logic.Not", [rng.choice(bs)]) if rng.random() < .5 else p.op("logic." + rng.choice(["And", "Or", "Xor"]), [rng.choice(bs), rng.choice(bs)]))
        elif k == 10 and qs:
            i = rng.randrange(len(qs))
            qs[i], b = p.op(Q + "Measure", [qs[i]], 2)
            bs.append(b)
        elif k == 11 and d and qs:
            i = rng.randrange(len(qs))
            if rng.random() < .4:
                qs[i], arr = p.dfg([(qs[i], "q"), (arr, "barr(3,q)")], lambda n: [p.op(Q + "H", [n[0]]), n[1]], ["q", "barr(3,q)"])
            else:
                g = [rng.choice(["H", "X", "Z", "T"]) for _ in range(2)]
                w = rng.choice(bs) if rng.random() < .7 else p.const("b", rng.random() < .5)
                qs[i] = p.cond(w, [[], []], [(qs[i], "q")], [lambda r, n: [p.op(Q + g[0], [n[0]])], lambda r, n: [p.op(Q + g[1], [n[0]])]], ["q"])[0]
    for _ in range(size):
        step(1)
    o = [[arr, "barr(3,q)"]] + [[q, "q"] for q in qs] + [[rng.choice(bs), "b"] for _ in range(2)]
    return p.done(o)


GUPPY = ["100000", "010000", "001000", "000100", "000010", "000001", "111111", "010011"]


def run(ctx):
    thorough = ctx.tier != "quick"
    T, Bw, D = dict(tuples()), dict(borrows(6 if thorough else 5)), dict(drops())
    reqs = {f"untuple/{k}": dict(prog=p, passes=["untuple"]) for k, p in T.items()}
    reqs |= {f"guppy-untuple/{k}": dict(prog=p, passes=["guppy 010000"]) for k, p in T.items()}
    reqs |= {f"borrow/{k}": dict(prog=p, passes=["borrow"]) for k, p in Bw.items()}
    reqs |= {f"guppy/{k}": dict(prog=p, passes=["guppy 111111"]) for k, p in list(T.items()) + [x for x in Bw.items() if not x[0].startswith("q:") or len(x[0]) <= 8]}
    reqs |= {f"drops/{k}": dict(prog=p, passes=["drops"], module=True) for k, p in D.items()}
    outs = passes(ctx, reqs)
    ctx.prove_all([(f"{k}: same outputs, quantum action and panics", lambda k=k: (nodrops if k.startswith("drops/") else lambda o: judge(o, False))(outs[k])) for k in reqs], SE)
    did = sum(bool(o.get("did") and o["did"][0]) for k, o in outs.items() if k.startswith(("untuple/", "borrow/")))
    if did < 150:
        ctx.notes.append(f"only {did} programs were changed")
    # containers
    cs = {f"{l}:{t}": (l, t) for l in LEAVES for t in ctypes(l)}
    fd, path = tempfile.mkstemp(suffix=".jsonl")
    with os.fdopen(fd, "w") as f:
        for k, (l, t) in cs.items():
            f.write(json.dumps(dict(case=k, type=t, leaf=l)) + "\n")
    got = {c["case"]: c for c in ctx.native("containers", path)}
    os.unlink(path)
    ident = passes(ctx, {k: dict(prog={"in": [t], "out": [["x0", t]], "body": []}, passes=[]) for k, (l, t) in cs.items()})
    for k in cs:
        if k not in got:
            raise RuntimeError(f"no answer for {k}")
    ctx.prove_all([(f"containers/{k}: the parts are the leaves in order, together again they are the value", lambda k=k: container(got[k], ident[k]["before"], cs[k][0])) for k in cs], SE)
    # vacuity
    def other(a, b):
        return c12.lazy_equiv(outs[a]["before"], outs[b]["after"], False) is not None
    ctx.canary("a tuple taken apart in the other order", other("untuple/once:b,b", "untuple/reversed:b,b"))
    ctx.canary("borrowed at 0 instead of 1", other("borrow/q:b0r0b0", "borrow/q:b0r0b1"))
    ctx.canary("a panic lost", other("borrow/q:b0b0", "borrow/q:b0b1"))
    k = "q:tup(q,b)"
    ctx.canary("parts in another order", container(got["q:tup(b,q,b,q)"], ident[k]["before"], "q") is not None)
    o = json.loads(json.dumps(outs["drops/drop:tup(fut(b),fut(b))"]))
    for n in o["after"]["nodes"]:
        if n.get("name") == "Free":
            n["extension"], n["name"] = "prelude", "print"
            break
    ctx.canary("a future not freed", nodrops(o) is not None)
    # whole programs
    n = 1200 if thorough else 300
    rng = random.Random(ctx.seed * 19 + 2)
    reqs = {f"random {i}": dict(prog=randprog(rng, rng.randrange(4, 14)), passes=[f"guppy {GUPPY[i % len(GUPPY)]}"] if i % 3 else ["borrow"] if i % 2 else ["untuple"]) for i in range(n)}
    outs2 = passes(ctx, reqs)
    b = ctx.run_bounded("programs", f"random programs over arrays, tuples, regions, branches and measurements of up to 13 steps, through the clean-up passes and every option of the normalisation; every classical input and outcome; non-trivial: the array is used; seed {ctx.seed}")
    ctx.bounded_all(b, [(k, lambda k=k: judge(outs2[k], False), ".borrow" in json.dumps(reqs[k])) for k in reqs])
    ctx.functions += ["find_tuple_unpack_rewrites, make_rewrite, remove_pack_unpack (applied to a fixpoint)", "BorrowSquashPass::run, borrow_squash_traversal, next_array_op, is_borrow_return, find_const", "UnpackContainerBuilder::{unpack_container, repack_container, unpack_array, repack_array, unpack_option, repack_option, unpack_tuple, repack_tuple}, OpFunctionMap, TypeUnpacker::{unpack_type, num_unpacked_wires}", "LowerDropsPass::run", "NormalizeGuppy::run"]
    ctx.trusted += ["py/interp.py: the meaning of hugr's operations, borrow arrays (touching a borrowed element panics), futures (linear)", "hugr: UntuplePass, ConstantFoldPass, NormalizeCFGPass, InlineDFGsPass, ReplaceTypes, the linearizer: run, and their output checked"]
    ctx.assumptions += ["words of up to 5 (quick) / 6 (thorough) array operations on arrays of 2 and 3 elements: the pass keeps one record per index and forgets everything else (stated lemma), so longer words are sequences of these", "the order of side effects that only order edges fix is not compared"]
