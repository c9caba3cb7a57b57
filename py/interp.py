"""Denotational interpreter for HUGR programs emitted by the real code.

Input: the JSON of a HUGR as written by hugr's own serialiser.  The interpreter
computes, for one function, the list of (classical outcome, operator) pairs it
denotes.  With the exact algebra the parameters stay symbolic.
"""
import json
from fractions import Fraction as F
from collections import defaultdict
import gates as G


class Unsupported(Exception):
    """The interpreter has no meaning for an operation: undecided, never an alarm."""


class Stuck(Exception):
    """The program does something no meaning allows (a dangling port, a qubit used twice)."""


class Panic(Exception):
    pass


class Q:
    __slots__ = ("slot", "alive")

    def __init__(self, slot):
        self.slot = slot
        self.alive = True

    def __repr__(self):
        return f"q{self.slot}"


class Sum:
    __slots__ = ("tag", "vals")

    def __init__(self, tag, vals=()):
        self.tag = tag
        self.vals = list(vals)

    def __repr__(self):
        return f"Sum({self.tag},{self.vals})"


class TBool:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = bool(b)

    def __repr__(self):
        return f"tbool({self.b})"


class Flt:
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return f"f({self.r})"


class Rot:
    __slots__ = ("r",)

    def __init__(self, r):
        self.r = r

    def __repr__(self):
        return f"rot({self.r})"


class Int:
    __slots__ = ("v", "w")

    def __init__(self, v, w):
        self.w = w
        self.v = v & ((1 << (1 << w)) - 1)

    @property
    def s(self):
        n = 1 << self.w
        return self.v - (1 << n) if self.v >> (n - 1) else self.v

    def __repr__(self):
        return f"i{1<<self.w}({self.v})"


class Usize:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"u({self.v})"


class Arr:
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = list(xs)

    def __repr__(self):
        return f"arr{self.xs}"


class Fut:
    __slots__ = ("v", "alive")

    def __init__(self, v):
        self.v = v
        self.alive = True


class Opq:
    """Any other classical value, compared structurally."""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"opq({self.k})"


CONST_HUGRS = {}


class Fun:
    __slots__ = ("node", "mods", "targs", "home")

    def __init__(self, node, mods=(), targs=(), home=None):
        self.node = node
        self.mods = tuple(mods)
        self.targs = tuple(targs)
        self.home = home  # a function constant: its own graph


def freeze(v):
    if isinstance(v, Sum):
        return ("sum", v.tag, tuple(freeze(x) for x in v.vals))
    if isinstance(v, TBool):
        return ("sum", int(v.b), ())  # observed as a plain bool
    if isinstance(v, Fut):
        return freeze(v.v)
    if isinstance(v, Arr):
        return ("arr", tuple(freeze(x) for x in v.xs))
    if isinstance(v, Int):
        return ("int", v.v)
    if isinstance(v, Usize):
        return ("usize", v.v)
    if isinstance(v, (Flt, Rot)):
        r = v.r
        return ("real", r.key() if hasattr(r, "key") else round(r, 9))
    if isinstance(v, Q):
        return ("q",)
    if isinstance(v, Opq):
        return ("opq", v.k)
    if isinstance(v, Fun):
        return ("fun", v.node)
    if v is None:
        return ("none",)
    raise Unsupported(f"freeze {v!r}")


def qubits_of(v, out):
    if isinstance(v, Q):
        out.append(v)
    elif isinstance(v, Sum):
        for x in v.vals:
            qubits_of(x, out)
    elif isinstance(v, Arr):
        for x in v.xs:
            qubits_of(x, out)
    return out


class Hugr:
    def __init__(self, j):
        self.nodes = j["nodes"]
        self.entry = j.get("entrypoint", 0)
        self.meta = j.get("metadata") or []
        n = len(self.nodes)
        self.children = [[] for _ in range(n)]
        for i, nd in enumerate(self.nodes):
            if i and nd["parent"] != i:
                self.children[nd["parent"]].append(i)
        self.inp = defaultdict(dict)  # node -> port -> (src, off)
        self.out = defaultdict(lambda: defaultdict(list))
        self.order = defaultdict(set)
        for (s, so), (d, do) in j["edges"]:
            if so is None or do is None:
                self.order[d].add(s)
                continue
            if do in self.inp[d] and self.nodes[d]["op"] not in ("DataflowBlock", "ExitBlock"):
                raise Stuck(f"two wires into port {do} of node {d}")
            self.inp[d][do] = (s, so)
            self.out[s][so].append((d, do))
        self.topo_cache = {}

    def func(self, name):
        for i in self.children[0]:
            if self.nodes[i].get("name") == name and self.nodes[i]["op"] == "FuncDefn":
                return i
        return None

    def topo(self, region):
        t = self.topo_cache.get(region)
        if t is None:
            ch = self.children[region]
            inside = set(ch)
            state = {}
            t = []

            def anc(n):
                # the ancestor of n that is a child of region, if any
                while n not in inside:
                    if n == 0:
                        return None
                    n = self.nodes[n]["parent"]
                    if n == 0:
                        return None
                return n

            preds = defaultdict(set)

            def subtree(n):
                yield n
                for c in self.children[n]:
                    yield from subtree(c)

            for c in ch:
                for d in subtree(c):
                    for s, _ in self.inp[d].values():
                        a = anc(s)
                        if a is not None and a != c:
                            preds[c].add(a)
                for s in self.order[c]:
                    if s in inside:
                        preds[c].add(s)

            import sys

            stack = []
            for root in ch:
                if root in state:
                    continue
                stack.append((root, iter(sorted(preds[root]))))
                state[root] = 1
                while stack:
                    nd, it = stack[-1]
                    for p in it:
                        if state.get(p) == 1:
                            raise Stuck(f"cycle through node {p}")
                        if p not in state:
                            state[p] = 1
                            stack.append((p, iter(sorted(preds[p]))))
                            break
                    else:
                        state[nd] = 2
                        t.append(nd)
                        stack.pop()
            self.topo_cache[region] = t
        return t


def is_q(t):
    return t.get("t") == "Q" or (t.get("t") == "Opaque" and t.get("id") == "qubit")


def ty_of(t):
    """A short tag for a serialised HUGR type."""
    k = t.get("t")
    if k == "Q":
        return ("q",)
    if k == "I":
        return ("usize",)
    if k == "Sum":
        if t.get("s") == "Unit":
            return ("sum", [[] for _ in range(t["size"])])
        return ("sum", [[ty_of(x) for x in row_tys(r)] for r in t["rows"]])
    if k == "Opaque":
        e, i = t["extension"], t["id"]
        if i == "qubit":
            return ("q",)
        if i == "float64":
            return ("float",)
        if i == "rotation":
            return ("rot",)
        if e == "tket.bool":
            return ("tbool",)
        if i == "int":
            return ("int", nat_arg(t["args"][0]))
        if i in ("array", "borrow_array", "value_array"):
            return ("arr", nat_arg(t["args"][0]), ty_of(type_arg(t["args"][1])))
        if i == "Future":
            return ("fut", ty_of(type_arg(t["args"][0])))
        return ("opq", f"{e}.{i}")
    if k == "G":
        return ("fun",)
    raise Unsupported(f"type {t}")


def row_tys(r):
    if isinstance(r, list):
        return r
    raise Unsupported(f"row {r}")


def nat_arg(a):
    for k in ("n",):
        if k in a:
            return a[k]
    raise Unsupported(f"nat arg {a}")


def type_arg(a):
    if "ty" in a:
        return a["ty"]
    return a


class Exec:
    """One execution path of a HUGR function."""

    def __init__(self, h, alg, choices, fuel=20000):
        self.h = h
        self.A = alg
        self.choices = choices  # list of branch decisions, extended on demand
        self.pos = 0
        self.state = {(): alg.one}  # basis tuple -> amplitude
        self.nslots = 0
        self.fuel = fuel
        self.scope = [{}]
        self.events = []
        self.phase_ok = True
        self.targs = []

    # ---- quantum state ----
    def new_slot(self, bit=0):
        self.state = {k + (bit,): v for k, v in self.state.items()}
        self.nslots += 1
        return Q(self.nslots - 1)

    def use(self, q):
        if not isinstance(q, Q):
            raise Stuck(f"expected a qubit, got {q!r}")
        if not q.alive:
            raise Stuck("qubit used after it was consumed")
        return q.slot

    def gate(self, qs, m):
        A = self.A
        slots = [self.use(q) for q in qs]
        if len(set(slots)) != len(slots):
            raise Stuck("gate applied twice to one qubit")
        n = len(slots)
        cols = []
        for c in range(1 << n):
            cols.append([(r, m[r][c]) for r in range(1 << n) if not A.is_zero(m[r][c])])
        new = {}
        for k, v in self.state.items():
            c = 0
            for s in slots:
                c = c * 2 + k[s]
            for r, x in cols[c]:
                kk = list(k)
                for j, s in enumerate(slots):
                    kk[s] = (r >> (n - 1 - j)) & 1
                kk = tuple(kk)
                y = x * v
                if kk in new:
                    y = new[kk] + y
                new[kk] = y
        self.state = {k: v for k, v in new.items() if not A.is_zero(v)}
        return [Q(s) for s in slots]

    def scalar(self, a):
        self.state = {k: a * v for k, v in self.state.items()}

    def choose(self, n=2):
        if self.pos == len(self.choices):
            self.choices.append(0)
        c = self.choices[self.pos]
        self.pos += 1
        return c

    def measure(self, q):
        s = self.use(q)
        present = {k[s] for k in self.state}
        if len(present) == 1:
            # deterministic outcome: no branch
            return present.pop()
        c = self.choose()
        self.state = {k: v for k, v in self.state.items() if k[s] == c}
        return c

    def reset(self, q):
        """Trace the old qubit out, give back a fresh |0>."""
        self.use(q)
        return self.new_slot(0)

    # ---- evaluation ----
    def value(self, src):
        for sc in reversed(self.scope):
            if src in sc:
                return sc[src]
        raise Stuck(f"value of node {src} not available")

    def inputs(self, n, cnt=None):
        ports = self.h.inp[n]
        out = []
        i = 0
        while True:
            if cnt is not None and i >= cnt:
                break
            if i not in ports:
                if cnt is None:
                    break
                raise Stuck(f"input port {i} of node {n} ({self.h.nodes[n].get('name') or self.h.nodes[n]['op']}) is not connected")
            out.append(self.value(ports[i]))
            i += 1
        return out

    def setouts(self, n, outs):
        for i, v in enumerate(outs):
            self.scope[-1][(n, i)] = v

    def region(self, parent, args):
        """Evaluate a dataflow region; returns the values at its Output node."""
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("out of fuel")
        h = self.h
        self.scope.append({})
        ch = h.children[parent]
        if len(ch) < 2:
            raise Stuck("region without input/output")
        inp, outp = ch[0], ch[1]
        self.setouts(inp, args)
        res = None
        for n in h.topo(parent):
            if n == inp:
                continue
            if n == outp:
                continue
            self.node(n)
        res = self.inputs(outp, len(h.nodes[outp]["types"]))
        self.scope.pop()
        return res

    def call(self, fn, args):
        nd = self.h.nodes[fn]
        if nd["op"] == "FuncDecl":
            return self.extern(fn, args)
        # function bodies see only module-level values
        saved = self.scope
        self.scope = [saved[0]]
        r = self.region(fn, args)
        self.scope = saved
        return r

    def extern(self, fn, args):
        raise Unsupported(f"external function {self.h.nodes[fn].get('name')}")

    def node(self, n):
        h = self.h
        nd = h.nodes[n]
        op = nd["op"]
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported("out of fuel")
        if op in ("Const", "FuncDefn", "FuncDecl", "AliasDefn", "AliasDecl"):
            return
        if op == "LoadConstant":
            src = h.inp[n][0][0]
            self.setouts(n, [self.const(h.nodes[src]["v"])])
            return
        if op == "LoadFunction":
            src = h.inp[n][0][0]
            self.setouts(n, [Fun(src)])
            return
        if op == "Call":
            k = len(nd["instantiation"]["input"])
            args = self.inputs(n, k)
            fn = h.inp[n][k][0]
            self.setouts(n, self.call(fn, args))
            return
        if op == "CallIndirect":
            k = len(nd["signature"]["input"])
            f, *args = self.inputs(n, k + 1)
            self.setouts(n, self.call_value(f, args))
            return
        if op == "DFG":
            args = self.inputs(n, len(nd["signature"]["input"]))
            self.setouts(n, self.region(n, args))
            return
        if op == "Conditional":
            k = 1 + len(nd["other_inputs"])
            s, *rest = self.inputs(n, k)
            if isinstance(s, TBool):
                raise Stuck("conditional on a tket.bool")
            if not isinstance(s, Sum):
                raise Unsupported(f"conditional on {s!r}")
            cases = h.children[n]
            if s.tag >= len(cases):
                raise Stuck("missing case")
            self.setouts(n, self.region(cases[s.tag], s.vals + rest))
            return
        if op == "TailLoop":
            k = len(nd["just_inputs"]) + len(nd["rest"])
            args = self.inputs(n, k)
            while True:
                r = self.region(n, args)
                s, rest = r[0], r[1:]
                if s.tag == 1:
                    self.setouts(n, s.vals + rest)
                    return
                args = s.vals + rest
        if op == "CFG":
            args = self.inputs(n, len(nd["signature"]["input"]))
            ch = h.children[n]
            blk, exitb = ch[0], ch[1]
            while blk != exitb:
                r = self.region(blk, args)
                s, rest = r[0], r[1:]
                args = s.vals + rest
                succ = h.out[blk].get(s.tag)
                if not succ:
                    raise Stuck("missing successor block")
                blk = succ[0][0]
            self.setouts(n, args)
            return
        if op == "Tag":
            k = len(row_tys(nd["variants"][nd["tag"]]))
            self.setouts(n, [Sum(nd["tag"], self.inputs(n, k))])
            return
        if op == "Extension":
            k = len(nd["signature"]["input"])
            args = self.inputs(n, k)
            outs = self.ext(nd["extension"], nd["name"], nd.get("args", []), args, nd, n)
            self.setouts(n, outs)
            return
        if op == "Input":
            return
        raise Unsupported(f"node {op}")

    # ---- constants ----
    def const(self, v):
        k = v["v"]
        A = self.A
        if k == "Extension":
            c = v["value"]["c"]
            x = v["value"]["v"]
            if c == "ConstF64":
                return Flt(A.rfloat(x["value"]))
            if c == "ConstRotation":
                return Rot(A.rfloat(x["half_turns"] if isinstance(x, dict) else x))
            if c == "ConstInt":
                return Int(x["value"], x["log_width"])
            if c == "ConstUsize":
                return Usize(x if isinstance(x, int) else x["value"] if isinstance(x, dict) else x)
            if c == "ConstBool":
                return TBool(x if isinstance(x, bool) else x["value"] if isinstance(x, dict) and "value" in x else x)
            if c in ("ArrayValue", "BArrayValue", "BorrowArrayValue", "ValueArrayValue"):
                return Arr([self.const(y) for y in x["values"]])
            if c == "StaticArrayValue":
                return Arr([self.const(y) for y in x["value"]["values"]])
            if c == "ConstString":
                return Opq(("str", x if isinstance(x, str) else repr(x)))
            return Opq((c, repr(x)))
        if k == "Sum":
            return Sum(v["tag"], [self.const(y) for y in v["vs"]])
        if k == "Tuple":
            return Sum(0, [self.const(y) for y in v["vs"]])
        if k == "Function":
            t = v["hugr"]
            h = CONST_HUGRS.get(t) if isinstance(t, str) else None
            if h is None:
                if not isinstance(t, str) or "{" not in t:
                    raise Unsupported("function constant")
                h = Hugr(json.loads(t[t.index("{"):])["modules"][0])
                if len(CONST_HUGRS) > 5000:
                    CONST_HUGRS.clear()
                CONST_HUGRS[t] = h
            return Fun(None, home=(h, h.entry))
        raise Unsupported(f"const {k}")

    def call_value(self, f, args):
        if not isinstance(f, Fun):
            raise Unsupported(f"call of {f!r}")
        if f.mods:
            if f.home:
                raise Unsupported("modified function constant")
            return self.call_modified(f, args)
        if f.home:
            saved = self.h, self.scope
            self.h, self.scope = f.home[0], [{}]
            r = self.region(f.home[1], args)
            self.h, self.scope = saved
            return r
        return self.call(f.node, args)

    def call_modified(self, f, args):
        """The specification of a modified call: the controlled / inverse unitary of the function, phase included."""
        nctrl = 0
        arrs = [m[1] for m in reversed(f.mods) if m[0] == "control"]
        ctrl_arrs, rest = args[: len(arrs)], args[len(arrs):]
        cq = []
        for n, a in zip(arrs, ctrl_arrs):
            if not isinstance(a, Arr) or len(a.xs) != n:
                raise Stuck("controls do not match the modifier")
            cq += a.xs
        m, shape, tq = self.unitary(f.node, rest)
        k = 0
        # innermost first; controls of an outer modifier come first in the list of qubits
        for mod in f.mods:
            if mod[0] == "dagger":
                m = G.dagger(self.A, m)
            else:
                m = G.control(self.A, m, mod[1])
        outs = self.gate(cq + tq, m)
        it = iter(outs)
        res = [Arr([next(it) for _ in range(n)]) for n in arrs]

        def fill(v):
            if isinstance(v, Q):
                return next(it)
            if isinstance(v, Sum):
                return Sum(v.tag, [fill(x) for x in v.vals])
            if isinstance(v, Arr):
                return Arr([fill(x) for x in v.xs])
            return v

        return res + [fill(v) for v in shape]

    def unitary(self, fn, args):
        """The matrix of a function on the qubits of its arguments (big-endian), phase included."""
        A = self.A
        tq = []
        for a in args:
            qubits_of(a, tq)
        n = len(tq)
        ex = type(self)(self.h, A, [], self.fuel)
        ex.load_globals()
        if hasattr(self, "parent_attrs"):
            ex.__dict__.update(self.parent_attrs())
        # sum over basis states |r>|r>
        st = {(): A.one}
        for _ in range(n):
            st = {k + (b, b): v for k, v in st.items() for b in (0, 1)}
        ex.state = st
        ex.nslots = 2 * n
        cnt = [0]

        def sub(v):
            if isinstance(v, Q):
                cnt[0] += 1
                return Q(2 * (cnt[0] - 1) + 1)
            if isinstance(v, Sum):
                return Sum(v.tag, [sub(x) for x in v.vals])
            if isinstance(v, Arr):
                return Arr([sub(x) for x in v.xs])
            return v

        outs = ex.call(fn, [sub(a) for a in args])
        if ex.pos:
            raise Unsupported("modifier of a function that is not unitary")
        oq = []
        for o in outs:
            qubits_of(o, oq)
        slots = [ex.use(q) for q in oq]
        if len(slots) != n or len(set(slots)) != n or ex.nslots != 2 * n:
            raise Unsupported("modifier of a function that is not unitary")
        m = [[A.nil] * (1 << n) for _ in range(1 << n)]
        for k, v in ex.state.items():
            c = r = 0
            for j in range(n):
                c = 2 * c + k[2 * j]
                r = 2 * r + k[slots[j]]
            m[r][c] = v
        return m, outs, tq

    # ---- extension operations: the trusted contracts of the operations ----
    def ext(self, e, name, targs, a, nd, n):
        A = self.A
        if e == "tket.quantum":
            return self.quantum(name, a, nd)
        if e == "tket.qsystem":
            return self.qsystem(name, a, nd)
        if e == "tket.rotation":
            if name == "from_halfturns_unchecked":
                return [Rot(a[0].r)]
            if name == "from_halfturns":
                return [Sum(1, [Rot(a[0].r)])]
            if name == "to_halfturns":
                return [Flt(a[0].r)]
            if name == "radd":
                return [Rot(a[0].r + a[1].r)]
        if e == "tket.bool":
            if name == "read":
                return [Sum(int(a[0].b))]
            if name == "make_opaque":
                return [TBool(a[0].tag)]
            f = {"and": lambda x, y: x and y, "or": lambda x, y: x or y,
                 "xor": lambda x, y: x != y, "eq": lambda x, y: x == y,
                 "not": lambda x: not x}.get(name)
            if f:
                return [TBool(f(*[x.b for x in a]))]
        if e == "logic":
            f = {"And": lambda x, y: x & y, "Or": lambda x, y: x | y,
                 "Xor": lambda x, y: x ^ y, "Eq": lambda x, y: int(x == y),
                 "Not": lambda x: 1 - x}.get(name)
            if f:
                return [Sum(f(*[x.tag for x in a]))]
        if e == "tket.futures":
            if not isinstance(a[0], Fut):
                raise Stuck(f"future op on {a[0]!r}")
            if not a[0].alive:
                raise Stuck("future used twice")
            a[0].alive = False
            if name == "Read":
                return [a[0].v]
            if name == "Dup":
                return [Fut(a[0].v), Fut(a[0].v)]
            if name == "Free":
                return []
        if e == "arithmetic.float":
            return self.floatop(name, a)
        if e == "prelude":
            return self.prelude(name, a, nd)
        if e in ("collections.array", "collections.borrow_arr", "collections.value_array"):
            return self.array(name, targs, a, nd)
        if e == "collections.static_array":
            if name == "get":
                i = a[1].v
                return [Sum(1, [a[0].xs[i]]) if i < len(a[0].xs) else Sum(0)]
            if name == "len":
                return [Usize(len(a[0].xs))]
        if e == "tket.guppy" and name == "drop":
            return []
        if e == "guppylang" and name == "drop":
            return []
        if e == "tket.debug" and name == "StateResult":
            return a
        if e == "tket.global_phase" and name == "global_phase":
            self.scalar(A.cis(a[0].r))
            return []
        if e in ("arithmetic.int", "arithmetic.conversions"):
            return self.intop(name, targs, a)
        if e == "tket.modifier":
            return self.modifier(name, targs, a)
        return self.other(e, name, targs, a, nd)

    def modifier(self, name, targs, a):
        f = a[0]
        if not isinstance(f, Fun):
            raise Unsupported("modifier of a non-function")
        if name == "ControlModifier":
            return [Fun(f.node, f.mods + (("control", nat_arg(targs[0])),))]
        if name == "DaggerModifier":
            return [Fun(f.node, f.mods + (("dagger",),))]
        raise Unsupported(name)

    def other(self, e, name, targs, a, nd):
        raise Unsupported(f"operation {e}.{name}")

    def quantum(self, name, a, nd):
        A = self.A
        qs = [x for x in a if isinstance(x, Q)]
        rs = [x.r for x in a if isinstance(x, Rot)]
        if len(qs) + len(rs) != len(a):
            raise Stuck(f"bad arguments for {name}")
        m = G.tket_gate(A, name, rs)
        if m is not None:
            if len(m) != 1 << len(qs):
                raise Stuck(f"bad arity for {name}")
            return self.gate(qs, m)
        if name == "Measure":
            b = self.measure(a[0])
            return [Q(a[0].slot), Sum(b)]
        if name == "MeasureFree":
            b = self.measure(a[0])
            a[0].alive = False
            return [TBool(b)]
        if name == "Reset":
            return [self.reset(a[0])]
        if name == "QAlloc":
            return [self.new_slot()]
        if name == "TryQAlloc":
            return [Sum(1, [self.new_slot()])]
        if name == "QFree":
            self.use(a[0])
            a[0].alive = False
            return []
        if name == "symbolic_angle" or name == "SymbolicAngle":
            return [Rot(self.symbol(nd))]
        raise Unsupported(f"tket.quantum.{name}")

    def symbol(self, nd):
        raise Unsupported("symbolic angle")

    def qsystem(self, name, a, nd):
        A = self.A
        if name in ("Rz", "PhasedX", "ZZPhase"):
            qs = [x for x in a if isinstance(x, Q)]
            rs = [x.r for x in a if isinstance(x, Flt)]
            m = G.qsystem_gate(A, name, rs)
            if len(m) != 1 << len(qs):
                raise Stuck(f"bad arity for {name}")
            return self.gate(qs, m)
        if name == "Measure":
            b = self.measure(a[0])
            return [TBool(b)]
        if name == "LazyMeasure":
            return [Fut(Sum(self.measure(a[0])))]
        if name == "LazyMeasureLeaked":
            return [Fut(Int(self.measure(a[0]), 6))]
        if name == "LazyMeasureReset":
            b = self.measure(a[0])
            return [self.reset(a[0]), Fut(Sum(b))]
        if name == "MeasureReset":
            b = self.measure(a[0])
            return [self.reset(a[0]), TBool(b)]
        if name == "Reset":
            return [self.reset(a[0])]
        if name == "TryQAlloc":
            return [Sum(1, [self.new_slot()])]
        if name == "QFree":
            self.use(a[0])
            return []
        if name == "RuntimeBarrier":
            for q in a[0].xs:
                self.use(q)
            return [a[0]]
        raise Unsupported(f"tket.qsystem.{name}")

    def floatop(self, name, a):
        A = self.A
        r = [x.r for x in a]
        if name == "fadd":
            return [Flt(r[0] + r[1])]
        if name == "fsub":
            return [Flt(r[0] - r[1])]
        if name == "fmul":
            return [Flt(r[0] * r[1])]
        if name == "fdiv":
            if A.name == "num":
                try:
                    return [Flt(r[0] / r[1])]
                except ZeroDivisionError:
                    return [Flt(float("nan"))]
            return [Flt(r[0] / r[1])]
        if name == "fneg":
            return [Flt(-r[0])]
        if name in ("fpow", "ffloor", "fceil", "fround", "fabs", "fmax", "fmin"):
            return [Flt(A.app(name, *r))]
        raise Unsupported(f"float op {name}")

    def prelude(self, name, a, nd):
        if name == "MakeTuple":
            return [Sum(0, a)]
        if name == "UnpackTuple":
            return list(a[0].vals)
        if name in ("Noop", "noop", "Barrier"):
            return a
        if name == "panic":
            raise Panic(repr(a[0]))
        if name == "MakeError":
            return [Opq(("err", repr(a)))]
        if name == "load_nat":
            return [Usize(nat_arg(nd["args"][0]))]
        if name == "print":
            return []
        raise Unsupported(f"prelude.{name}")

    def array(self, name, targs, a, nd):
        if a and isinstance(a[0], Arr) and None in a[0].xs:
            # an operation that touches a borrowed element panics
            xs = a[0].xs
            at = range(len(xs)) if name in ("unpack", "clone", "to_array", "scan") else [0] if name == "pop_left" else [len(xs) - 1] if name == "pop_right" else [x.v for x in a[1:] if isinstance(x, Usize)] if name in ("get", "set", "swap") else []
            if any(i < len(xs) and xs[i] is None for i in at):
                raise Panic(f"{name} of a borrowed element")
        if name == "new_array":
            return [Arr(a)]
        if name == "unpack":
            return list(a[0].xs)
        if name == "new_all_borrowed":
            return [Arr([None] * nat_arg(targs[0]))]
        if name == "discard_all_borrowed" or name == "discard" or name == "discard_empty":
            if name == "discard_all_borrowed" and any(x is not None for x in a[0].xs):
                raise Panic("array not fully borrowed")
            return []
        if name == "borrow":
            i = a[1].v
            xs = list(a[0].xs)
            if i >= len(xs) or xs[i] is None:
                raise Panic("borrow")
            v = xs[i]
            xs[i] = None
            return [Arr(xs), v]
        if name == "return":
            i = a[1].v
            xs = list(a[0].xs)
            if i >= len(xs) or xs[i] is not None:
                raise Panic("return")
            xs[i] = a[2]
            return [Arr(xs)]
        if name == "is_borrowed":
            i = a[1].v
            return [a[0], Sum(int(a[0].xs[i] is None))]
        if name == "get":
            i = a[1].v
            xs = a[0].xs
            return [Sum(1, [xs[i]]) if i < len(xs) else Sum(0), a[0]]
        if name == "set":
            i = a[1].v
            xs = list(a[0].xs)
            if i >= len(xs):
                return [Sum(0, [a[2], a[0]])]
            old = xs[i]
            xs[i] = a[2]
            return [Sum(1, [old, Arr(xs)])]
        if name == "swap":
            i, j = a[1].v, a[2].v
            xs = list(a[0].xs)
            if i >= len(xs) or j >= len(xs):
                return [Sum(0, [Arr(xs)])]
            xs[i], xs[j] = xs[j], xs[i]
            return [Sum(1, [Arr(xs)])]
        if name == "pop_left":
            xs = a[0].xs
            return [Sum(1, [xs[0], Arr(xs[1:])]) if xs else Sum(0)]
        if name == "pop_right":
            xs = a[0].xs
            return [Sum(1, [xs[-1], Arr(xs[:-1])]) if xs else Sum(0)]
        if name == "clone":
            return [Arr(a[0].xs), Arr(a[0].xs)]
        if name in ("to_array", "from_array"):
            return [a[0]]
        if name == "repeat":
            return [Arr([self.call_value(a[0], [])[0] for _ in range(nat_arg(targs[0]))])]
        if name == "scan":
            arr, f, *acc = a
            outs = []
            for x in arr.xs:
                y, *acc = self.call_value(f, [x] + acc)
                outs.append(y)
            return [Arr(outs)] + acc
        raise Unsupported(f"array op {name}")

    def intop(self, name, targs, a):
        if name in ("ifromusize",):
            return [Int(a[0].v, 6)]
        if name == "itousize":
            return [Usize(a[0].v)]
        if name == "itobool":
            return [Sum(a[0].v)]
        if name == "ifrombool":
            return [Int(a[0].tag, 0)]
        if name in ("convert_s", "convert_u"):
            v = a[0].s if name.endswith("s") else a[0].v
            return [Flt(self.A.rconst(v))]
        w = a[0].w
        n = 1 << w
        M = (1 << n) - 1
        if name in ("iadd", "isub", "imul", "iand", "ior", "ixor"):
            x, y = a[0].v, a[1].v
            v = {"iadd": x + y, "isub": x - y, "imul": x * y, "iand": x & y, "ior": x | y, "ixor": x ^ y}[name]
            return [Int(v & M, w)]
        if name == "ineg":
            return [Int(-a[0].v & M, w)]
        if name == "inot":
            return [Int(~a[0].v & M, w)]
        cmp = {"ieq": "v", "ine": "v"}
        if name[:3] in ("ilt", "ile", "igt", "ige", "ieq", "ine"):
            s = name.endswith("_s")
            x, y = (a[0].s, a[1].s) if s else (a[0].v, a[1].v)
            b = {"ilt": x < y, "ile": x <= y, "igt": x > y, "ige": x >= y, "ieq": x == y, "ine": x != y}[name[:3]]
            return [Sum(int(b))]
        raise Unsupported(f"int op {name}")


# ---------------------------------------------------------------- denotations


def mk_input(ex, ty, name, cls, bind):
    """A symbolic or enumerated value of a serialised type."""
    t = ty_of(ty) if isinstance(ty, dict) else ty
    k = t[0]
    if k == "q":
        # entangled with a reference: recorded through the basis label later
        return ex.new_input_qubit()
    if k == "float":
        return Flt(bind(name))
    if k == "rot":
        return Rot(bind(name))
    if k == "tbool":
        return TBool(cls(name, 2))
    if k == "sum":
        tag = cls(name, len(t[1])) if len(t[1]) != 1 else 0
        return Sum(tag, [mk_input(ex, x, f"{name}.{i}", cls, bind) for i, x in enumerate(t[1][tag])])
    if k == "arr":
        return Arr([mk_input(ex, t[2], f"{name}.{i}", cls, bind) for i in range(t[1])])
    if k == "int":
        return Int(cls(name, 4), t[1])
    if k == "usize":
        return Usize(cls(name, 4))
    if k == "fut":
        return Fut(mk_input(ex, t[1], name, cls, bind))
    if k == "opq":
        return Opq(("in", name))
    raise Unsupported(f"input of type {t}")


class Den:
    """Denotation of one function for one assignment of classical inputs.

    ops: dict outcome -> list of Kraus 'vectors': dict (ref bits, out bits, env bits) -> amp
    """

    def __init__(self):
        self.by = defaultdict(list)
        self.paths = 0


def run_paths(h, fn, alg, bind, clsval, make_exec=Exec, max_paths=256, runner=None, ins=None):
    """All execution paths of function `fn`."""
    if ins is None:
        nd = h.nodes[fn]
        sig = nd["signature"]["body"] if "body" in nd.get("signature", {}) else nd["signature"]
        ins = sig["input"]
    den = Den()
    stack = [[]]
    while stack:
        choices = stack.pop()
        ex = make_exec(h, alg, list(choices))
        refs = []

        def newq(ex=ex, refs=refs):
            # (|0>|0> + |1>|1>), unnormalised: slot r is the reference
            st = {}
            for k, v in ex.state.items():
                st[k + (0, 0)] = v
                st[k + (1, 1)] = v
            ex.state = st
            refs.append(ex.nslots)
            ex.nslots += 2
            return Q(ex.nslots - 1)

        ex.new_input_qubit = newq
        ex.load_globals()
        args = [mk_input(ex, t, f"x{i}", clsval, bind) for i, t in enumerate(ins)]
        try:
            outs = runner(ex, args) if runner else ex.call(fn, args)
            outcome = tuple(freeze(o) for o in outs) + tuple(ex.events)
            qs = []
            for o in outs:
                qubits_of(o, qs)
            slots = [ex.use(q) for q in qs]
            if len(set(slots)) != len(slots):
                raise Stuck("one qubit returned twice")
        except Panic as p:
            outcome = ("panic",)
            slots = []
        rest = [s for s in range(ex.nslots) if s not in slots and s not in refs]
        vec = {}
        for k, v in ex.state.items():
            key = (tuple(k[s] for s in refs), tuple(k[s] for s in slots), tuple(k[s] for s in rest))
            vec[key] = v
        if vec:
            den.by[outcome].append(vec)
        den.paths += 1
        if den.paths > max_paths:
            raise Unsupported("too many paths")
        # schedule the alternatives of the choices made beyond the prefix
        for i in range(len(choices), ex.pos):
            stack.append(ex.choices[:i] + [1])
    return den


def _load_globals(self):
    pass


Exec.load_globals = _load_globals


def choi(alg, vecs):
    """sum over Kraus vectors and environments of |v><v|, as dict."""
    groups = defaultdict(dict)
    for i, v in enumerate(vecs):
        for (r, o, e), a in v.items():
            groups[(i, e)][(r, o)] = a
    out = {}
    for g in groups.values():
        items = list(g.items())
        for k1, a1 in items:
            for k2, a2 in items:
                x = a1 * alg.conj(a2)
                kk = (k1, k2)
                if kk in out:
                    x = out[kk] + x
                out[kk] = x
    return {k: v for k, v in out.items() if not alg.is_zero(v)}


def close(alg, a, b):
    """Equality of two sparse vectors; returns the first differing entry or None."""
    for k in set(a) | set(b):
        x, y = a.get(k, alg.nil), b.get(k, alg.nil)
        if not alg.eq(x, y):
            return k, x, y
    return None


def compare(alg, d1, d2, phase="global"):
    """None if the denotations agree, else a description.

    phase = "global": equality up to a global phase (per classical outcome: as channels).
    phase = "exact": equality of the operators including the phase (only for
    denotations with one outcome, one path and no environment).
    """
    o1, o2 = set(map(str, d1.by)), set(map(str, d2.by))
    if o1 != o2:
        return f"classical outcomes differ: only left {sorted(o1 - o2)[:2]}, only right {sorted(o2 - o1)[:2]}"
    s2 = {str(k): v for k, v in d2.by.items()}
    for k, v1 in d1.by.items():
        v2 = s2[str(k)]
        pure = len(v1) == 1 and len(v2) == 1 and len({e for (_, _, e) in v1[0]}) == 1 and len({e for (_, _, e) in v2[0]}) == 1
        if pure:
            a = {(r, o): x for (r, o, _), x in v1[0].items()}
            b = {(r, o): x for (r, o, _), x in v2[0].items()}
            if phase == "exact":
                bad = close(alg, a, b)
            else:
                # proportional: a[k0]*b == b[k0]*a, k0 in the support of b
                if alg.name == "num":
                    k0 = max(b, key=lambda q: abs(b[q]))
                else:
                    k0 = min(b, key=lambda q: (len(b[q].t), q))
                if k0 not in a:
                    return f"entry {k0}: left 0, right {b[k0]}"
                c, d = a[k0], b[k0]
                bad = close(alg, {q: d * x for q, x in a.items()}, {q: c * x for q, x in b.items()})
                if bad is None and not alg.eq(c * alg.conj(c), d * alg.conj(d)):
                    bad = (k0, c, d)
            if bad:
                return f"outcome {k}: entry (in,out)={bad[0]}: {bad[1]} vs {bad[2]}"
        else:
            if phase == "exact":
                raise Unsupported("exact phase comparison of a channel")
            bad = close(alg, choi(alg, v1), choi(alg, v2))
            if bad:
                return f"outcome {k}: Choi entry {bad[0]}: {bad[1]} vs {bad[2]}"
    return None
