"""C05: gate parameter expressions evaluate to the angle they denote."""
import itertools, json, math, os, re, tempfile
from checks.common import *

FUN = {"max": ("fmax", 2), "min": ("fmin", 2), "abs": ("fabs", 1), "floor": ("ffloor", 1), "ceil": ("fceil", 1), "round": ("fround", 1)}
NUM = re.compile(r"(?:0|[1-9][0-9]*)(?:\.[0-9]*)?(?:[eE][+-]?[0-9]+)?")
IDENT = re.compile(r"[A-Za-z][A-Za-z0-9_]*")


class Malformed(Exception):
    pass


class Ref:
    """The reference: the usual rules of arithmetic, evaluated in an algebra.

    expr := prod (('+'|'-') prod)*        left associative
    prod := neg (('*'|'/') neg)*          left associative
    neg  := '-' neg | pow
    pow  := atom ('**' neg)?              right associative, tighter than a minus on its left
    atom := '(' expr ')' | num | num·(variable | call | '(' expr ')')  (implicit product: tightest) | call | variable
    Calls that are not one of the six known functions with their number of arguments, and numbers beyond
    the range of a double, are opaque: a symbol of their own.
    """

    def __init__(self, text, A, var):
        self.s, self.A, self.var, self.i = text, A, var, 0
        self.names = []

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in " \t":
            self.i += 1

    def peek(self, t):
        self.ws()
        return self.s.startswith(t, self.i)

    def take(self, t):
        if self.peek(t):
            self.i += len(t)
            return True
        return False

    def parse(self):
        v = self.expr()
        self.ws()
        if self.i != len(self.s):
            raise Malformed(self.s[self.i:])
        return v

    def expr(self):
        v = self.prod()
        while True:
            if self.take("+"):
                v = v + self.prod()
            elif self.take("-"):
                v = v - self.prod()
            else:
                return v

    def prod(self):
        v = self.neg()
        while True:
            if self.peek("**"):
                raise Malformed("**")
            if self.take("*"):
                v = v * self.neg()
            elif self.take("/"):
                d = self.neg()
                v = self.div(v, d)
            else:
                return v

    def div(self, a, b):
        try:
            return a / b
        except ZeroDivisionError:
            return float("nan")

    def neg(self):
        if self.take("-"):
            return -self.neg()
        return self.pow()

    def pow(self):
        v = self.atom()
        if self.take("**"):
            return self.A.app("fpow", v, self.neg())
        return v

    def opaque(self, text):
        return self.var("sympy:" + text)

    def atom(self):
        self.ws()
        if self.take("("):
            v = self.expr()
            if not self.take(")"):
                raise Malformed(")")
            return v
        m = NUM.match(self.s, self.i)
        if m:
            self.i = m.end()
            x = float(m.group())
            v = self.A.rfloat(x) if math.isfinite(x) else self.opaque(m.group())
            self.ws()
            if self.i < len(self.s) and (self.s[self.i] == "(" or IDENT.match(self.s, self.i)):
                return v * (self.atom() if self.s[self.i] == "(" else self.name())
            return v
        return self.name()

    def name(self):
        m = IDENT.match(self.s, self.i)
        if not m:
            raise Malformed(self.s[self.i:])
        start = self.i
        self.i = m.end()
        n = m.group()
        if self.peek("("):
            self.i = self.s.index("(", self.i) + 1
            saved = list(self.names)
            args = []
            if self.s.startswith(")", self.i):
                self.i += 1
            else:
                args.append(self.expr())
                while self.take(","):
                    if self.peek(")"):
                        break
                    args.append(self.expr())
                if not self.take(")"):
                    raise Malformed("call")
            if n not in FUN or len(args) != FUN[n][1]:
                self.names = saved
                return self.opaque(self.s[start:self.i])
            return self.A.app(FUN[n][0], *args)
        if n == "pi":
            return self.A.rfloat(math.pi)
        if n not in self.names:
            self.names.append(n)
        return self.var("var:" + n)


class Cap(I.Exec):
    """Collects the parameters the gates are given."""

    def quantum(self, name, a, nd):
        if name == "Rz":
            self.got.append(("halfturns", a[1].r))
            return [a[0]]
        return super().quantum(name, a, nd)

    def qsystem(self, name, a, nd):
        if name == "PhasedX":
            self.got += [("radians", x.r) for x in a[1:]]
            return [a[0]]
        return super().qsystem(name, a, nd)

    def symbol(self, nd):
        return self.varf("sympy:" + nd["args"][0].get("arg", nd["args"][0].get("value", nd["args"][0].get("v"))))

    def other(self, e, name, targs, a, nd):
        if e == "TKET1":
            self.got += [("halfturns", x.r) for x in a if isinstance(x, I.Rot)]
            return [x for x in a if not isinstance(x, I.Rot)]
        return super().other(e, name, targs, a, nd)


CONTEXT = {
    "Rz": (False, "Rz", 1),
    "PhasedX": (True, "PhasedX", 2),
    "opaque": (False, "TK1", 3),
}


def request(case, ctxt, exprs):
    q, ty, n = CONTEXT[ctxt]
    assert len(exprs) == n
    return dict(case=case, qsystem=q, circuit=dict(phase="0", bits=[], qubits=[["q", [0]]], implicit_permutation=[[["q", [0]], ["q", [0]]]],
                                                   commands=[dict(args=[["q", [0]]], op=dict(type=ty, params=list(exprs)))]))


def values(out, alg, varf):
    h = I.Hugr(out["hugr"])
    f = fn_of(h)
    ex = Cap(h, alg, [])
    ex.got = []
    ex.varf = varf
    names = out["params"] or []
    sig = h.nodes[f]["signature"]
    sig = sig.get("body", sig)
    nq = sum(1 for t in sig["input"] if I.ty_of(t)[0] == "q")
    if len(sig["input"]) - nq != len(names):
        raise I.Stuck("parameter inputs and parameter names do not correspond")
    ex.new_input_qubit = ex.new_slot
    args = [I.mk_input(ex, t, f"x{i}", lambda n, k: 0, lambda n: varf("var:" + names[int(n[1:]) - nq])) for i, t in enumerate(sig["input"])]
    ex.load_globals()
    ex.call(f, args)
    return ex.got, names


def expect(exprs, alg, varf):
    out, names = [], []
    for e in exprs:
        r = Ref(e, alg, varf)
        r.names = names
        saved = list(names)
        try:
            out.append(r.parse())
            names = r.names
        except Malformed:
            out.append(varf("sympy:" + e))
            names = saved
    return out, names


def close(a, b):
    return (a != a and b != b) or a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def judge(exprs, out):
    if "panic" in out:
        return (f"the decoder panics on {exprs}: {out['panic'][:200]}", dict(params=exprs), True)
    if "rejected" in out or "error" in out:
        return (f"the decoder rejects {exprs}: {out}", dict(params=exprs), True)
    if out["valid"]:
        return (f"{exprs} decodes to an invalid program: {out['valid'][:200]}", dict(params=exprs), True)

    def both(alg, varf, eq):
        want, names = expect(exprs, alg, varf)
        try:
            got, gn = values(out, alg, varf)
        except I.Stuck as e:
            return f"no value: {e}"
        if len(got) != len(want):
            return f"{len(got)} parameters instead of {len(want)}"
        for e, (unit, g), w in zip(exprs, got, want):
            if unit == "radians":
                w = w * alg.pi
            if not eq(g, w):
                return f"{e!r} evaluates to {g} instead of {w} ({unit})"
        if sorted(gn) != sorted(names):
            return f"free variables {gn} instead of {names}"
        return None

    r = both(EX, Al.Real.atom, lambda a, b: a == b)
    if r is None:
        return None
    rng = random.Random(3)
    diff = None
    for _ in range(12):
        cache = {}

        def varf(n):
            if n not in cache:
                cache[n] = rng.choice([rng.uniform(-3, 3), rng.uniform(0.2, 3), float(rng.randint(1, 4))]) if not n.startswith("sympy") else 1000 * rng.random() + 77
            return cache[n]

        diff = both(NU, varf, close)
        if diff:
            return (diff, dict(params=exprs, values=cache, symbolic=r), True)
    raise I.Unsupported("equal on all samples, not by normal form: " + r)


OPS = ["+", "-", "*", "/", "**"]


def shapes(tier):
    """Expressions over every sequence of infix operators, signs and operand forms."""
    v = ["a", "b", "c", "d", "e"]
    for n in (0, 1, 2, 3):
        for ops in itertools.product(OPS, repeat=n):
            for signs in itertools.product(["", "-"], repeat=n + 1):
                yield "".join(s + x + o for s, x, o in zip(signs, v, list(ops) + [""]))
    if tier != "quick":
        for ops in itertools.product(OPS, repeat=4):
            for signs in itertools.product(["", "-"], repeat=5):
                yield "".join(s + x + o for s, x, o in zip(signs, v, list(ops) + [""]))
    atoms = ["2", "-3", "2.5", "1e2", "3.", "0", "0.1e-3", "pi", "-pi", "(b+c)", "-(b-c)", "2b", "2 pi", "3pi", "2(b)", "-2b", "max(b,c)", "min(b,2)", "abs(b)", "-abs(b)", "floor(b)", "ceil(b)", "round(b)", "2max(b,c)", "foo(b)", "--b", "max(b,c,)", "1e999", "e4", "2e4", "2 e4", "x_1", "piz"]
    for t in atoms:
        yield t
        for o in OPS:
            yield f"a{o}{t}"
            yield f"{t}{o}a"
            yield f"-{t}{o}a"
            for o2 in OPS:
                yield f"a{o}{t}{o2}d"
                yield f" a {o} ({t} {o2} d ) "
                yield f"(a{o}{t}){o2}d"
    for f, (_, n) in FUN.items():
        for k in range(0, 4):
            yield f"{f}({', '.join(['a', 'b-c', '2'][:k])})"
            yield f"1+{f}({','.join(['a', 'b**c', '-2'][:k])})*b"
    for x in itertools.product(FUN, FUN):
        a = "a,b" if FUN[x[1]][1] == 2 else "a"
        yield f"{x[0]}({x[1]}({a}){',c' if FUN[x[0]][1] == 2 else ''})"


MALFORMED = ["", " ", "+", "-", "*", "a+", "+a", "a*", "a**", "**a", "a***b", "a b", "2 3", "1 2a", "01", ".5", "1..2", "1.2.3", "(a", "a)", "()", "a()b", "max(", "max(,a)", "max(a b)", "a,b", "a^b", "a%b", "2a3b", "a2(b", "1e", "1e+", "1e-x", "_a", "2_a", "$a", "a.b", "a//b", "π", "a\n+b", "[a]", "a==b", "-", "--", "2**", "1_000", "a(b)(c)", "2(a)(b)", "a(b)c", "0x10", "1E5E5", "NaN", "inf", "1e400*2", "True"]


def run(ctx):
    cases = {}
    for e in shapes(ctx.tier):
        cases[f"shape:{e}"] = ("Rz", [e])
    for e in MALFORMED:
        cases[f"malformed:{e!r}"] = ("Rz", [e])
    for i, (e, f) in enumerate(itertools.product(["a", "0.5", "-a+0.25", "2*a", "a/pi", "max(a,b)", "-1.75", "pi", "foo(a)", "(pi) / (2)", "a**2"], ["b", "a", "1/3", "-b*a", "abs(a)", "sin(b)"])):
        cases[f"radians:{e}|{f}"] = ("PhasedX", [e, f])
        cases[f"opaque:{e}|{f}|{e}"] = ("opaque", [e, f, e])

    n = 1500 if ctx.tier == "quick" else 40000
    rng = ctx.rng
    rnd = {}

    def rexpr(d):
        k = rng.randrange(8) if d > 0 else rng.randrange(3)
        if k == 0:
            return rng.choice("abcxyz") + rng.choice(["", "1", "_t"])
        if k == 1:
            return rng.choice(["0", "1", "2", "0.5", "1.25", "3e-1", "12", "pi"])
        if k == 2:
            return rng.choice(["2a", "3pi", "0.5b", "2(a-b)"])
        if k == 3:
            return "-" + rexpr(d - 1)
        if k == 4:
            return "(" + rexpr(d - 1) + ")"
        if k == 5:
            f = rng.choice(list(FUN) + ["sin", "foo"])
            return f"{f}({', '.join(rexpr(d - 2) for _ in range(FUN.get(f, (0, 1))[1]))})"
        return rexpr(d - 1) + rng.choice(["", " "]) + rng.choice(OPS) + rng.choice(["", " "]) + rexpr(d - 1)

    for i in range(n):
        e = rexpr(4)
        if i % 3 == 0 and e:
            j = rng.randrange(len(e))
            e = rng.choice([e[:j] + e[j + 1:], e[:j] + rng.choice("ab1.e-+*/() ,_") + e[j:], e[:j] + rng.choice("ab1.e-+*/() ,_") + e[j + 1:]])
        if len(e) < 120:
            rnd[f"random:{i}"] = ("Rz", [e])

    fd, path = tempfile.mkstemp(suffix=".jsonl")
    with os.fdopen(fd, "w") as f:
        for k, (c, es) in {**cases, **rnd}.items():
            f.write(json.dumps(request(k, c, es)) + "\n")
    outs = {c["case"]: c for c in ctx.native("decode", path)}
    os.unlink(path)
    for k, (c, es) in cases.items():
        if k not in outs:
            raise RuntimeError(f"no answer for {k}")
        ctx.prove(f"load_half_turns_parameter/{k}: the loaded value is the value of the expression, for all values of its variables", SYMVC, lambda k=k, es=es: judge(es, outs[k]))
    ctx.canary("a-b-c is a-(b-c)", judge(["a-(b-c)"], outs["shape:a-b-c"]) is not None)
    ctx.canary("a**b**c is (a**b)**c", judge(["(a**b)**c"], outs["shape:a**b**c"]) is not None)
    ctx.canary("a+b*c is (a+b)*c", judge(["(a+b)*c"], outs["shape:a+b*c"]) is not None)
    b = ctx.run_bounded("random", f"random expressions of depth up to 4, a third of them with one character changed; compared by normal form, then at 12 points; non-trivial: not opaque as a whole; seed {ctx.seed}")
    for k, (c, es) in rnd.items():
        b["evaluations"] += 1
        try:
            r = judge(es, outs[k])
        except I.Unsupported:
            b["undecided"] += 1
            continue
        try:
            Ref(es[0], NU, lambda n: 1.5).parse()
            b["distinct_nontrivial"] += 1
        except (Malformed, OverflowError, ZeroDivisionError, TypeError):
            pass
        if r:
            ctx.violation(k, *r)
    ctx.functions += ["parse_pytket_param, parse_infix_ops, parse_term, parse_number, parse_function_call (and the grammar in param.pest)", "WireTracker::load_half_turns_parameter", "LoadedParameter::{as_rotation, as_float_half_turns, as_float_radians, with_type}"]
    ctx.trusted += ["the reference evaluator in py/checks/c05.py (usual precedence; implicit products bind tightest, as the grammar documents)", "py/algebra.py normal form, py/interp.py float and rotation operations", "hugr's builder and serialiser"]
    ctx.assumptions += ["machine floats are treated as reals", "fpow, fmax, fmin, fabs, ffloor, fceil, fround are the functions of those names", "lemma: an operator-precedence parser decides every reduction from the adjacent operators, so all sequences of up to three infix operators with every sign pattern and operand form determine longer expressions"]
