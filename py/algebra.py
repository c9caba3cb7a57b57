"""Exact algebra used to discharge the generated obligations.

Reals (`Real`): Laurent polynomials over Q in named atoms (program parameters,
`pi`, and uninterpreted applications).  Machine floats that occur as constants
are read as the rational they denote, or as the exact dyadic multiple of pi when
they are the correctly rounded (<= 4 ulp) value of one: machine arithmetic is
treated as mathematical.

Amplitudes (`Amp`): finite sums  sum_k c_k * exp(i*pi*(e_k + L_k))  with c_k in Q,
e_k a dyadic rational in [0,1) and L_k a real without constant term.  Dyadic roots
of unity below 1 half-turn are linearly independent over Q and distinct
characters exp(i*pi*L) of independent parameters are linearly independent over C,
so two amplitudes are equal FOR ALL parameter values iff their normal forms are
the same: equality of normal forms decides the obligation, no sampling involved.
"""
from fractions import Fraction as F
import math

PI = "pi"


class Real:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t  # dict monomial -> Fraction (nonzero)

    @staticmethod
    def const(c):
        c = F(c)
        return Real({(): c} if c else {})

    @staticmethod
    def atom(name, e=1):
        return Real({((name, e),): F(1)})

    @staticmethod
    def of_float(x):
        if x != x or x in (float("inf"), float("-inf")):
            return Real.atom(("nonfinite", repr(x)))
        if x == 0:
            return Real({})
        q = x / math.pi
        for j in range(0, 9):
            k = round(q * (1 << j))
            if k and abs(k) < (1 << 20) and abs(x - k * math.pi / (1 << j)) <= 4 * math.ulp(x):
                return Real({((PI, 1),): F(k, 1 << j)})
        return Real.const(F(x))

    def is_const(self):
        return all(m == () for m in self.t)

    def const_part(self):
        return self.t.get((), F(0))

    def key(self):
        return tuple(sorted(self.t.items(), key=repr))

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Real(r)

    def __neg__(self):
        return Real({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                mm = _mulmono(m, n)
                v = r.get(mm, 0) + c * d
                if v:
                    r[mm] = v
                else:
                    r.pop(mm, None)
        return Real(r)

    def inv(self):
        if len(self.t) == 1:
            ((m, c),) = self.t.items()
            return Real({tuple((a, -e) for a, e in m): 1 / c})
        if not self.t:
            return Real.atom(("inv0",))
        return Real.atom(("inv", self.key()))

    def __truediv__(self, o):
        return self * o.inv()

    def __eq__(self, o):
        return isinstance(o, Real) and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def app(name, *args):
        return Real.atom((name,) + tuple(a.key() for a in args))

    def __repr__(self):
        if not self.t:
            return "0"
        return " + ".join(
            f"{c}" + "".join(f"*{a}" + (f"^{e}" if e != 1 else "") for a, e in m)
            for m, c in self.t.items()
        )


def _mulmono(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if not d[a]:
            del d[a]
    return tuple(sorted(d.items(), key=repr))


class Amp:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t  # dict (e in [0,1), Lkey) -> Fraction

    def __add__(self, o):
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Amp(r)

    def __neg__(self):
        return Amp({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        r = {}
        for (e, l), c in self.t.items():
            for (f, k), d in o.t.items():
                g = e + f
                s = c * d
                if g >= 1:
                    g -= 1
                    s = -s
                kk = (g, _addlin(l, k))
                v = r.get(kk, 0) + s
                if v:
                    r[kk] = v
                else:
                    r.pop(kk, None)
        return Amp(r)

    def conj(self):
        r = {}
        for (e, l), c in self.t.items():
            ll = tuple((m, -q) for m, q in l)
            if e == 0:
                kk, s = (e, ll), c
            else:
                kk, s = (1 - e, ll), -c
            v = r.get(kk, 0) + s
            if v:
                r[kk] = v
            else:
                r.pop(kk, None)
        return Amp(r)

    def zero(self):
        return not self.t

    def __eq__(self, o):
        return self.t == o.t

    def __repr__(self):
        return " + ".join(
            f"{c}*e^(iπ({e}" + "".join(f"+{q}*{m}" for m, q in l) + "))"
            for (e, l), c in self.t.items()
        ) or "0"


def _addlin(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for m, q in b:
        v = d.get(m, 0) + q
        if v:
            d[m] = v
        else:
            del d[m]
    return tuple(sorted(d.items(), key=repr))


class Exact:
    """Exact algebra: reals are `Real`, amplitudes are `Amp`."""

    name = "exact"
    one = Amp({(F(0), ()): F(1)})
    nil = Amp({})

    def rfloat(self, x):
        return Real.of_float(x)

    def rconst(self, c):
        return Real.const(c)

    pi = Real.atom(PI)

    def app(self, name, *args):
        return Real.app(name, *args)

    def cis(self, r):
        """exp(i*pi*r)"""
        c = r.const_part() % 2
        s = F(1)
        if c >= 1:
            c -= 1
            s = F(-1)
        l = tuple(sorted(((m, q) for m, q in r.t.items() if m != ()), key=repr))
        return Amp({(c, l): s})

    def q(self, x):
        x = F(x)
        return Amp({(F(0), ()): x}) if x else Amp({})

    def conj(self, a):
        return a.conj()

    def is_zero(self, a):
        return not a.t

    def eq(self, a, b):
        return a.t == b.t

    def req(self, a, b):
        return a == b


class Num:
    """Floating-point algebra, used for concrete replays and bounded runs."""

    name = "num"
    one = 1 + 0j
    nil = 0j
    pi = math.pi

    def rfloat(self, x):
        return float(x)

    def rconst(self, c):
        return float(c)

    def app(self, name, *args):
        try:
            return float(NUMFUN[name](*args))
        except (ValueError, OverflowError, ZeroDivisionError):
            return float("nan")

    def cis(self, r):
        r = math.fmod(r, 2.0)
        return complex(math.cos(math.pi * r), math.sin(math.pi * r))

    def q(self, x):
        return complex(float(x))

    def conj(self, a):
        return a.conjugate()

    def is_zero(self, a):
        return abs(a) < 1e-13

    def eq(self, a, b):
        return abs(a - b) < 1e-7

    def req(self, a, b):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def _pow(a, b):
    return math.pow(a, b)


NUMFUN = {
    "fpow": _pow,
    "ffloor": math.floor,
    "fceil": math.ceil,
    "fround": lambda x: math.floor(x + 0.5),
    "fabs": abs,
    "fmax": max,
    "fmin": min,
    "inv": lambda x: 1 / x,
    "sin": math.sin,
    "cos": math.cos,
    "tan": math.tan,
    "asin": math.asin,
    "acos": math.acos,
    "atan": math.atan,
    "atan2": math.atan2,
    "sinh": math.sinh,
    "cosh": math.cosh,
    "tanh": math.tanh,
    "exp": math.exp,
    "log": math.log,
    "sqrt": math.sqrt,
    "sign": lambda x: (x > 0) - (x < 0),
    "mod": lambda a, b: a % b,
}
