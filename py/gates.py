"""Specification matrices of the gate sets (textbook definitions).

Angles of tket gates are in half-turns, angles of tket.qsystem gates in radians.
A matrix is a list of rows; row/column index bits are big-endian in gate-qubit order.
"""
from fractions import Fraction as F


def consts(A):
    i = A.cis(A.rconst(F(1, 2)))
    # 1/sqrt2 = (w - w^3)/2 with w = exp(i pi/4)
    w = A.cis(A.rconst(F(1, 4)))
    w3 = A.cis(A.rconst(F(3, 4)))
    r2 = A.q(F(1, 2)) * (w - w3)
    return i, r2


def ccos(A, h):
    """cos(pi*h)"""
    return A.q(F(1, 2)) * (A.cis(h) + A.cis(-h))


def csin(A, h):
    """sin(pi*h)"""
    i = A.cis(A.rconst(F(1, 2)))
    return -(i * (A.q(F(1, 2)) * (A.cis(h) - A.cis(-h))))


def rz(A, a):
    h = a * A.rconst(F(1, 2))
    return [[A.cis(-h), A.nil], [A.nil, A.cis(h)]]


def rx(A, a):
    h = a * A.rconst(F(1, 2))
    i, _ = consts(A)
    c, s = ccos(A, h), csin(A, h)
    m = -(i * s)
    return [[c, m], [m, c]]


def ry(A, a):
    h = a * A.rconst(F(1, 2))
    c, s = ccos(A, h), csin(A, h)
    return [[c, -s], [s, c]]


def matmul(A, x, y):
    n, k, m = len(x), len(y), len(y[0])
    out = []
    for r in range(n):
        row = []
        for c in range(m):
            v = A.nil
            for j in range(k):
                if not A.is_zero(x[r][j]) and not A.is_zero(y[j][c]):
                    v = v + x[r][j] * y[j][c]
            row.append(v)
        out.append(row)
    return out


def kron(A, x, y):
    return [
        [x[r][c] * y[s][d] for c in range(len(x[0])) for d in range(len(y[0]))]
        for r in range(len(x))
        for s in range(len(y))
    ]


def ident(A, n):
    return [[A.one if r == c else A.nil for c in range(n)] for r in range(n)]


def control(A, u, k=1):
    """k controls in front of u, all in |1>."""
    n = len(u)
    N = n << k
    m = ident(A, N)
    for r in range(n):
        for c in range(n):
            m[N - n + r][N - n + c] = u[r][c]
    return m


def dagger(A, u):
    n = len(u)
    return [[A.conj(u[c][r]) for c in range(n)] for r in range(n)]


def scale(A, s, u):
    return [[s * x for x in r] for r in u]


def diag(A, *ds):
    return [[d if r == c else A.nil for c in range(len(ds))] for r, d in enumerate(ds)]


def perm(A, p):
    """|x> -> |p[x]>"""
    n = len(p)
    m = [[A.nil] * n for _ in range(n)]
    for x, y in enumerate(p):
        m[y][x] = A.one
    return m


def X(A):
    return perm(A, [1, 0])


def Y(A):
    i, _ = consts(A)
    return [[A.nil, -i], [i, A.nil]]


def Z(A):
    return diag(A, A.one, -A.one)


def H(A):
    _, r = consts(A)
    return [[r, r], [r, -r]]


def phase1(A, h):
    return diag(A, A.one, A.cis(A.rconst(h)))


def zzphase(A, a):
    h = a * A.rconst(F(1, 2))
    return diag(A, A.cis(-h), A.cis(h), A.cis(h), A.cis(-h))


def xxphase(A, a):
    h2 = kron(A, H(A), H(A))
    return matmul(A, h2, matmul(A, zzphase(A, a), h2))


def yyphase(A, a):
    s2 = kron(A, phase1(A, F(1, 2)), phase1(A, F(1, 2)))
    return matmul(A, s2, matmul(A, xxphase(A, a), dagger(A, s2)))


def tket_gate(A, name, angles):
    """Unitary of a tket.quantum gate, exact phase. None if it is not a unitary gate."""
    f = {
        "H": lambda: H(A),
        "X": lambda: X(A),
        "Y": lambda: Y(A),
        "Z": lambda: Z(A),
        "S": lambda: phase1(A, F(1, 2)),
        "Sdg": lambda: phase1(A, F(-1, 2)),
        "T": lambda: phase1(A, F(1, 4)),
        "Tdg": lambda: phase1(A, F(-1, 4)),
        # V is the square root of X: V V = X, phase included
        "V": lambda: scale(A, A.cis(A.rconst(F(1, 4))), rx(A, A.rconst(F(1, 2)))),
        "Vdg": lambda: scale(A, A.cis(A.rconst(F(-1, 4))), rx(A, A.rconst(F(-1, 2)))),
        "CX": lambda: control(A, X(A)),
        "CY": lambda: control(A, Y(A)),
        "CZ": lambda: control(A, Z(A)),
        "Toffoli": lambda: control(A, X(A), 2),
        "Rx": lambda: rx(A, angles[0]),
        "Ry": lambda: ry(A, angles[0]),
        "Rz": lambda: rz(A, angles[0]),
        "CRz": lambda: control(A, rz(A, angles[0])),
    }.get(name)
    return f() if f else None


def qsystem_gate(A, name, rads):
    """Unitary of a tket.qsystem gate; angles in radians."""
    h = [r / A.pi for r in rads]
    if name == "Rz":
        return rz(A, h[0])
    if name == "PhasedX":
        return matmul(A, rz(A, h[1]), matmul(A, rx(A, h[0]), rz(A, -h[1])))
    if name == "ZZPhase":
        return zzphase(A, h[0])
    return None
