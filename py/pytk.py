"""The meaning of pytket circuits: a reference run of the commands on an interpreter state.

Operations without a documented meaning here (and any operation with an unknown payload) are
generic fixed operations chosen by a hash of their JSON: they depend on the order of their
qubits, bits and parameters, so a program that keeps them in place has the same meaning and
one that permutes, drops or repeats them does not.
"""
import hashlib, itertools, json
from fractions import Fraction as F
import gates as G
import interp as I
from checks.c05 import Ref, Malformed

NATIVE = {g: g for g in "H CX CY CZ CRz T Tdg S Sdg V Vdg X Y Z Rx Ry Rz".split()}
NATIVE["CCX"] = "Toffoli"
NPARAM = {"CRz": 1, "Rx": 1, "Ry": 1, "Rz": 1}


class Bad(Exception):
    """The circuit has no meaning."""


def param(expr, alg, varf):
    try:
        return Ref(expr, alg, varf).parse()
    except (Malformed, RecursionError):
        return varf("sympy:" + expr)


def strip(op):
    return {k: v for k, v in op.items() if k not in ("signature", "params", "n_qb") and v is not None}


def cl_eval(e, bits, regs):
    """The value of a classical expression (bit operations; registers little-endian, as integers)."""
    args = []
    for a in e["args"]:
        if a["type"] == "expr":
            args.append(cl_eval(a["input"], bits, regs))
        else:
            t = a["input"]
            if t["type"] == "int":
                args.append(t["term"])
            else:
                v = t["term"]
                args.append((bits if v["type"] == "bit" else regs)[v["var"]["index"] if isinstance(v["var"], dict) else v["var"]])
    o = e["op"]
    f = {"BitAnd": lambda *x: int(all(x)), "BitOr": lambda *x: int(any(x)), "BitXor": lambda *x: sum(x) % 2,
         "BitEq": lambda x, y: int(x == y), "BitNeq": lambda x, y: int(x != y), "BitNot": lambda x: 1 - x,
         "BitZero": lambda: 0, "BitOne": lambda: 1,
         "RegAnd": lambda x, y: x & y, "RegOr": lambda x, y: x | y, "RegXor": lambda x, y: x ^ y,
         "RegEq": lambda x, y: int(x == y), "RegNeq": lambda x, y: int(x != y), "RegLt": lambda x, y: int(x < y),
         "RegGt": lambda x, y: int(x > y), "RegLeq": lambda x, y: int(x <= y), "RegGeq": lambda x, y: int(x >= y),
         "RegAdd": lambda x, y: x + y, "RegSub": lambda x, y: x - y, "RegMul": lambda x, y: x * y,
         "RegZero": lambda: 0, "RegOne": lambda: 1}.get(o)
    if f is None:
        raise I.Unsupported(f"classical operator {o}")
    return f(*args)


def clexpr(x, bits):
    bv = {i: bits[p] for i, p in x["bit_posn"]}
    rv = {i: sum(bits[p] << k for k, p in enumerate(ps)) for i, ps in x["reg_posn"]}
    v = cl_eval(x["expr"], bv, rv)
    out = list(bits)
    for k, p in enumerate(x["output_posn"]):
        out[p] = (v >> k) & 1
    return out


def classical(t, c, bits):
    if t == "SetBits":
        if len(c["values"]) != len(bits):
            raise Bad("SetBits")
        return [int(v) for v in c["values"]]
    if t == "CopyBits":
        n = c["n_i"]
        return bits[:n] + bits[:n]
    if t == "RangePredicate":
        n = c["n_i"]
        v = sum(b << k for k, b in enumerate(bits[:n]))
        return bits[:n] + [int(c["lower"] <= v <= c["upper"])]
    if t in ("ExplicitPredicate", "ExplicitModifier"):
        n = c["n_i"] + (t == "ExplicitModifier")
        v = sum(b << k for k, b in enumerate(bits[:n]))
        return bits[: c["n_i"]] + [int(c["values"][v])]
    return None


def op_apply(ex, op, qs, bits, params, varf):
    """Apply one operation to its qubits and bits; params are reals in half-turns. Returns (qs, bits)."""
    A, t = ex.A, op["type"]
    if t in NATIVE:
        if len(params) != NPARAM.get(t, 0):
            raise Bad(f"{t} with {len(params)} parameters")
        m = G.tket_gate(A, NATIVE[t], params)
        if len(m) != 1 << len(qs) or bits:
            raise Bad(t)
        return ex.gate(qs, m), bits
    if t in ("noop", "Barrier"):
        return qs, bits
    if t == "PhasedX":
        return ex.gate(qs, G.matmul(A, G.rz(A, params[1]), G.matmul(A, G.rx(A, params[0]), G.rz(A, -params[1])))), bits
    if t == "ZZPhase":
        return ex.gate(qs, G.zzphase(A, params[0])), bits
    if t == "ZZMax":
        return ex.gate(qs, G.zzphase(A, A.rconst(F(1, 2)))), bits
    if t == "Measure":
        (q,), (_,) = qs, bits
        return [q], [ex.measure(q)]
    if t == "Reset":
        return [ex.reset(qs[0])], bits
    if t == "ClExpr" and op.get("expr"):
        return qs, clexpr(op["expr"], bits)
    if op.get("classical"):
        r = classical(t, op["classical"], bits)
        if r is not None:
            return qs, r
    if t == "Conditional":
        c = op["conditional"]
        w = c["width"]
        if sum(b << k for k, b in enumerate(bits[:w])) == c["value"]:
            inner = c["op"]
            qs, rest = op_apply(ex, inner, qs, bits[w:], [param(p, A, varf) for p in inner.get("params") or []], varf)
            return qs, bits[:w] + rest
        return qs, bits
    if t == "CircBox":
        c = op["box"]["circuit"]
        return circuit(ex, c, qs, bits, varf)
    return generic(ex, op, qs, bits, params)


def generic(ex, op, qs, bits, params):
    A = ex.A
    h = hashlib.sha256(json.dumps(strip(op), sort_keys=True).encode()).digest()
    n, m = len(qs), len(bits)
    qs = list(qs)
    for j in range(n):
        a = A.rconst(F(h[j] % 16 * 2 + 1, 16))
        for i, p in enumerate(params):
            a = a + p * A.rconst(i + 1 + 2 * j)
        for k, b in enumerate(bits):
            a = a + A.rconst(F(b * (k + 1 + j), 16))
        (qs[j],) = ex.gate([qs[j]], G.matmul(A, G.rx(A, A.rconst(F(1 + 2 * (h[8 + j] % 2), 4))), G.rz(A, a)))
    for j in range(n - 1):
        qs[j : j + 2] = ex.gate(qs[j : j + 2], G.control(A, G.X(A)))
    if not n and params:
        # the parameters of a classical operation: an observable event
        ex.events.append((strip(op)["type"], tuple(p.key() if hasattr(p, "key") else round(p, 9) for p in params)))
    if m:
        bits = [b ^ 1 if h[16 + j] % 2 or m == 1 else b for j, b in enumerate(bits[1:] + bits[:1])]
    return qs, bits


def reg(r):
    return (r[0], tuple(r[1]))


def permute(c, qs):
    """qs: the values of the registers, in order; the outputs: position of b holds the wire of a for each (a, b)."""
    names = [reg(q) for q in c["qubits"]]
    outs = list(qs)
    for a, b in c["implicit_permutation"]:
        outs[names.index(reg(b))] = qs[names.index(reg(a))]
    return outs


def circuit(ex, c, qs, bits, varf):
    A = ex.A
    qn, bn = [reg(q) for q in c["qubits"]], [reg(b) for b in c["bits"]]
    if len(set(qn) | set(bn)) != len(qn) + len(bn):
        raise Bad("two registers of one name")
    if len(qs) != len(qn) or len(bits) != len(bn):
        raise Bad("wrong number of registers")
    Q, B = dict(zip(qn, qs)), dict(zip(bn, bits))
    for com in c["commands"]:
        args = [reg(a) for a in com["args"]]
        if len(set(a for a in args)) != len(args):
            raise Bad("a register twice in one command")
        aq, ab = [a for a in args if a in Q], [a for a in args if a in B]
        if len(aq) + len(ab) != len(args):
            raise Bad(f"unknown register in {args}")
        op = com["op"]
        ps = [param(p, A, varf) for p in op.get("params") or []]
        oq, ob = op_apply(ex, op, [Q[a] for a in aq], [B[a] for a in ab], ps, varf)
        Q.update(zip(aq, oq))
        B.update(zip(ab, ob))
    return permute(c, [Q[a] for a in qn]), [B[a] for a in bn]


class TkExec(I.Exec):
    """Runs HUGRs that contain opaque pytket operations."""

    varf = None

    def symbol(self, nd):
        return self.varf("sympy:" + sympy_arg(nd["args"][0]))

    def other(self, e, name, targs, a, nd):
        if e == "TKET1":
            p = json.loads(sympy_arg(targs[0]))
            nq, nb = p["num_qubits"], p["num_bits"]
            qs, bs, ps = a[:nq], a[nq : nq + nb], a[nq + nb :]
            for b in bs:
                if not isinstance(b, I.Sum):
                    raise I.Stuck("opaque operation: bad bit")
            oq, ob = op_apply(self, p["op"], qs, [b.tag for b in bs], [x.r for x in ps], self.varf)
            return list(oq) + [I.Sum(b) for b in ob]
        return super().other(e, name, targs, a, nd)


def sympy_arg(a):
    for k in ("arg", "value", "v", "s"):
        if isinstance(a.get(k), str):
            return a[k]
    raise I.Unsupported(f"string argument {a}")
