"""Obligation helpers over HUGR denotations."""
import random
import algebra as Al
import gates as G
import interp as I

EX = Al.Exact()
NU = Al.Num()
SYMVC = "symbolic execution of the real emitting code + exact normal form over Q[e^{i pi *}]"


def sym(n):
    return Al.Real.atom(n)


def fn_of(h, name="main"):
    f = h.func(name)
    if f is None:
        # the function the HUGR's entrypoint belongs to
        f = h.entry
        while f and h.nodes[f]["op"] != "FuncDefn":
            f = h.nodes[f]["parent"]
    if not f:
        raise I.Stuck(f"function {name} not found")
    return f


def classical_inputs(h, fn):
    """All assignments of the classical (finite) inputs: list of dict name->choice."""
    sizes = {}

    def probe(name, n):
        sizes.setdefault(name, n)
        return cur.get(name, 0)

    out = []
    todo = [{}]
    cur = {}
    seen = set()
    while todo:
        cur = todo.pop()
        key = tuple(sorted(cur.items()))
        if key in seen:
            continue
        seen.add(key)
        out.append(cur)
        sizes.clear()
        ex = I.Exec(h, NU, [])
        ex.new_input_qubit = lambda: I.Q(0)
        sig = h.nodes[fn]["signature"]
        sig = sig.get("body", sig)
        for i, t in enumerate(sig["input"]):
            I.mk_input(ex, t, f"x{i}", probe, lambda n: 0.0)
        for name, n in sizes.items():
            if name not in cur:
                for v in range(1, n):
                    todo.append({**cur, **{m: 0 for m in sizes if m not in cur}, name: v})
    # normalise: fill defaults
    if len(out) > 64:
        out = out[:64]
    return out


def den(h, fn, alg, bind, assign, mk=I.Exec, max_paths=256):
    return I.run_paths(h, fn, alg, bind, lambda n, k: assign.get(n, 0) % k, mk, max_paths)


def params(rng):
    cache = {}

    def bind(n):
        if n not in cache:
            cache[n] = rng.uniform(-4, 4)
        return cache[n]

    bind.cache = cache
    return bind


def equiv(before, after, phase="global", fname="main", mk=I.Exec, exact=True, rng=None, mk2=None, max_paths=256):
    """Compare two HUGR JSONs. None if equivalent, else (detail, replay, witness)."""
    try:
        h1 = I.Hugr(before)
        h2 = I.Hugr(after)
        f1, f2 = fn_of(h1, fname), fn_of(h2, fname)
    except I.Stuck as e:
        return (f"ill-formed graph: {e}", dict(before=before, after=after), True)
    s1, s2 = (h.nodes[f]["signature"].get("body", h.nodes[f]["signature"]) for h, f in ((h1, f1), (h2, f2)))
    mk2 = mk2 or mk
    for assign in classical_inputs(h1, f1):
        if exact:
            r = _cmp(h1, f1, h2, f2, EX, sym, assign, phase, mk, mk2, max_paths)
            if r is None:
                continue
            # look for a concrete failing input
            rng2 = random.Random(7)
            for _ in range(4):
                b = params(rng2)
                n = _cmp(h1, f1, h2, f2, NU, b, assign, phase, mk, mk2, max_paths)
                if n is not None:
                    return (r, dict(params=b.cache, classical=assign, numeric=n, before=before, after=after), True)
            return (r, dict(classical=assign, before=before, after=after), False)
        else:
            b = params(rng)
            r = _cmp(h1, f1, h2, f2, NU, b, assign, phase, mk, mk2, max_paths)
            if r is not None:
                return (r, dict(params=b.cache, classical=assign, before=before, after=after), True)
    return None


def _cmp(h1, f1, h2, f2, alg, bind, assign, phase, mk, mk2, max_paths):
    d1 = den(h1, f1, alg, bind, assign, mk, max_paths)  # a Stuck original is an error of the check
    try:
        d2 = den(h2, f2, alg, bind, assign, mk2, max_paths)
    except I.Stuck as e:
        return f"the result has no meaning: {e}"
    return I.compare(alg, d1, d2, phase)


def against(after, matrix_of, nq, nparams, phase="global", fname="main", mk=I.Exec, perm=None):
    """The function denotes the unitary matrix_of(alg, [params]) on its nq qubits."""
    try:
        h = I.Hugr(after)
        f = fn_of(h, fname)
    except I.Stuck as e:
        return (f"ill-formed graph: {e}", dict(after=after), True)

    def one(alg, bind):
        try:
            d = den(h, f, alg, bind, {}, mk)
        except I.Stuck as e:
            return f"the result has no meaning: {e}"
        if len(d.by) != 1:
            return "the result is not a single operator"
        spec = I.Den()
        m = matrix_of(alg, bind)
        vec = {}
        for c in range(1 << nq):
            for r in range(1 << nq):
                if not alg.is_zero(m[r][c]):
                    bits = lambda x: tuple((x >> (nq - 1 - j)) & 1 for j in range(nq))
                    vec[(bits(c), bits(r), ())] = m[r][c]
        (k,) = d.by
        spec.by[k] = [vec]
        return I.compare(alg, spec, d, phase)

    r = one(EX, sym)
    if r is None:
        return None
    rng2 = random.Random(7)
    for _ in range(4):
        b = params(rng2)
        n = one(NU, b)
        if n is not None:
            return (r, dict(params=b.cache, numeric=n, after=after), True)
    return (r, dict(after=after), False)
