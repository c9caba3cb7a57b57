"""Are two dataflow regions the same graph, up to the numbering of their nodes?

Port-labelled colour refinement: a node's colour is its operation (and contents), then repeatedly
the colours at the other end of each of its ports. Two regions are the same if the multisets of
stable colours coincide. Nodes on linear wires are told apart by their histories from the input
node, so there this is exact.
"""
import hashlib, json
from collections import defaultdict


def H(x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:24]


def label(h, n):
    nd = dict(h.nodes[n])
    nd.pop("parent", None)
    if nd["op"] == "FuncDefn":
        return H(("fn", nd.get("name"), json.dumps(nd.get("signature"), sort_keys=True)))
    return H(json.dumps(nd, sort_keys=True))


def same(h1, r1, h2, r2):
    """None if the regions are the same graph, else what differs."""
    if len(h1.children[r1]) != len(h2.children[r2]):
        return f"{len(h1.children[r1])} nodes before, {len(h2.children[r2])} after"
    l1, l2 = sorted(label(h1, n) for n in h1.children[r1]), sorted(label(h2, n) for n in h2.children[r2])
    if l1 != l2:
        return "the operations differ"
    # the number of refinement rounds must agree
    if sorted(_fixed(h1, r1).values()) != sorted(_fixed(h2, r2).values()):
        return "the wiring differs"
    return None


def _fixed(h, region):
    ch = h.children[region]
    inside = set(ch)
    c = {n: H((label(h, n), inner(h, n))) for n in ch}
    c[ch[0]], c[ch[1]] = "in", "out"
    succ = defaultdict(list)
    for n in ch:
        for s in h.order[n]:
            succ[s].append(n)
    end = lambda n: c[n] if n in inside else "ext:" + label(h, n)
    for _ in range(len(ch) + 1):
        c = {n: H((c[n], sorted((p, o, end(s)) for p, (s, o) in h.inp[n].items()), sorted((o, p, end(t)) for o, ts in h.out[n].items() for t, p in ts),
                   sorted(end(s) for s in h.order[n]), sorted(end(t) for t in succ[n]))) for n in ch}
    return c


def inner(h, n):
    ch = h.children[n]
    if not ch or h.nodes[n]["op"] == "FuncDefn":
        return ""
    if h.nodes[n]["op"] in ("DFG", "Case", "TailLoop", "DataflowBlock"):
        return H(sorted(_fixed(h, n).values()))
    # the cases of a conditional, the blocks of a control-flow graph: in their order
    pos = {x: i for i, x in enumerate(ch)}
    return H([(label(h, x), inner(h, x), sorted((o, p, pos.get(t)) for o, ts in h.out[x].items() for t, p in ts)) for x in ch])
