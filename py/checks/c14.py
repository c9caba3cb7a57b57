"""C14: resource paths and the intervals on them."""
import itertools, json, os, random, tempfile
from checks.common import *
from checks.c10 import B, programs
from checks.c04 import randprog

H = {
    "c14_singleton": "a node has a singleton interval exactly if it is on the path, and that interval is the node",
    "c14_new": "two nodes have an interval exactly if both are on the path, the first not after the second, and it is the run between them",
    "c14_extend": "an interval grows exactly by the node just before or just after it; a node inside changes nothing; any other node is refused and changes nothing",
    "c14_boundary": "the boundary ports and the resource of an interval are those of its first and last node on the path",
    "c14_nodes": "the nodes of an interval are the run of path nodes from its start to its end",
}
NAT = "postcondition on the real scope, complete over all nodes, ports, resources and pairs of the case (bounded)"


def more():
    """Operations that do not keep their resources in place, and paths that begin or end inside."""
    M, MF, A, F, R = (f"tket.quantum.{x}" for x in ("Measure", "MeasureFree", "QAlloc", "QFree", "Reset"))
    for k, (al, fr) in enumerate(itertools.product(range(3), range(3))):
        b = B(2)
        b.g("CX", 0, 1)
        for _ in range(al):
            b.q.append(b.op(A, [])[0])
            b.g("CX", 0, len(b.q) - 1)
            b.g("CX", len(b.q) - 1, 1)
        bits = []
        for i in range(fr):
            w = b.q.pop(0)
            if i:
                b.body.append([F, [w], []])
            else:
                bits += b.op(MF, [w])
        if len(b.q) > 1:
            b.g("CX", 0, 1)
        yield f"alloc:{al}{fr}", b.done([[w, "q"] for w in b.q] + [[w, "tb"] for w in bits])
    for k, order in enumerate(itertools.permutations(range(3))):
        # a tuple: three resources become one, which is not any of them
        b = B(3)
        b.g("CX", 0, 1), b.g("H", 2)
        t = b.op("tup q;q;q", [b.q[i] for i in order])[0]
        b.q = list(b.op("untup q;q;q", [t], 3))
        b.g("CX", 0, 2), b.g("CX", 1, 0)
        yield f"tuple:{order}", b.done()
    for k in range(3):
        b = B(2, 1)
        b.g("H", 0)
        if k == 0:
            o = b.op("barrier q;b;q", [b.q[0], b.b[0], b.q[1]], 3)
            b.q, b.b = [o[0], o[2]], [o[1]]
        elif k == 1:
            b.body.append(["dfg", [["i0", b.q[1], "q"], ["i1", b.q[0], "q"]], [["tket.quantum.CX", ["i0", "i1"], ["j0", "j1"]]], [["j0", "q"], ["j1", "q"]], ["d0", "d1"]])
            b.q = ["d1", "d0"]
        else:
            # a nested region with one more input: its resources are not followed
            a = b.op(A, [])[0]
            b.body.append(["dfg", [["i0", b.q[1], "q"], ["i1", b.q[0], "q"], ["i2", a, "q"]], [["tket.quantum.CX", ["i0", "i1"], ["j0", "j1"]], [F, ["i2"], []]], [["j0", "q"], ["j1", "q"]], ["d0", "d1"]])
            b.q = ["d1", "d0"]
        b.g("CX", 1, 0), b.g("H", 0)
        yield f"region:{k}", b.done([[w, "q"] for w in b.q] + [[w, "b"] for w in b.b])
    # a resource that bypasses the other, wide and long
    b = B(3)
    for i in range(9):
        b.g("CX", i % 3, (i + 1) % 3)
        if i % 4 == 0:
            b.g("H", 2)
    yield "long", b.done()


def run(ctx):
    thorough = ctx.tier != "quick"
    reqs = {}
    for k, p in itertools.chain(programs(), more()):
        for sub in (None, 1, 2):
            if sub and k.startswith("word") and len(p["body"]) < 3:
                continue
            reqs[f"{k}/{sub or 'all'}"] = dict(prog=p, **({"sub": ctx.seed * 10 + sub} if sub else {}))
    nfix = len(reqs)
    rng = random.Random(ctx.seed * 77 + 5)
    for i in range(600 if thorough else 120):
        r = randprog(rng, i % 2, i % 3)
        reqs[f"random {i}"] = dict(prog=r, sub=i)
    fd, path = tempfile.mkstemp(suffix=".jsonl")
    with os.fdopen(fd, "w") as f:
        for k, r in reqs.items():
            f.write(json.dumps(dict(case=k, **r)) + "\n")
    outs = {c["case"]: c for c in ctx.native("interval", path)}
    os.unlink(path)
    b = ctx.run_bounded("scopes", f"the contract that the intervals rely on (every linear port one resource, one path per resource, positions that grow along the links, units, listings, reachability) and every interval of every resource, against the links of the graph, on {nfix} enumerated programs or convex parts of them and {len(reqs) - nfix} random ones; non-trivial: at least three operations; seed {ctx.seed}")
    for k, r in reqs.items():
        o = outs.get(k)
        if o is None:
            raise RuntimeError(f"no answer for {k}")
        if o.get("error", "").startswith("build"):
            raise RuntimeError(f"{k}: {o['error']} {r}")
        if "panic" in o or "error" in o:
            ctx.violation(f"scope/{k}", f"panic: {o.get('panic', o.get('error'))}"[:300], dict(request=r, got=o))
            continue
        if o["bad"]:
            ctx.violation(f"scope/{k}", o["bad"][0][:300], dict(request=r, got=o))
            continue
        b["evaluations"] += o["checks"]
        b["distinct_nontrivial"] += o["nodes"] >= 3
    if b["distinct_nontrivial"] < 100:
        raise RuntimeError("too few scopes")
    ctx.kani(H, timeout=800 if thorough else 500, features="large" if thorough else "", crate="kanii", exe="replayi", fuzz=20000, label="Kani (CBMC) on the real source, the scope by contract")
    ctx.functions += ["Interval::{new_singleton, new_span, new, try_new, resource_id, boundary_port, incoming_boundary_port, outgoing_boundary_port, start_node, end_node, try_extend, add_node_unchecked, position_in_interval}", "ResourceScope::nodes_in_interval", "bounded: ResourceScope::{from_circuit, new, get_circuit_unit, get_resource_id, get_port, get_position, get_resources, get_copyable_wires, resources_iter, resource_path_iter, is_resource_start, any_reachable_from}, DefaultResourceFlow"]
    ctx.trusted += ["Kani 0.68 / CBMC 6.11", "contract of ResourceScope (kanii/stubs and kanii/src/resource.rs): checked on the real scope by the bounded part", "kanii/build.rs copies subcircuit/interval.rs; only the `//!` markers change", "hugr: links of the graph, convexity"]
    ctx.assumptions += [f"paths of up to {6 if thorough else 5} nodes: an interval only looks at its ends and their neighbours"]
