"""C09: the search queue."""
import json, subprocess, threading
import vf

H = {
    "c09_new": "a new queue satisfies the invariant",
    "c09_push": "from every state satisfying the invariant, push_unchecked and check_accepted: accepted exactly if new and (room or strictly cheaper than the worst entry); one worst entry dropped exactly if full; the invariant (limit, costs, payloads, seen states, the n best ever accepted) holds again",
    "c09_pop": "from every state satisfying the invariant, pop removes a cheapest entry with its own cost and state, and nothing else; the invariant holds again",
    "c09_truncate": "from every state satisfying the invariant, truncate keeps the cheapest entries; the best list is unchanged; the invariant holds again",
    "c09_look": "peek, max_cost, is_full, len and is_empty agree with the contents",
    "c09_best": "into_all_time_best gives the states of the best list in order, each once",
}


def run(ctx):
    thorough = ctx.tier != "quick"
    # histories over the real containers
    try:
        exe, _ = vf.build_native("kaniq", "replayq", "real")
        budget = 400000 if thorough else 60000
        p = subprocess.run([exe, "history", str(ctx.seed), str(budget)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        b = ctx.run_bounded("histories", f"every history of pushes (4 states, 3 costs), removals and truncations over the real containers, for limits 0-3 and best lists none,0-3, up to equal observations and at most {budget} steps each; then random histories of up to 60 operations with limits up to 23; non-trivial: distinct observations; seed {ctx.seed}")
        lines = [json.loads(l) for l in p.stdout.decode().splitlines()]
        if p.returncode:
            raise RuntimeError(f"histories ended with {p.returncode}: {p.stderr.decode()[-400:]}")
        for d in lines:
            if d["failed"]:
                ctx.violation(f"history: {d['history']}", f"limit {d['limit']}, best list {d['best']}: {d['message']}", d)
            else:
                b["evaluations"] += d["steps"]
                b["distinct_nontrivial"] += d.get("states", d.get("random", 0))
                b["samples"].append(d)
    except vf.BuildError as e:
        ctx.notes.append("the histories do not build against this tree: " + str(e)[-300:])
    ctx.kani(H, timeout=850 if thorough else 560, features="stubs large" if thorough else "stubs", crate="kaniq", exe="replayq", fuzz=20000, label="Kani (CBMC) on the real source, containers by contract")
    ctx.functions += ["StatePQueue::{new, push_unchecked, push_all_time_best, pop, pop_max, pop_max_all_time_best, truncate, peek, max_cost, check_accepted, is_full, into_all_time_best, len, is_empty, num_seen_hashes}"]
    ctx.trusted += ["Kani 0.68 / CBMC 6.11", "contracts of DoublePriorityQueue, FxHashMap, FxHashSet (kaniq/stubs; with_capacity(n).capacity() == n is assumed, and the histories run over the real containers)", "kaniq/build.rs copies optimiser/pqueue.rs and the trait State; only the `//!` markers change"]
    ctx.assumptions += [f"states of up to {3 if thorough else 2} queue entries, 2 all-time-best entries and one more accepted state (the inductive step; histories are unbounded)", "hashes are compared for equality and costs by their order only (the type parameters of the code), so 8 (thorough: 16) values of each stand for all"]
