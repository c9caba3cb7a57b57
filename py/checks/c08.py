"""C08: the cost scale."""
import vf

H = {
    "c08_lex1_order": "LexicographicCost<usize,1>: < is the lexicographic order",
    "c08_lex2_order": "LexicographicCost<usize,2>: < is the lexicographic order, as_usize is the first component",
    "c08_lex3_order": "LexicographicCost<usize,3>: < is the lexicographic order",
    "c08_lex0_delta": "LexicographicCost<usize,0>: sub_cost / add_delta",
    "c08_lex1_delta": "LexicographicCost<usize,1>: b + (a - b) == a and the sign of a - b is the comparison",
    "c08_lex2_delta": "LexicographicCost<usize,2>: b + (a - b) == a and the sign of a - b is the comparison",
    "c08_lex3_delta": "LexicographicCost<usize,3>: b + (a - b) == a and the sign of a - b is the comparison",
    "c08_lex2_add": "LexicographicCost<usize,2>: + is componentwise, sum is the fold of +, default is its unit",
    "c08_lex3_add": "LexicographicCost<usize,3>: + is componentwise, sum is the fold of +, default is its unit",
    "c08_lex2_deltas_add": "LexicographicCost<isize,2>: + and += are componentwise",
    "c08_lex3_deltas_add": "LexicographicCost<isize,3>: + and += are componentwise",
    "c08_usize_scale": "usize: sub_cost / add_delta / as_usize",
    "c08_usize_div": "usize: div_cost(a, n) is the least r with n*r >= a (a, n < 2^8)",
    "c08_lex_div": "LexicographicCost: div_cost is div_cost of each component (operands < 2^8)",
}


def run(ctx):
    ctx.kani(H)
    cases = ctx.native("cost", ctx.seed, 300 if ctx.tier == "quick" else 5000)
    b = ctx.run_bounded("circuits", "random circuits; the cost of the circuit under every provided cost function against the sum over its operations of the documented component; non-trivial: more than one operation")
    n = 0
    for c in cases:
        if c["kind"] == "op":
            n += 1
            ctx.prove(c["case"], "exhaustive over the finite operation set", lambda c=c: None if c["got"] == c["want"] else (f"charged {c['got']}, documented {c['want']}", c, True))
        elif "panic" in c or c.get("got") != c.get("want"):
            ctx.violation(c["case"], f"got {c.get('got')}, documented {c.get('want')} {c.get('panic', '')}", c)
        else:
            b["evaluations"] += 1
            b["distinct_nontrivial"] += c["ops"] > 1
            if len(b["samples"]) < 3:
                b["samples"].append(c)
    if n < 60:
        raise RuntimeError("operations not enumerated")
    ctx.functions += ["LexicographicCost::{cmp, add, add_assign, sum, default, as_usize, sub_cost, add_delta, div_cost}", "usize as CircuitCost: all methods",
                      "is_cx, is_quantum, LexicographicCostFunction::{cx_count, rz_count}::op_cost (every operation)"]
    ctx.trusted += ["Kani 0.68 / CBMC 6.11 (bit-precise machine integers)", "documented component of each cost function (DESIGN.md)"]
    ctx.assumptions += ["components below 2^62 (sums and differences representable)", "number of components 0..3; the code is uniform in it", "div_cost operands below 2^8 in the proof; boundary values by sampling"]
