"""C11: rotation values."""
H = {
    "c11_new": "ConstRotation::new(x) succeeds exactly for finite x and keeps every bit of x",
    "c11_to_radians": "to_radians() == half_turns * pi (mantissas of up to 6 bits, every exponent)",
    "c11_from_radians": "from_radians(t) is new(t / pi) (mantissas of up to 2 bits, every exponent)",
    "c11_consts": "PI, TAU, PI_2, PI_4 are 1, 2, 1/2, 1/4 half-turns",
}


def run(ctx):
    ctx.kani(H, fuzz=20000 if ctx.tier == "quick" else 300000)
    ctx.sampled({"native_c11_full": "radian conversion and equality for arbitrary doubles"}, 200000 if ctx.tier == "quick" else 5000000)
    ctx.functions += ["ConstRotation::{new, half_turns, to_radians, from_radians, PI, TAU, PI_2, PI_4}"]
    ctx.trusted += ["Kani 0.68 / CBMC 6.11 (IEEE double semantics)", "std::fmt::format stubbed (error messages only)"]
    ctx.assumptions += ["the destructor of the error value is not executed in the harness"]
