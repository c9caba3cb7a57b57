//! Contracts over the real functions of tket, checked by Kani for every value of their inputs.
//! Each harness is a function of a `Src` of arbitrary values: under Kani the values are symbolic
//! over their full domain; natively they are the bytes of a counterexample (`replay NAME BYTES…`).
#![allow(clippy::all)]
use std::num::NonZeroUsize;
use tket::circuit::cost::{CircuitCost, CostDelta, LexicographicCost};
use tket::extension::rotation::ConstRotation;

#[macro_use]
mod common;
pub use common::*;

/// The mathematical lexicographic order, written out.
fn lex_lt<const N: usize>(a: &[usize; N], b: &[usize; N]) -> bool {
    let mut i = 0;
    while i < N {
        if a[i] != b[i] {
            return a[i] < b[i];
        }
        i += 1;
    }
    false
}

fn small_lex<const N: usize>(s: &mut impl Src) -> [usize; N] {
    s.lex::<N>()
}

// ------------------------------------------------------------------ C08
fn lex_order<const N: usize>(s: &mut impl Src) {
    let (a, b) = (small_lex::<N>(s), small_lex::<N>(s));
    let (x, y) = (LexicographicCost::from(a), LexicographicCost::from(b));
    assert!((x < y) == lex_lt(&a, &b));
    assert!((x == y) == (a == b));
    assert!((x > y) == lex_lt(&b, &a));
    if N > 0 {
        assert!(x.as_usize() == a[0]);
    }
}
fn lex_add<const N: usize>(s: &mut impl Src) {
    let (a, b) = (small_lex::<N>(s), small_lex::<N>(s));
    let sum = LexicographicCost::from(a) + LexicographicCost::from(b);
    let want: [usize; N] = core::array::from_fn(|i| a[i] + b[i]);
    assert!(sum == LexicographicCost::from(want));
    assert!([LexicographicCost::from(a), LexicographicCost::from(b)].into_iter().sum::<LexicographicCost<usize, N>>() == sum);
    let z = LexicographicCost::<usize, N>::default();
    assert!(z + LexicographicCost::from(a) == LexicographicCost::from(a));
    assert!(core::iter::empty::<LexicographicCost<usize, N>>().sum::<LexicographicCost<usize, N>>() == z);
}
fn lex_delta<const N: usize>(s: &mut impl Src) {
    let (a, b) = (small_lex::<N>(s), small_lex::<N>(s));
    let (x, y) = (LexicographicCost::from(a), LexicographicCost::from(b));
    let d = x.sub_cost(&y);
    let want: [isize; N] = core::array::from_fn(|i| a[i] as isize - b[i] as isize);
    assert!(d == LexicographicCost::from(want));
    assert!(y.add_delta(&d) == x);
    let zero = LexicographicCost::<isize, N>::default();
    assert!((d < zero) == (x < y));
    assert!((d == zero) == (x == y));
    if N > 0 {
        assert!(d.as_isize() == want[0]);
    }
}
fn lex_deltas_add<const N: usize>(s: &mut impl Src) {
    let a: [isize; N] = core::array::from_fn(|_| s.delta());
    let b: [isize; N] = core::array::from_fn(|_| s.delta());
    let want: [isize; N] = core::array::from_fn(|i| a[i] + b[i]);
    let (x, y) = (LexicographicCost::<isize, N>::from(a), LexicographicCost::<isize, N>::from(b));
    assert!(x + y == LexicographicCost::from(want));
    let mut z = x;
    z += y;
    assert!(z == LexicographicCost::from(want));
}
/// r = div_cost(a, n) is the least r with n * r >= a, in every component.
fn least_share(a: usize, n: usize, r: usize) {
    assert!(r as u128 * n as u128 >= a as u128);
    assert!(r == 0 || (r - 1) as u128 * (n as u128) < a as u128);
}
fn bounded_div(s: &mut impl Src) -> (usize, NonZeroUsize) {
    // the verification of division needs narrower operands; the contract is checked per width
    let (a, n) = (s.usize(), s.usize());
    s.assume(a < 1 << 8 && n < 1 << 8 && n > 0);
    (a, NonZeroUsize::new(n).unwrap())
}
fn usize_div(s: &mut impl Src) {
    let (a, n) = bounded_div(s);
    least_share(a, n.get(), CircuitCost::div_cost(&a, n));
}
fn lex_div(s: &mut impl Src) {
    let (a, n) = bounded_div(s);
    let b = s.usize();
    s.assume(b < 1 << 8);
    let r = LexicographicCost::from([a, b]).div_cost(n);
    let rr = LexicographicCost::from([CircuitCost::div_cost(&a, n), CircuitCost::div_cost(&b, n)]);
    assert!(r == rr);
}
fn usize_scale(s: &mut impl Src) {
    let (a, b) = (s.cost(), s.cost());
    assert!(a.as_usize() == a);
    let d = a.sub_cost(&b);
    assert!(d.as_isize() as i128 == a as i128 - b as i128);
    assert!(b.add_delta(&d) == a);
    assert!((d < 0) == (a < b) && (d == 0) == (a == b));
}

// ------------------------------------------------------------------ C11
/// The error value is not inspected (and not dropped: its destructor is not under verification).
fn ok<T, E>(r: Result<T, E>) -> Option<T> {
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}
fn rotation_new(s: &mut impl Src) {
    let x = s.f64();
    match ok(ConstRotation::new(x)) {
        Some(r) => assert!(x.is_finite() && r.half_turns().to_bits() == x.to_bits()),
        None => assert!(!x.is_finite()),
    }
}
/// Multiplication and division of doubles are decided for the values with a short mantissa only.
fn short_f64(s: &mut impl Src) -> f64 {
    f64::from_bits(s.f64().to_bits() & 0xffff_c000_0000_0000)
}
fn rotation_to_radians(s: &mut impl Src) {
    let x = short_f64(s);
    if let Some(r) = ok(ConstRotation::new(x)) {
        let y = r.to_radians();
        let z = x * std::f64::consts::PI;
        assert!(y.to_bits() == z.to_bits());
    }
}
fn rotation_from_radians(s: &mut impl Src) {
    let t = f64::from_bits(short_f64(s).to_bits() & 0xfffc_0000_0000_0000);
    let q = t / std::f64::consts::PI;
    match ok(ConstRotation::from_radians(t)) {
        Some(r) => assert!(q.is_finite() && r.half_turns().to_bits() == q.to_bits()),
        None => assert!(!q.is_finite()),
    }
}
/// The same without the restriction of the mantissa.
fn rotation_full(s: &mut impl Src) {
    let x = s.f64();
    if let Some(r) = ok(ConstRotation::new(x)) {
        assert!(r.to_radians().to_bits() == (x * std::f64::consts::PI).to_bits());
        assert!((x == 0.0) == (r == ConstRotation::new(0.0).unwrap()));
        assert!(r == ConstRotation::new(x).unwrap());
        if x.abs() < 1e300 {
            assert!(r != ConstRotation::new(x * 1.5 + 1.0).unwrap() || x == x * 1.5 + 1.0);
        }
    }
    let q = x / std::f64::consts::PI;
    match ok(ConstRotation::from_radians(x)) {
        Some(r) => {
            assert!(q.is_finite() && r.half_turns().to_bits() == q.to_bits());
            let back = r.to_radians();
            assert!((back - x).abs() <= 4.0 * f64::EPSILON * x.abs() || x.abs() < 1e-290 || !back.is_finite());
        }
        None => assert!(!q.is_finite()),
    }
}
fn rotation_consts(_s: &mut impl Src) {
    assert!(ConstRotation::PI.half_turns() == 1.0);
    assert!(ConstRotation::TAU.half_turns() == 2.0);
    assert!(ConstRotation::PI_2.half_turns() == 0.5);
    assert!(ConstRotation::PI_4.half_turns() == 0.25);
}

#[cfg(feature = "c15")]
mod units;

harnesses! {
    unwind 34;
    c08_lex1_order = lex_order::<1>;
    c08_lex2_order = lex_order::<2>;
    c08_lex3_order = lex_order::<3>;
    c08_lex0_delta = lex_delta::<0>;
    c08_lex1_delta = lex_delta::<1>;
    c08_lex2_delta = lex_delta::<2>;
    c08_lex3_delta = lex_delta::<3>;
    c08_lex2_add = lex_add::<2>;
    c08_lex3_add = lex_add::<3>;
    c08_lex2_deltas_add = lex_deltas_add::<2>;
    c08_lex3_deltas_add = lex_deltas_add::<3>;
    c08_usize_scale = usize_scale;
    c08_usize_div = usize_div;
    c08_lex_div = lex_div;
    c11_new = rotation_new;
    c11_to_radians = rotation_to_radians;
    c11_from_radians = rotation_from_radians;
    c11_consts = rotation_consts;
    native_c11_full = rotation_full;
    #[cfg(feature = "c15")] c15_fresh0 = units::fresh::<0>;
    #[cfg(feature = "c15")] c15_fresh1 = units::fresh::<1>;
    #[cfg(feature = "c15")] c15_fresh2 = units::fresh::<2>;
    #[cfg(feature = "c15")] c15_fresh3 = units::fresh::<3>;
}
