//! C15: the generator of register names, compiled from the real (private) source file.
use super::Src;
use tket_json_rs::register::ElementId;

#[path = "/repo/tket/src/serialize/pytket/encoder/unit_generator.rs"]
mod unit_generator;
use unit_generator::RegisterUnitGenerator;

/// Any index below 2^62.
fn index(s: &mut impl Src) -> i64 {
    let i = i64::from_le_bytes(s.bytes());
    s.assume(i < 1 << 62);
    i
}

/// Names generated after any list of N names are new, and differ from one another.
pub fn fresh<const N: usize>(s: &mut impl Src) {
    let mut existing: Vec<ElementId> = Vec::with_capacity(N);
    let mut k = 0;
    while k < N {
        let [kind] = s.bytes::<1>();
        // the generator's own register, another one, another one that it is a prefix of
        let name = match kind % 3 {
            0 => "q",
            1 => "c",
            _ => "qq",
        };
        // no index, one, or two
        let [n] = s.bytes::<1>();
        let idx = match n % 4 {
            0 => vec![],
            1 => vec![index(s), index(s)],
            _ => vec![index(s)],
        };
        existing.push(ElementId(name.to_string(), idx));
        k += 1;
    }
    let mut g = RegisterUnitGenerator::new("q", existing.iter());
    let a = g.next();
    let b = g.next();
    let c = g.next();
    assert!(a != b && b != c && a != c, "two new names are the same");
    for e in &existing {
        assert!(*e != a && *e != b && *e != c, "a new name was already present");
    }
}
