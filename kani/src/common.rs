//! Shared by the contract crates: arbitrary values, symbolic or native, and the harness macro.
pub trait Src {
    fn bytes<const N: usize>(&mut self) -> [u8; N];
    fn assume(&mut self, b: bool);
    fn usize(&mut self) -> usize {
        usize::from_le_bytes(self.bytes())
    }
    fn isize(&mut self) -> isize {
        isize::from_le_bytes(self.bytes())
    }
    fn f64(&mut self) -> f64 {
        f64::from_le_bytes(self.bytes())
    }
    /// A cost below 2^62: the precondition under which differences of costs are representable.
    fn cost(&mut self) -> usize {
        let a = self.usize();
        self.assume(a < 1 << 62);
        a
    }
    fn delta(&mut self) -> isize {
        let a = self.isize();
        self.assume(a < 1 << 62 && a > -(1 << 62));
        a
    }
    fn lex<const N: usize>(&mut self) -> [usize; N] {
        core::array::from_fn(|_| self.cost())
    }
}

/// Native values: the bytes of a counterexample.
pub struct Bytes(pub std::collections::VecDeque<Vec<u8>>);
impl Src for Bytes {
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let v = self.0.pop_front().unwrap_or_default();
        let mut r = [0u8; N];
        r[..v.len().min(N)].copy_from_slice(&v[..v.len().min(N)]);
        r
    }
    fn assume(&mut self, b: bool) {
        if !b {
            println!("assumption not met");
            std::process::exit(3)
        }
    }
}
/// Native values: sampled, with a bias to small and boundary values.
pub struct Sampled {
    x: u64,
    pub log: Vec<Vec<u8>>,
}
pub struct Skip;
impl Sampled {
    pub fn new(seed: u64) -> Self {
        Sampled { x: seed | 1, log: vec![] }
    }
    fn next(&mut self) -> u64 {
        self.x ^= self.x << 13;
        self.x ^= self.x >> 7;
        self.x ^= self.x << 17;
        self.x.wrapping_mul(0x2545F4914F6CDD1D)
    }
}
impl Src for Sampled {
    fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut r = [0u8; N];
        let k = self.next() >> 32;
        let v: u64 = match k % 8 {
            0 | 1 => self.next() % 4,
            2 | 3 => self.next() % 300,
            4 => (self.next() % 5).wrapping_sub(2),
            5 => (1u64 << (self.next() % 64)).wrapping_add(self.next() % 3).wrapping_sub(1),
            6 => (self.next() % 200) << 44 | 0x3f00_0000_0000_0000,
            _ => self.next(),
        };
        let b = v.to_le_bytes();
        for i in 0..N.min(8) {
            r[i] = b[i];
        }
        for i in 8..N {
            r[i] = self.next() as u8;
        }
        self.log.push(r.to_vec());
        r
    }
    fn assume(&mut self, b: bool) {
        if !b {
            std::panic::panic_any(Skip)
        }
    }
}

#[macro_export]
macro_rules! harnesses {
    (unwind $unwind:literal; $($(#[$m:meta])* $name:ident = $f:expr;)*) => {
        #[cfg(kani)]
        mod proofs {
            #[allow(unused_imports)]
            use super::*;
            struct K;
            /// Error messages carry no information the contracts speak about.
            fn no_message(_: std::fmt::Arguments<'_>) -> String { String::new() }
            impl Src for K {
                fn bytes<const N: usize>(&mut self) -> [u8; N] { kani::any() }
                fn assume(&mut self, b: bool) { kani::assume(b) }
                fn usize(&mut self) -> usize { kani::any() }
                fn isize(&mut self) -> isize { kani::any() }
                fn f64(&mut self) -> f64 { kani::any() }
            }
            $(
                $(#[$m])*
                #[kani::proof]
                #[kani::unwind($unwind)]
                #[kani::stub(std::fmt::format, no_message)]
                fn $name() {
                    ($f)(&mut K);
                    kani::cover!(true, "reachable");
                }
            )*
        }
        pub fn replay(name: &str, b: &mut impl Src) {
            match name {
                $($(#[$m])* stringify!($name) => ($f)(b),)*
                _ => panic!("no harness {name}"),
            }
        }
    };
}

