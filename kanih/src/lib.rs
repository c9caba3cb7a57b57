//! C13: contracts of the circuit hash, on its real source. Hashers are replaced by their contract:
//! different sequences of words have different hashes, equal ones the same.
#![allow(clippy::all, dead_code, unused_imports, unused_macros, static_mut_refs)]
#[path = "../../kani/src/common.rs"]
#[macro_use]
mod common;
pub use common::*;

/// Printed text by contract: it determines its parts.
#[macro_export]
macro_rules! format {
    ($l:literal $(, $x:expr)* $(,)?) => {{
        let mut r = $crate::stubs::Repr::new($l.len());
        $( r.push(&$x); )*
        r
    }};
}
pub mod stubs;
pub mod circuit {
    use crate::stubs::hugr::HugrView;
    #[derive(Debug, Clone)]
    pub struct Circuit<T>(pub T);
    impl<T: HugrView> Circuit<T> {
        pub fn hugr(&self) -> &T {
            &self.0
        }
    }
    pub mod hash {
        use crate::stubs::{fxhash, hugr, hugr_core, petgraph, serde_json, Repr as String};
        include!(concat!(env!("OUT_DIR"), "/hash.rs"));
        pub mod contracts {
            include!("contracts.rs");
        }
    }
}
use circuit::hash::contracts as c;

harnesses! {
    unwind 26;
    c13_ops = c::apart_ops;
    c13_arity0 = |s| c::apart_arity(s, 0);
    c13_arity1 = |s| c::apart_arity(s, 1);
    c13_values = c::apart_values;
    c13_links = c::links;
    c13_region = |s| c::region(s, 1);
    c13_region_rev = |s| c::region(s, 3);
    c13_region_apart = c::region_apart;
    c13_errors = c::errors;
}
