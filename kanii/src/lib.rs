//! C14: contracts of intervals on resource paths, on their real source. The resource scope is
//! replaced by its contract: an arbitrary path with arbitrary increasing positions.
#![allow(clippy::all, dead_code, unused_imports)]
#[path = "../../kani/src/common.rs"]
#[macro_use]
mod common;
pub use common::*;

pub mod resource;
pub mod subcircuit {
    pub mod interval {
        include!(concat!(env!("OUT_DIR"), "/interval.rs"));
    }
}
mod contracts;
use contracts as c;

harnesses! {
    unwind 9;
    c14_singleton = c::singleton;
    c14_new = c::try_new;
    c14_extend = c::extend;
    c14_boundary = c::boundary;
    c14_nodes = c::nodes;
}
