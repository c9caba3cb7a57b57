//! C09: contracts of the search queue, on its real source.
//! With `stubs`, the containers follow their contracts over arrays and Kani decides the inductive
//! step from every state; with `real`, histories run over the real containers against a model.
#![allow(clippy::all, dead_code, unused_imports)]
#[path = "../../kani/src/common.rs"]
#[macro_use]
mod common;
pub use common::*;

#[cfg(feature = "stubs")]
extern crate fxhash_stub as fxhash;
#[cfg(feature = "stubs")]
extern crate pq_stub as priority_queue;
#[cfg(feature = "real")]
extern crate fxhash_real as fxhash;
#[cfg(feature = "real")]
extern crate pq_real as priority_queue;

pub mod real {
    include!(concat!(env!("OUT_DIR"), "/pqueue.rs"));
}
#[cfg(feature = "stubs")]
use real::pqueue::contracts as c;
#[cfg(feature = "real")]
pub use real::pqueue::history;

#[cfg(all(feature = "stubs", not(feature = "large")))]
harnesses! {
    unwind 7;
    c09_push = c::push;
    c09_pop = c::pop;
    c09_truncate = c::truncate;
    c09_look = c::look;
    c09_new = c::new;
    c09_best = c::best;
}
#[cfg(all(feature = "stubs", feature = "large"))]
harnesses! {
    unwind 9;
    c09_push = c::push;
    c09_pop = c::pop;
    c09_truncate = c::truncate;
    c09_look = c::look;
    c09_new = c::new;
    c09_best = c::best;
}
#[cfg(feature = "real")]
pub fn replay(_: &str, _: &mut impl Src) {}
