//! C17: the arguments an operation is stored with are those it is read back from, on the real operations.
#![allow(clippy::all)]
use hugr::extension::simple_op::{HasConcrete, MakeExtensionOp};
use std::mem::ManuallyDrop;
use tket::extension::debug::{StateResult, StateResultDef};
use tket::extension::sympy::{SympyOp, SympyOpDef};
use tket_qsystem::extension::result::{ResultArgs, ResultOp, ResultOpDef, SimpleArgs};

#[path = "../../kani/src/common.rs"]
#[macro_use]
mod common;
pub use common::*;

/// A tag of at most two bytes, so of any two tags the contract sees every pair of short ones.
fn tag(s: &mut impl Src) -> String {
    let [n, a, b] = s.bytes::<3>();
    s.assume(n <= 2 && a < 128 && b < 128);
    let mut t = String::new();
    if n > 0 {
        t.push(a as char)
    }
    if n > 1 {
        t.push(b as char)
    }
    t
}

// The operations with a width or a size do not end within the time limit (the drop of a list of arguments).
fn result(s: &mut impl Src, d: ResultOpDef) {
    let op = ResultOp { tag: tag(s), result_op: d, args: ResultArgs::Simple(SimpleArgs::Basic) };
    let args = ManuallyDrop::new(op.type_args());
    let back = d.instantiate(&args);
    assert!(matches!(&back, Ok(o) if *o == op), "read back as another operation");
    core::mem::forget((op, back));
}

fn state(s: &mut impl Src) {
    let op = StateResult::new(tag(s), u64::from_le_bytes(s.bytes()));
    let args = ManuallyDrop::new(op.type_args());
    let back = StateResultDef.instantiate(&args);
    assert!(matches!(&back, Ok(o) if *o == op), "read back as another operation");
    core::mem::forget((op, back));
}

fn sympy(s: &mut impl Src) {
    let op = SympyOp { expr: tag(s) };
    let args = ManuallyDrop::new(op.type_args());
    let back = SympyOpDef.instantiate(&args);
    assert!(matches!(&back, Ok(o) if *o == op), "read back as another operation");
    core::mem::forget((op, back));
}

harnesses! {
    unwind 6;
    c17_result_bool = |s| result(s, ResultOpDef::Bool);
    c17_result_f64 = |s| result(s, ResultOpDef::F64);
    c17_state = state;
    c17_sympy = sympy;
}
