//! C02: resolution of control / dagger modifiers.
use crate::util::*;
use hugr::builder::{
    BuildError, Container, Dataflow, DataflowSubContainer, HugrBuilder, ModuleBuilder, SubContainer,
};
use hugr::extension::prelude::{bool_t, qb_t};
use hugr::ops::handle::{FuncID, NodeHandle};
use hugr::ops::{CallIndirect, ExtensionOp};
use hugr::std_extensions::collections::array::{array_type, ArrayOpBuilder};
use hugr::types::{Signature, Term, Type, TypeArg};
use hugr::{type_row, Hugr, HugrView, Wire};
use hugr::hugr::hugrmut::HugrMut;
use serde_json::json;
use tket::extension::global_phase::GlobalPhase;
use tket::extension::modifier::{CONTROL_OP_ID, DAGGER_OP_ID, MODIFIER_EXTENSION};
use tket::extension::rotation::{rotation_type, ConstRotation};
use tket::modifier::modifier_resolver::resolve_modifier_with_entrypoints;
use tket::TketOp;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum M {
    D,
    C(u64),
}

pub fn parse(s: &str) -> Vec<M> {
    let mut out = vec![];
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'd' {
            out.push(M::D);
            i += 1;
        } else {
            out.push(M::C((b[i + 1] - b'0') as u64));
            i += 2;
        }
    }
    out
}

fn list(ts: &[Type]) -> TypeArg {
    Term::new_list(ts.iter().map(|t| TypeArg::from(t.clone())).collect::<Vec<_>>())
}

fn modifier_op(m: M, inout: &[Type], others: &[Type]) -> ExtensionOp {
    match m {
        M::D => MODIFIER_EXTENSION
            .instantiate_extension_op(&DAGGER_OP_ID, [list(inout), list(others)])
            .unwrap(),
        M::C(n) => MODIFIER_EXTENSION
            .instantiate_extension_op(&CONTROL_OP_ID, [Term::BoundedNat(n), list(inout), list(others)])
            .unwrap(),
    }
}

/// Call `foo` (loaded) through the stack of modifiers (first = innermost) on `args` = controls, inout, others.
pub fn call_modified<D: Dataflow>(
    b: &mut D,
    foo: &FuncID<true>,
    stack: &[M],
    inout: &[Type],
    others: &[Type],
    ctrls: Vec<Wire>,
    args: Vec<Wire>,
) -> Result<(Vec<Wire>, Vec<Wire>), BuildError> {
    let mut f = b.load_func(foo, &[])?;
    let mut io: Vec<Type> = inout.to_vec();
    let mut arrs: Vec<u64> = vec![]; // outermost first
    for m in stack {
        f = b.add_dataflow_op(modifier_op(*m, &io, others), [f])?.out_wire(0);
        if let M::C(n) = m {
            io.insert(0, array_type(*n, qb_t()));
            arrs.insert(0, *n);
        }
    }
    let mut ins = vec![f];
    let mut k = 0;
    for n in &arrs {
        let a = b.add_new_array(qb_t(), ctrls[k..k + *n as usize].to_vec())?;
        k += *n as usize;
        ins.push(a);
    }
    ins.extend(args);
    let mut sin = io.clone();
    sin.extend(others.iter().cloned());
    let outs: Vec<Wire> = b
        .add_dataflow_op(CallIndirect { signature: Signature::new(sin, io) }, ins)?
        .outputs()
        .collect();
    let mut cs = vec![];
    for (i, n) in arrs.iter().enumerate() {
        cs.extend(b.add_array_unpack(qb_t(), *n, outs[i])?);
    }
    Ok((cs, outs[arrs.len()..].to_vec()))
}

/// A module with `foo` and a `main` that calls it through the modifier stack.
pub fn module(
    stack: &[M],
    inout: &[Type],
    others: &[Type],
    mk_foo: impl FnOnce(&mut ModuleBuilder<Hugr>) -> Result<FuncID<true>, BuildError>,
) -> Result<Hugr, BuildError> {
    let mut m = ModuleBuilder::new();
    let foo = mk_foo(&mut m)?;
    let nc: u64 = stack.iter().map(|m| if let M::C(n) = m { *n } else { 0 }).sum();
    let mut ins = vec![qb_t(); nc as usize];
    ins.extend(inout.iter().cloned());
    let outs = ins.clone();
    ins.extend(others.iter().cloned());
    let mut f = m.define_function("main", Signature::new(ins, outs))?;
    let all: Vec<Wire> = f.input_wires().collect();
    let (cs, rest) = call_modified(
        &mut f, &foo, stack, inout, others,
        all[..nc as usize].to_vec(), all[nc as usize..].to_vec(),
    )?;
    let id = f.finish_with_outputs(cs.into_iter().chain(rest))?;
    let mut h = std::mem::take(m.hugr_mut());
    let _ = id.node();
    h.set_entrypoint(h.module_root());
    Ok(h)
}

fn resolve(h: Hugr) -> Result<serde_json::Value, String> {
    validate(&h)?;
    let before = dump(&h);
    let mut l = h;
    let e = l.entrypoint();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        resolve_modifier_with_entrypoints(&mut l, [e])
    }));
    match r {
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Ok(json!({"before": before, "resolve_panic": m}))
        }
        Ok(Err(e)) => {
            let inv = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dump(&l))).unwrap_or(json!(null));
            Ok(json!({"before": before, "resolve_error": es(e), "invalid": inv}))
        }
        Ok(Ok(())) => {
            validate(&l)?;
            let left = l.nodes().any(|n| {
                l.get_optype(n).as_extension_op().is_some_and(|o| o.def().extension_id().to_string().contains("modifier"))
            });
            Ok(json!({"before": before, "after": dump(&l), "left": left}))
        }
    }
}

pub const UNITARY: &[TketOp] = crate::gen::ALL_GATES;

pub fn single(stacks: &[&str], max_q: usize) {
    for op in UNITARY {
        let (nq, na) = crate::gen::arity(*op);
        for s in stacks {
            let st = parse(s);
            let nc: u64 = st.iter().map(|m| if let M::C(n) = m { *n } else { 0 }).sum();
            if nq + nc as usize > max_q {
                continue;
            }
            case(&format!("op:{op:?}/{s}"), || {
                let inout = vec![qb_t(); nq];
                let others = vec![rotation_type(); na];
                let h = module(&st, &inout, &others, |m| {
                    let mut i = inout.clone();
                    i.extend(others.clone());
                    let mut f = m.define_function("foo", Signature::new(i, inout.clone()))?;
                    f.set_metadata("unitary", 7);
                    let ws: Vec<Wire> = f.input_wires().collect();
                    let o = f.add_dataflow_op(*op, ws)?;
                    Ok(*f.finish_with_outputs(o.outputs())?.handle())
                })
                .map_err(es)?;
                resolve(h)
            });
        }
    }
    // the global phase
    for s in stacks {
        let st = parse(s);
        for nq in [0usize, 1] {
            let nc: u64 = st.iter().map(|m| if let M::C(n) = m { *n } else { 0 }).sum();
            if nq + nc as usize > max_q {
                continue;
            }
            case(&format!("op:GlobalPhase{nq}/{s}"), || {
                let inout = vec![qb_t(); nq];
                let others = vec![rotation_type()];
                let h = module(&st, &inout, &others, |m| {
                    let mut i = inout.clone();
                    i.extend(others.clone());
                    let mut f = m.define_function("foo", Signature::new(i, inout.clone()))?;
                    f.set_metadata("unitary", 7);
                    let ws: Vec<Wire> = f.input_wires().collect();
                    f.add_dataflow_op(GlobalPhase, [ws[nq]])?;
                    Ok(*f.finish_with_outputs(ws[..nq].to_vec())?.handle())
                })
                .map_err(es)?;
                resolve(h)
            });
        }
    }
}

/// What a random body may contain.
#[derive(Clone, Copy)]
struct K {
    dagger: bool,
    depth: usize,
}

fn ang<D: Dataflow>(b: &mut D, rng: &mut Rng, rots: &[Wire]) -> Wire {
    if rots.is_empty() || rng.chance(1, 3) {
        b.add_load_value(ConstRotation::new(crate::gen::ANGLES[rng.below(crate::gen::ANGLES.len())]).unwrap())
    } else {
        rots[rng.below(rots.len())]
    }
}

fn body<D: Dataflow>(
    b: &mut D,
    rng: &mut Rng,
    qs: &mut Vec<Wire>,
    rots: &[Wire],
    bools: &[Wire],
    helpers: &[(FuncID<true>, usize)],
    nops: usize,
    k: K,
) -> Result<(), BuildError> {
    for _ in 0..nops {
        match rng.below(16) {
            0 => {
                let a = ang(b, rng, rots);
                b.add_dataflow_op(GlobalPhase, [a])?;
            }
            1 if k.depth < 2 => {
                // nested region, possibly with a rotation passed in
                let n = qs.len();
                let pass = rng.below(rots.len() + 1).min(1);
                let mut ts = vec![qb_t(); n];
                let mut ws = qs.clone();
                // classical inputs before or after the qubits
                let front = rng.chance(1, 2);
                if pass == 1 {
                    if front {
                        ts.insert(0, rotation_type());
                        ws.insert(0, rots[0]);
                    } else {
                        ts.push(rotation_type());
                        ws.push(rots[0]);
                    }
                }
                let mut d = b.dfg_builder(Signature::new(ts, vec![qb_t(); n]), ws)?;
                let all: Vec<Wire> = d.input_wires().collect();
                let (mut q2, r2) = if pass == 1 {
                    if front { (all[1..].to_vec(), vec![all[0]]) } else { (all[..n].to_vec(), vec![all[n]]) }
                } else {
                    (all, vec![])
                };
                let m = rng.below(4);
                body(&mut d, rng, &mut q2, &r2, &[], helpers, m, K { depth: k.depth + 1, ..k })?;
                *qs = d.finish_with_outputs(q2)?.outputs().collect();
            }
            2 if !bools.is_empty() && k.depth < 2 => {
                let n = qs.len();
                let c = bools[rng.below(bools.len())];
                let mut cb = b.conditional_builder(
                    ([type_row![], type_row![]], c),
                    qs.iter().map(|w| (qb_t(), *w)).collect::<Vec<_>>(),
                    vec![qb_t(); n].into(),
                )?;
                for i in 0..2 {
                    let mut cc = cb.case_builder(i)?;
                    let mut q2: Vec<Wire> = cc.input_wires().collect();
                    let m = rng.below(3);
                    body(&mut cc, rng, &mut q2, &[], &[], helpers, m, K { depth: k.depth + 1, ..k })?;
                    cc.finish_with_outputs(q2)?;
                }
                *qs = cb.finish_sub_container()?.outputs().collect();
            }
            3 | 4 if !helpers.is_empty() => {
                let (h, n) = &helpers[rng.below(helpers.len())];
                if *n > qs.len() {
                    continue;
                }
                let mut idx: Vec<usize> = (0..qs.len()).collect();
                rng.shuffle(&mut idx);
                let a = ang(b, rng, rots);
                let mut ws: Vec<Wire> = idx[..*n].iter().map(|i| qs[*i]).collect();
                match rng.below(4) {
                    0 => {
                        // indirect call
                        ws.push(a);
                        let f = b.load_func(h, &[])?;
                        let mut ts = vec![qb_t(); *n];
                        ts.push(rotation_type());
                        ws.insert(0, f);
                        let o = b.add_dataflow_op(CallIndirect { signature: Signature::new(ts, vec![qb_t(); *n]) }, ws)?;
                        for (w, i) in o.outputs().zip(&idx) {
                            qs[*i] = w;
                        }
                    }
                    1 if qs.len() > *n => {
                        // nested modifier
                        let st = [vec![M::C(1)], vec![M::D, M::C(1)], vec![M::C(1), M::D]][rng.below(3)].clone();
                        ws.push(a);
                        let (c, o) = call_modified(b, h, &st, &vec![qb_t(); *n], &[rotation_type()], vec![qs[idx[*n]]], ws)?;
                        qs[idx[*n]] = c[0];
                        for (w, i) in o.into_iter().zip(&idx) {
                            qs[*i] = w;
                        }
                    }
                    _ => {
                        ws.push(a);
                        let o = b.call(h, &[], ws)?;
                        for (w, i) in o.outputs().zip(&idx) {
                            qs[*i] = w;
                        }
                    }
                }
            }
            5 if qs.len() > 1 => {
                // through an array
                let n = 1 + rng.below(qs.len());
                let a = b.add_new_array(qb_t(), qs[..n].to_vec())?;
                let o = b.add_array_unpack(qb_t(), n as u64, a)?;
                for (i, w) in o.into_iter().enumerate() {
                    qs[i] = w;
                }
            }
            _ => {
                let op = UNITARY[rng.below(UNITARY.len())];
                let (nq, na) = crate::gen::arity(op);
                if nq > qs.len() {
                    continue;
                }
                let mut idx: Vec<usize> = (0..qs.len()).collect();
                rng.shuffle(&mut idx);
                let mut ws: Vec<Wire> = idx[..nq].iter().map(|&i| qs[i]).collect();
                for _ in 0..na {
                    ws.push(ang(b, rng, rots));
                }
                let h = b.add_dataflow_op(op, ws)?;
                for (o, &i) in h.outputs().zip(&idx) {
                    qs[i] = o;
                }
            }
        }
    }
    Ok(())
}

pub fn programs(seed: u64, n: usize) {
    let mut rng = Rng(seed.wrapping_mul(0x7654321) ^ 0xC02);
    let stacks = ["d", "c1", "dc1", "c1d", "c2", "dc2", "c2d", "dd", "c1c1", "c1dc1", "c3", ""];
    for i in 0..n {
        let st = parse(stacks[rng.below(stacks.len())]);
        let nc: u64 = st.iter().map(|m| if let M::C(n) = m { *n } else { 0 }).sum();
        let nq = 1 + rng.below(if nc >= 3 { 1 } else if nc == 2 { 2 } else { 3 });
        let nr = rng.below(3);
        let nb = rng.below(2);
        let arr = rng.chance(1, 6);
        let dag = st.contains(&M::D);
        case(&format!("modprog:{seed}:{i}"), || {
            let mut inout = vec![qb_t(); nq];
            if arr {
                inout = vec![array_type(nq as u64, qb_t())];
            }
            let mut others = vec![rotation_type(); nr];
            others.extend(vec![bool_t(); nb]);
            let h = module(&st, &inout, &others, |m| {
                let mut helpers = vec![];
                for (j, hq) in [1usize, 2].into_iter().enumerate() {
                    let mut i = vec![qb_t(); hq];
                    i.push(rotation_type());
                    let mut f = m.define_function(format!("helper{j}"), Signature::new(i, vec![qb_t(); hq]))?;
                    f.set_metadata("unitary", 7);
                    let ws: Vec<Wire> = f.input_wires().collect();
                    let mut q = ws[..hq].to_vec();
                    let m = 1 + rng.below(3);
                    body(&mut f, &mut rng, &mut q, &ws[hq..], &[], &[], m, K { dagger: dag, depth: 1 })?;
                    helpers.push((*f.finish_with_outputs(q)?.handle(), hq));
                }
                let mut i = inout.clone();
                i.extend(others.clone());
                let mut f = m.define_function("foo", Signature::new(i, inout.clone()))?;
                f.set_metadata("unitary", 7);
                let ws: Vec<Wire> = f.input_wires().collect();
                let k = inout.len();
                let mut q = ws[..k].to_vec();
                if arr {
                    q = f.add_array_unpack(qb_t(), nq as u64, ws[0])?;
                }
                let m = 1 + rng.below(6);
                body(&mut f, &mut rng, &mut q, &ws[k..k + nr], &ws[k + nr..], &helpers, m, K { dagger: dag, depth: 0 })?;
                if arr {
                    q = vec![f.add_new_array(qb_t(), q)?];
                }
                Ok(*f.finish_with_outputs(q)?.handle())
            })
            .map_err(es)?;
            resolve(h)
        });
    }
}
