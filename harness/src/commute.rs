//! C06: commutation data and the greedy commutation pass.
use crate::gen;
use crate::util::*;
use hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
use hugr::extension::prelude::{bool_t, qb_t};
use hugr::extension::simple_op::MakeExtensionOp;
use hugr::ops::{OpTag, OpTrait};
use hugr::types::{Signature, Type};
use hugr::{Hugr, HugrView, IncomingPort, Node, PortIndex, Wire};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use strum::IntoEnumIterator;
use tket::extension::bool::BoolOp;
use tket::extension::rotation::{rotation_type, ConstRotation};
use tket::passes::apply_greedy_commutation;
use tket::{Circuit, Pauli, TketOp};

/// Longest chain of operations on qubits (every dependency counts, classical operations cost nothing).
pub fn depth(h: &Hugr, parent: Node) -> Option<usize> {
    fn quantum(h: &Hugr, n: Node) -> bool {
        let op = h.get_optype(n);
        if matches!(op.tag(), OpTag::Input | OpTag::Output) {
            return false;
        }
        op.dataflow_signature().map_or(false, |s| s.input.iter().chain(s.output.iter()).any(|t| *t == qb_t()))
    }
    let mut memo: HashMap<Node, usize> = HashMap::new();
    let mut todo: Vec<Node> = h.children(parent).collect();
    let mut best = 0;
    while !todo.is_empty() {
        let n0 = todo.len();
        let mut rest = vec![];
        for n in todo {
            let preds: Vec<Node> = h.input_neighbours(n).filter(|m| h.get_parent(*m) == Some(parent)).collect();
            if preds.iter().any(|m| !memo.contains_key(m)) {
                rest.push(n);
                continue;
            }
            let d = preds.iter().map(|m| memo[m]).max().unwrap_or(0) + quantum(h, n) as usize;
            best = best.max(d);
            memo.insert(n, d);
        }
        if rest.len() == n0 {
            return None;
        }
        todo = rest;
    }
    Some(best)
}

pub fn ops_of(h: &Hugr, parent: Node) -> Vec<String> {
    let mut v: Vec<String> = h.children(parent).map(|n| format!("{}", h.get_optype(n))).collect();
    v.sort();
    v
}

fn run_pass(h: Hugr) -> Result<J, String> {
    validate(&h)?;
    let before = dump(&h);
    let p = h.entrypoint();
    let (d0, o0) = (depth(&h, p), ops_of(&h, p));
    let mut c = Circuit::new(h);
    let n = match apply_greedy_commutation(&mut c) {
        Ok(n) => n,
        Err(e) => return Ok(json!({"before": before, "failed": es(e)})),
    };
    let h = c.into_hugr();
    let p = h.entrypoint();
    let d1 = depth(&h, p);
    if let Err(e) = validate(&h) {
        return Ok(json!({"before": before, "failed": e}));
    }
    Ok(json!({"before": before, "after": dump(&h), "moved": n, "depth0": d0, "depth1": d1, "same_ops": o0 == ops_of(&h, p)}))
}

fn table() {
    for op in TketOp::iter() {
        case(&format!("table:{op:?}"), || {
            let ext = op.into_extension_op();
            let t = serde_json::to_value(&**ext.def_arc()).map_err(es)?["misc"]["commutation"].clone();
            let sig = ext.dataflow_signature().unwrap().into_owned();
            let h = func("main", sig.input.clone(), sig.output.clone(), |b, ws| Ok(b.add_dataflow_op(op, ws)?.outputs().collect())).map_err(es)?;
            Ok(json!({"table": t, "hugr": dump(&h)}))
        });
    }
    for (a, x) in [("I", Pauli::I), ("X", Pauli::X), ("Y", Pauli::Y), ("Z", Pauli::Z)] {
        for (b, y) in [("I", Pauli::I), ("X", Pauli::X), ("Y", Pauli::Y), ("Z", Pauli::Z)] {
            case(&format!("pauli:{a}:{b}"), || Ok(json!({"pauli": [a, b], "commute": x.commutes_with(y)})));
        }
    }
}

struct Circ {
    b: DFGBuilder<Hugr>,
    qs: Vec<Wire>,
    rots: Vec<Wire>,
    bits: Vec<Wire>,
}
impl Circ {
    fn add(&mut self, op: TketOp, q: &[usize]) {
        let mut ws: Vec<Wire> = q.iter().map(|i| self.qs[*i]).collect();
        if gen::arity(op).1 == 1 {
            ws.push(self.rots.pop().unwrap());
        }
        let o: Vec<Wire> = self.b.add_dataflow_op(op, ws).unwrap().outputs().collect();
        for (k, i) in q.iter().enumerate() {
            self.qs[*i] = o[k];
        }
        if op == TketOp::Measure {
            self.bits.push(o[1]);
        }
    }
}

/// Injections of B's qubits into A's qubits and fresh ones.
fn overlaps(na: usize, nb: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..nb {
        let mut next = vec![];
        for v in &out {
            for x in 0..na {
                if !v.contains(&x) {
                    let mut w = v.clone();
                    w.push(x);
                    next.push(w);
                }
            }
            let mut w = v.clone();
            w.push(na + v.iter().filter(|x| **x >= na).count());
            next.push(w);
        }
        out = next;
    }
    out.retain(|v| v.iter().any(|x| *x < na));
    out
}

pub fn pairs() {
    let ops: Vec<TketOp> = TketOp::iter()
        .filter(|o| !matches!(o, TketOp::QAlloc | TketOp::TryQAlloc | TketOp::QFree | TketOp::MeasureFree | TketOp::Reset))
        .collect();
    for a in &ops {
        for b in &ops {
            let (na, nb) = (gen::arity(*a).0, gen::arity(*b).0);
            for ov in overlaps(na, nb) {
                let n = na.max(ov.iter().max().unwrap() + 1);
                let shared: Vec<usize> = ov.iter().copied().filter(|x| *x < na).collect();
                // a gap in front of A on every shared qubit, behind gates B might also pass
                for mask in 0..1 << shared.len() {
                    let unshared = (0..na).any(|i| !shared.contains(&i));
                    if unshared && mask > 0 {
                        continue;
                    }
                    let aux = if unshared { 0 } else { shared.len() };
                    if n + aux > 5 {
                        continue;
                    }
                    case(&format!("pair:{a:?}:{b:?}:{ov:?}:{mask}"), || {
                        let nr = gen::arity(*a).1 + gen::arity(*b).1;
                        let nm = (*a == TketOp::Measure) as usize + (*b == TketOp::Measure) as usize;
                        let mut ins = vec![qb_t(); n + aux];
                        ins.extend(vec![rotation_type(); nr]);
                        let mut outs = vec![qb_t(); n + aux];
                        outs.extend(vec![bool_t(); nm]);
                        let bld = DFGBuilder::new(Signature::new(ins, outs)).map_err(es)?;
                        let w: Vec<Wire> = bld.input_wires().collect();
                        let mut c = Circ { qs: w[..n + aux].to_vec(), rots: w[n + aux..].to_vec(), bits: vec![], b: bld };
                        if unshared {
                            for i in 0..na {
                                if !shared.contains(&i) {
                                    c.add(TketOp::H, &[i]);
                                }
                            }
                        } else {
                            for (k, s) in shared.iter().enumerate() {
                                c.add(TketOp::H, &[n + k]);
                                if mask >> k & 1 == 0 {
                                    c.add(TketOp::CZ, &[n + k, *s]);
                                } else {
                                    c.add(TketOp::CX, &[n + k, *s]);
                                }
                            }
                        }
                        c.add(*a, &(0..na).collect::<Vec<_>>());
                        c.add(*b, &ov);
                        let mut o = c.qs.clone();
                        o.extend(c.bits.clone());
                        let h = c.b.finish_hugr_with_outputs(o).map_err(es)?;
                        run_pass(h)
                    });
                }
            }
        }
    }
}

/// Random circuits of the operations the pass may move, with opaque operations (barriers, nested
/// regions, classically controlled regions), angles computed from measurements, allocations and order edges.
fn random(rng: &mut Rng) -> Result<Hugr, String> {
    let nq = 2 + rng.below(3);
    let mode = rng.below(4);
    let comm = [TketOp::CX, TketOp::CZ, TketOp::T, TketOp::Rz, TketOp::X, TketOp::Rx, TketOp::S, TketOp::H, TketOp::Y, TketOp::V];
    let sig = Signature::new(vec![qb_t(); nq], vec![qb_t(); nq]);
    let mut m = DFGBuilder::new(sig).map_err(es)?;
    let mut qs: Vec<Wire> = m.input_wires().collect();
    let mut bits: Vec<Wire> = vec![];
    let mut rots: Vec<Wire> = vec![];
    for _ in 0..6 + rng.below(12) {
        let k = rng.below(10);
        let i = rng.below(qs.len());
        if mode >= 1 && k == 0 {
            let [q, r] = m.add_dataflow_op(TketOp::Measure, [qs[i]]).map_err(es)?.outputs_arr();
            qs[i] = q;
            bits.push(r);
        } else if mode >= 1 && k == 1 && !bits.is_empty() {
            // an angle that depends on a measurement
            let c = bits[rng.below(bits.len())];
            let mut cb = m.conditional_builder(([hugr::type_row![], hugr::type_row![]], c), Vec::<(Type, Wire)>::new(), vec![rotation_type()].into()).map_err(es)?;
            for case in 0..2 {
                use hugr::builder::{DataflowSubContainer, SubContainer};
                let mut cc = cb.case_builder(case).map_err(es)?;
                let r = cc.add_load_value(ConstRotation::new(0.25 + case as f64).unwrap());
                cc.finish_with_outputs([r]).map_err(es)?;
            }
            use hugr::builder::{DataflowSubContainer, SubContainer};
            let r = cb.finish_sub_container().map_err(es)?.out_wire(0);
            rots.push(r);
        } else if mode >= 2 && k == 2 {
            let hdl = m.add_barrier([qs[i]]).map_err(es)?;
            qs[i] = hdl.out_wire(0);
        } else if mode >= 2 && k == 3 {
            // a nested region: opaque to the pass
            use hugr::builder::{DataflowSubContainer, SubContainer};
            let mut d = m.dfg_builder(Signature::new_endo(vec![qb_t()]), [qs[i]]).map_err(es)?;
            let [q] = d.input_wires_arr();
            let g = [TketOp::H, TketOp::X, TketOp::Z, TketOp::T][rng.below(4)];
            let q = d.add_dataflow_op(g, [q]).map_err(es)?.out_wire(0);
            qs[i] = d.finish_with_outputs([q]).map_err(es)?.out_wire(0);
        } else if mode >= 3 && k == 4 {
            let q = m.add_dataflow_op(TketOp::QAlloc, []).map_err(es)?.out_wire(0);
            let old = std::mem::replace(&mut qs[i], q);
            if rng.chance(1, 2) {
                m.add_dataflow_op(TketOp::QFree, [old]).map_err(es)?;
            } else {
                let b = m.add_dataflow_op(TketOp::MeasureFree, [old]).map_err(es)?.out_wire(0);
                bits.push(m.add_dataflow_op(BoolOp::read, [b]).map_err(es)?.out_wire(0));
            }
        } else {
            let op = comm[rng.below(comm.len())];
            let (n, na) = gen::arity(op);
            let mut idx: Vec<usize> = (0..qs.len()).collect();
            rng.shuffle(&mut idx);
            let idx = &idx[..n];
            let mut ws: Vec<Wire> = idx.iter().map(|i| qs[*i]).collect();
            for _ in 0..na {
                let w = if !rots.is_empty() && rng.chance(2, 3) { rots[rng.below(rots.len())] } else { m.add_load_value(ConstRotation::new(0.3).unwrap()) };
                ws.push(w);
            }
            let o: Vec<Wire> = m.add_dataflow_op(op, ws).map_err(es)?.outputs().collect();
            for (o, i) in o.iter().zip(idx) {
                qs[*i] = *o;
            }
        }
    }
    m.finish_hugr_with_outputs(qs).map_err(es)
}

pub fn programs(seed: u64, n: usize) {
    let mut rng = Rng(seed.wrapping_mul(0x51ED) ^ 0xC06);
    for i in 0..n {
        case(&format!("program:{seed}:{i}"), || run_pass(random(&mut rng)?));
    }
    for i in 0..n / 4 {
        let cfg = gen::Cfg { nq: 2 + rng.below(3), nops: 6 + rng.below(10), nrot: 1, measure: true, alloc: i % 2 == 0, cond: true, nested: true, call: true, barrier: true, radd: true, ..gen::Cfg::gates_only(2, 5) };
        case(&format!("general:{seed}:{i}"), || run_pass(gen::program(&mut rng, &cfg).map_err(es)?));
    }
}

pub fn run() {
    table();
    pairs();
    let _ = IncomingPort::from(0).index();
}
