//! Random programs over the tket operations.
use crate::util::Rng;
use hugr::builder::{
    BuildError, Container, Dataflow, DataflowSubContainer, HugrBuilder, ModuleBuilder, SubContainer,
};
use hugr::extension::prelude::{bool_t, qb_t};
use hugr::ops::handle::FuncID;
use hugr::ops::Value;
use hugr::types::{Signature, Type};
use hugr::{type_row, Hugr, Wire};
use tket::extension::bool::BoolOp;
use tket::extension::rotation::{rotation_type, ConstRotation, RotationOp};
use tket::TketOp;

#[derive(Clone)]
pub struct Cfg {
    pub nq: usize,
    pub nops: usize,
    pub gates: Vec<TketOp>,
    pub nrot: usize,
    pub measure: bool,
    pub alloc: bool,
    pub cond: bool,
    pub nested: bool,
    pub call: bool,
    pub barrier: bool,
    pub const_angles: bool,
    pub radd: bool,
}

pub const ALL_GATES: &[TketOp] = &[
    TketOp::H, TketOp::CX, TketOp::CY, TketOp::CZ, TketOp::CRz, TketOp::T, TketOp::Tdg, TketOp::S,
    TketOp::Sdg, TketOp::X, TketOp::Y, TketOp::Z, TketOp::Rx, TketOp::Ry, TketOp::Rz,
    TketOp::Toffoli, TketOp::V, TketOp::Vdg,
];

impl Cfg {
    pub fn gates_only(nq: usize, nops: usize) -> Self {
        Cfg {
            nq, nops, gates: ALL_GATES.to_vec(), nrot: 0, measure: false, alloc: false, cond: false,
            nested: false, call: false, barrier: false, const_angles: true, radd: false,
        }
    }
}

pub fn arity(op: TketOp) -> (usize, usize) {
    use TketOp::*;
    match op {
        CX | CY | CZ => (2, 0),
        CRz => (2, 1),
        Rx | Ry | Rz => (1, 1),
        Toffoli => (3, 0),
        QAlloc | TryQAlloc => (0, 0),
        _ => (1, 0),
    }
}

pub const ANGLES: &[f64] = &[0.25, 0.5, -0.5, 1.0, 1.5, 0.3, -1.75, 2.0, 3.5, 0.0];

fn angle<D: Dataflow + ?Sized>(b: &mut D, rng: &mut Rng, rots: &mut Vec<Wire>, cfg: &Cfg) -> Wire {
    if rots.is_empty() || (cfg.const_angles && rng.chance(1, 2)) {
        let v: Value = ConstRotation::new(ANGLES[rng.below(ANGLES.len())]).unwrap().into();
        return b.add_load_value(v);
    }
    if cfg.radd && rng.chance(1, 4) {
        let (x, y) = (rots[rng.below(rots.len())], rots[rng.below(rots.len())]);
        let r = b.add_dataflow_op(RotationOp::radd, [x, y]).unwrap().out_wire(0);
        rots.push(r);
        return r;
    }
    rots[rng.below(rots.len())]
}

pub fn body<D: Dataflow>(
    b: &mut D,
    rng: &mut Rng,
    cfg: &Cfg,
    qs: &mut Vec<Wire>,
    rots: &mut Vec<Wire>,
    bools: &mut Vec<Wire>,
    helper: Option<&FuncID<true>>,
    nops: usize,
    depth: usize,
) -> Result<(), BuildError> {
    for _ in 0..nops {
        let k = rng.below(20);
        let any_q = if qs.is_empty() { None } else { Some(rng.below(qs.len())) };
        match k {
            0 if cfg.measure && any_q.is_some() => {
                let i = any_q.unwrap();
                let [q, r] = b.add_dataflow_op(TketOp::Measure, [qs[i]])?.outputs_arr();
                qs[i] = q;
                bools.push(r);
            }
            1 if cfg.measure && any_q.is_some() => {
                let i = any_q.unwrap();
                qs[i] = b.add_dataflow_op(TketOp::Reset, [qs[i]])?.out_wire(0);
            }
            2 if cfg.alloc && qs.len() < cfg.nq + 1 => {
                let q = b.add_dataflow_op(TketOp::QAlloc, [])?.out_wire(0);
                qs.push(q);
            }
            3 if cfg.alloc && qs.len() > 1 && depth == 0 => {
                let q = qs.swap_remove(any_q.unwrap());
                if cfg.measure && rng.chance(1, 2) {
                    let tb = b.add_dataflow_op(TketOp::MeasureFree, [q])?.out_wire(0);
                    let r = b.add_dataflow_op(BoolOp::read, [tb])?.out_wire(0);
                    bools.push(r);
                } else {
                    b.add_dataflow_op(TketOp::QFree, [q])?;
                }
            }
            4 if cfg.cond && depth < 2 && !bools.is_empty() && any_q.is_some() => {
                let c = bools[rng.below(bools.len())];
                let n = qs.len();
                let mut cb = b.conditional_builder(
                    ([type_row![], type_row![]], c),
                    qs.iter().map(|w| (qb_t(), *w)).collect::<Vec<_>>(),
                    vec![qb_t(); n].into(),
                )?;
                for case in 0..2 {
                    let mut cc = cb.case_builder(case)?;
                    let mut q2: Vec<Wire> = cc.input_wires().collect();
                    let m = rng.below(4);
                    let mut c2 = cfg.clone();
                    c2.alloc = false;
                    c2.const_angles = true;
                    body(&mut cc, rng, &c2, &mut q2, &mut vec![], &mut vec![], helper, m, depth + 1)?;
                    cc.finish_with_outputs(q2)?;
                }
                *qs = cb.finish_sub_container()?.outputs().collect();
            }
            5 if cfg.nested && depth < 2 && any_q.is_some() => {
                let n = qs.len();
                let nr = rots.len();
                let mut ins: Vec<(Type, Wire)> = qs.iter().map(|w| (qb_t(), *w)).collect();
                ins.extend(rots.iter().map(|w| (rotation_type(), *w)));
                let mut d = b.dfg_builder(
                    Signature::new(
                        ins.iter().map(|x| x.0.clone()).collect::<Vec<_>>(),
                        vec![qb_t(); n],
                    ),
                    ins.iter().map(|x| x.1).collect::<Vec<_>>(),
                )?;
                let all: Vec<Wire> = d.input_wires().collect();
                let mut q2 = all[..n].to_vec();
                let mut r2 = all[n..n + nr].to_vec();
                let m = rng.below(5);
                let mut c2 = cfg.clone();
                c2.alloc = false;
                body(&mut d, rng, &c2, &mut q2, &mut r2, &mut vec![], helper, m, depth + 1)?;
                *qs = d.finish_with_outputs(q2)?.outputs().collect();
            }
            6 if cfg.call && helper.is_some() && qs.len() >= 2 => {
                let i = any_q.unwrap();
                let mut j = rng.below(qs.len());
                if i == j {
                    j = (i + 1) % qs.len();
                }
                let a = angle(b, rng, rots, cfg);
                let [x, y] = b.call(helper.unwrap(), &[], [qs[i], qs[j], a])?.outputs_arr();
                qs[i] = x;
                qs[j] = y;
            }
            7 if cfg.barrier && any_q.is_some() => {
                let n = 1 + rng.below(qs.len());
                let h = b.add_barrier(qs[..n].to_vec())?;
                for (i, w) in h.outputs().enumerate() {
                    qs[i] = w;
                }
            }
            _ => {
                let op = cfg.gates[rng.below(cfg.gates.len())];
                let (nq, na) = arity(op);
                if nq > qs.len() {
                    continue;
                }
                let mut idx: Vec<usize> = (0..qs.len()).collect();
                rng.shuffle(&mut idx);
                let idx = &idx[..nq];
                let mut ws: Vec<Wire> = idx.iter().map(|&i| qs[i]).collect();
                for _ in 0..na {
                    ws.push(angle(b, rng, rots, cfg));
                }
                let h = b.add_dataflow_op(op, ws)?;
                for (o, &i) in h.outputs().zip(idx) {
                    qs[i] = o;
                }
            }
        }
    }
    Ok(())
}

/// A module with a function `main: qubit^nq, rotation^nrot -> qubit*, bool*`.
pub fn program(rng: &mut Rng, cfg: &Cfg) -> Result<Hugr, BuildError> {
    let mut m = ModuleBuilder::new();
    let helper = if cfg.call {
        let mut f = m.define_function(
            "helper",
            Signature::new(vec![qb_t(), qb_t(), rotation_type()], vec![qb_t(), qb_t()]),
        )?;
        let [q, r, a] = f.input_wires_arr();
        let mut qs = vec![q, r];
        let mut c2 = cfg.clone();
        c2.alloc = false;
        body(&mut f, rng, &c2, &mut qs, &mut vec![a], &mut vec![], None, 4, 1)?;
        Some(FuncID::<true>::from(hugr::ops::handle::NodeHandle::node(&f.finish_with_outputs(qs)?)))
    } else {
        None
    };
    // The number of outputs depends on the body: generate it twice with the same randomness.
    let mut ins = vec![qb_t(); cfg.nq];
    ins.extend(vec![rotation_type(); cfg.nrot]);
    let save = rng.clone();
    let (n_q, n_b) = {
        let mut d = hugr::builder::DFGBuilder::new(Signature::new(ins.clone(), vec![]))?;
        let all: Vec<Wire> = d.input_wires().collect();
        let mut qs = all[..cfg.nq].to_vec();
        let mut rots = all[cfg.nq..].to_vec();
        let mut bools = vec![];
        // calls are replaced by nothing but keep the same draws
        let mut mm = ModuleBuilder::new();
        let _ = &mut mm;
        dry(&mut d, rng, cfg, &mut qs, &mut rots, &mut bools, helper.as_ref())?;
        (qs.len(), bools.len())
    };
    *rng = save;
    let mut outs = vec![qb_t(); n_q];
    outs.extend(vec![bool_t(); n_b]);
    let mut f = m.define_function("main", Signature::new(ins, outs))?;
    let all: Vec<Wire> = f.input_wires().collect();
    let mut qs = all[..cfg.nq].to_vec();
    let mut rots = all[cfg.nq..].to_vec();
    let mut bools = vec![];
    body(&mut f, rng, cfg, &mut qs, &mut rots, &mut bools, helper.as_ref(), cfg.nops, 0)?;
    qs.extend(bools);
    let id = f.finish_with_outputs(qs)?;
    let mut h = std::mem::take(m.hugr_mut());
    use hugr::hugr::hugrmut::HugrMut;
    use hugr::ops::handle::NodeHandle;
    h.set_entrypoint(id.node());
    Ok(h)
}

/// Dry run to count outputs: same draws, in a module that has the helper too.
fn dry(
    _d: &mut hugr::builder::DFGBuilder<Hugr>,
    rng: &mut Rng,
    cfg: &Cfg,
    qs: &mut Vec<Wire>,
    rots: &mut Vec<Wire>,
    bools: &mut Vec<Wire>,
    helper: Option<&FuncID<true>>,
) -> Result<(), BuildError> {
    let mut m = ModuleBuilder::new();
    let h2 = if helper.is_some() {
        let f = m.declare(
            "helper",
            Signature::new(vec![qb_t(), qb_t(), rotation_type()], vec![qb_t(), qb_t()]).into(),
        )?;
        // a FuncID<false>; re-type it as a definition handle on the same node
        use hugr::ops::handle::NodeHandle;
        Some(FuncID::<true>::from(f.node()))
    } else {
        None
    };
    let mut ins = vec![qb_t(); cfg.nq];
    ins.extend(vec![rotation_type(); cfg.nrot]);
    let mut f = m.define_function("dry", Signature::new(ins, vec![]))?;
    let all: Vec<Wire> = f.input_wires().collect();
    *qs = all[..cfg.nq].to_vec();
    *rots = all[cfg.nq..].to_vec();
    body(&mut f, rng, cfg, qs, rots, bools, h2.as_ref(), cfg.nops, 0)
}
