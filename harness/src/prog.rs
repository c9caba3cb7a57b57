//! Programs described as JSON, built with hugr's own builder.
//!
//! {in: [type], out: [[wire, type]], body: [step], funcs?: [{name, in, out, body} | {name, in, out} (declaration)], meta?: {key: value}}
//! step: [op, [wires], [results]]                                an operation (see `optype`)
//!       ["const", kind, value, result]                          a loaded constant
//!       ["dfg", [[inner name, wire, type]], body, [[wire, type]], [results]]
//!       ["cond", wire, sum rows, [[inner name, wire, type]], [[case input names], body, [wires]] per case, [out types], [results]]
//!       ["call", function, [wires], [results]]
//!       ["loadf", function, result]
//!       ["calli", wire, [input types], [output types], [wires], [results]]   an indirect call
//!       ["loop", [[inner name, wire, type]] (iterated), [[inner name, wire, type]] (other), [types of the results], body, [sum wire, wires], [results]]
//!       ["order", wire or result, wire or result]               an order edge between the nodes
//! A name that is not known inside a nested region refers to the enclosing region (a non-local wire).
use crate::pytket::ty;
use crate::util::es;
use hugr::builder::{Container, Dataflow, DataflowSubContainer, HugrBuilder, ModuleBuilder, SubContainer};
use hugr::extension::prelude::{Barrier, ConstUsize, MakeTuple, Noop, UnpackTuple};
use hugr::extension::simple_op::{MakeExtensionOp, MakeRegisteredOp};
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::handle::{FuncID, NodeHandle};
use hugr::ops::{OpType, Tag, Value};
use hugr::std_extensions::arithmetic::float_types::ConstF64;
use hugr::std_extensions::arithmetic::int_types::ConstInt;
use hugr::types::{Signature, Type};
use hugr::{Extension, Hugr, HugrView, Wire};
use serde_json::Value as J;
use std::collections::HashMap;
use std::sync::Arc;
use tket::extension::bool::ConstBool;
use tket::extension::rotation::ConstRotation;

pub fn tys(v: &J) -> Vec<Type> {
    v.as_array().unwrap().iter().map(|x| ty(x.as_str().unwrap())).collect()
}

fn s(v: &J) -> &str {
    v.as_str().unwrap_or_else(|| panic!("string expected: {v}"))
}

fn list(t: &str) -> Vec<Type> {
    crate::pytket::split(t, ';').into_iter().filter(|x| !x.is_empty()).map(ty).collect()
}

pub fn extensions() -> Vec<Arc<Extension>> {
    let mut v: Vec<Arc<Extension>> = hugr::std_extensions::std_reg().iter().cloned().collect();
    v.extend([
        tket::extension::TKET_EXTENSION.clone(),
        tket::extension::rotation::ROTATION_EXTENSION.clone(),
        tket::extension::bool::BOOL_EXTENSION.clone(),
        tket::extension::global_phase::GLOBAL_PHASE_EXTENSION.clone(),
        tket_qsystem::extension::qsystem::EXTENSION.clone(),
        tket_qsystem::extension::futures::EXTENSION.clone(),
        tket_qsystem::extension::result::EXTENSION.clone(),
        tket::extension::guppy::GUPPY_EXTENSION.clone(),
        tket::extension::debug::DEBUG_EXTENSION.clone(),
    ]);
    v
}

/// The operation of a name: `extension.name`, or one of the special forms with arguments.
pub fn optype(n: &str) -> Result<OpType, String> {
    if let Some((k, a)) = n.split_once(' ') {
        return Ok(match k {
            "tup" => MakeTuple::new(list(a).into()).to_extension_op().unwrap().into(),
            "untup" => UnpackTuple::new(list(a).into()).to_extension_op().unwrap().into(),
            "noop" => Noop::new(ty(a)).to_extension_op().unwrap().into(),
            "barrier" => Barrier::new(list(a)).into(),
            "sympy" => tket::extension::sympy::SympyOp { expr: a.into() }.to_extension_op().unwrap().into(),
            "tk1" => {
                // the payload: {"op":.., "num_qubits":.., "num_bits":.., "param_inputs":[..], "num_params":..}
                let e = &tket::extension::TKET1_EXTENSION;
                e.instantiate_extension_op(&tket::extension::TKET1_OP_NAME, [hugr::types::TypeArg::String(a.into())]).map_err(es)?.into()
            }
            "fut.Read" | "fut.Dup" | "fut.Free" => {
                use tket_qsystem::extension::futures::*;
                let op = match k {
                    "fut.Read" => FutureOpDef::Read,
                    "fut.Dup" => FutureOpDef::Dup,
                    _ => FutureOpDef::Free,
                };
                FutureOp { op, typ: ty(a) }.to_extension_op().unwrap().into()
            }
            "tag" => {
                let mut p = crate::pytket::split(a, '|').into_iter();
                let t: usize = p.next().unwrap().parse().unwrap();
                Tag::new(t, p.map(|r| list(r).into()).collect()).into()
            }
            // any operation, with its arguments (numbers or types)
            "x" => {
                let (o, a) = a.split_once(' ').unwrap();
                let (e, o) = o.rsplit_once('.').unwrap();
                let ex = extensions().into_iter().find(|x| x.name().to_string() == e).ok_or_else(|| format!("extension {e}"))?;
                let arg = |t: &str| -> hugr::types::TypeArg {
                    match t.parse::<u64>() {
                        Ok(k) => k.into(),
                        _ => match t.strip_prefix('[') {
                            Some(l) => hugr::types::TypeArg::List(list(&l[..l.len() - 1].replace(',', ";")).into_iter().map(|x| x.into()).collect()),
                            None => match t.strip_prefix('\'') {
                                Some(l) => hugr::types::TypeArg::String(l.into()),
                                None => ty(t).into(),
                            },
                        },
                    }
                };
                ex.instantiate_extension_op(o, a.split(';').filter(|x| !x.is_empty()).map(arg).collect::<Vec<_>>()).map_err(es)?.into()
            }
            "rbarrier" => {
                use hugr::types::TypeArg;
                let e = &tket_qsystem::extension::qsystem::EXTENSION;
                e.instantiate_extension_op("RuntimeBarrier", [TypeArg::BoundedNat(a.parse().unwrap())]).map_err(es)?.into()
            }
            "newarr" | "unarr" => {
                use hugr::types::TypeArg;
                let (m, t) = a.split_once(' ').unwrap();
                let m: u64 = m.parse().unwrap();
                let e = &hugr::std_extensions::collections::array::EXTENSION;
                e.instantiate_extension_op(if k == "newarr" { "new_array" } else { "unpack" }, [TypeArg::BoundedNat(m), ty(t).into()]).map_err(es)?.into()
            }
            _ => return Err(format!("operation {n}")),
        });
    }
    let (e, o) = n.rsplit_once('.').ok_or(n)?;
    let ex = extensions().into_iter().find(|x| x.name().to_string() == e).ok_or_else(|| format!("extension {e}"))?;
    Ok(ex.instantiate_extension_op(o, []).map_err(es)?.into())
}

pub fn constant(kind: &str, v: &J) -> Value {
    match kind {
        "b" => Value::from_bool(v.as_bool().unwrap()),
        "tb" => ConstBool::new(v.as_bool().unwrap()).into(),
        "f" => ConstF64::new(v.as_f64().unwrap()).into(),
        "r" => ConstRotation::new(v.as_f64().unwrap()).unwrap().into(),
        "u" => ConstUsize::new(v.as_u64().unwrap()).into(),
        "i" => ConstInt::new_u(6, v.as_u64().unwrap()).unwrap().into(),
        // the type of the elements, then their kinds and values
        k if k.starts_with("sarr(") => {
            use hugr::std_extensions::collections::static_array::StaticArrayValue;
            StaticArrayValue::try_new("a", ty(&k[5..k.len() - 1]), v.as_array().unwrap().iter().map(|x| constant(s(&x[0]), &x[1]))).unwrap().into()
        }
        k if k.starts_with("arr(") => {
            use hugr::std_extensions::collections::array::ArrayValue;
            ArrayValue::new(ty(k[4..k.len() - 1].split_once(',').unwrap().1), v.as_array().unwrap().iter().map(|x| constant(s(&x[0]), &x[1])).collect::<Vec<_>>()).into()
        }
        k if k.starts_with("barr(") => {
            use hugr::std_extensions::collections::borrow_array::BArrayValue;
            BArrayValue::new(ty(k[5..k.len() - 1].split_once(',').unwrap().1), v.as_array().unwrap().iter().map(|x| constant(s(&x[0]), &x[1])).collect::<Vec<_>>()).into()
        }
        // [tag, components]
        k if k.starts_with("sum(") || k.starts_with("opt(") => {
            let t = ty(k).as_sum().unwrap().clone();
            Value::sum(v[0].as_u64().unwrap() as usize, v[1].as_array().unwrap().iter().map(|x| constant(s(&x[0]), &x[1])), t).unwrap()
        }
        // the kinds and values of the components, after the type
        k if k.starts_with("tup:") || k.starts_with("tup(") => Value::tuple(v.as_array().unwrap().iter().map(|x| constant(s(&x[0]), &x[1]))),
        _ => panic!("constant {kind}"),
    }
}

#[derive(Clone, Default)]
pub struct Env {
    pub w: HashMap<String, Wire>,
    pub f: HashMap<String, FuncID<true>>,
}

impl Env {
    fn get(&self, v: &J) -> Result<Wire, String> {
        self.w.get(s(v)).copied().ok_or_else(|| format!("wire {v}"))
    }
    fn all(&self, v: &J) -> Result<Vec<Wire>, String> {
        v.as_array().unwrap().iter().map(|x| self.get(x)).collect()
    }
}

pub fn steps<D: Dataflow>(b: &mut D, env: &mut Env, body: &J) -> Result<(), String> {
    for st in body.as_array().unwrap() {
        let st = st.as_array().unwrap();
        match s(&st[0]) {
            "const" => {
                let w = b.add_load_value(constant(s(&st[1]), &st[2]));
                env.w.insert(s(&st[3]).into(), w);
            }
            "dfg" => {
                let ins = st[1].as_array().unwrap();
                let out = st[3].as_array().unwrap();
                let ws = ins.iter().map(|x| env.get(&x[1])).collect::<Result<Vec<_>, _>>()?;
                let sig = Signature::new(
                    ins.iter().map(|x| ty(s(&x[2]))).collect::<Vec<_>>(),
                    out.iter().map(|x| ty(s(&x[1]))).collect::<Vec<_>>(),
                );
                let mut d = b.dfg_builder(sig, ws).map_err(es)?;
                let mut e2 = env.clone();
                for (x, w) in ins.iter().zip(d.input_wires()) {
                    e2.w.insert(s(&x[0]).into(), w);
                }
                steps(&mut d, &mut e2, &st[2])?;
                let o = out.iter().map(|x| e2.get(&x[0])).collect::<Result<Vec<_>, _>>()?;
                let h = d.finish_with_outputs(o).map_err(es)?;
                for (n, w) in st[4].as_array().unwrap().iter().zip(h.outputs()) {
                    env.w.insert(s(n).into(), w);
                }
            }
            "cond" => {
                let rows: Vec<Vec<Type>> = st[2].as_array().unwrap().iter().map(tys).collect();
                let ins = st[3].as_array().unwrap();
                let other = ins.iter().map(|x| Ok((ty(s(&x[2])), env.get(&x[1])?))).collect::<Result<Vec<_>, String>>()?;
                let mut c = b
                    .conditional_builder((rows.into_iter().map(|r| r.into()).collect::<Vec<_>>(), env.get(&st[1])?), other, tys(&st[5]).into())
                    .map_err(es)?;
                for (i, case) in st[4].as_array().unwrap().iter().enumerate() {
                    let mut cc = c.case_builder(i).map_err(es)?;
                    let mut e2 = env.clone();
                    let names = case[0].as_array().unwrap().iter().map(s).chain(ins.iter().map(|x| s(&x[0])));
                    for (n, w) in names.zip(cc.input_wires().collect::<Vec<_>>()) {
                        e2.w.insert(n.into(), w);
                    }
                    steps(&mut cc, &mut e2, &case[1])?;
                    let o = e2.all(&case[2])?;
                    cc.finish_with_outputs(o).map_err(es)?;
                }
                let h = c.finish_sub_container().map_err(es)?;
                for (n, w) in st[6].as_array().unwrap().iter().zip(h.outputs()) {
                    env.w.insert(s(n).into(), w);
                }
            }
            "call" => {
                let f = env.f.get(s(&st[1])).ok_or("function")?.clone();
                let h = b.call(&f, &[], env.all(&st[2])?).map_err(es)?;
                for (n, w) in st[3].as_array().unwrap().iter().zip(h.outputs()) {
                    env.w.insert(s(n).into(), w);
                }
            }
            "loadf" => {
                let f = env.f.get(s(&st[1])).ok_or("function")?.clone();
                let w = b.load_func(&f, &[]).map_err(es)?;
                env.w.insert(s(&st[2]).into(), w);
            }
            "calli" => {
                let sig = Signature::new(tys(&st[2]), tys(&st[3]));
                let h = b.add_dataflow_op(hugr::ops::CallIndirect { signature: sig }, [vec![env.get(&st[1])?], env.all(&st[4])?].concat()).map_err(es)?;
                for (n, w) in st[5].as_array().unwrap().iter().zip(h.outputs()) {
                    env.w.insert(s(n).into(), w);
                }
            }
            "loop" => {
                let arg = |v: &J| v.as_array().unwrap().iter().map(|x| Ok((ty(s(&x[2])), env.get(&x[1])?))).collect::<Result<Vec<_>, String>>();
                let mut l = b.tail_loop_builder(arg(&st[1])?, arg(&st[2])?, tys(&st[3]).into()).map_err(es)?;
                let mut e2 = env.clone();
                for (x, w) in st[1].as_array().unwrap().iter().chain(st[2].as_array().unwrap()).zip(l.input_wires().collect::<Vec<_>>()) {
                    e2.w.insert(s(&x[0]).into(), w);
                }
                steps(&mut l, &mut e2, &st[4])?;
                let o = e2.all(&st[5])?;
                let h = l.finish_with_outputs(o[0], o[1..].to_vec()).map_err(es)?;
                for (n, w) in st[6].as_array().unwrap().iter().zip(h.outputs()) {
                    env.w.insert(s(n).into(), w);
                }
            }
            "order" => {
                let (x, y) = (env.get(&st[1])?, env.get(&st[2])?);
                b.set_order(&x.node(), &y.node());
            }
            op => {
                let h = b.add_dataflow_op(optype(op)?, env.all(&st[1])?).map_err(|e| format!("{op}: {e}"))?;
                let outs = st[2].as_array().unwrap();
                for (n, w) in outs.iter().zip(h.outputs()) {
                    env.w.insert(s(n).into(), w);
                }
                // a name for the node itself, for order edges
                env.w.insert(format!("@{}", st.get(3).map(s).unwrap_or("")), Wire::new(h.node(), 0));
            }
        }
    }
    Ok(())
}

/// The module of a program, its entrypoint the function `main`.
pub fn build(p: &J) -> Result<Hugr, String> {
    let mut m = ModuleBuilder::new();
    let mut env = Env::default();
    let none = vec![];
    for f in p.get("funcs").and_then(|x| x.as_array()).unwrap_or(&none) {
        let name = s(&f["name"]);
        let Some(body) = f.get("body") else {
            let d = m.declare(name, Signature::new(tys(&f["in"]), tys(&f["out"])).into()).map_err(es)?;
            env.f.insert(name.into(), FuncID::<true>::from(d.node()));
            continue;
        };
        let out = f["out"].as_array().unwrap();
        let sig = Signature::new(tys(&f["in"]), out.iter().map(|x| ty(s(&x[1]))).collect::<Vec<_>>());
        let mut fb = m.define_function(name, sig).map_err(es)?;
        let mut e2 = env.clone();
        for (i, w) in fb.input_wires().enumerate() {
            e2.w.insert(format!("x{i}"), w);
        }
        steps(&mut fb, &mut e2, body)?;
        let o = out.iter().map(|x| e2.get(&x[0])).collect::<Result<Vec<_>, _>>()?;
        let id = fb.finish_with_outputs(o).map_err(es)?;
        env.f.insert(name.into(), FuncID::<true>::from(id.node()));
    }
    let out = p["out"].as_array().unwrap();
    let sig = Signature::new(tys(&p["in"]), out.iter().map(|x| ty(s(&x[1]))).collect::<Vec<_>>());
    let mut fb = m.define_function(p.get("name").map(s).unwrap_or("main"), sig).map_err(es)?;
    for (i, w) in fb.input_wires().enumerate() {
        env.w.insert(format!("x{i}"), w);
    }
    steps(&mut fb, &mut env, &p["body"])?;
    let o = out.iter().map(|x| env.get(&x[0])).collect::<Result<Vec<_>, _>>()?;
    let id = fb.finish_with_outputs(o).map_err(es)?;
    let mut h = std::mem::take(m.hugr_mut());
    h.set_entrypoint(id.node());
    if let Some(meta) = p.get("meta").and_then(|x| x.as_object()) {
        for (k, v) in meta {
            h.set_metadata(id.node(), k, v.clone());
        }
    }
    h.validate().map_err(|e| format!("invalid program: {e}"))?;
    Ok(h)
}
