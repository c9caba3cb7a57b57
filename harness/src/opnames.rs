//! C17: every operation stored by name and read back.
use crate::util::*;
use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
use hugr::envelope::EnvelopeConfig;
use hugr::extension::prelude::{bool_t, option_type, qb_t, usize_t};
use hugr::extension::simple_op::{MakeExtensionOp, MakeOpDef, MakeRegisteredOp};
use hugr::extension::ExtensionRegistry;
use hugr::ops::dataflow::DataflowOpTrait;
use hugr::ops::{ExtensionOp, OpType};
use hugr::std_extensions::arithmetic::{float_types::float64_type, int_types::int_type};
use hugr::std_extensions::collections::{array::array_type, borrow_array::borrow_array_type};
use hugr::types::{Signature, Type, TypeArg, TypeBound, TypeRV, TypeRow, TypeRowRV};
use hugr::{Hugr, HugrView};
use serde_json::{json, Value as J};
use std::fmt::Debug;
use strum::IntoEnumIterator;
use tket::extension::bool::BoolOp;
use tket::extension::debug::StateResult;
use tket::extension::global_phase::GlobalPhase;
use tket::extension::modifier::{Modifier, MODIFIER_EXTENSION};
use tket::extension::rotation::{rotation_type, RotationOp};
use tket::extension::sympy::SympyOp;
use tket::TketOp;
use tket_qsystem::extension::classical_compute::{gpu, wasm};
use tket_qsystem::extension::futures::{future_type, FutureOp, FutureOpDef};
use tket_qsystem::extension::qsystem::{QSystemOp, RuntimeBarrierDef};
use tket_qsystem::extension::random::RandomOp;
use tket_qsystem::extension::result::{ResultArgs, ResultOp, ResultOpDef, SimpleArgs};
use tket_qsystem::extension::utils::UtilsOp;

pub fn registry() -> ExtensionRegistry {
    let mut v = crate::prog::extensions();
    v.extend([
        MODIFIER_EXTENSION.clone(),
        tket_qsystem::extension::random::EXTENSION.clone(),
        tket_qsystem::extension::utils::EXTENSION.clone(),
        wasm::EXTENSION.clone(),
        gpu::EXTENSION.clone(),
    ]);
    ExtensionRegistry::new(v)
}

/// Which operation types recognise the operation, and as what.
fn readers(e: &ExtensionOp) -> J {
    let mut m = serde_json::Map::new();
    macro_rules! r {
        ($n:literal, $t:ty) => {
            if let Ok(o) = <$t as MakeExtensionOp>::from_extension_op(e) {
                m.insert($n.into(), json!(format!("{o:?}")));
            }
        };
    }
    macro_rules! d {
        ($n:literal, $t:ty) => {
            if let Ok(o) = <$t as MakeOpDef>::from_def(e.def()) {
                m.insert($n.into(), json!(format!("{o:?}")));
            }
        };
    }
    r!("TketOp", TketOp);
    r!("BoolOp", BoolOp);
    r!("RotationOp", RotationOp);
    r!("SympyOp", SympyOp);
    r!("StateResult", StateResult);
    r!("GlobalPhase", GlobalPhase);
    r!("FutureOp", FutureOp);
    r!("QSystemOp", QSystemOp);
    r!("RandomOp", RandomOp);
    r!("UtilsOp", UtilsOp);
    r!("ResultOp", ResultOp);
    r!("WasmOp", wasm::WasmOp);
    r!("GpuOp", gpu::GpuOp);
    d!("Modifier", Modifier);
    d!("RuntimeBarrier", RuntimeBarrierDef);
    d!("FutureOpDef", FutureOpDef);
    d!("ResultOpDef", ResultOpDef);
    d!("WasmOpDef", wasm::WasmOpDef);
    d!("GpuOpDef", gpu::GpuOpDef);
    d!("SympyOpDef", tket::extension::sympy::SympyOpDef);
    d!("StateResultDef", tket::extension::debug::StateResultDef);
    J::Object(m)
}

fn describe(e: &ExtensionOp) -> J {
    let s = e.signature();
    json!({"ext": e.extension_id().to_string(), "name": e.unqualified_id().to_string(),
        "args": e.args().iter().map(|a| format!("{a:?}")).collect::<Vec<_>>(),
        "ins": s.input().iter().map(|t| format!("{t}")).collect::<Vec<_>>(),
        "outs": s.output().iter().map(|t| format!("{t}")).collect::<Vec<_>>()})
}

/// Types with a row variable print the same as others: the debug form of a row tells.
fn open(e: &ExtensionOp) -> bool {
    e.args().iter().any(|a| format!("{a:?}").contains("Variable"))
}

fn stored(e: &ExtensionOp, cfg: EnvelopeConfig) -> Result<ExtensionOp, String> {
    let s = e.signature();
    let mut b = FunctionBuilder::new("main", Signature::new(s.input().clone(), s.output().clone())).map_err(es)?;
    let ws: Vec<_> = b.input_wires().collect();
    let h = b.add_dataflow_op(e.clone(), ws).map_err(es)?;
    let hugr: Hugr = b.finish_hugr_with_outputs(h.outputs()).map_err(es)?;
    let mut bytes = vec![];
    hugr.store(&mut bytes, cfg).map_err(es)?;
    let l = Hugr::load(bytes.as_slice(), Some(&registry())).map_err(es)?;
    l.validate().map_err(es)?;
    let found: Vec<ExtensionOp> = l.nodes().filter_map(|n| l.get_optype(n).as_extension_op().cloned()).collect();
    match found.as_slice() {
        [o] => Ok(o.clone()),
        _ => Err(format!("{} operations after loading", found.len())),
    }
}

type Expect = Option<(Vec<Type>, Vec<Type>)>;

fn emit(family: &str, label: String, expect: Expect, op: String, e: Option<ExtensionOp>, back: impl Fn(&ExtensionOp) -> Result<bool, String>, cast: impl Fn(&OpType) -> bool) {
    case(&format!("{family}/{label}"), || {
        let Some(e) = e else { return Ok(json!({"family": family, "op": op, "refused": true, "expected": expect.is_some()})) };
        let mut v = json!({"family": family, "op": op, "stored": describe(&e), "readers": readers(&e), "back": back(&e)?, "cast": cast(&OpType::from(e.clone()))});
        if let Some((i, o)) = &expect {
            v["signature"] = json!(e.signature().as_ref() == &Signature::new(i.clone(), o.clone()));
        }
        if !open(&e) {
            for (k, c) in [("text", EnvelopeConfig::text()), ("binary", EnvelopeConfig::binary())] {
                v[k] = match stored(&e, c) {
                    Ok(o) => json!({"stored": describe(&o), "back": back(&o)?, "cast": cast(&OpType::from(o.clone())), "readers": readers(&o)}),
                    Err(x) => json!({"error": x}),
                };
            }
        }
        Ok(v)
    });
}

fn reg<T: MakeRegisteredOp + MakeExtensionOp + PartialEq + Debug + Clone + 'static>(family: &str, label: String, op: T) {
    sig(family, label, None, op)
}

fn sig<T: MakeRegisteredOp + MakeExtensionOp + PartialEq + Debug + Clone + 'static>(family: &str, label: String, expect: Expect, op: T) {
    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op.clone().to_extension_op())).unwrap_or(None);
    let (a, b) = (op.clone(), op.clone());
    emit(family, label, expect, format!("{op:?}"), e, move |e| T::from_extension_op(e).map(|o| o == a).map_err(|x| format!("not recovered: {x}")), move |o| o.cast::<T>().is_some_and(|x| x == b));
}

fn def<T: MakeOpDef + PartialEq + Debug + Clone + 'static>(family: &str, label: String, op: T, ext: &hugr::Extension, args: Vec<TypeArg>) {
    let e = ext.instantiate_extension_op(&op.opdef_id(), args).ok();
    let (a, b) = (op.clone(), op.clone());
    emit(family, label, None, format!("{op:?}"), e, move |e| T::from_def(e.def()).map(|o| o == a).map_err(|x| format!("not recovered: {x}")),
        move |o| o.as_extension_op().is_some_and(|x| T::from_def(x.def()).is_ok_and(|y| y == b)));
}

fn tags() -> Vec<String> {
    ["", "a", "result", "with space", "\"quoted\" \\ back", "ünïcode ∀", "new\nline", "result_int", "0"].iter().map(|s| s.to_string()).chain(["x".repeat(300)]).collect()
}

fn nats() -> Vec<u64> {
    vec![0, 1, 2, 5, 255, 256, 65536, u32::MAX as u64, u32::MAX as u64 + 1, i64::MAX as u64]
}

fn types() -> Vec<(&'static str, Type)> {
    vec![
        ("bool", bool_t()), ("qubit", qb_t()), ("usize", usize_t()), ("int5", int_type(5)), ("int6", int_type(6)), ("f64", float64_type()),
        ("rotation", rotation_type()), ("tbool", tket::extension::bool::bool_type()), ("opt", option_type(qb_t()).into()),
        ("arr", array_type(3, qb_t())), ("barr", borrow_array_type(2, bool_t())), ("future", future_type(bool_t())),
        ("tuple", Type::new_tuple(vec![bool_t(), qb_t()])), ("unit", Type::new_tuple(TypeRow::new())),
        ("fn", Type::new_function(Signature::new(vec![qb_t()], vec![bool_t()]))),
        ("wfunc", wasm::WasmType::new_func(vec![bool_t()], vec![int_type(6)]).into()),
    ]
}

fn rows(full: bool) -> Vec<(String, TypeRow)> {
    let ts = types();
    let mut v: Vec<(String, TypeRow)> = vec![("".into(), TypeRow::new())];
    for (n, t) in &ts {
        v.push((n.to_string(), vec![t.clone()].into()));
    }
    for i in 0..if full { ts.len() } else { 3 } {
        for j in 0..if full { 3 } else { 2 } {
            v.push((format!("{}+{}", ts[i].0, ts[j].0), vec![ts[i].1.clone(), ts[j].1.clone()].into()));
        }
    }
    v
}

macro_rules! compute {
    ($fam:literal, $op:ty, $ext:expr, $full:expr) => {{
        type Op = $op;
        let plain = |n: &str, a: Vec<TypeArg>| -> Option<Type> { Some(Type::new_extension($ext.get_type(n).unwrap().instantiate(a).ok()?)) };
        let list = |r: &TypeRow| TypeArg::new_list(r.iter().cloned().map(TypeArg::from));
        let (ctx, module) = (plain("context", vec![]).unwrap(), plain("module", vec![]).unwrap());
        let func = |i: &TypeRow, o: &TypeRow| plain("func", vec![list(i), list(o)]).unwrap();
        let res = |o: &TypeRow| plain("result", vec![list(o)]).unwrap();
        let copyable = |i: &TypeRow| i.iter().all(|t| t.copyable());
        let look = |i: &TypeRow, o: &TypeRow| (copyable(i) && copyable(o)).then(|| (vec![module.clone()], vec![func(i, o)]));
        let b: TypeRow = vec![bool_t()].into();
        let u: TypeRow = vec![usize_t()].into();
        sig($fam, "get_context".into(), Some((vec![usize_t()], vec![option_type(ctx.clone()).into()])), Op::GetContext);
        sig($fam, "dispose_context".into(), Some((vec![ctx.clone()], vec![])), Op::DisposeContext);
        let rs = rows(false);
        for (n, r) in rows($full) {
            let e = copyable(&r).then(|| (vec![res(&r)], [ctx.clone()].into_iter().chain(r.iter().cloned()).collect()));
            sig($fam, format!("read_result:{n}"), e, Op::ReadResult { outputs: r.clone() });
        }
        for (i, (n, r)) in rs.iter().enumerate() {
            for (j, (m, q)) in rs.iter().enumerate() {
                let e = (copyable(r) && copyable(q)).then(|| ([ctx.clone(), func(r, q)].into_iter().chain(r.iter().cloned()).collect(), vec![res(q)]));
                sig($fam, format!("call:{n}:{m}"), e, Op::Call { inputs: r.clone(), outputs: q.clone() });
                if i > 3 && j > 3 { continue }
                sig($fam, format!("by_id:{n}:{m}"), look(r, q), Op::LookupById { id: (i * 31 + j) as u64, inputs: r.clone().into(), outputs: q.clone().into() });
                sig($fam, format!("by_name:{n}:{m}"), look(r, q), Op::LookupByName { name: format!("f{i}"), inputs: r.clone().into(), outputs: q.clone().into() });
            }
        }
        for id in nats() {
            sig($fam, format!("by_id={id}"), look(&b, &u), Op::LookupById { id, inputs: vec![bool_t()].into(), outputs: vec![usize_t()].into() });
        }
        for name in tags() {
            sig($fam, format!("by_name={name:?}"), look(&b, &u), Op::LookupByName { name, inputs: vec![bool_t()].into(), outputs: vec![usize_t()].into() });
        }
        for b in [TypeBound::Copyable, TypeBound::Linear] {
            let v: TypeRowRV = vec![TypeRV::new_row_var_use(0, b)].into();
            let w: TypeRowRV = vec![TypeRV::new_row_var_use(1, b), TypeRV::from(bool_t())].into();
            reg($fam, format!("by_id rows {b:?}"), Op::LookupById { id: 7, inputs: v.clone(), outputs: w.clone() });
            reg($fam, format!("by_name rows {b:?}"), Op::LookupByName { name: "f".into(), inputs: w, outputs: v });
        }
    }};
}

pub fn run() {
    for o in TketOp::iter() { reg("TketOp", format!("{o:?}"), o); }
    for o in BoolOp::iter() { reg("BoolOp", format!("{o:?}"), o); }
    for o in RotationOp::iter() { reg("RotationOp", format!("{o:?}"), o); }
    for o in QSystemOp::iter() { reg("QSystemOp", format!("{o:?}"), o); }
    for o in RandomOp::iter() { reg("RandomOp", format!("{o:?}"), o); }
    for o in UtilsOp::iter() { reg("UtilsOp", format!("{o:?}"), o); }
    reg("GlobalPhase", "GlobalPhase".into(), GlobalPhase);
    for t in tags() {
        reg("SympyOp", format!("{t:?}"), SympyOp { expr: t });
    }
    for (i, t) in tags().into_iter().enumerate() {
        for (j, n) in nats().into_iter().enumerate() {
            if i > 1 && j > 1 { continue }
            sig("StateResult", format!("{t:?}:{n}"), Some((vec![array_type(n, qb_t())], vec![array_type(n, qb_t())])), StateResult::new(t.clone(), n));
        }
    }
    for o in FutureOpDef::iter() {
        for (n, t) in types() {
            for (n, t) in [(n.to_string(), t.clone()), (format!("future {n}"), future_type(t))] {
                let f = future_type(t.clone());
                let outs = match o {
                    FutureOpDef::Read => vec![t.clone()],
                    FutureOpDef::Dup => vec![f.clone(), f.clone()],
                    _ => vec![],
                };
                sig("FutureOp", format!("{o:?}:{n}"), Some((vec![f], outs)), FutureOp { op: o, typ: t });
            }
        }
    }
    for (i, t) in tags().into_iter().enumerate() {
        let few = i > 1;
        let mut v = vec![("bool".to_string(), bool_t(), ResultOp::new_bool(t.clone())), ("f64".into(), float64_type(), ResultOp::new_f64(t.clone()))];
        for w in 0..=if few { 0 } else { 6u8 } {
            v.push((format!("int{w}"), int_type(w as u64), ResultOp::new_int(t.clone(), w)));
            v.push((format!("uint{w}"), int_type(w as u64), ResultOp::new_uint(t.clone(), w)));
        }
        for (n, x, o) in v {
            sig("ResultOp", format!("{t:?}:{n}"), Some((vec![x.clone()], vec![])), o.clone());
            for s in nats() {
                if few && s > 1 { continue }
                sig("ResultOp", format!("{t:?}:{n}[{s}]"), Some((vec![array_type(s, x.clone())], vec![])), o.clone().array_op(s));
                // a second array_op replaces the size
                if s == 5 { sig("ResultOp", format!("{t:?}:{n}[{s}][9]"), Some((vec![array_type(9, x.clone())], vec![])), o.clone().array_op(s).array_op(9)); }
            }
        }
    }
    // an operation given by its fields
    for (o, a, x) in [(ResultOpDef::ArrInt, SimpleArgs::Int(3), int_type(3)), (ResultOpDef::ArrUInt, SimpleArgs::Int(4), int_type(4)), (ResultOpDef::ArrBool, SimpleArgs::Basic, bool_t()), (ResultOpDef::ArrF64, SimpleArgs::Basic, float64_type())] {
        sig("ResultOp", format!("fields:{o:?}"), Some((vec![array_type(4, x)], vec![])), ResultOp { tag: "t".into(), result_op: o, args: ResultArgs::Array(a, 4) });
    }
    for n in nats() {
        def("RuntimeBarrier", format!("{n}"), RuntimeBarrierDef, &tket_qsystem::extension::qsystem::EXTENSION, vec![n.into()]);
    }
    let rs: Vec<_> = rows(false);
    for m in Modifier::iter() {
        for (a, r) in &rs {
            for (b, q) in rs.iter().take(6) {
                let l = |r: &TypeRow| TypeArg::new_list(r.iter().cloned().map(TypeArg::from));
                for n in [0u64, 1, 3] {
                    let args = if m == Modifier::ControlModifier { vec![n.into(), l(r), l(q)] } else if n == 0 { vec![l(r), l(q)] } else { continue };
                    def("Modifier", format!("{m:?}:{n}:{a}:{b}"), m, &MODIFIER_EXTENSION, args);
                }
            }
        }
    }
    compute!("WasmOp", wasm::WasmOp, wasm::EXTENSION, true);
    compute!("GpuOp", gpu::GpuOp, gpu::EXTENSION, true);
    compute_types();
    listed();
}

/// The types of the compute extensions read back.
fn compute_types() {
    macro_rules! t {
        ($n:literal, $t:ty, $other:ty) => {
            for (k, (a, r)) in rows(false).into_iter().enumerate() {
                for (b, q) in rows(false) {
                    let mut v: Vec<(String, $t)> = vec![(format!("func:{a}:{b}"), <$t>::new_func(r.clone(), q.clone()))];
                    if k == 0 {
                        v.push((format!("result:{b}"), { type T = $t; T::Result { outputs: q.clone().into() } }));
                        v.push((format!("module {b}"), <$t>::Module));
                        v.push((format!("context {b}"), <$t>::Context));
                    }
                    for (n, t) in v {
                        case(&format!("{}/{n}", $n), || {
                            let x: Type = t.clone().into();
                            Ok(json!({"family": $n, "type": format!("{t:?}"), "stored": format!("{x}"), "bound": format!("{:?}", x.least_upper_bound()),
                                "back": <$t>::try_from(x.clone()).is_ok_and(|y| y == t), "other": <$other>::try_from(x).is_ok()}))
                        });
                    }
                }
            }
        };
    }
    t!("WasmType", wasm::WasmType, gpu::GpuType);
    t!("GpuType", gpu::GpuType, wasm::WasmType);
}

/// Every operation an extension declares, with its readers.
fn listed() {
    for e in registry().iter() {
        if !e.name().to_string().starts_with("tket") && !e.name().to_string().starts_with("guppy") { continue }
        for (n, d) in e.operations() {
            case(&format!("declared/{}.{n}", e.name()), || {
                let mut m = vec![];
                macro_rules! d { ($($t:ty),*) => { $( if let Ok(o) = <$t as MakeOpDef>::from_def(d) { m.push(format!("{}:{o:?}", stringify!($t))); } )* } }
                d!(TketOp, BoolOp, RotationOp, QSystemOp, RandomOp, UtilsOp, GlobalPhase, tket::extension::sympy::SympyOpDef, tket::extension::debug::StateResultDef, FutureOpDef, ResultOpDef, RuntimeBarrierDef, Modifier, wasm::WasmOpDef, gpu::GpuOpDef);
                Ok(json!({"family": "declared", "readers": m}))
            });
        }
    }
}
