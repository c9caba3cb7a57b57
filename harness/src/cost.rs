//! C08: which cost component each operation is charged to, and the cost of whole circuits.
use crate::gen::{program, Cfg};
use crate::util::*;
use hugr::ops::{OpTrait, OpType, Tag, Value};
use hugr::{HugrView, Node};
use serde_json::json;
use strum::IntoEnumIterator;
use tket::circuit::cost::{is_cx, is_quantum, LexicographicCost};
use tket::extension::bool::BoolOp;
use tket::extension::rotation::RotationOp;
use tket::rewrite::strategy::*;
use tket::{Circuit, TketOp};

fn name(op: &OpType) -> Option<String> {
    op.as_extension_op().filter(|o| o.def().extension_id().to_string() == "tket.quantum").map(|o| o.def().name().to_string())
}
/// The documented meaning, by the operation's name.
fn want_cx(op: &OpType) -> usize {
    (name(op).as_deref() == Some("CX")) as usize
}
fn want_rz(op: &OpType) -> usize {
    (name(op).as_deref() == Some("Rz")) as usize
}
fn want_q(op: &OpType) -> usize {
    const Q: &[&str] = &["H", "CX", "CY", "CZ", "CRz", "T", "Tdg", "S", "Sdg", "X", "Y", "Z", "Rx", "Ry", "Rz", "Toffoli", "V", "Vdg"];
    name(op).is_some_and(|n| Q.contains(&n.as_str())) as usize
}

pub fn run(seed: u64, n: usize) {
    let mut ops: Vec<(String, OpType)> = TketOp::iter().map(|o| (format!("{o:?}"), o.into())).collect();
    ops.extend(RotationOp::iter().map(|o| (format!("{o:?}"), o.into())));
    ops.extend(BoolOp::iter().map(|o| (format!("{o:?}"), o.into())));
    ops.extend(tket_qsystem::extension::qsystem::QSystemOp::iter().map(|o| (format!("qsystem.{o:?}"), o.into())));
    ops.push(("Tag".into(), Tag::new(0, vec![vec![].into(), vec![].into()]).into()));
    ops.push(("symbolic".into(), tket::symbolic_constant_op("a".into())));
    ops.push(("Const".into(), hugr::ops::Const::new(Value::true_val()).into()));
    ops.push(("QAllocTry".into(), TketOp::TryQAlloc.into()));
    for (nm, op) in &ops {
        let cx = LexicographicCostFunction::cx_count();
        let rz = LexicographicCostFunction::rz_count();
        let cxs = LexicographicCostFunction::default_cx_strategy();
        let d = LexicographicCostFunction::default().into_threshold_strategy();
        let g = GammaStrategyCost::exhaustive_cx();
        let g2 = GammaStrategyCost::exhaustive_cx_with_gamma(2.0);
        let L = |a: [usize; 2]| LexicographicCost::from(a);
        let checks: Vec<(&str, String, String)> = vec![
            ("is_cx", is_cx(op).to_string(), (want_cx(op) == 1).to_string()),
            ("is_quantum", is_quantum(op).to_string(), (want_q(op) == 1).to_string()),
            ("cx_count", format!("{:?}", StrategyCost::op_cost(&cx, op)), format!("{:?}", L([want_cx(op), want_q(op)]))),
            ("rz_count", format!("{:?}", StrategyCost::op_cost(&rz, op)), format!("{:?}", L([want_rz(op), want_q(op)]))),
            ("default_cx_strategy", format!("{:?}", RewriteStrategy::op_cost(&cxs, op)), format!("{:?}", L([want_cx(op), want_q(op)]))),
            ("default", format!("{:?}", RewriteStrategy::op_cost(&d, op)), format!("{:?}", L([want_cx(op), want_q(op)]))),
            ("gamma_cx", format!("{:?}", RewriteStrategy::op_cost(&g, op)), format!("{:?}", want_cx(op))),
            ("gamma_cx2", format!("{:?}", RewriteStrategy::op_cost(&g2, op)), format!("{:?}", want_cx(op))),
            ("greedy", format!("{:?}", RewriteStrategy::op_cost(&GreedyRewriteStrategy, op)), "1".to_string()),
        ];
        for (f, got, want) in checks {
            println!("{}", json!({"case": format!("op:{nm}/{f}"), "kind": "op", "got": got, "want": want}));
        }
    }
    // thresholds: a lexicographic rewrite is allowed iff the coarse cost does not increase,
    // a gamma rewrite iff target < gamma * pattern
    let cx = LexicographicCostFunction::cx_count();
    for a in 0..5usize {
        for b in 0..5usize {
            for c in 0..3usize {
                let got = cx.under_threshold(&LexicographicCost::from([a, c]), &LexicographicCost::from([b, 2 - c]));
                println!("{}", json!({"case": format!("threshold:lex {a},{c} -> {b},{}", 2 - c), "kind": "op", "got": got, "want": b <= a}));
            }
            for gamma in [0.5, 1.0, 1.0001, 1.5, 2.0] {
                let s = GammaStrategyCost { gamma, op_cost: |_: &OpType| 1usize };
                let got = s.under_threshold(&a, &b);
                println!("{}", json!({"case": format!("threshold:gamma {gamma} {a} -> {b}"), "kind": "op", "got": got, "want": (b as f64) < gamma * (a as f64)}));
            }
        }
    }
    let mut rng = Rng(seed ^ 0xC08);
    for i in 0..n {
        let mut cfg = Cfg::gates_only(1 + rng.below(4), rng.below(14));
        cfg.measure = rng.chance(1, 2);
        cfg.alloc = rng.chance(1, 3);
        cfg.barrier = rng.chance(1, 3);
        cfg.cond = rng.chance(1, 4);
        cfg.nested = rng.chance(1, 4);
        cfg.call = rng.chance(1, 4);
        let h = match program(&mut rng, &cfg) {
            Ok(h) => h,
            Err(e) => {
                println!("{}", json!({"case": format!("circuit:{seed}:{i}"), "kind": "circuit", "panic": es(e)}));
                continue;
            }
        };
        case(&format!("circuit:{seed}:{i}"), || {
            let circ = Circuit::new(&h);
            let kids: Vec<Node> = h.children(h.entrypoint()).collect();
            let want = |f: &dyn Fn(&OpType) -> usize| kids.iter().map(|&n| f(h.get_optype(n))).sum::<usize>();
            let all = h.nodes().filter(|&n| matches!(h.get_optype(n), OpType::ExtensionOp(_) | OpType::OpaqueOp(_))).filter(|&n| {
                let s = h.get_optype(n).to_string();
                !s.contains("MakeTuple") && !s.contains("UnpackTuple") && !s.contains("Noop")
            }).count();
            let cxs = LexicographicCostFunction::default_cx_strategy();
            let rzs = LexicographicCostFunction::rz_count().into_threshold_strategy();
            let g = GammaStrategyCost::exhaustive_cx();
            let got = format!("{:?} {:?} {} {} {:?}",
                cxs.circuit_cost(&circ), rzs.circuit_cost(&circ), g.circuit_cost(&circ), circ.num_operations(),
                circ.nodes_cost(kids.iter().copied(), |o| RewriteStrategy::op_cost(&rzs, o)));
            let (c, r, q) = (want(&want_cx), want(&want_rz), want(&want_q));
            let w = format!("[{c}, {q}] [{r}, {q}] {c} {all} [{r}, {q}]");
            let _ = h.get_optype(h.entrypoint()).tag();
            Ok(json!({"kind": "circuit", "got": got, "want": w, "ops": kids.len().saturating_sub(2)}))
        });
    }
}
