//! C13: the hash of a circuit under other insertion orders and node indices.
use crate::pytket::lines;
use crate::util::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::DataflowOpTrait;
use hugr::{Direction, Hugr, HugrView, Node, PortIndex};
use serde_json::json;
use tket::circuit::CircuitHash;
use tket::Circuit;

/// Put a fresh copy of a leaf in its place: another index, another place among its siblings.
fn renew(h: &mut Hugr, n: Node) {
    let (op, p) = (h.get_optype(n).clone(), h.get_parent(n).unwrap());
    let ends: Vec<_> = Direction::BOTH.iter().flat_map(|&d| h.node_ports(n, d).collect::<Vec<_>>()).flat_map(|q| h.linked_ports(n, q).map(move |x| (q, x)).collect::<Vec<_>>()).collect();
    let m = h.add_node_with_parent(p, op);
    let own: Vec<_> = Direction::BOTH.iter().flat_map(|&d| h.node_ports(n, d).collect::<Vec<_>>()).collect();
    for k in own {
        h.disconnect(n, k);
    }
    for (q, (o, r)) in ends {
        match q.direction() {
            Direction::Incoming => h.connect(o, r.as_outgoing().unwrap(), m, q.as_incoming().unwrap()),
            Direction::Outgoing => h.connect(m, q.as_outgoing().unwrap(), o, r.as_incoming().unwrap()),
        }
    }
    h.remove_node(n);
}

fn shuffled(h: &Hugr, rng: &mut Rng) -> Hugr {
    let mut h = h.clone();
    // holes, so that indices are used again in another order
    let junk: Vec<Node> = (0..rng.below(4)).map(|_| h.add_node_with_parent(h.module_root(), hugr::ops::FuncDefn::new("junk", hugr::types::Signature::new_endo(vec![]))))
        .collect();
    let mut ns: Vec<Node> = h.descendants(h.module_root()).filter(|&n| {
        let op = h.get_optype(n);
        h.children(n).next().is_none() && !junk.contains(&n) && h.get_parent(n).is_some() && !matches!(op, hugr::ops::OpType::Input(_) | hugr::ops::OpType::Output(_) | hugr::ops::OpType::FuncDecl(_) | hugr::ops::OpType::Module(_))
    }).collect();
    for i in (1..ns.len()).rev() {
        ns.swap(i, rng.below(i + 1));
    }
    let cut = junk.len() / 2;
    for (i, j) in junk.into_iter().enumerate() {
        if i < cut || ns.len() < 2 {
            h.remove_node(j);
        } else {
            renew(&mut h, ns.pop().unwrap());
            h.remove_node(j);
        }
    }
    for n in ns {
        renew(&mut h, n);
    }
    h
}

pub fn run(file: &str, copies: usize) {
    for (k, l) in lines(file).into_iter().enumerate() {
        case(l["case"].as_str().unwrap(), || {
            let h = crate::prog::build(&l["prog"]).map_err(|e| format!("build: {e}"))?;
            let c = Circuit::new(h.clone());
            let hash = |h: &Hugr| match h.circuit_hash(h.entrypoint()) {
                Ok(x) => format!("{x:016x}"),
                Err(e) => format!("error: {e:?}"),
            };
            let a = hash(&h);
            let mut bad = vec![];
            if hash(c.hugr()) != a || c.circuit_hash(c.parent()).ok().map(|x| format!("{x:016x}")).unwrap_or_default() != if a.starts_with('e') && a.len() != 16 { String::new() } else { a.clone() } {
                bad.push("the hash of the circuit is not that of its region".to_string());
            }
            let mut rng = Rng(k as u64 * 977 + 13);
            let mut orders = std::collections::BTreeSet::new();
            for i in 0..copies {
                let s = shuffled(&h, &mut rng);
                if let Err(e) = s.validate() {
                    return Err(format!("build: the copy is invalid: {e}"));
                }
                orders.insert(s.children(s.entrypoint()).map(|n| n.to_string()).collect::<Vec<_>>());
                let b = hash(&s);
                if a != b {
                    bad.push(format!("copy {i} has the hash {b}, the original {a}"));
                    break;
                }
            }
            Ok(json!({"hash": a, "bad": bad, "orders": orders.len()}))
        });
    }
}

/// A region with one operation, for every operation without parameters.
pub fn ops() {
    use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
    for e in crate::prog::extensions() {
        for (name, _) in e.operations() {
            case(&format!("{}.{name}", e.name()), || {
                let Ok(op) = e.instantiate_extension_op(name, []) else { return Ok(json!({"skip": true})) };
                let sig = op.signature().into_owned();
                let mut b = FunctionBuilder::new("main", sig.clone()).map_err(es)?;
                let n = b.add_dataflow_op(op, b.input_wires().collect::<Vec<_>>()).map_err(es)?;
                let h = b.finish_hugr_with_outputs(n.outputs()).map_err(es)?;
                Ok(json!({"hash": format!("{:016x}", h.circuit_hash(h.entrypoint()).map_err(es)?), "sig": format!("{sig}"), "outputs": sig.output_count()}))
            });
        }
    }
}
