//! C14: resource scopes and the intervals on them, against the links of the graph.
use crate::pytket::lines;
use crate::util::*;
use hugr::ops::OpTrait;
use hugr::{Direction, Hugr, HugrView, IncomingPort, Node, OutgoingPort, Port, PortIndex, Wire};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use tket::resource::{CircuitUnit, ResourceId, ResourceScope};
#[cfg(tket_verif)]
use tket::subcircuit::{Interval, InvalidInterval};
use tket::Circuit;

/// Each line: {case, prog, sub?: seed}. With `sub`, the scope of a random convex part.
pub fn run(file: &str) {
    for l in lines(file) {
        case(l["case"].as_str().unwrap(), || {
            let h = crate::prog::build(&l["prog"]).map_err(|e| format!("build: {e}"))?;
            let c = Circuit::new(h);
            let mut bad = vec![];
            let mut n = 0;
            let sc = ResourceScope::from_circuit_ref(&c);
            check(&c, &sc, &mut bad, &mut n);
            if let Some(s) = l["sub"].as_u64() {
                let mut rng = Rng(s);
                for _ in 0..3 {
                    // a run of the operations in topological order is convex
                    let all: Vec<Node> = c.commands().map(|k| k.node()).collect();
                    if all.is_empty() {
                        break;
                    }
                    let i = rng.below(all.len());
                    let j = i + 1 + rng.below(all.len() - i);
                    let part = all[i..j].to_vec();
                    if let Ok(sg) = hugr::hugr::views::SiblingSubgraph::try_from_nodes(part, c.hugr()) {
                        let sc = ResourceScope::new(c.hugr(), sg);
                        check(&c, &sc, &mut bad, &mut n);
                    }
                }
            }
            bad.truncate(5);
            Ok(json!({"bad": bad, "checks": n, "nodes": sc.nodes().len()}))
        });
    }
}

fn preserving(i: &[hugr::types::Type], o: &[hugr::types::Type]) -> bool {
    (0..i.len().max(o.len())).all(|k| match (i.get(k), o.get(k)) {
        (Some(a), Some(b)) => (a.copyable() && b.copyable()) || a == b,
        (Some(a), None) | (None, Some(a)) => a.copyable(),
        _ => true,
    })
}

fn check(c: &Circuit, sc: &ResourceScope<&Hugr>, bad: &mut Vec<String>, n: &mut usize) {
    let h = c.hugr();
    let nodes: Vec<Node> = sc.nodes().to_vec();
    let inside: BTreeSet<Node> = nodes.iter().copied().collect();
    macro_rules! req {
        ($c:expr, $($m:tt)*) => {{ *n += 1; if !$c { bad.push(format!($($m)*)); } }};
    }
    let sig = |v: Node| h.get_optype(v).dataflow_signature();
    // ports and their resources; the paths by following the links
    let mut rid: BTreeMap<(Node, Port), ResourceId> = BTreeMap::new();
    for &v in &nodes {
        let Some(s) = sig(v) else { continue };
        req!(sc.get_position(v).is_some(), "{v} has no position");
        let ports = s.input_ports().map(Port::from).chain(s.output_ports().map(Port::from));
        for p in ports {
            let lin = !s.port_type(p).unwrap().copyable();
            let u = sc.get_circuit_unit(v, p);
            match u {
                Some(CircuitUnit::Resource(r)) => {
                    req!(lin, "{v} {p:?}: copyable value with a resource");
                    req!(sc.get_resource_id(v, p) == Some(r), "{v} {p:?}: get_resource_id");
                    rid.insert((v, p), r);
                }
                Some(CircuitUnit::Copyable(w)) => {
                    req!(!lin, "{v} {p:?}: linear value without a resource");
                    let want = match p.direction() {
                        Direction::Outgoing => Wire::new(v, p.as_outgoing().unwrap()),
                        Direction::Incoming => {
                            let (a, b) = h.single_linked_output(v, p.as_incoming().unwrap()).unwrap();
                            Wire::new(a, b)
                        }
                    };
                    req!(w == want, "{v} {p:?}: copyable wire {w} instead of {want}");
                    req!(sc.get_resource_id(v, p).is_none(), "{v} {p:?}: a copyable value has a resource id");
                }
                None => req!(false, "{v} {p:?}: no unit"),
            }
        }
        // the flow through the operation
        let (i, o) = (s.input_types().to_vec(), s.output_types().to_vec());
        let keep = preserving(&i, &o);
        for k in 0..o.len() {
            if o[k].copyable() {
                continue;
            }
            let out = rid.get(&(v, OutgoingPort::from(k).into())).copied();
            let ins: Vec<_> = (0..i.len()).filter_map(|j| rid.get(&(v, IncomingPort::from(j).into())).copied()).collect();
            if keep {
                req!(out == rid.get(&(v, IncomingPort::from(k).into())).copied(), "{v}: output {k} is not the resource of input {k}");
            } else {
                req!(out.is_none_or(|r| !ins.contains(&r)), "{v}: output {k} of an operation that does not preserve resources");
            }
        }
        // along the links
        for p in s.output_ports() {
            for (t, q) in h.linked_inputs(v, p) {
                if !inside.contains(&t) || sig(t).is_none() {
                    continue;
                }
                req!(sc.get_circuit_unit(v, p) == sc.get_circuit_unit(t, q), "{v} {p:?} -> {t} {q:?}: another unit");
                req!(sc.get_position(v) < sc.get_position(t), "{v} -> {t}: positions do not increase");
            }
        }
        // listing
        for d in Direction::BOTH {
            let want: Vec<ResourceId> = h.node_ports(v, d).filter_map(|p| rid.get(&(v, p)).copied()).collect();
            let got: Vec<ResourceId> = sc.get_resources(v, d).collect();
            req!(got == want, "{v}: resources {got:?} instead of {want:?}");
            let cw = sc.get_copyable_wires(v, d).count();
            let all = if d == Direction::Incoming { s.input_count() } else { s.output_count() };
            req!(cw + want.len() == all, "{v}: {cw} copyable wires");
        }
    }
    // one resource, one path
    let mut ends: BTreeMap<ResourceId, Vec<(Node, Port)>> = BTreeMap::new();
    for (k, r) in &rid {
        ends.entry(*r).or_default().push(*k);
    }
    let listed: Vec<ResourceId> = sc.resources_iter().collect();
    req!(listed == ends.keys().copied().collect::<Vec<_>>(), "resources {listed:?}");
    for (&r, ps) in &ends {
        let mut at: BTreeMap<Node, [Option<Port>; 2]> = BTreeMap::new();
        for &(v, p) in ps {
            let e = at.entry(v).or_default();
            let d = (p.direction() == Direction::Outgoing) as usize;
            req!(e[d].is_none(), "{r:?} twice on {v}");
            e[d] = Some(p);
        }
        // the first node: nothing before it inside
        let prev = |v: Node| at[&v][0].and_then(|p| h.single_linked_output(v, p.as_incoming().unwrap())).filter(|x| at.contains_key(&x.0));
        let next = |v: Node| at[&v][1].and_then(|p| h.single_linked_input(v, p.as_outgoing().unwrap())).filter(|x| at.contains_key(&x.0));
        let firsts: Vec<Node> = at.keys().copied().filter(|&v| prev(v).is_none()).collect();
        req!(firsts.len() == 1, "{r:?}: {} beginnings", firsts.len());
        let Some(&f) = firsts.first() else { continue };
        let mut path = vec![f];
        while let Some((v, _)) = next(*path.last().unwrap()) {
            path.push(v);
            if path.len() > nodes.len() {
                break;
            }
        }
        req!(path.len() == at.len(), "{r:?}: not one path");
        for (i, &v) in path.iter().enumerate() {
            for d in Direction::BOTH {
                let want = at[&v][(d == Direction::Outgoing) as usize];
                req!(sc.get_port(v, r, d) == want, "{v} {r:?} {d:?}: port {:?} instead of {want:?}", sc.get_port(v, r, d));
            }
            let fwd: Vec<Node> = sc.resource_path_iter(r, v, Direction::Outgoing).collect();
            req!(fwd == path[i..], "{r:?} from {v}: {fwd:?}");
            let bwd: Vec<Node> = sc.resource_path_iter(r, v, Direction::Incoming).collect();
            req!(bwd == path[..=i].iter().rev().copied().collect::<Vec<_>>(), "{r:?} back from {v}: {bwd:?}");
            req!(sc.is_resource_start(v, r) == (at[&v][0].is_none() && at[&v][1].is_some()), "{v} {r:?}: is_resource_start");
        }
        for &v in nodes.iter().filter(|v| !at.contains_key(v)) {
            req!(!sc.is_resource_start(v, r) && sc.get_port(v, r, Direction::Incoming).is_none() && sc.get_port(v, r, Direction::Outgoing).is_none(), "{v} is not on {r:?}");
        }
        intervals(sc, r, &path, &nodes, bad, n);
    }
    // reachability inside
    for &a in nodes.iter().take(6) {
        for &b in nodes.iter().take(6) {
            let mut seen = BTreeSet::new();
            let mut todo: Vec<Node> = h.node_outputs(a).filter(|p| sig(a).is_some_and(|s| p.index() < s.output_count())).flat_map(|p| h.linked_inputs(a, p).map(|x| x.0).collect::<Vec<_>>()).filter(|x| inside.contains(x)).collect();
            while let Some(x) = todo.pop() {
                if seen.insert(x) {
                    todo.extend(h.output_neighbours(x).filter(|x| inside.contains(x)));
                }
            }
            let (Some(sa), Some(sb)) = (sig(a), sig(b)) else { continue };
            let got = sc.any_reachable_from(sa.output_ports().map(|p| (a, p)), sb.input_ports().map(|p| (b, p)));
            // several ends: any of them
            for &e in nodes.iter().rev().take(4) {
                let Some(se) = sig(e) else { continue };
                if sb.input_count() == 0 || se.input_count() == 0 {
                    continue;
                }
                let got = sc.any_reachable_from(sa.output_ports().map(|p| (a, p)), sb.input_ports().map(|p| (b, p)).chain(se.input_ports().map(|p| (e, p))));
                req!(got == (seen.contains(&b) || seen.contains(&e)), "{b} or {e} reachable from {a}: {got}");
            }
            if sb.input_count() > 0 {
                req!(got == seen.contains(&b), "{b} reachable from {a}: {got}");
            }
        }
    }
}

#[cfg(not(tket_verif))]
fn intervals(_: &ResourceScope<&Hugr>, _: ResourceId, _: &[Node], _: &[Node], _: &mut Vec<String>, _: &mut usize) {}

#[cfg(tket_verif)]
fn intervals(sc: &ResourceScope<&Hugr>, r: ResourceId, path: &[Node], nodes: &[Node], bad: &mut Vec<String>, n: &mut usize) {
    macro_rules! req {
        ($c:expr, $($m:tt)*) => {{ *n += 1; if !$c { bad.push(format!($($m)*)); } }};
    }
    let run = |iv: &Interval<Node>, i: usize, j: usize| {
        let ns: Vec<Node> = sc.nodes_in_interval(*iv).collect();
        let w = |i: usize, d| sc.get_port(path[i], r, d).map(|p| (path[i], p));
        let shape = match *iv {
            Interval::Singleton { start_or_end: (v, p) } => i == j && v == path[i] && sc.get_resource_id(v, p) == Some(r),
            Interval::Span { start, end } => i < j && start.0 == path[i] && end.0 == path[j] && sc.get_resource_id(start.0, start.1) == Some(r) && sc.get_resource_id(end.0, end.1) == Some(r),
        };
        shape && ns == path[i..=j] && iv.resource_id(sc) == r && iv.start_node() == path[i] && iv.end_node() == path[j]
            && iv.boundary_port(Direction::Incoming, sc) == w(i, Direction::Incoming)
            && iv.boundary_port(Direction::Outgoing, sc) == w(j, Direction::Outgoing)
            && iv.incoming_boundary_port(sc).map(|(a, b)| (a, Port::from(b))) == w(i, Direction::Incoming)
            && iv.outgoing_boundary_port(sc).map(|(a, b)| (a, Port::from(b))) == w(j, Direction::Outgoing)
    };
    let idx = |v: Node| path.iter().position(|&x| x == v);
    for &a in nodes {
        req!(Interval::new_singleton(r, a, sc).is_some() == idx(a).is_some(), "{r:?}: singleton {a}");
        for &b in nodes {
            let got = Interval::try_new(r, a, b, sc);
            match (idx(a), idx(b)) {
                (Some(i), Some(j)) if i <= j => {
                    let Ok(iv) = got else {
                        req!(false, "{r:?}: interval {a}..{b} is refused");
                        continue;
                    };
                    req!(run(&iv, i, j), "{r:?}: interval {a}..{b} is {iv:?}");
                    let mut starts = vec![iv];
                    if i == j {
                        // either port stands for the node
                        starts.extend(Direction::BOTH.iter().filter_map(|&d| sc.get_port(a, r, d)).map(|p| Interval::Singleton { start_or_end: (a, p) }));
                    }
                    for iv in starts {
                        for &c in nodes {
                            let mut e = iv;
                            let res = e.try_extend(c, sc);
                            let ok = match idx(c) {
                                Some(k) if k >= i && k <= j => res == Ok(None) && e == iv,
                                Some(k) if k + 1 == i => res == Ok(Some(Direction::Incoming)) && run(&e, k, j),
                                Some(k) if k == j + 1 => res == Ok(Some(Direction::Outgoing)) && run(&e, i, k),
                                _ => res.is_err() && e == iv,
                            };
                            req!(ok, "{r:?}: {a}..{b} extended by {c}: {res:?} {e:?}");
                        }
                    }
                }
                _ => req!(got.is_err(), "{r:?}: interval {a}..{b} is accepted"),
            }
        }
    }
}
