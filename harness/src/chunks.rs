//! C10: splitting a circuit into chunks and reassembling it.
use crate::pytket::lines;
use crate::util::*;
use hugr::hugr::hugrmut::HugrMut;
use hugr::ops::OpType;
use hugr::{Hugr, HugrView, Node, OutgoingPort, IncomingPort};
use hugr::envelope::EnvelopeConfig;
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::iter::Sum;
use std::num::NonZeroUsize;
use std::ops::{Add, AddAssign};
use tket::circuit::cost::{CircuitCost, CostDelta, LexicographicCost};
use tket::passes::CircuitChunks;
use tket::{Circuit, TketOp};

fn ops_of(c: &Circuit) -> Vec<String> {
    c.commands().map(|k| format!("{}", k.optype())).collect()
}

/// Each line: {case, prog, max, replace}.
pub fn run(file: &str) {
    for l in lines(file) {
        case(l["case"].as_str().unwrap(), || {
            let h = crate::prog::build(&l["prog"]).map_err(|e| format!("build: {e}"))?;
            let c = Circuit::new(h);
            let max = l["max"].as_u64().unwrap() as usize;
            let mut ch = CircuitChunks::split(&c, max);
            let sizes: Vec<usize> = ch.iter().map(|c| c.commands().count()).collect();
            let mut changed = vec![];
            let mode = l["replace"].as_str().unwrap_or("none").to_string();
            for (i, k) in ch.iter_mut().enumerate() {
                if l["only"].as_u64().is_some_and(|o| o as usize != i) {
                    continue;
                }
                changed.push(replace(k, &mode)?);
            }
            let r = ch.reassemble().map_err(|e| format!("reassemble: {e}"))?;
            let valid = r.hugr().validate().err().map(|e| e.to_string());
            Ok(json!({"before": dump(c.hugr()), "after": dump(r.hugr()), "valid": valid, "sizes": sizes, "changed": changed, "commands": ops_of(&c).len(),
                "name": [c.name(), r.name()], "sig": [format!("{}", c.circuit_signature()), format!("{}", r.circuit_signature())]}))
        });
    }
}

fn self_inverse(o: &OpType) -> bool {
    use TketOp::*;
    if let Ok(t) = <TketOp as hugr::extension::simple_op::MakeExtensionOp>::from_extension_op(match o.as_extension_op() {
        Some(x) => x,
        None => return false,
    }) {
        return matches!(t, H | X | Y | Z | CX | CZ | CY | Toffoli);
    }
    format!("{o}").ends_with("logic.Not")
}

/// The only consumer of an output.
fn only(h: &Hugr, n: Node, p: OutgoingPort) -> Option<(Node, IncomingPort)> {
    let v: Vec<_> = h.linked_inputs(n, p).collect();
    (v.len() == 1).then(|| v[0])
}

fn bypass(h: &mut Hugr, first: Node, last: Node, perm: &[usize]) {
    // output perm[i] of `last` carries what enters input i of `first`
    let srcs: Vec<_> = (0..perm.len()).map(|i| h.single_linked_output(first, i).unwrap()).collect();
    let tgts: Vec<Vec<_>> = perm.iter().map(|&o| h.linked_inputs(last, o).collect()).collect();
    for i in 0..perm.len() {
        h.disconnect(first, IncomingPort::from(i));
        h.disconnect(last, OutgoingPort::from(perm[i]));
    }
    for (s, ts) in srcs.into_iter().zip(tgts) {
        for t in ts {
            h.connect(s.0, s.1, t.0, t.1);
        }
    }
}

fn simplify(h: &mut Hugr) -> usize {
    let mut n = 0;
    'again: loop {
        let root = h.entrypoint();
        let nodes: Vec<Node> = h.children(root).collect();
        for &a in &nodes {
            let o = h.get_optype(a).clone();
            if !self_inverse(&o) {
                continue;
            }
            let k = h.out_value_types(a).count();
            let links: Option<Vec<_>> = (0..k).map(|i| only(h, a, i.into())).collect();
            let Some(links) = links else { continue };
            let b = links[0].0;
            if h.get_optype(b) != &o || links.iter().any(|l| l.0 != b) {
                continue;
            }
            let ports: Vec<usize> = links.iter().map(|l| hugr::PortIndex::index(l.1)).collect();
            if ports.iter().enumerate().all(|(i, p)| i == *p) {
                bypass(h, a, b, &ports);
                h.remove_node(a);
                h.remove_node(b);
                n += 1;
                continue 'again;
            }
            if format!("{o}").ends_with("CX") && ports == [1, 0] {
                let links2: Option<Vec<_>> = (0..2).map(|i| only(h, b, i.into())).collect();
                let Some(l2) = links2 else { continue };
                let d = l2[0].0;
                if h.get_optype(d) == &o && l2[1].0 == d && hugr::PortIndex::index(l2[0].1) == 1 {
                    bypass(h, a, d, &[1, 0]);
                    for x in [a, b, d] {
                        h.remove_node(x);
                    }
                    n += 1;
                    continue 'again;
                }
            }
        }
        return n;
    }
}

/// Replace a chunk by an equivalent circuit.
fn replace(c: &mut Circuit, mode: &str) -> Result<usize, String> {
    match mode {
        "none" => Ok(0),
        "reload" => {
            let s = c.hugr().store_str(EnvelopeConfig::text()).map_err(es)?;
            let h = Hugr::load_str(s, Some(&hugr::extension::ExtensionRegistry::new(crate::prog::extensions()))).map_err(es)?;
            *c = Circuit::new(h);
            Ok(1)
        }
        "simplify" => {
            let mut h = c.hugr().clone();
            let n = simplify(&mut h);
            *c = Circuit::new(h);
            Ok(n)
        }
        "pad" => {
            // X X on every qubit that enters the chunk, H H on every qubit that leaves it
            let mut h = c.hugr().clone();
            let root = h.entrypoint();
            let [inp, out] = h.get_io(root).unwrap();
            let mut n = 0;
            for (io, op) in [(inp, TketOp::X), (out, TketOp::H)] {
                let tys = if io == inp { h.out_value_types(inp).map(|(_, t)| t).collect::<Vec<_>>() } else { h.in_value_types(out).map(|(_, t)| t).collect::<Vec<_>>() };
                for (i, t) in tys.iter().enumerate() {
                    if *t != hugr::extension::prelude::qb_t() {
                        continue;
                    }
                    let (src, tgt) = if io == inp {
                        let t = h.single_linked_input(inp, i).unwrap();
                        ((inp, OutgoingPort::from(i)), t)
                    } else {
                        (h.single_linked_output(out, i).unwrap(), (out, IncomingPort::from(i)))
                    };
                    let a = h.add_node_with_parent(root, op);
                    let b = h.add_node_with_parent(root, op);
                    h.disconnect(tgt.0, tgt.1);
                    h.connect(src.0, src.1, a, 0);
                    h.connect(a, 0, b, 0);
                    h.connect(b, 0, tgt.0, tgt.1);
                    n += 1;
                }
            }
            *c = Circuit::new(h);
            Ok(n)
        }
        _ => Err(format!("mode {mode}")),
    }
}

// ---- symbolic costs ----

/// A non-negative combination of unknown costs.
#[derive(Debug, Clone, Default)]
struct SymCost(BTreeMap<u32, i64>);
#[derive(Debug, Clone, Default)]
struct SymDelta(BTreeMap<u32, i64>);

thread_local! {
    static PATH: RefCell<(Vec<u8>, usize, Vec<(BTreeMap<u32, i64>, &'static str)>)> = RefCell::new((vec![], 0, vec![]));
}

/// Decide how a difference compares with zero: every possible answer is explored.
fn fork(d: &BTreeMap<u32, i64>, exact: bool) -> Ordering {
    let d: BTreeMap<u32, i64> = d.iter().filter(|x| *x.1 != 0).map(|(a, b)| (*a, *b)).collect();
    if d.is_empty() {
        return Ordering::Equal;
    }
    PATH.with(|p| {
        let mut p = p.borrow_mut();
        let i = p.1;
        p.1 += 1;
        if p.0.len() <= i {
            p.0.push(0);
        }
        let (o, r) = match p.0[i] {
            0 => (Ordering::Less, "<"),
            // a cost given as an integer may lose information: zero says nothing
            1 => (Ordering::Equal, if exact { "=" } else { "?" }),
            _ => (Ordering::Greater, ">"),
        };
        p.2.push((d, r));
        o
    })
}
fn lin(a: &BTreeMap<u32, i64>, b: &BTreeMap<u32, i64>, k: i64) -> BTreeMap<u32, i64> {
    let mut r = a.clone();
    for (x, v) in b {
        *r.entry(*x).or_default() += k * v;
    }
    r
}
macro_rules! linear {
    ($t:ident) => {
        impl Add for $t {
            type Output = Self;
            fn add(self, o: Self) -> Self {
                $t(lin(&self.0, &o.0, 1))
            }
        }
        impl Sum for $t {
            fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
                i.fold(Self::default(), |a, b| a + b)
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &Self) -> Ordering {
                fork(&lin(&self.0, &o.0, -1), true)
            }
        }
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                self.cmp(o) == Ordering::Equal
            }
        }
        impl Eq for $t {}
    };
}
linear!(SymCost);
linear!(SymDelta);
impl AddAssign for SymDelta {
    fn add_assign(&mut self, o: Self) {
        self.0 = lin(&self.0, &o.0, 1);
    }
}
impl CostDelta for SymDelta {
    fn as_isize(&self) -> isize {
        match fork(&self.0, false) {
            Ordering::Less => -1,
            Ordering::Equal => 0,
            Ordering::Greater => 1,
        }
    }
}
impl CircuitCost for SymCost {
    type CostDelta = SymDelta;
    fn as_usize(&self) -> usize {
        panic!("undecided: the cost is used as an integer")
    }
    fn sub_cost(&self, o: &Self) -> SymDelta {
        SymDelta(lin(&self.0, &o.0, -1))
    }
    fn add_delta(&self, d: &SymDelta) -> Self {
        SymCost(lin(&self.0, &d.0, 1))
    }
    fn div_cost(&self, _: NonZeroUsize) -> Self {
        panic!("undecided: the cost is divided")
    }
}

fn chain(n: usize, wide: bool) -> Result<Circuit, String> {
    let body: Vec<J> = (0..n)
        .map(|i| {
            let (a, b) = if wide { (format!("{}{}", if i < 2 { "x" } else { "y" }, if i < 2 { i } else { i - 2 }), format!("y{i}")) } else { (if i == 0 { "x0".into() } else { format!("y{}", i - 1) }, format!("y{i}")) };
            let p = json!({"op": {"type": "noop", "params": [format!("v{i}")]}, "num_qubits": 1, "num_bits": 0, "num_params": 0, "param_inputs": []});
            json!([format!("tk1 {p}"), [a], [b]])
        })
        .collect();
    let prog = if wide {
        let o = |j: usize| (0..n).rev().find(|i| i % 2 == j).map(|i| format!("y{i}")).unwrap_or(format!("x{j}"));
        json!({"in": ["q", "q"], "out": [[o(0), "q"], [o(1), "q"]], "body": body})
    } else {
        json!({"in": ["q"], "out": [[if n == 0 { "x0".to_string() } else { format!("y{}", n - 1) }, "q"]], "body": body})
    };
    Ok(Circuit::new(crate::prog::build(&prog)?))
}
fn id_of(o: &OpType) -> u32 {
    let s = format!("{o:?}");
    let i = s.find("v").and_then(|_| {
        let re: Vec<_> = s.match_indices("\\\"v").collect();
        re.first().map(|x| s[x.0 + 3..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>())
    });
    i.and_then(|x| x.parse().ok()).unwrap_or_else(|| panic!("operation {s}"))
}

/// For every number of operations up to `n`: all paths of the splitting with unknown costs.
pub fn cost(n: usize) {
    for (k, wide) in (0..=n).flat_map(|k| [(k, false), (k, true)]) {
        let c = chain(k, wide).unwrap();
        let mut prefix: Vec<u8> = vec![];
        let mut idx = 0;
        loop {
            PATH.with(|p| *p.borrow_mut() = (prefix.clone(), 0, vec![]));
            case(&format!("{}{k}:{idx}", if wide { "two-qubits" } else { "chain" }), || {
                let ch = CircuitChunks::split_with_cost(&c, SymCost([(1000, 1)].into()), |o| SymCost([(id_of(o), 1)].into()));
                let v: Vec<Vec<u32>> = ch.iter().map(|c| c.commands().map(|k| id_of(k.optype())).collect()).collect();
                Ok(json!({"chunks": v}))
            });
            let (taken, used, cons) = PATH.with(|p| p.borrow().clone());
            println!("{}", json!({"path": idx, "n": k, "wide": wide, "cons": cons.iter().map(|(d, r)| json!([d.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>(), r])).collect::<Vec<_>>()}));
            idx += 1;
            prefix = taken[..used].to_vec();
            while prefix.last() == Some(&2) {
                prefix.pop();
            }
            match prefix.last_mut() {
                Some(x) => *x += 1,
                None => break,
            }
            if idx > 20000 {
                panic!("paths");
            }
        }
    }
    // concrete costs, for failing inputs
    for k in 1..=3usize {
        let c = chain(k, false).unwrap();
        for x in 0..4usize.pow(k as u32 + 1) {
            let d = |i: usize| x / 4usize.pow(i as u32) % 4;
            let m = d(k);
            case(&format!("usize:{k}:{x}"), || {
                let ch = CircuitChunks::split_with_cost(&c, m, |o| d(id_of(o) as usize));
                let v: Vec<Vec<usize>> = ch.iter().map(|c| c.commands().map(|k| d(id_of(k.optype()) as usize)).collect()).collect();
                let bad = v.iter().any(|c| c.len() > 1 && c.iter().sum::<usize>() > m);
                Ok(json!({"concrete": v, "max": m, "bad": bad}))
            });
            let l = |i: usize| LexicographicCost::<usize, 2>::from([d(i) / 2, d(i) % 2]);
            case(&format!("lex:{k}:{x}"), || {
                let ch = CircuitChunks::split_with_cost(&c, l(k), |o| l(id_of(o) as usize));
                let v: Vec<Vec<LexicographicCost<usize, 2>>> = ch.iter().map(|c| c.commands().map(|k| l(id_of(k.optype()) as usize)).collect()).collect();
                let bad = v.iter().any(|c| c.len() > 1 && c.iter().cloned().sum::<LexicographicCost<usize, 2>>() > l(k));
                Ok(json!({"concrete": format!("{v:?}"), "max": format!("{:?}", l(k)), "bad": bad}))
            });
        }
    }
}
