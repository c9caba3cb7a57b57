//! The contracts. An arbitrary scope, an arbitrary interval of it, one operation.
use crate::resource::*;
use crate::subcircuit::interval::*;
use crate::Src;
use hugr::{Direction, IncomingPort, OutgoingPort, Port};

type S = ResourceScope<Graph>;

fn node(s: &mut impl Src) -> Node {
    let [x] = s.bytes::<1>();
    s.assume(x < 8);
    Node(x)
}

/// The interval is the run of path nodes i..=j and its ports are the resource's.
fn is_run(iv: &Interval<Node>, g: &Graph, i: usize, j: usize) {
    assert!(iv.start_node() == g.node(i) && iv.end_node() == g.node(j), "the interval runs between its ends");
    match *iv {
        Interval::Singleton { start_or_end: (n, p) } => {
            assert!(i == j, "one node");
            assert!(n == g.node(i) && g.port(i, p.direction()) == Some(p), "the port is on the path");
        }
        Interval::Span { start, end } => {
            assert!(i != j, "more than one node");
            assert!(g.port(i, Direction::Outgoing) == Some(start.1.into()), "the start port is on the path");
            assert!(g.port(j, Direction::Incoming) == Some(end.1.into()), "the end port is on the path");
        }
    }
}

/// Any valid interval: i..=j.
fn any(s: &mut impl Src, g: &Graph) -> (Interval<Node>, usize, usize) {
    let [i, j, d] = s.bytes::<3>();
    let (i, j) = (i as usize, j as usize);
    s.assume(i <= j && j < g.len);
    if i == j {
        let d = if d & 1 == 1 { Direction::Incoming } else { Direction::Outgoing };
        let p = g.port(i, d);
        s.assume(p.is_some());
        return (Interval::Singleton { start_or_end: (g.node(i), p.unwrap()) }, i, j);
    }
    let start = (g.node(i), g.port(i, Direction::Outgoing).unwrap().as_outgoing().unwrap());
    let end = (g.node(j), g.port(j, Direction::Incoming).unwrap().as_incoming().unwrap());
    (Interval::Span { start, end }, i, j)
}

pub fn singleton(s: &mut impl Src) {
    let sc = S::any(s);
    let n = node(s);
    let i = sc.0.at(n);
    let on = i < sc.0.len && (sc.0.len > 1 || sc.0.ends[0] || sc.0.ends[1]);
    match Interval::new_singleton(R, n, &sc) {
        Some(iv) => {
            assert!(on, "only nodes on the path");
            is_run(&iv, &sc.0, i, i);
            assert!(iv.resource_id(&sc) == R);
        }
        None => assert!(!on, "every node on the path"),
    }
}

pub fn try_new(s: &mut impl Src) {
    let sc = S::any(s);
    s.assume(sc.0.len > 1 || sc.0.ends[0] || sc.0.ends[1]);
    let (a, b) = (node(s), node(s));
    let (i, j) = (sc.0.at(a), sc.0.at(b));
    let ok = i <= j && j < sc.0.len;
    match Interval::try_new(R, a, b, &sc) {
        Ok(iv) => {
            assert!(ok, "only runs of path nodes, in order");
            is_run(&iv, &sc.0, i, j);
            assert!(iv.resource_id(&sc) == R);
        }
        Err(_) => assert!(!ok, "every run of path nodes"),
    }
}

pub fn extend(s: &mut impl Src) {
    let sc = S::any(s);
    let g = &sc.0;
    let (mut iv, i, j) = any(s, g);
    let n = node(s);
    let k = g.at(n);
    let old = iv;
    let r = iv.try_extend(n, &sc);
    if k >= i && k <= j {
        assert!(r == Ok(None), "a node inside changes nothing");
        assert!(iv == old);
    } else if k < g.len && k + 1 == i {
        assert!(r == Ok(Some(Direction::Incoming)), "the node just before is added");
        is_run(&iv, g, k, j);
    } else if k < g.len && k == j + 1 {
        assert!(r == Ok(Some(Direction::Outgoing)), "the node just after is added");
        is_run(&iv, g, i, k);
    } else {
        assert!(r.is_err(), "any other node is refused");
        assert!(iv == old, "a refused extension changes nothing");
    }
}

pub fn boundary(s: &mut impl Src) {
    let sc = S::any(s);
    let g = &sc.0;
    let (iv, i, j) = any(s, g);
    let w = |i: usize, d| g.port(i, d).map(|p| (g.node(i), p));
    let (wi, wo) = (w(i, Direction::Incoming), w(j, Direction::Outgoing));
    assert!(iv.boundary_port(Direction::Incoming, &sc) == wi, "the port where the path enters the first node");
    assert!(iv.boundary_port(Direction::Outgoing, &sc) == wo, "the port where the path leaves the last node");
    assert!(iv.incoming_boundary_port(&sc).map(|(n, p)| (n, Port::from(p))) == wi);
    assert!(iv.outgoing_boundary_port(&sc).map(|(n, p)| (n, Port::from(p))) == wo);
    assert!(iv.resource_id(&sc) == R, "the resource of the path");
}

pub fn nodes(s: &mut impl Src) {
    let sc = S::any(s);
    let g = &sc.0;
    let (iv, i, j) = any(s, g);
    let mut k = i;
    for n in sc.nodes_in_interval(iv) {
        assert!(k <= j, "no more nodes");
        assert!(n == g.node(k), "the nodes of the run, in order");
        k += 1;
    }
    assert!(k == j + 1, "all nodes of the run");
}
