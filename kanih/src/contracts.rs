use super::*;
use crate::stubs::hugr::ops::OpType as Op;
use crate::stubs::hugr::{Graph, NodeData, OutgoingPort};
use crate::stubs::reset;
use crate::Src;

const NONE: NodeData = NodeData { op: Op::Const(crate::stubs::hugr::ops::Other { text: 0 }), inputs: 0, links: [[None; 2]; 3] };
/// predecessors inside the region, outside of it; the two nodes
const PREDS: usize = 2;
const A: Node = Node(6);
const B: Node = Node(7);

fn link(s: &mut impl Src) -> (Node, OutgoingPort) {
    let [n, p] = s.bytes::<2>();
    s.assume((n as usize) < 2 * PREDS);
    (Node(n), OutgoingPort(p as u16))
}

fn base(s: &mut impl Src) -> (Graph, HashState) {
    reset();
    let mut g = Graph { nodes: [NONE; 8], io: None, topo: vec![] };
    let mut st = HashState::default();
    let mut i = 0;
    while i < PREDS {
        let [h] = s.bytes::<1>();
        st.set_hash(Node(i as u8), h as u64);
        g.nodes[PREDS + i].op = Op::source(s);
        i += 1;
    }
    (g, st)
}

/// What an input is connected to.
fn same(g: &Graph, st: &HashState, a: (Node, OutgoingPort), b: (Node, OutgoingPort)) -> bool {
    a.1 == b.1
        && match (st.node_hash(a.0), st.node_hash(b.0)) {
            (Some(x), Some(y)) => x == y,
            (None, None) => g.nodes[a.0 .0 as usize].op == g.nodes[b.0 .0 as usize].op,
            _ => false,
        }
}

fn compare(g: Graph, mut st: HashState, eq: bool) {
    let ha = hash_node(&g, A, &mut st).unwrap();
    let hb = hash_node(&g, B, &mut st).unwrap();
    if eq {
        assert!(ha == hb, "the same operation on the same values has the same hash");
    } else {
        assert!(ha != hb, "another operation, or other values, have another hash");
    }
}

/// Two leaves have the same hash exactly if they are the same operation...
pub fn apart_ops(s: &mut impl Src) {
    let (mut g, st) = base(s);
    g.nodes[6].op = Op::any(s);
    g.nodes[7].op = Op::any(s);
    let mut i = 6;
    while i < 8 {
        g.nodes[i].inputs = 1;
        g.nodes[i].links[0][0] = Some((Node(0), OutgoingPort(0)));
        i += 1;
    }
    // (an operation that is not resolved yet may count as the operation it stands for)
    s.assume(matches!(g.nodes[6].op, Op::OpaqueOp(_)) == matches!(g.nodes[7].op, Op::OpaqueOp(_)));
    let eq = g.nodes[6].op == g.nodes[7].op;
    compare(g, st, eq)
}

/// ... on the same number of values ...
pub fn apart_arity(s: &mut impl Src, n: usize) {
    let (mut g, st) = base(s);
    let (x, y) = (link(s), link(s));
    let mut i = 6;
    while i < 8 {
        g.nodes[i].inputs = 2;
        g.nodes[i].links[0][0] = Some(x);
        g.nodes[i].links[1][0] = Some(y);
        i += 1;
    }
    g.nodes[7].inputs = n;
    compare(g, st, false)
}

/// ... which are the same ones: the same port of a node with the same hash, or of the same thing outside.
pub fn apart_values(s: &mut impl Src) {
    let (mut g, st) = base(s);
    let (x, y, z, t) = (link(s), link(s), link(s), link(s));
    g.nodes[6].inputs = 2;
    g.nodes[7] = g.nodes[6];
    g.nodes[6].links[0][0] = Some(x);
    g.nodes[6].links[1][0] = Some(y);
    g.nodes[7].links[0][0] = Some(z);
    g.nodes[7].links[1][0] = Some(t);
    let eq = same(&g, &st, x, z) && same(&g, &st, y, t);
    compare(g, st, eq)
}

/// The links of a port have no order.
pub fn links(s: &mut impl Src) {
    let (mut g, mut st) = base(s);
    let (x, y, z) = (link(s), link(s), link(s));
    g.nodes[6].op = Op::any(s);
    g.nodes[6].inputs = 2;
    g.nodes[7] = g.nodes[6];
    g.nodes[6].links[1] = [Some(x), Some(y)];
    g.nodes[7].links[1] = [Some(y), Some(x)];
    g.nodes[6].links[0] = [Some(z), None];
    g.nodes[7].links[0] = [None, Some(z)];
    let ha = hash_node(&g, A, &mut st).unwrap();
    let hb = hash_node(&g, B, &mut st).unwrap();
    assert!(ha == hb, "the links of a port have no order");
}

/// Input, two operations, output, under a numbering.
fn diamond(x: u8, topo: [u8; 4], texts: [u8; 2], ports: [u8; 2], out: [u8; 2]) -> Graph {
    use crate::stubs::hugr::ops::Other;
    let n = |i: u8| Node(i ^ x);
    let mut g = Graph { nodes: [NONE; 8], io: Some([n(0), n(3)]), topo: vec![topo[0] ^ x, topo[1] ^ x, topo[2] ^ x, topo[3] ^ x] };
    g.nodes[n(0).0 as usize].op = Op::Input(Other { text: 0 });
    let mut i = 0;
    while i < 2 {
        let d = &mut g.nodes[n(1 + i as u8).0 as usize];
        d.op = Op::Const(Other { text: texts[i] });
        d.inputs = 1;
        d.links[0][0] = Some((n(0), OutgoingPort(ports[i] as u16)));
        i += 1;
    }
    let d = &mut g.nodes[n(3).0 as usize];
    d.op = Op::Output(Other { text: 0 });
    d.inputs = 2;
    d.links[0][0] = Some((n(1 + out[0]), OutgoingPort(0)));
    d.links[1][0] = Some((n(1 + out[1]), OutgoingPort(0)));
    g
}

/// The hash of a region does not depend on the order or the numbers of its nodes.
pub fn region(s: &mut impl Src, x: u8) {
    reset();
    let [p, q, y] = s.bytes::<3>();
    let g1 = diamond(0, [0, 1, 2, 3], [p, q], [0, 1], [0, 1]);
    let g2 = diamond(x, [0, 2, 1, 3], [p, q], [0, 1], [0, 1]);
    let h1 = g1.circuit_hash(Node(y % 8)).unwrap();
    let h2 = Circuit(g2).circuit_hash(Node(y % 8)).unwrap();
    assert!(h1 == h2, "neither the order of the nodes nor their numbers matter");
}

/// It tells apart the operations, what they work on, and what becomes of their results.
pub fn region_apart(s: &mut impl Src) {
    reset();
    let [p, q, k, o] = s.bytes::<4>();
    s.assume(k < 2 && o < 2);
    let g1 = diamond(0, [0, 1, 2, 3], [1, 2], [0, 1], [0, 1]);
    let g2 = diamond(0, [0, 1, 2, 3], [p, q], [k, 1 - k], [o, 1 - o]);
    let eq = if o == 0 { p == 1 && q == 2 && k == 0 } else { p == 2 && q == 1 && k == 1 };
    let h1 = g1.circuit_hash(Node(0)).unwrap();
    let h2 = g2.circuit_hash(Node(0)).unwrap();
    assert!((h1 == h2) == eq, "circuits are told apart by their operations, operands and outputs");
}

pub fn errors(s: &mut impl Src) {
    reset();
    let [x] = s.bytes::<1>();
    let mut g = Graph { nodes: [NONE; 8], io: None, topo: vec![0] };
    assert!(matches!(g.circuit_hash(Node(x % 8)), Err(HashError::NotADfg)), "not a dataflow region");
    g.io = Some([Node(0), Node(1)]);
    assert!(matches!(g.circuit_hash(Node(x % 8)), Err(HashError::CyclicCircuit)), "a cycle above the output");
}
