//! The contract of a resource scope, for one resource path and any nodes beside it:
//! the path's nodes are linked in order by the resource's ports, positions increase along it.
use crate::Src;
use hugr::{core::HugrNode, Direction, HugrView, Port};

/// Nodes: 0..8 up to a renaming (`xor`), so that the order of their numbers says nothing.
pub const N: usize = 8;
/// The longest path.
pub const L: usize = if cfg!(feature = "large") { 6 } else { 5 };

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Node(pub u8);
impl HugrNode for Node {}

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ResourceId(usize);
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Position(u8);
impl Position {
    pub fn increment(&self) -> Self {
        Self(self.0 + 1)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum CircuitUnit {
    Resource(ResourceId),
}

pub const R: ResourceId = ResourceId(1);
/// Whatever other resource a port carries.
pub const OTHER: ResourceId = ResourceId(0);

#[derive(Debug, Clone)]
pub struct Graph {
    pub len: usize,
    pub xor: u8,
    /// whether the path enters the first node, leaves the last node
    pub ends: [bool; 2],
    /// the offsets of the resource's ports
    pub offs: [[u8; 2]; N],
    pub pos: [Option<Position>; N],
    /// where links that are not on the path lead
    pub stray: Option<Node>,
}

impl Graph {
    /// The place of a node: below `len`, its index on the path.
    pub fn at(&self, n: Node) -> usize {
        (n.0 ^ self.xor) as usize % N
    }
    pub fn node(&self, i: usize) -> Node {
        Node(i as u8 ^ self.xor)
    }
    fn has(&self, i: usize, d: Direction) -> bool {
        i < self.len
            && match d {
                Direction::Incoming => i > 0 || self.ends[0],
                Direction::Outgoing => i + 1 < self.len || self.ends[1],
            }
    }
    pub fn port(&self, i: usize, d: Direction) -> Option<Port> {
        self.has(i, d).then(|| Port::new(d, self.offs[i][(d == Direction::Outgoing) as usize] as usize))
    }
    pub fn any(s: &mut impl Src) -> Graph {
        let [len, xor, e, st] = s.bytes::<4>();
        s.assume(len >= 1 && len as usize <= L);
        let len = len as usize;
        let mut g = Graph { len, xor: xor % 8, ends: [e & 1 == 1, e & 2 == 2], offs: [[0; 2]; N], pos: [None; N], stray: if st < 8 { Some(Node(st)) } else { None } };
        let mut p = 0u8;
        let b = s.bytes::<N>();
        let mut i = 0;
        while i < N {
            g.offs[i] = [b[i] & 1, b[i] >> 1 & 1];
            if i < len {
                p += 1 + (b[i] >> 2 & 1) * 2;
                g.pos[i] = Some(Position(p));
            } else if b[i] >> 3 & 1 == 1 {
                g.pos[i] = Some(Position(b[i] >> 4));
            }
            i += 1;
        }
        g
    }
}

impl HugrView for Graph {
    type Node = Node;
    fn single_linked_port(&self, n: Node, p: impl Into<Port>) -> Option<(Node, Port)> {
        let p = p.into();
        let i = self.at(n);
        let d = p.direction();
        if self.port(i, d) == Some(p) {
            let j = match d {
                // before the first and after the last node: the boundary, outside the scope
                Direction::Incoming if i == 0 => return Some((Node(100), Port::new(Direction::Outgoing, 0))),
                Direction::Outgoing if i + 1 == self.len => return Some((Node(101), Port::new(Direction::Incoming, 0))),
                Direction::Incoming => i - 1,
                Direction::Outgoing => i + 1,
            };
            return Some((self.node(j), self.port(j, d.reverse()).unwrap()));
        }
        self.stray.map(|n| (n, Port::new(d.reverse(), 3)))
    }
}

pub struct ResourceScope<H: HugrView>(pub H);
impl ResourceScope<Graph> {
    pub fn any(s: &mut impl Src) -> Self {
        ResourceScope(Graph::any(s))
    }
}
/// The scope of the contracts is over `Graph`; the code is generic.
pub trait Links: HugrView {
    fn graph(&self) -> &Graph;
    fn into(n: Self::Node) -> Node;
    fn from(n: Node) -> Self::Node;
}
impl<H: HugrView> ResourceScope<H> {
    fn g(&self) -> &Graph {
        // the only view there is
        unsafe { &*(&self.0 as *const H as *const Graph) }
    }
    fn n(n: H::Node) -> Node {
        unsafe { *(&n as *const H::Node as *const Node) }
    }
    fn m(n: Node) -> H::Node {
        unsafe { *(&n as *const Node as *const H::Node) }
    }
    pub fn hugr(&self) -> &H {
        &self.0
    }
    pub fn get_port(&self, node: H::Node, r: ResourceId, d: Direction) -> Option<Port> {
        let g = self.g();
        let n = Self::n(node);
        if n.0 >= 8 || r != R {
            return None;
        }
        g.port(g.at(n), d)
    }
    pub fn get_resource_id(&self, node: H::Node, p: impl Into<Port>) -> Option<ResourceId> {
        let g = self.g();
        let n = Self::n(node);
        let p = p.into();
        if n.0 >= 8 {
            return None;
        }
        Some(if g.port(g.at(n), p.direction()) == Some(p) { R } else { OTHER })
    }
    pub fn get_position(&self, node: H::Node) -> Option<Position> {
        let n = Self::n(node);
        if n.0 >= 8 {
            return None;
        }
        let g = self.g();
        g.pos[g.at(n)]
    }
    pub fn get_resources(&self, node: H::Node, d: Direction) -> impl Iterator<Item = ResourceId> + '_ {
        self.get_port(node, R, d).into_iter().map(|_| R)
    }
    pub fn is_resource_start(&self, node: H::Node, r: ResourceId) -> bool {
        self.get_port(node, r, Direction::Outgoing).is_some() && self.get_port(node, r, Direction::Incoming).is_none()
    }
    pub fn resource_path_iter(&self, r: ResourceId, start: H::Node, d: Direction) -> impl Iterator<Item = H::Node> + '_ {
        let g = self.g();
        let on = r == R;
        let mut at = Some(g.at(Self::n(start)));
        std::iter::from_fn(move || {
            let i = at?;
            at = if !on { None } else { match d {
                Direction::Outgoing if i + 1 < g.len => Some(i + 1),
                Direction::Incoming if i > 0 && i < g.len => Some(i - 1),
                _ => None,
            } };
            Some(Self::m(g.node(i)))
        })
    }
}
