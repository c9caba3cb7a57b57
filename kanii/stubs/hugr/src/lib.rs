//! The part of hugr's interface that intervals use: ports, and a view of the links of a graph.
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub enum Direction {
    #[default]
    Incoming,
    Outgoing,
}
impl Direction {
    pub const BOTH: [Direction; 2] = [Direction::Incoming, Direction::Outgoing];
    pub fn reverse(self) -> Self {
        match self {
            Direction::Incoming => Direction::Outgoing,
            Direction::Outgoing => Direction::Incoming,
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Port(Direction, u16);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct IncomingPort(u16);
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct OutgoingPort(u16);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct WrongDirection;

impl Port {
    pub fn new(d: Direction, o: usize) -> Self {
        Port(d, o as u16)
    }
    pub fn direction(&self) -> Direction {
        self.0
    }
    pub fn index(&self) -> usize {
        self.1 as usize
    }
    pub fn as_directed(&self) -> either::Either<IncomingPort, OutgoingPort> {
        match self.0 {
            Direction::Incoming => either::Either::Left(IncomingPort(self.1)),
            Direction::Outgoing => either::Either::Right(OutgoingPort(self.1)),
        }
    }
    pub fn as_incoming(&self) -> Result<IncomingPort, WrongDirection> {
        match self.0 {
            Direction::Incoming => Ok(IncomingPort(self.1)),
            Direction::Outgoing => Err(WrongDirection),
        }
    }
    pub fn as_outgoing(&self) -> Result<OutgoingPort, WrongDirection> {
        match self.0 {
            Direction::Outgoing => Ok(OutgoingPort(self.1)),
            Direction::Incoming => Err(WrongDirection),
        }
    }
}
impl From<usize> for IncomingPort {
    fn from(x: usize) -> Self {
        IncomingPort(x as u16)
    }
}
impl From<usize> for OutgoingPort {
    fn from(x: usize) -> Self {
        OutgoingPort(x as u16)
    }
}
impl From<IncomingPort> for Port {
    fn from(x: IncomingPort) -> Self {
        Port(Direction::Incoming, x.0)
    }
}
impl From<OutgoingPort> for Port {
    fn from(x: OutgoingPort) -> Self {
        Port(Direction::Outgoing, x.0)
    }
}
impl TryFrom<Port> for IncomingPort {
    type Error = WrongDirection;
    fn try_from(p: Port) -> Result<Self, WrongDirection> {
        p.as_incoming()
    }
}
impl TryFrom<Port> for OutgoingPort {
    type Error = WrongDirection;
    fn try_from(p: Port) -> Result<Self, WrongDirection> {
        p.as_outgoing()
    }
}
pub trait PortIndex {
    fn index(self) -> usize;
}
impl PortIndex for IncomingPort {
    fn index(self) -> usize {
        self.0 as usize
    }
}
impl PortIndex for OutgoingPort {
    fn index(self) -> usize {
        self.0 as usize
    }
}

pub mod core {
    use super::*;
    pub trait HugrNode: Copy + Ord + Debug + Hash {}
}
pub use self::core::HugrNode;

pub trait HugrView {
    type Node: HugrNode;
    fn single_linked_port(&self, node: Self::Node, port: impl Into<Port>) -> Option<(Self::Node, Port)>;
    fn single_linked_output(&self, node: Self::Node, port: impl Into<IncomingPort>) -> Option<(Self::Node, OutgoingPort)> {
        let (n, p) = self.single_linked_port(node, port.into())?;
        Some((n, p.as_outgoing().unwrap()))
    }
    fn single_linked_input(&self, node: Self::Node, port: impl Into<OutgoingPort>) -> Option<(Self::Node, IncomingPort)> {
        let (n, p) = self.single_linked_port(node, port.into())?;
        Some((n, p.as_incoming().unwrap()))
    }
}
impl<H: HugrView> HugrView for &H {
    type Node = H::Node;
    fn single_linked_port(&self, node: Self::Node, port: impl Into<Port>) -> Option<(Self::Node, Port)> {
        (**self).single_linked_port(node, port)
    }
}
