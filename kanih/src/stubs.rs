//! The interfaces the circuit hash uses.
use std::hash::{Hash, Hasher};

impl Hash for Repr {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u64((self.form as u64) << 8 | self.n as u64);
        let mut i = 0;
        while i < 6 {
            h.write_u64(self.parts[i]);
            i += 1;
        }
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct Repr {
    form: usize,
    n: usize,
    parts: [u64; 6],
}
impl Repr {
    pub fn new(form: usize) -> Self {
        Repr { form, n: 0, parts: [0; 6] }
    }
    pub fn push(&mut self, x: &(impl ToRepr + ?Sized)) {
        x.add(self)
    }
    pub fn word(&mut self, x: u64) {
        fits(self.n < self.parts.len());
        self.parts[self.n] = x;
        self.n += 1;
    }
    pub fn to_string(&self) -> Repr {
        *self
    }
}
pub trait ToRepr {
    fn add(&self, r: &mut Repr);
}
impl ToRepr for Repr {
    fn add(&self, r: &mut Repr) {
        r.word((self.form as u64) << 8 | self.n as u64);
        let mut i = 0;
        while i < self.n {
            r.word(self.parts[i]);
            i += 1;
        }
    }
}
impl ToRepr for usize {
    fn add(&self, r: &mut Repr) {
        r.word(*self as u64)
    }
}
impl ToRepr for u8 {
    fn add(&self, r: &mut Repr) {
        r.word(*self as u64)
    }
}
impl<T: ToRepr + ?Sized> ToRepr for &T {
    fn add(&self, r: &mut Repr) {
        (**self).add(r)
    }
}
impl ToRepr for hugr::ops::OpType {
    fn add(&self, r: &mut Repr) {
        self.to_string().add(r)
    }
}

/// What the stand-ins have no room for is not decided: marked so that it is not taken for a failure.
pub fn fits(b: bool) {
    #[cfg(not(kani))]
    if !b {
        std::panic::panic_any(crate::Skip)
    }
    assert!(b, "UNSUPPORTED: no room in the stand-in");
}

pub const W: usize = 16;
/// The hashes given out so far, with what was hashed.
pub static mut TABLE: [([u64; W], usize); 24] = [([0; W], 0); 24];
pub static mut USED: usize = 0;
pub fn reset() {
    unsafe { USED = 0 }
}

pub mod fxhash {
    use super::*;
    #[derive(Clone)]
    pub struct FxHasher64 {
        w: [u64; W],
        n: usize,
    }
    impl Default for FxHasher64 {
        fn default() -> Self {
            FxHasher64 { w: [0; W], n: 0 }
        }
    }
    impl FxHasher64 {
        fn word(&mut self, x: u64) {
            fits(self.n < W);
            self.w[self.n] = x;
            self.n += 1;
        }
    }
    impl Hasher for FxHasher64 {
        fn write(&mut self, b: &[u8]) {
            let mut i = 0;
            while i < b.len() {
                self.word(b[i] as u64);
                i += 1;
            }
        }
        fn write_u8(&mut self, x: u8) {
            self.word(x as u64)
        }
        fn write_u16(&mut self, x: u16) {
            self.word(x as u64)
        }
        fn write_u32(&mut self, x: u32) {
            self.word(x as u64)
        }
        fn write_u64(&mut self, x: u64) {
            self.word(x)
        }
        fn write_usize(&mut self, x: usize) {
            self.word(x as u64)
        }
        fn write_isize(&mut self, x: isize) {
            self.word(x as u64)
        }
        fn finish(&self) -> u64 {
            unsafe {
                // the entry of the first call with the same words; a call always takes an entry,
                // so that their number does not depend on the words
                let mut id = USED;
                let mut i = USED;
                while i > 0 {
                    i -= 1;
                    let mut eq = TABLE[i].1 == self.n;
                    let mut k = 0;
                    while k < W {
                        eq = eq && TABLE[i].0[k] == self.w[k];
                        k += 1;
                    }
                    if eq {
                        id = i;
                    }
                }
                fits(USED < TABLE.len());
                TABLE[USED] = (self.w, self.n);
                USED += 1;
                1 << id
            }
        }
    }
    pub type FxHasher = FxHasher64;
    pub fn hash64<T: Hash + ?Sized>(x: &T) -> u64 {
        let mut h = FxHasher64::default();
        x.hash(&mut h);
        h.finish()
    }
    #[derive(Clone, Debug)]
    pub struct FxHashMap<K, V>(pub [Option<V>; 8], std::marker::PhantomData<K>);
    impl<K, V: Copy> Default for FxHashMap<K, V> {
        fn default() -> Self {
            FxHashMap([None; 8], std::marker::PhantomData)
        }
    }
    impl<V: Copy> FxHashMap<super::hugr::Node, V> {
        pub fn get(&self, n: &super::hugr::Node) -> Option<&V> {
            self.0[n.0 as usize % 8].as_ref()
        }
        pub fn contains_key(&self, n: &super::hugr::Node) -> bool {
            self.get(n).is_some()
        }
        pub fn insert(&mut self, n: super::hugr::Node, v: V) -> Option<V> {
            self.0[n.0 as usize % 8].replace(v)
        }
    }
}

pub mod serde_json {
    use super::*;
    /// A list of arguments determines its text.
    pub fn to_string(a: &[super::hugr::Arg]) -> Result<Repr, ()> {
        let mut r = Repr::new(a.len());
        let mut i = 0;
        while i < a.len() {
            r.word(a[i].0 as u64);
            i += 1;
        }
        Ok(r)
    }
}

pub mod hugr {
    use super::*;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct Node(pub u8);
    impl std::fmt::Display for Node {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct IncomingPort(pub u16);
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct OutgoingPort(pub u16);
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub struct Arg(pub u8);

    pub mod ops {
        use super::*;
        /// An operation of an extension: at most one argument.
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct ExtensionOp {
            pub ext: u8,
            pub name: u8,
            pub args: Option<Arg>,
        }
        #[derive(Debug, Clone, Copy)]
        pub struct Def(u8);
        impl Def {
            pub fn name(&self) -> u8 {
                self.0
            }
        }
        impl ExtensionOp {
            pub fn args(&self) -> &[Arg] {
                self.args.as_slice()
            }
            pub fn def(&self) -> Def {
                Def(self.name)
            }
            pub fn qualified_id(&self) -> Repr {
                let mut r = Repr::new(1);
                r.word(self.ext as u64);
                r.word(self.name as u64);
                r
            }
        }
        pub type OpaqueOp = ExtensionOp;
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct Tag {
            pub tag: usize,
            pub variants: [Arg; 1],
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct Call {
            pub type_args: [Arg; 1],
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct FuncDefn {
            pub name: u8,
        }
        impl FuncDefn {
            pub fn func_name(&self) -> &u8 {
                &self.name
            }
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub struct Other {
            pub text: u8,
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)]
        pub enum OpType {
            ExtensionOp(ExtensionOp),
            OpaqueOp(OpaqueOp),
            Tag(Tag),
            Call(Call),
            LoadFunction(Call),
            FuncDefn(FuncDefn),
            FuncDecl(FuncDefn),
            /// operations and constants whose text tells all
            Const(Other),
            Input(Other),
            Output(Other),
        }
        impl OpType {
            /// The text of an operation names its kind; of a constant, the value.
            pub fn to_string(&self) -> Repr {
                let mut r = Repr::new(0);
                match self {
                    OpType::ExtensionOp(o) => return o.qualified_id(),
                    OpType::OpaqueOp(o) => {
                        r.word(9);
                        r.push(&o.qualified_id());
                    }
                    OpType::Tag(_) => r.word(2),
                    OpType::Call(_) => r.word(3),
                    OpType::LoadFunction(_) => r.word(4),
                    OpType::FuncDefn(_) => r.word(5),
                    OpType::FuncDecl(_) => r.word(6),
                    OpType::Const(o) => {
                        r.word(7);
                        r.word(o.text as u64);
                    }
                    OpType::Input(_) => r.word(8),
                    OpType::Output(_) => r.word(10),
                }
                r
            }
            pub fn any(s: &mut impl crate::Src) -> Self {
                let [k, a, b, c] = s.bytes::<4>();
                let args = if c & 1 == 1 { Some(Arg(c >> 1)) } else { None };
                match k % 6 {
                    0 => OpType::ExtensionOp(ExtensionOp { ext: a, name: b, args }),
                    1 => OpType::OpaqueOp(OpaqueOp { ext: a, name: b, args }),
                    2 => OpType::Tag(Tag { tag: a as usize, variants: [Arg(b)] }),
                    3 => OpType::Call(Call { type_args: [Arg(a)] }),
                    4 => OpType::LoadFunction(Call { type_args: [Arg(a)] }),
                    _ => OpType::Const(Other { text: a }),
                }
            }
            /// A node outside the region that its operations use: a function or a constant.
            pub fn source(s: &mut impl crate::Src) -> Self {
                let [k, a] = s.bytes::<2>();
                match k % 3 {
                    0 => OpType::FuncDefn(FuncDefn { name: a }),
                    1 => OpType::FuncDecl(FuncDefn { name: a }),
                    _ => OpType::Const(Other { text: a }),
                }
            }
        }
    }

    /// A leaf: up to 3 inputs with up to 2 links.
    #[derive(Debug, Clone, Copy)]
    pub struct NodeData {
        pub op: ops::OpType,
        pub inputs: usize,
        pub links: [[Option<(Node, OutgoingPort)>; 2]; 3],
    }
    #[derive(Debug, Clone)]
    pub struct Graph {
        pub nodes: [NodeData; 8],
        pub io: Option<[Node; 2]>,
        /// a topological order of the region, as far as there is one
        pub topo: Vec<u8>,
    }
    pub trait HugrView {
        type Node;
        fn g(&self) -> &Graph;
        fn get_io(&self, _: Node) -> Option<[Node; 2]> {
            self.g().io
        }
        fn region_portgraph(&self, _: Node) -> (Graph, super::hugr_core::Map) {
            (self.g().clone(), super::hugr_core::Map)
        }
        fn children(&self, _: Node) -> std::iter::Empty<Node> {
            std::iter::empty()
        }
        fn get_optype(&self, n: Node) -> &ops::OpType {
            &self.g().nodes[n.0 as usize % 8].op
        }
        fn node_inputs(&self, n: Node) -> impl Iterator<Item = IncomingPort> + Clone {
            let k = self.g().nodes[n.0 as usize % 8].inputs;
            (0..3u16).filter(move |i| (*i as usize) < k).map(IncomingPort)
        }
        fn linked_ports(&self, n: Node, p: IncomingPort) -> impl Iterator<Item = (Node, OutgoingPort)> {
            self.g().nodes[n.0 as usize % 8].links[p.0 as usize % 3].into_iter().flatten()
        }
        fn linked_outputs(&self, n: Node, p: IncomingPort) -> impl Iterator<Item = (Node, OutgoingPort)> {
            self.linked_ports(n, p)
        }
        fn single_linked_output(&self, n: Node, p: IncomingPort) -> Option<(Node, OutgoingPort)> {
            let l = self.g().nodes[n.0 as usize % 8].links[p.0 as usize % 3];
            if l[1].is_some() { None } else { l[0] }
        }
    }
    impl HugrView for Graph {
        type Node = Node;
        fn g(&self) -> &Graph {
            self
        }
    }
}

pub mod hugr_core {
    pub struct Map;
    pub mod hugr {
        pub mod internal {
            pub trait PortgraphNodeMap {
                fn from_portgraph(&self, n: u8) -> crate::stubs::hugr::Node;
            }
            impl PortgraphNodeMap for crate::stubs::hugr_core::Map {
                fn from_portgraph(&self, n: u8) -> crate::stubs::hugr::Node {
                    crate::stubs::hugr::Node(n)
                }
            }
        }
    }
}

pub mod petgraph {
    pub mod visit {
        use crate::stubs::hugr::Graph;
        pub struct Topo;
        impl Topo {
            pub fn new(_: &Graph) -> Self {
                Topo
            }
        }
        pub trait Walker<C>: Sized {
            type It: Iterator<Item = u8>;
            fn iter(self, c: C) -> Self::It;
        }
        impl Walker<&Graph> for Topo {
            type It = std::vec::IntoIter<u8>;
            fn iter(self, c: &Graph) -> Self::It {
                c.topo.clone().into_iter()
            }
        }
    }
}
