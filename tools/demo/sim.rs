// A small state-vector interpreter of HUGR dataflow regions, used by the demonstrations.
use std::collections::HashMap;
use tket::hugr::ops::{OpTrait, OpType, Value};
use tket::hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex};
use tket::TketOp;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct C(pub f64, pub f64);
impl std::ops::Add for C { type Output = C; fn add(self, o: C) -> C { C(self.0 + o.0, self.1 + o.1) } }
impl std::ops::Mul for C { type Output = C; fn mul(self, o: C) -> C { C(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0) } }
pub fn cis(t: f64) -> C { C(t.cos(), t.sin()) }
pub const Z0: C = C(0., 0.);
pub const I1: C = C(1., 0.);

#[derive(Clone, Debug)]
pub enum V { Q(usize), F(f64), Sum(usize, Vec<V>), Arr(Vec<Option<V>>), B(bool), Fun(Node), I(u64), Unit }

pub struct Sim { pub n: usize, pub st: Vec<C>, pub outcomes: Vec<bool>, pub taken: usize }

impl Sim {
    pub fn new(n: usize, basis: usize) -> Self { let mut st = vec![Z0; 1 << n]; st[basis] = I1; Sim { n, st, outcomes: vec![], taken: 0 } }
    pub fn alloc(&mut self) -> usize { let q = self.n; self.n += 1; self.st.extend(vec![Z0; self.st.len()]); q }
    /// ctrl: all set; 2x2 on t
    pub fn u(&mut self, ctrl: &[usize], t: usize, m: [C; 4]) {
        for i in 0..self.st.len() {
            if i >> t & 1 == 0 && ctrl.iter().all(|c| i >> c & 1 == 1) {
                let j = i | 1 << t; let (a, b) = (self.st[i], self.st[j]);
                self.st[i] = m[0] * a + m[1] * b; self.st[j] = m[2] * a + m[3] * b;
            }
        }
    }
    pub fn diag(&mut self, f: impl Fn(usize) -> C) { for i in 0..self.st.len() { self.st[i] = self.st[i] * f(i); } }
    pub fn measure(&mut self, q: usize) -> bool {
        let p1: f64 = self.st.iter().enumerate().filter(|(i, _)| i >> q & 1 == 1).map(|(_, c)| c.0 * c.0 + c.1 * c.1).sum();
        let p0: f64 = self.st.iter().enumerate().filter(|(i, _)| i >> q & 1 == 0).map(|(_, c)| c.0 * c.0 + c.1 * c.1).sum();
        let want = self.outcomes.get(self.taken).copied().unwrap_or(false); self.taken += 1;
        let r = if p1 < 1e-9 { false } else if p0 < 1e-9 { true } else { want };
        for i in 0..self.st.len() { if (i >> q & 1 == 1) != r { self.st[i] = Z0; } }
        r
    }
    pub fn x(&mut self, q: usize) { self.u(&[], q, [Z0, I1, I1, Z0]); }
    pub fn reset(&mut self, q: usize) { if self.measure(q) { self.x(q); } }
}
fn rot(axis: char, t: f64) -> [C; 4] {
    let (c, s) = ((t / 2.).cos(), (t / 2.).sin());
    match axis { 'x' => [C(c, 0.), C(0., -s), C(0., -s), C(c, 0.)], 'y' => [C(c, 0.), C(-s, 0.), C(s, 0.), C(c, 0.)], _ => [cis(-t / 2.), Z0, Z0, cis(t / 2.)] }
}
fn q(v: &V) -> usize { if let V::Q(q) = v { *q } else { panic!("not a qubit: {v:?}") } }
fn f(v: &V) -> f64 { match v { V::F(x) => *x, V::I(i) => *i as f64, _ => panic!("not a number: {v:?}") } }
fn bb(v: &V) -> bool { match v { V::B(b) => *b, V::Sum(t, _) => *t == 1, _ => panic!("not a bool: {v:?}") } }
fn sum(b: bool) -> V { V::Sum(b as usize, vec![]) }
const PI: f64 = std::f64::consts::PI;

pub fn tk(s: &mut Sim, op: TketOp, a: &[V]) -> Vec<V> {
    let r = std::f64::consts::FRAC_1_SQRT_2;
    let p = |t: f64| [I1, Z0, Z0, cis(t)];
    let keep = |n: usize| a[..n].to_vec();
    match op {
        TketOp::H => { s.u(&[], q(&a[0]), [C(r, 0.), C(r, 0.), C(r, 0.), C(-r, 0.)]); keep(1) }
        TketOp::X => { s.x(q(&a[0])); keep(1) }
        TketOp::Y => { s.u(&[], q(&a[0]), [Z0, C(0., -1.), C(0., 1.), Z0]); keep(1) }
        TketOp::Z => { s.u(&[], q(&a[0]), p(PI)); keep(1) }
        TketOp::S => { s.u(&[], q(&a[0]), p(PI / 2.)); keep(1) }
        TketOp::Sdg => { s.u(&[], q(&a[0]), p(-PI / 2.)); keep(1) }
        TketOp::T => { s.u(&[], q(&a[0]), p(PI / 4.)); keep(1) }
        TketOp::Tdg => { s.u(&[], q(&a[0]), p(-PI / 4.)); keep(1) }
        TketOp::V => { s.u(&[], q(&a[0]), rot('x', PI / 2.).map(|c| c * cis(PI / 4.))); keep(1) }
        TketOp::Vdg => { s.u(&[], q(&a[0]), rot('x', -PI / 2.).map(|c| c * cis(-PI / 4.))); keep(1) }
        TketOp::Rx => { s.u(&[], q(&a[0]), rot('x', PI * f(&a[1]))); keep(1) }
        TketOp::Ry => { s.u(&[], q(&a[0]), rot('y', PI * f(&a[1]))); keep(1) }
        TketOp::Rz => { s.u(&[], q(&a[0]), rot('z', PI * f(&a[1]))); keep(1) }
        TketOp::CX => { s.u(&[q(&a[0])], q(&a[1]), [Z0, I1, I1, Z0]); keep(2) }
        TketOp::CY => { s.u(&[q(&a[0])], q(&a[1]), [Z0, C(0., -1.), C(0., 1.), Z0]); keep(2) }
        TketOp::CZ => { s.u(&[q(&a[0])], q(&a[1]), p(PI)); keep(2) }
        TketOp::CRz => { s.u(&[q(&a[0])], q(&a[1]), rot('z', PI * f(&a[2]))); keep(2) }
        TketOp::Toffoli => { s.u(&[q(&a[0]), q(&a[1])], q(&a[2]), [Z0, I1, I1, Z0]); keep(3) }
        TketOp::Measure => { let m = s.measure(q(&a[0])); vec![a[0].clone(), sum(m)] }
        TketOp::MeasureFree => { let m = s.measure(q(&a[0])); vec![V::B(m)] }
        TketOp::QAlloc => vec![V::Q(s.alloc())],
        TketOp::TryQAlloc => vec![V::Sum(1, vec![V::Q(s.alloc())])],
        TketOp::QFree => vec![],
        TketOp::Reset => { s.reset(q(&a[0])); keep(1) }
        #[allow(unreachable_patterns)]
        _ => panic!("op"),
    }
}

fn value(v: &Value) -> V {
    use tket::extension::rotation::ConstRotation;
    use tket::hugr::std_extensions::arithmetic::{float_types::ConstF64, int_types::ConstInt};
    if let Some(x) = v.get_custom_value::<ConstRotation>() { return V::F(x.half_turns()); }
    if let Some(x) = v.get_custom_value::<ConstF64>() { return V::F(x.value()); }
    if let Some(x) = v.get_custom_value::<ConstInt>() { return V::I(x.value_u()); }
    if let Some(x) = v.get_custom_value::<tket::hugr::extension::prelude::ConstUsize>() { return V::I(x.value()); }
    if let Some(x) = v.get_custom_value::<tket::extension::bool::ConstBool>() { return V::B(x.value()); }
    match v {
        Value::Sum(s) => V::Sum(s.tag, s.values.iter().map(value).collect()),
        _ => V::Unit,
    }
}

pub fn ext(s: &mut Sim, h: &Hugr, n: Node, a: &[V]) -> Vec<V> {
    let op = h.get_optype(n);
    if let Some(t) = op.cast::<TketOp>() { return tk(s, t, a); }
    let e = op.as_extension_op().unwrap_or_else(|| panic!("unsupported {op:?}"));
    let name = e.unqualified_id().to_string();
    let exid = e.def().extension_id().to_string();
    let short = name.as_str();
    match (exid.as_str(), short) {
        ("tket.qsystem", "PhasedX") => { let (t, ph) = (f(&a[1]), f(&a[2])); s.u(&[], q(&a[0]), rot('z', -ph)); s.u(&[], q(&a[0]), rot('x', t)); s.u(&[], q(&a[0]), rot('z', ph)); vec![a[0].clone()] }
        ("tket.qsystem", "Rz") => { s.u(&[], q(&a[0]), rot('z', f(&a[1]))); vec![a[0].clone()] }
        ("tket.qsystem", "ZZPhase") => { let (x, y, t) = (q(&a[0]), q(&a[1]), f(&a[2])); s.diag(|i| if (i >> x ^ i >> y) & 1 == 0 { cis(-t / 2.) } else { cis(t / 2.) }); a[..2].to_vec() }
        ("tket.qsystem", "TryQAlloc") => vec![V::Sum(1, vec![V::Q(s.alloc())])],
        ("tket.qsystem", "QFree") => vec![],
        ("tket.qsystem", "Reset") => { s.reset(q(&a[0])); vec![a[0].clone()] }
        ("tket.qsystem", "Measure") => vec![V::B(s.measure(q(&a[0])))],
        ("tket.qsystem", "LazyMeasure") => vec![V::B(s.measure(q(&a[0])))],
        ("tket.qsystem", "MeasureReset") => { let m = s.measure(q(&a[0])); if m { s.x(q(&a[0])); } vec![a[0].clone(), V::B(m)] }
        ("tket.rotation", "to_halfturns") => vec![a[0].clone()],
        ("tket.rotation", "from_halfturns_unchecked") => vec![a[0].clone()],
        ("tket.rotation", "from_halfturns") => vec![if f(&a[0]).is_finite() { V::Sum(1, vec![a[0].clone()]) } else { V::Sum(0, vec![]) }],
        ("tket.rotation", "radd") => vec![V::F(f(&a[0]) + f(&a[1]))],
        ("arithmetic.float", "fadd") => vec![V::F(f(&a[0]) + f(&a[1]))],
        ("arithmetic.float", "fsub") => vec![V::F(f(&a[0]) - f(&a[1]))],
        ("arithmetic.float", "fmul") => vec![V::F(f(&a[0]) * f(&a[1]))],
        ("arithmetic.float", "fdiv") => vec![V::F(f(&a[0]) / f(&a[1]))],
        ("arithmetic.float", "fpow") => vec![V::F(f(&a[0]).powf(f(&a[1])))],
        ("arithmetic.float", "fneg") => vec![V::F(-f(&a[0]))],
        ("arithmetic.float", "ffloor") => vec![V::F(f(&a[0]).floor())],
        ("arithmetic.float", "fceil") => vec![V::F(f(&a[0]).ceil())],
        ("arithmetic.float", "fround") => vec![V::F(f(&a[0]).round_ties_even())],
        ("arithmetic.float", "fabs") => vec![V::F(f(&a[0]).abs())],
        ("arithmetic.float", "fmax") => vec![V::F(f(&a[0]).max(f(&a[1])))],
        ("arithmetic.float", "fmin") => vec![V::F(f(&a[0]).min(f(&a[1])))],
        ("arithmetic.float", "flt") => vec![sum(f(&a[0]) < f(&a[1]))],
        ("arithmetic.float", "fgt") => vec![sum(f(&a[0]) > f(&a[1]))],
        ("tket.bool", "read") => vec![sum(bb(&a[0]))],
        ("tket.bool", "make_opaque") => vec![V::B(bb(&a[0]))],
        ("tket.bool", "not") => vec![V::B(!bb(&a[0]))],
        ("tket.bool", "and") => vec![V::B(bb(&a[0]) && bb(&a[1]))],
        ("tket.bool", "or") => vec![V::B(bb(&a[0]) || bb(&a[1]))],
        ("tket.bool", "xor") => vec![V::B(bb(&a[0]) != bb(&a[1]))],
        ("tket.bool", "eq") => vec![V::B(bb(&a[0]) == bb(&a[1]))],
        ("logic", "Not") => vec![sum(!bb(&a[0]))],
        ("logic", "And") => vec![sum(bb(&a[0]) && bb(&a[1]))],
        ("logic", "Or") => vec![sum(bb(&a[0]) || bb(&a[1]))],
        ("logic", "Xor") => vec![sum(bb(&a[0]) != bb(&a[1]))],
        ("logic", "Eq") => vec![sum(bb(&a[0]) == bb(&a[1]))],
        ("prelude", "MakeTuple") => vec![V::Sum(0, a.to_vec())],
        ("prelude", "UnpackTuple") => match &a[0] { V::Sum(_, v) => v.clone(), _ => panic!() },
        ("prelude", "Noop") => a.to_vec(),
        ("prelude", "Barrier") => a.to_vec(),
        ("collections.borrow_arr" | "collections.array", "new_array") => vec![V::Arr(a.iter().cloned().map(Some).collect())],
        ("collections.borrow_arr" | "collections.array", "unpack") => match &a[0] { V::Arr(v) => v.iter().map(|x| x.clone().unwrap()).collect(), _ => panic!() },
        ("collections.borrow_arr", "borrow") => match (&a[0], &a[1]) { (V::Arr(v), V::I(i)) => { let mut v = v.clone(); let x = v[*i as usize].take().expect("borrowed twice"); vec![V::Arr(v), x] } _ => panic!() },
        ("collections.borrow_arr", "return") => match (&a[0], &a[1]) { (V::Arr(v), V::I(i)) => { let mut v = v.clone(); assert!(v[*i as usize].is_none(), "returned twice"); v[*i as usize] = Some(a[2].clone()); vec![V::Arr(v)] } _ => panic!() },
        (e, o) => panic!("unsupported operation {e}.{o}"),
    }
}

/// Runs the dataflow region `parent` on the given inputs.
pub fn run(s: &mut Sim, h: &Hugr, parent: Node, inp: &[V]) -> Vec<V> {
    let mut vals: HashMap<(Node, OutgoingPort), V> = HashMap::new();
    let mut todo: Vec<Node> = h.children(parent).collect();
    let mut ordered: Vec<Node> = vec![];
    loop {
        let mut rest = vec![];
        let before = todo.len();
        for n in todo {
            let op = h.get_optype(n);
            let blocked = h.input_neighbours(n).any(|m| h.get_parent(m) == Some(parent) && m != n && !ordered.contains(&m));
            if blocked { rest.push(n); continue; }
            let nin = op.dataflow_signature().map(|x| x.input_count()).unwrap_or(0);
            let mut a: Vec<V> = vec![];
            for i in 0..nin {
                let (m, p) = h.single_linked_output(n, IncomingPort::from(i)).unwrap_or_else(|| panic!("open port"));
                a.push(vals.get(&(m, p)).cloned().unwrap_or_else(|| match h.get_optype(m) { OpType::Const(c) => value(c.value()), _ => panic!("no value") }));
            }
            let outs: Vec<V> = match op {
                OpType::Input(_) => inp.to_vec(),
                OpType::Output(_) => return a,
                OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) => vec![],
                OpType::LoadConstant(_) => { let (m, _) = h.single_linked_output(n, IncomingPort::from(0)).unwrap(); match h.get_optype(m) { OpType::Const(c) => vec![value(c.value())], _ => panic!() } }
                OpType::DFG(_) => run(s, h, n, &a),
                OpType::Tag(t) => vec![V::Sum(t.tag, a)],
                OpType::Conditional(_) => { let (t, mut vs) = match &a[0] { V::Sum(t, v) => (*t, v.clone()), V::B(b) => (*b as usize, vec![]), x => panic!("{x:?}") }; vs.extend(a[1..].iter().cloned()); let c = h.children(n).nth(t).unwrap(); run(s, h, c, &vs) }
                OpType::Call(_) => { let m = h.static_source(n).unwrap(); run(s, h, m, &a) }
                OpType::LoadFunction(_) => vec![V::Fun(h.static_source(n).unwrap())],
                OpType::CallIndirect(_) => match &a[0] { V::Fun(m) => run(s, h, *m, &a[1..]), _ => panic!() },
                _ => ext(s, h, n, &a),
            };
            for (i, v) in outs.into_iter().enumerate() { vals.insert((n, OutgoingPort::from(i)), v); }
            ordered.push(n);
        }
        assert!(rest.len() < before, "cycle");
        todo = rest;
    }
}

/// The columns of the region's action on n qubits (qubits first, then the numbers in `extra`).
pub fn columns(h: &Hugr, region: Node, n: usize, extra: &[V]) -> Vec<Vec<C>> {
    (0..1 << n).map(|b| {
        let mut s = Sim::new(n, b);
        let mut a: Vec<V> = (0..n).map(V::Q).collect();
        a.extend(extra.iter().cloned());
        let out = run(&mut s, h, region, &a);
        let qs: Vec<usize> = out.iter().filter_map(|v| if let V::Q(q) = v { Some(*q) } else { None }).collect();
        let mut r = vec![Z0; 1 << qs.len()];
        for (i, c) in s.st.iter().enumerate() { let j = qs.iter().enumerate().map(|(k, q)| (i >> q & 1) << k).sum::<usize>(); r[j] = r[j] + *c; }
        r
    }).collect()
}
/// Equal up to one overall factor of modulus one?
pub fn same_up_to_phase(a: &[Vec<C>], b: &[Vec<C>]) -> bool {
    let fa: Vec<C> = a.iter().flatten().copied().collect(); let fb: Vec<C> = b.iter().flatten().copied().collect();
    if fa.len() != fb.len() { return false; }
    let m = |c: &C| c.0 * c.0 + c.1 * c.1;
    let k = (0..fa.len()).max_by(|i, j| m(&fa[*i]).total_cmp(&m(&fa[*j]))).unwrap();
    if (m(&fa[k]) - m(&fb[k])).abs() > 1e-7 { return false; }
    let d = m(&fa[k]); let ph = C(fa[k].0, -fa[k].1) * fb[k]; let ph = C(ph.0 / d, ph.1 / d);
    fa.iter().zip(&fb).all(|(x, y)| { let x = *x * ph; (x.0 - y.0).abs() < 1e-7 && (x.1 - y.1).abs() < 1e-7 })
}
pub fn same(a: &[Vec<C>], b: &[Vec<C>]) -> bool {
    a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| (x.0 - y.0).abs() < 1e-7 && (x.1 - y.1).abs() < 1e-7)
}
