From f0e0728784a48a30bcb01ef0072a0073d31c4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 01/38] fix: stack control arrays in the order of the modifiers

The signature of a function modified by several control modifiers of different
sizes listed the arrays innermost first, unlike the wires packed for it.
---
 tket/src/modifier/modifier_resolver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 33d1404..035a3b3 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -704,7 +704,8 @@ impl<N: HugrNode> ModifierResolver<N> {
             input.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
             output.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
         } else {
-            for ctrls in &self.modifiers.accum_ctrl {
+            // `accum_ctrl` lists the outermost modifier first, and so does the signature.
+            for ctrls in self.modifiers.accum_ctrl.iter().rev() {
                 let n = *ctrls as u64;
                 input.to_mut().insert(0, array_type(n, qb_t()));
                 output.to_mut().insert(0, array_type(n, qb_t()));
-- 
2.43.0


From 210df69884a247a4465952e48fc8250d23acb87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 02/38] fix: controlled CZ must not go through CRz

CRz(pi) differs from CZ by a phase on the control qubit, which becomes
observable once the gate is controlled.
---
 .../src/modifier/modifier_resolver/tket_op_modify.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 9f54663..3d09dcd 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -385,11 +385,13 @@ impl<N: HugrNode> ModifierResolver<N> {
                 Ok(pv)
             }
             CZ => {
-                // reduce CZ to CRz(pi)
-                let mut pv = self.modify_tket_op(n, CRz, new_fn, ancilla)?;
-                let halfturn = new_fn.add_load_value(ConstRotation::new(1.0).unwrap());
-                let dw = pv.incoming.remove(2);
-                connect(new_fn, &dw, &halfturn.into())?;
+                // CZ(c,t) = H(t); CX(c,t); H(t). Note that CRz(pi) differs from CZ by
+                // a phase on the control, which is observable here.
+                let h1 = new_fn.add_child_node(H);
+                let h2 = new_fn.add_child_node(H);
+                let mut pv = self.modify_tket_op(n, CX, new_fn, ancilla)?;
+                pv.incoming[1] = connect_by_num(new_fn, &pv.incoming[1], h1, 0);
+                pv.outgoing[1] = connect_by_num(new_fn, &pv.outgoing[1], h2, 0);
                 Ok(pv)
             }
             X | CX | Toffoli => {
-- 
2.43.0


From 15261bab9b0b99126c0b0e00f1daecc347385003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 03/38] fix: keep the order of the controls of a controlled
 Toffoli

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 3d09dcd..d1456ed 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -454,8 +454,9 @@ impl<N: HugrNode> ModifierResolver<N> {
                 let pv_cnrx = self.with_ancilla(&mut c, ancilla, |this, ancilla| {
                     this.modify_tket_op(n, V, new_fn, ancilla)
                 })?;
+                // The controls are popped in reverse order.
                 for _ in 0..gate_control {
-                    outgoing.push(self.pop_control().unwrap().into());
+                    outgoing.insert(0, self.pop_control().unwrap().into());
                 }
                 connect(new_fn, &targ.into(), &pv_cnrx.incoming[0])?;
                 // connect(new_fn, &half_pos.into(), &pv_cnrx.incoming[1])?;
-- 
2.43.0


From e99214515dbe469cd3d02b9a0203bde68cae2c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 04/38] fix: wire modified calls and regions by their original
 signature

The modified signature contains the control qubits, so ports past the original
ones were registered.
---
 tket/src/modifier/modifier_resolver.rs             | 2 +-
 tket/src/modifier/modifier_resolver/call_modify.rs | 2 +-
 tket/src/modifier/modifier_resolver/dfg_modify.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 035a3b3..9200297 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -1049,7 +1049,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new,
-            (signature.input.iter(), signature.output.iter()),
+            (cfg.signature.input.iter(), cfg.signature.output.iter()),
             (0, 0, offset),
         )?;
         // self.wire_others(n, cfg.into(), new, new_dfg.hugr().get_optype(new))?;
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 8ade56e..f75c11c 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -43,7 +43,6 @@ impl<N: HugrNode> ModifierResolver<N> {
         let type_args = call.type_args.clone();
         self.modify_signature(poly_sig.body_mut(), false);
         let new_call = Call::try_new(poly_sig, type_args).map_err(BuildError::from)?;
-        let signature = (*new_call.signature()).clone();
         let new_call_fn_port = new_call.called_function_port();
         let new_call_node = new_dfg.add_child_node(new_call);
 
@@ -60,6 +59,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let controls = self.unpack_controls(new_dfg, controls)?;
         *self.controls() = controls;
         // wire the inputs/outputs
+        let signature = call.signature();
         self.wire_node_inout(
             n,
             new_call_node,
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2647184..ba4a1ab 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -456,7 +456,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new_dfg,
-            (signature.input.iter(), signature.output.iter()),
+            (dfg.signature.input.iter(), dfg.signature.output.iter()),
             (0, 0, offset),
         )?;
 
-- 
2.43.0


From 29960dfea42a81b80020673842c402de83d81c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 05/38] fix: keep the signature of a region whose quantum and
 classical ports interleave under dagger

---
 tket/src/modifier/modifier_resolver.rs | 45 +++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 9200297..2b52bde 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -839,12 +839,55 @@ impl<N: HugrNode> ModifierResolver<N> {
         &mut self,
         (old_in, old_out): (N, N),
         (new_in, new_out): (Node, Node),
-        (mut inputs, mut outputs): (
+        (inputs, outputs): (
             impl Iterator<Item = &'a Type>,
             impl Iterator<Item = &'a Type>,
         ),
         (input_offset, output_offset, new_offset): (usize, usize, usize),
     ) -> Result<(), ModifierResolverErrors<N>> {
+        let inputs: Vec<&Type> = inputs.collect();
+        let outputs: Vec<&Type> = outputs.collect();
+
+        // If the quantum ports of both sides can be paired up, swapping each pair keeps the
+        // signature, no matter how the quantum and the non-quantum ports are interleaved.
+        if self.modifiers.dagger {
+            let quantum_ports = |tys: &[&Type]| -> Vec<usize> {
+                (0..tys.len())
+                    .filter(|&i| self.qubit_finder.contains_element_type(tys[i]))
+                    .collect()
+            };
+            let in_ports = quantum_ports(&inputs);
+            let out_ports = quantum_ports(&outputs);
+            let paired = in_ports.len() == out_ports.len()
+                && iter::zip(&in_ports, &out_ports).all(|(&i, &o)| inputs[i] == outputs[o]);
+            if paired {
+                for i in 0..inputs.len() {
+                    let new = match in_ports.iter().position(|&p| p == i) {
+                        Some(k) => {
+                            let port = output_offset + new_offset + out_ports[k];
+                            (new_out, OutgoingPort::from(port)).into()
+                        }
+                        None => (new_in, IncomingPort::from(input_offset + new_offset + i)).into(),
+                    };
+                    self.map_insert((old_in, IncomingPort::from(input_offset + i)).into(), new)?;
+                }
+                for o in 0..outputs.len() {
+                    let new = match out_ports.iter().position(|&p| p == o) {
+                        Some(k) => {
+                            let port = input_offset + new_offset + in_ports[k];
+                            (new_in, IncomingPort::from(port)).into()
+                        }
+                        None => {
+                            (new_out, OutgoingPort::from(output_offset + new_offset + o)).into()
+                        }
+                    };
+                    self.map_insert((old_out, OutgoingPort::from(output_offset + o)).into(), new)?;
+                }
+                return Ok(());
+            }
+        }
+
+        let (mut inputs, mut outputs) = (inputs.into_iter(), outputs.into_iter());
         let mut old_in_wire = (old_in, IncomingPort::from(input_offset)).into();
         let mut old_out_wire = (old_out, OutgoingPort::from(output_offset)).into();
         let mut new_in_wire = (new_in, IncomingPort::from(input_offset + new_offset)).into();
-- 
2.43.0


From 519b590e3ccdc07f40eaab7f681538379dab8995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 06/38] fix: keep every call of a modified region connected

The call map lost calls when a function was called twice, and renamed calls of
the enclosing region with the node map of a nested one.
---
 tket/src/modifier/modifier_resolver.rs        | 10 ++++----
 .../modifier/modifier_resolver/call_modify.rs |  6 ++---
 .../modifier/modifier_resolver/dfg_modify.rs  | 24 ++++++++++++-------
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 2b52bde..4df6abd 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -314,7 +314,8 @@ pub struct ModifierResolver<N = Node> {
     /// This is needed to avoid modifying a node that is generated during the process.
     worklist: VecDeque<N>,
     /// A map of static edges to be added after insertion of subgraph.
-    call_map: HashMap<N, (Node, IncomingPort)>,
+    /// There may be several calls of the same function.
+    call_map: Vec<(N, (Node, IncomingPort))>,
     // TODO:
     // Should keep track of the collection of modifiers that are applied to the same function.
     // This will prevent the duplicated generation of Controlled-functions.
@@ -333,7 +334,7 @@ impl<N> ModifierResolver<N> {
             corresp_map: HashMap::default(),
             controls: Vec::default(),
             worklist: VecDeque::default(),
-            call_map: HashMap::default(),
+            call_map: Vec::default(),
             qubit_finder: TypeUnpacker::for_qubits(),
         }
     }
@@ -450,7 +451,7 @@ impl<N: HugrNode> ModifierResolver<N> {
     fn corresp_map(&mut self) -> &mut HashMap<DirWire<N>, Vec<DirWire>> {
         &mut self.corresp_map
     }
-    fn call_map(&mut self) -> &mut HashMap<N, (Node, IncomingPort)> {
+    fn call_map(&mut self) -> &mut Vec<(N, (Node, IncomingPort))> {
         &mut self.call_map
     }
 
@@ -1075,13 +1076,14 @@ impl<N: HugrNode> ModifierResolver<N> {
 
         let mut signature = cfg.signature.clone();
         self.modify_signature(&mut signature, true);
+        let outer_calls = mem::take(self.call_map());
         let mut new_cfg = CFGBuilder::new(signature.clone())?;
         let mut new_bb = new_cfg.entry_builder([type_row![]], signature.output.clone())?;
         self.modify_dfg_body(h, old_bb, &mut new_bb)?;
         let bb_id = new_bb.finish_sub_container()?;
         new_cfg.branch(&bb_id, 0, &new_cfg.exit_block())?;
 
-        let new = self.insert_sub_dfg(new_dfg, new_cfg)?;
+        let new = self.insert_sub_dfg(new_dfg, new_cfg, outer_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index f75c11c..b29b4db 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -35,7 +35,7 @@ impl<N: HugrNode> ModifierResolver<N> {
             // If the function need not be modified, just copy the Call node as is.
             let new = self.add_node_no_modification(h, n, call.clone(), new_dfg)?;
             self.call_map()
-                .insert(callee.0, (new, call.called_function_port()));
+                .push((callee.0, (new, call.called_function_port())));
             return Ok(());
         };
 
@@ -47,7 +47,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let new_call_node = new_dfg.add_child_node(new_call);
 
         self.call_map()
-            .insert(new_callee, (new_call_node, new_call_fn_port));
+            .push((new_callee, (new_call_node, new_call_fn_port)));
         // wire the controls
         let mut controls = self.pack_controls(new_dfg)?;
         for (i, control) in controls.iter_mut().enumerate() {
@@ -202,7 +202,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let load = LoadFunction::try_new(modified_sig, load.type_args).map_err(BuildError::from)?;
         let new_load = new_dfg.add_child_node(load);
         self.call_map()
-            .insert(modified_fn, (new_load, IncomingPort::from(0)));
+            .push((modified_fn, (new_load, IncomingPort::from(0))));
         *self.modifiers_mut() = modifiers;
 
         // Make new IndirectCall
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index ba4a1ab..0b8bca7 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -417,16 +417,21 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 
     /// Inserts a sub DFG into the given parent DFG, updating the call map accordingly.
+    ///
+    /// The current call map refers to the nodes in `builder`, while `outer_calls` is the call map
+    /// of `parent_dfg`, which has to be taken before building the sub DFG.
     pub(super) fn insert_sub_dfg(
         &mut self,
         parent_dfg: &mut impl Container,
         builder: impl Container,
+        outer_calls: Vec<(N, (Node, IncomingPort))>,
     ) -> Result<Node, ModifierResolverErrors<N>> {
         let insertion_result = parent_dfg.add_hugr_view(builder.hugr());
 
         let insertion_correspondence = insertion_result.node_map;
-        let new_call_map = update_call_map(self.call_map(), &insertion_correspondence);
-        *self.call_map() = new_call_map;
+        let new_calls = update_call_map(self.call_map(), &insertion_correspondence);
+        *self.call_map() = outer_calls;
+        self.call_map().extend(new_calls);
 
         Ok(insertion_result.inserted_entrypoint)
     }
@@ -441,9 +446,10 @@ impl<N: HugrNode> ModifierResolver<N> {
         let mut signature = dfg.signature.clone();
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
+        let outer_calls = mem::take(self.call_map());
         let mut builder = DFGBuilder::new(signature.clone()).unwrap();
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
+        let new_dfg = self.insert_sub_dfg(parent_dfg, builder, outer_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
@@ -490,6 +496,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // Build a new TailLoop with modified body.
+        let outer_calls = mem::take(self.call_map());
         let mut builder = TailLoopBuilder::new(
             tail_loop.just_inputs.clone(),
             tail_loop
@@ -498,7 +505,7 @@ impl<N: HugrNode> ModifierResolver<N> {
             tail_loop.just_outputs.clone(),
         )?;
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder, outer_calls)?;
 
         // connect the controls and register IOs
         let offset = self.control_num();
@@ -542,6 +549,7 @@ impl<N: HugrNode> ModifierResolver<N> {
 
         // Build a new Conditional with modified body.
         let control_types: TypeRow = iter::repeat_n(qb_t(), offset).collect::<Vec<_>>().into();
+        let outer_calls = mem::take(self.call_map());
         let mut builder = ConditionalBuilder::new(
             conditional.sum_rows.clone(),
             control_types.extend(conditional.other_inputs.iter()),
@@ -598,7 +606,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // insert the conditional
-        let new_conditional = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_conditional = self.insert_sub_dfg(new_dfg, builder, outer_calls)?;
 
         // connect the controls and register the IOs
         *self.controls() = Vec::new();
@@ -623,10 +631,10 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 }
 
-/// composition of two call maps
-fn update_call_map<A, B, C, D>(f: &HashMap<A, (B, C)>, g: &HashMap<B, D>) -> HashMap<A, (D, C)>
+/// composition of a call map and a node map
+fn update_call_map<A, B, C, D>(f: &[(A, (B, C))], g: &HashMap<B, D>) -> Vec<(A, (D, C))>
 where
-    A: Clone + Eq + std::hash::Hash,
+    A: Clone,
     B: Clone + Eq + std::hash::Hash,
     C: Clone,
     D: Clone,
-- 
2.43.0


From 7d2e660939d83edf53f98f752e751245b69f3b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 07/38] fix: dividing a zero cost gives zero

div_cost is documented to round up, but returned 1 for a zero cost.
---
 tket/src/circuit/cost.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tket/src/circuit/cost.rs b/tket/src/circuit/cost.rs
index c03e983..4adf15a 100644
--- a/tket/src/circuit/cost.rs
+++ b/tket/src/circuit/cost.rs
@@ -152,7 +152,7 @@ impl<const N: usize> CircuitCost for LexicographicCost<usize, N> {
     fn div_cost(&self, n: NonZeroUsize) -> Self {
         let mut ret = [0; N];
         for (div, &a) in ret.iter_mut().zip(&self.0) {
-            *div = (a.saturating_sub(1)) / n.get() + 1;
+            *div = a.div_ceil(n.get());
         }
         Self(ret)
     }
@@ -185,7 +185,7 @@ impl CircuitCost for usize {
 
     #[inline]
     fn div_cost(&self, n: NonZeroUsize) -> Self {
-        (self.saturating_sub(1)) / n.get() + 1
+        self.div_ceil(n.get())
     }
 }
 
-- 
2.43.0


From 16c1d801d6192b22d96eddaa7d346e553a50d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:07 +0000
Subject: [PATCH 08/38] fix: commands of operations with classical ports before
 qubits, and after a qubit was freed, get their own linear units

---
 tket/src/circuit/command.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tket/src/circuit/command.rs b/tket/src/circuit/command.rs
index a75ca10..302f886 100644
--- a/tket/src/circuit/command.rs
+++ b/tket/src/circuit/command.rs
@@ -166,12 +166,12 @@ impl<'circ, T: HugrView<Node = Node>> Command<'circ, T> {
 
 impl<T: HugrView<Node = Node>> UnitLabeller<Node> for &Command<'_, T> {
     #[inline]
-    fn assign_linear(&self, _: Node, port: Port, _linear_count: usize) -> LinearUnit {
+    fn assign_linear(&self, _: Node, port: Port, linear_count: usize) -> LinearUnit {
         let units = match port.direction() {
             Direction::Incoming => &self.input_linear_units,
             Direction::Outgoing => &self.output_linear_units,
         };
-        *units.get(port.index()).unwrap_or_else(|| {
+        *units.get(linear_count).unwrap_or_else(|| {
             panic!(
                 "Could not assign a linear unit to port {port:?} of node {:?}",
                 self.node
@@ -252,6 +252,8 @@ pub struct CommandIterator<'circ, T: HugrView> {
     nodes: NodeWalker<'circ, T>,
     /// Last wire for each [`LinearUnit`] in the circuit.
     wire_unit: HashMap<Wire, usize>,
+    /// The id of the next new [`LinearUnit`].
+    next_unit: usize,
     /// Maximum number of remaining commands, not counting I/O nodes nor root nodes.
     max_remaining: usize,
     /// Delayed output of constant and load const nodes. Contains nodes that
@@ -281,10 +283,11 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
         // ports.
         //
         // TODO: `with_wires` combinator for `Units`?
-        let wire_unit = circ
+        let wire_unit: HashMap<Wire, usize> = circ
             .linear_units()
             .map(|(linear_unit, port, _)| (Wire::new(circ.input_node(), port), linear_unit.index()))
             .collect();
+        let next_unit = wire_unit.len();
 
         let (region, region_node_map) = circ.hugr().region_portgraph(circ.parent());
         let node_count = region.node_count();
@@ -295,6 +298,7 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
             region_node_map,
             nodes,
             wire_unit,
+            next_unit,
             // Ignore the input and output nodes, and the root.
             max_remaining: node_count - 2,
             delayed_consts: HashSet::new(),
@@ -425,7 +429,8 @@ impl<'circ, T: HugrView<Node = Node>> CommandIterator<'circ, T> {
 
             match ports {
                 EitherOrBoth::Right((_, out_port, _)) => {
-                    let new_id = self.wire_unit.len();
+                    let new_id = self.next_unit;
+                    self.next_unit += 1;
                     register_output(new_id, out_port, &mut self.wire_unit);
                 }
                 EitherOrBoth::Left((_, in_port, _)) => {
-- 
2.43.0


From 691a1089407a55018216ecda3447e94aae1ac541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 09/38] fix: greedy commutation keeps opaque operations and
 classical dependencies in place

---
 tket/src/passes/commutation.rs | 78 +++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 25 deletions(-)

diff --git a/tket/src/passes/commutation.rs b/tket/src/passes/commutation.rs
index 053a0cd..b02e9c2 100644
--- a/tket/src/passes/commutation.rs
+++ b/tket/src/passes/commutation.rs
@@ -26,6 +26,11 @@ struct ComCommand {
     // We'll need something more complex if `follow_linear_port` stops being a
     // direct map from input to output.
     inputs: Vec<CircuitUnit>,
+    /// The linear units the command acts on, including the ones it introduces.
+    units: Vec<Qb>,
+    /// The first slice in which all the non-linear inputs of the command are
+    /// available.
+    earliest_slice: usize,
 }
 
 impl<'c, T: HugrView<Node = Node>> From<Command<'c, T>> for ComCommand {
@@ -33,6 +38,13 @@ impl<'c, T: HugrView<Node = Node>> From<Command<'c, T>> for ComCommand {
         ComCommand {
             node: com.node(),
             inputs: com.inputs().map(|(c, _, _)| c).collect(),
+            units: com
+                .linear_inputs()
+                .map(|(q, _, _)| q)
+                .chain(com.outputs().filter_map(|(u, _, _)| Qb::try_from(u).ok()))
+                .unique()
+                .collect(),
+            earliest_slice: 0,
         }
     }
 }
@@ -41,12 +53,7 @@ impl ComCommand {
         self.node
     }
     fn qubits(&self) -> impl Iterator<Item = Qb> + '_ {
-        self.inputs.iter().filter_map(|u| {
-            let CircuitUnit::Linear(i) = u else {
-                return None;
-            };
-            Some(Qb::new(*i))
-        })
+        self.units.iter().copied()
     }
     fn port_of_qb(&self, qb: Qb, direction: Direction) -> Option<Port> {
         self.inputs
@@ -64,44 +71,65 @@ type SliceVec = Vec<Slice>;
 
 fn add_to_slice(slice: &mut Slice, com: Rc<ComCommand>) {
     for q in com.qubits() {
+        if slice.len() <= q.index() {
+            slice.resize(q.index() + 1, None);
+        }
         slice[q.index()] = Some(com.clone());
     }
 }
 
 fn load_slices(circ: &Circuit<impl HugrView<Node = Node>>) -> SliceVec {
-    let mut slices = vec![];
-
-    let n_qbs = circ.qubit_count();
-    let mut qubit_free_slice = vec![0; n_qbs];
+    let hugr = circ.hugr();
+    let mut slices: SliceVec = vec![];
+
+    // The first free slice for each linear unit.
+    let mut qubit_free_slice: HashMap<Qb, usize> = HashMap::new();
+    // The first slice in which the outputs of each node are available.
+    let mut available_from: HashMap<Node, usize> = HashMap::new();
+
+    for command in circ.commands() {
+        let node = command.node();
+        let linear_ports: Vec<_> = command.linear_inputs().map(|(_, p, _)| p).collect();
+        let earliest_slice = hugr
+            .node_inputs(node)
+            .filter(|p| !linear_ports.contains(p))
+            .flat_map(|p| hugr.linked_outputs(node, p))
+            .filter_map(|(n, _)| available_from.get(&n).copied())
+            .max()
+            .unwrap_or(0);
 
-    for command in circ
-        .commands()
-        .filter(|c| is_slice_op(circ.hugr(), c.node()))
-    {
-        let command: ComCommand = command.into();
+        let mut command: ComCommand = command.into();
+        command.earliest_slice = earliest_slice;
+        // Commands not acting on qubits do not take up a slice.
+        if command.qubits().next().is_none() {
+            available_from.insert(node, earliest_slice);
+            continue;
+        }
         let free_slice = command
             .qubits()
-            .map(|qb| qubit_free_slice[qb.index()])
+            .filter_map(|qb| qubit_free_slice.get(&qb).copied())
             .max()
-            .unwrap();
+            .unwrap_or(0)
+            .max(earliest_slice);
 
         for q in command.qubits() {
-            qubit_free_slice[q.index()] = free_slice + 1;
+            qubit_free_slice.insert(q, free_slice + 1);
         }
+        available_from.insert(node, free_slice + 1);
         if free_slice >= slices.len() {
             debug_assert!(free_slice == slices.len());
-            slices.push(vec![None; n_qbs]);
+            slices.push(vec![]);
         }
         let command = Rc::new(command);
         add_to_slice(&mut slices[free_slice], command);
     }
 
-    slices
-}
+    let n_units = slices.iter().map(Vec::len).max().unwrap_or(0);
+    for slice in slices.iter_mut() {
+        slice.resize(n_units, None);
+    }
 
-/// check if node is one we want to put in to a slice.
-fn is_slice_op<H: HugrView>(h: &H, node: H::Node) -> bool {
-    h.get_optype(node).cast::<TketOp>().is_some()
+    slices
 }
 
 /// Starting from starting_index, work back along slices to check for the
@@ -114,7 +142,7 @@ fn available_slice(
 ) -> Option<(usize, HashMap<Qb, Rc<ComCommand>>)> {
     let mut available = None;
     let mut prev_nodes: HashMap<Qb, Rc<ComCommand>> = HashMap::new();
-    for slice_index in (0..=starting_index).rev() {
+    for slice_index in (command.earliest_slice..=starting_index).rev() {
         // if all qubit slots are empty here the command can be moved here
         if command
             .qubits()
-- 
2.43.0


From 66024c55ba4949ce55ebf5b93f793d4a393741a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 10/38] fix: powers bind tighter than unary minus and to the
 right in pytket parameters; wrong argument counts and infinite numbers stay
 opaque

---
 .../serialize/pytket/decoder/param/param.pest | 14 +++---
 .../serialize/pytket/decoder/param/parser.rs  | 43 ++++++++++++-------
 2 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/param/param.pest b/tket/src/serialize/pytket/decoder/param/param.pest
index d672d13..a8ddc74 100644
--- a/tket/src/serialize/pytket/decoder/param/param.pest
+++ b/tket/src/serialize/pytket/decoder/param/param.pest
@@ -14,8 +14,7 @@ variable = _{ ident }
 ///
 /// The atomic marker `@` ensures no whitespace is present inside.
 num = @{
-    "-"?
-    ~ ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
+    ("0" | ASCII_NONZERO_DIGIT ~ ASCII_DIGIT*)
     ~ ("." ~ ASCII_DIGIT*)?
     ~ (^"e" ~ ("+" | "-")? ~ ASCII_DIGIT+)?
 }
@@ -32,8 +31,9 @@ infix_operator = _{ add | subtract | power | multiply | divide }
 
 /// Function calls like (`max(2,4)`)
 function_call = { ident ~ ( "()" | "(" ~ expr ~ ("," ~ expr)* ~ ","? ~ ")") }
-/// Unary negation, with a special identifier
-unary_minus = { "-" ~ term }
+/// Unary negation. It binds tighter than products, but looser than powers
+/// (`-x**2` is `-(x**2)`), so its operand is determined by the rust parser.
+unary_minus = { "-" }
 
 /// Implicit multiplication lets us write expressions like `2x`.
 /// This has higher precedence that `infix_operator`s.
@@ -42,10 +42,10 @@ unary_minus = { "-" ~ term }
 /// If we used `term` directly, the expression `5-2` could be interpreted as `5 * (-2)`.
 implicit_multiply = { num ~ ("(" ~ expr ~ ")" | function_call | variable) }
 
-/// Expressions are sequences of terms and infix operators
-expr = { term ~ (infix_operator ~ term)* }
+/// Expressions are sequences of (possibly negated) terms and infix operators
+expr = { unary_minus* ~ term ~ (infix_operator ~ unary_minus* ~ term)* }
 /// A standalone term, with no infix operators at the root.
-term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | unary_minus | function_call | variable }
+term = _{ "(" ~ expr ~ ")" | implicit_multiply | num | function_call | variable }
 
 /// Main entry point of the parser. Ensures we always parse the whole input.
 parameter = _{ SOI ~ expr ~ EOI }
diff --git a/tket/src/serialize/pytket/decoder/param/parser.rs b/tket/src/serialize/pytket/decoder/param/parser.rs
index eadb2fe..1138cfa 100644
--- a/tket/src/serialize/pytket/decoder/param/parser.rs
+++ b/tket/src/serialize/pytket/decoder/param/parser.rs
@@ -79,18 +79,28 @@ lazy_static::lazy_static! {
             // Addition and subtract have equal precedence
             .op(Op::infix(add, Left) | Op::infix(subtract, Left))
             .op(Op::infix(multiply, Left) | Op::infix(divide, Left))
-            .op(Op::infix(power, Left))
+            .op(Op::prefix(unary_minus))
+            .op(Op::infix(power, Right))
     };
 }
 
 /// Parse a match of the [`Rule::expr`] rule.
 ///
-/// This takes a sequence of rule matches alternating [`Rule::term`]s and infix operations.
+/// This takes a sequence of rule matches alternating [`Rule::term`]s (which may
+/// be preceded by unary minuses) and infix operations.
 fn parse_infix_ops(pairs: Pairs<'_, Rule>) -> PytketParam<'_> {
     use ParameterType::*;
 
     PRATT_PARSER
         .map_primary(|primary| parse_term(primary))
+        .map_prefix(|_minus, rhs| match rhs {
+            PytketParam::Constant(half_turns) => PytketParam::Constant(-half_turns),
+            rhs => PytketParam::Operation {
+                op: FloatOps::fneg.into(),
+                args: vec![rhs],
+                param_ty: FloatHalfTurns,
+            },
+        })
         .map_infix(|lhs, op, rhs| {
             let (op, param_ty) = match op.as_rule() {
                 Rule::add => (RotationOp::radd.into(), Rotation),
@@ -126,11 +136,6 @@ fn parse_term(pair: Pair<'_, Rule>) -> PytketParam<'_> {
             }
         }
         Rule::num => parse_number(pair),
-        Rule::unary_minus => PytketParam::Operation {
-            op: FloatOps::fneg.into(),
-            args: vec![parse_term(pair.into_inner().next().unwrap())],
-            param_ty: FloatHalfTurns,
-        },
         Rule::function_call => parse_function_call(pair),
         Rule::ident => PytketParam::InputVariable {
             name: pair.as_str(),
@@ -145,7 +150,11 @@ fn parse_number(pair: Pair<'_, Rule>) -> PytketParam<'_> {
     let half_turns = num
         .parse::<f64>()
         .unwrap_or_else(|_| panic!("`num` rule matched invalid number \"{num}\""));
-    PytketParam::Constant(half_turns)
+    match half_turns.is_finite() {
+        true => PytketParam::Constant(half_turns),
+        // The number does not fit in a float.
+        false => PytketParam::Sympy(num),
+    }
 }
 
 /// Parse a match of the [`Rule::function_call`] rule.
@@ -156,19 +165,23 @@ fn parse_function_call(pair: Pair<'_, Rule>) -> PytketParam<'_> {
         .next()
         .expect("Function call must have a name")
         .as_str();
-    let op = match name {
-        "max" => FloatOps::fmax.into(),
-        "min" => FloatOps::fmin.into(),
-        "abs" => FloatOps::fabs.into(),
-        "floor" => FloatOps::ffloor.into(),
-        "ceil" => FloatOps::fceil.into(),
-        "round" => FloatOps::fround.into(),
+    let (op, num_args) = match name {
+        "max" => (FloatOps::fmax.into(), 2),
+        "min" => (FloatOps::fmin.into(), 2),
+        "abs" => (FloatOps::fabs.into(), 1),
+        "floor" => (FloatOps::ffloor.into(), 1),
+        "ceil" => (FloatOps::fceil.into(), 1),
+        "round" => (FloatOps::fround.into(), 1),
         // Unrecognized function name.
         // Treat it as an opaque sympy expression.
         _ => return PytketParam::Sympy(pair_str),
     };
 
     let args = args.map(|arg| parse_term(arg)).collect::<Vec<_>>();
+    if args.len() != num_args {
+        // The function does not match the HUGR operation.
+        return PytketParam::Sympy(pair_str);
+    }
     PytketParam::Operation {
         op,
         args,
-- 
2.43.0


From f1536f97a62b1906e34d23350214641284ac69f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 11/38] fix: free variables of a boxed pytket circuit are
 variables of the circuit

---
 tket/src/serialize/pytket/decoder/wires.rs  |  5 +++++
 tket/src/serialize/pytket/extension/core.rs | 21 ++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 5cc6402..d1c9db3 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -412,6 +412,11 @@ impl WireTracker {
         self.parameter_vars
     }
 
+    /// The names of the input parameters of the region, in the order they were added.
+    pub(in crate::serialize::pytket) fn input_parameter_names(&self) -> impl Iterator<Item = &str> {
+        self.parameter_vars.iter().map(String::as_str)
+    }
+
     /// Set the output qubit permutation.
     ///
     /// This is used to reorder the qubit registers at the output, according to
diff --git a/tket/src/serialize/pytket/extension/core.rs b/tket/src/serialize/pytket/extension/core.rs
index 3cabde8..3136f26 100644
--- a/tket/src/serialize/pytket/extension/core.rs
+++ b/tket/src/serialize/pytket/extension/core.rs
@@ -16,6 +16,8 @@ use hugr::builder::Container;
 use hugr::extension::prelude::{bool_t, qb_t};
 use hugr::ops::handle::NodeHandle;
 use hugr::types::{Signature, Type};
+use hugr::Direction;
+use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 use tket_json_rs::circuit_json::Operation as PytketOperation;
 use tket_json_rs::opbox::OpBox;
@@ -86,10 +88,27 @@ impl PytketDecoder for CoreDecoder {
                     decoder.opaque_subgraphs,
                 )?;
                 nested_decoder.run_decoder(&serial_circuit.commands, None)?;
+                // The free variables of the boxed circuit became additional
+                // inputs. They are free variables of this circuit too.
+                let free_variables = nested_decoder
+                    .wire_tracker
+                    .input_parameter_names()
+                    .skip(params.len())
+                    .map(ToString::to_string)
+                    .collect_vec();
                 let internal = nested_decoder.finish(&[])?.node();
+                decoder.builder.hugr_mut().add_ports(
+                    internal,
+                    Direction::Incoming,
+                    free_variables.len() as isize,
+                );
+                let mut params = params.to_vec();
+                for variable in free_variables {
+                    params.push(decoder.load_half_turns(&variable));
+                }
 
                 decoder
-                    .wire_up_node(internal, qubits, qubits, bits, bits, params)
+                    .wire_up_node(internal, qubits, qubits, bits, bits, &params)
                     .map_err(|e| e.hugr_op("DFG"))?;
 
                 Ok(DecodeStatus::Success)
-- 
2.43.0


From 5203d0340956ae6da38345472adb4f98d5ecb9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 12/38] fix: qubits missing from a pytket implicit permutation
 stay in place

---
 tket/src/serialize/pytket/decoder/wires.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index d1c9db3..e9fdab7 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -434,7 +434,10 @@ impl WireTracker {
             let output_pos = position(output);
             reordered.insert(output_pos, input_pos);
         }
-        self.output_qubit_permutation = reordered.values().copied().collect();
+        // Qubits that are not listed in the permutation stay where they are.
+        self.output_qubit_permutation = (0..self.latest_qubit_tracker.len())
+            .map(|i| reordered.get(&i).copied().unwrap_or(i))
+            .collect();
     }
 
     /// Returns a reference to the tracked qubit at the given index.
-- 
2.43.0


From c9caf01eae8f1362f78fed255a352a8268d19140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 13/38] fix: track converted pytket wires with their new type

---
 tket/src/serialize/pytket/decoder/wires.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index e9fdab7..7372181 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -786,8 +786,7 @@ impl WireTracker {
         if wire == new_wire {
             Ok(FoundWire::Register(self.wires[&wire].clone()))
         } else {
-            let ty: Arc<Type> = wire_data.ty.clone();
-            self.track_wire(new_wire, ty, wire_qubits, wire_bits)?;
+            self.track_wire(new_wire, Arc::new(ty.clone()), wire_qubits, wire_bits)?;
             self.mark_wire_outdated(wire);
             Ok(FoundWire::Register(self.wires[&new_wire].clone()))
         }
-- 
2.43.0


From ed6e52719d283db931bef3638e64738cbc75b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 14/38] fix: bits read by a decoded pytket command keep their
 value

---
 tket/src/serialize/pytket/decoder.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 5a5cb20..e9917f3 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -705,9 +705,16 @@ impl<'h> PytketDecoderContext<'h> {
                 .hugr_mut()
                 .connect(wire.node(), wire.source(), node, input_idx);
         }
-        input_bits.iter().take(op_input_count.bits).for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
+        // Bits carried by linear values are consumed by the operation. Copyable
+        // values can still be read after it.
+        let consumed_bits = input_wires
+            .iter_values()
+            .filter(|w| !w.ty().copyable())
+            .flat_map(|w| w.bits(self))
+            .collect_vec();
+        for b in consumed_bits {
+            self.wire_tracker.mark_bit_outdated(b);
+        }
 
         // Register the output wires.
         let output_qubits = output_qubits.iter().take(op_output_count.qubits).cloned();
-- 
2.43.0


From 6b88e78cef676db8f75b838142c9e32e9d27d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 15/38] fix: pytket barriers keep their bits

---
 tket/src/serialize/pytket/extension/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index b525c8f..0cb75e1 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -158,7 +158,7 @@ impl PytketDecoder for PreludeEmitter {
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
-        decoder.add_node_with_wires(op, qubits, qubits, bits, &[], &[])?;
+        decoder.add_node_with_wires(op, qubits, qubits, bits, bits, &[])?;
 
         Ok(DecodeStatus::Success)
     }
-- 
2.43.0


From 69faeaa79909155f7f0457110b4789b7792d095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 16/38] fix: classical expressions refer to their operands and
 output by position

---
 tket/src/serialize/pytket/extension/bool.rs | 53 +++++++++++----------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 4ae5fed..ef73ef5 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -60,7 +60,7 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
         // variable inputs. If new [`BoolOp`]s are added that do not follow
         // this, the following code will need to be adjusted.
         let bit_count = (num_inputs + num_outputs) as usize;
-        let output_bits = (0..num_outputs).collect_vec();
+        let output_bits = (num_inputs..num_inputs + num_outputs).collect_vec();
         let mut expression = ClOperator::default();
         expression.op = clop;
         expression.args = (0..num_inputs)
@@ -127,39 +127,42 @@ impl PytketDecoder for BoolEmitter {
             return Ok(DecodeStatus::Unsupported);
         };
 
+        let (op, num_inputs) = match clexpr.expr.op {
+            ClOp::BitEq => (BoolOp::eq, 2),
+            ClOp::BitNot => (BoolOp::not, 1),
+            ClOp::BitAnd => (BoolOp::and, 2),
+            ClOp::BitOr => (BoolOp::or, 2),
+            ClOp::BitXor => (BoolOp::xor, 2),
+            _ => return Ok(DecodeStatus::Unsupported),
+        };
+
         // We only decode classical expressions if their operands are the input
         // bits in 0..n order, and the output comes immediately after.
         //
         // This can be easily relaxed if needed.
-        for (i, reg) in clexpr.reg_posn.iter().enumerate() {
-            if reg.index != i as u32 || reg.bits.0.len() != 1 {
-                return Ok(DecodeStatus::Unsupported);
-            }
-        }
-        for (i, arg) in clexpr.expr.args.iter().enumerate() {
+        let is_operand = |(i, arg): (usize, &ClArgument)| {
+            let i = i as u32;
             match arg {
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
+                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Bit { index })) => {
+                    clexpr.bit_posn.contains(&(*index, i))
                 }
-                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index }))
-                    if *index != i as u32 =>
-                {
-                    return Ok(DecodeStatus::Unsupported);
+                ClArgument::Terminal(ClTerminal::Variable(ClVariable::Register { index })) => {
+                    clexpr
+                        .reg_posn
+                        .iter()
+                        .any(|reg| reg.index == *index && reg.bits.0 == [i])
                 }
-                _ => continue,
+                _ => false,
             }
-        }
-
-        let (op, num_inputs) = match clexpr.expr.op {
-            ClOp::BitEq => (BoolOp::eq, 2),
-            ClOp::BitNot => (BoolOp::not, 1),
-            ClOp::BitAnd => (BoolOp::and, 2),
-            ClOp::BitOr => (BoolOp::or, 2),
-            ClOp::BitXor => (BoolOp::xor, 2),
-            _ => return Ok(DecodeStatus::Unsupported),
         };
+        let args = &clexpr.expr.args;
+        if args.len() != num_inputs
+            || !args.iter().enumerate().all(is_operand)
+            || clexpr.output_posn.0 != [num_inputs as u32]
+            || bits.len() != num_inputs + 1
+        {
+            return Ok(DecodeStatus::Unsupported);
+        }
 
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
-- 
2.43.0


From 95e3a5dd514b3b159cf10fcf335246aa0e5da4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 17/38] fix: the implicit permutation of an encoded circuit
 sends qubits to the outputs they are wired to

---
 .../serialize/pytket/encoder/value_tracker.rs | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index e78fec3..4807d21 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -10,7 +10,7 @@
 //! Extensions can define which elements they map to
 
 use std::borrow::Cow;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashSet};
 
 use hugr::core::HugrNode;
 use hugr::ops::OpParent;
@@ -593,14 +593,8 @@ pub(super) fn compute_final_permutation(
     mut actual_outputs: Vec<RegisterUnit>,
     all_inputs: &[RegisterUnit],
 ) -> Vec<circuit_json::ImplicitPermutation> {
-    let declared_outputs: Vec<&RegisterUnit> = all_inputs.iter().collect();
     let mut actual_outputs_hashes: HashSet<RegisterHash> =
         actual_outputs.iter().map(RegisterHash::from).collect();
-    let mut input_hashes: HashMap<RegisterHash, usize> = HashMap::default();
-    for (i, inp) in all_inputs.iter().enumerate() {
-        let hash = inp.into();
-        input_hashes.insert(hash, i);
-    }
     // Extend `actual_outputs` with extra registers seen in the circuit.
     for reg in all_inputs {
         let hash = reg.into();
@@ -612,17 +606,14 @@ pub(super) fn compute_final_permutation(
 
     // Compute the final permutation.
     //
-    // For each element `reg` at the output of the circuit, we find its position `i` at the input,
-    // and find out the pytket output register associated with that position in the `declared_outputs` list.
+    // The qubit wired to the `k`-th output of the circuit ends up in the `k`-th declared register.
     let permutation = actual_outputs
-        .iter()
-        .map(|reg| {
-            let hash = reg.into();
-            let i = input_hashes.get(&hash).unwrap();
-            let out = declared_outputs[*i].clone();
+        .into_iter()
+        .zip_eq(all_inputs)
+        .map(|(reg, out)| {
             circuit_json::ImplicitPermutation(
-                tket_json_rs::register::Qubit { id: reg.clone() },
-                tket_json_rs::register::Qubit { id: out },
+                tket_json_rs::register::Qubit { id: reg },
+                tket_json_rs::register::Qubit { id: out.clone() },
             )
         })
         .collect_vec();
-- 
2.43.0


From b78ce6f76ec633eca38d3c3d92cc21b83254a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 18/38] fix: encode all the components of a constant tuple

---
 .../serialize/pytket/config/encoder_config.rs | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/tket/src/serialize/pytket/config/encoder_config.rs b/tket/src/serialize/pytket/config/encoder_config.rs
index faf2f03..d47d524 100644
--- a/tket/src/serialize/pytket/config/encoder_config.rs
+++ b/tket/src/serialize/pytket/config/encoder_config.rs
@@ -4,7 +4,7 @@
 //! A configuration struct contains a list of custom emitters that define
 //! translations of HUGR operations and types into pytket primitives.
 
-use std::collections::{BTreeSet, HashMap, VecDeque};
+use std::collections::{BTreeSet, HashMap};
 
 use hugr::extension::{ExtensionId, ExtensionSet};
 use hugr::ops::{ExtensionOp, Value};
@@ -116,22 +116,20 @@ impl<H: HugrView> PytketEncoderConfig<H> {
         encoder: &mut PytketEncoderContext<H>,
     ) -> Result<Option<TrackedValues>, PytketEncodeError<H::Node>> {
         let mut values = TrackedValues::default();
-        let mut queue = VecDeque::from([value]);
-        while let Some(value) = queue.pop_front() {
+        // Values left to encode, in reverse order.
+        let mut stack = vec![value];
+        while let Some(value) = stack.pop() {
             match value {
                 Value::Sum(sum) => {
                     if sum.sum_type == SumType::new_unary(2) {
                         let new_bit = encoder.values.new_bit();
-                        if value == &Value::true_val() {
-                            let op = set_bits_op(&[true]);
-                            encoder.emit_command(op, &[], &[new_bit], None);
-                        }
-                        return Ok(Some(TrackedValues::new_bits([new_bit])));
-                    }
-                    if sum.sum_type.as_tuple().is_some() {
-                        for v in sum.values.iter() {
-                            queue.push_back(v);
-                        }
+                        let op = set_bits_op(&[value == &Value::true_val()]);
+                        encoder.emit_command(op, &[], &[new_bit], None);
+                        values.append(TrackedValues::new_bits([new_bit]));
+                    } else if sum.sum_type.as_tuple().is_some() {
+                        stack.extend(sum.values.iter().rev());
+                    } else {
+                        return Ok(None);
                     }
                 }
                 Value::Extension { e: opaque } => {
-- 
2.43.0


From 8f2e9d99ad0a50cb18fec399e78b7014834a7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 19/38] fix: only strip matching parentheses from encoded
 qsystem angles

---
 tket-qsystem/src/pytket/qsystem.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 96d0483..e467a80 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -45,6 +45,23 @@ impl<H: HugrView> PytketEmitter<H> for QSystemEmitter {
     }
 }
 
+/// Returns `true` if every parenthesis in the expression is matched within it.
+fn has_balanced_parentheses(expr: &str) -> bool {
+    let mut depth = 0usize;
+    expr.chars().all(|c| match c {
+        '(' => {
+            depth += 1;
+            true
+        }
+        ')' if depth == 0 => false,
+        ')' => {
+            depth -= 1;
+            true
+        }
+        _ => true,
+    }) && depth == 0
+}
+
 impl QSystemEmitter {
     /// Encode a tket operation into a pytket operation.
     fn encode_qsystem_op<H: HugrView>(
@@ -86,9 +103,12 @@ impl QSystemEmitter {
         // Since the `tket.qsystem` op inputs are in radians, we have to convert them here.
         encoder.emit_node_command(node, circ, EmitCommandOptions::new(), move |mut inputs| {
             for param in inputs.params.to_mut() {
-                *param = match param.strip_suffix(") * (pi)") {
-                    Some(s) if s.starts_with("(") => s[1..].to_string(),
-                    _ => format!("{param} / (pi)"),
+                *param = match param
+                    .strip_prefix("(")
+                    .and_then(|s| s.strip_suffix(") * (pi)"))
+                {
+                    Some(s) if has_balanced_parentheses(s) => s.to_string(),
+                    _ => format!("({param}) / (pi)"),
                 };
             }
             make_tk1_operation(serial_op, inputs)
-- 
2.43.0


From 01f09072060eef98b08b4bf20944894de64d07a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 20/38] fix: barriers on types other than qubits and bits are
 encoded as opaque

---
 tket/src/serialize/pytket/extension/prelude.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index 0cb75e1..21c957f 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -13,7 +13,7 @@ use crate::Circuit;
 use hugr::extension::prelude::{bool_t, qb_t, BarrierDef, Noop, TupleOpDef, PRELUDE_ID};
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
-use hugr::ops::{ExtensionOp, OpType};
+use hugr::ops::{ExtensionOp, OpTrait, OpType};
 use hugr::types::TypeArg;
 use hugr::HugrView;
 use tket_json_rs::optype::OpType as PytketOptype;
@@ -38,6 +38,19 @@ impl<H: HugrView> PytketEmitter<H> for PreludeEmitter {
             return self.tuple_op_to_pytket(node, op, &tuple_op, circ, encoder);
         };
         if let Ok(_barrier) = BarrierDef::from_extension_op(op) {
+            // Pytket barriers act on qubits and bits only.
+            let signature = circ.hugr().get_optype(node).dataflow_signature();
+            let has_only_registers = signature
+                .expect("Barriers are dataflow nodes")
+                .input()
+                .iter()
+                .all(|ty| {
+                    let count = encoder.config().type_to_pytket(ty);
+                    count.is_some_and(|c| c.params == 0)
+                });
+            if !has_only_registers {
+                return Ok(EncodeStatus::Unsupported);
+            }
             encoder.emit_node(
                 PytketOptype::Barrier,
                 node,
-- 
2.43.0


From 80aab69182932118dd4b2a28a90d8681a314dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 21/38] fix: encode qsystem measure-and-reset, and runtime
 barriers as opaque

---
 tket-qsystem/src/pytket/qsystem.rs | 42 ++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index e467a80..3c2ea81 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -1,14 +1,18 @@
 //! Encoder/decoder for [qsystem::EXTENSION][use crate::extension::qsystem::EXTENSION] operations.
 
+use std::borrow::Cow;
+
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
-use hugr::ops::ExtensionOp;
-use hugr::HugrView;
+use hugr::ops::{ExtensionOp, OpTrait};
+use hugr::{HugrView, OutgoingPort};
 use itertools::Itertools as _;
 use tket::serialize::pytket::decoder::{
     DecodeStatus, LoadedParameter, ParameterType, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
-use tket::serialize::pytket::encoder::{make_tk1_operation, EmitCommandOptions, EncodeStatus};
+use tket::serialize::pytket::encoder::{
+    make_tk1_operation, EmitCommandOptions, EncodeStatus, MakeOperationArgs,
+};
 use tket::serialize::pytket::extension::PytketDecoder;
 use tket::serialize::pytket::{
     PytketDecodeError, PytketEmitter, PytketEncodeError, PytketEncoderContext,
@@ -86,8 +90,27 @@ impl QSystemEmitter {
                 return Ok(EncodeStatus::Success);
             }
             QSystemOp::LazyMeasureReset | QSystemOp::MeasureReset => {
-                // These may require a pytket measurement followed by a reset.
-                return Ok(EncodeStatus::Unsupported);
+                // A pytket measurement followed by a reset.
+                let [qubit] = encoder.get_input_values(node, circ)?.qubits[..] else {
+                    return Ok(EncodeStatus::Unsupported);
+                };
+                let bit = encoder.values.new_bit();
+                for (op, bits) in [
+                    (PytketOptype::Measure, vec![bit]),
+                    (PytketOptype::Reset, vec![]),
+                ] {
+                    let args = MakeOperationArgs {
+                        num_qubits: 1,
+                        num_bits: bits.len(),
+                        params: Cow::Borrowed(&[]),
+                    };
+                    encoder.emit_command(make_tk1_operation(op, args), &[qubit], &bits, None);
+                }
+                let qubit_wire = hugr::Wire::new(node, OutgoingPort::from(0));
+                let bit_wire = hugr::Wire::new(node, OutgoingPort::from(1));
+                encoder.values.register_wire(qubit_wire, [qubit], circ)?;
+                encoder.values.register_wire(bit_wire, [bit], circ)?;
+                return Ok(EncodeStatus::Success);
             }
             QSystemOp::LazyMeasureLeaked => {
                 // No equivalent pytket operation.
@@ -124,6 +147,15 @@ impl QSystemEmitter {
         circ: &Circuit<H>,
         encoder: &mut PytketEncoderContext<H>,
     ) -> Result<EncodeStatus, PytketEncodeError<H::Node>> {
+        // The barrier acts on an array, which has no equivalent in pytket.
+        let signature = circ.hugr().get_optype(node).dataflow_signature();
+        let is_supported = signature.is_some_and(|sig| {
+            let mut types = sig.input().iter();
+            types.all(|ty| encoder.config().type_to_pytket(ty).is_some())
+        });
+        if !is_supported {
+            return Ok(EncodeStatus::Unsupported);
+        }
         encoder.emit_node(
             PytketOptype::Barrier,
             node,
-- 
2.43.0


From abeb5059b9cdcbb8ab5c99ede6ae462bb9821a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 22/38] fix: reassembling a circuit in place keeps its
 signature

---
 tket/src/serialize/pytket/circuit.rs       |  2 ++
 tket/src/serialize/pytket/decoder/wires.rs | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 100eb6b..d03d789 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -191,6 +191,8 @@ impl EncodedCircuit<Node> {
                 options,
                 Some(&self.opaque_subgraphs),
             )?;
+            // The signature of the region cannot change.
+            decoder.wire_tracker.fix_inputs();
             decoder.run_decoder(
                 &encoded.serial_circuit.commands,
                 Some(&encoded.additional_nodes_and_wires),
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 7372181..c36d622 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -336,6 +336,9 @@ pub(crate) struct WireTracker {
     ///
     /// These will be reused as needed if new parameter names are found in the command arguments.
     unused_parameter_inputs: VecDeque<LoadedParameter>,
+    /// Whether variables with no associated input are loaded as symbolic
+    /// constants, instead of adding new inputs to the region.
+    fixed_inputs: bool,
     /// A list of input variables added to the hugr.
     ///
     /// Ordered according to their order in the function input.
@@ -394,6 +397,7 @@ impl WireTracker {
             bit_wires: IndexMap::with_capacity(bit_count),
             parameters: IndexMap::new(),
             unused_parameter_inputs: VecDeque::new(),
+            fixed_inputs: false,
             parameter_vars: IndexSet::new(),
             output_qubit_permutation: Vec::with_capacity(qubit_count),
             unsupported_wires: IndexMap::new(),
@@ -412,6 +416,14 @@ impl WireTracker {
         self.parameter_vars
     }
 
+    /// Do not add new inputs to the region.
+    ///
+    /// Variables that are not associated with an input will be loaded as
+    /// symbolic constants instead.
+    pub(in crate::serialize::pytket) fn fix_inputs(&mut self) {
+        self.fixed_inputs = true;
+    }
+
     /// The names of the input parameters of the region, in the order they were added.
     pub(in crate::serialize::pytket) fn input_parameter_names(&self) -> impl Iterator<Item = &str> {
         self.parameter_vars.iter().map(String::as_str)
@@ -912,6 +924,7 @@ impl WireTracker {
             input_params: &mut IndexMap<String, LoadedParameter>,
             param_vars: &mut IndexSet<String>,
             unused_param_inputs: &mut VecDeque<LoadedParameter>,
+            fixed_inputs: bool,
             parsed: PytketParam,
             param: &str,
             type_hint: Option<ParameterType>,
@@ -953,6 +966,12 @@ impl WireTracker {
                         _ => {
                             // Look it up in the input parameters to the circuit, and add a new float input if needed.
                             *input_params.entry(name.to_string()).or_insert_with(|| {
+                                if fixed_inputs {
+                                    let symb_op = symbolic_constant_op(name.to_string());
+                                    let wire =
+                                        hugr.add_dataflow_op(symb_op, []).unwrap().out_wire(0);
+                                    return LoadedParameter::rotation(wire);
+                                }
                                 param_vars.insert(name.to_string());
                                 match unused_param_inputs.pop_front() {
                                     Some(loaded) => loaded,
@@ -977,6 +996,7 @@ impl WireTracker {
                                 input_params,
                                 param_vars,
                                 unused_param_inputs,
+                                fixed_inputs,
                                 arg,
                                 param,
                                 Some(param_ty),
@@ -999,6 +1019,7 @@ impl WireTracker {
             &mut self.parameters,
             &mut self.parameter_vars,
             &mut self.unused_parameter_inputs,
+            self.fixed_inputs,
             parse_pytket_param(param),
             param,
             type_hint,
-- 
2.43.0


From c062a9c69a74b5a80109e5e76d2b1ff0030e4487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 23/38] fix: parameters and internal wires of opaque subgraphs
 are kept

---
 tket/src/serialize/pytket/decoder/subgraph.rs | 40 ++++++++++++++++++-
 tket/src/serialize/pytket/decoder/wires.rs    | 12 +++++-
 tket/src/serialize/pytket/encoder.rs          |  9 +++--
 tket/src/serialize/pytket/opaque/payload.rs   |  6 +++
 4 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index b74d2a2..0a944dc 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -11,6 +11,7 @@ use hugr::{Hugr, HugrView, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 
+use crate::extension::rotation::rotation_type;
 use crate::serialize::pytket::decoder::{
     DecodeStatus, FoundWire, LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
 };
@@ -143,6 +144,7 @@ impl<'h> PytketDecoderContext<'h> {
                 }
             };
 
+            self.builder.hugr_mut().disconnect(*tgt_node, *tgt_port);
             self.builder
                 .hugr_mut()
                 .connect(wire.node(), wire.source(), *tgt_node, *tgt_port);
@@ -185,8 +187,18 @@ impl<'h> PytketDecoderContext<'h> {
                 // This port declares new outputs to be tracked by the decoder.
                 // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
 
-                // Make sure to disconnect the old wire.
-                self.builder.hugr_mut().disconnect(*src, *src_port);
+                // Make sure to disconnect the old wire, except for the uses
+                // inside the subgraph itself.
+                for (tgt, tgt_port) in self
+                    .builder
+                    .hugr()
+                    .linked_inputs(*src, *src_port)
+                    .collect_vec()
+                {
+                    if !subgraph.nodes().contains(&tgt) {
+                        self.builder.hugr_mut().disconnect(tgt, tgt_port);
+                    }
+                }
 
                 let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                 let wire_bits = split_off(&mut output_bits, ..counts.bits);
@@ -205,6 +217,8 @@ impl<'h> PytketDecoderContext<'h> {
                     wire_bits.unwrap().iter().cloned(),
                 )?;
             } else {
+                self.register_subgraph_parameter(ty, EncodedEdgeID::new(wire), wire)?;
+
                 // This is an unsupported wire. If it was connected to the old
                 // region's output, rewire it to the new region's output.
                 // Otherwise leave it connected.
@@ -430,6 +444,8 @@ impl<'h> PytketDecoderContext<'h> {
                     )?;
                 }
                 None => {
+                    self.register_subgraph_parameter(ty, *edge_id, wire)?;
+
                     // This is an unsupported wire, so we let the wire tracker manage the connections.
                     self.wire_tracker.connect_unsupported_wire_source(
                         *edge_id,
@@ -441,6 +457,26 @@ impl<'h> PytketDecoderContext<'h> {
         }
         Ok(())
     }
+
+    /// Associate the output wire of a subgraph with the variable used by the
+    /// encoder to refer to its parameter, if the wire carries one.
+    fn register_subgraph_parameter(
+        &mut self,
+        ty: &Type,
+        edge_id: EncodedEdgeID,
+        wire: Wire,
+    ) -> Result<(), PytketDecodeError> {
+        if self.config().type_to_pytket(ty) != Some(RegisterCount::only_params(1)) {
+            return Ok(());
+        }
+        let loaded = if ty == &rotation_type() {
+            LoadedParameter::rotation(wire)
+        } else {
+            LoadedParameter::float_half_turns(wire)
+        };
+        self.wire_tracker
+            .register_parameter(loaded, edge_id.parameter_name(0))
+    }
 }
 
 // TODO: Replace with array's `split_off` method once MSRV is ≥1.87
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index c36d622..5b3b2a1 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1072,6 +1072,17 @@ impl WireTracker {
         &mut self,
         loaded: LoadedParameter,
         param: String,
+    ) -> Result<(), PytketDecodeError> {
+        self.register_parameter(loaded, param.clone())?;
+        self.parameter_vars.insert(param);
+        Ok(())
+    }
+
+    /// Associate a wire in the region with a parameter.
+    pub(super) fn register_parameter(
+        &mut self,
+        loaded: LoadedParameter,
+        param: String,
     ) -> Result<(), PytketDecodeError> {
         let entry = self.parameters.entry(param.clone());
         if let indexmap::map::Entry::Occupied(_) = &entry {
@@ -1080,7 +1091,6 @@ impl WireTracker {
             }
             .into());
         }
-        self.parameter_vars.insert(param);
         entry.insert_entry(loaded);
         Ok(())
     }
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 1759437..dc942ad 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -33,7 +33,7 @@ use crate::circuit::Circuit;
 use crate::serialize::pytket::circuit::{AdditionalNodesAndWires, EncodedCircuitInfo};
 use crate::serialize::pytket::config::PytketEncoderConfig;
 use crate::serialize::pytket::extension::RegisterCount;
-use crate::serialize::pytket::opaque::{OpaqueSubgraph, OpaqueSubgraphPayload};
+use crate::serialize::pytket::opaque::{EncodedEdgeID, OpaqueSubgraph, OpaqueSubgraphPayload};
 
 /// The state of an in-progress [`SerialCircuit`] being built from a [`Circuit`].
 #[derive(derive_more::Debug)]
@@ -636,6 +636,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 // Do not try to register ports with unsupported types.
                 continue;
             }
+            let edge_id = EncodedEdgeID::new(Wire::new(*out_node, *out_port));
             let new_outputs = self.register_port_output(
                 *out_node,
                 *out_port,
@@ -644,9 +645,9 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 &mut out_bits,
                 &input_param_exprs,
                 |p| {
-                    let range = out_param_count..out_param_count + p.expected_count;
-                    out_param_count += p.expected_count;
-                    range.map(|i| format!("{subgraph_id}_out{i}")).collect_vec()
+                    (0..p.expected_count)
+                        .map(|i| edge_id.parameter_name(i))
+                        .collect_vec()
                 },
             )?;
             op_values.append(new_outputs);
diff --git a/tket/src/serialize/pytket/opaque/payload.rs b/tket/src/serialize/pytket/opaque/payload.rs
index 5794f33..2b0f36d 100644
--- a/tket/src/serialize/pytket/opaque/payload.rs
+++ b/tket/src/serialize/pytket/opaque/payload.rs
@@ -60,6 +60,12 @@ impl EncodedEdgeID {
         let hash = fxhash::hash64(&wire);
         Self(hash)
     }
+
+    /// The name of the pytket variable for the `i`-th parameter in the wire,
+    /// when it is the output of an opaque subgraph.
+    pub(in crate::serialize::pytket) fn parameter_name(&self, i: usize) -> String {
+        format!("edge_{}_{i}", self.0)
+    }
 }
 
 /// Payload for a pytket barrier metadata that indicates the barrier represents
-- 
2.43.0


From 6e9c77ff4ca4d7c8b47989dd87be99bb4c6fc7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 24/38] fix: reassembling a circuit in place keeps the order of
 its bit outputs

---
 tket/src/serialize/pytket.rs                   |  2 +-
 tket/src/serialize/pytket/circuit.rs           | 12 ++++++++++--
 tket/src/serialize/pytket/decoder.rs           | 18 ++++++++++++++++--
 tket/src/serialize/pytket/encoder.rs           |  1 +
 .../serialize/pytket/encoder/value_tracker.rs  |  3 +++
 tket/src/serialize/pytket/extension/core.rs    |  2 +-
 6 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/tket/src/serialize/pytket.rs b/tket/src/serialize/pytket.rs
index 07af6e2..e569ee8 100644
--- a/tket/src/serialize/pytket.rs
+++ b/tket/src/serialize/pytket.rs
@@ -134,7 +134,7 @@ impl TKETDecode for SerialCircuit {
     ) -> Result<Node, Self::DecodeError> {
         let mut decoder = PytketDecoderContext::new(self, hugr, target, options, None)?;
         decoder.run_decoder(&self.commands, None)?;
-        Ok(decoder.finish(&[])?.node())
+        Ok(decoder.finish(&[], None)?.node())
     }
 
     fn encode(circuit: &Circuit, options: EncodeOptions) -> Result<Self, Self::EncodeError> {
diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index d03d789..a3a75b7 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -14,6 +14,7 @@ use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 use rayon::iter::{IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator};
 use tket_json_rs::circuit_json::{Command as PytketCommand, SerialCircuit};
+use tket_json_rs::register::ElementId as RegisterUnit;
 
 use crate::serialize::pytket::decoder::PytketDecoderContext;
 use crate::serialize::pytket::opaque::SubgraphId;
@@ -69,6 +70,11 @@ pub(super) struct EncodedCircuitInfo {
     // TODO: The decoder does not currently connect these, everything that
     // _produces_ a parameter gets included in unsupported subgraphs instead.
     pub output_params: Vec<String>,
+    /// List of bit registers at the region's outputs, in order.
+    ///
+    /// This may differ from the order of the registers in the circuit, and
+    /// contain the same register multiple times.
+    pub output_bits: Vec<RegisterUnit>,
 }
 
 /// Nodes and edges from the original region that could not be encoded into the
@@ -197,7 +203,9 @@ impl EncodedCircuit<Node> {
                 &encoded.serial_circuit.commands,
                 Some(&encoded.additional_nodes_and_wires),
             )?;
-            let decoded_node = decoder.finish(&encoded.output_params)?.node();
+            let decoded_node = decoder
+                .finish(&encoded.output_params, Some(&encoded.output_bits))?
+                .node();
 
             // Move any non-local edges from originating from the old input node.
             let old_input = hugr.get_io(original_region).unwrap()[0];
@@ -368,7 +376,7 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         let mut decoder =
             PytketDecoderContext::new(serial_circuit, &mut hugr, target, options, None)?;
         decoder.run_decoder(&serial_circuit.commands, None)?;
-        decoder.finish(&[])?;
+        decoder.finish(&[], None)?;
         Ok(hugr)
     }
 
diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index e9917f3..70f5aef 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -28,6 +28,7 @@ use itertools::Itertools;
 use serde_json::json;
 use tket_json_rs::circuit_json;
 use tket_json_rs::circuit_json::SerialCircuit;
+use tket_json_rs::register::ElementId as RegisterUnit;
 
 use super::{
     PytketDecodeError, METADATA_B_REGISTERS, METADATA_INPUT_PARAMETERS, METADATA_PHASE,
@@ -302,14 +303,27 @@ impl<'h> PytketDecoderContext<'h> {
     ///
     /// - `output_params`: A list of output parameter expressions to associate
     ///   with the region's outputs.
-    pub(super) fn finish(mut self, output_params: &[String]) -> Result<Node, PytketDecodeError> {
+    /// - `output_bits`: The bit registers to associate with the region's
+    ///   outputs, in order. If not provided, uses the order of the registers in
+    ///   the serial circuit.
+    pub(super) fn finish(
+        mut self,
+        output_params: &[String],
+        output_bits: Option<&[RegisterUnit]>,
+    ) -> Result<Node, PytketDecodeError> {
         // Order the final wires according to the serial circuit register order.
         let known_qubits = self
             .wire_tracker
             .known_pytket_qubits()
             .cloned()
             .collect_vec();
-        let known_bits = self.wire_tracker.known_pytket_bits().cloned().collect_vec();
+        let known_bits = match output_bits {
+            Some(registers) => registers
+                .iter()
+                .map(|reg| self.wire_tracker.tracked_bit_for_register(reg).cloned())
+                .collect::<Result<Vec<_>, _>>()?,
+            None => self.wire_tracker.known_pytket_bits().cloned().collect_vec(),
+        };
         let mut qubits = known_qubits.as_slice();
         let mut bits = known_bits.as_slice();
 
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index dc942ad..508d741 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -263,6 +263,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             serial_circuit: ser,
             input_params: tracker_result.input_params,
             output_params: tracker_result.params,
+            output_bits: tracker_result.output_bits,
             additional_nodes_and_wires: AdditionalNodesAndWires {
                 extra_subgraph,
                 extra_subgraph_params,
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 4807d21..22111ef 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -187,6 +187,8 @@ pub struct ValueTrackerResult {
     pub bits: Vec<RegisterUnit>,
     /// The final list of parameter expressions at the output.
     pub params: Vec<String>,
+    /// The bit registers at the output.
+    pub output_bits: Vec<RegisterUnit>,
     /// The implicit permutation of the qubit registers.
     pub qubit_permutation: Vec<circuit_json::ImplicitPermutation>,
     /// A list of parameter variables seen at the input node of the region.
@@ -488,6 +490,7 @@ impl<N: HugrNode> ValueTracker<N> {
             qubits: self.qubits,
             bits: self.bits,
             params: param_outputs,
+            output_bits: bit_outputs,
             qubit_permutation,
             input_params: self.input_params,
             straight_through_wires,
diff --git a/tket/src/serialize/pytket/extension/core.rs b/tket/src/serialize/pytket/extension/core.rs
index 3136f26..a304638 100644
--- a/tket/src/serialize/pytket/extension/core.rs
+++ b/tket/src/serialize/pytket/extension/core.rs
@@ -96,7 +96,7 @@ impl PytketDecoder for CoreDecoder {
                     .skip(params.len())
                     .map(ToString::to_string)
                     .collect_vec();
-                let internal = nested_decoder.finish(&[])?.node();
+                let internal = nested_decoder.finish(&[], None)?.node();
                 decoder.builder.hugr_mut().add_ports(
                     internal,
                     Direction::Incoming,
-- 
2.43.0


From a4c0262d81e396e0a543660e28e978f3b4549338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 25/38] fix: encoded commands do not overwrite bits that are
 still in use

---
 tket/src/serialize/pytket/decoder/subgraph.rs |  7 ++-
 tket/src/serialize/pytket/encoder.rs          | 52 +++++++++++++++++--
 .../serialize/pytket/encoder/value_tracker.rs | 47 +++++++++--------
 tket/src/serialize/pytket/extension/bool.rs   |  6 +--
 tket/src/serialize/pytket/extension/tk1.rs    | 18 +++++--
 5 files changed, 94 insertions(+), 36 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index 0a944dc..3947aa4 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -42,13 +42,12 @@ impl<'h> PytketDecoderContext<'h> {
             } => self.insert_inline_subgraph(hugr_envelope, inputs, outputs, qubits, bits, params),
         }?;
 
-        // Mark the used qubits and bits as outdated.
+        // Mark the used qubits as outdated.
+        //
+        // Bits that are not overwritten by the subgraph keep their value.
         qubits.iter().for_each(|q| {
             self.wire_tracker.mark_qubit_outdated(q.clone());
         });
-        bits.iter().for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
 
         Ok(status)
     }
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 508d741..f08f447 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -88,6 +88,8 @@ pub struct EmitCommandOptions<'a> {
     ///
     /// If not provided, no output parameters will be computed.
     output_params_fn: Option<Box<dyn FnOnce(OutputParamArgs<'_>) -> Vec<String> + 'a>>,
+    /// Whether the command may change the value of its input bits.
+    overwrites_bits: bool,
 }
 
 impl<'a> EmitCommandOptions<'a> {
@@ -97,6 +99,7 @@ impl<'a> EmitCommandOptions<'a> {
             reuse_qubits_fn: None,
             reuse_bits_fn: None,
             output_params_fn: None,
+            overwrites_bits: false,
         }
     }
 
@@ -127,6 +130,15 @@ impl<'a> EmitCommandOptions<'a> {
         self.reuse_bits(|inp_bits| inp_bits.to_owned())
     }
 
+    /// Reuse all input bits in the output, in the order they appear in the
+    /// input, for commands that may change their values.
+    ///
+    /// If a bit still has other users, the command gets a copy of it instead.
+    pub fn overwrite_all_bits(mut self) -> Self {
+        self.overwrites_bits = true;
+        self.reuse_all_bits()
+    }
+
     /// Set a function that computes the command's output parameters, given the
     /// input expressions.
     ///
@@ -458,6 +470,12 @@ impl<H: HugrView> PytketEncoderContext<H> {
             mut bits,
             params,
         } = self.get_input_values(node, circ)?;
+        let overwritten = if options.overwrites_bits {
+            bits.len()
+        } else {
+            0
+        };
+        self.copy_live_bits(&mut bits, overwritten);
         let params: Vec<String> = params
             .into_iter()
             .map(|p| self.values.param_expression(p).to_owned())
@@ -621,9 +639,17 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // any new output values.
         //
         // Output parameters are mapped to a fresh variable, that can be tracked
-        // back to the encoded subcircuit's function name.
-        let mut out_param_count = 0;
+        // back to the wire it comes from.
         let input_qubits = op_values.qubits.clone();
+        // The output bits overwrite the input ones.
+        let out_bit_count = subgraph
+            .signature()
+            .output()
+            .iter()
+            .filter_map(|ty| self.config().type_to_pytket(ty))
+            .map(|count| count.bits)
+            .sum();
+        self.copy_live_bits(&mut op_values.bits, out_bit_count);
         let input_bits = op_values.bits.clone();
         let mut out_qubits = input_qubits.as_slice();
         let mut out_bits = input_bits.as_slice();
@@ -676,6 +702,26 @@ impl<H: HugrView> PytketEncoderContext<H> {
         Ok(())
     }
 
+    /// Replace the first `count` bits in the list with fresh copies where
+    /// they still have other users, or appear repeatedly in the list.
+    ///
+    /// Used for the bits that get overwritten by a command.
+    fn copy_live_bits(&mut self, bits: &mut [TrackedBit], count: usize) {
+        for i in 0..bits.len() {
+            let repeated = bits[..i].contains(&bits[i]);
+            if repeated || (i < count && self.values.is_bit_live(bits[i])) {
+                let copy = self.values.new_bit();
+                let op = make_tk1_classical_operation(
+                    tket_json_rs::OpType::CopyBits,
+                    2,
+                    circuit_json::Classical::CopyBits { n_i: 1 },
+                );
+                self.emit_command(op, &[], &[bits[i], copy], None);
+                bits[i] = copy;
+            }
+        }
+    }
+
     /// Emit a new tket1 command.
     ///
     /// This is a general-purpose command that can be used to emit any tket1
@@ -1054,7 +1100,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         };
         let output_bits = match options.reuse_bits_fn {
             Some(f) => f(input_bits),
-            None => input_bits.to_vec(),
+            None => Vec::new(),
         };
 
         // Compute all the output parameters at once
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 22111ef..29a12fa 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -52,12 +52,12 @@ pub struct ValueTracker<N> {
     /// once the wire is fully explored.
     wires: BTreeMap<Wire<N>, TrackedWire>,
 
-    /// Qubits in `qubits` that are not currently registered to any wire.
+    /// Qubits in `qubits` that have not been registered to any wire.
     ///
     /// We draw names from here when a new qubit name is needed, before
     /// resorting to the `qubit_reg_generator`.
     unused_qubits: BTreeSet<TrackedQubit>,
-    /// Bits in `bits` that are not currently registered to any wire.
+    /// Bits in `bits` that have not been registered to any wire with users.
     ///
     /// We draw names from here when a new bit name is needed, before
     /// resorting to the `bit_reg_generator`.
@@ -243,6 +243,9 @@ impl<N: HugrNode> ValueTracker<N> {
         );
 
         // Register the circuit's inputs with the tracker.
+        //
+        // The registers of bit inputs with no users are free to hold other values.
+        let mut unused_input_bits = Vec::new();
         let region_optype = circ.hugr().get_optype(region);
         let signature = region_optype.inner_function_type().ok_or_else(|| {
             let optype = circ.hugr().get_optype(region).to_string();
@@ -272,6 +275,9 @@ impl<N: HugrNode> ValueTracker<N> {
             for _ in 0..count.bits {
                 let bit = tracker.new_bit();
                 wire_values.push(TrackedValue::Bit(bit));
+                if circ.hugr().linked_ports(inp_node, port).next().is_none() {
+                    unused_input_bits.push(bit);
+                }
             }
             for _ in 0..count.params {
                 let param_name = param_gen.next().unwrap();
@@ -282,6 +288,7 @@ impl<N: HugrNode> ValueTracker<N> {
 
             tracker.register_wire(wire, wire_values, circ)?;
         }
+        tracker.unused_bits.extend(unused_input_bits);
 
         Ok(tracker)
     }
@@ -301,6 +308,8 @@ impl<N: HugrNode> ValueTracker<N> {
     ///
     /// Picks unused names from the `bits` list, if available, or generates
     /// a new one with the internal generator.
+    ///
+    /// The initial value of the bit is unspecified.
     pub fn new_bit(&mut self) -> TrackedBit {
         self.unused_bits.pop_first().unwrap_or_else(|| {
             self.bits.push(self.bit_reg_generator.next());
@@ -322,7 +331,7 @@ impl<N: HugrNode> ValueTracker<N> {
     /// circuit.
     /// Bit types are not linear, so each [`TrackedBit`] is associated with a unique bit
     /// state in the circuit. The IDs may only be reused when no more users of the bit are
-    /// present in the circuit.
+    /// present in the circuit. See [`ValueTracker::is_bit_live`].
     ///
     /// ### Panics
     ///
@@ -359,7 +368,7 @@ impl<N: HugrNode> ValueTracker<N> {
 
         if unexplored_neighbours == 0 {
             // We can unregister the wire immediately, since it has no unexplored
-            // neighbours. This will free up the qubit and bit registers associated with it.
+            // neighbours.
             self.unregister_wire(wire)
                 .expect("Wire should be registered in the tracker");
         }
@@ -401,27 +410,23 @@ impl<N: HugrNode> ValueTracker<N> {
         Some(&values[..])
     }
 
-    /// Unregister a wire, freeing up the qubit and bit registers associated with it.
+    /// Unregister a wire.
+    ///
+    /// The registers associated with it are not reused for new values: they are
+    /// not in their initial zero state any more, and other wires may still
+    /// carry the same bits.
     ///
     /// Panics if the wire is not registered.
     fn unregister_wire(&mut self, wire: Wire<N>) -> Option<Vec<TrackedValue>> {
-        let wire = self.wires.remove(&wire).unwrap();
-        let values = wire.values?;
-
-        // Free up the qubit and bit registers associated with the wire.
-        for value in &values {
-            match value {
-                TrackedValue::Qubit(qb) => {
-                    self.unused_qubits.insert(*qb);
-                }
-                TrackedValue::Bit(bit) => {
-                    self.unused_bits.insert(*bit);
-                }
-                TrackedValue::Param(_) => {}
-            }
-        }
+        self.wires.remove(&wire).unwrap().values
+    }
 
-        Some(values)
+    /// Returns `true` if the bit is the value of a wire that has unexplored neighbours.
+    pub(super) fn is_bit_live(&self, bit: TrackedBit) -> bool {
+        self.wires
+            .values()
+            .filter_map(|wire| wire.values.as_ref())
+            .any(|values| values.contains(&TrackedValue::Bit(bit)))
     }
 
     /// Returns the qubit register associated with a qubit value.
diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index ef73ef5..79a00f3 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -82,10 +82,8 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
         };
 
         let new_bit = encoder.values.new_bit();
-        if const_b.value() {
-            let op = set_bits_op(&[true]);
-            encoder.emit_command(op, &[], &[new_bit], None);
-        }
+        let op = set_bits_op(&[const_b.value()]);
+        encoder.emit_command(op, &[], &[new_bit], None);
 
         Ok(Some(TrackedValues::new_bits([new_bit])))
     }
diff --git a/tket/src/serialize/pytket/extension/tk1.rs b/tket/src/serialize/pytket/extension/tk1.rs
index 2cd84f6..c54a482 100644
--- a/tket/src/serialize/pytket/extension/tk1.rs
+++ b/tket/src/serialize/pytket/extension/tk1.rs
@@ -15,7 +15,7 @@ use hugr::extension::prelude::{bool_t, qb_t};
 use hugr::extension::ExtensionId;
 use hugr::ops::{ExtensionOp, OpTrait, OpType};
 use hugr::types::{Signature, TypeArg};
-use hugr::{HugrView, IncomingPort};
+use hugr::{HugrView, IncomingPort, PortIndex};
 use itertools::Itertools;
 use tket_json_rs::circuit_json;
 
@@ -53,9 +53,19 @@ impl<H: HugrView> PytketEmitter<H> for Tk1Emitter {
         encoder.emit_node_command(
             node,
             circ,
-            EmitCommandOptions::new(),
-            // Emit the pre-defined pytket operation stored in the metadata.
-            move |_| op.serialised_op,
+            EmitCommandOptions::new().overwrite_all_bits(),
+            // Emit the pre-defined pytket operation stored in the metadata,
+            // with the parameters connected to the node.
+            move |args| {
+                let mut serialised_op = op.serialised_op;
+                let params = serialised_op.params.iter_mut().flatten();
+                for (param, input) in params.zip(&op.param_inputs) {
+                    if let Some(input) = input {
+                        *param = args.params[input.index()].clone();
+                    }
+                }
+                serialised_op
+            },
         )?;
 
         Ok(EncodeStatus::Success)
-- 
2.43.0


From 3ff78cb15256d7231eeda23eda6431d7990f07e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 26/38] fix: names of new qubits and bits are not taken by
 other registers

---
 tket/src/serialize/pytket/encoder/unit_generator.rs | 13 ++++++++-----
 tket/src/serialize/pytket/encoder/value_tracker.rs  |  8 ++++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder/unit_generator.rs b/tket/src/serialize/pytket/encoder/unit_generator.rs
index 2c736b9..34e433c 100644
--- a/tket/src/serialize/pytket/encoder/unit_generator.rs
+++ b/tket/src/serialize/pytket/encoder/unit_generator.rs
@@ -7,7 +7,7 @@ use tket_json_rs::register::ElementId as RegisterUnit;
 #[derive(Debug, Clone, Default)]
 pub struct RegisterUnitGenerator {
     /// The next index to use for a new register.
-    next_unit: u16,
+    next_unit: i64,
     /// The register name to use.
     register: String,
 }
@@ -22,16 +22,19 @@ impl RegisterUnitGenerator {
         existing: impl IntoIterator<Item = &'a RegisterUnit>,
     ) -> Self {
         let register = register.to_string();
-        let mut last_unit: Option<u16> = None;
+        let mut last_unit: Option<i64> = None;
         for reg in existing {
             if reg.0 != register {
                 continue;
             }
-            last_unit = Some(last_unit.unwrap_or_default().max(reg.1[0] as u16));
+            // Names with another number of indices are never generated.
+            if let [unit] = reg.1[..] {
+                last_unit = Some(last_unit.unwrap_or_default().max(unit));
+            }
         }
         RegisterUnitGenerator {
             register,
-            next_unit: last_unit.map_or(0, |i| i + 1),
+            next_unit: last_unit.map_or(0, |i| i.saturating_add(1)),
         }
     }
 
@@ -39,6 +42,6 @@ impl RegisterUnitGenerator {
     pub fn next(&mut self) -> RegisterUnit {
         let unit = self.next_unit;
         self.next_unit += 1;
-        RegisterUnit(self.register.clone(), vec![unit as i64])
+        RegisterUnit(self.register.clone(), vec![unit])
     }
 }
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 29a12fa..ac77ccc 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -231,8 +231,12 @@ impl<N: HugrNode> ValueTracker<N> {
 
         tracker.unused_qubits = (0..tracker.qubits.len()).map(TrackedQubit).collect();
         tracker.unused_bits = (0..tracker.bits.len()).map(TrackedBit).collect();
-        tracker.qubit_reg_generator = RegisterUnitGenerator::new("q", tracker.qubits.iter());
-        tracker.bit_reg_generator = RegisterUnitGenerator::new("c", tracker.bits.iter());
+        // Qubits and bits share the same namespace.
+        let existing = || tracker.qubits.iter().chain(tracker.bits.iter());
+        let qubit_reg_generator = RegisterUnitGenerator::new("q", existing());
+        let bit_reg_generator = RegisterUnitGenerator::new("c", existing());
+        tracker.qubit_reg_generator = qubit_reg_generator;
+        tracker.bit_reg_generator = bit_reg_generator;
 
         // Generator of input parameter variable names.
         let existing_param_vars: HashSet<String> = param_variable_names.iter().cloned().collect();
-- 
2.43.0


From 452de55046b47a7dec5fde9a0a314970d9abebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 27/38] fix: truncating the state queue keeps the all-time best
 states

---
 tket/src/optimiser/pqueue.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tket/src/optimiser/pqueue.rs b/tket/src/optimiser/pqueue.rs
index 08bb8d0..31f11c5 100644
--- a/tket/src/optimiser/pqueue.rs
+++ b/tket/src/optimiser/pqueue.rs
@@ -160,8 +160,7 @@ impl<S: Clone, P: Clone + Ord> StatePQueue<S, P> {
     #[allow(unused)]
     pub fn truncate(&mut self, max_size: usize) {
         while self.queue.len() > max_size {
-            let (hash, _) = self.queue.pop_max().unwrap();
-            self.hash_lookup.remove(&hash);
+            self.pop_max();
         }
     }
 
-- 
2.43.0


From a910b244ac6a9bc5cf3a74d6ee8a87da7fdec0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 28/38] fix: chunks of a circuit keep the contents of nested
 regions

---
 tket/src/passes/chunks.rs | 43 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 486ffdd..750a473 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -60,7 +60,7 @@ impl Chunk {
             checker,
         )
         .expect("Failed to define the chunk subgraph");
-        let extracted = subgraph.extract_subgraph(circ.hugr(), "Chunk").into();
+        let extracted = extract_subgraph(&subgraph, circ.hugr()).into();
         // Transform the subgraph's input/output sets into wires that can be
         // matched between different chunks.
         //
@@ -110,7 +110,7 @@ impl Chunk {
         let subgraph =
             SiblingSubgraph::<Node>::try_new_dataflow_subgraph::<_, DataflowParentID>(&chunk)
                 .unwrap_or_else(|e| panic!("The chunk circuit is no longer a dataflow graph: {e}"));
-        let node_map = circ.insert_subgraph(root, &chunk, &subgraph);
+        let node_map = insert_subgraph(circ, root, &chunk, &subgraph);
 
         let mut input_map = HashMap::with_capacity(self.inputs.len());
         let mut output_map = HashMap::with_capacity(self.outputs.len());
@@ -201,6 +201,45 @@ impl Chunk {
     }
 }
 
+/// Copy the nodes of a subgraph, including the contents of its nested regions.
+fn insert_subgraph<H: HugrView>(
+    hugr: &mut impl HugrMut<Node = Node>,
+    root: Node,
+    other: &H,
+    subgraph: &SiblingSubgraph<H::Node>,
+) -> HashMap<H::Node, Node> {
+    let nodes = subgraph.nodes();
+    hugr.insert_view_forest(
+        other,
+        nodes.iter().flat_map(|&n| other.descendants(n)),
+        nodes.iter().map(|&n| (n, root)),
+    )
+    .expect("SiblingSubgraph nodes are a set")
+    .node_map
+}
+
+/// Copy a subgraph into a function of its own, including the contents of its
+/// nested regions.
+fn extract_subgraph(subgraph: &SiblingSubgraph, hugr: &Hugr) -> Hugr {
+    let mut builder = FunctionBuilder::new("Chunk", subgraph.signature(hugr)).unwrap();
+    // Take the unfinished Hugr from the builder, to avoid unnecessary
+    // validation checks that require connecting the inputs and outputs.
+    let mut extracted = mem::take(builder.hugr_mut());
+    let root = extracted.entrypoint();
+    let node_map = insert_subgraph(&mut extracted, root, hugr, subgraph);
+
+    let [inp, out] = extracted.get_io(root).unwrap();
+    for (index, ports) in subgraph.incoming_ports().iter().enumerate() {
+        for &(node, port) in ports {
+            extracted.connect(inp, index, node_map[&node], port);
+        }
+    }
+    for (index, &(node, port)) in subgraph.outgoing_ports().iter().enumerate() {
+        extracted.connect(node_map[&node], port, out, index);
+    }
+    extracted
+}
+
 /// A map from the original input/output [`ChunkConnection`]s to an inserted chunk's inputs and outputs.
 #[derive(Debug, Clone)]
 struct ChunkInsertResult {
-- 
2.43.0


From e5a1aa1b698167f9449e95393f29e09dd9e580cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 29/38] fix: chunks that use the same wire more than once are
 reassembled with all their inputs

---
 tket/src/passes/chunks.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 750a473..5f42999 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -133,7 +133,11 @@ impl Chunk {
                     }
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // The same wire may be connected to multiple inputs.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(chunk.node_inputs(chunk_out)) {
@@ -177,7 +181,11 @@ impl Chunk {
                     ConnectionTarget::TransitiveConnection(output_connection)
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // The same wire may be connected to multiple inputs.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(hugr.node_inputs(chunk_out)) {
-- 
2.43.0


From 3881d8326b9426b84e7974a2b0ff9bd03d52b3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 30/38] fix: chunks cost at most the maximum, counting their
 first operation and all of their cost

---
 tket/src/passes/chunks.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 5f42999..a1e649e 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -23,7 +23,7 @@ use rayon::slice::ParallelSliceMut;
 
 use crate::Circuit;
 
-use crate::circuit::cost::{CircuitCost, CostDelta};
+use crate::circuit::cost::CircuitCost;
 
 /// An identifier for the connection between chunks.
 ///
@@ -300,12 +300,13 @@ impl CircuitChunks {
     ///
     /// The circuit is split into chunks of at most `max_size` gates.
     pub fn split(circ: &Circuit, max_size: usize) -> Self {
-        Self::split_with_cost(circ, max_size.saturating_sub(1), |_| 1)
+        Self::split_with_cost(circ, max_size, |_| 1)
     }
 
     /// Split a circuit into chunks.
     ///
     /// The circuit is split into chunks of at most `max_cost`, using the provided cost function.
+    /// Operations that cost more than that get a chunk of their own.
     pub fn split_with_cost<C: CircuitCost>(
         circ: &Circuit,
         max_cost: C,
@@ -331,9 +332,11 @@ impl CircuitChunks {
         let mut running_cost = C::default();
         let mut current_group = 0;
         for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
-            let new_cost = running_cost.clone() + op_cost(hugr.get_optype(node));
-            if new_cost.sub_cost(&max_cost).as_isize() > 0 {
-                running_cost = C::default();
+            let cost = op_cost(hugr.get_optype(node));
+            let new_cost = running_cost.clone() + cost.clone();
+            if new_cost > max_cost {
+                // The operation starts a new chunk.
+                running_cost = cost;
                 current_group += 1;
             } else {
                 running_cost = new_cost;
-- 
2.43.0


From dbf85b3909d29c9b8c8d2b9a860bb52cc5b6899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 31/38] fix: a circuit split into chunks keeps its name

---
 tket/src/passes/chunks.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index a1e649e..bd0e035 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -282,6 +282,9 @@ pub struct CircuitChunks {
     /// The original circuit's signature.
     signature: Signature,
 
+    /// The original circuit's name.
+    name: String,
+
     /// The original circuit's root metadata.
     root_meta: Option<NodeMetadataMap>,
 
@@ -315,6 +318,11 @@ impl CircuitChunks {
         let hugr = circ.hugr();
         let root_meta = hugr.node_metadata_map(circ.parent()).clone();
         let signature = circ.circuit_signature().clone();
+        let name = circ
+            .name()
+            .or_else(|| root_meta.get("name").and_then(|s| s.as_str()))
+            .unwrap_or_default()
+            .to_string();
 
         let [circ_input, circ_output] = circ.io_nodes();
         let input_connections = hugr
@@ -347,6 +355,7 @@ impl CircuitChunks {
         }
         Self {
             signature: signature.into_owned(),
+            name,
             root_meta: Some(root_meta),
             input_connections,
             output_connections,
@@ -356,14 +365,7 @@ impl CircuitChunks {
 
     /// Reassemble the chunks into a circuit.
     pub fn reassemble(self) -> Result<Circuit, HugrError> {
-        let name = self
-            .root_meta
-            .as_ref()
-            .and_then(|map| map.get("name"))
-            .and_then(|s| s.as_str())
-            .unwrap_or("");
-
-        let mut builder = FunctionBuilder::new(name, self.signature).unwrap();
+        let mut builder = FunctionBuilder::new(self.name, self.signature).unwrap();
         // Take the unfinished Hugr from the builder, to avoid unnecessary
         // validation checks that require connecting the inputs an outputs.
         let mut reassembled = mem::take(builder.hugr_mut());
-- 
2.43.0


From 29ea2fd244256fd31485b66f85c0f4a796bea158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 32/38] fix: intervals are not extended by nodes that are not
 on their resource path

---
 tket/src/subcircuit/interval.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tket/src/subcircuit/interval.rs b/tket/src/subcircuit/interval.rs
index 1e36e79..b8ea01a 100644
--- a/tket/src/subcircuit/interval.rs
+++ b/tket/src/subcircuit/interval.rs
@@ -264,6 +264,13 @@ impl<N: HugrNode> Interval<N> {
         match self.position_in_interval(pos, scope) {
             // pos is already within the interval
             Ordering::Equal => {
+                let resource_id = self.resource_id(scope);
+                if !Direction::BOTH
+                    .iter()
+                    .any(|&dir| scope.get_port(node, resource_id, dir).is_some())
+                {
+                    return Err(InvalidInterval::NotOnResourcePath(node));
+                }
                 return Ok(None);
             }
             // pos is before the interval
-- 
2.43.0


From 73c87befa2eb2a0a20b1d06b2590a8212f1fe58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:13 +0000
Subject: [PATCH 33/38] verif hook: intervals are visible under cfg(tket_verif)

---
 tket/src/subcircuit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tket/src/subcircuit.rs b/tket/src/subcircuit.rs
index f29f3db..5a465d2 100644
--- a/tket/src/subcircuit.rs
+++ b/tket/src/subcircuit.rs
@@ -5,3 +5,6 @@ mod expression;
 pub use expression::CopyableExpr;
 
 mod interval;
+#[allow(unexpected_cfgs)]
+#[cfg(tket_verif)]
+pub use interval::{Interval, InvalidInterval};
-- 
2.43.0


From 47750af162e4c728f9faed846a4d6ee773a1f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:15 +0000
Subject: [PATCH 34/38] fix: the circuit hash tells apart what a call refers
 to, tags, type arguments and extensions

---
 tket/src/circuit/hash.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/tket/src/circuit/hash.rs b/tket/src/circuit/hash.rs
index 5112670..1eea464 100644
--- a/tket/src/circuit/hash.rs
+++ b/tket/src/circuit/hash.rs
@@ -85,13 +85,13 @@ impl HashState {
 }
 
 /// Returns a hashable representation of an operation.
-fn hashable_op(op: &OpType) -> impl Hash {
+fn hashable_op(op: &OpType) -> String {
     match op {
         OpType::ExtensionOp(op) if !op.args().is_empty() => {
             // TODO: Require hashing for TypeParams?
             format!(
                 "{}[{}]",
-                op.def().name(),
+                op.qualified_id(),
                 serde_json::to_string(op.args()).unwrap()
             )
         }
@@ -102,6 +102,30 @@ fn hashable_op(op: &OpType) -> impl Hash {
                 serde_json::to_string(op.args()).unwrap()
             )
         }
+        OpType::Tag(tag) => {
+            format!(
+                "{}[{},{}]",
+                op,
+                tag.tag,
+                serde_json::to_string(&tag.variants).unwrap()
+            )
+        }
+        OpType::Call(call) if !call.type_args.is_empty() => {
+            format!(
+                "{}[{}]",
+                op,
+                serde_json::to_string(&call.type_args).unwrap()
+            )
+        }
+        OpType::LoadFunction(load) if !load.type_args.is_empty() => {
+            format!(
+                "{}[{}]",
+                op,
+                serde_json::to_string(&load.type_args).unwrap()
+            )
+        }
+        OpType::FuncDefn(func) => format!("{}[{}]", op, func.func_name()),
+        OpType::FuncDecl(func) => format!("{}[{}]", op, func.func_name()),
         _ => op.to_string(),
     }
 }
@@ -136,7 +160,11 @@ fn hash_node(
         let input_hash = circ
             .linked_ports(node, input)
             .map(|(pred_node, pred_port)| {
-                let pred_node_hash = state.node_hash(pred_node);
+                // Predecessors outside of the region, such as called functions and
+                // constants, have no hash of their own.
+                let pred_node_hash = state
+                    .node_hash(pred_node)
+                    .ok_or_else(|| hashable_op(circ.get_optype(pred_node)));
                 fxhash::hash64(&(pred_node_hash, pred_port, input))
             })
             .fold(0, |total, hash| hash ^ total);
-- 
2.43.0


From 66dd88099c7a57b6c9e7791d9efeb7bd85764c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:21 +0000
Subject: [PATCH 35/38] fix: constant borrow arrays of tket.bool are replaced

---
 tket-qsystem/src/replace_bools.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tket-qsystem/src/replace_bools.rs b/tket-qsystem/src/replace_bools.rs
index 0187a3c..8f401b0 100644
--- a/tket-qsystem/src/replace_bools.rs
+++ b/tket-qsystem/src/replace_bools.rs
@@ -3,6 +3,7 @@
 mod static_array;
 
 use derive_more::{Display, Error, From};
+use hugr::algorithms::replace_types::handlers::generic_array_const;
 use hugr::algorithms::replace_types::{NodeTemplate, ReplaceTypesError, ReplacementOptions};
 use hugr::algorithms::{
     ensure_no_nonlocal_edges, non_local::FindNonLocalEdgesError, ComposablePass, ReplaceTypes,
@@ -335,6 +336,12 @@ fn lowerer() -> ReplaceTypes {
         },
     );
 
+    // Constant borrow arrays of tket.bool, which `ReplaceTypes::default` does not handle.
+    lw.replace_consts_parametrized(
+        borrow_array::borrow_array_type_def(),
+        generic_array_const::<BorrowArray>,
+    );
+
     // Replace all tket.bool ops.
     let read_op = BoolOp::read.to_extension_op().unwrap();
     lw.replace_op(&read_op, read_op_dest());
-- 
2.43.0


From c6b66654f76916a8d0da2ebd7560ab9df5dfbe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:22 +0000
Subject: [PATCH 36/38] fix: getting an element of an array of tket.bool is
 lowered

---
 tket-qsystem/src/replace_bools.rs | 77 ++++++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 17 deletions(-)

diff --git a/tket-qsystem/src/replace_bools.rs b/tket-qsystem/src/replace_bools.rs
index 8f401b0..4585b0a 100644
--- a/tket-qsystem/src/replace_bools.rs
+++ b/tket-qsystem/src/replace_bools.rs
@@ -19,8 +19,10 @@ use hugr::std_extensions::arithmetic::{
     conversions::ConvertOpDef, int_ops::IntOpDef, int_types::ConstInt,
 };
 use hugr::std_extensions::collections::{
-    array::{self, array_type, GenericArrayOpDef, ARRAY_CLONE_OP_ID, ARRAY_DISCARD_OP_ID},
-    borrow_array::{self, borrow_array_type, BArrayUnsafeOpDef, BorrowArray},
+    array::{self, array_type, Array, GenericArrayOpDef, ARRAY_CLONE_OP_ID, ARRAY_DISCARD_OP_ID},
+    borrow_array::{
+        self, borrow_array_type, BArrayFromArray, BArrayToArray, BArrayUnsafeOpDef, BorrowArray,
+    },
 };
 use hugr::std_extensions::logic::LogicOp;
 use hugr::types::{SumType, Term, Type};
@@ -291,6 +293,34 @@ fn barray_get_dest(size: u64, elem_ty: Type) -> NodeTemplate {
     NodeTemplate::CompoundOp(Box::new(h))
 }
 
+/// Arrays have no operation that borrows an element, so go through a borrow array.
+fn array_get_dest(size: u64, elem_ty: Type) -> NodeTemplate {
+    let array_ty = array_type(size, elem_ty.clone());
+    let opt_el = option_type(elem_ty.clone());
+    let mut dfb = DFGBuilder::new(inout_sig(
+        vec![array_ty.clone(), usize_t()],
+        vec![opt_el.into(), array_ty],
+    ))
+    .unwrap();
+    let [arr_in, idx] = dfb.input_wires_arr();
+    let [barr] = dfb
+        .add_dataflow_op(BArrayFromArray::new(elem_ty.clone(), size), [arr_in])
+        .unwrap()
+        .outputs_arr();
+    let [elem, barr] = barray_get_dest(size, elem_ty.clone())
+        .add(&mut dfb, [barr, idx])
+        .unwrap()
+        .outputs_arr();
+    let [arr] = dfb
+        .add_dataflow_op(BArrayToArray::new(elem_ty, size), [barr])
+        .unwrap()
+        .outputs_arr();
+    // Do not finish DFG: it contains "invalid" copy_dfg that needs linearizing
+    dfb.set_outputs([elem, arr]).unwrap();
+    let h = std::mem::take(dfb.hugr_mut());
+    NodeTemplate::CompoundOp(Box::new(h))
+}
+
 /// The configuration used for replacing tket.bool extension types and ops.
 fn lowerer() -> ReplaceTypes {
     let mut lw = ReplaceTypes::default();
@@ -410,21 +440,34 @@ fn lowerer() -> ReplaceTypes {
         );
     }
 
-    lw.replace_parametrized_op_with(
-        borrow_array::EXTENSION
-            .get_op(GenericArrayOpDef::<BorrowArray>::get.opdef_id().as_str())
-            .unwrap(),
-        |args| {
-            let [Term::BoundedNat(size), Term::Runtime(elem_ty)] = args else {
-                unreachable!()
-            };
-            if elem_ty.copyable() {
-                return None;
-            }
-            Some(barray_get_dest(*size, elem_ty.clone()))
-        },
-        ReplacementOptions::default().with_linearization(true),
-    );
+    for (get_op, dest_fn) in [
+        (
+            array::EXTENSION
+                .get_op(GenericArrayOpDef::<Array>::get.opdef_id().as_str())
+                .unwrap(),
+            array_get_dest as fn(u64, Type) -> NodeTemplate,
+        ),
+        (
+            borrow_array::EXTENSION
+                .get_op(GenericArrayOpDef::<BorrowArray>::get.opdef_id().as_str())
+                .unwrap(),
+            barray_get_dest as fn(u64, Type) -> NodeTemplate,
+        ),
+    ] {
+        lw.replace_parametrized_op_with(
+            get_op,
+            move |args| {
+                let [Term::BoundedNat(size), Term::Runtime(elem_ty)] = args else {
+                    unreachable!()
+                };
+                if elem_ty.copyable() {
+                    return None;
+                }
+                Some(dest_fn(*size, elem_ty.clone()))
+            },
+            ReplacementOptions::default().with_linearization(true),
+        );
+    }
 
     lw
 }
-- 
2.43.0


From d6b3c8f6a589590e0d9b013d5dce46d9aa902720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:22 +0000
Subject: [PATCH 37/38] fix: removing a tuple pack with unused components, or
 used several times

---
 tket/src/passes/tuple_unpack.rs | 64 ++++++++++++---------------------
 1 file changed, 23 insertions(+), 41 deletions(-)

diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 52ca10d..cec0d47 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -8,7 +8,7 @@ use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::{OpTrait, OpType};
 use hugr::types::Type;
-use hugr::{HugrView, Node};
+use hugr::{HugrView, Node, PortIndex};
 use itertools::Itertools;
 
 use crate::circuit::Command;
@@ -79,64 +79,46 @@ fn make_rewrite<T: HugrView<Node = Node>>(
         return None;
     }
 
-    // Remove all unpack operations, but only remove the pack operation if all neighbours are unpacks.
-    let num_other_outputs = links.len() - unpack_nodes.len();
+    // Remove all unpack operations. If any neighbour is not an unpack, the pack
+    // operation is re-added for it.
     Some(remove_pack_unpack(
         circ,
         &tuple_types,
         tuple_node,
         unpack_nodes,
-        num_other_outputs,
     ))
 }
 
 /// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
-/// and `other_tuple_links` other operations.
+/// and possibly other operations.
 fn remove_pack_unpack<T: HugrView<Node = Node>>(
     circ: &Circuit<T>,
     tuple_types: &[Type],
     pack_node: Node,
     unpack_nodes: Vec<Node>,
-    num_other_outputs: usize,
 ) -> CircuitRewrite {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
     let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
-    let subcirc_signature = subgraph.signature(circ.hugr());
-
-    // The output port order in `Subcircuit::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
-
-    let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
-
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
-
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
-        let op = MakeTuple::new(tuple_types.to_vec().into());
-        let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
-            .unwrap()
-            .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs))
+    let mut replacement = DFGBuilder::new(subgraph.signature(circ.hugr())).unwrap();
+
+    // The subgraph has an output for each port with a use outside of it. Wire
+    // the unpack outputs directly to the input with the same index.
+    //
+    // If needed, re-add the tuple pack node and connect it to the tuple output.
+    let inputs = replacement.input_wires().collect_vec();
+    let mut outputs = Vec::with_capacity(subgraph.outgoing_ports().len());
+    for &(node, port) in subgraph.outgoing_ports() {
+        if node == pack_node {
+            let op = MakeTuple::new(tuple_types.to_vec().into());
+            let [tuple] = replacement
+                .add_dataflow_op(op, inputs.iter().copied())
+                .unwrap()
+                .outputs_arr();
+            outputs.push(tuple);
+        } else {
+            outputs.push(inputs[port.index()]);
+        }
     }
 
     let replacement = replacement
-- 
2.43.0


From a993ba231ae9a4f1b6662e0acb412a23f7d1cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:23 +0000
Subject: [PATCH 38/38] fix: unpacking containers of options, of empty
 containers

---
 tket/src/passes/unpack_container.rs | 52 +++++++++++++++++------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 5e48b17..2590de7 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -259,7 +259,14 @@ impl UnpackContainerBuilder {
 
             let result: Vec<_> = elems
                 .into_iter()
-                .map(|wire| self.unpack_container(func_b, elem_ty, wire))
+                .map(|wire| {
+                    if self.is_option_elem(elem_ty) {
+                        let elem_ty = self.type_analyzer.element_type();
+                        Ok(vec![self.unpack_option(func_b, wire, elem_ty)?])
+                    } else {
+                        self.unpack_container(func_b, elem_ty, wire)
+                    }
+                })
                 .collect::<Result<Vec<_>, _>>()?
                 .concat();
             Ok(result)
@@ -271,6 +278,12 @@ impl UnpackContainerBuilder {
             .collect())
     }
 
+    /// Whether array elements of this type are options of the element type,
+    /// which get unwrapped. Options outside of arrays are left alone, see [TypeUnpacker].
+    fn is_option_elem(&self, ty: &Type) -> bool {
+        is_opt_of(ty, self.type_analyzer.element_type())
+    }
+
     /// Helper function for array arguments
     fn array_args<AK: ArrayKind>(&self, size: u64, elem_ty: &Type) -> Option<[TypeArg; 3]> {
         let row = self
@@ -303,17 +316,27 @@ impl UnpackContainerBuilder {
             }
         };
 
-        let inner_row_len = self.type_analyzer.num_unpacked_wires(elem_ty);
+        let is_option = self.is_option_elem(elem_ty);
+        let inner_row_len = match is_option {
+            true => 1,
+            false => self.type_analyzer.num_unpacked_wires(elem_ty),
+        };
         let op = self.get_op(op_name, args.clone()).expect("known op");
 
         self.func_map.insert_with(&op, &args[..2], |func_b| {
             let input = func_b.input();
             // SAFETY: We guarantee no aliasing by only using this pointer in this closure.
-            let elems: Result<Vec<_>, _> = input
-                .outputs()
-                .collect::<Vec<_>>()
-                .chunks(inner_row_len)
-                .map(|chunk| self.repack_container(func_b, elem_ty, chunk.to_vec()))
+            let mut in_wires = input.outputs();
+            let elems: Result<Vec<_>, _> = (0..size)
+                .map(|_| {
+                    let elem_wires: Vec<_> = in_wires.by_ref().take(inner_row_len).collect();
+                    if is_option {
+                        let elem_ty = self.type_analyzer.element_type();
+                        self.repack_option(func_b, elem_wires[0], elem_ty)
+                    } else {
+                        self.repack_container(func_b, elem_ty, elem_wires)
+                    }
+                })
                 .collect();
 
             let array_wire = func_b.add_new_generic_array::<AK>(elem_ty.clone(), elems?)?;
@@ -456,15 +479,6 @@ impl UnpackContainerBuilder {
             return Ok(vec![container_wire]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, &hugr::extension::prelude::qb_t()) {
-            return Ok(vec![self.unpack_option(
-                builder,
-                container_wire,
-                elem_ty,
-            )?]);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $unpack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
@@ -507,12 +521,6 @@ impl UnpackContainerBuilder {
             return Ok(unpacked_wires[0]);
         }
 
-        // Check for option of qubit
-        if is_opt_of(ty, elem_ty) {
-            debug_assert!(unpacked_wires.len() == 1);
-            return self.repack_option(builder, unpacked_wires[0], elem_ty);
-        }
-
         macro_rules! handle_array_type {
             ($array_kind:ty, $repack_op:expr) => {
                 if let Some((n, elem_ty)) = ty.as_extension().and_then(array_args::<$array_kind>) {
-- 
2.43.0

