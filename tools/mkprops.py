#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of claimed and considered properties)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Lowering to the native gate set preserves every gate's meaning",
  "Lowering a program to the Quantinuum native gate set replaces every tket quantum operation by native operations that act identically on the qubits up to a global phase, for every rotation angle, and yield the same measurement results, resets and allocations. Each public gate builder of the native gate set implements the gate it is named after, and no tket quantum operation is left behind by the lowering.",
  ["inputs", "programs"], "all gates, all real angles, all input states, all programs built from them",
  "The tests compare the list of emitted operation names (or nothing at all for multi-qubit gates); no test looks at an angle or evaluates a unitary, and no finite sample of angles settles all of them.",
  ["tket-qsystem/src/extension/qsystem.rs", "tket-qsystem/src/extension/qsystem/lower.rs", "tket-qsystem/src/extension/qsystem/barrier"],
  [("QSystemOpBuilder::build_*", "tket-qsystem/src/extension/qsystem.rs"), ("lower_tk2_op, build_func, direct_map, build_to_radians", "tket-qsystem/src/extension/qsystem/lower.rs")],
  ["the HUGR produced by the lowering pass"])
p("C02", "Resolving control and dagger modifiers gives the controlled/inverse gate",
  "Resolving modifiers on a function call produces a program that applies exactly the controlled and/or inverse version of the function's unitary, including the relative phase that becomes observable under control, for every gate, every angle, any number of controls and any nesting of modifiers. Control qubits are returned unchanged and in order, and two daggers cancel.",
  ["inputs", "programs"], "all gates, all angles, all stacks of dagger and control modifiers, all straight-line function bodies",
  "The tests only check that the resolver terminates and produces a valid graph; no test evaluates what the graph does, and the phase under control is invisible to structural checks.",
  ["tket/src/modifier.rs", "tket/src/modifier/modifier_resolver.rs", "tket/src/modifier/modifier_resolver/"],
  [("modify_tket_op and the gate cases", "tket/src/modifier/modifier_resolver/tket_op_modify.rs"), ("CombinedModifier::push", "tket/src/modifier.rs"), ("modify_global_phase", "tket/src/modifier/modifier_resolver/global_phase_modify.rs"), ("modify_dfg_body, modify_call", "tket/src/modifier/modifier_resolver/")],
  ["the HUGR produced by the modifier resolution pass"])
p("C03", "Importing a pytket circuit keeps the meaning of every command",
  "Decoding a pytket circuit yields a program whose action on the qubits and classical bits is that of the pytket circuit (up to a global phase), for every supported gate type, every value of its parameters and every assignment of registers to its arguments. Qubits and bits come out in the positions the circuit declares, including its implicit qubit permutation.",
  ["inputs", "programs"], "all supported operation types, all parameter values, all circuits built from them",
  "The tests decode fixed circuits and compare structure or re-encode with the same tables; a wrong table entry, swapped arguments or a wrong half-turn/radian conversion that is symmetric under re-encoding is not seen.",
  ["tket/src/serialize/pytket/decoder.rs", "tket/src/serialize/pytket/decoder/", "tket/src/serialize/pytket/extension/", "tket-qsystem/src/pytket/"],
  [("CoreDecoder/TketOpEmitter/Tk1Emitter/... op_to_hugr", "tket/src/serialize/pytket/extension"), ("LoadedParameter conversions", "tket/src/serialize/pytket/decoder/param.rs"), ("WireTracker", "tket/src/serialize/pytket/decoder/wires.rs")],
  ["SerialCircuit::decode"])
p("C04", "Exporting to pytket and re-importing keeps the circuit's meaning",
  "Encoding a circuit as pytket commands emits, for every operation and every parameter expression, pytket commands with the same action on qubits and bits (up to a global phase), and decoding the result gives back a program with the same signature and the same action as the original. Operations pytket cannot express survive the round trip in their place.",
  ["inputs", "programs"], "all circuits over the supported operations, all parameter values",
  "The round-trip tests cover a dozen fixed circuits and compare them structurally after both directions; errors that cancel between the two directions and circuits with other shapes, parameters or qubit permutations are not covered.",
  ["tket/src/serialize/pytket/encoder.rs", "tket/src/serialize/pytket/encoder/", "tket/src/serialize/pytket/extension/", "tket/src/serialize/pytket/circuit.rs", "tket/src/serialize/pytket/opaque/"],
  [("PytketEncoderContext", "tket/src/serialize/pytket/encoder.rs"), ("ValueTracker, RegisterUnitGenerator", "tket/src/serialize/pytket/encoder"), ("TketOpEmitter::op_to_pytket, RotationEmitter, FloatEmitter", "tket/src/serialize/pytket/extension")],
  ["SerialCircuit::encode, SerialCircuit::decode"])
p("C05", "Gate parameter expressions evaluate to the angle they denote",
  "Loading a pytket parameter expression produces a computation whose value, for every assignment of its free variables, is the value of the expression under the usual rules of arithmetic (operator precedence and associativity, unary minus, named functions, the constant pi), in half-turns; no malformed expression is read as a different number.",
  ["inputs"], "all parameter expressions of the grammar, all values of their variables",
  "The tests parse about twenty fixed strings and compare syntax trees; precedence, associativity and the graphs emitted for each operator are checked at no other point and no value is ever computed.",
  ["tket/src/serialize/pytket/decoder/param.rs", "tket/src/serialize/pytket/decoder/param/parser.rs", "tket/src/serialize/pytket/decoder/param/param.pest", "tket/src/serialize/pytket/decoder/wires.rs"],
  [("parse_pytket_param, PRATT_PARSER", "tket/src/serialize/pytket/decoder/param/parser.rs"), ("WireTracker::load_half_turns", "tket/src/serialize/pytket/decoder/wires.rs")],
  ["SerialCircuit::decode of a parametrised gate"])
p("C06", "Gate commutation is only used when it is true",
  "Whenever the optimiser regards an operation as commuting with a Pauli on one of its qubits, the operation does commute with that Pauli as a matrix, for all angles; and two Paulis are regarded as commuting exactly when they do. Greedy commutation returns a valid program with the same action as its input and never increases its depth or changes its gates.",
  ["inputs", "programs"], "all gates, ports, Paulis and angles; all circuits",
  "The tests check a few hand-written circuits for the moves they expect; neither the commutation table nor the action of the rewritten circuit is compared with the matrices.",
  ["tket/src/ops.rs", "tket/src/passes/commutation.rs"],
  [("TketOp::qubit_commutation, Pauli::commutes_with", "tket/src/ops.rs"), ("apply_greedy_commutation, PullForward, available_slice", "tket/src/passes/commutation.rs")],
  ["apply_greedy_commutation"], "tket_verif: the private commutation table")
p("C07", "Optimisers return an equivalent circuit that costs no more",
  "Running the Badger optimiser, with any cost function, strategy, rewriter set, queue size, split mode or thread count, returns a valid circuit with the same signature and the same action on its qubits (up to a global phase) whose cost is at most the cost of the input circuit. Every rewrite a rewriter proposes preserves the circuit's action, and a strategy only applies rewrites whose cost change it accepts.",
  ["programs", "configurations"], "all circuits, all rewrite sets made of equivalent circuits, all optimiser options",
  "The tests optimise three or four fixed circuits with one rewrite set and compare gate counts; the action of the result is never evaluated and most configurations are never run.",
  ["tket/src/optimiser/badger.rs", "tket/src/optimiser/backtracking.rs", "tket/src/optimiser/pqueue_worker.rs", "tket/src/optimiser/badger/", "tket/src/rewrite.rs", "tket/src/rewrite/", "tket/src/portmatching/"],
  [("BacktrackingOptimiser::optimise_with_options", "tket/src/optimiser/backtracking.rs"), ("BadgerOptimiser::badger_multithreaded, badger_split_multithreaded", "tket/src/optimiser/badger.rs"), ("RewriteStrategy::apply_rewrites", "tket/src/rewrite/strategy.rs"), ("ECCRewriter::get_rewrites", "tket/src/rewrite/ecc_rewriter.rs")],
  ["BadgerOptimiser::optimise, RewriteStrategy::apply_rewrites"])
p("C08", "Circuit costs form an ordered additive scale",
  "Lexicographic costs compare first component first; adding the difference between two costs to the second gives back the first; differences have the sign of the comparison; costs add componentwise; and dividing a cost by n gives the smallest cost that n equal shares can cover. Each gate is charged exactly to its own cost component.",
  ["inputs"], "all cost values below the signed word limit, all divisors, all gates",
  "Machine integers: four example values are tested, signedness and rounding at the boundaries are not.",
  ["tket/src/circuit/cost.rs", "tket/src/rewrite/strategy.rs", "tket/src/ops.rs"],
  [("LexicographicCost, CostDelta, CircuitCost impls", "tket/src/circuit/cost.rs"), ("is_cx, is_quantum", "tket/src/circuit/cost.rs"), ("StrategyCost impls", "tket/src/rewrite/strategy.rs")],
  ["CircuitCost and CostDelta operations"])
p("C09", "The search queue keeps the best unseen states and forgets nothing it owes",
  "For every history of insertions, removals and truncations: a state is accepted at most once; the queue never holds more than its limit; a full queue accepts a state exactly when it is strictly cheaper than its worst entry, which it then drops; removal returns a cheapest held state together with its own cost; and the all-time-best list, if kept, is the n cheapest states ever accepted, each still retrievable.",
  ["histories"], "all operation sequences, all costs, all limits",
  "Three short example histories are tested; the property quantifies over all histories and its interesting cases (ties, entries shared between the queue and the all-time-best list) need several steps.",
  ["tket/src/optimiser/pqueue.rs"],
  [("StatePQueue::push_unchecked, pop, pop_max, truncate, check_accepted, push_all_time_best", "tket/src/optimiser/pqueue.rs")],
  ["StatePQueue operations"], "tket_verif: the private queue type",
  [("queue / hash_lookup / seen_hashes / all_time_best", "the held states, their payloads, the hashes ever accepted, the n best", "StatePQueue")])
p("C10", "Splitting a circuit into chunks and reassembling it is the identity",
  "Splitting a circuit into chunks and reassembling the unchanged chunks gives a valid circuit with the same signature, name, operations and wiring; replacing chunks by equivalent circuits gives an equivalent circuit. Every chunk of more than one operation costs at most the requested maximum.",
  ["programs", "inputs"], "all dataflow circuits, all cost functions, all maxima",
  "Two fixed circuits are split in tests; the cost bound is not tested with non-unit costs, nor wiring with classical fan-out or empty chunks.",
  ["tket/src/passes/chunks.rs"],
  [("CircuitChunks::split_with_cost, reassemble; Chunk::extract, insert", "tket/src/passes/chunks.rs")],
  ["CircuitChunks::split, split_with_cost, reassemble, iter_mut"])
p("C11", "Rotation values are finite angles and convert without loss",
  "A rotation constant can be built exactly from the finite numbers of half-turns, keeps the number it was given, and converting half-turns to radians and back agrees with multiplication and division by pi. Constant folding and the emitted rotation operations (construction, checked construction, addition, conversion) compute the same values for every operand.",
  ["inputs"], "all 64-bit floating point values",
  "Floating point: the tests try five values; NaN payloads, infinities, subnormals and signed zero are only reachable by covering all bit patterns.",
  ["tket/src/extension/rotation.rs", "tket/src/llvm/rotation.rs"],
  [("ConstRotation::new, from_radians, to_radians, half_turns", "tket/src/extension/rotation.rs"), ("RotationOp, RotationOpBuilder", "tket/src/extension/rotation.rs"), ("RotationCodegenExtension", "tket/src/llvm/rotation.rs")],
  ["ConstRotation, RotationOp"])
p("C12", "Making measurements lazy does not change any classical value",
  "Replacing the opaque boolean type and eager measurements by lazy futures preserves every classical result, conditional branch and qubit action, for all measurement outcomes and all boolean inputs; every future is read or freed exactly once on every path, however often the boolean was used.",
  ["programs", "inputs"], "all programs over the boolean and measurement operations, all outcomes",
  "The tests check that expected node kinds appear and the graph is valid; no truth table is evaluated and no outcome is followed through copies, arrays and branches.",
  ["tket-qsystem/src/replace_bools.rs", "tket-qsystem/src/replace_bools/static_array.rs", "tket/src/extension/bool.rs", "tket/src/passes/guppy.rs"],
  [("ReplaceBoolPass, lowerer, read_builder, binary_logic_op_dest, measure_dest", "tket-qsystem/src/replace_bools.rs")],
  ["the HUGR produced by ReplaceBoolPass"])
p("C13", "Equal circuits have equal hashes and different ones are told apart",
  "The hash of a circuit depends only on the operations that reach its outputs and their wiring: it is the same for every insertion order of the nodes and every renaming of node indices, and changes when such an operation (its extension, name or arguments), a constant, a called function's name, an operand order or a connection changes.",
  ["programs", "histories"], "all circuits, all construction orders of the same circuit",
  "Construction order is a history: tests build three circuits in one or two orders. The optimiser discards states with a seen hash, so both directions matter.",
  ["tket/src/circuit/hash.rs"],
  [("CircuitHash::circuit_hash, HashState, hash_node", "tket/src/circuit/hash.rs")],
  ["CircuitHash::circuit_hash"])
p("C14", "Subcircuit intervals stay contiguous and convex",
  "An interval of operations on a resource is only ever created or extended so that it is the contiguous run of operations between its ends; membership, position and boundary queries agree with that run; extension is refused exactly when the new operation is not adjacent.",
  ["histories", "inputs"], "all circuits, all sequences of extensions",
  "Tests extend intervals on one or two small circuits; adjacency at the ends, one-element intervals and both directions need all histories.",
  ["tket/src/subcircuit/interval.rs", "tket/src/resource/types.rs", "tket/src/resource/scope.rs"],
  [("Interval::try_from_nodes, try_extend, position_in_interval", "tket/src/subcircuit/interval.rs"), ("Position, ResourceScope", "tket/src/resource")],
  ["Interval and ResourceScope operations"], "tket_verif: the private interval type")
p("C15", "Every qubit and bit of an exported circuit has its own register name",
  "Names generated for new qubits and bits of an exported pytket circuit never collide with one another or with names already present, and the implicit permutation written to the circuit is a permutation of its qubits that sends each input qubit to the output position where its wire ends.",
  ["inputs", "histories"], "all sets of existing registers, all output orders",
  "Tests use one prefix and a handful of registers; collisions and non-trivial permutations with fresh or discarded qubits need arbitrary register sets.",
  ["tket/src/serialize/pytket/encoder/unit_generator.rs", "tket/src/serialize/pytket/encoder/value_tracker.rs"],
  [("RegisterUnitGenerator::new, next", "tket/src/serialize/pytket/encoder/unit_generator.rs"), ("compute_final_permutation", "tket/src/serialize/pytket/encoder/value_tracker.rs")],
  ["SerialCircuit::encode"], "tket_verif: private helpers")
p("C16", "Dataflow clean-up passes preserve what the program computes",
  "Removing redundant tuple packing, squashing array borrow/return pairs and unpacking containers leaves a valid program that computes the same outputs with the same quantum action for every input, and panics exactly when the original does.",
  ["programs", "inputs"], "all dataflow programs over tuples, arrays and qubits; all inputs",
  "Tests apply each pass to hand-written graphs and count the remaining nodes; values are not followed through the rewritten wiring.",
  ["tket/src/passes/tuple_unpack.rs", "tket/src/passes/borrow_squash.rs", "tket/src/passes/unpack_container.rs", "tket/src/passes/guppy.rs", "tket-qsystem/src/lower_drops.rs"],
  [("find_tuple_unpack_rewrites", "tket/src/passes/tuple_unpack.rs"), ("BorrowSquashPass", "tket/src/passes/borrow_squash.rs"), ("NormalizeGuppy", "tket/src/passes/guppy.rs")],
  ["the HUGRs before and after each pass"])
p("C17", "Every operation survives being stored and loaded by name",
  "Each operation of the tket and tket-qsystem extensions, with any admissible type and value arguments, is recovered unchanged from the extension operation it is stored as; distinct operations are stored under distinct names; and its signature on recovery is the one it was created with.",
  ["inputs"], "all operations of all extensions, all argument values",
  "Tests sample some operations per extension; arguments such as sizes, widths, strings and result tags range over unbounded sets and swapped arguments of equal kind go unnoticed.",
  ["tket/src/extension", "tket-qsystem/src/extension"],
  [("MakeExtensionOp / MakeOpDef / HasConcrete impls of each op enum", "tket/src/extension, tket-qsystem/src/extension")],
  ["to_extension_op, from_extension_op, envelope round trip"])
p("C18", "Pattern matching finds exactly the occurrences of a pattern",
  "Every match reported for a pattern circuit in a target circuit is an occurrence: its operations and wiring coincide with the pattern's and its region can be replaced as a unit; and every convex occurrence anchored at a node is reported for that node.",
  ["programs"], "all patterns and targets of gates",
  "Tests match four patterns in small circuits; soundness and completeness quantify over all pairs of circuits.",
  ["tket/src/portmatching/matcher.rs", "tket/src/portmatching/pattern.rs", "tket/src/portmatching.rs"],
  [("PatternMatcher::find_matches_iter, find_rooted_matches, PatternMatch::try_from_root_match", "tket/src/portmatching/matcher.rs")],
  ["PatternMatcher::find_matches"])
p("C19", "Multi-threaded optimisation always terminates cleanly",
  "For every interleaving of its workers, multi-threaded optimisation stops once the search space is exhausted, the timeout expires or the circuit limit is reached, loses no finished result, and never deadlocks.",
  ["schedules"], "all interleavings of the worker threads and the queue thread",
  "Thread schedules: a test observes one schedule.",
  ["tket/src/optimiser/pqueue_worker.rs", "tket/src/optimiser/badger.rs"],
  [("StatePQWorker, BadgerWorker", "tket/src/optimiser")],
  ["BadgerOptimiser::optimise with n_threads > 1"])
p("C20", "Generated LLVM code implements the classical operations",
  "The LLVM code emitted for boolean, rotation, future, result and random operations computes the operation's documented result for all operand values and calls the runtime function that implements it with its operands in order.",
  ["inputs"], "all classical operations, all operand values",
  "Snapshot tests pin the text of the generated code, so a deliberate change of the snapshot, or an operand width or order error outside the snapshots, is not caught; values are not computed.",
  ["tket/src/llvm", "tket-qsystem/src/llvm", "qis-compiler/rust"],
  [("RotationCodegenExtension, BoolCodegenExtension, QSystemCodegenExtension, FuturesCodegenExtension", "tket/src/llvm, tket-qsystem/src/llvm")],
  ["the emitted LLVM module"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
