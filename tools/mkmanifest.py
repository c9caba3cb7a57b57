#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CHECKS = {
 "C01": ("verification conditions generated by symbolic execution of the real builder code, discharged exactly in Q[e^{i pi*}] (contract: gate unitary)", "proof",
   "Every gate of the lowering and every gate builder is proved equal to the textbook unitary for all angles (exact normal form, no sampling). Trusts the contracts of the native operations, hugr's builder/serialiser/ReplaceTypes, the normal form; machine floats are treated as reals. Whole programs (composition through hugr's replacement pass) are a bounded stand-in: random programs compared as channels."),
"C02": ("verification conditions generated by symbolic execution of the real resolver's output, discharged exactly in Q[e^{i pi*}] (contract: control(U) / dagger(U) with exact phase)", "proof",
   "Every gate arm of the resolver, for each of 17 (quick) / 24 (thorough) stacks of control and dagger modifiers with up to 3 / 5 controls, is proved equal to the controlled or inverse gate for all angles. Arbitrary numbers of controls follow only through the code's recursion, which is covered to that depth. Whole function bodies (nested regions, calls, arrays, conditionals) are a bounded stand-in: random bodies, exact phases, random angles."),
"C03": ("verification conditions generated by symbolic execution of the real decoder's output against the reference meaning of the commands, discharged exactly in Q[e^{i pi*}] (contract: same action, bits and permutation)", "proof",
   "Every gate type, classical operation and condition, every placement of its arguments on registers up to the stated sizes, is sent through the real decoder and the decoded program proved to have the commands' action for all angles and all bits. Trusts the written reference meaning of pytket's operations and hugr's builder. Whole circuits are composed of those commands: random circuits are a bounded stand-in."),
"C04": ("verification conditions generated by symbolic execution of the real encoder's commands and of the program the real decoder gives back, against the original program, discharged exactly in Q[e^{i pi*}] (contract: same action, bits, parameters and order of the outputs)", "proof",
   "Every operation the encoder knows on every placement of its wires, every order of the outputs, every classical operation and pair of them, every pair of nested parameter operations, and every kind of part without a pytket form is sent through the real encoder and the real decoder, standalone and in place, and proved to have the original action for all angles and bits. Trusts the written meaning of pytket's operations and hugr's builder. Whole programs are composed of those: random programs are a bounded stand-in."),
"C05": ("verification conditions generated by symbolic execution of the computation the real loader builds, against an independent reading of the expression, discharged by exact normal forms (contract: the value of the expression)", "proof",
   "Every operator, function, literal form and every sequence of up to three infix operators with every sign pattern and operand form is loaded by the real parser and proved to have the value of the expression for all values of its variables; malformed expressions are proved to stay opaque. Longer expressions rest on a stated lemma about operator-precedence parsing plus random expressions (bounded). Machine floats are treated as reals."),
"C06": ("verification conditions generated from the real commutation data and by symbolic execution of the real pass's output, discharged exactly in Q[e^{i pi*}] (contract: matrix commutation / unchanged action)", "proof",
   "Every entry of the commutation data is proved as a matrix identity for all angles, every pair of Paulis decided exactly, and every pair of operations on every overlap of their qubits is sent through the real pass and its output proved equal to its input for all angles. Longer circuits rest on a stated lemma (operations that commute pairwise through a shared Pauli) plus a bounded stand-in: random programs with opaque operations and classical dependencies."),
"C08": ("Kani (CBMC) contracts on the real cost types, for all machine integers", "proof",
   "The contracts of every cost operation are discharged by CBMC on the real compiled code for every input value (division: operands below 2^8; associativity-like laws over a fold: two and three terms); the gate classification is enumerated completely through the real functions. Trusts Kani/CBMC, the rust compiler, hugr's is_copyable types."),
"C15": ("Kani (CBMC) contracts on the real name generator, and exhaustive postconditions on the real encoder's register lists and permutations", "proof",
   "The generator is compiled from its real source file and proved by CBMC for every index below 2^62 of any list of up to three existing names; the encoder's own lists and its implicit permutation are checked against the postcondition for every pair of names of a pool of edge cases and every output order of up to 4 qubits with allocated and released ones; random programs are a bounded stand-in."),
"C09": ("Kani (CBMC) contracts on the real queue: the invariant and each operation's postcondition from every state (inductive step), containers by contract", "proof",
   "optimiser/pqueue.rs is compiled unchanged against array containers that follow the contracts of its dependencies; from every state that satisfies the invariant (up to 2 queue entries in quick, 3 in thorough, 2 all-time-best entries), every operation is proved to meet its postcondition and to restore the invariant, so histories are unbounded. Larger queues and the real containers are a bounded stand-in: all histories over a small domain up to equal observations, and random long ones."),
"C11": ("Kani (CBMC) contracts on the real constants, over all f64 bit patterns", "proof",
   "Construction, rejection of non-finite values and the conversions are discharged by CBMC over every f64 bit pattern (multiplication and division by pi: mantissas of a stated width, the rest sampled and labelled bounded)."),
"C10": ("symbolic execution of the real generic splitting code with an unknown cost type (z3, linear integer arithmetic), and verification conditions on the real reassembled circuit (same graph, or equal action in Q[e^{i pi*}])", "proof",
   "The cost bound is proved for all non-negative costs of every type on every path through the real split loop for up to 5 (quick) / 6 (thorough) operations; reassembly is proved to give back the same graph, name and signature, or an equivalent circuit when chunks are replaced, on an enumeration of circuits and chunk sizes. Arbitrary circuit shapes rest on a stated lemma; trusts hugr's subgraphs and the order of Circuit::commands."),
"C14": ("Kani (CBMC) contracts on the real interval source, the resource scope by contract; the scope's contract checked on the real scope (bounded)", "proof",
   "subcircuit/interval.rs is compiled from its real source against a scope that follows its contract (any path of up to 5 / 6 nodes, any positions, any nodes beside it) and every operation's postcondition discharged by CBMC. The scope's own contract (one resource per linear wire, one path per resource, growing positions) is a bounded stand-in on enumerated and random programs, as are the intervals on the real scope."),
"C13": ("Kani (CBMC) contracts on the real source of the circuit hash, hashers replaced by their contract; bounded enumeration on the real hash", "proof",
   "circuit/hash.rs is compiled from its real source; the postconditions of hash_node (equal hash exactly for the same operation on the same values) and circuit_hash are discharged by CBMC for arbitrary operations, ports and predecessor hashes, with at most two inputs and two operations in a region. 64-bit collisions are excluded by the hasher's contract. Enumerated circuits under other insertion orders are a bounded stand-in."),
"C12": ("verification conditions by symbolic execution of programs before and after the real lowering passes: every path, unknown measurement results and inputs (contract: same results, outputs and panics, and no lazy types left)", "proof",
   "For an enumeration of programs over every operation of the bool, future and measurement extensions, in every nesting (branch, loop, call, array, constant, function value), the real passes are run and the program before and after is executed on symbolic inputs and measurement results: equal on every path. The composition to larger programs (the pass replaces operations one by one) is a bounded stand-in: random programs. Trusts the written meaning of the operations; loops are unrolled to a stated depth."),
"C16": ("verification conditions by symbolic execution of programs before and after the real clean-up passes: every path, symbolic inputs and qubits (contract: same outputs, quantum action and panics)", "proof",
   "For an enumeration of programs over tuples, arrays, borrows (every sequence of borrow, return, get and set up to a length, with equal, different and unknown indices) and containers of every shape up to a depth, the real pass is run and its output proved to compute the same as its input on every path. Longer programs are a bounded stand-in: random programs. Trusts the written meaning of the collection operations and hugr's own passes, one of which has a recorded defect."),
 "C17": ("postconditions on the real operations' storing and reading functions: exhaustive over every operation of every extension and a stated family of arguments; Kani (CBMC) contracts for the arguments that are numbers and short strings", "proof",
   "Every operation of every extension, with every kind of argument, is stored by the real code, read back directly, from a graph node and from text and binary envelopes, and compared; names are distinct over all of them; each is recognised by its own type only. Tags of up to two characters and 64-bit sizes are proved by CBMC for sympy, bool, float and state results; other sizes, identifiers, tags and types are representatives of unbounded sets. Trusts hugr's envelopes."),
}
NA = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in props:
        if p["id"] in CHECKS:
            t, lvl, note = CHECKS[p["id"]]
            checks.append(dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./check {p['id']}",
                               technique=t, level=lvl, level_note=note))
    na = [dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in CHECKS]
    m = dict(version=1, setup_cmd="./setup.sh",
             hooks=dict(guard="cfg(tket_verif)", enable="RUSTFLAGS='--cfg tket_verif' when building the harness crates of /verif (path dependencies on /repo)", source_commits=HOOKS),
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
HOOKS = ["73c87be"]
main()
