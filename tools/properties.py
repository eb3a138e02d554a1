"""Writes properties.jsonl and MANIFEST.json (checks for what analysis/registry.py decides, not_applicable for the rest)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/analysis")
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = state
    P.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
               "why_tests_cant": why, "anchors": a}, na))


SIM = ["sparsesim/src/lib.rs", "sparsesim/src/exp.rs", "sparsesim/src/index_map.rs"]
BE = ["backend/src/lib.rs", "backend/src/exp.rs", "backend/src/result_bool.rs"]
p("C01", "Deferring and fusing gates never changes the quantum state",
  "For every sequence of gate calls, the state the simulator reports is the one obtained by applying each gate's unitary to the full state immediately and in call order, up to global phase. How gates are buffered, commuted past each other, merged or cancelled before being applied is never observable.",
  ["histories", "inputs"], "every sequence of gates (all kinds, any operands, any angles, any number of controls) on any allocated qubits",
  "The existing tests compare selected short circuits at selected angles; the pending-work combinations at the moment of the next gate are far more than they sample.",
  SIM, [("queued H/Rx/Ry and phase/permutation operations with commutation rules", "sparsesim/src/lib.rs: h, rx, ry, x, y, z, mcx, mcy, mcz, flush_queue, mcrotation, swap_qubit_ids")], ["get_state", "joint_probability"])
p("C02", "Every observation sees all gates issued before it",
  "A measurement, joint measurement, probability query, forced collapse, state dump or qubit release acts on the state in which every gate issued earlier has taken effect on every qubit. No gate issued before an observation can take effect after it, be lost, or be applied twice.",
  ["histories", "inputs"], "every gate history followed by every observing operation on any subset of qubits",
  "Tests observe after a few fixed circuits; which buffered operations are outstanding on which qubit at the observation is not enumerated.",
  SIM, [("flush before observation", "sparsesim/src/lib.rs: measure, joint_measure, joint_probability, force_collapse, dump, get_state, release")], ["measure", "joint_probability", "dump", "get_state", "release"])
p("C03", "Every gate acts as its defined unitary matrix",
  "Applied to any state, each one-qubit gate (X, Y, Z, H, S, S-dagger, T, T-dagger, Rx, Ry, Rz, phase), Pauli exponential, qubit swap and user-supplied unitary transforms the amplitudes exactly by its defining matrix on its operands and leaves every other qubit's part of the state unchanged. Basis states whose amplitude becomes exactly zero are absent afterwards and none that should remain is dropped.",
  ["inputs"], "every state (any support, any amplitudes), every angle, every choice of operand qubits",
  "Tests check matrices on basis inputs and a few angles with at most a few qubits.",
  SIM, [("per-gate amplitude transforms", "sparsesim/src/lib.rs: *_transform, apply_mch, mcrotation, apply"), ("Pauli exponentials", "sparsesim/src/exp.rs: exp, mcexp")], ["get_state"])
p("C04", "A controlled gate acts only where all of its controls are one",
  "For every gate and any number of control qubits, the controlled version applies the gate's unitary exactly to the part of the state in which every control qubit is one and leaves the rest unchanged, including any phase the unitary contributes. With no controls it equals the plain gate, and the order of the controls does not matter.",
  ["inputs"], "every gate, every number and order of controls, every state and angle",
  "Tests use one or two controls and compare a few angles; special angles combined with several controls are not sampled.",
  SIM, [("controls tested per basis state", "sparsesim/src/lib.rs: apply_ops, mc*, controlled; sparsesim/src/exp.rs: mcexp")], ["get_state"])
p("C05", "Measurement outcomes, probabilities and collapse agree",
  "A single-qubit or joint measurement returns one exactly when its random draw falls below the probability of one (odd parity) in the current state, and the reported joint probability equals that same probability. Afterwards the state is the normalised projection onto the returned outcome, so repeating the measurement returns the same value with certainty.",
  ["inputs", "histories"], "every state, every subset of qubits measured, every random draw",
  "Outcomes are random; tests can only look at deterministic cases or repeat until an outcome shows up.",
  SIM, [("parity mask, scaling and projection", "sparsesim/src/lib.rs: check_joint_probability, joint_collapse, measure, joint_measure, force_collapse")], ["measure", "joint_measure", "joint_probability", "force_collapse"])
p("C06", "All randomness comes from the simulator's seedable generator",
  "Given the same seed and the same sequence of calls, the simulator and backend return the same measurement outcomes and state dumps in every run and process. The only source of nondeterminism that can reach a quantum result is the simulator's own random generator, and setting a seed replaces it for all later draws.",
  ["histories", "configurations"], "every program, every seed, every process",
  "A test can repeat a run only a few times and cannot see an unseeded draw that rarely matters or a hash order that happens to be stable.",
  ["sparsesim/src/lib.rs", "backend/src/lib.rs"], [("single generator owned by the simulator", "sparsesim/src/lib.rs: new, set_rng_seed, take_rng; backend/src/lib.rs: set_rng_seed, initialize")])
p("C07", "Allocation yields fresh zero qubits; release frees exactly that qubit",
  "A newly allocated qubit has an id that no live qubit has and is in the zero state, whatever was done to qubits that used that id or its storage before. Releasing a qubit measures and removes it without disturbing the remaining qubits beyond that measurement, makes its id available again, and releasing an id that is not allocated is rejected.",
  ["histories"], "every interleaving of allocations, gates and releases, including out-of-order release and id reuse",
  "Tests release in a few fixed orders with no deferred gates outstanding.",
  SIM, [("first free id and first free location", "sparsesim/src/lib.rs: allocate"), ("measure, clear bit, forget id", "sparsesim/src/lib.rs: release")], ["allocate", "release"])
p("C08", "Repeated or unallocated operands are always rejected",
  "Any operation given the same qubit twice among its operands, or an id that is not currently allocated, fails with a panic before or when it takes effect; it never acts on another qubit, never silently succeeds and never leaves work behind that later applies to a newly allocated qubit. Only calls that do nothing to the operand in question (swapping a qubit with itself, an identity factor) may accept it.",
  ["inputs", "histories"], "every operation, every position of the offending operand, every pending work on the qubits",
  "Tests check a few operations with adjacent duplicates and no deferred gates.",
  SIM, [("duplicate and allocation checks", "sparsesim/src/lib.rs: check_for_duplicates, resolve_and_check_qubits, enqueue_op")])
p("C09", "Where a qubit is stored never affects any result",
  "Results depend only on qubit ids: after any sequence of allocations, releases, id swaps, state dumps and matrix applications that move qubits between storage locations, every gate, measurement and report still refers to the right qubit. Reordering storage never changes the state.",
  ["histories"], "every id-to-location assignment reachable through allocation, release, swap, dump and matrix application",
  "Tests mostly run with ids equal to locations.",
  SIM, [("id map and state reordering", "sparsesim/src/lib.rs: allocate, swap_qubit_ids, swap_qubit_state, dump, get_state, apply; sparsesim/src/index_map.rs")])
p("C10", "Each exported gate intrinsic performs the gate its name says",
  "Every exported quantum instruction (plain, controlled, adjoint and controlled-adjoint, including two-qubit rotations, generic rotation, square root of X and Pauli exponentials) applies exactly the named unitary to the qubits given, with the angle and the controls given and no other effect. Adjoint forms are the inverse of the body form, and controlled forms act on all the listed controls in any number.",
  ["inputs"], "every exported gate, every operand list, Pauli and angle",
  "The backend tests call each instruction on one or two inputs; swapped operands, lost controls or sign errors for particular Paulis are not sampled.",
  BE, [("gate intrinsics", "backend/src/lib.rs: __quantum__qis__*; backend/src/exp.rs")])
p("C11", "A gate on a qubit id beyond those seen allocates it implicitly",
  "When a program uses statically numbered qubits without allocating them, every instruction first makes every qubit it names exist, so that no valid id is rejected and already existing qubits keep their state. Explicit allocation and implicit use never hand out the same qubit twice.",
  ["programs", "histories"], "every instruction as the first user of a qubit id, every order of first uses, mixes with explicit allocation",
  "Tests first use qubits in ascending order through a few instructions.",
  BE, [("on-demand allocation", "backend/src/lib.rs: ensure_sufficient_qubits and its callers")])
p("C12", "Multi-qubit Pauli measurement measures the requested observable",
  "Measuring a list of qubits in a list of Pauli bases performs the projective measurement of exactly that Pauli product: the basis change before and its undo after are inverse to each other, every listed factor counts, identity factors do not, and the state afterwards is the projection in the original basis. Lists of bases and qubits of different length are refused. The same holds for probability assertions.",
  ["inputs"], "every length, every combination of Paulis, every state",
  "Tests check selected Bell states in XX, YY and ZZ.",
  BE, [("basis mapping and unmapping", "backend/src/lib.rs: map_to_z_basis, unmap_from_z_basis, __quantum__qis__measure__body, __quantum__qis__assertmeasurementprobability__*")])
p("C13", "A measurement result is stored and read under the id it was given",
  "After a measurement into a result id, reading, comparing and recording that id yield that outcome until it is measured again, whatever other ids are written in between and in any order; an id never written reads as zero. A result returned directly by a measurement compares equal to exactly the one of the zero and one constants that matches the outcome.",
  ["histories"], "every sequence of writes and reads over any result ids",
  "Tests use ids 0 to a handful in ascending order.",
  BE, [("result bit store", "backend/src/lib.rs: write_to_results, mz, mresetz, read_result; backend/src/result_bool.rs")])
p("C14", "Reset always leaves the qubit in zero and nothing else changed",
  "Resetting a qubit, or measuring and resetting it, leaves it in the zero state for either measurement outcome, and measure-and-reset returns or stores the outcome from before the reset. Other qubits are affected only through the measurement.",
  ["inputs", "histories"], "every state, both outcomes, every reset-like instruction",
  "Outcomes are random; tests reset a qubit in a basis state.",
  BE, [("reset and measure-reset intrinsics", "backend/src/lib.rs: __quantum__qis__reset__body, __quantum__qis__mresetz__body")])
p("C15", "Initialization isolates one execution from the next",
  "After initialization no qubit, result or pending gate of an earlier execution is observable, and qubit ids start again from zero. The seeded random sequence continues across initialization rather than restarting.",
  ["histories"], "every history before initialization, every program after it",
  "Tests run one program per process or thread.",
  BE, [("state replacement keeping the generator", "backend/src/lib.rs: __quantum__rt__initialize, take_rng")])
p("C16", "No instruction ever re-enters state that it already holds",
  "No call of any exported function, with any arguments, can fail because the library's own internal state is already borrowed: an instruction that uses another instruction releases its hold on shared state first. This also holds for closures and callbacks passed into the library.",
  ["programs", "inputs"], "every exported function, every call path inside the library",
  "A double borrow only shows on the particular path that nests, which tests may not take.",
  BE + ["stdlib/src/output_recording.rs"], [("thread-local cells", "backend/src/lib.rs: SIM_STATE; stdlib/src/output_recording.rs: OUTPUT")])
p("C17", "Threads never share simulator, result or output state",
  "Each thread has its own simulator state, result store and output buffer: what one thread allocates, measures or records is never visible to another and needs no locking. No mutable process-wide state exists that could couple two threads.",
  ["schedules"], "every interleaving of any number of threads",
  "Tests do not check isolation between threads and could not enumerate interleavings.",
  BE + ["stdlib/src/output_recording.rs", "stdlib/src/bigints.rs"], [("thread-local statics only", "backend/src/lib.rs: SIM_STATE; stdlib/src/output_recording.rs")])
p("C18", "Runtime calls neither leak, free early nor free twice what they are given",
  "Every exported runtime function leaves the ownership count of each object passed to it unchanged, except the functions whose purpose is to change it, and returns either a null pointer, a new object owned once by the caller, or the documented alias. No object is read after its last owner released it.",
  ["histories", "inputs"], "every runtime function and every sequence of them over any objects",
  "A wrong count is silent in a test unless it happens to free memory that is read again.",
  ["stdlib/src/arrays.rs", "stdlib/src/tuples.rs", "stdlib/src/callables.rs", "stdlib/src/strings.rs", "stdlib/src/bigints.rs", "stdlib/src/lib.rs", "backend/src/lib.rs"],
  [("raw reference-counted pointers", "stdlib/src/*.rs: Rc::from_raw / Rc::into_raw / increment_strong_count / decrement_strong_count")])
p("C19", "Reference count updates change the count by exactly the given amount",
  "Updating an object's reference count by n changes its number of owners by exactly n for every positive, zero or negative n, releasing the object precisely when the last owner is gone; updating the alias count changes only how many aliases exist and never ownership.",
  ["inputs", "histories"], "every delta (zero, any magnitude, either sign), every kind of object",
  "Tests use deltas of plus and minus one or two.",
  ["stdlib/src/lib.rs", "stdlib/src/arrays.rs", "stdlib/src/tuples.rs", "stdlib/src/callables.rs", "stdlib/src/strings.rs", "stdlib/src/bigints.rs"], [("count helper", "stdlib/src/lib.rs: update_counts and its callers")])
p("C20", "Copies are independent of the original",
  "A copy of an array, tuple or callable made because the original is shared or because a copy was forced is a distinct object: later changes to either are not visible through the other. An unshared original without a forced copy is returned itself, with one more owner.",
  ["histories", "inputs"], "every object, every sharing situation, forced or not",
  "Tests copy small objects in one sharing situation.",
  ["stdlib/src/arrays.rs", "stdlib/src/tuples.rs", "stdlib/src/callables.rs"], [("copy operations", "stdlib/src: __quantum__rt__array_copy, tuple_copy, callable_copy")])
p("C21", "Array operations return exactly the requested elements in order",
  "For every positive element size and every length: a new array has the requested number of elements, all zero; element addressing, concatenation, slicing by any valid range (any start, step of either sign, end) and size queries refer to exactly the elements the indices denote, in order and byte for byte.",
  ["inputs"], "every element size, length, index and range",
  "Tests use short arrays of one or two element sizes and few ranges.",
  ["stdlib/src/arrays.rs", "stdlib/src/range_support.rs"], [("byte-buffer arrays", "stdlib/src/arrays.rs"), ("range iteration", "stdlib/src/range_support.rs")])
p("C22", "A callable invokes the variant selected by its functors",
  "Invoking a callable calls exactly the function-table entry given by whether adjoint has been applied an odd number of times and whether any control has been added, passing the capture, argument and result tuples through unchanged; for more than one control level the nested control lists are flattened in order, outermost first. Applying adjoint twice restores the original, and copying preserves the functor state.",
  ["histories", "inputs"], "every sequence of adjoint and control applications, every function table, any control depth",
  "Tests apply a few functor combinations.",
  ["stdlib/src/callables.rs"], [("functor state and dispatch", "stdlib/src/callables.rs: __quantum__rt__callable_*")])
p("C23", "Big integer instructions compute the named operation on their operands",
  "Each arbitrary-precision integer instruction returns the mathematically exact result of the operation it is named after with its operands in the given order (subtraction, division, remainder, comparison and shifts included), for values of any size and sign, and leaves its operands unchanged. Conversion from 64-bit and byte-array form and to text preserves the value.",
  ["inputs"], "every pair of integers of any size and sign",
  "Tests use one or two small operand pairs per operation.",
  ["stdlib/src/bigints.rs"], [("bigint intrinsics", "stdlib/src/bigints.rs")])
p("C24", "Math intrinsics compute the named function with arguments in order",
  "Each scalar math instruction (trigonometric, hyperbolic, logarithm, square root, two-argument arctangent, IEEE remainder, NaN and infinity tests, random integer and double) returns the named function of its arguments in the documented order and range, for every input including negative, zero, infinite and NaN values.",
  ["inputs"], "every argument value",
  "Tests use a few values per function.",
  ["stdlib/src/math.rs"], [("math intrinsics", "stdlib/src/math.rs")])
p("C25", "Recorded output follows the documented line format and call order",
  "Each output-recording call appends exactly one line consisting of its record kind, its value and, when a label is given, the label, in the documented tab-separated form with the configured line ending, and the lines appear in call order. Booleans, integers, doubles, results, tuple and array headers are formatted as documented for every value.",
  ["inputs", "histories"], "every value, every label, labels absent or present, every sequence of recording calls",
  "Tests record a few values with fixed labels.",
  ["stdlib/src/output_recording.rs", "backend/src/lib.rs"], [("record formatting", "stdlib/src/output_recording.rs"), ("result recording", "backend/src/lib.rs: __quantum__rt__result_record_output")])
p("C26", "String conversions and string operations are exact",
  "Converting an integer, double, boolean, Pauli, result, qubit, range or big integer to a string yields the documented text for every value; concatenation, length, equality and message output treat strings byte for byte up to their terminator.",
  ["inputs"], "every value of each convertible type, every pair of strings",
  "Tests convert one or two values per type.",
  ["stdlib/src/strings.rs", "stdlib/src/range_support.rs", "stdlib/src/bigints.rs", "backend/src/lib.rs"], [("to-string intrinsics", "stdlib/src/strings.rs")])
p("C27", "Exported symbols, C header and linker export lists agree",
  "Every function in the public C header of the standard library is also in its linker export list and the other way round, and is exported by the library under that name, with C linkage and calling convention, and with the same number, size and kind of parameters and result. Handle types stand for the same object everywhere, Pauli values have the header's numbers, ranges the layout start, step, end, and what is declared not to return does not return. A program compiled against the header therefore links and passes arguments correctly on every platform.",
  ["configurations"], "every declared or exported function, every platform's link step",
  "The tests call the functions from Rust and never through the header or export list.",
  ["stdlib/include/qir_stdlib.h", "stdlib/include/qir_stdlib.def", "stdlib/src", "backend/src"], [("header", "stdlib/include/qir_stdlib.h"), ("exports", "#[unsafe(no_mangle)] functions")])
p("C29", "The runner binds every QIR symbol to the matching implementation",
  "For every runtime or instruction-set function that the backend provides, the runner maps a program's declaration of that name to the implementation of the same name, and only if the declared number of parameters equals what an implementation of that name takes; any other declared number, and any unknown name, is rejected, while LLVM intrinsics and functions the program defines itself are left alone. Where a name has a legacy and a current output form, the number of parameters selects the form, and a program mixing both is rejected; a measurement instruction that may be declared with or without a result parameter is bound accordingly, and array slicing's trailing flag is accepted and ignored. No name is bound to a different implementation, and no implementation is left unbound.",
  ["programs"], "every QIR program's set of declarations",
  "Runner tests need LLVM and only load a few sample programs.",
  ["runner/src/lib.rs", "backend/src/lib.rs", "stdlib/src"], [("binding table", "runner/src/lib.rs: bind_functions, bind!")])
p("C30", "Every shot runs isolated and is reported completely",
  "Running a program for n shots initializes the runtime before each shot, runs the entry point exactly n times, and reports for each shot a start line, one metadata line per entry point attribute, its recorded output and an end line with its exit code, in order. The entry point is the only function marked as one, or the marked one with the requested name. A seed, if given, is set once before the first shot.",
  ["programs", "configurations"], "every program, shot count and seed",
  "Runner tests compare a few sample programs and need LLVM.",
  ["runner/src/lib.rs"], [("shot loop", "runner/src/lib.rs: run_module, run_entry_point")])
p("C31", "Every invalid program or file is reported as an error",
  "A file that cannot be read or parsed, a module that fails verification, a missing or ambiguous entry point, an entry point with parameters and an unsupported declaration each make the runner return an error describing it, before any shot runs. No such failure is ignored or reported as success.",
  ["programs", "inputs"], "every input file and program",
  "Runner tests cover a few bad inputs and need LLVM.",
  ["runner/src/lib.rs", "runner/src/main.rs", "runner/src/cli.rs"], [("error propagation", "runner/src/lib.rs: run_file, run_bitcode, run_module, choose_entry_point")])
p("C32", "Command line and Python options reach the run unchanged",
  "The file, entry point, shot count and seed given on the command line or through the Python API are the ones used for the run, with the documented defaults when absent (standard input, the only entry point, one shot, no seed); a file named - means standard input. No option is swapped, dropped or replaced, and an argument that is unknown, malformed, out of range or given twice is an error that runs nothing. Through Python, the output goes to the callback, if one is given, as exactly the text the run writes, and to the console otherwise, whatever an earlier run used; a failing run raises an error with the runner's description.",
  ["inputs", "configurations"], "every combination of options",
  "The tests call the inner functions directly.",
  ["runner/src/cli.rs", "runner/src/main.rs", "pip/src/python.rs", "pip/qirrunner/_native.pyi"], [("argument passing", "runner/src/cli.rs: main; pip/src/python.rs: run")])
NUM = "quantifies over floating-point rounding accumulated along unbounded gate sequences; no static bound in reach of an abstract domain over exact reals decides it"
p("C33", "A machine dump reports every result and the whole state and changes nothing",
  "Dumping the machine writes to the current output target one line listing the value of every result id in order, if any result id has been written, and then the whole state: every basis state of nonzero amplitude in increasing order of its index over qubit ids, with its amplitude. It changes neither results nor state, so dumping again writes the same; a dump to a location fails without writing anything.",
  ["histories", "inputs"], "every set of results, every state, either output target",
  "Tests only call the dump and do not look at what it writes.",
  ["backend/src/lib.rs", "sparsesim/src/lib.rs", "stdlib/src/output_recording.rs"], [("dump instruction", "backend/src/lib.rs: __quantum__qis__dumpmachine__body"), ("state listing", "sparsesim/src/lib.rs: dump, dump_impl")])
p("C40", "Rounding error stays bounded over long programs",
  "The state stays normalised and close to the exact one, within a small tolerance, for programs of any length.",
  ["histories"], "programs of unbounded length", "Tests run short circuits only.", ["sparsesim/src/lib.rs"], [("floating-point amplitudes", "sparsesim/src/lib.rs")], na=NUM)
p("C41", "Small amplitudes are pruned without visible error",
  "Dropping amplitudes below the fixed threshold never changes the probability of any outcome by more than a negligible amount.",
  ["inputs", "histories"], "every state and history", "The threshold only matters in states the tests do not build.", ["sparsesim/src/nearly_zero.rs"], [("pruning threshold", "sparsesim/src/nearly_zero.rs")],
  na="needs an error bound on runtime amplitudes over unbounded histories; the analysis abstracts amplitudes by exact reals and treats the threshold as zero")
p("C42", "Outcome frequencies match the Born rule",
  "Over many shots the frequencies of measurement outcomes converge to the quantum-mechanical probabilities.",
  ["configurations"], "every seed and program", "A statistical statement; tests see single draws.", ["sparsesim/src/lib.rs"], [("random draws", "sparsesim/src/lib.rs: measure")],
  na="a statement about the distribution produced by the random generator of an external crate; C05 decides the part that is in this code, the comparison of one draw with the probability")
p("C43", "Memory grows only with the number of nonzero amplitudes",
  "Memory and time per gate are proportional to the number of basis states present, whatever the number of qubits.",
  ["programs"], "every program", "Tests do not measure cost.", ["sparsesim/src/lib.rs"], [("sparse state", "sparsesim/src/lib.rs")],
  na="a quantitative resource bound over runtime container sizes; no static cost analysis for this code is in reach")

import registry
have = set(registry.CHECKS)
open(V + "/properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x, _ in P))
checks, na = [], []
for x, why in P:
    i = x["id"]
    if i in have:
        c = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "technique": c["technique"] if "technique" in c else "static analysis: abstract interpretation of MIR over a polynomial domain",
                       "level": c["level"], "level_note": c.get("note") or (c["rule"].split(", nothing executed); ")[-1] + "; scope: " + c["scope"])})
    else:
        na.append({"property": i, "reason": why or "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
unknown = have - {x["id"] for x, _ in P}
assert not unknown, unknown
