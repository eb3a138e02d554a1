"""property id -> how it is decided."""
import sim_checks as S
import back_checks as K
import std_checks as D
import abi_checks as A
import runner_checks as U
import cli_checks as L
import dump_checks as Z

GATES_ASSUME = [
    "amplitudes and angles are exact real numbers: rounding, and the fixed relative threshold below which an amplitude is "
    "dropped, are outside the abstraction (amplitudes met on a path are either generic, i.e. far from the threshold, or exactly zero)",
    "a gate acts only on its own operands' bit positions, so register shapes up to the enumerated number of qubits stand for larger ones",
    "std, num-bigint, num-complex, rand and ndarray behave as the transfer functions in analysis/models.py say",
]
BACK_ASSUME = GATES_ASSUME + ["thread-local storage, Rc, raw memory of runtime arrays and tuples behave as modelled (byte-addressed typed memory)"]
TRACE = ("path-sensitive interprocedural abstract interpretation of the crate's optimised-off MIR: every public entry point is "
         "interpreted over an abstract state whose amplitudes and angles are polynomials over unknowns (a relational numeric "
         "domain with trace partitioning on undetermined branches, no solver, nothing executed); ")
RT_ASSUME = ["std collections, Rc, CString and raw memory behave as the transfer functions in analysis/models.py and cmodels.py say"]
RTRACE = ("path-sensitive interprocedural abstract interpretation of the exported C functions over a byte-addressed typed memory with "
          "owner counts and symbolic contents (trace partitioning on undetermined branches, no solver, nothing executed); ")

RUNNER = ("abstract interpretation of the runner's MIR, type-checked against a model of LLVM's Rust binding (stubs/inkwell) that gives, "
          "for every call, the answer LLVM would give for the program at hand, nothing executed); ")
RTECH = "static analysis: abstract interpretation of MIR against a model of the LLVM binding"
RUN_ASSUME = ["LLVM's Rust binding answers as stubs/inkwell says", "a module's functions, attributes and parameters are as listed by LLVM"]
CHECKS = {
    "C01": dict(obligations=S.obligations_C01, level="other", floor=3000, assumptions=GATES_ASSUME,
        rule=TRACE + "for every combination of deferred one-qubit work on the operands (the set of per-qubit pending "
             "configurations is itself computed as a fixpoint over all one-qubit gates) followed by every gate, the abstract state "
             "that an observer then sees must equal the composition of the gates' matrices, coefficient by coefficient",
        scope="all pending configurations x all gates, 1-3 qubits, control counts 0-2, several operands pending at once, queues up to 10,003 operations, small angles and amplitudes; thorough adds id permutations and longer prefixes"),
    "C02": dict(obligations=lambda p, t: S.obligations_C02(p, t) + K.obligations_C02(p, t), level="other", floor=800, assumptions=GATES_ASSUME,
        rule=TRACE + "every observing operation (measure, joint measure, probability, parity assertion, state dump, release) is "
             "interpreted after every pending configuration; what it observes and the state it leaves must be those of the fully "
             "flushed state",
        scope="all pending configurations x all observers, 1-3 qubits"),
    "C03": dict(obligations=S.obligations_C03, level="other", floor=250, assumptions=GATES_ASSUME,
        rule=TRACE + "each gate applied to a generic state must act as its documented matrix, for every sub-support of present amplitudes",
        scope="all gates, generic amplitudes, every subset of present basis states up to 2-3 qubits"),
    "C04": dict(obligations=S.obligations_C04, level="other", floor=300, assumptions=GATES_ASSUME,
        rule=TRACE + "each controlled gate must act as its matrix exactly on the subspace where every control is one and as identity elsewhere",
        scope="all controlled gates, 1-3 controls (4-6 selected), operand positions permuted, controls with pending work, bystanders"),
    "C05": dict(obligations=S.obligations_C05, level="other", floor=150, assumptions=GATES_ASSUME,
        rule=TRACE + "the branch taken by a measurement must be guarded by draw < p(one) of the observed state, the collapsed state "
             "must be the normalised projection for the returned outcome, and a repeated measurement must return the same value without branching",
        scope="measure, joint measure, 1-3 qubits, every subset of present amplitudes"),
    "C07": dict(obligations=lambda p, t: S.obligations_C07(p, t) + K.obligations_C07(p, t), level="other", floor=150, assumptions=GATES_ASSUME,
        rule=TRACE + "allocation must return an id not in use and a qubit in |0>, release must leave the other qubits' state untouched "
             "and make the id reusable, releasing an id that is not allocated must be rejected",
        scope="allocate/release sequences up to 3 qubits with every free-id pattern, entangled and pending qubits, exported arrays"),
    "C08": dict(obligations=lambda p, t: S.obligations_C08(p, t) + K.obligations_C08(p, t), level="other", floor=400, assumptions=GATES_ASSUME,
        rule=TRACE + "every path of a call whose operands repeat an id, or name an id that is not allocated, must end in a panic, "
             "in every pending configuration",
        scope="all entry points x every way of repeating/unallocating one operand"),
    "C09": dict(obligations=S.obligations_C09, level="other", floor=400, assumptions=GATES_ASSUME,
        rule=TRACE + "the result of every operation must not depend on which storage location each id has: all operations are "
             "interpreted under every id-to-location permutation, including locations freed by released qubits",
        scope="all permutations of up to 3 qubits x gates and observers"),
    "C06": dict(obligations=K.obligations_C06, level="other", floor=90, assumptions=BACK_ASSUME,
        rule=TRACE + "with the thread's generator seeded, every random draw met on any path of any instruction must come from that "
             "generator value, in the required number, and the operation must leave it in place; over the call graph of all public "
             "functions of the simulator and the backend, no call may reach a clock, process, thread, environment, file or "
             "randomly-seeded-hash source, and entropy sources only at the sites that construct an unseeded generator",
        scope="every gate form, observer, allocation, release, initialization; whole call graph"),
    "C10": dict(obligations=K.obligations_C10, level="other", floor=2500, assumptions=BACK_ASSUME,
        rule=TRACE + "every exported instruction is interpreted from its C entry point, with argument arrays and tuples built by the "
             "runtime's own functions, on a generic state of 3-4 qubits; the state it leaves must be the reference unitary of the "
             "instruction's name applied to the state before, coefficient by coefficient, and adjoint forms must undo body forms",
        scope="all 45 gate exports x all operand orders x 0-3 controls x all Pauli words up to 2, symbolic angle and every multiple of pi/4"),
    "C11": dict(obligations=K.obligations_C11, level="other", floor=1500, assumptions=BACK_ASSUME,
        rule=TRACE + "every instruction is interpreted as the first user of its qubit ids, in every order, with zero to two qubits "
             "existing; afterwards exactly the ids up to the largest must exist, the state must be that of the instruction on the old "
             "state with new qubits in zero, and the next explicit allocation must return the next id",
        scope="all instructions x operand orders x ids with and without gaps, allocation/use interleavings up to length 3 (4 thorough)"),
    "C12": dict(obligations=K.obligations_C12, level="other", floor=450, assumptions=BACK_ASSUME,
        rule=TRACE + "for every Pauli word the outcome returned must be guarded by draw < p of the corresponding projector and the state "
             "left must be that projector applied to the state before, normalised; the assertion must fail exactly on the paths whose "
             "constraints imply |p - prob| > tol and must leave the state alone",
        scope="all words over I,X,Y,Z up to 3 qubits, generic, basis and prepared states, all operand orders"),
    "C13": dict(obligations=K.obligations_C13, level="other", floor=700, assumptions=BACK_ASSUME,
        rule=TRACE + "after every enumerated history of result writes and measurements, every read, comparison and record call must "
             "yield the last bit stored under that id, or zero; the bit stored is the outcome whose projection the state is left in",
        scope="histories up to 3 stores over ids including 63, 64, 65 and 130"),
    "C14": dict(obligations=K.obligations_C14, level="other", floor=350, assumptions=BACK_ASSUME,
        rule=TRACE + "on both outcomes of reset and measure-and-reset the qubit must be in zero, the rest of the state must be the "
             "projection for that outcome, and the stored result must be the outcome before the reset",
        scope="1-3 qubits, every pending configuration of the qubit, generic/sparse/basis/entangled states"),
    "C15": dict(obligations=K.obligations_C15, level="other", floor=600, assumptions=BACK_ASSUME,
        rule=TRACE + "after any enumerated history followed by initialization, allocation, implicit use, result reads, recording and "
             "measurement must behave as on a fresh thread and draw from the same generator",
        scope="histories up to 2 (3 thorough) over allocation, release, gates with deferred work, results, swaps"),
    "C16": dict(obligations=K.obligations_C16, level="other", floor=100, assumptions=[
            "a borrow guard is held in a local variable of its type (or by a scoped with_borrow closure); a guard hidden behind a type "
            "that does not mention it would be missed"],
        rule="forward may-analysis over MIR of the RefCell guards live at every call, combined with interprocedural summaries of which "
             "thread-local cells each function may borrow (least fixpoint over the call graph, closures included): no call made while a "
             "guard is held may borrow the same cell again or go through an unknown function pointer; plus abstract interpretation of "
             "every instruction with the cell's borrow flag modelled, so that a failed borrow or a leaked guard is a path outcome",
        scope="every function that borrows a thread-local cell, all call sites"),
    "C17": dict(obligations=K.obligations_C17, level="other", floor=5, assumptions=[
            "state reached through foreign libraries is outside the analysis"],
        rule="type-level scan of every static of the three crates: it must be thread-local, or immutable and free of interior "
             "mutability (Freeze, decided by the compiler); simulator state and output recorder must be thread-local cells; no function "
             "reachable from an export touches process-wide state",
        scope="all statics, whole call graph"),
    "C18": dict(obligations=D.obligations_C18, level="other", floor=400, assumptions=RT_ASSUME,
        rule=RTRACE + "every counted allocation reachable by an exported runtime function carries its number of owners and aliases; "
             "on every path of every function the counts of the arguments must be as before (or changed by the documented amount), the "
             "result must be null, new and owned once, or the documented alias, no other allocation may stay behind, and no freed "
             "allocation may be read, released again or returned",
        scope="every exported runtime function x argument kinds and values, argument aliasing and owner counts 1-3"),
    "C19": dict(obligations=D.obligations_C19, level="other", floor=300, assumptions=RT_ASSUME,
        rule=RTRACE + "from every start count, the count update must end with exactly count + n owners (or aliases), release exactly at "
             "zero owners, and leave content and other objects alone",
        scope="five kinds of object x owners 1-5 x aliases 0-3 x n in -5..5 and large steps (wider in thorough)"),
    "C20": dict(obligations=D.obligations_C20, level="other", floor=250, assumptions=RT_ASSUME,
        rule=RTRACE + "after a copy every element of either object is overwritten with fresh unknowns and the other must be unchanged; a "
             "new object must be made exactly when it is forced or the original has aliases",
        scope="arrays of several element sizes and lengths, tuples, callables x sharing situations x forced or not"),
    "C21": dict(obligations=D.obligations_C21, level="other", floor=1200, assumptions=RT_ASSUME,
        rule=RTRACE + "arrays hold fresh unknown elements; size, element address, concatenation and slicing must yield exactly the "
             "elements the indices denote, compared as symbolic values byte for byte, and new arrays must read as zero everywhere",
        scope="element sizes 1,2,4,8,16 and odd ones, lengths 0-6, every valid range over lengths up to 5, arrays above 4 GiB, mismatched concatenation"),
    "C22": dict(obligations=D.obligations_C22, level="other", floor=500, assumptions=RT_ASSUME,
        rule=RTRACE + "the table entries are symbolic functions: after every word of adjoint/control/copy applications the invocation must "
             "reach exactly the entry selected by adjoint parity and presence of controls, with capture, argument and result pointers "
             "passed through and nested control arrays flattened outermost first",
        scope="functor words up to length 4 (6 thorough) x control list lengths x partially filled tables"),
    "C23": dict(obligations=D.obligations_C23, level="other", floor=400, assumptions=RT_ASSUME + [
            "num-bigint's arithmetic is exact (the third-party crate is a transfer function)"],
        rule=RTRACE + "operands are unknown integers, so the result must be the polynomial (or named uninterpreted function) of the "
             "operands in order; division, remainder, comparison, shifts and conversions are also decided by constant propagation at "
             "sign, size and limb boundaries; operands must be unchanged",
        scope="all big integer exports, symbolic operands and boundary values up to 200 bits, shift amounts above 2^32"),
    "C24": dict(obligations=D.obligations_C24, level="other", floor=1000, assumptions=[
            "std's elementary functions are correctly named transfer functions; constant propagation follows IEEE double arithmetic"],
        rule=RTRACE + "for an unknown argument the result must be the named function of it; IEEE-double constant propagation at zeros, "
             "halves, subnormals, huge values, infinities and NaN decides the special cases; the random draws must span exactly the "
             "requested bounds for unknown bounds",
        scope="all scalar math exports, symbolic and boundary arguments, all pairs for two-argument functions"),
    "C25": dict(obligations=D.obligations_C25, level="other", floor=700, assumptions=RT_ASSUME + [
            "std formatting of integers and doubles behaves as modelled (shortest round-trip form, fixed precision)"],
        rule=RTRACE + "output is an ordered trace of texts whose parts may be unknown values; after every call of every enumerated sequence "
             "the text written must be exactly the concatenation of the documented lines, on standard output and, when redirected, in the "
             "recorder's buffer, which a drain returns once",
        scope="all recording functions (current and legacy) x unknown and boundary values x labels, sequences up to 3 and of all kinds"),
    "C26": dict(obligations=D.obligations_C26, level="other", floor=900, assumptions=RT_ASSUME + [
            "std formatting of integers and doubles behaves as modelled (shortest round-trip form, fixed precision)"],
        rule=RTRACE + "conversions of unknown values must yield their plain decimal text, boundary values the documented text; strings are "
             "texts of bytes whose length, concatenation, comparison and message output must be exact and independent of their sources",
        scope="all conversions x unknown and boundary values, all byte values, pairs of strings incl. empty, non-ASCII and non-UTF-8"),
    "C27": dict(obligations=A.obligations_C27, level="other", floor=350, assumptions=[
            "x86-64 sizes of the C integer types; a symbol exported by rustc under a name is the one the linker sees"],
        rule="type query on two programs: the declarations of the C header as parsed by clang and the exported functions with the types "
             "rustc gives them, compared name by name (linkage, calling convention, number, size and kind of each parameter and of the "
             "result, object behind each handle type, enumeration values, layout of by-value structures) and with the linker export "
             "list; [[noreturn]] is decided by interpreting the function's MIR",
        scope="every declaration of the header, every entry of the export list, every exported function"),
    "C29": dict(technique=RTECH, obligations=U.obligations_C29, level="other", floor=2500, needs_mir=False, assumptions=RUN_ASSUME,
        rule=RUNNER + "every name the backend exports is declared in turn with every number of parameters; exactly the function of that "
             "name must be mapped, for exactly the numbers an implementation takes, and everything else must be refused",
        scope="every exported name x 0-8 declared parameters, near-miss and unknown names, defined functions, pairs of declarations"),
    "C30": dict(technique=RTECH, obligations=U.obligations_C30, level="other", floor=450, needs_mir=False, assumptions=RUN_ASSUME,
        rule=RUNNER + "text written, entry point calls, simulator state and random draws of a run of n shots are compared, path by path, with "
             "those of the same program run n times by itself on a freshly initialized runtime, framed by the documented lines",
        scope="four programs x shot counts x seed unknown or absent x every way to pass the program; all choices among three functions"),
    "C31": dict(technique=RTECH, obligations=U.obligations_C31, level="other", floor=280, needs_mir=False, assumptions=RUN_ASSUME,
        rule=RUNNER + "for every failure LLVM or the file system can answer, and every file name, prefix and entry point situation listed, the "
             "run must end in a described error before any shot or output; sound programs must be read by the right parser, verified and run",
        scope="eleven kinds of failure x four ways to pass a program x shot counts; file names, short inputs, entry points"),
    "C32": dict(technique=RTECH, obligations=L.obligations_C32, level="other", floor=850, needs_mir=False, assumptions=RUN_ASSUME + [
            "clap parses a flat list of options as analysis/clapmodels.py says", "pyo3 passes arguments by name and converts them exactly"],
        rule=RUNNER + "argument vectors with unknown numbers, and Python calls with any subset of the arguments, must reach the run functions "
             "with exactly the values given and the documented defaults, malformed ones must run nothing; whole runs are compared with direct "
             "calls, and the text handed to a Python callback with the text the same run writes",
        scope="all ordered subsets of the options x spellings, boundary and malformed values; both Python functions, histories of up to three runs"),
    "C33": dict(obligations=Z.obligations_C33, level="other", floor=200, assumptions=BACK_ASSUME + [
            "std and num formatting of indices and amplitudes is left symbolic: the dump is a text whose amplitudes are the values themselves"],
        rule=TRACE + "the text dumped is an ordered trace of literal and unknown parts; it must be the line of results, when there are any, and the "
             "listing of the reference state, written to the recorder's current target, twice in a row, with results, state and qubits "
             "afterwards as before; a dump to a location must fail before anything is written",
        scope="result sets up to id 130, registers of 0-3 qubits in every storage order, every pending configuration, both output targets"),
}
