#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Source of truth for titles/statements."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or [], "hook_needed": None}})

SIM="sparsesim/src/lib.rs"
prop("C01","Gate sequences evolve the state as ideal quantum mechanics",
 "For every sequence of single-qubit and multi-controlled gates (X, Y, Z, H, S, T and adjoints, Rx, Ry, Rz, controlled phase, id swap) with any control count and any finite angles, the simulator's state equals, up to one global phase and numerical tolerance, the product of the ideal unitaries applied to the initial state. In particular the deferral, commutation, merging and cancellation of queued operations never changes the result, no matter how gates are interleaved with each other or with observations.",
 ["histories","inputs"],"every finite sequence of gates over every number of qubits, every control set, every angle (including multiples of pi, near-multiples, cancelling and huge angles), every interleaving with observations, including sequences longer than the internal queue",
 "Unit tests apply one gate next to one queued H/Rx/Ry against its adjoint; they do not reach products of three or more pending rotations, relative phases, angles near pi, long queues or mixed control/target pending states.",
 [SIM,"sparsesim/src/index_map.rs","sparsesim/src/nearly_zero.rs"],
 [("gate queueing and commutation","sparsesim/src/lib.rs: x/mcx/y/mcy/z/mcz/h/rx/ry/mcrotation"),("flush levels","sparsesim/src/lib.rs: flush_queue/flush_rx/flush_ry/flush_ops/take_ops")],
 ["QuantumSim::get_state","QuantumSim::joint_probability"],
 [{"name":"op_queue/h_flag/rx_queue/ry_queue","meaning":"operations accepted but not yet applied","where":"QuantumSim"}])
prop("C02","Pauli exponentials and user matrices act as the ideal operator",
 "Applying a (multi-controlled) exponential exp(i*theta*P) of any tensor product of Pauli operators, or any user-supplied unitary matrix with any controls, to any distinct qubits transforms the state exactly as the corresponding matrix on those qubits does, in the documented operand order, whatever operations are pending and whichever qubits were released earlier.",
 ["inputs","histories"],"every Pauli string (including identity and repeated Y), every angle, every target order, every unitary up to several qubits, every control set, every prior history of gates, swaps, allocations and releases",
 "One unit test covers exp for a single Pauli string and angle; matrix application is exercised only by the repository's own cross-check on fixed gates and never after a release or with scattered qubits.",
 [SIM,"sparsesim/src/exp.rs"],
 [("mcexp masks","sparsesim/src/exp.rs: mcexp"),("matrix application and relocation","sparsesim/src/lib.rs: apply/controlled/swap_qubit_state")],["QuantumSim::get_state"])
prop("C03","Measurement follows the Born rule and collapses to the outcome",
 "Reported parity probabilities equal the ideal ones for every set of qubits; a measurement or joint measurement returns an outcome of non-zero ideal probability, and leaves exactly the renormalised projection of the prior state on that outcome, so repeating it gives the same answer; over many seeds outcome frequencies match the probabilities. Forced collapse returns the probability of the forced value and projects on it, and changes nothing when that value is impossible.",
 ["histories","inputs","configurations"],"every history of gates, measurements and releases, every qubit subset, every seed",
 "Tests measure basis states and a few Bell-like states; they never compare the post-measurement amplitudes of a general state, parity of more than two qubits, or outcome frequencies.",
 [SIM],[("probability and collapse","sparsesim/src/lib.rs: check_joint_probability/joint_collapse/measure/joint_measure/force_collapse")],
 ["QuantumSim::joint_probability","QuantumSim::get_state","measurement results"])
prop("C04","Qubits are fresh when allocated and isolated on release",
 "Allocation returns the lowest identifier not in use and that qubit is in |0> regardless of history; releasing a qubit, in any order and in any state, collapses and removes only that qubit and leaves the joint state of all the others as it was conditioned on the outcome. Identifiers stay attached to their own quantum state under any interleaving of allocation, release, relabelling and gates.",
 ["histories"],"every history of allocate, release, gates, swaps, observations with identifiers reused arbitrarily",
 "Tests release in a handful of fixed orders with basis states and check only marginal probabilities.",
 [SIM,"sparsesim/src/index_map.rs"],[("identifier to location map","sparsesim/src/lib.rs: allocate/release/swap_qubit_ids")],["allocate return value","get_state"])
prop("C05","Observing the state never changes it and is canonically ordered",
 "Reading the state, printing it, checking that a qubit is zero or asking for a probability never changes any later result: a program with observations inserted anywhere behaves as the same program without them. The reported state is sorted, indexed by the rank of the qubit identifiers, reports the number of allocated qubits, and the printed dump lists the same amplitudes.",
 ["histories","programs"],"every program and every choice of points at which observations are inserted",
 "Tests read the state at the end of fixed programs; they cannot compare all placements of observations, each of which triggers a different flush and relocation.",
 [SIM],[("canonical reordering","sparsesim/src/lib.rs: get_state/dump/swap_qubit_state")],["get_state","dump","joint_probability","qubit_is_zero"])
prop("C06","State stays normalised, sparse and free of duplicates at any width",
 "After any history the state has norm one, contains each basis index at most once, contains no index using an unallocated qubit, and holds no vanishing amplitudes beyond rounding; circuits that only permute or phase basis states keep exactly one entry, for any number of qubits (thousands) and any queue length, so memory follows the number of populated basis states and not the qubit count.",
 ["histories","inputs"],"every history including registers much wider than a machine word, entangled, un-computed and re-used qubits",
 "One test allocates 5000 qubits in a fixed GHZ pattern; no test checks norm, duplicates or sparsity after general circuits or crossing 64-bit boundaries.",
 [SIM,"sparsesim/src/exp.rs"],[("arbitrary-width indices","sparsesim/src/lib.rs: SparseState keys"),("pruning of cancelled amplitudes","sparsesim/src/lib.rs: apply_mch/mcrotation/apply")],["get_state"])
prop("C07","Misuse of qubits is rejected, never silently simulated",
 "Using an identifier that is not currently allocated, or naming the same qubit twice in one operation's operands, in any gate, rotation, exponential, matrix application, measurement, probability query, relabelling or release makes the program fail no later than the next observation; it never yields an observation computed as if the operation were legal.",
 ["inputs","histories"],"every operation, every position of the offending operand, every pending state of the queues and every number of live qubits",
 "Tests cover duplicate operands of two operations on fresh qubits; unallocated and released identifiers and pending states are not covered.",
 [SIM,"sparsesim/src/exp.rs"],[("operand checks","sparsesim/src/lib.rs: resolve_and_check_qubits/check_for_duplicates")],["panic of the calling program"])
prop("C08","A seed fixes every outcome; resetting keeps the random stream",
 "Two executions of the same program from the same seed give identical measurement results, identical outputs and identical final states, irrespective of any earlier activity before seeding, of observations inserted, and of other threads; re-initialising between shots continues the same random stream, so a multi-shot run is a function of program, seed and shot count, different shots draw different randomness, and seeding again restarts the stream.",
 ["configurations","histories","schedules"],"every seed, program, shot count, prior history and concurrent thread",
 "One test compares 64 H-measurements for seed 42; persistence across initialisation, interaction with observations and threads is not covered.",
 [SIM,"backend/src/lib.rs"],[("rng ownership","sparsesim/src/lib.rs: set_rng_seed/take_rng"),("re-initialisation","backend/src/lib.rs: __quantum__rt__initialize, SIM_STATE")],["measurement results","recorded output"])
prop("C09","QIR gate intrinsics implement exactly the gates they name",
 "Every quantum intrinsic (body, adjoint, controlled and controlled-adjoint forms, including R, Exp, Rxx/Ryy/Rzz, SX, CX/CY/CZ/CCX and SWAP) transforms the simulated state as the operator its name and signature specify, with arguments read from the caller's arrays and tuples, which are left unmodified; adjoint forms undo body forms and controlled forms act only when every control is one. Referring to a statically numbered qubit implicitly makes every qubit up to it available in |0>.",
 ["programs","inputs"],"every sequence of intrinsics, every operand list, angle, Pauli string and number of controls including none",
 "Backend tests check some intrinsics by conjugation with fixed entanglement and fixed angles; exponential, R with PauliI, two-qubit rotations and sequences of intrinsics are unchecked or sampled once.",
 ["backend/src/lib.rs","backend/src/exp.rs"],[("intrinsic macros","backend/src/lib.rs: single_qubit_gate!/controlled_qubit_gate!/multicontrolled_qubit_gate!"),("static qubit allocation","backend/src/lib.rs: ensure_sufficient_qubits")],["get_current_state","qubit_is_zero"])
prop("C10","Results store the outcome measured, until overwritten",
 "A measurement intrinsic (destructive, resetting, Pauli-basis joint or plain) stores or returns the outcome obtained, reading a result any number of times in any order returns the last value stored under that identifier and false if none was stored, and result identifiers are independent of one another and of qubit identifiers. Reset and measure-and-reset leave the qubit in |0>; joint measurement in any Pauli bases projects the state onto the returned parity's eigenspace; recorded result output shows the stored value.",
 ["histories","inputs"],"every interleaving of measurements, reads, writes, resets and records over every set of result and qubit identifiers",
 "Tests measure a few basis-state qubits in a fixed order with contiguous result identifiers.",
 ["backend/src/lib.rs","backend/src/result_bool.rs"],[("result store","backend/src/lib.rs: SimulatorState.res, mz/mresetz/read_result/write_result"),("basis mapping","backend/src/lib.rs: map_to_z_basis/unmap_from_z_basis")],["read_result","get_current_state","recorded output"])
prop("C11","Each shot starts from a clean machine",
 "After initialisation the backend has no qubits, no pending operations and no stored results, whatever happened before (including unreleased qubits, pending rotations and stored results), so the observable behaviour of a program run after any other program equals its behaviour on a fresh machine given the same random stream. Simulator state belongs to the calling thread and is never affected by other threads.",
 ["histories","schedules"],"every preceding program, every following program, any number of shots, any threads",
 "The tests run each program once per process thread; none compares behaviour after an arbitrary predecessor.",
 ["backend/src/lib.rs"],[("re-initialisation","backend/src/lib.rs: __quantum__rt__initialize"),("thread-local state","backend/src/lib.rs: SIM_STATE")],["get_current_state","read_result","allocated ids"])
prop("C12","Runtime arrays and tuples are values with copy-on-write",
 "Arrays and tuples are zero-filled when created and keep exactly the bytes written; concatenation and slicing produce the element sequence the mathematical operation specifies (any start, step sign, step size and end, including empty results); a copy is the same object only if it is not aliased and not forced, and otherwise mutations of one are never visible through the other.",
 ["histories","inputs"],"every sequence of create, write, copy, concatenate, slice, alias and release over any element sizes and lengths, every range",
 "Tests use byte elements and three or six element arrays with four ranges; multi-byte elements, aliasing combinations and extreme ranges are not explored.",
 ["stdlib/src/arrays.rs","stdlib/src/tuples.rs","stdlib/src/range_support.rs"],[("copy decision","stdlib/src/arrays.rs: __quantum__rt__array_copy; stdlib/src/tuples.rs: __quantum__rt__tuple_copy"),("slicing","stdlib/src/range_support.rs: quantum__rt__array_slice_1d")],["element bytes and sizes read back"])
prop("C13","Reference counting frees each object once, exactly when due",
 "Every runtime object (array, tuple, string, big integer, callable, qubit array) stays valid and unchanged while its reference count is positive and is fully freed when it reaches zero, for any sequence of multi-step increments and decrements interleaved with alias-count changes and with creation of derived objects; operations never free, retain or corrupt their operands, and a balanced program leaks no memory.",
 ["histories"],"every balanced history of reference-count and alias-count updates (of any magnitude) over every kind of object and every constructor",
 "Tests pair each creation with one release; over-retention, early release under alias counts, and leaks inside operations are invisible to them.",
 ["stdlib/src/lib.rs","stdlib/src/arrays.rs","stdlib/src/tuples.rs","stdlib/src/strings.rs","stdlib/src/bigints.rs","stdlib/src/callables.rs","backend/src/lib.rs"],[("shared counting helper","stdlib/src/lib.rs: update_counts"),("qubit array release","backend/src/lib.rs: __quantum__rt__qubit_release_array")],["allocator-level object lifetime"])
prop("C14","Callables dispatch to the specialisation their functors select",
 "Invoking a callable after any sequence of adjoint and controlled applications, on it or on copies, calls exactly the body, adjoint, controlled or controlled-adjoint entry that the parity of adjoints and presence of controls select, once, with the captured value and result pointer passed through, the argument tuple's contents intact, and nested control lists flattened outermost first; independent copies do not affect each other and capture count updates reach the registered capture functions.",
 ["histories","inputs"],"every sequence of functor applications, copies and invocations, every depth of nested controls and control list lengths, null and non-null argument, capture and memory tables",
 "Tests apply at most two nested controls and one adjoint on a single callable.",
 ["stdlib/src/callables.rs"],[("dispatch and control flattening","stdlib/src/callables.rs: __quantum__rt__callable_invoke"),("functor state","stdlib/src/callables.rs: Callable.is_adj/ctls_count")],["which table entry ran and with what arguments"])
prop("C15","Big integers are exact mathematical integers",
 "Big-integer construction from 64-bit values or byte arrays, negation, addition, subtraction, multiplication, truncated division and remainder, power, two's-complement bitwise operations, shifts (right shift rounding down), comparisons, byte export and decimal conversion agree with exact integer arithmetic for operands of any size and sign; export followed by construction is the identity and inputs are not changed.",
 ["inputs"],"all integers of any size and sign and all operation sequences over them",
 "Tests use 42, 3 and similar small positives.",
 ["stdlib/src/bigints.rs","stdlib/src/strings.rs"],[("arithmetic bindings","stdlib/src/bigints.rs")],["bigint_get_data/get_length","bigint_to_string","comparison results"])
prop("C16","Strings are exact and conversions are faithful",
 "Created and concatenated strings hold exactly the given bytes with correct length, terminator and equality, independent of the source buffers; integer, Boolean, Pauli, range, result and qubit conversions give the one canonical text; a double converts to text which parses back to the identical value and is always distinguishable from an integer.",
 ["inputs"],"all byte strings without NUL, all 64-bit integers, all doubles including subnormal, huge, negative zero and non-finite, all ranges",
 "Tests convert two or three sample values of each kind.",
 ["stdlib/src/strings.rs","stdlib/src/range_support.rs","backend/src/lib.rs","backend/src/result_bool.rs"],[("conversion","stdlib/src/strings.rs: convert/double_to_string"),("range text","stdlib/src/range_support.rs: quantum__rt__range_to_string")],["string_get_data"])
prop("C17","Recorded output is a faithful, ordered, line-framed stream",
 "Every recording call appends exactly one line, in call order, with the type keyword, value and optional tag in tab-separated fields as the output schema defines (legacy variants in the legacy form), so the recorded values can be recovered from the stream; messages are escaped so that no message content can break the line framing; in buffered mode nothing reaches standard output and draining returns all recorded bytes once, in standard-output mode the same bytes appear there.",
 ["histories","inputs"],"every sequence of recording, message and drain calls, all values and tags, both output modes",
 "Tests record one value per test and compare with one literal.",
 ["stdlib/src/output_recording.rs","stdlib/src/lib.rs","backend/src/lib.rs"],[("line emission","stdlib/src/output_recording.rs: record_output/record_output_str"),("buffering","stdlib/src/output_recording.rs: OutputRecorder")],["OUTPUT drained bytes","process stdout"])
prop("C18","Classical math intrinsics compute the functions they name",
 "Each classical math intrinsic returns the value of the named real function within rounding for every argument including special values; classification of not-a-number and the signed infinities is exact and exclusive; the IEEE remainder is the exact remainder with ties to the even quotient. Random draws always lie within the inclusive bounds, can reach both bounds, accept equal bounds and reject reversed bounds by failing.",
 ["inputs"],"all doubles (all pairs for binary functions), all integer bounds including the extreme ones",
 "Tests call each function at one or two points.",
 ["stdlib/src/math.rs"],[("math bindings","stdlib/src/math.rs")],["returned values"])
prop("C19","Runtime assertions and failures stop the program loudly",
 "Asserting the probability of a Pauli-basis parity outcome fails exactly when the true probability differs from the expected one by more than the tolerance, and when it passes leaves the quantum state unchanged; a failed assertion, an explicit fail, mismatched operand arrays or mismatched element sizes always terminate execution after recording the message, and never let the program continue with wrong data.",
 ["inputs","histories","programs"],"every state, Pauli string, qubit list, outcome, expected probability and tolerance; every failing call",
 "Tests assert true facts about two fixed states and never check failing paths (they abort the test process).",
 ["backend/src/lib.rs","stdlib/src/lib.rs","stdlib/src/arrays.rs","stdlib/src/math.rs"],[("assertion","backend/src/lib.rs: __quantum__qis__assertmeasurementprobability__body/__ctl"),("failure","stdlib/src/lib.rs: __quantum__rt__fail")],["process termination","recorded INFO line","get_current_state"])
prop("C20","Running a QIR module equals executing its calls on the backend",
 "Running a module through the runner produces, for every valid program, exactly the output that performing the same runtime and quantum calls directly on the backend would, framed per shot by start, entry-point attribute metadata and end records, for the requested number of shots; with a seed the whole output is reproducible and equals the concatenation of the shots drawn from one stream. Text, bitcode, file and in-memory input give the same output.",
 ["programs","configurations"],"every program over the supported runtime functions with classical control flow, every shot count, seed, entry point selection and attribute set",
 "Runner tests replay stored modules with fixed expected output and are not even runnable here; bindings of most functions are never exercised.",
 ["runner/src/lib.rs","runner/src/cli.rs"],[("symbol binding","runner/src/lib.rs: bind_functions/bind!"),("shot loop","runner/src/lib.rs: run_module")],["runner output bytes"])
prop("C21","Unrunnable modules are rejected before any shot",
 "A module that is not parseable, is internally invalid, has no entry point, lacks the requested entry point, has an entry point with parameters, is ambiguous about its entry point, mixes legacy and labelled output conventions or declares a supported function with a wrong number of parameters is reported as an error and no part of the program is executed; valid modules are never rejected.",
 ["inputs","programs"],"every byte string given as module, every valid module and every single-defect variation of it",
 "Runner tests check a few stored invalid modules; arbitrary bytes, truncations and defect combinations are not explored.",
 ["runner/src/lib.rs","runner/src/cli.rs"],[("entry point selection","runner/src/lib.rs: choose_entry_point"),("arity and legacy checks","runner/src/lib.rs: bind_functions")],["Err result / exit status","absence of executed shots (no program output, no END record)"])
prop("C22","The Python module runs QIR exactly as the native runner does",
 "Calling the Python entry points with a module path, entry point, shot count, seed and output callback delivers to the callback, in order and decoded, exactly the records the native runner writes for the same arguments, raises on every input the native runner rejects, and runs the command line of the current process for the command-line entry.",
 ["programs","configurations"],"every module, argument combination and output callback",
 "The Python tests compare three stored modules with stored output.",
 ["pip/src/python.rs","pip/qirrunner/__init__.py"],[("output handler","pip/src/python.rs: OutputHandler / OptionalCallbackReceiver"),("python wrapper","pip/qirrunner")],["callback arguments"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
