"""Writes properties.jsonl and MANIFEST.json (run from /verif; both files are committed)."""
import json

C = "qtcodes/circuits/"
F = "qtcodes/fitters/"
B = "qtcodes/tools/benchmarking.py"
TESTS = "The tests run a few d=3..7 memory circuits with hand-placed errors; "
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=(), level="exploration", note=""):
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": quant}, why_tests_cant=why,
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}),
              level, note))


prop("C01", "Fault-free stabilization reports no syndrome changes",
     "On a fault-free device, once a logical qubit has been reset, every two consecutive stabilization rounds record identical check values until the next reset, whatever logical gates, idle layers, readouts, conditional gates or logical CNOTs lie between them. The first round after a Z (X) reset records 0 for every Z (X) check, and a final lattice readout agrees with the last round. This holds whatever state the data qubits were in before the reset.",
     ["histories", "programs", "configurations", "schedules"],
     "every interleaved history over one or more logical qubits of any code and odd shape, every pre-reset corruption, every outcome the device's random measurements can produce",
     TESTS + "they never mix gates, readouts or several qubits between rounds, nor random first-round outcomes with later operations.",
     [C + "rotated_surface.py", C + "xxzz.py", C + "xzzx.py", C + "repetition.py"],
     [("stabilizer entangling schedules", C + "xxzz.py, " + C + "xzzx.py"), ("syndrome extraction and reset of syndrome qubits", C + "rotated_surface.py stabilize"), ("reset of data qubits", C + "rotated_surface.py / xxzz.py / xzzx.py reset_x, reset_z")],
     ["recorded rounds of the executed circuit"],
     note="Random histories executed on an exact stabilizer device with every random outcome drawn from the seed; trusts the device model.")
prop("C02", "A logical qubit behaves as one perfect qubit over any history",
     "Every logical readout, of either basis and kind, records only values that a single perfect qubit undergoing the same history of resets, X, Z, conditional X/Z, CNOTs with physical qubits and earlier readouts could have produced, with the same determined outcomes. Physical errors act on it exactly as the logical operator they amount to. Readouts do not disturb what they measure (a lattice readout measures every data qubit and is a qubit's last operation before its next reset).",
     ["histories", "programs", "configurations", "fault_sequences"],
     "every history of logical operations over one or more logical and bare physical qubits, including feed-forward of earlier outcomes, entangled states and Pauli errors between operations",
     TESTS + "logical gates are checked only from |0>/|+> followed by one readout; no feed-forward, no entanglement, no re-readout.",
     [C + "base.py", C + "rotated_surface.py", C + "xxzz.py", C + "xzzx.py", C + "repetition.py", C + "circ.py"],
     [("logical operators", C + "xxzz.py x, z, cx, x_c_if, z_c_if"), ("XZZX logical operators", C + "xzzx.py"), ("readout through an ancilla", C + "xxzz.py / xzzx.py readout_x, readout_z")],
     ["logical readout registers, lattice readouts"],
     note="Refinement against a register of perfect qubits (tableau) over random histories with an explicit fault plan.")
prop("C03", "A parsed record names exactly the checks that changed",
     "Parsing the printed record of a memory experiment returns, for each check type, exactly the (time, row, column) positions where the faults that struck changed a check between consecutive rounds, including the changes reconstructed from a final lattice readout. It also returns the logical value actually read. The decoder's and the encoder's parser agree.",
     ["inputs", "fault_sequences", "configurations", "programs"],
     "every code and shape, number of rounds, readout kind and basis, and every set of data errors, wrong syndrome bits and wrong readout bits",
     TESTS + "only a handful of single-error strings are parsed, mostly in the Z basis on square lattices.",
     [C + "rotated_surface.py", C + "xzzx.py", F + "lattice_decoder.py"],
     [("readout parsing", C + "rotated_surface.py parse_readout"), ("final stabilizers from lattice readout", C + "rotated_surface.py extract_final_stabilizer_and_logical_readout_x/z"), ("decoder delegates to the encoder", F + "lattice_decoder.py parse_readout")],
     ["result of parse_readout"],
     note="Compared with an independent lattice model over random fault plans on the real circuits.")
prop("C04", "Any (d-1)/2 faults are corrected",
     "If at most (d-1)/2 faults of the kind that can flip the stored value strike a memory experiment (data errors, wrong syndrome bits, wrong readout bits), decoding its record returns the stored value. Any number of faults of the other type does not matter, and it does not matter whether the record is given as the printed string or as parsed syndromes.",
     ["fault_sequences", "inputs", "configurations"],
     "every code, odd shape, number of rounds, stored value and every fault set of at most half the distance between the reference round and the readout",
     TESTS + "fault sets are single errors on a few sites; sets of two or three faults across space and time are not sampled.",
     [F + "lattice_decoder.py", F + "rotated_surface.py", F + "repetition.py", C + "rotated_surface.py"],
     [("minimum weight matching", F + "lattice_decoder.py _make_error_graph, _run_mwpm"), ("syndrome graph and boundary nodes", F + "rotated_surface.py _make_syndrome_graph, _specify_virtual"), ("crossing parity", F + "rotated_surface.py _is_crossing_readout_path")],
     ["result of correct_readout"],
     note="Random fault sets of full half-distance, biased to clustered chains, on real circuits.")
prop("C05", "Fewer than d faults never flip the value silently",
     "If fewer than d relevant faults strike a memory experiment and the logical value read is wrong, the parsed record contains at least one syndrome hit of the decoded type.",
     ["fault_sequences", "configurations"],
     "every code, odd shape, number of rounds and every fault set of weight at most d-1, including almost complete lattice-crossing chains and chains spread over time",
     TESTS + "no test builds a near-logical error chain.",
     [C + "rotated_surface.py", C + "xxzz.py", C + "xzzx.py", C + "repetition.py"],
     [("lattice geometry", C + "rotated_surface.py _gen_qubit_indices_and_stabilizers"), ("readout lines", C + "xxzz.py, xzzx.py readout_x/readout_z")],
     ["result of parse_readout"],
     note="Random near-logical chains and detours of weight up to d-1 on real circuits.")
prop("C06", "One fault inside a syndrome round is corrected",
     "A single fault at any instruction of the stabilization rounds after the first (reference) round of an experiment with a final lattice readout, a Pauli after any gate, a correlated pair after a two-qubit gate or one flipped recorded bit, with everything it propagates to, leaves a record that decodes to the stored value, for every lattice whose distance against the fault's type is at least three, one-dimensional ones included. Where the record can be explained equally well either way, no answer is demanded.",
     ["fault_sequences", "configurations", "programs"],
     "every instruction position and every Pauli or Pauli pair after it, for every code, shape, stored value and number of rounds",
     TESTS + "errors are inserted between rounds only; the order in which a check touches its qubits, which decides how ancilla errors spread, is never exercised.",
     [C + "xxzz.py", C + "xzzx.py", C + "rotated_surface.py", F + "lattice_decoder.py", F + "rotated_surface.py"],
     [("gate order inside a check", C + "xxzz.py _XXZZXStabilizer/_Z..., " + C + "xzzx.py entangle"), ("matching", F + "lattice_decoder.py")],
     ["result of correct_readout"], level="fault_enumeration",
     note="Enumerates blocks of the full single-fault list of random configurations; quick covers a random subset of blocks, thorough many more.")
prop("C07", "Decoding picks the value that needs the fewest faults",
     "For any record, however noisy, decoding without an error rate returns the logical value for which the smallest number of faults explains the recorded syndromes. Records for which both values need equally many faults may be answered either way.",
     ["inputs", "fault_sequences", "configurations"],
     "every record a device can print, at any noise level, for every code, shape and number of rounds",
     TESTS + "the matcher is compared with expected graphs for a few hand-written syndromes, never with an independent optimum.",
     [F + "lattice_decoder.py", F + "rotated_surface.py", F + "repetition.py"],
     [("matching graph construction", F + "lattice_decoder.py _make_error_graph"), ("even-parity boundary node", F + "lattice_decoder.py"), ("matching order nondeterminism", "retworkx.max_weight_matching")],
     ["result of correct_readout"],
     note="Exact dynamic programming over all explanations; an accusation on more than 11 hits also needs the agreement of a matching-based and an integer-programming optimum.")
prop("C08", "Degeneracy weighting picks the likeliest pairing",
     "With an error rate 0 < p < 1/2, decoding returns the value whose best pairing of the hits has the highest likelihood when each pair (or boundary link) counts its shortest error chains as well as their length. Answers closer than the decoder's fixed-point resolution may go either way.",
     ["inputs", "fault_sequences", "configurations"],
     "every record, every code, shape, number of rounds and every error rate below one half",
     TESTS + "weighted edges are compared for a handful of syndromes on one lattice.",
     [F + "lattice_decoder.py"],
     [("path degeneracy", F + "lattice_decoder.py _path_degeneracy, _path_degeneracy_helper"), ("weights", F + "lattice_decoder.py _make_error_graph"), ("fixed-point matching", F + "lattice_decoder.py _run_mwpm")],
     ["result of correct_readout with err_prob"],
     note="Pairings over independently counted shortest chains; an accusation on more than 6 hits needs the agreement of two independent optimisers.")
prop("C09", "A decode answer depends on the request alone",
     "The answer to a decode or parse request depends only on the code, shape, rounds and the request: not on earlier, interleaved, refused or abandoned requests to the same or other decoders, nor on the order in which the matching library reports its pairs. Requests do not change their arguments.",
     ["schedules", "histories", "crash_points", "inputs"],
     "every interleaving of several callers' requests at source-line granularity, with impossible requests and requests cancelled half way in between, and decoders shared or built from shared parameter dictionaries",
     TESTS + "each decoder is used by one caller, mostly once per syndrome.",
     [F + "lattice_decoder.py", F + "base.py", F + "rotated_surface.py", F + "repetition.py"],
     [("per-request graphs and maps", F + "lattice_decoder.py _make_error_graph"), ("lazily built encoder", F + "lattice_decoder.py encoder")],
     ["result of correct_readout, parse_readout"],
     note="Cooperative line-level scheduler with explicit plans and cancellations; matching calls are atomic.")
prop("C10", "Look-up decoding follows the current calibration",
     "Look-up decoding returns the logical value under which the record is likelier according to the latest calibration counts delivered for each value, normalised by their totals, and the probabilities it shows are those Bayes' rule gives, with the caller's prior if one is given; counts change only when a calibration is set or the table is reset, not when the caller later changes the dictionary it passed. A record never seen in calibration is answered, not rejected, and earlier calibrations do not show in the answer.",
     ["histories", "fault_sequences", "inputs"],
     "every history of calibrations (lost, truncated, repeated, replaced), resets, look-ups and caller-side mutations over one or more decoders",
     TESTS + "the look-up path is tested with one fixed table.",
     [F + "base.py"],
     [("table and totals", F + "base.py set_look_up_table, reset_look_up_table"), ("Bayes rule", F + "base.py _run_look_up")],
     ["result of correct_readout_look_up_table", "probabilities returned by _run_look_up"],
     note="Exact rational Bayes reference; ties are not judged; every delivered calibration has at least one shot.")
prop("C11", "Logical qubits sharing a circuit are isolated",
     "When several logical qubits live in one circuit, the record of each is what its own operations and the faults on its own physical qubits imply, whatever is done to or happens to the others in whatever order operations interleave, whenever the qubits join the circuit and however they are spread over registers, and even if the caller shares one parameter dictionary among them. Logical CNOTs leave the syndrome records of all qubits, parties and bystanders, unchanged.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "every interleaving of independent programs over 2-4 logical qubits of mixed codes, with faults in each and logical CNOTs among some",
     TESTS + "almost all circuits hold one logical qubit.",
     [C + "circ.py", C + "base.py", C + "rotated_surface.py"],
     [("register naming and per-qubit params", C + "base.py _TopologicalLattice.__init__"), ("register of qubits", C + "circ.py TopologicalRegister")],
     ["each qubit's registers in the executed circuit"],
     note="Random interleavings on the exact device against a per-qubit model.")
prop("C12", "The logical CNOT is an ideal CNOT on any joint state",
     "A logical CNOT between two logical qubits of one circuit (one register or several) acts on any joint state, including entangled ones, as an ideal CNOT does, whatever codes and shapes the two and the helper have, and any number of times in one circuit, in either direction and chained. Its helper qubit and bits leave no trace on later results.",
     ["histories", "programs", "configurations", "fault_sequences"],
     "every history with logical CNOTs over 2-4 logical qubits of mixed codes and shapes with rounds, gates, feed-forward, readouts and tracked errors in between",
     "One test applies a CNOT to basis states and looks at classical outcomes, which cannot see phases, leftover entanglement or reuse of the helper.",
     [C + "circ.py", C + "xxzz.py", C + "xzzx.py", C + "repetition.py"],
     [("joint measurements and corrections", C + "circ.py TopologicalCircuit.cx"), ("helper qubit CNOT with a physical qubit", C + "xxzz.py / xzzx.py cx")],
     ["logical readouts"],
     note="Refinement against perfect qubits over random histories, on 128-192 simulated devices each.")
prop("C13", "A rejected request leaves no trace",
     "A request the library refuses (unknown code type, mismatched lists, even distance, impossible repetition shape, unknown qubit, half-specified or invalid helper, ambiguous CNOT, CNOT of a qubit with itself, name already taken) raises an error and leaves circuit and register as they were. All later requests behave exactly as if it had never been made.",
     ["fault_sequences", "histories", "inputs"],
     "every stream of valid requests with invalid ones injected at arbitrary points",
     "The tests check at most that an error is raised, never what the register and circuit do afterwards.",
     [C + "circ.py", C + "base.py", C + "rotated_surface.py", C + "repetition.py"],
     [("validation before construction", C + "circ.py add_tqubits, add_tqubit, cx"), ("shape validation", C + "rotated_surface.py _params_validate_and_generate, " + C + "repetition.py _validate_params")],
     ["circuit contents, later results"],
     note="Differential run with and without the refused requests, both circuits executed with the same seed.")
prop("C14", "Benchmarks report exactly what the machine returned",
     "A sweep runs one job per requested error rate with the requested shots and noise, and reports for each rate, in ascending order, exactly the fraction of returned shots that decode to something other than the declared correct value, with or without degeneracy weighting as asked. A failing job or save is reported to the caller, and the results file holds the completed points, each once. Lost shots count for nothing.",
     ["fault_sequences", "histories", "configurations"],
     "every sequence of sweeps, single points and direct evaluations on one benchmark, with shots lost and jobs failing at arbitrary places",
     "One benchmark test runs a sweep on a real noisy simulator and cannot know the right rate; failures and repeated sweeps are not tested.",
     [B, F + "lattice_decoder.py"],
     [("sweep and accounting", B + " sweep, single, logical_error_rate"), ("saving", B + " append_data")],
     ["benchmark data, results file"],
     note="Simulated machine behind the qiskit execution seam; counts are recorded and recomputed with exact fractions.")
prop("C15", "A saved benchmark result stays saved",
     "Once saving a point has returned, every later reader of the results file finds it, unchanged and once, next to all other saved points, whichever benchmark objects saved them, whatever happens afterwards: the process crashing at any file request, failing, short or torn writes and reads, a full disk, missing permissions, interrupts. An interrupted save leaves either the old or the new contents, never a damaged file, and saving works again as soon as the faults stop. Results the user has removed do not come back; a results file that is a link stays one, and its permissions stay what they were.",
     ["crash_points", "fault_sequences", "histories"],
     "every file system request of every save history, every kind of fault there, several faults in a row, and readers at any moment",
     "No test injects a fault; the file is written once and read back.",
     [B],
     [("write aside and replace", B + " append_data"), ("read of the earlier results", B + " append_data")],
     ["results file on disk"], level="fault_enumeration",
     note="Every request of fixed histories times every fault kind, plus random multi-fault histories; crash = process death, not power loss.")
prop("C16", "A parallel sweep equals a serial one under any schedule",
     "A parallel sweep terminates and gives every requested rate exactly one result, aligned with that rate and equal to what its job's counts imply, however workers are scheduled. With saving on, the results file gains each completed point exactly once and keeps all earlier ones; a failing job or save is reported to the caller and loses neither what was saved before nor the points of lower rate completed before it.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of the workers' jobs and file accesses with each other and with the collecting process, with failing jobs, over one or more sweeps",
     "The parallel sweep is not covered by any test that passes here, and a real run samples one schedule.",
     [B],
     [("task distribution and collection", B + " sweep_mp, single"), ("only the parent saves", B + " sweep_mp")],
     ["benchmark data, results file"],
     note="Cooperative worker pool with real pickling; preemption at jobs, file requests and task boundaries.")
prop("C17", "Batch analysis shows every saved benchmark in order",
     "Loading a directory of saved benchmarks yields one analysis per results file, with exactly the saved distance, rounds and rates of some moment during the load, sorted by distance, whatever order the directory is listed in and whatever other files lie there. If a file cannot be read, loading raises rather than presenting a partial or altered set.",
     ["schedules", "fault_sequences", "inputs"],
     "every set of saved benchmarks, listing order, read fault and interleaving with a process that saves",
     "One directory with a fixed listing order at most; no faults.",
     [B],
     [("loading", B + " TopologicalAnalysis.load_data"), ("collecting and sorting", B + " TopologicalBatchAnalysis")],
     ["loaded analyses"],
     note="Shuffled listings, faults at random read requests and a concurrent saver over real files.")
prop("C18", "Idle layers put noise exactly where asked",
     "An idle layer on a logical qubit inserts exactly one identity on each of its physical qubits (all of them, or only the data qubits, as requested) and nothing on any other, and no other operation inserts identities. A noise model attached to identities therefore strikes exactly those sites, and each strike shows up in the record as the check changes it causes.",
     ["histories", "fault_sequences", "configurations"],
     "every interleaved history of idle layers, rounds and gates over several logical qubits and every choice of struck identities",
     TESTS + "idle layers are inserted once before a single round on one qubit.",
     [C + "base.py", C + "circ.py"],
     [("idle layers", C + "base.py TopologicalQubit.id, id_data"), ("dispatch", C + "circ.py id, id_data")],
     ["circuit contents, parsed records"],
     note="Identities counted per physical qubit and struck one by one on the exact device.")
prop("C19", "Every operation records into its own place, once, for good",
     "Each stabilization round and each readout writes exactly its own classical bits, once, in the documented layout, and nothing executed later changes them, however long the history and whatever other qubits or logical CNOTs do. Operations that record nothing write nothing. Registers a caller adds to a topological circuit by name have the requested size and bits of their own; a name in use keeps its register unless the caller asks for a new one. The printed result shows the records newest first.",
     ["histories", "schedules", "fault_sequences"],
     "every interleaved history of rounds, readouts into own or user-supplied registers, resets and logical CNOTs over several logical qubits under noise",
     TESTS + "records of long or multi-qubit histories are never followed bit by bit.",
     [C + "rotated_surface.py", C + "circ.py", C + "xxzz.py", C + "xzzx.py"],
     [("per-round registers", C + "rotated_surface.py stabilize"), ("readout registers", C + "xxzz.py / xzzx.py readout_x/z, lattice_readout_x/z"), ("CNOT scratch bits", C + "circ.py cx")],
     ["every classical write on the device"],
     note="Every classical write of the simulated device is attributed to the operation that made it.")
prop("C22", "A plot shows the loaded data on the axes it was asked to use",
     "Plotting a loaded benchmark adds exactly one line to the axes it is asked to use (given ones, new ones on a given figure, or a new figure if none is given), showing exactly the loaded rates (divided by the rounds if asked) with the requested scale, label and line style, and changes no other axes, whichever figure happens to be current and whatever was plotted or failed before. A batch plot writes two comparison images, one linear and one logarithmic, each with one correctly labelled line per loaded benchmark and the break-even line; failing to write one is reported.",
     ["histories", "fault_sequences", "schedules"],
     "every history of single and batch plot requests interleaved with the caller opening, selecting, scaling and closing figures, and every failure to write an image",
     "Plots are not tested at all.",
     [B],
     [("plotting one benchmark", B + " TopologicalAnalysis.plot"), ("comparison of all benchmarks", B + " TopologicalBatchAnalysis.plot")],
     ["contents of all open figures, image files"],
     note="Histories of requests against the process-wide current figure of matplotlib, with image writes failing at random.")
prop("C23", "The fitting steps show a cheapest full explanation",
     "The syndrome graph holds every check of every round and every boundary place once and joins exactly those that one fault connects, with equal weights. Following the documented fitting steps on any record's hits (of either type, with or without an error rate): the error graph weighs every pair of hits, and every hit and boundary place, by the fewest faults connecting them (adjusted by how many shortest chains there are, if a rate is given); the matches, and the matched graph drawn from it, use every hit exactly once, no boundary place twice, never join two boundary places, and are together as cheap as possible, with the weights of the error graph. Steps may be repeated on one graph in any order and leave the hits and the graph as they were.",
     ["inputs", "fault_sequences", "histories"],
     "every noisy record of every supported shape, every order of the fitting steps and every order in which the matching library reports its pairs",
     TESTS + "the fitting steps are only exercised through correct_readout.",
     [F + "lattice_decoder.py", F + "rotated_surface.py"],
     [("syndrome graph", F + "lattice_decoder.py S, rotated_surface.py and repetition.py _make_syndrome_graph"), ("error graph", F + "lattice_decoder.py _make_error_graph, _path_degeneracy"), ("matches", F + "lattice_decoder.py _run_mwpm"), ("matched graph", F + "lattice_decoder.py _run_mwpm_graph")],
     ["error graph, matches and matched graph returned to the caller"],
     note="Exact optimum from an independent dynamic program and independently counted shortest chains; larger records need two optimisers to agree.")

prop("C21", "A drawing shows the graph it is given and disturbs nothing",
     "Drawing a syndrome, error or matched graph, flat or in three dimensions, makes one new figure showing every node of the graph once, marked and labelled at its lattice position (column across, row downwards; in three dimensions the round as height and boundary places at mid height), and every edge once, between its two nodes, with its (rounded) weight in the middle, at the requested angle and visibility (and size, if flat), and nothing else. The graph, all other figures and the plot settings stay as they were, whichever figure is current and whatever was drawn or failed before; the figure is returned, and a drawing that fails is reported.",
     ["histories", "fault_sequences", "inputs"],
     "every history of drawing requests for graphs of any decoder and any hits, interleaved with the caller opening, selecting and closing figures, with any drawing call or the display failing",
     "The tests draw nothing: wrong positions, weights or a disturbed current figure cannot fail them.",
     [F + "lattice_decoder.py"],
     [("flat drawing", F + "lattice_decoder.py draw"), ("drawing in three dimensions", F + "lattice_decoder.py draw3D")],
     ["contents of all figures, plot settings, the graph"],
     note="Figures read back artist by artist after every request; failing text, marker and display calls.")
prop("C24", "A round built in parts checks exactly the parts asked for",
     "Building only the X half, only the Z half, both halves one after the other or a chosen list of checks of a round puts the present value of exactly those checks onto their syndrome qubits, leaves all other syndrome qubits untouched and disturbs neither the stored value nor any check, whatever rounds (full or in parts), gates, readouts and errors came before or follow, for every shape including one-dimensional ones, where a half may be empty.",
     ["histories", "fault_sequences", "configurations"],
     "every interleaved history of full rounds, halves and chosen checks over one or two logical qubits with gates, resets, readouts and Pauli errors in between",
     "No test builds a round in parts.",
     [C + "base.py", C + "rotated_surface.py", C + "xxzz.py", C + "xzzx.py"],
     [("entangling a list of checks", C + "base.py _TopologicalLattice.entangle"), ("halves", C + "rotated_surface.py entangle_x, entangle_z")],
     ["syndrome qubits measured by the caller, logical readouts"],
     note="The syndrome qubits are measured by the simulated caller on the exact device and compared with every check's last value and the faults since.")
prop("C25", "Programs built side by side do not influence each other",
     "Separate programs, each on its own circuit, built by several callers in one process, interleaved at any point, one after the other or abandoned half way, each become the instructions and registers they become when built alone, and their records parse to the same result, even if the programs use the same names, codes or parameter dictionaries. What a program becomes depends on its own requests alone.",
     ["schedules", "histories", "crash_points", "configurations"],
     "every interleaving of several callers' building and parsing requests at source-line granularity, with programs abandoned at any line",
     TESTS + "every test builds one program at a time and never compares it with the same program built elsewhere.",
     [C + "base.py", C + "rotated_surface.py", C + "xxzz.py", C + "xzzx.py", C + "repetition.py", C + "circ.py"],
     [("per-lattice state", C + "rotated_surface.py _set_geometry, _params_validate_and_generate"), ("registers and counters", C + "base.py, circ.py"), ("class attributes", C + "xxzz.py, xzzx.py stabilizer_shortnames; qubit_types.py str2qtype")],
     ["instructions of the finished circuit per qubit and bit, parse results"],
     note="Cooperative line-level scheduler with explicit plans and cancellations; the reference is built by a freshly imported copy of the library.")

NA = [
    dict(id="C20", title="Shape and parameter validation accepts exactly the documented shapes",
         statement="Constructing a code or decoder succeeds exactly for the documented shapes and parameter spellings, and integer, tuple and defaulted distances mean the same lattice.",
         quantifier={"over": ["inputs"], "text": "every parameter dictionary"},
         why_tests_cant="Only a few dictionaries are tried.",
         anchors={"files": [C + "rotated_surface.py", C + "repetition.py"], "mechanism": [{"name": "validation", "where": C + "rotated_surface.py _params_validate_and_generate"}], "observe_at": ["constructor"], "hook_needed": None}),
]
REASON = {
    "C20": "A pure, stateless function of one argument: no schedule, time, I/O, fault or history for a simulator to control; generating dictionaries would be plain input testing. (That refused constructions leave no trace is C13.)",
}
with open("properties.jsonl", "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + "\n")
    for p in NA:
        f.write(json.dumps(p) + "\n")
doc = {
    "version": 1,
    "setup_cmd": "./check selftest",
    "checks": [
        {"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
         "evidence_file": f"evidence/{p['id']}.json",
         "technique": "deterministic simulation with fault injection: seeded search over " + ", ".join(x.replace("_", " ") for x in p["quantifier"]["over"]),
         "level": level, "level_note": note} for p, level, note in P
    ],
    "not_applicable": [{"property": k, "reason": r} for k, r in REASON.items()],
    "notes": "No hooks in /repo: every seam is at a library boundary (qiskit.execute/Aer, matching library, file system calls, worker pools) or is the circuit itself.",
}
for p, _, _ in P:
    assert len(p["title"]) <= 80, p["title"]
with open("MANIFEST.json", "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
