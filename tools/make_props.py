"""writes properties.jsonl (single source for the property texts)"""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": mechanism}]}
    if state: a["state"] = [{"name": x.strip(), "meaning": "state the property depends on"} for x in state.split(",")]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

T = "qermit/taskgraph/"
p("P01", "A task graph computes the composition it describes",
  "However a task graph is assembled (tasks or whole graphs appended, prepended or placed in parallel, wires added, nested graphs decomposed, graphs copied or reused as children), a run calls every task exactly once, after its producers, with its arguments on the right ports, and returns the outputs in wire order. A run that fails in any task and is retried gives what a fresh graph would, and building on, decomposing or running one graph never changes another. Mismatched arities, and result caching with ambiguous task names, are refused; a cached run lists every task with exactly the outputs it produced. Characterisation data given to a run, and data a task stores, reaches every task that comes after it, newest value first.",
  ["programs", "histories", "crash_points"],
  "all construction programs over append/prepend/parallel/wire/decompose/copy with tasks and nested graphs, interleaved with runs, short or surplus inputs, a task failing at any call, and retries",
  "The tests assemble a handful of fixed graphs and run each once; wiring order depends on the construction history and on state left on the graph by earlier (failed) runs.",
  [T + "task_graph.py", T + "mittask.py"],
  "ports are keys of multigraph edges; run() assigns wires to edges and walks a topological order",
  state="edge data of _task_graph, _cache", observe="TaskGraph.run outputs, recorded task calls, get_cache")
p("P02", "A run leaves no trace: retry after any failure equals a fresh run",
  "For every mitigation workflow, if the device fails at any point of a run the failure reaches the caller instead of a partial or fabricated result, and running the same object again, with the same or different experiments, returns exactly what a newly built object would return. Successful earlier runs do not change later results either (apart from characterisation data the method documents as being measured once). Runs never alter the circuits and observables the caller passed in.",
  ["crash_points", "histories", "fault_sequences"],
  "every mitigation generator, every device interaction (compile, submit, retrieve) as the crash point, repeated failures, then retries with the same and with other experiments on the same object",
  "Each test builds an object, runs it once against a backend that never fails.",
  [T + "task_graph.py", T + "mitex.py", T + "measurement_reduction.py", "qermit/spam/full_transition_tomography.py", "qermit/zero_noise_extrapolation/zne.py", "qermit/clifford_noise_characterisation/ccl.py", "qermit/probabilistic_error_cancellation/pec_learning_based.py", "qermit/frame_randomisation/frame_randomisation.py"],
  "state that outlives a run: edge data, observable trackers, characterisation dictionaries shared between tasks, caller-owned circuits",
  state="TaskGraph edge data, ObservableTracker contents, characterisation", observe="returned results / raised exception; caller's circuits and operators before and after")
p("P03", "Every circuit gets its own complete result, whatever the queue does",
  "A circuit run returns one result per submitted circuit, in submission order, each with exactly the requested number of shots over that circuit's own classical bits, for any device completion order, latency or batching; an empty list gives an empty list. With compilation in front, the submitted circuits are device-ready and produce the same outcome distribution on the same bits as the originals. If the device fails to accept or deliver any job the whole run fails; it never returns fewer, other or misaligned results.",
  ["schedules", "fault_sequences", "inputs"],
  "circuit lists of any size with different bits and shots (including repeated circuits), all queue latencies and completion orders, single and batched failures at every device call",
  "The tests use a local simulator that completes in order, immediately, and never fails.",
  [T + "mitres.py", T + "mitex.py"],
  "submit-handles-then-retrieve tasks over Backend.process_circuits/get_results, compilation task",
  observe="MitRes.run result list vs. the simulated device's job log")
p("P04", "Shot splitting conserves shots and order within the job limit",
  "With a maximum number of shots per job, no submitted job exceeds the limit, the jobs of a circuit add up to exactly the shots requested for it, and the merged results come back one per circuit, in order, containing precisely the shots measured for that circuit. This holds for any mixture of circuits and shot numbers below, at, and above multiples of the limit, and any completion order.",
  ["inputs", "schedules", "fault_sequences"],
  "lists of circuits with arbitrary shots relative to the limit, with and without compilation, all completion orders, failing sub-jobs",
  "The tests try a few shot numbers; the boundary cases and the mapping of split jobs back to circuits depend on the whole list.",
  [T + "mitres.py", T + "mitex.py"], "split task emits jobs and an index wire; merge task regroups by index",
  observe="device job log and merged results")
p("P05", "Each observable's expectation comes from its own experiment",
  "An expectation-value run returns one operator per experiment, in order, mapping every Pauli string of that experiment's observable to its coefficient times the parity estimate of measuring that string on that experiment's circuit with its parameter values and shots; up to statistics this is the true expectation on an ideal device. This holds for any mixture of experiments run together, any completion order, observables with shared or differing strings and any coefficients, and repeated use of the same observable object, including one whose strings or coefficients were changed in between.",
  ["inputs", "schedules", "histories"],
  "lists of experiments with random circuits, symbols, observables (1-5 strings, identity factors, real coefficients), shots, user-supplied pre-measured strings, any queue order, sequential reuse of objects and trackers",
  "The tests check a few fixed circuits and operators, one run per object.",
  [T + "mitex.py", T + "utils.py"], "filter, collate, split and expectation tasks pair circuits with results by position",
  state="ObservableTracker index lists", observe="operators returned by MitEx.run / run_basic vs. exact simulation and device job log")
p("P06", "Measurement reduction changes the cost, not the answer",
  "With measurement reduction, every Pauli string's expectation on an ideal device equals the value obtained without reduction, with at most as many measurement circuits as strings, for every partition strategy, colouring method and entangler configuration. Repeating a run, or retrying after a failed run, with the same observable object gives the same values rather than accumulating measurements.",
  ["inputs", "histories", "crash_points"],
  "random observables and ansatz circuits, all strategies/methods/configurations, device failures at any call followed by retries with the same tracker",
  "The tests run one observable once per object on a device that never fails.",
  [T + "measurement_reduction.py", T + "utils.py"], "reduction task appends circuits and (bits, invert) information to the caller's tracker",
  state="ObservableTracker", observe="operators returned; number of device jobs")
p("P07", "Readout mitigation undoes exactly the readout errors it characterised",
  "When the device flips measured bits independently, or jointly within declared groups of qubits that are read out together, the corrected results reproduce the error-free distribution of every circuit up to statistics, whatever the order and sizes of the groups, whichever subset of qubits (or of groups, where errors are joint) is measured, into whichever bits, and whether or not measurements happen mid-circuit. Characterisation is measured before first use and reused by later runs of the object, or of another object it is handed to; a characterisation interrupted by a failure is not used. The correction is the one the characterisation measured: with the inverse method, the inverse of the measured confusion, probabilities below zero set to zero. Total shots are preserved up to rounding.",
  ["inputs", "fault_sequences", "histories"],
  "random partitions of up to 4 qubits into groups in any order, random (strictly diagonally dominant) confusion matrices, circuits measuring any subset into any bits, both correction methods, failing calibration runs, repeated runs",
  "The tests use a few fixed noise models with groups in one order and never interrupt calibration.",
  ["qermit/spam/spam_mitres.py", "qermit/spam/full_spam_correction.py", "qermit/spam/full_transition_tomography.py"],
  "calibration circuits per group, transition matrices stored in characterisation, reduced, Kronecker-multiplied and inverted per result",
  state="characterisation['FullCorrelatedSpamCorrection']", observe="corrected BackendResult vs. exact distribution")
p("P08", "Postselection and leakage detection drop exactly the flagged shots",
  "Postselected results contain, for every circuit of a batch, exactly the shots whose postselection bits show the required values, restricted to the remaining bits, and nothing else; merge mode keeps all shots and only removes the ancilla bits. Leakage detection discards every shot in which a qubit had leaked at the time it was checked and keeps every other shot, leaving the outcome distribution of unleaked runs unchanged, and never needs more qubits than the device has.",
  ["inputs", "fault_sequences", "schedules"],
  "random batches of circuits with any placement of postselection bits and required values, any completion order, leakage of any subset of qubits at any shot",
  "Leakage never happens on a simulator, and the tests postselect a few hand-written counts.",
  ["qermit/postselection/postselect_manager.py", "qermit/postselection/postselect_mitres.py", "qermit/leakage_detection/leakage_detection.py"],
  "gadget bits are recorded per circuit on a side wire; counts are filtered and re-keyed by bit position",
  observe="BackendResult.get_counts per circuit vs. reference filter over the device's raw shots")
p("P09", "Frame randomisation never changes the ideal outcome",
  "For any draw of twirling frames, the collated result of each circuit of a batch has the same outcome distribution as the original circuit on an ideal device, over the same classical bits, and contains ceil(shots/samples) shots from each of the requested number of frame samples of that circuit, drawn independently, and no other. The circuits and the workflows handed in by the caller are left as they were.",
  ["inputs", "schedules", "fault_sequences"],
  "random batches of circuits and bit layouts, both frame kinds, any number of samples, any frame draw, any completion order, default and user-supplied circuit runners",
  "Frames are drawn from an unseeded generator inside the toolkit; a test sees one draw.",
  ["qermit/frame_randomisation/frame_randomisation.py"], "per-circuit chunks of `samples` jobs, merged positionally",
  observe="collated counts, device job log")
p("P10", "Folding a circuit scales its noise without changing what it computes",
  "For every folding type that folds gates, odd or fractional noise scaling and any random choice of gates to fold, the folded circuit implements the same unitary on the same qubits, reaches the requested scaling within the allowed rounding of its gate count, and survives compilation for the device at the promised scale. Requests that cannot be honoured are refused.",
  ["inputs", "schedules"],
  "random circuits over the supported gates, all folding types, scalings 1..9 incl. fractional, all random gate choices",
  "The choice of gates to fold is random; tests look at a few circuits for one or two seeds.",
  ["qermit/zero_noise_extrapolation/zne.py"], "gate/circuit/odd-gate folding with np.random.choice of gates",
  observe="unitary and gate counts of folded circuits")
p("P11", "Zero-noise extrapolation pairs each value with its noise scale",
  "On a device whose bias on every observable follows the chosen fit family in the circuit's gate count, zero-noise extrapolation returns the noise-free expectation of every Pauli string of every experiment, for any list of noise scalings in any order, any number of experiments run together, any completion order, any qubit placement chosen by the compiler, and any supplied sub-workflows. The measured values at scale s come from that experiment's circuit folded to s.",
  ["inputs", "schedules", "configurations"],
  "random experiments and observables, folding types, fits and scaling lists, compiler placements, completion orders",
  "The tests use one experiment and a fixed small list of scalings on a local simulator.",
  ["qermit/zero_noise_extrapolation/zne.py"], "duplicated experiment wires per scaling, collation and fit tasks keyed by position, qubit relabelling after compilation",
  observe="operators returned by the ZNE workflow vs. exact values; folded circuits seen by the device")
p("P12", "Clifford data regression learns each experiment's own correction",
  "Training circuits differ from the experiment's circuit only in the angles of its non-Clifford rotations, with at most the requested number left non-Clifford, for any random choice. On a device whose bias is affine in the exact value (or follows the chosen model), and with training values that determine the fit, the corrected expectation of every Pauli string of every experiment run together equals the exact one, and the user-supplied simulator, device and experiment workflows are each used for their own role.",
  ["inputs", "schedules", "configurations"],
  "random circuits and observables, several experiments per run, all random training choices, any completion order, supplied or default sub-workflows, polynomial models",
  "Training sets are random and the pairing of noisy and exact values runs through five positional joins that a single-experiment test cannot distinguish.",
  ["qermit/clifford_noise_characterisation/ccl.py", "qermit/clifford_noise_characterisation/cdr_post.py"],
  "state-circuit generation, result batching per experiment, polynomial fits stored in order, corrections applied per string",
  observe="operators returned; training circuits seen by simulated device")
p("P13", "Depolarisation correction divides out the measured contraction",
  "On a device that contracts every Pauli string's expectation by its own positive factor (above the method's threshold), depolarisation-factor correction returns the exact expectation of every string of every experiment run together, for any completion order and any supplied sub-workflows. The contraction is measured with circuits for which the ideal value is known.",
  ["inputs", "schedules"],
  "random circuits and observables, several experiments, per-string contraction factors, completion orders",
  "Tests use one experiment and check a single number.",
  ["qermit/clifford_noise_characterisation/dfsc.py"], "characterisation circuits per experiment and string, collation and correction tasks",
  observe="operators returned vs. exact")
p("P14", "Probabilistic error cancellation learns a valid quasi-probability",
  "The random Clifford training circuits and the Pauli-noise variants of the experiment's circuit keep its structure: only single-qubit computing gates are replaced, by Clifford gates which leave the string an expectation of plus or minus one, and noise variants differ by Paulis at frame gates, for any random draw. The learned quasi-probabilities combine each experiment's own noisy variants, so that on a device with Pauli noise inside the searched set the corrected expectation of every string equals the exact one.",
  ["inputs", "schedules"],
  "random circuits, several experiments per run, all random training choices, completion orders",
  "Training sets are random; the pairing of variants with results is positional.",
  ["qermit/probabilistic_error_cancellation/pec_learning_based.py", "qermit/probabilistic_error_cancellation/cliff_circuit_gen.py"],
  "rebase to computing/frame gates, Clifford replacement, Pauli insertion, least-squares learning, linear recombination",
  observe="operators returned; circuits seen by device")
p("P15", "Spectral filtering evaluates every grid point with its own parameters",
  "Each grid value used by spectral filtering is the expectation of that experiment's circuit at that grid point's own parameter values, every experiment of a run is filtered and interpolated on its own, and with a filter that removes nothing the result at a grid point equals the unfiltered value for every string. Fourier modes below the filter threshold, and only those, are removed.",
  ["inputs", "schedules"],
  "random parametrised circuits and observables, grid sizes, filters, several experiments per run, completion orders",
  "The tests check array shapes and a single experiment.",
  ["qermit/spectral_filtering/spectral_filtering.py", "qermit/spectral_filtering/signal_filter.py"],
  "cartesian parameter grid, flattened experiments, FFT, filter, inverse FFT, interpolation",
  observe="operators returned; circuits seen by device")
p("P16", "Injected Pauli faults propagate exactly as the circuit dictates",
  "For every Clifford circuit, every gate and every Pauli fault after it, the fault reported at the start or end of the circuit acts on the state exactly as the fault itself does, sign included; sampled noisy circuits differ from the original only by errors the noise model allows at those gates, and drawn error frequencies follow the model's rates. Effective noise models computed from a circuit agree with direct simulation of the same faults.",
  ["fault_sequences", "inputs"],
  "random Clifford circuits, every gate as fault location, all Pauli faults, random noise models and error draws",
  "Tests propagate a few faults through small fixed circuits.",
  ["qermit/noise_model/noise_model.py", "qermit/noise_model/qermit_pauli.py", "qermit/noise_model/pauli_error_transpile.py"],
  "stabiliser-style conjugation per gate with phase tracking, rng.choice sampling over rate tables",
  observe="propagated error vs. dense simulation with the fault inserted")
p("P17", "Coherent Pauli checks catch every detectable fault and nothing else",
  "Checked circuits act on the original qubits and bits exactly as the original, and on a fault-free device no shot is discarded, for any sampled checks and any placement. When a Pauli fault hits a checked section, the shot is discarded if and only if the fault anticommutes with a check of that section, and undiscarded shots keep the outcome distribution of the faulted or ideal circuit unchanged. Checks chosen for a noise model leave no more of that noise undetected than another choice of as many checks, within the sampling error of the choice.",
  ["fault_sequences", "inputs", "schedules"],
  "random circuits with Clifford sections, all samplers and check counts, a Pauli fault at every position of the checked sections, batches of circuits",
  "A fault-free test run cannot show a check that never fires; tests insert no faults.",
  ["qermit/coherent_pauli_checks/pauli_sampler.py", "qermit/coherent_pauli_checks/box_clifford_subcircuits.py", "qermit/coherent_pauli_checks/coherent_pauli_checks_mitres.py", "qermit/coherent_pauli_checks/monochromatic_convex_subdag.py"],
  "convex Clifford sections boxed, ancilla-controlled Paulis before and after each, postselection on ancilla bits",
  observe="unitary and simulated outcomes of checked circuits with injected faults")
p("P18", "Randomised-circuit sampling returns exactly the shots asked for",
  "The circuit-randomising backend returns, for every circuit and handle, exactly the requested number of shots, each from its own independently randomised instance of that circuit restricted to the requested bits, for any batch size, number of worker processes, worker completion order and interleaving of submissions. A failing worker makes the call fail instead of losing shots, and backend objects never see each other's results unless given a common store. The mock device backend likewise returns for each handle exactly the requested shots of the circuit that handle was made for.",
  ["schedules", "fault_sequences", "configurations"],
  "random circuits, shots relative to batch sizes, 1-4 workers with any completion order, worker crashes, several backends and interleaved handles",
  "Process-pool completion order and worker failures are not under a test's control.",
  ["qermit/noise_model/transpiler_backend.py", "qermit/noise_model/mock_quantinuum_backend.py"], "batches of single-shot circuits mapped over a multiprocessing pool, counters summed, results kept per handle",
  observe="counts returned; circuits executed by workers")
p("P19", "Independent clients of one device do not disturb each other",
  "Separately built workflows that share a device but nothing else give, when their runs are interleaved arbitrarily in different threads, the same results as when run one after the other. Building a mitigation workflow around a user's existing workflow object leaves that object's behaviour unchanged, and two workflows built from the same object do not affect each other.",
  ["schedules", "programs"],
  "2-3 client threads with different mitigation workflows interleaved at every device interaction; all generators that accept user-supplied workflows, before/after comparison",
  "Tests are single-threaded and never look at the supplied object again.",
  [T + "task_graph.py", T + "measurement_reduction.py", "qermit/frame_randomisation/frame_randomisation.py", "qermit/spam/spam_mitres.py", "qermit/zero_noise_extrapolation/zne.py"],
  "module-level and default-argument state, shallow copies of graphs", state="shared graphs, default arguments, characterisation dictionaries",
  observe="results per client under interleaving vs. alone")
p("P20", "The same seed gives the same experiment",
  "Where a seed or random generator can be given (folding, training-circuit generation, Clifford sampling, check sampling, noise-model sampling), the same seed yields the same circuits, samples and results in any process, regardless of hash ordering, of what ran before and of the system's entropy, and a different seed can yield different ones. What the caller addresses by position (the symbols of a circuit) is in the same order in every process.",
  ["histories", "configurations", "schedules"],
  "all seeded entry points, different interpreter hash seeds, different earlier histories of the process and different simulated entropy sources",
  "A test compares two calls in one process; hidden entropy shows only across processes and histories.",
  ["qermit/zero_noise_extrapolation/zne.py", "qermit/clifford_noise_characterisation/ccl.py", "qermit/probabilistic_error_cancellation/cliff_circuit_gen.py", "qermit/probabilistic_error_cancellation/pec_learning_based.py", "qermit/noise_model/noise_model.py", "qermit/coherent_pauli_checks/pauli_sampler.py"],
  "np.random / random global seeding, generators held by noise models and samplers",
  observe="generated circuits and samples")

p("P21", "Mitigation workflows nest, and leave an ideal device's answers alone",
  "Any mitigation workflow can be handed to any other that accepts one, to any depth, and the combination is run like a single workflow. On a noise-free device the combination returns the exact expectation of every string of every experiment of a batch (circuit workflows: the exact outcome distribution of every circuit, over its own bits), whatever the order of completion, with circuits placed elsewhere, in repeated runs, when one object fills several places, and after a failed run is repeated. Where the device's only errors are readout errors and an inner workflow corrects them, the outer one returns what it would on the device without them.",
  ["programs", "schedules", "fault_sequences"],
  "random trees of all generators but CDR and PEC over each other's slots (up to three levels), random batches, observables, bit layouts, placements, completion orders and device failures, optional readout errors under SPAM",
  "Tests run single workflows; few of the hundreds of combinations users can build are ever run, and none under failures.",
  [T + "task_graph.py", T + "mitex.py", T + "mitres.py", T + "measurement_reduction.py", "qermit/frame_randomisation/frame_randomisation.py", "qermit/spam/spam_mitres.py", "qermit/zero_noise_extrapolation/zne.py", "qermit/clifford_noise_characterisation/dfsc.py", "qermit/leakage_detection/leakage_detection.py", "qermit/postselection/postselect_mitres.py", "qermit/spectral_filtering/spectral_filtering.py"],
  "what one workflow does to circuits, registers, shots and batches and the next one must cope with",
  observe="expectations and distributions returned")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
