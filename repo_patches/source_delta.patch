From d04baf6e975043bf1e9150b85a942eb8ed599b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:35 +0000
Subject: [PATCH 01/42] fix: wire TaskGraph inputs, outputs and decomposed
 nodes by port number

run, prepend and decompose_TaskGraph_nodes paired edges with wires in edge
insertion order. After parallel/add_wire that is not port order, so wires
were crossed (append and the tasks themselves do use the port numbers).
---
 qermit/clifford_noise_characterisation/ccl.py | 12 +++++
 qermit/taskgraph/task_graph.py                | 48 ++++++++++++-------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 259daf9..55f7cd6 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -574,6 +574,18 @@ def gen_CDR_MitEx(
             calibration_fraction=kwargs.get("calibration_fraction", 0.5),
         )
     )
+    # The correction task expects the calibration flag on its first wire
+    _post_task_graph.append(
+        MitTask(
+            _label="CDROrderWires",
+            _n_in_wires=2,
+            _n_out_wires=2,
+            _method=lambda obj, noisy_expectation, calibration_complete: (
+                calibration_complete,
+                noisy_expectation,
+            ),
+        )
+    )
 
     _experiment_taskgraph.prepend(
         ccl_state_task_gen(
diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index ae65a9d..1e28702 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -178,10 +178,8 @@ class TaskGraph:
         # schemes so fine
         task_copy = copy(task)
 
-        for i, edge in enumerate(list(self._task_graph.out_edges(self._i, keys=True))):
-            self._task_graph.add_edge(
-                task_copy, edge[1], key=(i, edge[2][1]), data=None
-            )
+        for edge in list(self._task_graph.out_edges(self._i, keys=True)):
+            self._task_graph.add_edge(task_copy, edge[1], key=edge[2], data=None)
             self._task_graph.remove_edge(edge[0], edge[1])
 
         for port in range(task_copy.n_in_wires):
@@ -228,14 +226,24 @@ class TaskGraph:
                         if hasattr(sub_task, "_label"):
                             sub_task._label = task._label + sub_task._label
 
-                    task_in_edges = list(self._task_graph.in_edges(task, keys=True))
-                    task_out_edges = list(self._task_graph.out_edges(task, keys=True))
+                    # edges are held in insertion order, so sort by port to wire
+                    # the outside of the node to the matching ports inside
+                    task_in_edges = sorted(
+                        self._task_graph.in_edges(task, keys=True),
+                        key=lambda edge: edge[2][1],
+                    )
+                    task_out_edges = sorted(
+                        self._task_graph.out_edges(task, keys=True),
+                        key=lambda edge: edge[2][0],
+                    )
 
-                    task_input_out_edges = list(
-                        task._task_graph.out_edges(task._i, keys=True)
+                    task_input_out_edges = sorted(
+                        task._task_graph.out_edges(task._i, keys=True),
+                        key=lambda edge: edge[2][0],
                     )
-                    task_output_in_edges = list(
-                        task._task_graph.in_edges(task._o, keys=True)
+                    task_output_in_edges = sorted(
+                        task._task_graph.in_edges(task._o, keys=True),
+                        key=lambda edge: edge[2][1],
                     )
 
                     if (
@@ -353,10 +361,13 @@ class TaskGraph:
 
         :return: Data from input edges to output vertex, assigned as wires.
         """
-        for edge, wire in zip(
-            self._task_graph.out_edges(self._i, data=True), input_wires
-        ):
-            edge[2]["data"] = wire
+        # wires are given in port order, which need not be the order edges are held in
+        input_edges = sorted(
+            self._task_graph.out_edges(self._i, data=True, keys=True),
+            key=lambda edge: edge[2][0],
+        )
+        for input_edge, wire in zip(input_edges, input_wires):
+            input_edge[3]["data"] = wire
 
         # topological_sort fixes any dependency issues so can iterate and assume
         # input wires all realised before a task is reached
@@ -399,10 +410,11 @@ class TaskGraph:
             for _, _, ports, o_data in out_edges:
                 o_data["data"] = outputs[ports[0]]
 
-        output_wire = [
-            edge[2]["data"]
-            for edge in list(self._task_graph.in_edges(self._o, data=True))
-        ]
+        output_edges = sorted(
+            self._task_graph.in_edges(self._o, data=True, keys=True),
+            key=lambda edge: edge[2][1],
+        )
+        output_wire = [edge[3]["data"] for edge in output_edges]
         return cast(Tuple[List[Wire]], tuple(output_wire))
 
     def get_cache(self) -> OrderedDict[str, Tuple[MitTask, List[Wire]]]:
-- 
2.43.0


From 0153d53577e05c188de0e12521e3596fff35f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:02 +0000
Subject: [PATCH 02/42] fix: do not feed data left by an earlier TaskGraph run
 to the next one

Edge data survived a run, so a run given fewer wires than the graph has
inputs silently used the wires of an earlier call.
---
 qermit/taskgraph/task_graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 1e28702..be12d66 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -361,6 +361,10 @@ class TaskGraph:
 
         :return: Data from input edges to output vertex, assigned as wires.
         """
+        # data left on edges by an earlier run, complete or not, is not an input to this one
+        for _, _, edge_data in self._task_graph.edges(data=True):
+            edge_data["data"] = None
+
         # wires are given in port order, which need not be the order edges are held in
         input_edges = sorted(
             self._task_graph.out_edges(self._i, data=True, keys=True),
-- 
2.43.0


From 0723beae1a89a30958cb3ed2e58dc0bdb5125bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:40 +0000
Subject: [PATCH 03/42] fix: copies of a TaskGraph own their graph

copy(TaskGraph) shared the graph with the original. append, prepend and
parallel copy the graph they are given, so decomposing one graph emptied
every other graph the same child was added to, and building a mitigation
method around a user's MitRes or MitEx added tasks to the user's object.
---
 qermit/taskgraph/task_graph.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index be12d66..bb43ca8 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -57,6 +57,16 @@ class TaskGraph:
         # if requested, all data is held in cache and can be accessed after running
         self._cache: OrderedDict[str, Tuple[MitTask, List[Wire]]] = OrderedDict()
 
+    def __copy__(self) -> "TaskGraph":
+        """
+        Copies own their graph, so adding tasks to, or decomposing, a copy
+        leaves the TaskGraph it was copied from as it was.
+        """
+        new_task_graph = self.__class__.__new__(self.__class__)
+        new_task_graph.__dict__.update(self.__dict__)
+        new_task_graph._task_graph = deepcopy(self._task_graph)
+        return new_task_graph
+
     def from_TaskGraph(self, task_graph: "TaskGraph"):
         """
         Returns a new TaskGraph object from another TaskGraph object.
-- 
2.43.0


From c1832c213a6fad485e0f566977f7fa006024ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:40 +0000
Subject: [PATCH 04/42] fix: shot splitting keeps circuits that ask for exactly
 the job limit, and empty lists

---
 qermit/taskgraph/mitres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index 74c473c..cd8597d 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -344,7 +344,7 @@ def split_shots_task_gen(max_shots: int) -> MitTask:
         for i, circ_shots in enumerate(circuit_wires):
             div_val = circ_shots.Shots // max_shots
             # Divide into jobs of size max_shots
-            if circ_shots.Shots > max_shots:
+            if circ_shots.Shots >= max_shots:
                 split_circuit_wires.extend(
                     [
                         CircuitShots(circ_shots.Circuit, max_shots)
@@ -397,7 +397,7 @@ def group_shots_task_gen() -> MitTask:
         # to the circuit of the same index.
         grouped_results = [
             [result for result, i in zip(results_wires, split_index) if i == j]
-            for j in range(split_index[-1] + 1)
+            for j in range(max(split_index, default=-1) + 1)
         ]
 
         # For each circuit, combine the results.
-- 
2.43.0


From c50e16ece9f98bf131b5e967a1fef21c8ea7db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 05/42] fix: runs measure with their own copy of the caller's
 observable tracker

---
 qermit/taskgraph/measurement_reduction.py | 12 +++++++-----
 qermit/taskgraph/mitex.py                 |  6 +++++-
 qermit/taskgraph/utils.py                 | 19 ++++++++++++-------
 3 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/qermit/taskgraph/measurement_reduction.py b/qermit/taskgraph/measurement_reduction.py
index b9e3e11..187af96 100644
--- a/qermit/taskgraph/measurement_reduction.py
+++ b/qermit/taskgraph/measurement_reduction.py
@@ -28,7 +28,7 @@ from pytket.transform import CXConfigType
 
 from .mitex import MitEx
 from .mittask import MitTask, ObservableExperiment
-from .utils import MeasurementCircuit
+from .utils import MeasurementCircuit, ObservableTracker
 
 
 def measurement_reduction_task_gen(
@@ -57,12 +57,14 @@ def measurement_reduction_task_gen(
             circ = measurement_wire[0][0]
             # symbols dict object
             symbols = measurement_wire[0][2]
-            # ObservableTracker object for given experiment
-            tracker = measurement_wire[1]
+            # ObservableTracker object for given experiment. Measurement circuits
+            # belong to this run only, so they are not added to the tracker of the caller
+            tracker = ObservableTracker.from_ObservableTracker(measurement_wire[1])
             # use measurement reduction method to get MeasurementSetup object
-            # with reduced number of measurement circuits
+            # with reduced number of measurement circuits, for all strings which
+            # are not measured already
             new_setup = measurement_reduction(
-                list(tracker._qubit_pauli_operator._dict.keys()),
+                tracker.get_empty_strings(),
                 strat=strategy,
                 method=method,
                 cx_config=cx_config,
diff --git a/qermit/taskgraph/mitex.py b/qermit/taskgraph/mitex.py
index 4871040..5eba8b1 100644
--- a/qermit/taskgraph/mitex.py
+++ b/qermit/taskgraph/mitex.py
@@ -132,7 +132,11 @@ def filter_observable_tracker_task_gen() -> MitTask:
             circuit = ansatz_circuit[0]
             shots = ansatz_circuit[1]
             symbols = ansatz_circuit[2]
-            observable_tracker = measurement_wire[1]
+            # measurement circuits belong to this run only, so they are not added to
+            # the tracker of the caller
+            observable_tracker = ObservableTracker.from_ObservableTracker(
+                measurement_wire[1]
+            )
 
             non_existant_qubits = (
                 observable_tracker.qubit_pauli_operator.all_qubits.difference(
diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index 8c88520..f8883df 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -222,7 +222,7 @@ class ObservableTracker:
     QubitPauliString in a given QubitPauliOperator.
     """
 
-    def __init__(self, qubit_pauli_operator: QubitPauliOperator = QubitPauliOperator()):
+    def __init__(self, qubit_pauli_operator: Optional[QubitPauliOperator] = None):
         """
         Default constructor, creates an empty dict object for mapping QubitPauliStrings to measurement circuits
         and the qubits measured to get expectation, along with an empty list for storing measurement circuits and
@@ -231,6 +231,8 @@ class ObservableTracker:
         :param qubit_pauli_operator: QubitPauliOperator for which given ObservableTracker is expected
             to retain measurement circuits all QubitPauliString keys for before any Backend execution.
         """
+        if qubit_pauli_operator is None:
+            qubit_pauli_operator = QubitPauliOperator()
         self._qubit_pauli_operator = qubit_pauli_operator
         # indices being index in measurement circuits
         self._qps_to_indices: Dict[
@@ -249,14 +251,17 @@ class ObservableTracker:
 
         :return: New ObservableTracker object
         """
-        # these variables could be mutated in the first ObservableTracker and effect
-        # this one
-        # To fix, copy everything
-        new_obj = ObservableTracker(copy(to_copy._qubit_pauli_operator))
+        # containers are copied, so that mutating one ObservableTracker does not
+        # affect the other
+        new_obj = ObservableTracker(
+            QubitPauliOperator(to_copy._qubit_pauli_operator._dict)
+        )
 
-        new_obj._qps_to_indices = copy(to_copy._qps_to_indices)
+        new_obj._qps_to_indices = {
+            qps: copy(indices) for qps, indices in to_copy._qps_to_indices.items()
+        }
         new_obj._measurement_circuits = copy(to_copy._measurement_circuits)
-        new_obj._partitions = copy(to_copy._partitions)
+        new_obj._partitions = [copy(partition) for partition in to_copy._partitions]
         return new_obj
 
     def __str__(self):
-- 
2.43.0


From 5ee41800fa550724affcf77a08477a371074db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 06/42] fix: SPAM correction reads bits in the order of the
 characterisation matrices

---
 qermit/spam/full_transition_tomography.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/qermit/spam/full_transition_tomography.py b/qermit/spam/full_transition_tomography.py
index 0f14950..2e8ca96 100644
--- a/qermit/spam/full_transition_tomography.py
+++ b/qermit/spam/full_transition_tomography.py
@@ -502,16 +502,20 @@ def correct_transition_noise(
 
     final_measures_qb_map = bit_qb_info[0]
     mid_circuit_measures_bq_map = bit_qb_info[1]
-    # get counts from with order of bits that matches order of qubits in subsets
+    # get counts from with order of bits that matches order of qubits in matrices
     # if qubit in subset has no bit, skip it
     char_bits_order = []
     unused_final_qbs = []
-    for subset in noise_characterisation.CorrelatedNodes:
-        for q in subset:
-            if q in final_measures_qb_map:
-                char_bits_order.append(final_measures_qb_map[q])
-            else:
-                unused_final_qbs.append(q)
+    # characterisation matrices are not necessarily in the order in which
+    # CorrelatedNodes were given, so positions are taken from NodeToIntDict
+    for q in sorted(
+        noise_characterisation.NodeToIntDict,
+        key=lambda q: noise_characterisation.NodeToIntDict[q],
+    ):
+        if q in final_measures_qb_map:
+            char_bits_order.append(final_measures_qb_map[q])
+        else:
+            unused_final_qbs.append(q)
 
     mid_measure_qbs = []
     for bit in mid_circuit_measures_bq_map:
-- 
2.43.0


From f56540ef2bc8558581c65618dda838ed0afbfff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 07/42] fix: leakage detection keeps classical bits which are
 never written to

---
 qermit/leakage_detection/leakage_detection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qermit/leakage_detection/leakage_detection.py b/qermit/leakage_detection/leakage_detection.py
index cc3b8d0..cd2796a 100644
--- a/qermit/leakage_detection/leakage_detection.py
+++ b/qermit/leakage_detection/leakage_detection.py
@@ -47,6 +47,15 @@ def gen_add_leakage_gadget_circuit_task(backend: Backend) -> MitTask:
             for circuit_shots in circuit_shots_list
         ]
 
+        # Adding the gadget removes the bits of the original circuit which
+        # are never written to. Restore them so that results include them.
+        for orig_circuit, detection_circuit in zip(
+            circuit_shots_list, detection_circuit_shots_list
+        ):
+            for bit in orig_circuit.Circuit.bits:
+                if bit not in detection_circuit.Circuit.bits:
+                    detection_circuit.Circuit.add_bit(bit)
+
         # For each circuit create a postselection manager. These may be
         # different for each circuit, if for example the circuits are of
         # different sizes.
-- 
2.43.0


From 75090c43bc37b88a22746c59b36e727f7b9f0ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 08/42] fix: shot splitting merges shots under the bits they
 were read with

---
 qermit/taskgraph/mitres.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/qermit/taskgraph/mitres.py b/qermit/taskgraph/mitres.py
index cd8597d..0133d36 100644
--- a/qermit/taskgraph/mitres.py
+++ b/qermit/taskgraph/mitres.py
@@ -402,14 +402,13 @@ def group_shots_task_gen() -> MitTask:
 
         # For each circuit, combine the results.
         for chunk in grouped_results:
-            # Concatenate shots from all results
-            combined_shots = np.concatenate([result.get_shots() for result in chunk])
-            outcome_array = OutcomeArray.from_readouts(combined_shots)
-            merged_results.append(
-                BackendResult(
-                    shots=outcome_array, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
-                )
+            # Concatenate shots from all results, with the same order of bits for each
+            c_bits = sorted(cast(Sequence[Bit], chunk[0].c_bits))
+            combined_shots = np.concatenate(
+                [result.get_shots(cbits=c_bits) for result in chunk]
             )
+            outcome_array = OutcomeArray.from_readouts(combined_shots)
+            merged_results.append(BackendResult(shots=outcome_array, c_bits=c_bits))
 
         return (merged_results,)
 
-- 
2.43.0


From 6913428004370078ea5af202d0e569a957565a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:12 +0000
Subject: [PATCH 09/42] fix: frame randomisation collates counts under the bits
 they were read with

---
 qermit/frame_randomisation/frame_randomisation.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 6a2f01e..1435533 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -135,18 +135,16 @@ def frame_randomisation_result_task_gen(samples: int) -> MitTask:
         ]
         results = []
         for chunk in chunked_results:
-            all_counts = [result.get_counts() for result in chunk]
+            # counts are added up with the same order of bits for each result
+            c_bits = sorted(cast(Sequence[Bit], chunk[0].c_bits))
+            all_counts = [result.get_counts(cbits=c_bits) for result in chunk]
             combined_counts = reduce(operator.add, all_counts)
             outcome_array = {
                 OutcomeArray.from_readouts([key]): val
                 for key, val in combined_counts.items()
             }
             outcome_counts = Counter(outcome_array)
-            results.append(
-                BackendResult(
-                    counts=outcome_counts, c_bits=cast(Sequence[Bit], chunk[0].c_bits)
-                )
-            )
+            results.append(BackendResult(counts=outcome_counts, c_bits=c_bits))
         return (results,)
 
     return MitTask(
-- 
2.43.0


From edf4cf1db3fca35adcfa4756a10708790f2d7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:51 +0000
Subject: [PATCH 10/42] fix: frame randomisation leaves the caller's circuits
 as they were

---
 qermit/frame_randomisation/frame_randomisation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qermit/frame_randomisation/frame_randomisation.py b/qermit/frame_randomisation/frame_randomisation.py
index 1435533..1e9b6f9 100644
--- a/qermit/frame_randomisation/frame_randomisation.py
+++ b/qermit/frame_randomisation/frame_randomisation.py
@@ -174,8 +174,13 @@ def gen_Frame_Randomisation_MitRes(backend: Backend, samples: int, **kwargs) ->
             "frame_randomisation", FrameRandomisation.UniversalFrameRandomisation
         )
     )
+
+    def fr_of_copy(circuit: Circuit, shots: int, samples: int) -> List[CircuitShots]:
+        # frames are added to rebased circuits, and rebasing acts in place
+        return _fr_type(circuit.copy(), shots, samples)
+
     _mitres.prepend(backend_compile_circuit_shots_task_gen(backend))
-    _mitres.prepend(frame_randomisation_circuits_task_gen(samples, _fr_type))
+    _mitres.prepend(frame_randomisation_circuits_task_gen(samples, fr_of_copy))  # type: ignore
     _mitres.append(
         frame_randomisation_result_task_gen(samples),
     )
-- 
2.43.0


From 7ae3af1500e911d343fbd0cc5e423a38d07d800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 11/42] fix: folding reaches noise scalings of the form (#gates
 + 2i)/#gates

---
 qermit/zero_noise_extrapolation/zne.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index c075b35..718b010 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -140,11 +140,8 @@ class Folding(Enum):
 
         _allow_approx_fold = kwargs.get("_allow_approx_fold", True)
 
-        # All gates will be folded by an amount equal to the even number
-        # less than noise_scaling-1. By doing so the noise is scaled by the
-        # odd integer less than noise_scaling.
         num_folds_dict = {
-            i: (int(noise_scaling - 1) // 2)
+            i: 0
             for i, cmd in enumerate(circ.get_commands())
             if (
                 not (cmd.op.type == OpType.Barrier)
@@ -160,14 +157,21 @@ class Folding(Enum):
                 "Barrier and CircBox."
             )
 
+        # The total number of folds. Rounding ensures that noise scalings of the
+        # form (#gates + 2i)/#gates are not lost to floating point errors.
+        total_num_folds = int(round(len(num_folds_dict) * (noise_scaling - 1) / 2, 6))
+
+        # All gates will be folded by an amount equal to the even number
+        # less than noise_scaling-1. By doing so the noise is scaled by the
+        # odd integer less than noise_scaling.
+        for i in num_folds_dict:
+            num_folds_dict[i] = total_num_folds // len(num_folds_dict)
+
         # The remaining noise scaling is achieved by randomly selecting gates
-        # to scale. fold_frac gives the fraction of gates which need to be
-        # folded to achieve noise_scaling. The appropriate fraction of
-        # gates is then randomly selected.
-        fold_frac = ((noise_scaling - 1) % 2) / 2
+        # to scale.
         to_fold = np.random.choice(
             list(num_folds_dict.keys()),
-            size=int(len(num_folds_dict.keys()) * fold_frac),
+            size=total_num_folds % len(num_folds_dict),
             replace=False,
         )
         for i in to_fold:
@@ -248,7 +252,9 @@ class Folding(Enum):
         # Calculate the number of gates that need to be folded. Note that only
         # non barrier commands should be folded so only these are counted.
         num_additional_commands = (noise_scaling - 1) * num_non_barrier_commands
-        num_folded_commands = int(num_additional_commands // 2)
+        # Rounding ensures that noise scalings of the form (#gates + 2i)/#gates
+        # are not lost to floating point errors.
+        num_folded_commands = int(round(num_additional_commands / 2, 6))
 
         true_noise_scaling = 1 + ((num_folded_commands * 2) / num_non_barrier_commands)
         # This check isolates the case where the noise folding that can be achieved is different
-- 
2.43.0


From 526289758e86bee213e608ab2973837106223a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:19 +0000
Subject: [PATCH 12/42] fix: folding keeps the permutation of wires left by
 compilation

---
 qermit/zero_noise_extrapolation/zne.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 718b010..d3a993c 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -51,6 +51,18 @@ box_types = {
 }
 
 
+def explicit_wire_swaps(circ: Circuit) -> Circuit:
+    """Folding acts on the commands of a circuit, which do not include the
+    permutation of wires that may be left by compilation.
+
+    :param circ: Original circuit.
+    :return: Copy of circuit with the permutation of wires written as gates.
+    """
+    explicit_circ = circ.copy()
+    explicit_circ.replace_implicit_wire_swaps()
+    return explicit_circ
+
+
 class Folding(Enum):
     """Folding techniques used to increase the noise levels.
 
@@ -78,6 +90,7 @@ class Folding(Enum):
                 "When performing circuit folding, the noise scaling must be an odd integer."
             )
 
+        circ = explicit_wire_swaps(circ)
         folded_circ = circ.copy()
         for _ in range(noise_scaling // 2):
             # Add barrier between circuit and its inverse
@@ -140,6 +153,7 @@ class Folding(Enum):
 
         _allow_approx_fold = kwargs.get("_allow_approx_fold", True)
 
+        circ = explicit_wire_swaps(circ)
         num_folds_dict = {
             i: 0
             for i, cmd in enumerate(circ.get_commands())
@@ -238,7 +252,7 @@ class Folding(Enum):
 
         _allow_approx_fold = kwargs.get("_allow_approx_fold", 0)
 
-        c_dict = circ.to_dict()
+        c_dict = explicit_wire_swaps(circ).to_dict()
         num_commands = len(c_dict["commands"])
 
         # Count and locate the number of commands that are not barriers
@@ -337,7 +351,7 @@ class Folding(Enum):
         :return: Folded circuit implementing identical unitary to the initial circuit.
         """
 
-        c_dict = circ.to_dict()
+        c_dict = explicit_wire_swaps(circ).to_dict()
 
         fold = True
         folded_command_list = []
-- 
2.43.0


From 4c15f7124803e09f259b2f22a87c8df3242edbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 13/42] fix: gate folding accepts circuits without gates

---
 qermit/zero_noise_extrapolation/zne.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index d3a993c..5f1b85d 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -263,6 +263,10 @@ class Folding(Enum):
         ]
         num_non_barrier_commands = len(c_dict_commands_non_barrier)
 
+        # Compilation may leave no gates, in which case there is no noise to scale.
+        if num_non_barrier_commands == 0:
+            return [circ.copy()]
+
         # Calculate the number of gates that need to be folded. Note that only
         # non barrier commands should be folded so only these are counted.
         num_additional_commands = (noise_scaling - 1) * num_non_barrier_commands
-- 
2.43.0


From c296e75ce0f319d5eb33dc96732a7c15db673da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 14/42] fix: CDR training circuits keep the qubits and wire
 permutation of the experiment

---
 qermit/clifford_noise_characterisation/ccl.py | 54 ++++++++++++++++---
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index 55f7cd6..c30cf8c 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -23,7 +23,8 @@ import numpy as np
 from pytket import Circuit, OpType
 from pytket.backends import Backend
 from pytket.passes import AutoRebase, DecomposeBoxes
-from pytket.unit_id import UnitID
+from pytket.pauli import QubitPauliString
+from pytket.unit_id import Qubit, UnitID
 from pytket.utils import QubitPauliOperator, get_operator_expectation_value
 
 from qermit import (
@@ -95,6 +96,46 @@ def sample_weighted_clifford_angle(rz_angle: float, **kwargs) -> float:
     return 0.5 * random.choices(range(4), weights)[0]
 
 
+def _empty_circuit(c: Circuit) -> Circuit:
+    """
+    :param c: Any circuit.
+
+    :return: Circuit with the qubits and bits of c, and no gates.
+    """
+    empty_circuit = Circuit()
+    for qubit in c.qubits:
+        empty_circuit.add_qubit(qubit)
+    for bit in c.bits:
+        empty_circuit.add_bit(bit)
+    return empty_circuit
+
+
+def _exact_expectation(
+    c: Circuit, operator: QubitPauliOperator, backend: Backend
+) -> complex:
+    """
+    Exact expectation value of operator for any qubit names. Simulators
+    require circuits over the default register.
+
+    :param c: Circuit preparing the state.
+    :param operator: Operator over the qubits of the circuit.
+    :param backend: Simulator used.
+
+    :return: Expectation of operator.
+    """
+    flat_c = c.copy()
+    qubit_map = flat_c.flatten_registers()
+    flat_operator = QubitPauliOperator(
+        {
+            QubitPauliString(
+                {cast(Qubit, qubit_map[q]): pauli for q, pauli in qps.map.items()}
+            ): coefficient
+            for qps, coefficient in operator._dict.items()
+        }
+    )
+    return get_operator_expectation_value(flat_c, flat_operator, backend)
+
+
 def gen_state_circuits(
     c: Circuit, n_non_cliffords: int, n_pairs: int, total_state_circuits: int, **kwargs
 ) -> List[Circuit]:
@@ -133,9 +174,10 @@ def gen_state_circuits(
         np.random.seed(kwargs.get("seed"))
 
     # Work in CX, H, Rz basis for ease
+    c = c.copy()
+    c.replace_implicit_wire_swaps()
     DecomposeBoxes().apply(c)
     ufr_rebase.apply(c)
-    c.flatten_registers()
     all_coms = c.get_commands()
 
     #  angles that make Clifford gates for S^n
@@ -162,7 +204,7 @@ def gen_state_circuits(
         # make special case where its not possible to swap pairs
         # produce state circuits until limit reached
         while len(state_circuits) < total_state_circuits:
-            new_circuit = Circuit(c.n_qubits, len(c.bits))
+            new_circuit = _empty_circuit(c)
             for i in range(len(all_coms)):
                 com = all_coms[i]
                 if com.op.type == OpType.Rz:
@@ -214,7 +256,7 @@ def gen_state_circuits(
         non_clifford_pair_elements = random.sample(list(non_cliffords), n_pairs)
 
         # create new Circuit from scratch
-        new_circuit = Circuit(c.n_qubits, len(c.bits))
+        new_circuit = _empty_circuit(c)
         for i in range(len(all_coms)):
             com = all_coms[i]
             if com.op.type == OpType.Rz:
@@ -342,9 +384,7 @@ def ccl_state_task_gen(
                 )
 
                 pauli_expectation_list = [
-                    get_operator_expectation_value(
-                        c, qubit_pauli_operator, simulator_backend
-                    )
+                    _exact_expectation(c, qubit_pauli_operator, simulator_backend)
                     for c in state_circuits
                 ]
                 all_close = all(
-- 
2.43.0


From c91497e307f1c90429785694907e56bad6e05282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 15/42] fix: CDR uses the states_simulator_mitex it is given

---
 qermit/clifford_noise_characterisation/ccl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index c30cf8c..a7b5caa 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -558,7 +558,7 @@ def gen_CDR_MitEx(
     """
     _states_sim_mitex = copy(
         kwargs.get(
-            "states_simluator_mitex",
+            "states_simulator_mitex",
             MitEx(
                 simulator_backend,
                 _label="StatesSimMitEx",
-- 
2.43.0


From d7746bd3c841f8eff75ea9ea2267ad7d982394ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 16/42] fix: CDR training circuits keep Clifford rotations next
 to a single non-Clifford one

---
 qermit/clifford_noise_characterisation/ccl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index a7b5caa..bdb9d01 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -214,7 +214,12 @@ def gen_state_circuits(
                         raise Exception(
                             "Circuit cannot include parameters which are not floats."
                         )
-                    angle = sample_weighted_clifford_angle(original_angle)
+                    # Clifford rotations are kept
+                    angle = (
+                        sample_weighted_clifford_angle(original_angle)
+                        if i in rz_ops
+                        else original_angle
+                    )
                     new_circuit.add_gate(
                         com.op.type, [angle], cast(List[UnitID], com.qubits)
                     )
-- 
2.43.0


From 51ff93ea927d059e49cef3c7170e59dee486638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:05 +0000
Subject: [PATCH 17/42] fix: CDR training circuits permute wires as the
 experiment does, without additional gates

---
 qermit/clifford_noise_characterisation/ccl.py | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/ccl.py b/qermit/clifford_noise_characterisation/ccl.py
index bdb9d01..6192048 100644
--- a/qermit/clifford_noise_characterisation/ccl.py
+++ b/qermit/clifford_noise_characterisation/ccl.py
@@ -17,7 +17,7 @@ import random
 import warnings
 from copy import copy
 from enum import Enum
-from typing import List, Tuple, cast
+from typing import Dict, List, Tuple, cast
 
 import numpy as np
 from pytket import Circuit, OpType
@@ -110,6 +110,24 @@ def _empty_circuit(c: Circuit) -> Circuit:
     return empty_circuit
 
 
+def _permute_wires(c: Circuit, permutation: Dict[Qubit, Qubit]) -> None:
+    """
+    Commands of a circuit do not include the permutation of wires that may be
+    left by compilation.
+
+    :param c: Circuit without SWAP gates or permutation of wires, modified in place.
+    :param permutation: Implicit permutation of wires c is given.
+    """
+    location = {qubit: qubit for qubit in permutation}
+    for origin, target in permutation.items():
+        current = location[origin]
+        if current != target:
+            c.SWAP(current, target)
+            displaced = next(q for q in location if location[q] == target)
+            location[origin], location[displaced] = target, current
+    c.replace_SWAPs()
+
+
 def _exact_expectation(
     c: Circuit, operator: QubitPauliOperator, backend: Backend
 ) -> complex:
@@ -175,7 +193,6 @@ def gen_state_circuits(
 
     # Work in CX, H, Rz basis for ease
     c = c.copy()
-    c.replace_implicit_wire_swaps()
     DecomposeBoxes().apply(c)
     ufr_rebase.apply(c)
     all_coms = c.get_commands()
@@ -235,6 +252,7 @@ def gen_state_circuits(
                     new_circuit.add_gate(com.op.type, cast(List[UnitID], com.qubits))
 
             # all circuits accepted and run, some results later discarded if not accepted by Metropolis-Hastings rule
+            _permute_wires(new_circuit, c.implicit_qubit_permutation())
             state_circuits.append(new_circuit)
         return state_circuits
 
@@ -317,6 +335,7 @@ def gen_state_circuits(
                 new_circuit.add_gate(com.op.type, cast(List[UnitID], com.qubits))
 
         # all circuits accepted and run, some results later discarded if not accepted by Metropolis-Hastings rule
+        _permute_wires(new_circuit, c.implicit_qubit_permutation())
         state_circuits.append(new_circuit)
 
     return state_circuits
-- 
2.43.0


From 0f531cfc97bec57e01aa65108368b46f998f0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:54 +0000
Subject: [PATCH 18/42] fix: depolarisation correction covers strings
 characterised with a -1 eigenstate

---
 qermit/clifford_noise_characterisation/dfsc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index 9a945ef..9472c52 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -291,7 +291,8 @@ def DFSC_correction_task_gen(zero_threshold: float) -> MitTask:
         ):
             new_qpo = dict()
             for key in experiment_qpo._dict:
-                val = characterisation_qpo._dict[key]
+                # state preparation may give either eigenstate of the string
+                val = abs(characterisation_qpo._dict[key])
                 if val > zero_threshold:
                     new_qpo[key] = experiment_qpo._dict[key] / val
                 else:
-- 
2.43.0


From dd0fbaaec748f5a7d14d1977e404c3d34fb67692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:05 +0000
Subject: [PATCH 19/42] fix: depolarisation correction characterises circuits
 with permuted wires

---
 qermit/clifford_noise_characterisation/dfsc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index 9472c52..6721482 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -74,7 +74,16 @@ def preparation_circuit_for_partition(
     # +1 eigenstate to circuit
     # use RemoveRedundancies after to minimise gates required in cosntruction
     Transform.RebaseToCliffordSingles().apply(clifford_circuit)
+    # Basis change does not include the permutation of wires that may be left
+    # by compilation
+    wires = {
+        output: wire
+        for wire, output in clifford_circuit.implicit_qubit_permutation().items()
+    }
     for string in partition:
+        string = QubitPauliString(
+            {wires.get(q, q): pauli for q, pauli in string.map.items()}
+        )
         transformed_string = apply_clifford_basis_change(string, clifford_circuit)
         transformed_dict = transformed_string.map
         for qubit in transformed_dict:
-- 
2.43.0


From 85050581441d9c26eaf06b5ba0d8483e8cfb1f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:08 +0000
Subject: [PATCH 20/42] fix: PEC training circuits act on the qubits of the
 experiment

---
 .../pec_learning_based.py                                | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 845ed87..60f416c 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -136,16 +136,19 @@ def random_commuting_clifford(
 
         new_qps = QubitPauliString(cast(List[Qubit], new_qps_qbs), qps_paulis)
 
-        place_with_map(rand_cliff_circ, n_q_map)
+        # The expectation is found from a relabelled copy. The training circuit
+        # acts on the qubits of the initial circuit.
+        placed_circ = rand_cliff_circ.copy()
+        place_with_map(placed_circ, n_q_map)
 
         # Check if state is supported, otherwise use shots, otherwise raise error
         if simulator_backend.supports_state:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend
+                placed_circ, new_qps, simulator_backend
             )
         elif simulator_backend.supports_shots or simulator_backend.supports_counts:
             expect_val = get_pauli_expectation_value(
-                rand_cliff_circ, new_qps, simulator_backend, n_shots=n_shots
+                placed_circ, new_qps, simulator_backend, n_shots=n_shots
             )
         else:
             raise RuntimeError(
-- 
2.43.0


From 3c3a0041dce31f359f265eeff88d27e5290594a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 21/42] fix: Pauli error pass accepts circuits without
 contiguous registers

---
 qermit/noise_model/pauli_error_transpile.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qermit/noise_model/pauli_error_transpile.py b/qermit/noise_model/pauli_error_transpile.py
index 2c39844..dbb2d5c 100644
--- a/qermit/noise_model/pauli_error_transpile.py
+++ b/qermit/noise_model/pauli_error_transpile.py
@@ -23,12 +23,13 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
         :return: Circuit with additional noise operations.
         """
 
-        # Initialise circuit with the same registers as input.
+        # Initialise circuit with the same qubits and bits as input. Note that
+        # these need not form contiguous registers.
         noisy_circuit = Circuit()
-        for q_register in circuit.q_registers:
-            noisy_circuit.add_q_register(q_register)
-        for c_register in circuit.c_registers:
-            noisy_circuit.add_c_register(c_register)
+        for input_qubit in circuit.qubits:
+            noisy_circuit.add_qubit(input_qubit)
+        for input_bit in circuit.bits:
+            noisy_circuit.add_bit(input_bit)
 
         # Add each command in the original circuit,
         # and a pauli error if appropriate.
-- 
2.43.0


From 9366734ed5adb2b861aaf12082d1c2eddffd0714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:33 +0000
Subject: [PATCH 22/42] fix: Pauli error pass keeps permuted wires

---
 qermit/noise_model/pauli_error_transpile.py | 27 +++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/qermit/noise_model/pauli_error_transpile.py b/qermit/noise_model/pauli_error_transpile.py
index dbb2d5c..c811986 100644
--- a/qermit/noise_model/pauli_error_transpile.py
+++ b/qermit/noise_model/pauli_error_transpile.py
@@ -7,6 +7,30 @@ from pytket.pauli import Pauli
 from .noise_model import NoiseModel
 
 
+def _wire_permutation(circuit: Circuit) -> Circuit:
+    """Commands of a circuit do not include the permutation of wires that may
+    be left by compilation.
+
+    :param circuit: Circuit from which the permutation is taken.
+    :return: Circuit without gates which permutes wires as the given circuit.
+    """
+
+    permutation = Circuit()
+    for qubit in circuit.qubits:
+        permutation.add_qubit(qubit)
+
+    location = {qubit: qubit for qubit in circuit.qubits}
+    for origin, target in circuit.implicit_qubit_permutation().items():
+        current = location[origin]
+        if current != target:
+            permutation.SWAP(current, target)
+            displaced = next(q for q in location if location[q] == target)
+            location[origin], location[displaced] = target, current
+    permutation.replace_SWAPs()
+
+    return permutation
+
+
 def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
     """Generates compiler pass which adds coherent noise to a circuit.
 
@@ -58,6 +82,9 @@ def PauliErrorTranspile(noise_model: NoiseModel) -> BasePass:
                                 "Not a Pauli noise model." + f" Contains {pauli} error"
                             )
 
+        noisy_circuit.append(_wire_permutation(circuit))
+        noisy_circuit.add_phase(circuit.phase)
+
         return noisy_circuit
 
     return CustomPass(add_gates)
-- 
2.43.0


From 9c62e110274f01518fdb8bcda444d3d7eabb97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 23/42] fix: propagated Pauli faults follow permuted wires

---
 qermit/noise_model/noise_model.py  |  4 ++++
 qermit/noise_model/qermit_pauli.py | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 943d14b..59fac5d 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -718,4 +718,8 @@ class NoiseModel:
                     qubits=cast(List[Qubit], command.args),
                 )
 
+        # Commands do not include the permutation of wires left by compilation.
+        if direction == Direction.forward:
+            pauli_error.permute_qubits(cliff_circ.implicit_qubit_permutation())
+
         return pauli_error
diff --git a/qermit/noise_model/qermit_pauli.py b/qermit/noise_model/qermit_pauli.py
index 2b16823..affe050 100644
--- a/qermit/noise_model/qermit_pauli.py
+++ b/qermit/noise_model/qermit_pauli.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import List
+from typing import Dict, List
 
 from pytket.circuit import Circuit, Op, OpType, Qubit
 from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor, pauli_string_mult
@@ -130,6 +130,22 @@ class QermitPauli:
                 qubits=command.qubits,
             )
 
+        self.permute_qubits(circuit.implicit_qubit_permutation())
+
+    def permute_qubits(self, permutation: Dict[Qubit, Qubit]) -> None:
+        """Commute the Pauli through a permutation of wires, as may be left
+        by compilation of a circuit.
+
+        :param permutation: Map from qubits to the qubits they become.
+        """
+        self.index_qubit = {
+            index: permutation.get(qubit, qubit)
+            for index, qubit in self.index_qubit.items()
+        }
+        self.qubit_index = {
+            qubit: index for index, qubit in self.index_qubit.items()
+        }
+
     def apply_gate(self, op: Op, qubits: List[Qubit]) -> None:
         """Commute the Pauli through the gate.
         Given a Clifford gate G, transform the Pauli P to Q
-- 
2.43.0


From 063ee587500e0d76bbdf4482c27628d1ba74828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 24/42] fix: noise models with gates without errors can be
 scaled

---
 qermit/noise_model/noise_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 59fac5d..64db3f2 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -396,6 +396,10 @@ class ErrorDistribution:
         :return: A new error distribution with the noise scaled.
         """
 
+        # No noise is acted by an empty distribution.
+        if not self.distribution:
+            return ErrorDistribution(distribution={})
+
         ptm, pauli_index = self.to_ptm()
         scaled_ptm = fractional_matrix_power(ptm, scaling_factor)
         return ErrorDistribution.from_ptm(ptm=scaled_ptm, pauli_index=pauli_index)
-- 
2.43.0


From 9c00165e15a35382ed518392a13f2de84dd1a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 25/42] fix: Pauli checks can be added to circuits with
 barriers

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index b77d3ea..dd11b6b 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -105,7 +105,10 @@ class PauliSampler(ABC):
                 ]
 
             # Add original command
-            pauli_check_circuit.add_gate(command.op, command.args)
+            if command.op.type == OpType.Barrier:
+                pauli_check_circuit.add_barrier(command.args)
+            else:
+                pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
             if (command.op.type == OpType.CircBox) and (
-- 
2.43.0


From 4b9116e182e0b0dce0ea3b73aa9c043ad6fb622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 26/42] fix: checks before a Clifford subcircuit are always
 completed after it

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index dd11b6b..7b1e60c 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -52,8 +52,7 @@ class PauliSampler(ABC):
         # Add each command in the circuit, wrapped by checks
         # if the command is a circbox named 'Clifford Subcircuit'
         for command in circuit.get_commands():
-            # Add barriers and check if appropriate
-            if (
+            is_clifford_subcircuit = (
                 (command.op.type == OpType.CircBox)
                 and (cast(CircBox, command.op).get_circuit().name is not None)
                 and (
@@ -61,7 +60,10 @@ class PauliSampler(ABC):
                         "Clifford Subcircuit"
                     )
                 )
-            ):
+            )
+
+            # Add barriers and check if appropriate
+            if is_clifford_subcircuit:
                 clifford_subcircuit = self._decompose_clifford_subcircuit_box(command)
 
                 # List of Paulis to be used as checks before the subcircuit.
@@ -111,9 +113,7 @@ class PauliSampler(ABC):
                 pauli_check_circuit.add_gate(command.op, command.args)
 
             # Add barriers and checks if appropriate.
-            if (command.op.type == OpType.CircBox) and (
-                cast(CircBox, command.op).get_circuit().name == "Clifford Subcircuit"
-            ):
+            if is_clifford_subcircuit:
                 # For each check, commute the pauli through
                 # the clifford circuit.
                 for end_stabiliser, control_qubit in zip(
-- 
2.43.0


From 8ba0323769792f496352e1088968668106501011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 27/42] fix: checks of Clifford subcircuits follow permuted
 wires

---
 qermit/coherent_pauli_checks/pauli_sampler.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 7b1e60c..0225d1c 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -119,17 +119,10 @@ class PauliSampler(ABC):
                 for end_stabiliser, control_qubit in zip(
                     reversed(end_stabiliser_list), reversed(control_qubit_list)
                 ):
-                    for clifford_command in clifford_subcircuit.get_commands():
-                        if clifford_command.op.type == OpType.Barrier:
-                            continue
-
-                        # TODO: an error would be raised here if clifford_command
-                        # is not Clifford. It could be worth raising a clearer
-                        # error.
-                        end_stabiliser.apply_gate(
-                            op=clifford_command.op,
-                            qubits=clifford_command.qubits,
-                        )
+                    # TODO: an error would be raised here if the subcircuit
+                    # is not Clifford. It could be worth raising a clearer
+                    # error.
+                    end_stabiliser.apply_circuit(clifford_subcircuit)
 
                     pauli_check_circuit.add_barrier(command.args + [control_qubit])
 
-- 
2.43.0


From cf00ac74bfc888efec1c545f671506c717a0e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 28/42] fix: boxing Clifford gates respects the order of
 classical operations

---
 .../box_clifford_subcircuits.py               | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index 093c90b..a327a5d 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -1,5 +1,5 @@
 import networkx as nx  # type: ignore
-from pytket._tket.unit_id import Qubit
+from pytket._tket.unit_id import Qubit, UnitID
 from pytket.circuit import CircBox, Circuit, Command, OpType
 from pytket.passes import BasePass, CustomPass
 
@@ -84,22 +84,22 @@ def _circuit_to_graph(circuit: Circuit) -> tuple[nx.DiGraph, list[Command]]:
     :return: Tuple of graph and list of commands. Nodes are indexes
         in the list of commands.
     """
-    # Lists the most recent node to act on a particular qubits. If a
-    # new gate is found to act on that qubit then an edge between the
+    # Lists the most recent node to act on a particular qubit or bit. If a
+    # new gate is found to act on that unit then an edge between the
     # node which corresponds to the new gate and the node which
-    # most recently acted on that qubit is added. This builds a DAG
+    # most recently acted on that unit is added. This builds a DAG
     # showing the temporal order of gates.
     node_command = circuit.get_commands()
-    current_node: dict[Qubit, int] = {}
+    current_node: dict[UnitID, int] = {}
     dag = nx.DiGraph()
     for node, command in enumerate(node_command):
         dag.add_node(node)
-        for qubit in command.qubits:
-            # This if statement is used in case the qubit has not been
+        for unit in command.args:
+            # This if statement is used in case the unit has not been
             # acted on yet.
-            if qubit in current_node.keys():
-                dag.add_edge(current_node[qubit], node)
-            current_node[qubit] = node
+            if unit in current_node.keys():
+                dag.add_edge(current_node[unit], node)
+            current_node[unit] = node
 
     return dag, node_command
 
-- 
2.43.0


From 0021573a7724c11750de759031601d72b6c68a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 29/42] fix: Pauli checks keep permuted wires of circuits

---
 qermit/coherent_pauli_checks/box_clifford_subcircuits.py | 5 +++++
 qermit/coherent_pauli_checks/pauli_sampler.py            | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
index a327a5d..04b15c6 100644
--- a/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
+++ b/qermit/coherent_pauli_checks/box_clifford_subcircuits.py
@@ -3,6 +3,8 @@ from pytket._tket.unit_id import Qubit, UnitID
 from pytket.circuit import CircBox, Circuit, Command, OpType
 from pytket.passes import BasePass, CustomPass
 
+from qermit.noise_model.pauli_error_transpile import _wire_permutation
+
 from .monochromatic_convex_subdag import get_monochromatic_convex_subdag
 
 
@@ -302,6 +304,9 @@ def _box_clifford_transform(circuit: Circuit) -> Circuit:
 
             implemented_commands[node_to_implement_list[0]] = True
 
+    # Commands do not include the permutation of wires left by compilation.
+    clifford_box_circuit.append(_wire_permutation(circuit))
+
     return clifford_box_circuit
 
 
diff --git a/qermit/coherent_pauli_checks/pauli_sampler.py b/qermit/coherent_pauli_checks/pauli_sampler.py
index 0225d1c..cbe165a 100644
--- a/qermit/coherent_pauli_checks/pauli_sampler.py
+++ b/qermit/coherent_pauli_checks/pauli_sampler.py
@@ -11,6 +11,7 @@ from pytket.circuit import Bit, CircBox, Command, OpType, Qubit
 from pytket.pauli import Pauli, QubitPauliString, QubitPauliTensor
 
 from qermit.noise_model.noise_model import NoiseModel
+from qermit.noise_model.pauli_error_transpile import _wire_permutation
 from qermit.noise_model.qermit_pauli import QermitPauli
 
 
@@ -152,6 +153,10 @@ class PauliSampler(ABC):
                         bit=measure_bit,
                     )
 
+        # Commands do not include the permutation of wires left by compilation.
+        pauli_check_circuit.append(_wire_permutation(circuit))
+        pauli_check_circuit.add_phase(circuit.phase)
+
         return pauli_check_circuit, postselect_bits
 
     @staticmethod
-- 
2.43.0


From 42a7657b8b446f3e2a8a407b3493b0b49c45095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 30/42] fix: transpiler backends do not share results by
 default

---
 qermit/noise_model/transpiler_backend.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qermit/noise_model/transpiler_backend.py b/qermit/noise_model/transpiler_backend.py
index f7fa8cc..7509603 100644
--- a/qermit/noise_model/transpiler_backend.py
+++ b/qermit/noise_model/transpiler_backend.py
@@ -34,7 +34,7 @@ class TranspilerBackend:
     def __init__(
         self,
         transpiler: BasePass,
-        result_dict: Dict[ResultHandle, BackendResult] = {},
+        result_dict: Optional[Dict[ResultHandle, BackendResult]] = None,
         max_batch_size: int = 1000,
         n_cores: int = 1,
     ):
@@ -46,7 +46,8 @@ class TranspilerBackend:
             bathes of size 1000 plus a smaller batch for left over shot.
             These batches will be distributed to multiple cores.
         :param result_dict: Results dictionary, may be used to store existing
-            results within backend, defaults to {}
+            results within backend. By default each backend has its own
+            initially empty dictionary.
         :param n_cores: Shots will be taken in parallel. This parameter
             specifies the number of cores to use. The default is to use
             one core.
@@ -55,7 +56,7 @@ class TranspilerBackend:
         self.transpiler = transpiler
 
         self.max_batch_size = max_batch_size
-        self.result_dict = result_dict
+        self.result_dict = {} if result_dict is None else result_dict
         self.n_cores = n_cores
 
     def default_compilation_pass(self, **kwargs) -> BasePass:
-- 
2.43.0


From a75cc50edca0f36bf9edd591e0c0c69659ac800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 31/42] fix: mock Quantinuum backend accepts options when
 retrieving results

---
 qermit/noise_model/mock_quantinuum_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/noise_model/mock_quantinuum_backend.py b/qermit/noise_model/mock_quantinuum_backend.py
index 344534e..ba0a5bd 100644
--- a/qermit/noise_model/mock_quantinuum_backend.py
+++ b/qermit/noise_model/mock_quantinuum_backend.py
@@ -119,4 +119,4 @@ class MockQuantinuumBackend(QuantinuumBackend):
         :param handle: handle to results
         :return: Results corresponding to handle.
         """
-        return self.noisy_backend.get_result(handle, *kwargs)
+        return self.noisy_backend.get_result(handle, **kwargs)
-- 
2.43.0


From 9941a09e6ec2add85228ed37b5a55599c616c2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 32/42] fix: TaskGraph.tasks lists the tasks of MitRes and
 MitEx

The property dropped the first two nodes of the graph, taken to be the input
and output vertices. In a MitRes or MitEx the output vertex comes later, so
the first task was missing and the output vertex listed instead.
---
 qermit/taskgraph/task_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index bb43ca8..0fdd065 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -86,7 +86,7 @@ class TaskGraph:
         Returns a list of all tasks with both input and output ports
         in the TaskGraph.
         """
-        return list(self._task_graph)[2:]
+        return [task for task in self._task_graph if task not in (self._i, self._o)]
 
     def __call__(self, input_wires: List[Wire]) -> Tuple[List[Wire]]:
         return self.run(input_wires)
-- 
2.43.0


From 6b0a551fe99b8908356ac39270b6581804891fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 33/42] fix: copies of tasks and task graphs own their
 characterisation

A copy of a TaskGraph or MitTask shared its characterisation dictionary (and
cache) with the original, and a copied MitTask still ran on the original.
Calibration data measured by one workflow reached every other workflow built
from the same MitRes, MitEx or MitTask.
---
 qermit/taskgraph/mittask.py    | 13 +++++++++++++
 qermit/taskgraph/task_graph.py |  9 ++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/qermit/taskgraph/mittask.py b/qermit/taskgraph/mittask.py
index 65d1c14..ced5af8 100644
--- a/qermit/taskgraph/mittask.py
+++ b/qermit/taskgraph/mittask.py
@@ -86,6 +86,19 @@ class MitTask:
             self.run = MethodType(_method, self)
         self.characterisation: dict = {}
 
+    def __copy__(self) -> "MitTask":
+        """
+        Copies own their characterisation, and run on it, so a task that is
+        added to several TaskGraph does not carry data between them.
+        """
+        new_task = self.__class__.__new__(self.__class__)
+        new_task.__dict__.update(self.__dict__)
+        run = self.__dict__.get("run")
+        if isinstance(run, MethodType) and run.__self__ is self:
+            new_task.run = MethodType(run.__func__, new_task)  # type: ignore
+        new_task.characterisation = dict(self.characterisation)
+        return new_task
+
     @property
     def label(self) -> str:
         return self._label
diff --git a/qermit/taskgraph/task_graph.py b/qermit/taskgraph/task_graph.py
index 0fdd065..4ac6fe3 100644
--- a/qermit/taskgraph/task_graph.py
+++ b/qermit/taskgraph/task_graph.py
@@ -59,12 +59,15 @@ class TaskGraph:
 
     def __copy__(self) -> "TaskGraph":
         """
-        Copies own their graph, so adding tasks to, or decomposing, a copy
-        leaves the TaskGraph it was copied from as it was.
+        Copies own their graph and characterisation, so adding tasks to,
+        decomposing, or running a copy leaves the TaskGraph it was copied
+        from as it was.
         """
         new_task_graph = self.__class__.__new__(self.__class__)
         new_task_graph.__dict__.update(self.__dict__)
         new_task_graph._task_graph = deepcopy(self._task_graph)
+        new_task_graph.characterisation = dict(self.characterisation)
+        new_task_graph._cache = OrderedDict(self._cache)
         return new_task_graph
 
     def from_TaskGraph(self, task_graph: "TaskGraph"):
@@ -77,7 +80,7 @@ class TaskGraph:
         """
         self._task_graph = deepcopy(task_graph._task_graph)
         self._label = task_graph._label
-        self.characterisation = task_graph.characterisation
+        self.characterisation = dict(task_graph.characterisation)
         return self
 
     @property
-- 
2.43.0


From ee726d95a8327eee07cd051c9ecd7bc6d60777bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 34/42] fix: MitEx runs its own copy of the MitRes it is given

MitEx put the caller's MitRes into its graph, where all other generators copy
it. Decomposing the MitEx emptied the caller's MitRes, and calibration data
measured by one MitEx reached other MitEx built with the same MitRes.
---
 qermit/taskgraph/mitex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/mitex.py b/qermit/taskgraph/mitex.py
index 5eba8b1..981af82 100644
--- a/qermit/taskgraph/mitex.py
+++ b/qermit/taskgraph/mitex.py
@@ -14,7 +14,7 @@
 
 
 import inspect
-from copy import deepcopy
+from copy import copy, deepcopy
 from typing import List, OrderedDict, Tuple, Union, cast
 
 import networkx as nx  # type: ignore
@@ -311,7 +311,8 @@ class MitEx(TaskGraph):
         )
 
         # if mitres isn't defined, build around a mitres which compiles circuits
-        _mitres = kwargs.get("mitres", gen_compiled_MitRes(backend))
+        # the given mitres is copied, as it stays the caller's own
+        _mitres = copy(kwargs.get("mitres", gen_compiled_MitRes(backend)))
         self._task_graph.add_edge(
             collate_circuit_shots_task, _mitres, key=(0, 0), data=None
         )
-- 
2.43.0


From f2888fdc0f324dfabc4e20ebcb0f8d6aab08977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 35/42] fix: random Clifford circuits do not discard a seed
 given earlier

---
 qermit/probabilistic_error_cancellation/cliff_circuit_gen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
index 8b4e4ed..4fd8a73 100644
--- a/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
+++ b/qermit/probabilistic_error_cancellation/cliff_circuit_gen.py
@@ -199,10 +199,12 @@ def random_clifford_circ(n_qubits: int, **kwargs) -> Circuit:
     Hadamard gates acting on a subset of the qubits, and S is a permutation layer.
 
     :param n_qubits: The number of qubits on which the returned random Clifford circuit should act
+    :key seed: Seed for np.random. By default np.random is not seeded.
     :return: A random Clifford circuit acting on n_qubits qubits
     """
 
-    np.random.seed(kwargs.get("seed", None))
+    if kwargs.get("seed", None) is not None:
+        np.random.seed(kwargs["seed"])
 
     circ = Circuit(n_qubits)
 
-- 
2.43.0


From 0ceaad9106accbfb9858b6843a365e4c3b195c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 36/42] fix: generating MitEx without a seed does not discard a
 seed given earlier

---
 qermit/probabilistic_error_cancellation/pec_learning_based.py | 3 ++-
 qermit/zero_noise_extrapolation/zne.py                        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 60f416c..2512f45 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -979,7 +979,8 @@ def gen_PEC_learning_based_MitEx(
         raise RuntimeError("The backend gate set must include CX or CZ gates")
 
     _seed = kwargs.get("seed", None)
-    np.random.seed(seed=_seed)
+    if _seed is not None:
+        np.random.seed(seed=_seed)
 
     _optimisation_level = kwargs.get("optimisation_level", 0)
     # TODO: Change to a number of clifford circuits which varies with the size of the circuit
diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 5f1b85d..66073d8 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -1142,7 +1142,8 @@ def gen_ZNE_MitEx(backend: Backend, noise_scaling_list: List[float], **kwargs) -
     _deg = kwargs.get("deg", len(noise_scaling_list) - 1)
     _seed = kwargs.get("seed", None)
 
-    np.random.seed(seed=_seed)
+    if _seed is not None:
+        np.random.seed(seed=_seed)
 
     _zne_taskgraph = TaskGraph().from_TaskGraph(
         gen_noise_scaled_mitex(
-- 
2.43.0


From 77e6ad4760f2114ee6e7929e591e8fa6e6d591c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 37/42] fix: symbols of a circuit are listed in the same order
 in every process

---
 qermit/taskgraph/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index f8883df..d0ef33d 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -48,12 +48,12 @@ class SymbolsDict(object):
     def symbols_from_circuit(cls, circuit: Circuit) -> "SymbolsDict":
         """
         Given a pytket Circuit, returns a SymbolsDict object capturing
-        given circuits free symbols.
+        given circuits free symbols, ordered by name.
 
         :param circuit: Pytket circuit with potential symbols.
         """
         mit_symbols = cls()
-        for sym in circuit.free_symbols():
+        for sym in sorted(circuit.free_symbols(), key=str):
             mit_symbols.add_symbol(sym)
         return mit_symbols
 
-- 
2.43.0


From 901c30f718ae3a773d24977ad2b71fc3b64db57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:24 +0000
Subject: [PATCH 38/42] fix: scaled noise models keep the randomness generator
 given

---
 qermit/noise_model/noise_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qermit/noise_model/noise_model.py b/qermit/noise_model/noise_model.py
index 64db3f2..a7e2304 100644
--- a/qermit/noise_model/noise_model.py
+++ b/qermit/noise_model/noise_model.py
@@ -398,11 +398,13 @@ class ErrorDistribution:
 
         # No noise is acted by an empty distribution.
         if not self.distribution:
-            return ErrorDistribution(distribution={})
+            return ErrorDistribution(distribution={}, rng=self.rng)
 
         ptm, pauli_index = self.to_ptm()
         scaled_ptm = fractional_matrix_power(ptm, scaling_factor)
-        return ErrorDistribution.from_ptm(ptm=scaled_ptm, pauli_index=pauli_index)
+        scaled = ErrorDistribution.from_ptm(ptm=scaled_ptm, pauli_index=pauli_index)
+        scaled.reset_rng(rng=self.rng)
+        return scaled
 
 
 class LogicalErrorDistribution:
-- 
2.43.0


From dc7638a5a72fb52ff02d92bf3186c6745b74d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:34 +0000
Subject: [PATCH 39/42] fix: strings added with extend_operator can be measured

---
 qermit/taskgraph/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qermit/taskgraph/utils.py b/qermit/taskgraph/utils.py
index d0ef33d..9a9b228 100644
--- a/qermit/taskgraph/utils.py
+++ b/qermit/taskgraph/utils.py
@@ -307,6 +307,8 @@ class ObservableTracker:
         :param new_operator: Each QubitPauliString and coefficient added to held operator.
         """
         self._qubit_pauli_operator += new_operator
+        for string in new_operator._dict:
+            self._qps_to_indices.setdefault(string, list())
 
     def remove_strings(self, strings: List[QubitPauliString]):
         """
-- 
2.43.0


From dbc12d2aadbd06b0d30889a063cfd19caa48d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 40/42] fix: PEC matches quasi probabilities to strings
 whatever the order a workflow lists them in

---
 .../pec_learning_based.py                     | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/qermit/probabilistic_error_cancellation/pec_learning_based.py b/qermit/probabilistic_error_cancellation/pec_learning_based.py
index 2512f45..d412bff 100644
--- a/qermit/probabilistic_error_cancellation/pec_learning_based.py
+++ b/qermit/probabilistic_error_cancellation/pec_learning_based.py
@@ -300,6 +300,32 @@ def gen_rebase_to_frames_and_computing() -> MitTask:
     )
 
 
+def gen_sort_strings() -> MitTask:
+    """Generates task sorting the qubit pauli strings of results, so that they are
+    in the same order as the quasi probabilities, which are learnt string by string.
+    The order of the strings in results is up to the MitEx used.
+
+    :return: Task sorting qubit pauli strings.
+    """
+
+    def task(
+        obj, results: List[QubitPauliOperator]
+    ) -> Tuple[List[QubitPauliOperator]]:
+        return (
+            [
+                QubitPauliOperator({qps: qpo._dict[qps] for qps in sorted(qpo._dict)})
+                for qpo in results
+            ],
+        )
+
+    return MitTask(
+        _label="SortStrings",
+        _n_out_wires=1,
+        _n_in_wires=1,
+        _method=task,
+    )
+
+
 # TODO: Add task before this to collate results using noisy_list_structure
 def gen_run_with_quasi_prob() -> MitTask:
     """Generates task which converts list of quasi probabilities and noisy circuit results
@@ -602,7 +628,7 @@ def gen_get_clifford_training_set(
             ansatz_circuit = experiment.AnsatzCircuit
             qpo = experiment.ObservableTracker.qubit_pauli_operator
 
-            for qps_num, qps in enumerate(qpo._dict):
+            for qps_num, qps in enumerate(sorted(qpo._dict)):
                 # Generate a list of circuits such that each Computing gate
                 # is replaced by a random Clifford gate.
                 training_circs = [
@@ -1027,6 +1053,7 @@ def gen_PEC_learning_based_MitEx(
     _experiment_taskgraph.append(learn_dist)
 
     _circuit_experiment_taskgraph = TaskGraph().from_TaskGraph(device_mitex)
+    _circuit_experiment_taskgraph.append(gen_sort_strings())
     _circuit_experiment_taskgraph.add_wire()
     get_noisy_circuits = gen_get_noisy_circuits(
         device_backend, _label="GetNoisyCircuits"
-- 
2.43.0


From a5ee95e3d59244d5cbf15916e0639914ea038c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 41/42] fix: zero noise extrapolation of no experiments gives
 no results, as other workflows do

---
 qermit/zero_noise_extrapolation/zne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qermit/zero_noise_extrapolation/zne.py b/qermit/zero_noise_extrapolation/zne.py
index 66073d8..23e80f3 100644
--- a/qermit/zero_noise_extrapolation/zne.py
+++ b/qermit/zero_noise_extrapolation/zne.py
@@ -800,7 +800,7 @@ def merge_experiments_task_gen() -> MitTask:
         return (
             [
                 QubitPauliOperator(dictionary=index_to_merged_qpo_dict.get(index, {}))
-                for index in range(max(experiment_index_list) + 1)
+                for index in range(max(experiment_index_list, default=-1) + 1)
             ],
         )
 
-- 
2.43.0


From f5f5cdd0821ff1eaa22d4d38c6be643e96bc7c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:58 +0000
Subject: [PATCH 42/42] fix: DFSC accepts circuits with barriers

The basis change along a circuit is found on a copy without barriers: pytket
refuses to follow a Pauli string across one, so circuits folded by zero noise
extrapolation could not be characterised.
---
 qermit/clifford_noise_characterisation/dfsc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qermit/clifford_noise_characterisation/dfsc.py b/qermit/clifford_noise_characterisation/dfsc.py
index 6721482..d4fd91a 100644
--- a/qermit/clifford_noise_characterisation/dfsc.py
+++ b/qermit/clifford_noise_characterisation/dfsc.py
@@ -19,6 +19,7 @@ from typing import Dict, List, Tuple, Union, cast
 from numpy import mean
 from pytket import Circuit
 from pytket.backends import Backend
+from pytket.passes import RemoveBarriers
 from pytket.pauli import Pauli, QubitPauliString
 from pytket.tailoring import apply_clifford_basis_change
 from pytket.transform import Transform
@@ -74,17 +75,20 @@ def preparation_circuit_for_partition(
     # +1 eigenstate to circuit
     # use RemoveRedundancies after to minimise gates required in cosntruction
     Transform.RebaseToCliffordSingles().apply(clifford_circuit)
+    # Barriers do not change the basis. They are kept in the circuit which is run.
+    basis_change_circuit = clifford_circuit.copy()
+    RemoveBarriers().apply(basis_change_circuit)
     # Basis change does not include the permutation of wires that may be left
     # by compilation
     wires = {
         output: wire
-        for wire, output in clifford_circuit.implicit_qubit_permutation().items()
+        for wire, output in basis_change_circuit.implicit_qubit_permutation().items()
     }
     for string in partition:
         string = QubitPauliString(
             {wires.get(q, q): pauli for q, pauli in string.map.items()}
         )
-        transformed_string = apply_clifford_basis_change(string, clifford_circuit)
+        transformed_string = apply_clifford_basis_change(string, basis_change_circuit)
         transformed_dict = transformed_string.map
         for qubit in transformed_dict:
             if transformed_dict[qubit] == Pauli.X:
-- 
2.43.0

