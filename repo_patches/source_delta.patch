From 25b6dbbfd4d5743564641a1624c3bfaf3a63234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 01/31] fix: parse X lattice readouts (use the lattice width
 constant that exists)

---
 qtcodes/circuits/rotated_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index d5af3f5..7231742 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -276,7 +276,7 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         # Z_{N}Z_{N-1}...Z_{0} is copied from previous syndrome measurement string
 
         logical_readout = 0
-        for idx in range(0, self.params["num_data"], self.params["d"][self.DW]):
+        for idx in range(0, self.params["num_data"], self.params["d"][self.W]):
             logical_readout = (logical_readout + readout_values[idx]) % 2
 
         return logical_readout, stabilizer_str
-- 
2.43.0


From 6fd6bc692a87f93b68aea7b44ebb8bf5d37d2571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 02/31] fix: XZZX logical readout on lattices of height or
 width 1

---
 qtcodes/circuits/xzzx.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 64ce8d5..cbdf44d 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -146,16 +146,14 @@ class _XZZXLattice(_RotatedLattice):
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
         self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
+        for i in x_readout_indxs:
+            self.circ.cx(self.qregisters["ancilla"], self.qregisters["data"][i])
         self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        for i in z_readout_indxs:
+            self.circ.cx(self.qregisters["data"][i], self.qregisters["ancilla"])
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
@@ -186,16 +184,14 @@ class _XZZXLattice(_RotatedLattice):
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
         self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
+        for i in x_readout_indxs:
+            self.circ.cx(self.qregisters["ancilla"], self.qregisters["data"][i])
         self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        for i in z_readout_indxs:
+            self.circ.cx(self.qregisters["data"][i], self.qregisters["ancilla"])
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-- 
2.43.0


From cbc31c72cdc69e246e7a20cf3d13bf943e08e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 03/31] fix: logical qubits must not share mutable params (cx
 reset the control's round counter)

---
 qtcodes/circuits/base.py       | 3 ++-
 qtcodes/circuits/repetition.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index b6e8cec..5f3e30f 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -79,7 +79,8 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
 
         self.name = name
         self.circ = circ
-        self.params: Dict[str, Any] = params
+        # copy: params may be shared with other qubits and is updated as the circuit grows
+        self.params: Dict[str, Any] = dict(params)
         self._params_validate_and_generate()
 
         self.qregisters: Dict[str, QuantumRegister] = {}  # quantum
diff --git a/qtcodes/circuits/repetition.py b/qtcodes/circuits/repetition.py
index 0351952..4384b39 100644
--- a/qtcodes/circuits/repetition.py
+++ b/qtcodes/circuits/repetition.py
@@ -24,7 +24,7 @@ class RepetitionQubit(XXZZQubit):
         name: str = "tq",
         circ: Optional[QuantumCircuit] = None,
     ) -> None:
-        params = self._validate_params(params)
+        params = self._validate_params(dict(params) if params else None)
         super().__init__(params, name, circ)
 
     @staticmethod
-- 
2.43.0


From 2a08c3f3fc2b0669ff8bfc95ac52edc353cc6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 04/31] fix: logical CX onto a target qubit must not leave the
 ancilla entangled

---
 qtcodes/circuits/xxzz.py |  9 +++++----
 qtcodes/circuits/xzzx.py | 12 ++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/qtcodes/circuits/xxzz.py b/qtcodes/circuits/xxzz.py
index 189921f..c6fad18 100644
--- a/qtcodes/circuits/xxzz.py
+++ b/qtcodes/circuits/xxzz.py
@@ -132,10 +132,11 @@ class _XXZZLattice(_RotatedLattice):
                 self.circ.cx(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            # TODO: we may not want to read into the ancilla,
-            # let's try to eliminate this intermediate method,
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row, straight onto the target: reading into the
+            # ancilla first would leave it entangled with the logical state
+            for i in range(self.params["d"][self.W]):
+                self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index cbdf44d..7389562 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -126,8 +126,16 @@ class _XZZXLattice(_RotatedLattice):
                     self.circ.cz(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Taking top-most row, straight onto the target: reading into the
+            # ancilla first would leave it entangled with the logical state
+            for i in range(self.params["d"][self.W]):
+                if i % 2 == 0:
+                    self.circ.h(target)
+                    self.circ.cx(target, self.qregisters["data"][i])
+                    self.circ.h(target)
+                else:
+                    self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
-- 
2.43.0


From 0c232868bf39c64fc7d6911a3d3ba4dbf127d0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 05/31] fix: decoding must not modify the caller's syndromes

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 9838c3b..f6b976b 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -104,7 +104,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
 
         # need to ensure there are an even number of nodes
         make_even = len(nodes) % 2 != 0
-        nodes += self.virtual[syndrome_graph_key]
+        nodes = nodes + self.virtual[syndrome_graph_key]
 
         # add all nodes to error_graph
         for node in nodes:
-- 
2.43.0


From 5e5ea37fb5d528bde99114dbd83ef0470ac549c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:31 +0000
Subject: [PATCH 06/31] fix: boundary degeneracy of the syndrome node with
 index 0

---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index f6b976b..d2e4870 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -198,7 +198,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             target = b_indx  # virtual
             source = a_indx
 
-        if source:
+        if source is not None:
             shortest_distance = shortest_distance_mat[source][target]
             virtual_nodes = self.virtual[syndrome_graph_key]
             total_deg = 0
-- 
2.43.0


From 54b701f6b57ac79041c7a080885e720bb2e8d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 07/31] fix: look up table decoding of a readout that was never
 tabulated

---
 qtcodes/fitters/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 242bc2e..0630e6b 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -193,6 +193,8 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
 
         # p(s) = sum_i p(s|i)p(i)
         p_s = p_s_given_i[0] * p_i[0] + p_s_given_i[1] * p_i[1]
+        if p_s == 0:  # syndromes never seen for either value: nothing learned
+            return list(p_i)
 
         # p(i|s) = p(s|i)p(i)/p(s), Bayes Rule
         p_i_given_s = [p_s_given_i[i] * p_i[i] / p_s for i in [0, 1]]
-- 
2.43.0


From 96fd4d7073e496cd085214d5848e741e0706f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 08/31] fix: look up table must not change when the caller
 reuses its results dict

---
 qtcodes/fitters/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 0630e6b..a80b514 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -151,7 +151,7 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
                 key (str): readout_string
                 val (int): counts
         """
-        self.look_up_table[logical_readout_type][logical_qubit_value] = results
+        self.look_up_table[logical_readout_type][logical_qubit_value] = dict(results)
         self.look_up_table_shots[logical_readout_type][logical_qubit_value] = sum(
             results.values()
         )
-- 
2.43.0


From 7a345e4d560632670b9a78a1f97ddcfaed746539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 09/31] fix: saved benchmark results survive failing reads and
 interrupted writes

---
 qtcodes/tools/benchmarking.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 7e908f9..d460f7e 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -4,6 +4,7 @@ benchmarking class for qtcodes
 """
 
 import glob
+import os
 
 
 import numpy as np
@@ -198,10 +199,10 @@ class TopologicalBenchmark:
 
     def append_data(self, physical_error_rate: float, logical_error_rate: float):
         try:
-            data = np.load(self.filename)
-            physical_error_rates = data["physical_error_rates"]
-            logical_error_rates = data["logical_error_rates"]
-        except:
+            with np.load(self.filename) as data:
+                physical_error_rates = data["physical_error_rates"]
+                logical_error_rates = data["logical_error_rates"]
+        except FileNotFoundError:
             physical_error_rates = np.array([])
             logical_error_rates = np.array([])
 
@@ -209,13 +210,18 @@ class TopologicalBenchmark:
         logical_error_rates = np.append(logical_error_rates, logical_error_rate)
 
         indxs = np.argsort(physical_error_rates)
-        np.savez(
-            self.filename,
-            d=self.decoder.params["d"],
-            T=self.decoder.params["T"],
-            physical_error_rates=physical_error_rates[indxs],
-            logical_error_rates=logical_error_rates[indxs],
-        )
+        # write next to the results file and swap it in, so that a failure
+        # half way never costs the results saved so far
+        tmp_filename = self.filename + ".tmp"
+        with open(tmp_filename, "wb") as tmp_file:
+            np.savez(
+                tmp_file,
+                d=self.decoder.params["d"],
+                T=self.decoder.params["T"],
+                physical_error_rates=physical_error_rates[indxs],
+                logical_error_rates=logical_error_rates[indxs],
+            )
+        os.replace(tmp_filename, self.filename)
 
 
 class TopologicalAnalysis:
-- 
2.43.0


From c44413c061cffaae75ba9cb07e7ee5dfb1c81673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 10/31] fix: sweep_mp (unpicklable task, concurrent appends to
 one results file)

---
 qtcodes/tools/benchmarking.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index d460f7e..839fbf7 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -18,6 +18,7 @@ from typing import Dict, Optional, List
 
 plt.rcParams.update({"font.size": 14, "pdf.fonttype": 42, "ps.fonttype": 42})
 
+from functools import partial
 from multiprocessing import Pool
 
 
@@ -152,11 +153,17 @@ class TopologicalBenchmark:
             if physical_error_rates is not None
             else [0.04, 0.07, 0.10, 0.13, 0.16,],
         )
-        p = Pool(4)  # TODO change on HPC
-        single_lambda = lambda physical_error_rate: self.single(
-            physical_error_rate, save_data=save_data, shots=shots
-        )
-        logical_error_rates = p.map(single_lambda, physical_error_rates)
+        # workers only compute: appending to the results file from several
+        # processes at once would lose results
+        single = partial(self.single, save_data=False, shots=shots)
+        logical_error_rates = []
+        with Pool(4) as p:  # TODO change on HPC
+            for physical_error_rate, logical_error_rate_value in zip(
+                physical_error_rates, p.imap(single, physical_error_rates)
+            ):
+                logical_error_rates.append(logical_error_rate_value)
+                if save_data:
+                    self.append_data(physical_error_rate, logical_error_rate_value)
 
         self.data["physical_error_rates"] = physical_error_rates
         self.data["logical_error_rates"] = logical_error_rates
-- 
2.43.0


From e5abb5f7f8b63f9bbb89d0ecff6cbfcdc5914a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:24 +0000
Subject: [PATCH 11/31] fix: XZZX single faults in a round must not spread
 along the logical Z

---
 qtcodes/circuits/xzzx.py | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 7389562..e126b9b 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -44,13 +44,47 @@ class _XZZX(_Stabilizer):
             self.circ.h(syndrome)
 
 
+class _XZZXVertical(_Stabilizer):
+    """
+    XZZX-syndrome measurement along the other direction, needed for the "mz" plaquettes:
+    an error on the syndrome qubit half way must not spread along the logical Z (a row).
+    """
+
+    def entangle(self) -> None:
+        """
+        Parity measurement on nearby data qubits.
+        Going in an "N" traversal direction.
+        """
+        syndrome = self.qubit_indices[0]
+        top_l = self.qubit_indices[1]
+        top_r = self.qubit_indices[2]
+        bot_l = self.qubit_indices[3]
+        bot_r = self.qubit_indices[4]
+
+        if top_l:  # X
+            self.circ.h(syndrome)
+            self.circ.cx(syndrome, top_l)
+            self.circ.h(syndrome)
+
+        if bot_l:  # Z
+            self.circ.cx(bot_l, syndrome)
+
+        if top_r:  # Z
+            self.circ.cx(top_r, syndrome)
+
+        if bot_r:  # X
+            self.circ.h(syndrome)
+            self.circ.cx(syndrome, bot_r)
+            self.circ.h(syndrome)
+
+
 class _XZZXLattice(_RotatedLattice):
     """
     This class contains all the lattice geometry
     specifications regarding the XZZX Rotated Surface Code.
     """
 
-    stabilizer_shortnames = {"mx": _XZZX, "mz": _XZZX}
+    stabilizer_shortnames = {"mx": _XZZX, "mz": _XZZXVertical}
 
     def reset_x(self):
         self.circ.reset(self.qregisters["data"])
-- 
2.43.0


From e341442f862c60dae1d0a6993b7a370364c36924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 12/31] fix: rejected add_tqubit must not leave an empty
 subregister (next cx failed)

---
 qtcodes/circuits/circ.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index dfe2665..03988c6 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -90,11 +90,13 @@ class TopologicalRegister:
             params (Dict[str, int]):
                 Specifies the params for the Tqubit being added
         """
-        if sub_register not in self.tqubits:
-            self.tqubits[sub_register] = {}
-        self.tqubits[sub_register][self.n] = str2qtype[ctype](
+        tqubit = str2qtype[ctype](
             params, name=self.name + "_" + str(self.n), circ=self.circ
         )
+        # only once the qubit exists: a failed request must not leave an empty subregister
+        if sub_register not in self.tqubits:
+            self.tqubits[sub_register] = {}
+        self.tqubits[sub_register][self.n] = tqubit
         self.params.append(params)
         self.n += 1
 
-- 
2.43.0


From 84f60d5a92b7d9da71793c86e2e402d5c010278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:22 +0000
Subject: [PATCH 13/31] fix: add_tqubits must add all qubits or none

---
 qtcodes/circuits/circ.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index 03988c6..0395f8f 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -77,6 +77,12 @@ class TopologicalRegister:
                     "Please choose a Topological Qubit type from: "
                     + str(list(str2qtype.keys()))
                 )
+        # build all aside first: a refused qubit must not leave the ones before it added
+        trial = QuantumCircuit(*self.circ.qregs, *self.circ.cregs)
+        for i in range(len(ctypes)):
+            str2qtype[ctypes[i]](
+                params[i], name=self.name + "_" + str(self.n + i), circ=trial
+            )
         for i in range(len(ctypes)):
             self.add_tqubit(sub_register, ctypes[i], params[i])
 
-- 
2.43.0


From fa061aa2e657cd0219afe2e2b04c84ffd8bbcf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:22 +0000
Subject: [PATCH 14/31] fix: decoders must not depend on what the caller later
 does to its params dict

---
 qtcodes/fitters/lattice_decoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index d2e4870..9b92c1b 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -35,6 +35,9 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
     def __init__(self, params: Dict) -> None:
         super().__init__(params)
         self._params_validation()
+        # params is normalised in place for the caller, who may share it or change
+        # it later: from here on the decoder keeps its own
+        self.params = dict(self.params)
 
         for syndrome_graph_key in self.syndrome_graph_keys:
             self.S[syndrome_graph_key] = rx.PyGraph(multigraph=False)
-- 
2.43.0


From 6a050996a51c5c9811f0402b28550d69932d04a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 15/31] fix: several topological circuits can share one circuit
 and each use cx

---
 qtcodes/circuits/circ.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index 0395f8f..84aa3b3 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -133,17 +133,33 @@ class TopologicalCircuit:
         self.creg: Dict[str, ClassicalRegister] = {}
         self.circ = treg.circ
 
+    def _free_name(self, name):
+        """
+        The name itself, or one derived from it if a register in this circuit already goes by it,
+        e.g. because several TopologicalCircuits share the circuit.
+        """
+        taken = {reg.name for reg in self.circ.qregs + self.circ.cregs}
+        free, k = name, 0
+        while free in taken:
+            k += 1
+            free = name + "_" + str(k)
+        return free
+
     def add_creg(self, size=None, name=None, bits=None, override: bool = False) -> None:
         if name in self.creg and not override:
             return
-        creg = ClassicalRegister(size=size, name=name, bits=bits)
+        creg = ClassicalRegister(
+            size=size, name=self._free_name(name), bits=bits
+        )
         self.creg[name] = creg
         self.circ.add_register(creg)
 
     def add_qreg(self, size=None, name=None, bits=None, override: bool = False) -> None:
         if name in self.qreg and not override:
             return
-        qreg = QuantumRegister(size=size, name=name, bits=bits)
+        qreg = QuantumRegister(
+            size=size, name=self._free_name(name), bits=bits
+        )
         self.qreg[name] = qreg
         self.circ.add_register(qreg)
 
-- 
2.43.0


From 472c931f7f3e97374ac7431b7dbf790a7295b799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:06 +0000
Subject: [PATCH 16/31] fix: an analysis is plotted on the axes it was given,
 not on pyplot's current ones

---
 qtcodes/tools/benchmarking.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 839fbf7..3b10693 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -245,12 +245,12 @@ class TopologicalAnalysis:
         self.data["logical_error_rates"] = data["logical_error_rates"]  # TODO
 
     def plot(self, fig=None, ax=None, log=True, per_round=False, **kwargs):
-        if fig is None:
-            fig = plt.figure(figsize=(3.5, 2.5), dpi=200)
         if ax is None:
+            if fig is None:
+                fig = plt.figure(figsize=(3.5, 2.5), dpi=200)
             ax = fig.subplots()
 
-        plt.plot(
+        ax.plot(
             np.array(self.data["physical_error_rates"]),
             np.array(self.data["logical_error_rates"])
             / (self.params["T"] if per_round else 1.0),
@@ -258,8 +258,8 @@ class TopologicalAnalysis:
             **kwargs,
         )
         if log:
-            plt.yscale("log")
-            plt.xscale("log")
+            ax.set_yscale("log")
+            ax.set_xscale("log")
 
 
 class TopologicalBatchAnalysis:
-- 
2.43.0


From f34781abfc1cbac78b896a1f1cd71ed5aee3268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:26 +0000
Subject: [PATCH 17/31] fix: decoder construction no longer limited by Python's
 recursion depth

---
 qtcodes/fitters/rotated_surface.py | 43 +++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 1e40402..0f2cb46 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -89,7 +89,7 @@ class RotatedDecoder(LatticeDecoder):
         syndrome_graph_key: str,
         edge_weight: int = 1,
     ) -> None:
-        """Recursive function to populate syndrome subgraph at time t with syndrome_graph_key X/Z.
+        """Populates syndrome subgraph at time t with syndrome_graph_key X/Z.
         The current_node is connected to neighboring nodes without revisiting a node.
 
         Args:
@@ -103,6 +103,29 @@ class RotatedDecoder(LatticeDecoder):
         Returns:
             None: function is to traverse the syndrome nodes and connect neighbors
         """
+        # depth first with an explicit stack: recursion would limit the lattice size
+        stack = [current_node]
+        while stack:
+            neighbors = self._connect_neighbors(
+                stack.pop(), t, visited_nodes, syndrome_graph_key, edge_weight
+            )
+            stack.extend(reversed(neighbors))
+
+    def _connect_neighbors(
+        self,
+        current_node: TQubit,
+        t: int,
+        visited_nodes: List[TQubit],
+        syndrome_graph_key: str,
+        edge_weight: int = 1,
+    ) -> List[TQubit]:
+        """
+        Connects current_node to its neighbors that have not been visited yet.
+        Args are those of self._populate_syndrome_graph.
+
+        Returns:
+            (List[TQubit]): the neighbors, normal ones before virtual ones
+        """
         visited_nodes.append(current_node)
         neighbors = []
         i = current_node[1]  # syndrome node x coordinate
@@ -125,10 +148,6 @@ class RotatedDecoder(LatticeDecoder):
             and (-1, n[0], n[1]) not in visited_nodes
         ]  # virtual node neighbors of current_node not already visited
 
-        # no neighbors to add edges
-        if not normal_neighbors and not virtual_neighbors:
-            return
-
         # add normal/non-virtual neighbors
         for target in normal_neighbors:
             target_node = (
@@ -164,17 +183,9 @@ class RotatedDecoder(LatticeDecoder):
                 edge_weight,
             )  # add edge between current_node and virtual target_node
 
-        # recursively traverse normal neighbors
-        for target in normal_neighbors:
-            self._populate_syndrome_graph(
-                (t,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
-
-        # recursively traverse virtual neighbors
-        for target in virtual_neighbors:
-            self._populate_syndrome_graph(
-                (-1,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
+        return [(t,) + target for target in normal_neighbors] + [
+            (-1,) + target for target in virtual_neighbors
+        ]
 
     def _valid_syndrome(self, node: TQubitLoc, syndrome_graph_key: str) -> bool:
         """
-- 
2.43.0


From 7baba734f6a3e1251ac1968b974244472568b507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:21 +0000
Subject: [PATCH 18/31] fix: building half a round no longer fails or builds
 the other half on 1-D lattices

---
 qtcodes/circuits/base.py            | 5 +++--
 qtcodes/circuits/rotated_surface.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index 5f3e30f..d3d2a77 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -146,8 +146,9 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
                 List of stabilizers for each plaquette.
                 This is optional, and will be used instead of self.stabilizers if provided.
         """
-        qubit_indices = qubit_indices if qubit_indices else self.qubit_indices
-        stabilizers = stabilizers if stabilizers else self.stabilizers
+        # an empty list means no plaquettes: e.g. half a round of a 1D lattice
+        qubit_indices = self.qubit_indices if qubit_indices is None else qubit_indices
+        stabilizers = self.stabilizers if stabilizers is None else stabilizers
 
         for i, stabilizer_cls in enumerate(stabilizers):
             stabilizer = stabilizer_cls(self.circ, qubit_indices[i])
diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 7231742..b4ef502 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -213,14 +213,14 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         """
         Build/entangle just the X Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[:num_x], self.stabilizers[:num_x])
 
     def entangle_z(self):
         """
         Build/entangle just the Z Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[num_x:], self.stabilizers[num_x:])
 
     def extract_final_stabilizer_and_logical_readout_x(
-- 
2.43.0


From 7cf2254dd896f252de8b66bd81307b6f7d9d00df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:23 +0000
Subject: [PATCH 19/31] fix: drawings of several rounds honour show=False and
 return the figure

---
 qtcodes/fitters/lattice_decoder.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 9b92c1b..401f43f 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -443,8 +443,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             (figure, axes): A matplotlib Figure and Axes object
         """
         if self.params["T"] > 1:
-            self.draw3D(graph)
-            return
+            return self.draw3D(graph, show=show)
 
         node_count = len(graph.nodes())
         scale = 5 / (math.sqrt(node_count) if node_count > 0 else 5)
@@ -475,15 +474,21 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             plt.close(fig)
         return (fig, ax)
 
-    def draw3D(self, graph: rx.PyGraph, angle: Optional[List[float]] = None) -> None:
+    def draw3D(
+        self,
+        graph: rx.PyGraph,
+        angle: Optional[List[float]] = None,
+        show: Optional[bool] = True,
+    ) -> Tuple[figure.Figure, axes.Axes]:
         """Plots a graph with edge labels in 3D.
 
         Args:
             G (rx.PyGraph): Graph to be plotted in 3D.
             angle ([float, float]): Initial 3D angle view. Defaults to [-116, 22]
+            show (bool): whether to display the plot automatically. Defaults to True.
 
         Returns:
-            None: Plot is displayed in plt.show()
+            (figure, axes): A matplotlib Figure and Axes object
         """
 
         angle = [-116, 22] if not angle else angle
@@ -558,4 +563,8 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
         ax.yaxis.pane.set_edgecolor("w")
         ax.zaxis.pane.set_edgecolor("w")
 
-        plt.show()
+        if show:
+            plt.show()
+        else:
+            plt.close(fig)
+        return (fig, ax)
-- 
2.43.0


From 97ad3819417432c6c89a3d05ebd2e3202ce19ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:57 +0000
Subject: [PATCH 20/31] fix: load results from directories whose name contains
 wildcard characters

---
 qtcodes/tools/benchmarking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 3b10693..662787e 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -265,7 +265,7 @@ class TopologicalAnalysis:
 class TopologicalBatchAnalysis:
     def __init__(self, dirname: str):
         self.dirname = dirname
-        self.filenames = glob.glob(self.dirname + "*.npz")
+        self.filenames = glob.glob(glob.escape(self.dirname) + "*.npz")
         self.analyses = []
         for filename in self.filenames:
             self.analyses.append(TopologicalAnalysis(filename))
-- 
2.43.0


From 51ab0ebd85c38d44adebd2ed35a36fb71ce323a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:36 +0000
Subject: [PATCH 21/31] fix: a logical qubit refused for a register name
 already taken must not leave its other registers behind

---
 qtcodes/circuits/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index d3d2a77..ffc280f 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -91,6 +91,8 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
 
         # add quantum/classical registers to circuit
         registers = list(self.qregisters.values()) + list(self.cregisters.values())
+        # try it aside first: a name already taken must not leave the others added
+        self.circ.copy_empty_like().add_register(*registers)
         self.circ.add_register(*registers)
 
         self.qubit_indices, self.stabilizers = self._gen_qubit_indices_and_stabilizers()
-- 
2.43.0


From cd76537f46df6bde26937def2ee75a0479c31e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:58 +0000
Subject: [PATCH 22/31] fix: a round or readout refused for a register name
 already taken must not count

---
 qtcodes/circuits/rotated_surface.py |  6 +++---
 qtcodes/circuits/xxzz.py            | 20 ++++++++++++--------
 qtcodes/circuits/xzzx.py            | 21 ++++++++++++---------
 3 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index b4ef502..9e88558 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -498,15 +498,15 @@ class RotatedQubit(TopologicalQubit[TQubit], metaclass=ABCMeta):
         Run a single round of stabilization (entangle and measure).
         """
         num_syn = self.lattice.params["num_syn"]
-        self.lattice.params["T"] += 1
         syndrome_readouts = ClassicalRegister(
             num_syn[self.lattice.SYNX] + num_syn[self.lattice.SYNZ],
-            name=self.name + "_c{}".format(self.lattice.params["T"]),
+            name=self.name + "_c{}".format(self.lattice.params["T"] + 1),
         )
+        self.circ.add_register(syndrome_readouts)
+        self.lattice.params["T"] += 1  # only now: the name may be taken
         self.lattice.cregisters[
             "syndrome{}".format(self.lattice.params["T"])
         ] = syndrome_readouts
-        self.circ.add_register(syndrome_readouts)
 
         self.lattice.entangle()
 
diff --git a/qtcodes/circuits/xxzz.py b/qtcodes/circuits/xxzz.py
index c6fad18..de71801 100644
--- a/qtcodes/circuits/xxzz.py
+++ b/qtcodes/circuits/xxzz.py
@@ -152,11 +152,11 @@ class _XXZZLattice(_RotatedLattice):
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-            self.params["num_readout"] += 1
-            creg_name = self.name + "_readout_" + str(self.params["num_readout"])
+            creg_name = self.name + "_readout_" + str(self.params["num_readout"] + 1)
             readout = ClassicalRegister(1, name=creg_name)
 
             self.circ.add_register(readout)
+            self.params["num_readout"] += 1  # only now: the name may be taken
 
             self.cregisters[creg_name] = readout
             readout_creg = self.cregisters[creg_name]
@@ -177,11 +177,11 @@ class _XXZZLattice(_RotatedLattice):
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-            self.params["num_readout"] += 1
-            creg_name = self.name + "_readout_" + str(self.params["num_readout"])
+            creg_name = self.name + "_readout_" + str(self.params["num_readout"] + 1)
             readout = ClassicalRegister(1, name=creg_name)
 
             self.circ.add_register(readout)
+            self.params["num_readout"] += 1  # only now: the name may be taken
 
             self.cregisters[creg_name] = readout
             readout_creg = self.cregisters[creg_name]
@@ -190,13 +190,15 @@ class _XXZZLattice(_RotatedLattice):
         self.circ.barrier()
 
     def lattice_readout_x(self) -> None:
-        self.params["num_lattice_readout"] += 1
         creg_name = (
-            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"])
+            self.name
+            + "_lattice_readout_"
+            + str(self.params["num_lattice_readout"] + 1)
         )
         readout = ClassicalRegister(self.params["num_data"], name=creg_name,)
 
         self.circ.add_register(readout)
+        self.params["num_lattice_readout"] += 1  # only now: the name may be taken
         self.cregisters[creg_name] = readout
 
         # H|+> = |0>, H|-> = |1>
@@ -205,13 +207,15 @@ class _XXZZLattice(_RotatedLattice):
         self.circ.barrier()
 
     def lattice_readout_z(self) -> None:
-        self.params["num_lattice_readout"] += 1
         creg_name = (
-            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"])
+            self.name
+            + "_lattice_readout_"
+            + str(self.params["num_lattice_readout"] + 1)
         )
         readout = ClassicalRegister(self.params["num_data"], name=creg_name,)
 
         self.circ.add_register(readout)
+        self.params["num_lattice_readout"] += 1  # only now: the name may be taken
 
         self.cregisters[creg_name] = readout
 
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index e126b9b..6e1d643 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -199,11 +199,11 @@ class _XZZXLattice(_RotatedLattice):
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-            self.params["num_readout"] += 1
-            creg_name = self.name + "_readout_" + str(self.params["num_readout"])
+            creg_name = self.name + "_readout_" + str(self.params["num_readout"] + 1)
             readout = ClassicalRegister(1, name=creg_name)
 
             self.circ.add_register(readout)
+            self.params["num_readout"] += 1  # only now: the name may be taken
 
             self.cregisters[creg_name] = readout
             readout_creg = self.cregisters[creg_name]
@@ -237,11 +237,11 @@ class _XZZXLattice(_RotatedLattice):
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-            self.params["num_readout"] += 1
-            creg_name = self.name + "_readout_" + str(self.params["num_readout"])
+            creg_name = self.name + "_readout_" + str(self.params["num_readout"] + 1)
             readout = ClassicalRegister(1, name=creg_name)
 
             self.circ.add_register(readout)
+            self.params["num_readout"] += 1  # only now: the name may be taken
 
             self.cregisters[creg_name] = readout
             readout_creg = self.cregisters[creg_name]
@@ -250,14 +250,15 @@ class _XZZXLattice(_RotatedLattice):
         self.circ.barrier()
 
     def lattice_readout_x(self) -> None:
-        self.params["num_lattice_readout"] += 1
-
         creg_name = (
-            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"])
+            self.name
+            + "_lattice_readout_"
+            + str(self.params["num_lattice_readout"] + 1)
         )
         readout = ClassicalRegister(self.params["num_data"], name=creg_name)
 
         self.circ.add_register(readout)
+        self.params["num_lattice_readout"] += 1  # only now: the name may be taken
         self.cregisters[creg_name] = readout
 
         # H|+> = |0>, H|-> = |1>
@@ -268,13 +269,15 @@ class _XZZXLattice(_RotatedLattice):
         self.circ.barrier()
 
     def lattice_readout_z(self) -> None:
-        self.params["num_lattice_readout"] += 1
         creg_name = (
-            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"])
+            self.name
+            + "_lattice_readout_"
+            + str(self.params["num_lattice_readout"] + 1)
         )
         readout = ClassicalRegister(self.params["num_data"], name=creg_name)
 
         self.circ.add_register(readout)
+        self.params["num_lattice_readout"] += 1  # only now: the name may be taken
         self.cregisters[creg_name] = readout
 
         # H|+> = |0>, H|-> = |1>
-- 
2.43.0


From abca246e0305e2e6ee5aa95763d0dedc993b90ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:11 +0000
Subject: [PATCH 23/31] fix: a refused condition or readout register must not
 leave half of the gates behind

---
 qtcodes/circuits/base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index ffc280f..c7b1344 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -363,12 +363,20 @@ class TopologicalQubit(Generic[TQubit], metaclass=ABCMeta):
         """
         Classical conditioned logical X operator on the topological qubit.
         """
+        # try it aside first: a refused condition must not leave a gate without one
+        self.circ.copy_empty_like().x(self.lattice.qregisters["data"]).c_if(
+            classical, val
+        )
         self.lattice.x_c_if(classical, val)
 
     def z_c_if(self, classical: ClassicalRegister, val: int) -> None:
         """
         Classical conditioned logical Z operator on the topological qubit.
         """
+        # try it aside first: a refused condition must not leave a gate without one
+        self.circ.copy_empty_like().x(self.lattice.qregisters["data"]).c_if(
+            classical, val
+        )
         self.lattice.z_c_if(classical, val)
 
     def cx(self, control: Optional[Qubit] = None, target: Optional[Qubit] = None):
@@ -393,12 +401,22 @@ class TopologicalQubit(Generic[TQubit], metaclass=ABCMeta):
         """
         Convenience method to read-out the logical-X projection.
         """
+        if readout_creg:
+            # try it aside first: a refused register must not leave half a readout
+            self.circ.copy_empty_like().measure(
+                self.lattice.qregisters["ancilla"], readout_creg
+            )
         self.lattice.readout_x(readout_creg=readout_creg)
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         """
         Convenience method to read-out the logical-Z projection.
         """
+        if readout_creg:
+            # try it aside first: a refused register must not leave half a readout
+            self.circ.copy_empty_like().measure(
+                self.lattice.qregisters["ancilla"], readout_creg
+            )
         self.lattice.readout_z(readout_creg=readout_creg)
 
     def lattice_readout_x(self) -> None:
-- 
2.43.0


From 9307dd9b87bb14f5edaf5e73efda1238f70ccde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:11 +0000
Subject: [PATCH 24/31] fix: a logical CNOT with a qubit of another circuit
 must be refused before anything is added

---
 qtcodes/circuits/circ.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index 84aa3b3..ce3de6a 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -294,6 +294,8 @@ class TopologicalCircuit:
         # get qubits
         control = self._get_index(control)
         target = self._get_index(target)
+        if control.circ is not self.circ or target.circ is not self.circ:
+            raise ValueError("Please choose control and target from this circuit.")
         if "ancilla" not in self.treg.tqubits:
             self.treg.add_tqubit("ancilla", ancilla_ctype, ancilla_params)
         ancilla = cast(TopologicalQubit, list(self.treg["ancilla"].values())[-1])
-- 
2.43.0


From 9461b21a3c92e1ca21fca914ffac2eafb3d291e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:59 +0000
Subject: [PATCH 25/31] fix: the logical CNOT must not share registers the
 caller added by the names m1, m2, m3 or cnot_readout

---
 qtcodes/circuits/circ.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index ce3de6a..0d5cbdd 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -131,6 +131,8 @@ class TopologicalCircuit:
         self.treg = treg
         self.qreg: Dict[str, QuantumRegister] = {}
         self.creg: Dict[str, ClassicalRegister] = {}
+        # those of the logical CNOT, apart from the ones the caller adds by name
+        self._cx_reg: Dict[str, Any] = {}
         self.circ = treg.circ
 
     def _free_name(self, name):
@@ -163,6 +165,12 @@ class TopologicalCircuit:
         self.qreg[name] = qreg
         self.circ.add_register(qreg)
 
+    def _add_cx_reg(self, register_type, name) -> None:
+        if name not in self._cx_reg:
+            register = register_type(1, name=self._free_name(name))
+            self.circ.add_register(register)
+            self._cx_reg[name] = register
+
     def _get_index(self, tqubit: Union[TopologicalQubit, int]) -> TopologicalQubit:
         """
         Takes in either a TopologicalQubit or an int, and returns a TopologicalQubit.
@@ -301,23 +309,22 @@ class TopologicalCircuit:
         ancilla = cast(TopologicalQubit, list(self.treg["ancilla"].values())[-1])
 
         # prepare bits
-        self.add_creg(1, "m1")
-        self.add_creg(1, "m2")
-        self.add_creg(1, "m3")
+        for name in ["m1", "m2", "m3"]:
+            self._add_cx_reg(ClassicalRegister, name)
 
         # prepare ancilla
         ancilla.reset_x()
 
         # Z (control) x Z (ancilla)
-        self.add_qreg(1, "cnot_readout")
+        self._add_cx_reg(QuantumRegister, "cnot_readout")
 
-        readout = self.qreg["cnot_readout"][0]
+        readout = self._cx_reg["cnot_readout"][0]
 
         # Z x Z
         self.circ.reset(readout)
         control.cx(target=readout)
         ancilla.cx(target=readout)
-        self.circ.measure(readout, self.creg["m1"][0])
+        self.circ.measure(readout, self._cx_reg["m1"][0])
 
         # X x X
         self.circ.reset(readout)
@@ -325,15 +332,15 @@ class TopologicalCircuit:
         target.cx(control=readout)
         ancilla.cx(control=readout)
         self.circ.h(readout)
-        self.circ.measure(readout, self.creg["m2"][0])
+        self.circ.measure(readout, self._cx_reg["m2"][0])
 
         # Z
-        ancilla.readout_z(readout_creg=self.creg["m3"])
+        ancilla.readout_z(readout_creg=self._cx_reg["m3"])
 
         # classical conditioned
-        control.z_c_if(self.creg["m2"], 1)
-        target.x_c_if(self.creg["m1"], 1)
-        target.x_c_if(self.creg["m3"], 1)
+        control.z_c_if(self._cx_reg["m2"], 1)
+        target.x_c_if(self._cx_reg["m1"], 1)
+        target.x_c_if(self._cx_reg["m3"], 1)
 
     def measure_x(
         self,
-- 
2.43.0


From 737fd0ae281cd51d1831f842436f3c2ba89d3478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:25 +0000
Subject: [PATCH 26/31] fix: refused calibration results must leave the look up
 table as it was

---
 qtcodes/fitters/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index a80b514..33eaebb 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -151,10 +151,11 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
                 key (str): readout_string
                 val (int): counts
         """
-        self.look_up_table[logical_readout_type][logical_qubit_value] = dict(results)
+        # added up first: refused results must not replace half of the old ones
         self.look_up_table_shots[logical_readout_type][logical_qubit_value] = sum(
             results.values()
         )
+        self.look_up_table[logical_readout_type][logical_qubit_value] = dict(results)
 
     def _run_look_up(
         self,
-- 
2.43.0


From 221de4a3274abe43dcf8ff7ba31daa46b945eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:26 +0000
Subject: [PATCH 27/31] fix: an analysis whose loading fails must not mix two
 results

---
 qtcodes/tools/benchmarking.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 662787e..1edc081 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -238,11 +238,16 @@ class TopologicalAnalysis:
         self.params: Dict[str, int] = {}
 
     def load_data(self):
-        data = np.load(self.filename)
-        self.params["d"] = (int(data["d"][0]), (data["d"][1]))
-        self.params["T"] = int(data["T"])
-        self.data["physical_error_rates"] = data["physical_error_rates"]  # TODO
-        self.data["logical_error_rates"] = data["logical_error_rates"]  # TODO
+        # read everything first: a load that fails must not mix two results
+        with np.load(self.filename) as data:
+            d = (int(data["d"][0]), (data["d"][1]))
+            T = int(data["T"])
+            physical_error_rates = data["physical_error_rates"]  # TODO
+            logical_error_rates = data["logical_error_rates"]  # TODO
+        self.params["d"] = d
+        self.params["T"] = T
+        self.data["physical_error_rates"] = physical_error_rates
+        self.data["logical_error_rates"] = logical_error_rates
 
     def plot(self, fig=None, ax=None, log=True, per_round=False, **kwargs):
         if ax is None:
-- 
2.43.0


From 1b8e5cbabf30911e28a5c9c492d9f197ae31c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:14 +0000
Subject: [PATCH 28/31] fix: refuse a CNOT with the logical qubit's own data
 qubit before half of it is added

---
 qtcodes/circuits/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index c7b1344..ecdb66a 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -395,6 +395,10 @@ class TopologicalQubit(Generic[TQubit], metaclass=ABCMeta):
         """
         if not (bool(control) ^ bool(target)):
             raise ValueError("Please specify exactly one of source or target")
+        # try it aside first: a qubit of this very lattice must not leave half a gate
+        self.circ.copy_empty_like().cx(
+            self.lattice.qregisters["data"], control or target
+        )
         self.lattice.cx(control, target)
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
-- 
2.43.0


From e621ff463bd6d61f5ec4e9f3c94726bd11af8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:14 +0000
Subject: [PATCH 29/31] fix: refuse a logical CNOT of a qubit with itself or
 with the helper

---
 qtcodes/circuits/circ.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index 0d5cbdd..7650a75 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -304,9 +304,13 @@ class TopologicalCircuit:
         target = self._get_index(target)
         if control.circ is not self.circ or target.circ is not self.circ:
             raise ValueError("Please choose control and target from this circuit.")
+        if control is target:
+            raise ValueError("Please choose a target other than the control.")
         if "ancilla" not in self.treg.tqubits:
             self.treg.add_tqubit("ancilla", ancilla_ctype, ancilla_params)
         ancilla = cast(TopologicalQubit, list(self.treg["ancilla"].values())[-1])
+        if ancilla is control or ancilla is target:
+            raise ValueError("Please choose control and target other than the ancilla.")
 
         # prepare bits
         for name in ["m1", "m2", "m3"]:
-- 
2.43.0


From b3ff695249dec2cf8d0b7d9f85b7bc89b977d934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:15 +0000
Subject: [PATCH 30/31] fix: saving a result follows a results file that is a
 link

---
 qtcodes/tools/benchmarking.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 1edc081..ee48178 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -219,7 +219,9 @@ class TopologicalBenchmark:
         indxs = np.argsort(physical_error_rates)
         # write next to the results file and swap it in, so that a failure
         # half way never costs the results saved so far
-        tmp_filename = self.filename + ".tmp"
+        # (where it really is: it may be a link to a file kept elsewhere)
+        filename = os.path.realpath(self.filename)
+        tmp_filename = filename + ".tmp"
         with open(tmp_filename, "wb") as tmp_file:
             np.savez(
                 tmp_file,
@@ -228,7 +230,7 @@ class TopologicalBenchmark:
                 physical_error_rates=physical_error_rates[indxs],
                 logical_error_rates=logical_error_rates[indxs],
             )
-        os.replace(tmp_filename, self.filename)
+        os.replace(tmp_filename, filename)
 
 
 class TopologicalAnalysis:
-- 
2.43.0


From dd28a745ddf51509fa06fa10ec6e44252f628239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:53 +0000
Subject: [PATCH 31/31] fix: saving a result keeps the permissions of the
 results file

---
 qtcodes/tools/benchmarking.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index ee48178..12c42b7 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -5,6 +5,7 @@ benchmarking class for qtcodes
 
 import glob
 import os
+import shutil
 
 
 import numpy as np
@@ -230,6 +231,9 @@ class TopologicalBenchmark:
                 physical_error_rates=physical_error_rates[indxs],
                 logical_error_rates=logical_error_rates[indxs],
             )
+        if os.path.exists(filename):
+            # whoever may read the results so far may read them afterwards
+            shutil.copymode(filename, tmp_filename)
         os.replace(tmp_filename, filename)
 
 
-- 
2.43.0

