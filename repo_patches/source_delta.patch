From 4fedeffd9edf8d839f0aebcfe3a546e3edb95d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 01/26] fix: give every lattice its own copy of the params

The lattice stores its round/readout counters in params. Sharing the caller's
dict let two qubits (e.g. the control and the default ancilla of a logical CNOT)
reset each other's counters, so that the next stabilize() failed with a
duplicate register name.
---
 qtcodes/circuits/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index b6e8cec..f940303 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -79,7 +79,7 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
 
         self.name = name
         self.circ = circ
-        self.params: Dict[str, Any] = params
+        self.params: Dict[str, Any] = dict(params)  # never write to the caller's dict
         self._params_validate_and_generate()
 
         self.qregisters: Dict[str, QuantumRegister] = {}  # quantum
-- 
2.43.0


From a48b9e3a807e80fe089eb7a6db43b5ce75e23774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 02/26] fix: logical cx onto a target no longer dephases the
 logical qubit

cx(target=...) copied the logical Z parity into the ancilla and left it there,
entangled with the data qubits. Once the ancilla was reset or reused this acted
as a logical Z measurement, so CNOTs (physical and TopologicalCircuit.cx)
destroyed superpositions.
---
 qtcodes/circuits/xxzz.py |  9 +++++----
 qtcodes/circuits/xzzx.py | 13 +++++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/qtcodes/circuits/xxzz.py b/qtcodes/circuits/xxzz.py
index 189921f..70049a9 100644
--- a/qtcodes/circuits/xxzz.py
+++ b/qtcodes/circuits/xxzz.py
@@ -132,10 +132,11 @@ class _XXZZLattice(_RotatedLattice):
                 self.circ.cx(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            # TODO: we may not want to read into the ancilla,
-            # let's try to eliminate this intermediate method,
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Directly from the top-most row: going through the ancilla would
+            # leave it entangled with (and so dephase) the logical qubit.
+            for i in range(self.params["d"][self.W]):
+                self.circ.cx(self.qregisters["data"][i], target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 64ce8d5..1242ecc 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -126,8 +126,17 @@ class _XZZXLattice(_RotatedLattice):
                     self.circ.cz(control, self.qregisters["data"][i])
             self.circ.barrier()
         elif target:
-            self._readout_z_into_ancilla()
-            self.circ.cx(self.qregisters["ancilla"], target)
+            # Directly from the top-most row: going through the ancilla would
+            # leave it entangled with (and so dephase) the logical qubit.
+            for i in range(self.params["d"][self.W]):
+                data = self.qregisters["data"][i]
+                if i % 2 == 0:
+                    self.circ.h(data)
+                    self.circ.cx(data, target)
+                    self.circ.h(data)
+                else:
+                    self.circ.cx(data, target)
+            self.circ.barrier()
 
     def _readout_x_into_ancilla(self) -> None:
         """
-- 
2.43.0


From 2d1fe6094856b0a253af5f2812866b9ed69a61b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 03/26] fix: count all boundary chains for the syndrome node
 with index 0

'if source:' treated graph index 0 as missing, so the degeneracy between that
node and the boundary was not summed over the equally near virtual nodes.
---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 9838c3b..4a7dbe5 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -198,7 +198,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
             target = b_indx  # virtual
             source = a_indx
 
-        if source:
+        if source is not None:
             shortest_distance = shortest_distance_mat[source][target]
             virtual_nodes = self.virtual[syndrome_graph_key]
             total_deg = 0
-- 
2.43.0


From c01ed9598d69e5747faeead700956a7b57e2dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 04/26] fix: do not append virtual nodes to the caller's
 syndrome list

_make_error_graph extended the list it was given in place, so correct_readout
modified the syndromes passed by the user.
---
 qtcodes/fitters/lattice_decoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/fitters/lattice_decoder.py b/qtcodes/fitters/lattice_decoder.py
index 4a7dbe5..03156a2 100644
--- a/qtcodes/fitters/lattice_decoder.py
+++ b/qtcodes/fitters/lattice_decoder.py
@@ -104,7 +104,7 @@ class LatticeDecoder(TopologicalDecoder[TQubit], metaclass=ABCMeta):
 
         # need to ensure there are an even number of nodes
         make_even = len(nodes) % 2 != 0
-        nodes += self.virtual[syndrome_graph_key]
+        nodes = nodes + self.virtual[syndrome_graph_key]  # leave the caller's list alone
 
         # add all nodes to error_graph
         for node in nodes:
-- 
2.43.0


From 94ac29050774334d50a09e3e73f64b4dd69e82dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 05/26] fix: entangle_x/entangle_z on lattices with only one
 syndrome type

Without X syndromes both raised KeyError; without Z syndromes entangle_z passed
an empty list, which entangle() took for 'everything'.
---
 qtcodes/circuits/base.py            | 4 ++--
 qtcodes/circuits/rotated_surface.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index f940303..6960bf5 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -145,8 +145,8 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
                 List of stabilizers for each plaquette.
                 This is optional, and will be used instead of self.stabilizers if provided.
         """
-        qubit_indices = qubit_indices if qubit_indices else self.qubit_indices
-        stabilizers = stabilizers if stabilizers else self.stabilizers
+        qubit_indices = self.qubit_indices if qubit_indices is None else qubit_indices
+        stabilizers = self.stabilizers if stabilizers is None else stabilizers
 
         for i, stabilizer_cls in enumerate(stabilizers):
             stabilizer = stabilizer_cls(self.circ, qubit_indices[i])
diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index d5af3f5..2899970 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -213,14 +213,14 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         """
         Build/entangle just the X Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[:num_x], self.stabilizers[:num_x])
 
     def entangle_z(self):
         """
         Build/entangle just the Z Syndrome circuit.
         """
-        num_x = len(self.qregisters["mx"])
+        num_x = self.params["num_syn"][self.SYNX]
         self.entangle(self.qubit_indices[num_x:], self.stabilizers[num_x:])
 
     def extract_final_stabilizer_and_logical_readout_x(
-- 
2.43.0


From 9c1e972fb976ae01941134aa3961a7c772552e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 06/26] fix: reject negative lattice dimensions with
 LatticeError

Negative odd numbers passed the parity check and failed later with unrelated
errors, or (decoder, d=-1) were accepted.
---
 qtcodes/circuits/rotated_surface.py | 2 +-
 qtcodes/fitters/rotated_surface.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 2899970..fea06ee 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -74,7 +74,7 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         # validation
         dh = self.params["d"][self.H]
         dw = self.params["d"][self.W]
-        if dh % 2 != 1 or dw % 2 != 1:
+        if dh % 2 != 1 or dw % 2 != 1 or dh < 1 or dw < 1:
             raise LatticeError("Surface code distance must be odd in all dimensions!")
 
         # calculated params
diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 1e40402..cbd0154 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -42,9 +42,9 @@ class RotatedDecoder(LatticeDecoder):
         dh = self.params["d"][constants.DH]
         dw = self.params["d"][constants.DW]
 
-        if dh % 2 != 1:
+        if dh % 2 != 1 or dh < 1:
             raise LatticeError("Surface code height must be odd!")
-        if dw % 2 != 1:
+        if dw % 2 != 1 or dw < 1:
             raise LatticeError("Surface code width must be odd!")
 
     def _make_syndrome_graph(self) -> None:
-- 
2.43.0


From d76b6372a60fb6fb29ff7df6fb85febe8bc97cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:39 +0000
Subject: [PATCH 07/26] fix: failing add_tqubit no longer leaves an empty
 sub-register behind

A CNOT with invalid ancilla params left an empty 'ancilla' sub-register, after
which every further CNOT failed with IndexError.
---
 qtcodes/circuits/circ.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index dfe2665..64d6915 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -90,11 +90,12 @@ class TopologicalRegister:
             params (Dict[str, int]):
                 Specifies the params for the Tqubit being added
         """
+        tqubit = str2qtype[ctype](
+            params, name=self.name + "_" + str(self.n), circ=self.circ
+        )  # may raise, so do this before touching self.tqubits
         if sub_register not in self.tqubits:
             self.tqubits[sub_register] = {}
-        self.tqubits[sub_register][self.n] = str2qtype[ctype](
-            params, name=self.name + "_" + str(self.n), circ=self.circ
-        )
+        self.tqubits[sub_register][self.n] = tqubit
         self.params.append(params)
         self.n += 1
 
-- 
2.43.0


From 8456554764115e3da46b10b2d89f7512ad11c556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 08/26] fix: add_tqubits validates all params before adding any
 TQubit

Invalid params for a later TQubit raised after the earlier ones had already been
added to the register and the circuit.
---
 qtcodes/circuits/circ.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index 64d6915..0efa0fc 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -77,6 +77,9 @@ class TopologicalRegister:
                     "Please choose a Topological Qubit type from: "
                     + str(list(str2qtype.keys()))
                 )
+        for i in range(len(ctypes)):
+            # raises on invalid params, before any TQubit is added to the shared circuit
+            str2qtype[ctypes[i]](dict(params[i] or {}))
         for i in range(len(ctypes)):
             self.add_tqubit(sub_register, ctypes[i], params[i])
 
-- 
2.43.0


From 97684f5bfdb3c0c1be61916ce2a71b4335b10df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 09/26] fix: append_data never loses points that were already
 saved

The file was overwritten in place, so a crash or failed write while saving
destroyed all earlier points; and any error while reading it (bare except) was
taken for 'no file yet', after which it was overwritten with the new point only.
---
 qtcodes/tools/benchmarking.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 7e908f9..2333abb 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -4,6 +4,7 @@ benchmarking class for qtcodes
 """
 
 import glob
+import os
 
 
 import numpy as np
@@ -197,11 +198,11 @@ class TopologicalBenchmark:
         return logical_error_rate_value
 
     def append_data(self, physical_error_rate: float, logical_error_rate: float):
-        try:
-            data = np.load(self.filename)
-            physical_error_rates = data["physical_error_rates"]
-            logical_error_rates = data["logical_error_rates"]
-        except:
+        if os.path.exists(self.filename):
+            with np.load(self.filename) as data:
+                physical_error_rates = data["physical_error_rates"]
+                logical_error_rates = data["logical_error_rates"]
+        else:
             physical_error_rates = np.array([])
             logical_error_rates = np.array([])
 
@@ -209,13 +210,17 @@ class TopologicalBenchmark:
         logical_error_rates = np.append(logical_error_rates, logical_error_rate)
 
         indxs = np.argsort(physical_error_rates)
-        np.savez(
-            self.filename,
-            d=self.decoder.params["d"],
-            T=self.decoder.params["T"],
-            physical_error_rates=physical_error_rates[indxs],
-            logical_error_rates=logical_error_rates[indxs],
-        )
+        # Replace the file in one step: a crash or failed write never loses saved points.
+        tmp_filename = f"{self.filename}.{os.getpid()}.tmp"
+        with open(tmp_filename, "wb") as tmp_file:
+            np.savez(
+                tmp_file,
+                d=self.decoder.params["d"],
+                T=self.decoder.params["T"],
+                physical_error_rates=physical_error_rates[indxs],
+                logical_error_rates=logical_error_rates[indxs],
+            )
+        os.replace(tmp_filename, self.filename)
 
 
 class TopologicalAnalysis:
-- 
2.43.0


From 5709481fac18d7f8e88b92b556cc5045767abb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 10/26] fix: sweep_mp works and saves every point

Pool.map was given a local lambda, which cannot be pickled, so sweep_mp always
failed. With that alone repaired, the workers' unsynchronized
read-modify-write of the result file would lose points, so the parent saves.
---
 qtcodes/tools/benchmarking.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 2333abb..0817eca 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -3,6 +3,7 @@
 benchmarking class for qtcodes
 """
 
+import functools
 import glob
 import os
 
@@ -152,11 +153,16 @@ class TopologicalBenchmark:
             if physical_error_rates is not None
             else [0.04, 0.07, 0.10, 0.13, 0.16,],
         )
-        p = Pool(4)  # TODO change on HPC
-        single_lambda = lambda physical_error_rate: self.single(
-            physical_error_rate, save_data=save_data, shots=shots
-        )
-        logical_error_rates = p.map(single_lambda, physical_error_rates)
+        # The workers do not save: they would overwrite each other's points.
+        single = functools.partial(self.single, save_data=False, shots=shots)
+        logical_error_rates = []
+        with Pool(4) as p:  # TODO change on HPC
+            for physical_error_rate, logical_error_rate in zip(
+                physical_error_rates, p.imap(single, physical_error_rates)
+            ):
+                logical_error_rates.append(logical_error_rate)
+                if save_data:
+                    self.append_data(physical_error_rate, logical_error_rate)
 
         self.data["physical_error_rates"] = physical_error_rates
         self.data["logical_error_rates"] = logical_error_rates
-- 
2.43.0


From b8757072a9d85fcd2f17f365f504699a2b50be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 11/26] fix: sweep_mp no longer hangs after an earlier
 simulation in the same process

---
 qtcodes/tools/benchmarking.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index 0817eca..a8fba43 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -19,6 +19,7 @@ from typing import Dict, Optional, List
 
 plt.rcParams.update({"font.size": 14, "pdf.fonttype": 42, "ps.fonttype": 42})
 
+from concurrent.futures import ThreadPoolExecutor
 from multiprocessing import Pool
 
 
@@ -184,17 +185,20 @@ class TopologicalBenchmark:
                 Shots in the circuit simulation.
 
         """
-        results = (
-            execute(
-                self.circ,
-                Aer.get_backend("aer_simulator"),
-                noise_model=self.noise_model_func(physical_error_rate),
-                optimization_level=0,
-                shots=shots,
+        # Aer's default executor has no live threads in a worker forked after an earlier run
+        with ThreadPoolExecutor(max_workers=1) as executor:
+            results = (
+                execute(
+                    self.circ,
+                    Aer.get_backend("aer_simulator"),
+                    noise_model=self.noise_model_func(physical_error_rate),
+                    optimization_level=0,
+                    shots=shots,
+                    executor=executor,
+                )
+                .result()
+                .get_counts()
             )
-            .result()
-            .get_counts()
-        )
         logical_error_rate_value = self.logical_error_rate(
             results, err_prob=physical_error_rate
         )
-- 
2.43.0


From c246e594e08bb4542bcd128c56c10ccecf95b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 12/26] fix: XZZX logical readout on lattices that are one data
 qubit wide or high

---
 qtcodes/circuits/xzzx.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 1242ecc..89d51f9 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -155,16 +155,14 @@ class _XZZXLattice(_RotatedLattice):
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
         self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
+        for i in x_readout_indxs:
+            self.circ.cx(self.qregisters["ancilla"], self.qregisters["data"][i])
         self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        for i in z_readout_indxs:
+            self.circ.cx(self.qregisters["data"][i], self.qregisters["ancilla"])
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
@@ -195,16 +193,14 @@ class _XZZXLattice(_RotatedLattice):
         # X Readout
         x_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 0]
         self.circ.h(self.qregisters["ancilla"])
-        self.circ.cx(
-            self.qregisters["ancilla"], self.qregisters["data"][x_readout_indxs]
-        )
+        for i in x_readout_indxs:
+            self.circ.cx(self.qregisters["ancilla"], self.qregisters["data"][i])
         self.circ.h(self.qregisters["ancilla"])
 
         # Z Readout
         z_readout_indxs = [i for i in data_qubit_indxs if i % 2 == 1]
-        self.circ.cx(
-            self.qregisters["data"][z_readout_indxs], self.qregisters["ancilla"]
-        )
+        for i in z_readout_indxs:
+            self.circ.cx(self.qregisters["data"][i], self.qregisters["ancilla"])
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-- 
2.43.0


From 7296c7f775e55c1330fb6a0ae05ac8034f60aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:15 +0000
Subject: [PATCH 13/26] fix: parsing a whole-lattice readout in the X basis no
 longer raises

---
 qtcodes/circuits/rotated_surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index fea06ee..131df9b 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -276,7 +276,7 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
         # Z_{N}Z_{N-1}...Z_{0} is copied from previous syndrome measurement string
 
         logical_readout = 0
-        for idx in range(0, self.params["num_data"], self.params["d"][self.DW]):
+        for idx in range(0, self.params["num_data"], self.params["d"][self.W]):
             logical_readout = (logical_readout + readout_values[idx]) % 2
 
         return logical_readout, stabilizer_str
-- 
2.43.0


From 79335c18c29ba2acee1ec413981b850baba84b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 14/26] fix: codes with a single data qubit can be prepared,
 read out and parsed

---
 qtcodes/circuits/rotated_surface.py | 5 +++--
 qtcodes/circuits/xzzx.py            | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 131df9b..63ee15f 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -450,14 +450,15 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
             logical_readout = int(chunks[0])
             chunks = chunks[1:]
 
-        int_syndromes = [int(x, base=2) for x in chunks[::-1]]
+        # a single data qubit has no syndromes, i.e. empty chunks and masks
+        int_syndromes = [int(x or "0", base=2) for x in chunks[::-1]]
         xor_syndromes = [a ^ b for (a, b) in zip(int_syndromes, int_syndromes[1:])]
 
         num_syn = self.params["num_syn"]
         mask_z = "1" * num_syn[self.SYNZ]
         mask_x = "1" * num_syn[self.SYNX] + "0" * num_syn[self.SYNZ]
         x_syndromes = [
-            (x & int(mask_x, base=2)) >> num_syn[self.SYNZ] for x in xor_syndromes
+            (x & int(mask_x or "0", base=2)) >> num_syn[self.SYNZ] for x in xor_syndromes
         ]
         z_syndromes = []
         if mask_z != "":
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 89d51f9..51d6da9 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -54,7 +54,8 @@ class _XZZXLattice(_RotatedLattice):
 
     def reset_x(self):
         self.circ.reset(self.qregisters["data"])
-        self.circ.h(self.qregisters["data"][1::2])  # H|0> = |+>
+        for qubit in self.qregisters["data"][1::2]:  # none if there is only one data qubit
+            self.circ.h(qubit)  # H|0> = |+>
 
     def reset_z(self):
         self.circ.reset(self.qregisters["data"])
@@ -229,7 +230,8 @@ class _XZZXLattice(_RotatedLattice):
 
         # H|+> = |0>, H|-> = |1>
         # add H to measure along X for odd data qubits
-        self.circ.h(self.qregisters["data"][1::2])
+        for qubit in self.qregisters["data"][1::2]:  # none if there is only one data qubit
+            self.circ.h(qubit)
 
         self.circ.measure(self.qregisters["data"], self.cregisters[creg_name])
         self.circ.barrier()
-- 
2.43.0


From 56f00db0bc595bc438dc5ca52c17237beaf54574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 15/26] fix: no syndrome graph nodes for a syndrome type the
 lattice does not have

---
 qtcodes/fitters/rotated_surface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index cbd0154..d215f42 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -57,6 +57,10 @@ class RotatedDecoder(LatticeDecoder):
         """
         start_nodes = {"Z": (0.5, 0.5), "X": (0.5, 1.5)}
         for syndrome_graph_key in self.syndrome_graph_keys:
+            if not self._valid_syndrome(
+                start_nodes[syndrome_graph_key], syndrome_graph_key
+            ):
+                continue  # this lattice has no syndromes of this type
             # subgraphs for each time step
             for t in range(0, self.params["T"]):
                 start_node = start_nodes[syndrome_graph_key]
-- 
2.43.0


From f6a00bcb0de5dad6db88d23eea0359f2b173846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:44 +0000
Subject: [PATCH 16/26] fix: look-up tables are not altered by later edits of
 the caller's counts

---
 qtcodes/fitters/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtcodes/fitters/base.py b/qtcodes/fitters/base.py
index 242bc2e..74a05f3 100644
--- a/qtcodes/fitters/base.py
+++ b/qtcodes/fitters/base.py
@@ -151,7 +151,8 @@ class TopologicalDecoder(Generic[TQubit], metaclass=ABCMeta):
                 key (str): readout_string
                 val (int): counts
         """
-        self.look_up_table[logical_readout_type][logical_qubit_value] = results
+        # keep a copy: later edits of the caller's dict would not match the total counts
+        self.look_up_table[logical_readout_type][logical_qubit_value] = dict(results)
         self.look_up_table_shots[logical_readout_type][logical_qubit_value] = sum(
             results.values()
         )
-- 
2.43.0


From 9aa60122b62e309760f4df981f05890f3b0046cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:53 +0000
Subject: [PATCH 17/26] fix: XZZX hook errors no longer halve the distance of
 the X readout

A single auxiliary-qubit error halfway through an "mz" plaquette spread to two
data qubits along the top row, i.e. along the logical Z operator, so that two
faulty gates (of a distance 3 lattice) flipped the logical X readout unnoticed.
---
 qtcodes/circuits/xzzx.py | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 51d6da9..853668d 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -44,13 +44,49 @@ class _XZZX(_Stabilizer):
             self.circ.h(syndrome)
 
 
+class _XZZXVertical(_XZZX):
+    """
+    XZZX-syndrome measurement for the plaquettes that detect errors along the top row.
+
+    An auxiliary qubit error halfway through the measurement spreads to the last two
+    data qubits: these must not lie along the logical operator of the same kind.
+    """
+
+    def entangle(self) -> None:
+        """
+        Parity measurement on nearby data qubits.
+        Going in an "N" traversal direction.
+        """
+        syndrome = self.qubit_indices[0]
+        top_l = self.qubit_indices[1]
+        top_r = self.qubit_indices[2]
+        bot_l = self.qubit_indices[3]
+        bot_r = self.qubit_indices[4]
+
+        if top_l:  # X
+            self.circ.h(syndrome)
+            self.circ.cx(syndrome, top_l)
+            self.circ.h(syndrome)
+
+        if bot_l:  # Z
+            self.circ.cx(bot_l, syndrome)
+
+        if top_r:  # Z
+            self.circ.cx(top_r, syndrome)
+
+        if bot_r:  # X
+            self.circ.h(syndrome)
+            self.circ.cx(syndrome, bot_r)
+            self.circ.h(syndrome)
+
+
 class _XZZXLattice(_RotatedLattice):
     """
     This class contains all the lattice geometry
     specifications regarding the XZZX Rotated Surface Code.
     """
 
-    stabilizer_shortnames = {"mx": _XZZX, "mz": _XZZX}
+    stabilizer_shortnames = {"mx": _XZZX, "mz": _XZZXVertical}
 
     def reset_x(self):
         self.circ.reset(self.qregisters["data"])
-- 
2.43.0


From baee8d5f4d5abb9c8b206e646433750bbc021a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:13 +0000
Subject: [PATCH 18/26] fix: TopologicalAnalysis.plot draws on the axes it is
 given

It opened a stray figure when only ax was given and drew on pyplot's current axes,
which need not be ax (e.g. with two panels side by side).
---
 qtcodes/tools/benchmarking.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index a8fba43..c50839d 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -247,12 +247,12 @@ class TopologicalAnalysis:
         self.data["logical_error_rates"] = data["logical_error_rates"]  # TODO
 
     def plot(self, fig=None, ax=None, log=True, per_round=False, **kwargs):
-        if fig is None:
-            fig = plt.figure(figsize=(3.5, 2.5), dpi=200)
         if ax is None:
+            if fig is None:
+                fig = plt.figure(figsize=(3.5, 2.5), dpi=200)
             ax = fig.subplots()
 
-        plt.plot(
+        ax.plot(
             np.array(self.data["physical_error_rates"]),
             np.array(self.data["logical_error_rates"])
             / (self.params["T"] if per_round else 1.0),
@@ -260,8 +260,8 @@ class TopologicalAnalysis:
             **kwargs,
         )
         if log:
-            plt.yscale("log")
-            plt.xscale("log")
+            ax.set_yscale("log")
+            ax.set_xscale("log")
 
 
 class TopologicalBatchAnalysis:
-- 
2.43.0


From 0f18917d413890c3cda968af22407c9ac6af4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 19/26] fix: batch analysis finds the result files of every
 directory

A directory given without a trailing slash, or with characters special to glob in
its name, silently contained no results.
---
 qtcodes/tools/benchmarking.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtcodes/tools/benchmarking.py b/qtcodes/tools/benchmarking.py
index c50839d..d4cdab3 100644
--- a/qtcodes/tools/benchmarking.py
+++ b/qtcodes/tools/benchmarking.py
@@ -266,8 +266,8 @@ class TopologicalAnalysis:
 
 class TopologicalBatchAnalysis:
     def __init__(self, dirname: str):
-        self.dirname = dirname
-        self.filenames = glob.glob(self.dirname + "*.npz")
+        self.dirname = os.path.join(dirname, "")  # with a trailing slash, or "" for cwd
+        self.filenames = glob.glob(glob.escape(self.dirname) + "*.npz")
         self.analyses = []
         for filename in self.filenames:
             self.analyses.append(TopologicalAnalysis(filename))
-- 
2.43.0


From e5aae94771db353a9419fdab18bd0c93fb0c530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:47 +0000
Subject: [PATCH 20/26] fix: build the syndrome graph without recursion

Building the decoder of a lattice with more than about a thousand syndromes
of one kind (a 45x45 surface, a repetition code with d=1001) raised
RecursionError.
---
 qtcodes/fitters/rotated_surface.py | 35 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index d215f42..093336a 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -68,9 +68,13 @@ class RotatedDecoder(LatticeDecoder):
                 self.node_map[syndrome_graph_key][node_label] = self.S[
                     syndrome_graph_key
                 ].add_node(node_label)
-                self._populate_syndrome_graph(
-                    (t,) + start_node, t, [], syndrome_graph_key, 1
-                )
+                visited_nodes: List[TQubit] = []
+                to_visit = [node_label]
+                while to_visit:
+                    next_nodes = self._populate_syndrome_graph(
+                        to_visit.pop(), t, visited_nodes, syndrome_graph_key, 1
+                    )
+                    to_visit.extend(reversed(next_nodes))
 
             # connect physical qubits in same location across subgraphs of adjacent times
             syndrome_nodes_t0 = [
@@ -92,9 +96,11 @@ class RotatedDecoder(LatticeDecoder):
         visited_nodes: List[TQubit],
         syndrome_graph_key: str,
         edge_weight: int = 1,
-    ) -> None:
-        """Recursive function to populate syndrome subgraph at time t with syndrome_graph_key X/Z.
+    ) -> List[TQubit]:
+        """One step in populating the syndrome subgraph at time t with syndrome_graph_key X/Z.
         The current_node is connected to neighboring nodes without revisiting a node.
+        The caller keeps track of the nodes left to visit (recursing here would limit
+        the size of the lattice to Python's recursion limit).
 
         Args:
             current_node ((t, x, y)): Current syndrome node to be connected with neighboring nodes.
@@ -105,7 +111,7 @@ class RotatedDecoder(LatticeDecoder):
                                            Defaults to 1.
 
         Returns:
-            None: function is to traverse the syndrome nodes and connect neighbors
+            next_nodes ([(t, x, y),]): the connected neighbors, to be visited next, in order
         """
         visited_nodes.append(current_node)
         neighbors = []
@@ -131,7 +137,7 @@ class RotatedDecoder(LatticeDecoder):
 
         # no neighbors to add edges
         if not normal_neighbors and not virtual_neighbors:
-            return
+            return []
 
         # add normal/non-virtual neighbors
         for target in normal_neighbors:
@@ -168,17 +174,10 @@ class RotatedDecoder(LatticeDecoder):
                 edge_weight,
             )  # add edge between current_node and virtual target_node
 
-        # recursively traverse normal neighbors
-        for target in normal_neighbors:
-            self._populate_syndrome_graph(
-                (t,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
-
-        # recursively traverse virtual neighbors
-        for target in virtual_neighbors:
-            self._populate_syndrome_graph(
-                (-1,) + target, t, visited_nodes, syndrome_graph_key, 1
-            )
+        # visit normal neighbors first, then virtual neighbors
+        return [(t,) + target for target in normal_neighbors] + [
+            (-1,) + target for target in virtual_neighbors
+        ]
 
     def _valid_syndrome(self, node: TQubitLoc, syndrome_graph_key: str) -> bool:
         """
-- 
2.43.0


From c30fdf364eb136018c1c051fb0812fa29157053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:30 +0000
Subject: [PATCH 21/26] fix: add_creg/add_qreg keep no register that the
 circuit refused

---
 qtcodes/circuits/circ.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index 0efa0fc..d64a6ca 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -133,15 +133,15 @@ class TopologicalCircuit:
         if name in self.creg and not override:
             return
         creg = ClassicalRegister(size=size, name=name, bits=bits)
+        self.circ.add_register(creg)  # raises if the name is taken
         self.creg[name] = creg
-        self.circ.add_register(creg)
 
     def add_qreg(self, size=None, name=None, bits=None, override: bool = False) -> None:
         if name in self.qreg and not override:
             return
         qreg = QuantumRegister(size=size, name=name, bits=bits)
+        self.circ.add_register(qreg)  # raises if the name is taken
         self.qreg[name] = qreg
-        self.circ.add_register(qreg)
 
     def _get_index(self, tqubit: Union[TopologicalQubit, int]) -> TopologicalQubit:
         """
-- 
2.43.0


From a957dedf0dbb00ed7500d7dd727ad010c3e9a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:18 +0000
Subject: [PATCH 22/26] fix: operands that are not on the circuit are refused
 before anything is emitted

---
 qtcodes/circuits/base.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index 6960bf5..e8529cf 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -308,6 +308,13 @@ class TopologicalQubit(Generic[TQubit], metaclass=ABCMeta):
     def __str__(self) -> str:
         return self.circ.__str__()
 
+    def _scratch(self) -> QuantumCircuit:
+        """
+        An empty circuit with the same registers, to try out operands of the user:
+        a refused operand must not leave half of a logical operation on the circuit.
+        """
+        return self.circ.copy_empty_like()
+
     @abstractmethod
     def stabilize(self) -> None:
         """
@@ -359,12 +366,14 @@ class TopologicalQubit(Generic[TQubit], metaclass=ABCMeta):
         """
         Classical conditioned logical X operator on the topological qubit.
         """
+        self._scratch().x(0).c_if(classical, val)
         self.lattice.x_c_if(classical, val)
 
     def z_c_if(self, classical: ClassicalRegister, val: int) -> None:
         """
         Classical conditioned logical Z operator on the topological qubit.
         """
+        self._scratch().z(0).c_if(classical, val)
         self.lattice.z_c_if(classical, val)
 
     def cx(self, control: Optional[Qubit] = None, target: Optional[Qubit] = None):
@@ -383,18 +392,23 @@ class TopologicalQubit(Generic[TQubit], metaclass=ABCMeta):
         """
         if not (bool(control) ^ bool(target)):
             raise ValueError("Please specify exactly one of source or target")
+        self._scratch().id(control if control else target)
         self.lattice.cx(control, target)
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         """
         Convenience method to read-out the logical-X projection.
         """
+        if readout_creg:
+            self._scratch().measure(self.lattice.qregisters["ancilla"], readout_creg)
         self.lattice.readout_x(readout_creg=readout_creg)
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         """
         Convenience method to read-out the logical-Z projection.
         """
+        if readout_creg:
+            self._scratch().measure(self.lattice.qregisters["ancilla"], readout_creg)
         self.lattice.readout_z(readout_creg=readout_creg)
 
     def lattice_readout_x(self) -> None:
-- 
2.43.0


From 251d41ff51f00b442dba4f49f991b919ebf860e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:09 +0000
Subject: [PATCH 23/26] fix: logical CNOTs of several registers on one circuit
 do not share register names

---
 qtcodes/circuits/circ.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index d64a6ca..c6206b2 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -278,24 +278,25 @@ class TopologicalCircuit:
             self.treg.add_tqubit("ancilla", ancilla_ctype, ancilla_params)
         ancilla = cast(TopologicalQubit, list(self.treg["ancilla"].values())[-1])
 
-        # prepare bits
-        self.add_creg(1, "m1")
-        self.add_creg(1, "m2")
-        self.add_creg(1, "m3")
+        # prepare bits, named after the register: others may share the circuit
+        prefix = self.treg.name + "_"
+        self.add_creg(1, prefix + "m1")
+        self.add_creg(1, prefix + "m2")
+        self.add_creg(1, prefix + "m3")
 
         # prepare ancilla
         ancilla.reset_x()
 
         # Z (control) x Z (ancilla)
-        self.add_qreg(1, "cnot_readout")
+        self.add_qreg(1, prefix + "cnot_readout")
 
-        readout = self.qreg["cnot_readout"][0]
+        readout = self.qreg[prefix + "cnot_readout"][0]
 
         # Z x Z
         self.circ.reset(readout)
         control.cx(target=readout)
         ancilla.cx(target=readout)
-        self.circ.measure(readout, self.creg["m1"][0])
+        self.circ.measure(readout, self.creg[prefix + "m1"][0])
 
         # X x X
         self.circ.reset(readout)
@@ -303,15 +304,15 @@ class TopologicalCircuit:
         target.cx(control=readout)
         ancilla.cx(control=readout)
         self.circ.h(readout)
-        self.circ.measure(readout, self.creg["m2"][0])
+        self.circ.measure(readout, self.creg[prefix + "m2"][0])
 
         # Z
-        ancilla.readout_z(readout_creg=self.creg["m3"])
+        ancilla.readout_z(readout_creg=self.creg[prefix + "m3"])
 
         # classical conditioned
-        control.z_c_if(self.creg["m2"], 1)
-        target.x_c_if(self.creg["m1"], 1)
-        target.x_c_if(self.creg["m3"], 1)
+        control.z_c_if(self.creg[prefix + "m2"], 1)
+        target.x_c_if(self.creg[prefix + "m1"], 1)
+        target.x_c_if(self.creg[prefix + "m3"], 1)
 
     def measure_x(
         self,
-- 
2.43.0


From 287278f7d3d9fcb0e268c6fd1a0386754735e5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 24/26] fix: a request refused because a register name is taken
 leaves no trace

---
 qtcodes/circuits/base.py            |  1 +
 qtcodes/circuits/circ.py            |  7 +++++--
 qtcodes/circuits/rotated_surface.py |  6 +++---
 qtcodes/circuits/xxzz.py            | 24 ++++++++++++------------
 qtcodes/circuits/xzzx.py            | 25 ++++++++++++-------------
 5 files changed, 33 insertions(+), 30 deletions(-)

diff --git a/qtcodes/circuits/base.py b/qtcodes/circuits/base.py
index e8529cf..ad82d9d 100644
--- a/qtcodes/circuits/base.py
+++ b/qtcodes/circuits/base.py
@@ -90,6 +90,7 @@ class _TopologicalLattice(Generic[TQubit], metaclass=ABCMeta):
 
         # add quantum/classical registers to circuit
         registers = list(self.qregisters.values()) + list(self.cregisters.values())
+        self.circ.copy_empty_like().add_register(*registers)  # raises if a name is taken
         self.circ.add_register(*registers)
 
         self.qubit_indices, self.stabilizers = self._gen_qubit_indices_and_stabilizers()
diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index c6206b2..f2ecef8 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -77,9 +77,12 @@ class TopologicalRegister:
                     "Please choose a Topological Qubit type from: "
                     + str(list(str2qtype.keys()))
                 )
+        scratch = self.circ.copy_empty_like()
         for i in range(len(ctypes)):
-            # raises on invalid params, before any TQubit is added to the shared circuit
-            str2qtype[ctypes[i]](dict(params[i] or {}))
+            # raises on invalid params or taken register names, before any TQubit is
+            # added to the shared circuit
+            name = self.name + "_" + str(self.n + i)
+            str2qtype[ctypes[i]](dict(params[i] or {}), name=name, circ=scratch)
         for i in range(len(ctypes)):
             self.add_tqubit(sub_register, ctypes[i], params[i])
 
diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 63ee15f..9751f87 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -499,15 +499,15 @@ class RotatedQubit(TopologicalQubit[TQubit], metaclass=ABCMeta):
         Run a single round of stabilization (entangle and measure).
         """
         num_syn = self.lattice.params["num_syn"]
-        self.lattice.params["T"] += 1
         syndrome_readouts = ClassicalRegister(
             num_syn[self.lattice.SYNX] + num_syn[self.lattice.SYNZ],
-            name=self.name + "_c{}".format(self.lattice.params["T"]),
+            name=self.name + "_c{}".format(self.lattice.params["T"] + 1),
         )
+        self.circ.add_register(syndrome_readouts)  # raises if the name is taken
+        self.lattice.params["T"] += 1
         self.lattice.cregisters[
             "syndrome{}".format(self.lattice.params["T"])
         ] = syndrome_readouts
-        self.circ.add_register(syndrome_readouts)
 
         self.lattice.entangle()
 
diff --git a/qtcodes/circuits/xxzz.py b/qtcodes/circuits/xxzz.py
index 70049a9..dcae740 100644
--- a/qtcodes/circuits/xxzz.py
+++ b/qtcodes/circuits/xxzz.py
@@ -152,11 +152,11 @@ class _XXZZLattice(_RotatedLattice):
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-            self.params["num_readout"] += 1
-            creg_name = self.name + "_readout_" + str(self.params["num_readout"])
+            creg_name = self.name + "_readout_" + str(self.params["num_readout"] + 1)
             readout = ClassicalRegister(1, name=creg_name)
 
-            self.circ.add_register(readout)
+            self.circ.add_register(readout)  # raises if the name is taken
+            self.params["num_readout"] += 1
 
             self.cregisters[creg_name] = readout
             readout_creg = self.cregisters[creg_name]
@@ -177,11 +177,11 @@ class _XXZZLattice(_RotatedLattice):
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-            self.params["num_readout"] += 1
-            creg_name = self.name + "_readout_" + str(self.params["num_readout"])
+            creg_name = self.name + "_readout_" + str(self.params["num_readout"] + 1)
             readout = ClassicalRegister(1, name=creg_name)
 
-            self.circ.add_register(readout)
+            self.circ.add_register(readout)  # raises if the name is taken
+            self.params["num_readout"] += 1
 
             self.cregisters[creg_name] = readout
             readout_creg = self.cregisters[creg_name]
@@ -190,13 +190,13 @@ class _XXZZLattice(_RotatedLattice):
         self.circ.barrier()
 
     def lattice_readout_x(self) -> None:
-        self.params["num_lattice_readout"] += 1
         creg_name = (
-            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"])
+            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"] + 1)
         )
         readout = ClassicalRegister(self.params["num_data"], name=creg_name,)
 
-        self.circ.add_register(readout)
+        self.circ.add_register(readout)  # raises if the name is taken
+        self.params["num_lattice_readout"] += 1
         self.cregisters[creg_name] = readout
 
         # H|+> = |0>, H|-> = |1>
@@ -205,13 +205,13 @@ class _XXZZLattice(_RotatedLattice):
         self.circ.barrier()
 
     def lattice_readout_z(self) -> None:
-        self.params["num_lattice_readout"] += 1
         creg_name = (
-            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"])
+            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"] + 1)
         )
         readout = ClassicalRegister(self.params["num_data"], name=creg_name,)
 
-        self.circ.add_register(readout)
+        self.circ.add_register(readout)  # raises if the name is taken
+        self.params["num_lattice_readout"] += 1
 
         self.cregisters[creg_name] = readout
 
diff --git a/qtcodes/circuits/xzzx.py b/qtcodes/circuits/xzzx.py
index 853668d..8c70e61 100644
--- a/qtcodes/circuits/xzzx.py
+++ b/qtcodes/circuits/xzzx.py
@@ -203,11 +203,11 @@ class _XZZXLattice(_RotatedLattice):
 
     def readout_x(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-            self.params["num_readout"] += 1
-            creg_name = self.name + "_readout_" + str(self.params["num_readout"])
+            creg_name = self.name + "_readout_" + str(self.params["num_readout"] + 1)
             readout = ClassicalRegister(1, name=creg_name)
 
-            self.circ.add_register(readout)
+            self.circ.add_register(readout)  # raises if the name is taken
+            self.params["num_readout"] += 1
 
             self.cregisters[creg_name] = readout
             readout_creg = self.cregisters[creg_name]
@@ -241,11 +241,11 @@ class _XZZXLattice(_RotatedLattice):
 
     def readout_z(self, readout_creg: Optional[ClassicalRegister] = None) -> None:
         if not readout_creg:
-            self.params["num_readout"] += 1
-            creg_name = self.name + "_readout_" + str(self.params["num_readout"])
+            creg_name = self.name + "_readout_" + str(self.params["num_readout"] + 1)
             readout = ClassicalRegister(1, name=creg_name)
 
-            self.circ.add_register(readout)
+            self.circ.add_register(readout)  # raises if the name is taken
+            self.params["num_readout"] += 1
 
             self.cregisters[creg_name] = readout
             readout_creg = self.cregisters[creg_name]
@@ -254,14 +254,13 @@ class _XZZXLattice(_RotatedLattice):
         self.circ.barrier()
 
     def lattice_readout_x(self) -> None:
-        self.params["num_lattice_readout"] += 1
-
         creg_name = (
-            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"])
+            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"] + 1)
         )
         readout = ClassicalRegister(self.params["num_data"], name=creg_name)
 
-        self.circ.add_register(readout)
+        self.circ.add_register(readout)  # raises if the name is taken
+        self.params["num_lattice_readout"] += 1
         self.cregisters[creg_name] = readout
 
         # H|+> = |0>, H|-> = |1>
@@ -273,13 +272,13 @@ class _XZZXLattice(_RotatedLattice):
         self.circ.barrier()
 
     def lattice_readout_z(self) -> None:
-        self.params["num_lattice_readout"] += 1
         creg_name = (
-            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"])
+            self.name + "_lattice_readout_" + str(self.params["num_lattice_readout"] + 1)
         )
         readout = ClassicalRegister(self.params["num_data"], name=creg_name)
 
-        self.circ.add_register(readout)
+        self.circ.add_register(readout)  # raises if the name is taken
+        self.params["num_lattice_readout"] += 1
         self.cregisters[creg_name] = readout
 
         # H|+> = |0>, H|-> = |1>
-- 
2.43.0


From 41d89cc8d85e387d165d007f6ba67e76e57986be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 25/26] fix: a logical CNOT with an operand from elsewhere is
 refused before anything is emitted

---
 qtcodes/circuits/circ.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtcodes/circuits/circ.py b/qtcodes/circuits/circ.py
index f2ecef8..0e2fc9e 100644
--- a/qtcodes/circuits/circ.py
+++ b/qtcodes/circuits/circ.py
@@ -277,6 +277,9 @@ class TopologicalCircuit:
         # get qubits
         control = self._get_index(control)
         target = self._get_index(target)
+        for tqubit in (control, target):
+            if getattr(tqubit, "circ", None) is not self.circ:
+                raise ValueError("Please specify Topological Qubits on this circuit.")
         if "ancilla" not in self.treg.tqubits:
             self.treg.add_tqubit("ancilla", ancilla_ctype, ancilla_params)
         ancilla = cast(TopologicalQubit, list(self.treg["ancilla"].values())[-1])
-- 
2.43.0


From bddaf24b4912981e33c487a52bae2eb5911f4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:27 +0000
Subject: [PATCH 26/26] fix: refuse fractional lattice sizes and tuples without
 exactly two sides with LatticeError

---
 qtcodes/circuits/repetition.py      |  4 ++--
 qtcodes/circuits/rotated_surface.py | 10 ++++++++--
 qtcodes/fitters/rotated_surface.py  |  6 ++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/qtcodes/circuits/repetition.py b/qtcodes/circuits/repetition.py
index 0351952..77f119b 100644
--- a/qtcodes/circuits/repetition.py
+++ b/qtcodes/circuits/repetition.py
@@ -40,13 +40,13 @@ class RepetitionQubit(XXZZQubit):
                 params["d"] = (1, 3)
             else:
                 params["d"] = (3, 1)
-        elif isinstance(params["d"], Number):
+        elif isinstance(params["d"], Number) and params["d"] % 1 == 0:
             d = int(params["d"])
             if params["phase-flip-protected"]:
                 params["d"] = (1, d)
             else:
                 params["d"] = (d, 1)
-        elif isinstance(params["d"], Tuple):
+        elif isinstance(params["d"], Tuple) and len(params["d"]) == 2:
             if not params["phase-flip-protected"] and params["d"][constants.DW] != 1:
                 raise LatticeError(
                     "Bit-flip protected repetition qubits can only have width 1 in parameter d: e.g. (3,1). If you "
diff --git a/qtcodes/circuits/rotated_surface.py b/qtcodes/circuits/rotated_surface.py
index 9751f87..282d640 100644
--- a/qtcodes/circuits/rotated_surface.py
+++ b/qtcodes/circuits/rotated_surface.py
@@ -65,8 +65,14 @@ class _RotatedLattice(_TopologicalLattice[TQubit], metaclass=ABCMeta):
 
         # make square lattice if only one dimension was passed in
         if isinstance(self.params["d"], Number):
-            d = int(self.params["d"])
-            self.params["d"] = (d, d)
+            self.params["d"] = (self.params["d"], self.params["d"])
+
+        if len(self.params["d"]) != 2 or any(
+            isinstance(side, Number) and side % 1 != 0 for side in self.params["d"]
+        ):
+            raise LatticeError(
+                "Please provide a whole code height and width in parameter d: e.g. (3,7)."
+            )
 
         # Convert to int tuple if it wasn't already
         self.params["d"] = tuple(map(int, self.params["d"]))
diff --git a/qtcodes/fitters/rotated_surface.py b/qtcodes/fitters/rotated_surface.py
index 093336a..5b36d31 100644
--- a/qtcodes/fitters/rotated_surface.py
+++ b/qtcodes/fitters/rotated_surface.py
@@ -31,8 +31,7 @@ class RotatedDecoder(LatticeDecoder):
 
         # validation
         if isinstance(self.params["d"], Number):
-            d = int(self.params["d"])
-            self.params["d"] = (d, d)
+            self.params["d"] = (self.params["d"], self.params["d"])
 
         if len(self.params["d"]) != 2:
             raise LatticeError(
@@ -47,6 +46,9 @@ class RotatedDecoder(LatticeDecoder):
         if dw % 2 != 1 or dw < 1:
             raise LatticeError("Surface code width must be odd!")
 
+        # Convert to int tuple if it wasn't already
+        self.params["d"] = (int(dh), int(dw))
+
     def _make_syndrome_graph(self) -> None:
         """
         Populates self.S["X"] and self.S["Z"] syndrome rx.PyGraph's
-- 
2.43.0

