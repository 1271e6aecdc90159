From 4d813aa0b759705d15133f50f83d3b0a31dddd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 01/72] fix: build LS and MS matrices over the lines in
 increasing order

---
 src/mqt/qudits/quantum_circuit/gates/ls.py | 9 +++++----
 src/mqt/qudits/quantum_circuit/gates/ms.py | 9 ++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/ls.py b/src/mqt/qudits/quantum_circuit/gates/ls.py
index 79b720e..db0a307 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ls.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ls.py
@@ -45,15 +45,16 @@ class LS(Gate):
             self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
+        # the matrix of a multi-qudit gate is indexed by its lines in increasing order
+        dimensions = [dim for _, dim in sorted(zip(cast(list[int], self.target_qudits), self.dimensions))]
+        dimension_0, dimension_1 = dimensions
 
         exp_matrix = np.zeros((dimension_0 * dimension_1, dimension_0 * dimension_1), dtype="complex")
         d_min = min(dimension_0, dimension_1)
         for i in range(d_min):
             exp_matrix += np.outer(
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
-                np.array(from_dirac_to_basis([i, i], self.dimensions)),
+                np.array(from_dirac_to_basis([i, i], dimensions)),
+                np.array(from_dirac_to_basis([i, i], dimensions)),
             )
 
         return expm(-1j * self.theta * exp_matrix)
diff --git a/src/mqt/qudits/quantum_circuit/gates/ms.py b/src/mqt/qudits/quantum_circuit/gates/ms.py
index db3aaeb..691a65b 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ms.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ms.py
@@ -44,12 +44,11 @@ class MS(Gate):
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         theta = self.theta
-        dimension_0 = self.dimensions[0]
-        dimension_1 = self.dimensions[1]
         ps: list[int | str] = [0, 1, "s"]
-        qudits_targeted = cast(list[int], self.target_qudits)
-        qudit_targeted_0: int = qudits_targeted[0]
-        qudit_targeted_1: int = qudits_targeted[1]
+        # the matrix of a multi-qudit gate is indexed by its lines in increasing order
+        lines = sorted(zip(cast(list[int], self.target_qudits), self.dimensions))
+        qudit_targeted_0, dimension_0 = lines[0]
+        qudit_targeted_1, dimension_1 = lines[1]
 
         gate_part_1 = np.kron(
             np.identity(dimension_0, dtype="complex"),
-- 
2.43.0


From a081228c4356d729912fec32b64867cddae89c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 02/72] fix: use the dimension of the target itself when
 embedding a single-qudit gate

---
 .../quantum_circuit/components/extensions/matrix_factory.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
index aed2a37..dc44438 100644
--- a/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
+++ b/src/mqt/qudits/quantum_circuit/components/extensions/matrix_factory.py
@@ -81,7 +81,7 @@ class MatrixFactory:
         slide_indices_rest = [q - min(ref_lines) for q in rest_of_indices]
 
         single_site_logics = (
-            [list(range(dimensions[qudits_applied[0]]))]
+            [list(range(dimensions[slide_indices_qudits_a[0]]))]
             if len(qudits_applied) == 1
             else [list(range(d)) for d in operator.itemgetter(*slide_indices_qudits_a)(dimensions)]
         )
-- 
2.43.0


From a66753dff35022d92767b65770c73926cea0f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 03/72] fix: check control levels against the dimension of the
 control qudit

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index bfe3e35..166302a 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -123,7 +123,7 @@ class Gate(Instruction):
             raise IndexError(msg)
         # if isinstance(self._dimensions, int):
         #    dimensions = [self._dimensions]
-        if any(ctrl >= self.parent_circuit.dimensions[i] for i, ctrl in enumerate(ctrl_states)):
+        if any(ctrl >= self.parent_circuit.dimensions[idx] for idx, ctrl in zip(indices, ctrl_states)):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
         self._controls_data = ControlData(indices, ctrl_states)
-- 
2.43.0


From d654bc27758ce891e6f0ae3f9459599e2560652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 04/72] fix: keep the long-range flag up to date when controls
 are added to a gate

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 166302a..518c830 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -132,7 +132,7 @@ class Gate(Instruction):
             self.set_gate_type_two()
         elif len(self.reference_lines) > 2:
             self.set_gate_type_multi()
-        self.check_long_range()
+        self.is_long_range = self.check_long_range()
         return self
 
     def validate_parameter(self, param: Parameter) -> bool:  # noqa: PLR6301 ARG002
-- 
2.43.0


From 81b546580ed273dd92c53f7b3514b4652e64edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:30 +0000
Subject: [PATCH 05/72] fix: keep the unitary of a RandU gate once it has been
 drawn

---
 src/mqt/qudits/quantum_circuit/gates/randu.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/randu.py b/src/mqt/qudits/quantum_circuit/gates/randu.py
index bf2aabc..71c929a 100644
--- a/src/mqt/qudits/quantum_circuit/gates/randu.py
+++ b/src/mqt/qudits/quantum_circuit/gates/randu.py
@@ -36,10 +36,14 @@ class RandU(Gate):
             control_set=controls,
             qasm_tag="rdu",
         )
+        # drawn once on first use, so that the gate keeps denoting the same unitary
+        self._unitary: NDArray[np.complex128, np.complex128] | None = None
 
     def __array__(self) -> NDArray[np.complex128, np.complex128]:  # noqa: PLW3201
-        dim = reduce(operator.mul, self.dimensions)
-        return unitary_group.rvs(dim)
+        if self._unitary is None:
+            dim = reduce(operator.mul, self.dimensions)
+            self._unitary = unitary_group.rvs(dim)
+        return self._unitary
 
     @property
     def dimensions(self) -> list[int]:
-- 
2.43.0


From 7a62b315bdfaaae68b175c61e293bed99c45ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 06/72] fix: taking the adjoint of an adjoint gate gives the
 gate back

---
 .../mapping_aware_transpilation/phy_local_adaptive_decomp.py   | 3 ++-
 .../onedit/mapping_aware_transpilation/phy_local_qr_decomp.py  | 3 ++-
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py   | 3 ++-
 .../compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py   | 3 ++-
 src/mqt/qudits/quantum_circuit/gate.py                         | 2 +-
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 6318bf3..e244b6e 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import contextlib
 import gc
 import itertools
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -51,7 +52,7 @@ class PhyLocAdaPass(CompilerPass):
         (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
-        return [op.dag() for op in reversed(matrices_decomposed)]
+        return [copy(op).dag() for op in reversed(matrices_decomposed)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit: QuantumCircuit = circuit
diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
index c3da3df..8a159b5 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import gc
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -28,7 +29,7 @@ class PhyLocQRPass(CompilerPass):
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
         qr = PhyQrDecomp(gate, energy_graph_i, not_stand_alone=False)
         decomp, _algorithmic_cost, _total_cost = qr.execute()
-        return [op.dag() for op in reversed(decomp)]
+        return [copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index fe13562..3aa2e33 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 
 import gc
 import typing
+from copy import copy
 from operator import itemgetter
 
 import numpy as np
@@ -33,7 +34,7 @@ class LogEntQRCEXPass(CompilerPass):
     def transpile_gate(gate: Gate) -> list[Gate]:
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        return [op.dag() for op in reversed(decomp)]
+        return [copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index 1c24a28..d3ad43e 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import gc
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 from mqt.qudits.compiler import CompilerPass
@@ -62,7 +63,7 @@ class PhyEntQRCEXPass(CompilerPass):
         perm_0_d_seq.extend(perm_0_seq)
         perm_0_d_seq.extend(perm_1_seq)
 
-        return [op.dag() for op in reversed(decomp)]
+        return [copy(op).dag() for op in reversed(decomp)]
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 518c830..7f13173 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -85,7 +85,7 @@ class Gate(Instruction):
 
     def dag(self) -> Gate:
         self._name += "_dag"
-        self.dagger = True
+        self.dagger = not self.dagger
         return self
 
     def to_matrix(self, identities: int = 0) -> NDArray:
-- 
2.43.0


From 94e99a7d6948526e4903aba7c6f9a14810133d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 07/72] fix: emit the sequence of PhyLocQRPass in the order in
 which it realises the gate

---
 .../onedit/mapping_aware_transpilation/phy_local_qr_decomp.py    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
index 8a159b5..ebb65de 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
@@ -39,7 +39,6 @@ class PhyLocQRPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.SINGLE:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans = [op.dag() for op in reversed(gate_trans)]
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
-- 
2.43.0


From ccacd11d06c6e67459103be034257eb3e7723e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 08/72] fix: emit the sequence of LogEntQRCEXPass in the order
 in which it realises the gate

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py     | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index 3aa2e33..f8f637b 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -43,7 +43,6 @@ class LogEntQRCEXPass(CompilerPass):
         for gate in instructions:
             if gate.gate_type == GateTypes.TWO:
                 gate_trans = self.transpile_gate(gate)
-                gate_trans.reverse()
                 new_instructions.extend(gate_trans)
                 gc.collect()
             else:
-- 
2.43.0


From fe73eb7220381f34c1f79ddefbf0ef109e66cdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 09/72] fix: reject negative, repeated or unpaired controls and
 control levels

---
 src/mqt/qudits/quantum_circuit/gate.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 7f13173..c61b7aa 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -105,15 +105,18 @@ class Gate(Instruction):
         raise CircuitError(msg)
 
     def control(self, indices: list[int], ctrl_states: list[int]) -> Gate:
-        if len(indices) == 0 or len(ctrl_states) == 0:
+        if len(indices) == 0 and len(ctrl_states) == 0:
             return self
         # AT THE MOMENT WE SUPPORT CONTROL OF SINGLE QUDIT GATES
         assert self.gate_type == GateTypes.SINGLE
         if len(indices) > self.parent_circuit.num_qudits or any(
-            idx >= self.parent_circuit.num_qudits for idx in indices
+            idx < 0 or idx >= self.parent_circuit.num_qudits for idx in indices
         ):
             msg = "Indices or Number of Controls is beyond the Quantum Circuit Size"
             raise IndexError(msg)
+        if len(indices) != len(ctrl_states) or len(set(indices)) != len(indices):
+            msg = "Every control needs exactly one level"
+            raise IndexError(msg)
         if isinstance(self.target_qudits, int):
             if self.target_qudits in indices:
                 msg = "Controls overlap with targets"
@@ -123,7 +126,7 @@ class Gate(Instruction):
             raise IndexError(msg)
         # if isinstance(self._dimensions, int):
         #    dimensions = [self._dimensions]
-        if any(ctrl >= self.parent_circuit.dimensions[idx] for idx, ctrl in zip(indices, ctrl_states)):
+        if any(not 0 <= ctrl < self.parent_circuit.dimensions[idx] for idx, ctrl in zip(indices, ctrl_states)):
             msg = "Controls States beyond qudit size "
             raise IndexError(msg)
         self._controls_data = ControlData(indices, ctrl_states)
-- 
2.43.0


From 0eafa728e180449bb54c1f3260345a79286a86fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 10/72] fix: accept the two levels of a rotation in any order
 in the decision-diagram simulator

---
 src/python/bindings.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index 89fa626..c42e388 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -521,6 +521,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto pl = params.cast<py::list>();
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    if (leva > levb) {
+      std::swap(leva, levb);
+    }
     auto theta = pl[2].cast<double>();
     auto phi = pl[3].cast<double>();
 
@@ -555,6 +558,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
 
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    if (leva > levb) {
+      std::swap(leva, levb);
+    }
     auto phi = pl[2].cast<double>();
 
     if (checkDim(dims, 2)) {
@@ -585,6 +591,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto pl = params.cast<py::list>();
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    if (leva > levb) {
+      std::swap(leva, levb);
+    }
 
     if (checkDim(dims, 2)) {
       dd::GateMatrix matrix = dd::RH();
@@ -745,6 +754,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
 
     auto leva = pl[0].cast<size_t>();
     auto levb = pl[1].cast<size_t>();
+    if (leva > levb) {
+      std::swap(leva, levb);
+    }
     auto ctrlLev = pl[2].cast<dd::Control::Type>();
     auto phi = pl[3].cast<dd::fp>();
 
-- 
2.43.0


From 8103d39f59da52a5c2fb7fd91cad72e216cc4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 11/72] fix: refuse gates the decision-diagram simulator cannot
 represent

---
 src/python/bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/python/bindings.cpp b/src/python/bindings.cpp
index c42e388..4ea533c 100644
--- a/src/python/bindings.cpp
+++ b/src/python/bindings.cpp
@@ -502,7 +502,7 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
   const auto& [tag, dag, dims, gate_type, target_qudits, params, control_set] =
       instruction;
 
-  dd::MDDPackage::mEdge gate;
+  dd::MDDPackage::mEdge gate{nullptr, dd::Complex::zero};
   auto numberRegs =
       static_cast<dd::QuantumRegisterCount>(dd->numberOfQuantumRegisters);
 
@@ -768,6 +768,9 @@ dd::MDDPackage::mEdge getGate(const ddpkg& dd, const Instruction& instruction) {
     auto target = static_cast<dd::QuantumRegister>(target_qudits.at(1));
     return dd->csum(numberRegs, cReg, target, dag);
   }
+  if (gate.nextNode == nullptr) {
+    throw std::invalid_argument("Gate not supported by MISIM: " + tag);
+  }
   if (dag) {
     gate = dd->conjugateTranspose(gate);
   }
-- 
2.43.0


From 16ae956793ff9bf07746fcf1bebb1fde5619c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 12/72] fix: write the controls of a gate into the program text

---
 src/mqt/qudits/quantum_circuit/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index c61b7aa..08ea91a 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -182,7 +182,7 @@ class Gate(Instruction):
             string += " ctl "
             for _ctrl in self._controls_data.indices:
                 string += (
-                    f"{self.parent_circuit.inverse_sitemap[qudit][0]}[{self.parent_circuit.inverse_sitemap[qudit][1]}] "
+                    f"{self.parent_circuit.inverse_sitemap[_ctrl][0]}[{self.parent_circuit.inverse_sitemap[_ctrl][1]}] "
                 )
             string += str(self._controls_data.ctrl_states)
 
-- 
2.43.0


From e8d7ebfaa39f30cd0904b60805a40c274fae88f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 13/72] fix: hand parameters read from program text to the
 gates instead of dropping them

---
 src/mqt/qudits/quantum_circuit/circuit.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index fb83ac3..65a643a 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -88,6 +88,9 @@ class QuantumCircuit:
         "z": "z",
     }
 
+    # number of leading parameters that are levels, i.e. integers, when read from program text
+    qasm_level_parameters: ClassVar = {"cx": 3, "rxy": 2, "rh": 2, "rz": 2, "virtrz": 1}
+
     def __init__(self, *args: int | QuantumRegister | list[int] | None) -> None:
         self.cl_inverse_sitemap: InverseSitemap = {}
         self.inverse_sitemap: InverseSitemap = {}
@@ -314,6 +317,17 @@ class QuantumCircuit:
         self.mappings = mappings
         return self
 
+    @classmethod
+    def _typed_qasm_parameters(cls, name: str, params: Sequence[float] | NDArray) -> list[int | float] | NDArray:
+        """Give the numbers read from program text the types the gate constructors ask for."""
+        if isinstance(params, np.ndarray):
+            return params
+        num_levels = len(params) if name == "pm" else cls.qasm_level_parameters.get(name, 0)
+        if any(level != int(level) for level in params[:num_levels]):
+            msg = f"Levels have to be integers: {params}"
+            raise ValueError(msg)
+        return [int(level) for level in params[:num_levels]] + [float(angle) for angle in params[num_levels:]]
+
     def from_qasm(self, qasm_prog: str) -> None:
         """Create a circuit from qasm text."""
         self.reset()
@@ -347,10 +361,11 @@ class QuantumCircuit:
                     else:
                         qudits_call = [t[0] for t in list(tuples_qudits)]
                     if is_not_none_or_empty(op["params"]):
+                        params = self._typed_qasm_parameters(op["name"], op["params"])
                         if op["controls"]:
-                            function(qudits_call, op["params"], op["controls"])
+                            function(qudits_call, params, op["controls"])
                         else:
-                            function(qudits_call, op["params"])
+                            function(qudits_call, params)
                     elif op["controls"]:
                         function(qudits_call, op["controls"])
                     else:
-- 
2.43.0


From c70c29f9e8edbf6f083db1f87799ec439e170110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 14/72] fix: refuse unknown gates in program text instead of
 skipping them

---
 src/mqt/qudits/quantum_circuit/circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 65a643a..a500829 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -373,6 +373,9 @@ class QuantumCircuit:
                 else:
                     msg = "the required gate_matrix is not available anymore."
                     raise NotImplementedError(msg)
+            else:
+                msg = f"Unknown gate: {op['name']}"
+                raise NotImplementedError(msg)
 
     def to_qasm(self) -> str:
         text = ""
-- 
2.43.0


From d34fc9a53a70034c00081745b6ace4acd4b3acdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 15/72] fix: read multi-qudit gates on a single qudit from
 program text

---
 src/mqt/qudits/quantum_circuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index a500829..5c1de15 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -355,7 +355,7 @@ class QuantumCircuit:
                         msg = "Qudit parameter not applied"
                         raise IndexError(msg)
                     # Check if the list contains only one tuple
-                    if len(tuples_qudits) == 1:
+                    if len(tuples_qudits) == 1 and op["name"] not in {"rdu", "cumulti"}:
                         qudits_call = tuples_qudits[0][0]
                     # Extract the first element from each tuple and return as a list
                     else:
-- 
2.43.0


From c461e8703e9e7771f28e53c54c80ffc1338fa7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 16/72] fix: read comments where they end and refuse trailing
 text in program lines

---
 src/mqt/qudits/quantum_circuit/qasm.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 0627cba..1bcac83 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -45,7 +45,7 @@ class QASM:
     def parse_qreg(
         line: str, rgxs: dict[str, re.Pattern[str]], sitemap: dict[tuple[str, int], tuple[int, int]]
     ) -> bool:
-        match = rgxs["qreg"].match(line)
+        match = rgxs["qreg"].fullmatch(line)
         if match:
             name, nqu, qdims = match.groups()
             if nqu is not None:
@@ -67,7 +67,7 @@ class QASM:
 
     @staticmethod
     def parse_creg(line: str, rgxs: dict[str, re.Pattern[str]], sitemap_classic: ClSitemap) -> bool:
-        match = rgxs["creg"].match(line)
+        match = rgxs["creg"].fullmatch(line)
         if match:
             name, nclassics = match.groups()
             for i in range(int(nclassics)):
@@ -93,7 +93,7 @@ class QASM:
         sitemap: dict[tuple[str, int], tuple[int, int]],
         gates: list[dict[str, Any]],
     ) -> bool:
-        match = rgxs["gate_matrix"].search(line)
+        match = rgxs["gate_matrix"].fullmatch(line)
         if match:
             label = match.group(1)
             params = match.group(2)
@@ -198,6 +198,17 @@ class QASM:
         # only want to warn once about each ignored instruction
         warned: dict[str, bool] = {}
 
+        # Comments may follow a statement or span several lines
+        contents = re.sub(
+            r"/\*.*?\*/|(?:^|(?<=[\s;]))//[^\n]*",
+            lambda comment: "\n" * comment.group().count("\n"),
+            contents,
+            flags=re.DOTALL | re.MULTILINE,
+        )
+        if "/*" in contents:
+            msg = "Unterminated comment"
+            raise SyntaxError(msg)
+
         # Process each line
         in_comment = False
         for current_line in contents.split("\n"):
-- 
2.43.0


From 80f671c8469d0fa59ae54d658042fc5b742f6713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 17/72] fix: refuse registers that are redefined or whose
 dimensions do not match their size

---
 src/mqt/qudits/quantum_circuit/qasm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 1bcac83..f884bc4 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -59,6 +59,10 @@ class QASM:
             else:
                 qdims = [2] * nq
 
+            if len(qdims) != nq or any(register == name for register, _ in sitemap):
+                msg = f"Register redefined or without one dimension for each of its qudits: {line}"
+                raise SyntaxError(msg)
+
             for i in range(int(nq)):
                 sitemap[str(name), i] = len(sitemap), qdims[i]
 
-- 
2.43.0


From b3b15cc867af0af9dd5ae8dc12569079dc09fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 18/72] fix: support open-ended and stepped slices of registers

---
 src/mqt/qudits/quantum_circuit/components/classic_register.py | 3 +--
 src/mqt/qudits/quantum_circuit/components/quantum_register.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/classic_register.py b/src/mqt/qudits/quantum_circuit/components/classic_register.py
index 304b559..17e0bd3 100644
--- a/src/mqt/qudits/quantum_circuit/components/classic_register.py
+++ b/src/mqt/qudits/quantum_circuit/components/classic_register.py
@@ -37,8 +37,7 @@ class ClassicRegister:
 
     def __getitem__(self, key: int | slice) -> int | list[int]:
         if isinstance(key, slice):
-            start, stop = key.start, key.stop
-            return [self.local_sitemap[i] for i in range(start, stop)]
+            return [self.local_sitemap[i] for i in range(self.size)[key]]
 
         return self.local_sitemap[key]
 
diff --git a/src/mqt/qudits/quantum_circuit/components/quantum_register.py b/src/mqt/qudits/quantum_circuit/components/quantum_register.py
index 0843dda..7d097d5 100644
--- a/src/mqt/qudits/quantum_circuit/components/quantum_register.py
+++ b/src/mqt/qudits/quantum_circuit/components/quantum_register.py
@@ -49,7 +49,6 @@ class QuantumRegister:
 
     def __getitem__(self, key: int | slice) -> int | list[int]:
         if isinstance(key, slice):
-            start, stop = key.start, key.stop
-            return [self.local_sitemap[i] for i in range(start, stop)]
+            return [self.local_sitemap[i] for i in range(self.size)[key]]
 
         return self.local_sitemap[key]
-- 
2.43.0


From 144668a602cefac2bf6faa3bc8c26ce13b017026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 19/72] fix: replace the gate that is named when the index is
 negative and refuse indices out of range

---
 src/mqt/qudits/quantum_circuit/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index 5c1de15..ff0b7d1 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -304,8 +304,9 @@ class QuantumCircuit:
         return Z(self, "Z" + str(self.dimensions[qudit]), qudit, self.dimensions[qudit], controls)
 
     def replace_gate(self, gate_index: int, sequence: Sequence[Gate]) -> None:
+        gate_index = range(len(self.instructions))[gate_index]
         self.instructions[gate_index : gate_index + 1] = sequence
-        self.number_gates = (self.number_gates - 1) + len(sequence)
+        self.number_gates = len(self.instructions)
 
     def set_instructions(self, sequence: Sequence[Gate]) -> QuantumCircuit:
         self.instructions = []
-- 
2.43.0


From 99cce87a096003d2d091031f05f4c4a7c9945a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 20/72] fix: forget the level mappings when a circuit is reset

---
 src/mqt/qudits/quantum_circuit/circuit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index ff0b7d1..d5198cf 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -149,6 +149,7 @@ class QuantumCircuit:
         self.num_cl = 0
         self.num_qudits = 0
         self._dimensions = []
+        self.mappings = None
         self.path_save = None
 
     def copy(self) -> QuantumCircuit:
-- 
2.43.0


From d4a70de5203e6c107e56009c564ff1b06532ac8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 21/72] fix: refuse a second register of the same name instead
 of overwriting the lines of the first

---
 src/mqt/qudits/quantum_circuit/circuit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/circuit.py b/src/mqt/qudits/quantum_circuit/circuit.py
index d5198cf..369a803 100644
--- a/src/mqt/qudits/quantum_circuit/circuit.py
+++ b/src/mqt/qudits/quantum_circuit/circuit.py
@@ -156,6 +156,9 @@ class QuantumCircuit:
         return copy.deepcopy(self)
 
     def append(self, qreg: QuantumRegister) -> None:
+        if any(str(qreg.label) == str(other.label) for other in self.quantum_registers):
+            msg = f"The circuit already has a quantum register named {qreg.label}"
+            raise ValueError(msg)
         self.quantum_registers.append(qreg)
         self.num_qudits += qreg.size
         self._dimensions += qreg.dimensions
@@ -167,6 +170,9 @@ class QuantumCircuit:
             self.inverse_sitemap[num_lines_stored + i] = (str(qreg.label), i)
 
     def append_classic(self, creg: ClassicRegister) -> None:
+        if any(str(creg.label) == str(other.label) for other in self.classic_registers):
+            msg = f"The circuit already has a classic register named {creg.label}"
+            raise ValueError(msg)
         self.classic_registers.append(creg)
         self.num_cl += creg.size
 
-- 
2.43.0


From 5e15fcae4d303f88c72310f72d7f647cbdba94e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 22/72] fix: let registers keep an own list of their dimensions

---
 src/mqt/qudits/quantum_circuit/components/quantum_register.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/components/quantum_register.py b/src/mqt/qudits/quantum_circuit/components/quantum_register.py
index 7d097d5..e5089b1 100644
--- a/src/mqt/qudits/quantum_circuit/components/quantum_register.py
+++ b/src/mqt/qudits/quantum_circuit/components/quantum_register.py
@@ -40,7 +40,7 @@ class QuantumRegister:
     def __init__(self, name: str, size: int, dims: list[int] | None = None) -> None:
         self.label = name
         self.size: int = size
-        self.dimensions: list[int] = size * [2] if dims is None else dims
+        self.dimensions: list[int] = size * [2] if dims is None else list(dims)
         self.local_sitemap: dict[int, int] = {}
 
     def __qasm__(self) -> str:  # noqa: PLW3201
-- 
2.43.0


From 091d09d3c5d0510b64b89395b4e939896b5d169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 23/72] fix: refuse invalid parameters of VirtRz instead of
 building the identity

---
 src/mqt/qudits/quantum_circuit/gates/virt_rz.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/quantum_circuit/gates/virt_rz.py b/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
index b5be526..7fde655 100644
--- a/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
+++ b/src/mqt/qudits/quantum_circuit/gates/virt_rz.py
@@ -35,11 +35,13 @@ class VirtRz(Gate):
             control_set=controls,
             qasm_tag="virtrz",
         )
-        if self.validate_parameter(parameters):
-            self.lev_a: int = cast(int, parameters[0])
-            self.phi: float = cast(float, parameters[1])
-            self.phi = regulate_theta(self.phi)
-            self._params = parameters
+        if not self.validate_parameter(parameters):
+            msg = f"VirtRz needs a level of the qudit and an angle: {parameters}"
+            raise ValueError(msg)
+        self.lev_a: int = cast(int, parameters[0])
+        self.phi: float = cast(float, parameters[1])
+        self.phi = regulate_theta(self.phi)
+        self._params = parameters
 
     def __array__(self) -> NDArray:  # noqa: PLW3201
         dimension = self.dimensions
-- 
2.43.0


From d40a558ee60e3b5c7dbdf8e56f638aa9714ffe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 24/72] fix: refuse lists that are not permutations of the
 levels in Perm

---
 src/mqt/qudits/quantum_circuit/gates/perm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/gates/perm.py b/src/mqt/qudits/quantum_circuit/gates/perm.py
index 3ee94bf..64b47bb 100644
--- a/src/mqt/qudits/quantum_circuit/gates/perm.py
+++ b/src/mqt/qudits/quantum_circuit/gates/perm.py
@@ -53,6 +53,7 @@ class Perm(Gate):
             assert all((0 <= num < len(parameter) and num < dims) for num in p), (
                 "Numbers are not within the range of the list length"
             )
+            assert sorted(p) == list(range(dims)), "Every level has to occur exactly once"
 
             return True
 
-- 
2.43.0


From f94529b3d077cf3ef68721009859752d2ac8fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 25/72] fix: refuse levels beyond the dimension in GellMann

---
 src/mqt/qudits/quantum_circuit/gates/gellmann.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/gates/gellmann.py b/src/mqt/qudits/quantum_circuit/gates/gellmann.py
index 29856c9..37a6e45 100644
--- a/src/mqt/qudits/quantum_circuit/gates/gellmann.py
+++ b/src/mqt/qudits/quantum_circuit/gates/gellmann.py
@@ -28,6 +28,7 @@ class GellMann(Gate):
         controls: ControlData | None = None,
     ) -> None:
         assert self.validate_parameter(parameters), "Invalid parameters"
+        assert cast(int, parameters[1]) < dimensions, f"lev_b is beyond the dimension of the qudit: {parameters[1]}"
         super().__init__(
             circuit=circuit,
             name=name,
-- 
2.43.0


From d0c4219e0dba0d8fdb3ff3d86b15ab8ac371a8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 26/72] fix: refuse negative and repeated target qudits

---
 src/mqt/qudits/quantum_circuit/gate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index 08ea91a..e94309f 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -55,6 +55,10 @@ class Gate(Instruction):
         self._params: Parameter = params
         self._label = label
         self._controls_data: ControlData | None = None
+        lines = [target_qudits] if isinstance(target_qudits, int) else list(target_qudits)
+        if any(line < 0 for line in lines) or len(set(lines)) != len(lines):
+            msg = f"Targets have to be different qudits of the circuit: {target_qudits}"
+            raise IndexError(msg)
         if control_set:
             self.control(**vars(control_set))
 
-- 
2.43.0


From b6ee87edbd9a8103c8fb7b80159740cc92c4ba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:26 +0000
Subject: [PATCH 27/72] fix: refuse negative control levels in CEx

---
 src/mqt/qudits/quantum_circuit/gates/cx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mqt/qudits/quantum_circuit/gates/cx.py b/src/mqt/qudits/quantum_circuit/gates/cx.py
index 4e392e4..2a35333 100644
--- a/src/mqt/qudits/quantum_circuit/gates/cx.py
+++ b/src/mqt/qudits/quantum_circuit/gates/cx.py
@@ -96,6 +96,7 @@ class CEx(Gate):
             assert 0 <= parameter[0] < parameter[1], (
                 f"lev_a and lev_b are out of range or in wrong order: {parameter[0]}, {parameter[1]}"
             )
+            assert parameter[2] >= 0, f"Control level is negative: {parameter[2]}"
             assert 0 <= parameter[3] <= 2 * np.pi, f"Angle should be in the range [0, 2*pi]: {parameter[2]}"
 
             return True
-- 
2.43.0


From 4be39cb10fe195fe765ed0de4c161c7b9f384e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 28/72] fix: refuse parameters such as 2pi instead of reading
 them as 23.14

---
 src/mqt/qudits/quantum_circuit/qasm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index f884bc4..1e8b6f4 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -82,7 +82,6 @@ class QASM:
     @staticmethod
     def safe_eval_math_expression(expression: str) -> float | None:
         try:
-            expression = expression.replace("pi", str(np.pi))
             # Define a dictionary of allowed names
             allowed_names = {"__builtins__": None, "pi": np.pi}
             # Use eval with restricted names
-- 
2.43.0


From a60f8413ce2002afb1aaacf881c0aea21f45fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 29/72] fix: refuse surplus gate parameters instead of ignoring
 them

---
 src/mqt/qudits/quantum_circuit/gates/cx.py      | 1 +
 src/mqt/qudits/quantum_circuit/gates/ls.py      | 1 +
 src/mqt/qudits/quantum_circuit/gates/ms.py      | 1 +
 src/mqt/qudits/quantum_circuit/gates/noise_x.py | 1 +
 src/mqt/qudits/quantum_circuit/gates/noise_y.py | 1 +
 src/mqt/qudits/quantum_circuit/gates/r.py       | 1 +
 src/mqt/qudits/quantum_circuit/gates/rh.py      | 1 +
 src/mqt/qudits/quantum_circuit/gates/rz.py      | 1 +
 8 files changed, 8 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/gates/cx.py b/src/mqt/qudits/quantum_circuit/gates/cx.py
index 2a35333..3a1fe22 100644
--- a/src/mqt/qudits/quantum_circuit/gates/cx.py
+++ b/src/mqt/qudits/quantum_circuit/gates/cx.py
@@ -89,6 +89,7 @@ class CEx(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 4, f"Expected 4 parameters: {parameter}"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
             assert isinstance(parameter[2], int)
diff --git a/src/mqt/qudits/quantum_circuit/gates/ls.py b/src/mqt/qudits/quantum_circuit/gates/ls.py
index db0a307..282679b 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ls.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ls.py
@@ -65,6 +65,7 @@ class LS(Gate):
             return False
 
         if isinstance(param, list):
+            assert len(param) == 1, f"Expected 1 parameter: {param}"
             assert 0 <= cast(float, param[0]) <= 2 * np.pi, f"Angle should be in the range [0, 2*pi]: {param[0]}"
             return True
 
diff --git a/src/mqt/qudits/quantum_circuit/gates/ms.py b/src/mqt/qudits/quantum_circuit/gates/ms.py
index 691a65b..86447c2 100644
--- a/src/mqt/qudits/quantum_circuit/gates/ms.py
+++ b/src/mqt/qudits/quantum_circuit/gates/ms.py
@@ -72,6 +72,7 @@ class MS(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 1, f"Expected 1 parameter: {parameter}"
             assert 0 <= cast(float, parameter[0]) <= 2 * np.pi, (
                 f"Angle should be in the range [0, 2*pi]: {parameter[0]}"
             )
diff --git a/src/mqt/qudits/quantum_circuit/gates/noise_x.py b/src/mqt/qudits/quantum_circuit/gates/noise_x.py
index 9cdef08..bc163b4 100644
--- a/src/mqt/qudits/quantum_circuit/gates/noise_x.py
+++ b/src/mqt/qudits/quantum_circuit/gates/noise_x.py
@@ -63,6 +63,7 @@ class NoiseX(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 2, f"Expected 2 parameters: {parameter}"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
             assert parameter[0] >= 0
diff --git a/src/mqt/qudits/quantum_circuit/gates/noise_y.py b/src/mqt/qudits/quantum_circuit/gates/noise_y.py
index afb67d9..d20c591 100644
--- a/src/mqt/qudits/quantum_circuit/gates/noise_y.py
+++ b/src/mqt/qudits/quantum_circuit/gates/noise_y.py
@@ -63,6 +63,7 @@ class NoiseY(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 2, f"Expected 2 parameters: {parameter}"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
             assert parameter[0] >= 0
diff --git a/src/mqt/qudits/quantum_circuit/gates/r.py b/src/mqt/qudits/quantum_circuit/gates/r.py
index 7c98cc8..7022fb2 100644
--- a/src/mqt/qudits/quantum_circuit/gates/r.py
+++ b/src/mqt/qudits/quantum_circuit/gates/r.py
@@ -78,6 +78,7 @@ class R(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 4, f"Expected 4 parameters: {parameter}"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
             assert isinstance(parameter[2], float)
diff --git a/src/mqt/qudits/quantum_circuit/gates/rh.py b/src/mqt/qudits/quantum_circuit/gates/rh.py
index 7fa06f8..2a1f085 100644
--- a/src/mqt/qudits/quantum_circuit/gates/rh.py
+++ b/src/mqt/qudits/quantum_circuit/gates/rh.py
@@ -70,6 +70,7 @@ class Rh(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 2, f"Expected 2 parameters: {parameter}"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
 
diff --git a/src/mqt/qudits/quantum_circuit/gates/rz.py b/src/mqt/qudits/quantum_circuit/gates/rz.py
index 03cbd4c..2b0c679 100644
--- a/src/mqt/qudits/quantum_circuit/gates/rz.py
+++ b/src/mqt/qudits/quantum_circuit/gates/rz.py
@@ -72,6 +72,7 @@ class Rz(Gate):
             return False
 
         if isinstance(parameter, list):
+            assert len(parameter) == 3, f"Expected 3 parameters: {parameter}"
             assert isinstance(parameter[0], int)
             assert isinstance(parameter[1], int)
             assert isinstance(parameter[2], float)
-- 
2.43.0


From 17b7a9dc757723a339edc597a90f79bc8d0449f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 30/72] fix: refuse two-qudit gates that do not have two
 targets

---
 src/mqt/qudits/quantum_circuit/gate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqt/qudits/quantum_circuit/gate.py b/src/mqt/qudits/quantum_circuit/gate.py
index e94309f..962ba86 100644
--- a/src/mqt/qudits/quantum_circuit/gate.py
+++ b/src/mqt/qudits/quantum_circuit/gate.py
@@ -59,6 +59,9 @@ class Gate(Instruction):
         if any(line < 0 for line in lines) or len(set(lines)) != len(lines):
             msg = f"Targets have to be different qudits of the circuit: {target_qudits}"
             raise IndexError(msg)
+        if gate_type == GateTypes.TWO and len(lines) != 2:
+            msg = f"A two-qudit gate needs two targets: {target_qudits}"
+            raise IndexError(msg)
         if control_set:
             self.control(**vars(control_set))
 
-- 
2.43.0


From e89491e1f408c521916deda58b9a93269d0a197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 31/72] fix: read register sizes that are set off by spaces

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 1e8b6f4..8716489 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -49,7 +49,7 @@ class QASM:
         if match:
             name, nqu, qdims = match.groups()
             if nqu is not None:
-                int_matchings = re.search(r"\[(\d+)\]", nqu)
+                int_matchings = re.search(r"\[\s*(\d+)\s*\]", nqu)
                 if int_matchings is not None:
                     nq = int(int_matchings.group(1))
 
-- 
2.43.0


From bb773e2675d9623c144cc16a5f50af07273d81fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 32/72] fix: read bracketed parameter lists that are set off by
 spaces

---
 src/mqt/qudits/quantum_circuit/qasm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/quantum_circuit/qasm.py b/src/mqt/qudits/quantum_circuit/qasm.py
index 8716489..385b14b 100644
--- a/src/mqt/qudits/quantum_circuit/qasm.py
+++ b/src/mqt/qudits/quantum_circuit/qasm.py
@@ -111,7 +111,7 @@ class QASM:
                     params = np.load(params)
                 else:
                     # TODO: This does not handle "custom_data" correctly
-                    params = tuple(QASM.safe_eval_math_expression(param) for param in params.strip("()[]").split(","))
+                    params = tuple(QASM.safe_eval_math_expression(param) for param in params.strip("()[] \t").split(","))
             else:
                 params = ()
 
-- 
2.43.0


From b6f40b1185d00ea683faf331833cbc6bc26423f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 33/72] fix: never normalise a vector node of the decision
 diagram by a vanishing edge

---
 include/dd/MDDPackage.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 12a81bd..d037845 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -212,6 +212,11 @@ public:
     }
     for (auto i = 1UL; i <= edge.nextNode->edges.size(); i++) {
       auto counterBack = edge.nextNode->edges.size() - i;
+      if (zero.at(counterBack)) {
+        // a vanishing edge cannot serve as the reference, no matter how small
+        // the other weights are
+        continue;
+      }
       if (ComplexNumbers::mag2(edge.nextNode->edges.at(counterBack).weight) +
               ComplexTable<>::tolerance() >=
           mag2Max) {
-- 
2.43.0


From b9e068ea0989768c5ef944a48c1be9ed834f328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 34/72] fix: keep the phases when a vector node of the decision
 diagram is built from uncached edges

---
 include/dd/MDDPackage.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index d037845..5901c8f 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -240,8 +240,8 @@ public:
       currentEdge.weight.real->value *= commonFactor;
       currentEdge.weight.img->value *= commonFactor;
     } else {
-      auto realPart = CTEntry::val(currentEdge.weight.real) * commonFactor;
-      auto imgPart = CTEntry::val(currentEdge.weight.img) * commonFactor;
+      auto realPart = CTEntry::val(max.weight.real) * commonFactor;
+      auto imgPart = CTEntry::val(max.weight.img) * commonFactor;
       currentEdge.weight = complexNumber.lookup(realPart, imgPart);
       if (currentEdge.weight.approximatelyZero()) {
         return vEdge::zero;
-- 
2.43.0


From 2282ac4e5e10d5fd3c5eb5c9fbae54099f4259ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 35/72] fix: conjugate the weight at the root in inner products
 of decision diagrams

---
 include/dd/MDDPackage.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 5901c8f..7cf47e2 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1067,8 +1067,11 @@ public:
     if (y.nextNode->varIndx > circWidth) {
       circWidth = y.nextNode->varIndx;
     }
+    // the recursion conjugates the weights below the root of y
+    auto yConj = y;
+    yConj.weight = ComplexNumbers::conj(y.weight);
     const ComplexValue ip =
-        innerProduct(x, y, static_cast<QuantumRegister>(circWidth + 1));
+        innerProduct(x, yConj, static_cast<QuantumRegister>(circWidth + 1));
 
     [[maybe_unused]] const auto after = complexNumber.cacheCount();
     assert(after == before);
-- 
2.43.0


From 83a42da3cb600346493266b2ccecb134929aafb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 36/72] fix: allocate the edges of the node that is built when
 transposing a decision diagram

---
 include/dd/MDDPackage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 7cf47e2..07b0f31 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1888,7 +1888,8 @@ public:
       return result;
     }
 
-    std::vector<mEdge> newEdge{};
+    std::vector<mEdge> newEdge(edge.nextNode->edges.size(),
+                               dd::Edge<mNode>::zero);
     auto basicDim =
         registersSizes.at(static_cast<std::size_t>(edge.nextNode->varIndx));
 
-- 
2.43.0


From 9fcfbe2d4fad302314ad3b2e4a02efb2e5ae8d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 37/72] fix: do not return the identity on all lower registers
 when one on a part of them is asked for

---
 include/dd/MDDPackage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 07b0f31..7eeb917 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -622,7 +622,7 @@ public:
       return idTable.at(static_cast<std::size_t>(mostSignificantQubit));
     }
 
-    if (mostSignificantQubit >= 1 &&
+    if (leastSignificantQubit == 0 && mostSignificantQubit >= 1 &&
         (idTable.at(static_cast<std::size_t>(mostSignificantQubit) - 1))
                 .nextNode != nullptr) {
       auto basicDimMost =
-- 
2.43.0


From 348f3df80aa36d363ea4defdbda2cf80e2c17875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 38/72] fix: read matrix entries of decision diagrams in
 row-major order

---
 include/dd/MDDPackage.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 7eeb917..1982487 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1655,7 +1655,9 @@ public:
 
     const auto row = reprI.front();
     const auto col = reprJ.front();
-    const auto rowMajorIndex = row * edge.nextNode->edges.size() + col;
+    const auto radix =
+        registersSizes.at(static_cast<std::size_t>(edge.nextNode->varIndx));
+    const auto rowMajorIndex = row * radix + col;
     ComplexValue returnAmp{};
 
     if (!edge.nextNode->edges.at(rowMajorIndex).weight.approximatelyZero()) {
-- 
2.43.0


From ed467bf519467220bf05883da372c81c46881971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 39/72] fix: keep the factor of a scaled identity in tensor
 products of decision diagrams

---
 include/dd/MDDPackage.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dd/MDDPackage.hpp b/include/dd/MDDPackage.hpp
index 1982487..d6679c6 100644
--- a/include/dd/MDDPackage.hpp
+++ b/include/dd/MDDPackage.hpp
@@ -1234,8 +1234,7 @@ private:
         e = makeDDNode(idx, eSucc);
       }
 
-      e.weight = complexNumber.getCached(CTEntry::val(y.weight.real),
-                                         CTEntry::val(y.weight.img));
+      e.weight = complexNumber.mulCached(x.weight, y.weight);
       computeTable.insert(x, y, {e.nextNode, e.weight});
       return e;
     }
-- 
2.43.0


From 7d0931ba517070e832e4a4db3a23a945c12c8e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 40/72] fix: prepare the shared sub-state of a reduced node
 from a branch that is not zero

---
 .../qudits/compiler/state_compilation/state_preparation.py  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/state_compilation/state_preparation.py b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
index 3baa55b..d1aaed8 100644
--- a/src/mqt/qudits/compiler/state_compilation/state_preparation.py
+++ b/src/mqt/qudits/compiler/state_compilation/state_preparation.py
@@ -161,9 +161,9 @@ class StatePrep:
                     )
         else:
             controls_track = copy.deepcopy(controls)
-            self.synthesis(
-                labels, cardinalities, node.children[node.children_index[0]], circuit_meta, controls_track, depth + 1
-            )
+            # the first child can be a zero branch, which is left out of the reduction
+            shared_child = next(child for child in node.children if abs(child.weight) != 0.0)
+            self.synthesis(labels, cardinalities, shared_child, circuit_meta, controls_track, depth + 1)
 
     def compile_state(self) -> QuantumCircuit:
         final_state = self.state
-- 
2.43.0


From 7a3c58fc2dc6dbb3b3cd5ade80038d723c8c1ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 41/72] fix: keep track of the phases that routing pulses leave
 when levels already carry phases

---
 .../phy_local_adaptive_decomp.py              | 21 +++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index e244b6e..4c634f8 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -18,7 +18,6 @@ from ..local_operation_swap import (
     cost_calculator,
     gate_chain_condition,
     graph_rule_ongate,
-    graph_rule_update,
 )
 from ..mapping_aware_transpilation.phy_local_qr_decomp import PhyQrDecomp
 
@@ -257,19 +256,15 @@ class PhyAdaptiveDecomposition:
                     physical_rotation = gate_chain_condition(pi_pulses_routing, physical_rotation)
                     physical_rotation = graph_rule_ongate(physical_rotation, new_placement)
 
-                    p_backs = [
-                        gates.R(
-                            self.circuit,
-                            "R",
-                            self.qudit_index,
-                            [ppulse.lev_a, ppulse.lev_b, ppulse.theta, -ppulse.phi],
-                            self.dimension,
+                    # the routing pulses leave phases on the levels they move: keep track of them per logic level
+                    routing = np.identity(dimension, dtype="complex")
+                    for pi_pulse in pi_pulses_routing:
+                        routing = pi_pulse.to_matrix(identities=0) @ routing
+                    for node in new_placement.nodes if pi_pulses_routing else []:
+                        old_data, new_data = current_placement.nodes[node], new_placement.nodes[node]
+                        new_data["phase_storage"] = new_mod(
+                            old_data["phase_storage"] + np.angle(routing[new_data["lpmap"], old_data["lpmap"]])
                         )
-                        for ppulse in pi_pulses_routing
-                    ]
-
-                    for p_back in p_backs:
-                        graph_rule_update(p_back, new_placement)
 
                     current_root.add(
                         new_key,
-- 
2.43.0


From d4c2b313e1f614ef20bc068305b3862e1265d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 42/72] fix: let PhyLocAdaPass realise gates from the placement
 before to the placement after it

---
 .../phy_local_adaptive_decomp.py                         | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
index 4c634f8..a2fbf0c 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_adaptive_decomp.py
@@ -41,17 +41,20 @@ class PhyLocAdaPass(CompilerPass):
     def transpile_gate(self, gate: Gate) -> list[Gate]:
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
 
-        qr = PhyQrDecomp(gate, energy_graph_i)
+        # A decomposition maps its gate to the identity, so that of the adjoint realises the gate itself,
+        # from the placement and phases before it to those after it.
+        inverse = copy(gate).dag()
+        qr = PhyQrDecomp(inverse, energy_graph_i)
 
         _decomp, algorithmic_cost, total_cost = qr.execute()
 
         adaptive = PhyAdaptiveDecomposition(
-            gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions), z_prop=self.vrz_prop
+            inverse, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions), z_prop=self.vrz_prop
         )
         (matrices_decomposed, _best_cost, new_energy_level_graph) = adaptive.execute()
 
         self.backend.energy_level_graphs[cast(int, gate.target_qudits)] = new_energy_level_graph
-        return [copy(op).dag() for op in reversed(matrices_decomposed)]
+        return matrices_decomposed
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit: QuantumCircuit = circuit
-- 
2.43.0


From dc28ca44ebf455510071ff7bb675ae7540bfcb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 43/72] fix: apply the phases stored in the level graph before
 the gate that is compiled next

---
 .../mapping_aware_transpilation/phy_local_qr_decomp.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
index ebb65de..e904115 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_aware_transpilation/phy_local_qr_decomp.py
@@ -27,9 +27,11 @@ class PhyLocQRPass(CompilerPass):
 
     def transpile_gate(self, gate: Gate) -> list[Gate]:
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
-        qr = PhyQrDecomp(gate, energy_graph_i, not_stand_alone=False)
+        # The decomposition maps its gate to the identity, so that of the adjoint realises the gate itself.
+        # It starts with the phases that are still stored in the graph.
+        qr = PhyQrDecomp(copy(gate).dag(), energy_graph_i, not_stand_alone=False)
         decomp, _algorithmic_cost, _total_cost = qr.execute()
-        return [copy(op).dag() for op in reversed(decomp)]
+        return decomp
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From 21072d16fadf92813007c63ffab816498be61d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 44/72] fix: return the gate and not its inverse from the
 logical local decompositions

---
 .../log_local_adaptive_decomp.py                           | 7 +++++--
 .../mapping_un_aware_transpilation/log_local_qr_decomp.py  | 4 +++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 93dee68..627e018 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import contextlib
 import gc
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -32,12 +33,14 @@ class LogLocAdaPass(CompilerPass):
     def transpile_gate(self, gate: Gate) -> list[Gate]:
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
 
-        qr = QrDecomp(gate, energy_graph_i)
+        # A decomposition maps its gate to the identity, so that of the adjoint realises the gate itself.
+        inverse = copy(gate).dag()
+        qr = QrDecomp(inverse, energy_graph_i)
 
         _decomp, algorithmic_cost, total_cost = qr.execute()
 
         adaptive = LogAdaptiveDecomposition(
-            gate, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions)
+            inverse, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions)
         )
 
         (
diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index 170ac82..8b4396f 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import gc
+from copy import copy
 from typing import TYPE_CHECKING, cast
 
 import numpy as np
@@ -28,7 +29,8 @@ class LogLocQRPass(CompilerPass):
 
     def transpile_gate(self, gate: Gate) -> list[Gate]:
         energy_graph_i = self.backend.energy_level_graphs[cast(int, gate.target_qudits)]
-        qr = QrDecomp(gate, energy_graph_i, not_stand_alone=False)
+        # The decomposition maps its gate to the identity, so that of the adjoint realises the gate itself.
+        qr = QrDecomp(copy(gate).dag(), energy_graph_i, not_stand_alone=False)
         decomp, _algorithmic_cost, _total_cost = qr.execute()
         return decomp
 
-- 
2.43.0


From b861c3cdec51dfee0fc3f612d56e4471b6d4166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 45/72] fix: address stored phases by their logic level in the
 logical QR decomposition

---
 .../mapping_un_aware_transpilation/log_local_qr_decomp.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
index 8b4396f..5862a7d 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_qr_decomp.py
@@ -80,9 +80,9 @@ class QrDecomp:
                             self.gate.parent_circuit,
                             "VRz",
                             cast(int, self.gate.target_qudits),
-                            [self.graph.nodes[i], theta_z],
+                            [i, theta_z],
                             cast(int, self.gate.dimensions),
-                        )  # (thetaZ, self.graph.nodes[i]['lpmap'], dimension) # [self.graph.nodes[i]["lpmap"], thetaZ],
+                        )  # (thetaZ, i, dimension)
                         decomp.append(phase_gate)
                     recover_dict[i] = theta_z
 
-- 
2.43.0


From e5e627ed71ed613d09c1b5448c685bc7ce69b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 46/72] fix: keep the level graph of the backend in
 LogLocAdaPass

---
 .../log_local_adaptive_decomp.py                           | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
index 627e018..1162c4e 100644
--- a/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
+++ b/src/mqt/qudits/compiler/onedit/mapping_un_aware_transpilation/log_local_adaptive_decomp.py
@@ -43,11 +43,8 @@ class LogLocAdaPass(CompilerPass):
             inverse, energy_graph_i, (algorithmic_cost, total_cost), cast(int, gate.dimensions)
         )
 
-        (
-            matrices_decomposed,
-            _best_cost,
-            self.backend.energy_level_graphs[cast(int, gate.target_qudits)],
-        ) = adaptive.execute()
+        # the logical decomposition does not move levels, so the level graph of the backend stays as it is
+        matrices_decomposed, _best_cost, _graph = adaptive.execute()
 
         return matrices_decomposed
 
-- 
2.43.0


From 30f375b119c6df552a98c8e47ac63536067dfb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 47/72] fix: decompose two-qudit gates over their lines in
 increasing order

---
 .../compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index f8f637b..3701264 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -55,8 +55,9 @@ class EntangledQRCEX:
     def __init__(self, gate: Gate) -> None:
         self.gate: Gate = gate
         self.circuit: QuantumCircuit = gate.parent_circuit
-        self.dimensions: list[int] = itemgetter(*gate.reference_lines)(self.circuit.dimensions)
-        self.qudit_indices: list[int] = gate.reference_lines
+        # the matrix of a gate is indexed by its lines in increasing order
+        self.qudit_indices: list[int] = sorted(gate.reference_lines)
+        self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
         self.decomposition: list[Gate] = []
 
-- 
2.43.0


From ee49475772edfaf7ccc99821c6e7595678a8ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:09 +0000
Subject: [PATCH 48/72] fix: decompose controlled gates whose lines are not
 neighbours

---
 .../twodit/entanglement_qr/log_ent_qr_cex_decomp.py         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
index 3701264..8994885 100755
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/log_ent_qr_cex_decomp.py
@@ -59,6 +59,12 @@ class EntangledQRCEX:
         self.qudit_indices: list[int] = sorted(gate.reference_lines)
         self.dimensions: list[int] = itemgetter(*self.qudit_indices)(self.circuit.dimensions)
         self.u: NDArray = gate.to_matrix(identities=0)
+        size = self.dimensions[0] * self.dimensions[1]
+        if self.u.shape[0] != size:
+            # the matrix of a controlled gate covers the lines in between as well, on which it acts trivially
+            span = self.circuit.dimensions[self.qudit_indices[0] : self.qudit_indices[1] + 1]
+            outer_lines = [slice(None), *([0] * (len(span) - 2)), slice(None)]
+            self.u = self.u.reshape([*span, *span])[tuple(outer_lines * 2)].reshape(size, size)
         self.decomposition: list[Gate] = []
 
     @staticmethod
-- 
2.43.0


From 8ab24432b0761ffe0a40e3269a797f7a33f0c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 49/72] fix: place controlled gates and repeated gate objects
 correctly in the lanes

---
 src/mqt/qudits/core/lanes.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/mqt/qudits/core/lanes.py b/src/mqt/qudits/core/lanes.py
index 0e7b1e2..54976ea 100644
--- a/src/mqt/qudits/core/lanes.py
+++ b/src/mqt/qudits/core/lanes.py
@@ -46,8 +46,8 @@ class Lanes:
                     self.index_dict[index] = []
                 self.index_dict[index].append(gate_tuple)
             elif gate.gate_type in {GateTypes.TWO, GateTypes.MULTI}:
-                indices: list[int] = cast(list[int], gate.target_qudits)
-                for index in indices:
+                # Controlled gates occupy the lines of their controls as well
+                for index in gate.reference_lines:
                     if index not in self.index_dict:
                         self.index_dict[index] = []
                     self.index_dict[index].append(gate_tuple)
@@ -57,15 +57,18 @@ class Lanes:
 
     def extract_instructions(self) -> list[Gate]:
         combined_list = []
-        seen_ids = set()
+        seen: set[int] = set()
 
         for line in sorted(self.index_dict.keys()):  # Iterate over keys in sorted order
             for gate_tuple in self.index_dict[line]:
-                gate = gate_tuple[1]
-                obj_id = id(gate)
-                if obj_id not in seen_ids:
-                    combined_list.append(gate_tuple)
-                    seen_ids.add(obj_id)
+                # A gate on several lines is listed in each of them under its own counter, the same gate object
+                # may however be applied several times.
+                counter, gate = gate_tuple
+                if gate.gate_type != GateTypes.SINGLE:
+                    if counter in seen:
+                        continue
+                    seen.add(counter)
+                combined_list.append(gate_tuple)
 
         sorted_list = sorted(combined_list, key=operator.itemgetter(0))
         instructions_as_circuit: list[Gate] = [gate_tuple[1] for gate_tuple in sorted_list]
@@ -90,8 +93,7 @@ class Lanes:
                 else:
                     consecutive_groups[target_qudits] = [[gate_tuple]]
             else:
-                qudits_targeted: list[int] = cast(list[int], gate.target_qudits)
-                for qudit in qudits_targeted:
+                for qudit in gate.reference_lines:
                     consecutive_groups[qudit].append([gate_tuple])
                     consecutive_groups[qudit].append([])
         consecutive_groups = {
@@ -116,10 +118,7 @@ class Lanes:
 
         # Remove objects within the specified interval [start_index, end_index]
         ordering_id = gates_of_line[start_index][0]
-        objects_to_remove = [gates_of_line[i] for i in range(start_index, min(end_index + 1, len(gates_of_line)))]
-
-        for obj in objects_to_remove:
-            gates_of_line.remove(obj)
+        del gates_of_line[start_index : end_index + 1]
 
         # Add new_gate at the start_index
         gates_of_line.insert(start_index, (ordering_id, new_gate))
-- 
2.43.0


From 9160b35ef6d6e492a48c441e4fec58310a32baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 50/72] fix: count the controls of phase gates as used when
 removing phase gates

---
 .../local_phases_transpilation/remove_phase_rotations.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
index 91a1d64..094618e 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/remove_phase_rotations.py
@@ -40,10 +40,10 @@ class ZRemovalOptPass(CompilerPass):
                 break
 
             target_qudits = instruction.target_qudits
-            if isinstance(target_qudits, list):
-                # If target_qudits is a list, add each element to the set and
+            if isinstance(target_qudits, list) or len(instruction.reference_lines) > 1:
+                # If the gate acts on several qudits (targets or controls), add each of them to the set and
                 # continue to the next iteration because we work only with single gates
-                seen_target_qudits.update(target_qudits)
+                seen_target_qudits.update(instruction.reference_lines)
                 continue
             if target_qudits not in seen_target_qudits and isinstance(instruction, (gates.Rz, gates.VirtRz, gates.Z)):
                 indices_to_remove.append(i)
-- 
2.43.0


From 0313cf7327785549ddb994edf00e0beb4ac685e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 51/72] fix: keep gate order, adjoints and other gates when
 propagating phases

---
 .../propagate_virtrz.py                       | 69 +++++++++----------
 1 file changed, 32 insertions(+), 37 deletions(-)

diff --git a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
index 434332c..9eddb62 100644
--- a/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
+++ b/src/mqt/qudits/compiler/onedit/local_phases_transpilation/propagate_virtrz.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import copy
-from typing import TYPE_CHECKING, Union, cast
+from typing import TYPE_CHECKING, cast
 
 from ....quantum_circuit import gates
 from ... import CompilerPass
@@ -41,29 +41,19 @@ class ZPropagationOptPass(CompilerPass):
 
         from ....quantum_circuit.gates import R, VirtRz
 
-        for gate_index in range(len(line)):
-            if isinstance(line[gate_index], R):
-                # line[gate_index].lev_b
-                # object is R
+        for gate in line:
+            if isinstance(gate, R):
+                theta = -gate.theta if gate.dagger else gate.theta
                 if back:
-                    new_phi = pi_mod(
-                        line[gate_index].phi + z_angles[line[gate_index].lev_a] - z_angles[line[gate_index].lev_b]
-                    )
+                    new_phi = pi_mod(gate.phi + z_angles[gate.lev_a] - z_angles[gate.lev_b])
                 else:
-                    new_phi = pi_mod(
-                        line[gate_index].phi - z_angles[line[gate_index].lev_a] + z_angles[line[gate_index].lev_b]
-                    )
+                    new_phi = pi_mod(gate.phi - z_angles[gate.lev_a] + z_angles[gate.lev_b])
                 list_of_x_yrots.append(
-                    gates.R(
-                        circuit,
-                        "R",
-                        qudit_index,
-                        [line[gate_index].lev_a, line[gate_index].lev_b, line[gate_index].theta, new_phi],
-                        dimension,
-                    )
+                    gates.R(circuit, "R", qudit_index, [gate.lev_a, gate.lev_b, theta, new_phi], dimension)
                 )
-            elif isinstance(line[gate_index], VirtRz):  # except AttributeError:
-                z_angles[line[gate_index].lev_a] = pi_mod(z_angles[line[gate_index].lev_a] + line[gate_index].phi)
+            elif isinstance(gate, VirtRz):  # except AttributeError:
+                phi = -gate.phi if gate.dagger else gate.phi
+                z_angles[gate.lev_a] = pi_mod(z_angles[gate.lev_a] + phi)
         if back:
             list_of_x_yrots.reverse()
 
@@ -80,13 +70,9 @@ class ZPropagationOptPass(CompilerPass):
         intervals: list[tuple[int, ...]] = []
         current_interval: list[int] = []
         current_target_qudits: list[int] = []
-        target_qudits: list[int] = []
 
         for i, instruction in enumerate(instructions):
-            if isinstance(instruction.target_qudits, int):
-                target_qudits = [instruction.target_qudits]
-            elif isinstance(instruction.target_qudits, list):
-                target_qudits = instruction.target_qudits
+            target_qudits = instruction.reference_lines
 
             if len(current_target_qudits) == 0 or target_qudits == current_target_qudits:
                 # If it's the first gate_matrix or the target qudits are the same, add to the current interval
@@ -105,21 +91,30 @@ class ZPropagationOptPass(CompilerPass):
         return intervals
 
     def remove_z(self, original_circuit: QuantumCircuit, back: bool = True) -> QuantumCircuit:
+        from ....quantum_circuit.gates import R, VirtRz
+
         circuit = original_circuit.copy()
-        new_instructions: list[Gate] = copy.deepcopy(circuit.instructions)
+        instructions: list[Gate] = copy.deepcopy(circuit.instructions)
+        new_instructions: list[Gate] = []
         intervals: list[tuple[int, ...]] = self.find_intervals_with_same_target_qudits(circuit.instructions)
 
         for interval in intervals:
-            if len(interval) > 1:
-                from ....quantum_circuit.gates import R, VirtRz
-
-                sequence = cast(list[Union[R, VirtRz]], circuit.instructions[interval[0] : interval[-1] + 1])
-                fixed_seq: list[R] = []
-                z_tail: list[VirtRz] = []
-                fixed_seq, z_tail = self.propagate_z(circuit, sequence, back)
-
-                combined_seq = z_tail + fixed_seq if back else fixed_seq + z_tail
-                new_instructions[interval[0] : interval[-1] + 1] = []
-                new_instructions.extend(combined_seq)
+            sequence: list[R | VirtRz] = []
+            for index in interval:
+                gate = instructions[index]
+                if isinstance(gate, (R, VirtRz)) and len(gate.reference_lines) == 1:
+                    sequence.append(gate)
+                else:
+                    # The phases do not move through any other gate
+                    new_instructions.extend(self.propagate_sequence(circuit, sequence, back))
+                    new_instructions.append(gate)
+                    sequence = []
+            new_instructions.extend(self.propagate_sequence(circuit, sequence, back))
 
         return circuit.set_instructions(new_instructions)
+
+    def propagate_sequence(self, circuit: QuantumCircuit, sequence: list[R | VirtRz], back: bool) -> list[Gate]:
+        if len(sequence) < 2:
+            return list(sequence)
+        fixed_seq, z_tail = self.propagate_z(circuit, sequence, back)
+        return [*z_tail, *fixed_seq] if back else [*fixed_seq, *z_tail]
-- 
2.43.0


From 57b8f769603d582c925f1a3a24b2065f6d38e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 52/72] fix: undo the reported level placement in the right
 direction

---
 src/mqt/qudits/visualisation/plot_information.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index 1bc688f..d3e403f 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -23,7 +23,8 @@ def remap_result(
         permutation = np.eye(circuit.dimensions[0])[:, circuit.mappings[0]]
         for i in range(1, len(circuit.mappings)):
             permutation = np.kron(permutation, np.eye(circuit.dimensions[i])[:, circuit.mappings[i]])
-        return new_result @ np.linalg.inv(permutation)
+        # the logical amplitude is found at the physical level of its label
+        return new_result @ permutation
     return new_result
 
 
-- 
2.43.0


From 4f5d37e3f460c883ee4cd46ec4d3ac907ab0691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 53/72] fix: decompose two-qudit gates into operations on the
 physical levels of the device

---
 .../entanglement_qr/phy_ent_qr_cex_decomp.py  | 69 +++++++++----------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
index d3ad43e..420a944 100644
--- a/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
+++ b/src/mqt/qudits/compiler/twodit/entanglement_qr/phy_ent_qr_cex_decomp.py
@@ -4,11 +4,13 @@ import gc
 from copy import copy
 from typing import TYPE_CHECKING, cast
 
+import numpy as np
+
 from mqt.qudits.compiler import CompilerPass
 from mqt.qudits.compiler.onedit import PhyLocQRPass
 from mqt.qudits.compiler.twodit.entanglement_qr import EntangledQRCEX
 from mqt.qudits.quantum_circuit.components.extensions.gate_types import GateTypes
-from mqt.qudits.quantum_circuit.gates import CEx, Perm
+from mqt.qudits.quantum_circuit.gates import CEx
 
 if TYPE_CHECKING:
     from mqt.qudits.quantum_circuit import QuantumCircuit
@@ -24,46 +26,41 @@ class PhyEntQRCEXPass(CompilerPass):
         self.circuit = QuantumCircuit()
 
     def transpile_gate(self, gate: Gate) -> list[Gate]:
-        target_qudits = cast(list[int], gate.target_qudits)
-        dimensions = cast(list[int], gate.dimensions)
-
-        energy_graph_c = self.backend.energy_level_graphs[target_qudits[0]]
-        energy_graph_t = self.backend.energy_level_graphs[target_qudits[1]]
-
-        lp_map_0 = [lev for lev in energy_graph_c.log_phy_map if lev < dimensions[0]]
-        lp_map_1 = [lev for lev in energy_graph_t.log_phy_map if lev < dimensions[1]]
-
         if isinstance(gate, CEx):
-            parent_circ = gate.parent_circuit
-            new_ctrl_lev = lp_map_0[gate.ctrl_lev]
-            new_la = lp_map_1[gate.lev_a]
-            new_lb = lp_map_1[gate.lev_b]
-            if new_la < new_lb:
-                new_parameters = [new_la, new_lb, new_ctrl_lev, gate.phi]
-            else:
-                new_parameters = [new_lb, new_la, new_ctrl_lev, gate.phi]
-            tcex = CEx(parent_circ, "CEx_t" + str(target_qudits), target_qudits, new_parameters, dimensions, None)
-            return [tcex]
-
-        perm_0 = Perm(gate.parent_circuit, "Pm_ent_0", target_qudits[0], lp_map_0, dimensions[0])
-        perm_1 = Perm(gate.parent_circuit, "Pm_ent_1", target_qudits[1], lp_map_1, dimensions[1])
-        perm_0_dag = Perm(gate.parent_circuit, "Pm_ent_0", target_qudits[0], lp_map_0, dimensions[0]).dag()
-        perm_1_dag = Perm(gate.parent_circuit, "Pm_ent_1", target_qudits[1], lp_map_1, dimensions[1]).dag()
-
-        phyloc = PhyLocQRPass(self.backend)
-        perm_0_seq = phyloc.transpile_gate(perm_0)
-        perm_1_seq = phyloc.transpile_gate(perm_1)
-        perm_0_d_seq = phyloc.transpile_gate(perm_0_dag)
-        perm_1_d_seq = phyloc.transpile_gate(perm_1_dag)
+            return [self.place_cex(gate)]
 
+        # The logical decomposition maps its gate to the identity, so its reversed adjoint realises the gate.
         eqr = EntangledQRCEX(gate)
         decomp, _countcr, _countpsw = eqr.execute()
-        perm_0_d_seq.extend(perm_1_d_seq)
-        perm_0_d_seq.extend(decomp)
-        perm_0_d_seq.extend(perm_0_seq)
-        perm_0_d_seq.extend(perm_1_seq)
 
-        return [copy(op).dag() for op in reversed(decomp)]
+        phyloc = PhyLocQRPass(self.backend)
+        sequence: list[Gate] = []
+        for op in reversed(decomp):
+            logical_op = copy(op).dag()
+            if isinstance(logical_op, CEx):
+                sequence.append(self.place_cex(logical_op))
+            else:
+                sequence.extend(phyloc.transpile_gate(logical_op))
+        return sequence
+
+    def place_cex(self, gate: CEx) -> CEx:
+        """Let the gate act on the physical levels of the logical ones it is defined on."""
+        target_qudits = cast(list[int], gate.target_qudits)
+        lp_map_0 = self.backend.energy_level_graphs[target_qudits[0]].log_phy_map
+        lp_map_1 = self.backend.energy_level_graphs[target_qudits[1]].log_phy_map
+
+        new_ctrl_lev = lp_map_0[gate.ctrl_lev]
+        new_la = lp_map_1[gate.lev_a]
+        new_lb = lp_map_1[gate.lev_b]
+        if new_la < new_lb:
+            new_parameters = [new_la, new_lb, new_ctrl_lev, gate.phi]
+        else:
+            # exchanging the levels inverts the phase of the rotation
+            new_parameters = [new_lb, new_la, new_ctrl_lev, float(np.mod(-gate.phi, 2 * np.pi))]
+        tcex = CEx(
+            gate.parent_circuit, "CEx_t" + str(target_qudits), target_qudits, new_parameters, gate.dimensions, None
+        )
+        return tcex.dag() if gate.dagger else tcex
 
     def transpile(self, circuit: QuantumCircuit) -> QuantumCircuit:
         self.circuit = circuit
-- 
2.43.0


From 6e7f89daed12fa8b77258965f5bec2e35a420653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 54/72] fix: start every compilation from the placement of the
 device and apply whole-circuit passes of a pass list

---
 src/mqt/qudits/compiler/dit_compiler.py       | 73 +++++++++++--------
 .../naive_local_resynth/local_resynth.py      |  5 --
 2 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/src/mqt/qudits/compiler/dit_compiler.py b/src/mqt/qudits/compiler/dit_compiler.py
index b912752..47d9daa 100644
--- a/src/mqt/qudits/compiler/dit_compiler.py
+++ b/src/mqt/qudits/compiler/dit_compiler.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import typing
 from typing import Optional
 
@@ -34,48 +35,67 @@ class QuditCompiler:
     def __init__(self) -> None:
         pass
 
+    @staticmethod
+    def private_device(backend: Backend) -> Backend:
+        """The device with its own level graphs, as the passes move the levels of the graphs they work on."""
+        device = copy.copy(backend)
+        device._energy_level_graphs = copy.deepcopy(backend.energy_level_graphs)  # noqa: SLF001
+        return device
+
+    @staticmethod
+    def level_mappings(backend: Backend, circuit: QuantumCircuit) -> list[list[int]]:
+        mappings = []
+        for i, graph in enumerate(backend.energy_level_graphs):
+            if i < circuit.num_qudits:
+                mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
+        return mappings
+
     def compile(self, backend: Backend, circuit: QuantumCircuit, passes_names: list[str]) -> QuantumCircuit:
-        passes_dict = {}
-        new_instr = []
+        backend = self.private_device(backend)
+        passes_dict: dict[GateTypes, CompilerPass] = {}
+        physical = False
+        transpiled_circuit = circuit.copy()
         # Instantiate and execute created classes
         for compiler_pass_name in passes_names:
             compiler_pass = self.passes_enabled[compiler_pass_name]
             decomposition = compiler_pass(backend)
-            if "Loc" in str(compiler_pass):
+            physical = physical or issubclass(compiler_pass, (PhyLocQRPass, PhyLocAdaPass, PhyEntQRCEXPass))
+            if issubclass(compiler_pass, (NaiveLocResynthOptPass, ZPropagationOptPass, ZRemovalOptPass)):
+                # these passes look at the circuit as a whole
+                transpiled_circuit = self.decompose_gates(transpiled_circuit, passes_dict)
+                transpiled_circuit = decomposition.transpile(transpiled_circuit)
+                passes_dict = {}
+            elif "Loc" in str(compiler_pass):
                 passes_dict[GateTypes.SINGLE] = decomposition
             elif "Ent" in str(compiler_pass):
                 passes_dict[GateTypes.TWO] = decomposition
             elif "Multi" in str(compiler_pass):
                 passes_dict[GateTypes.MULTI] = decomposition
+        transpiled_circuit = self.decompose_gates(transpiled_circuit, passes_dict)
+
+        if physical:
+            transpiled_circuit.set_mapping(self.level_mappings(backend, circuit))
+        return transpiled_circuit
+
+    @staticmethod
+    def decompose_gates(circuit: QuantumCircuit, passes: dict[GateTypes, CompilerPass]) -> QuantumCircuit:
+        new_instr = []
         for gate in circuit.instructions:
-            decomposer = typing.cast(Optional[CompilerPass], passes_dict.get(gate.gate_type))
+            decomposer = typing.cast(Optional[CompilerPass], passes.get(gate.gate_type))
             if decomposer is not None:
                 new_instructions = decomposer.transpile_gate(gate)
                 new_instr.extend(new_instructions)
             else:
                 new_instr.append(gate)
-
-        transpiled_circuit = circuit.copy()
-        mappings = []
-        for i, graph in enumerate(backend.energy_level_graphs):
-            if i < circuit.num_qudits:
-                mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
-        transpiled_circuit.set_mapping(mappings)
-        return transpiled_circuit.set_instructions(new_instr)
+        return circuit.set_instructions(new_instr)
 
     def compile_O0(self, backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
         passes = ["PhyLocQRPass", "PhyEntQRCEXPass"]
-        compiled = self.compile(backend, circuit, passes)
-
-        mappings = []
-        for i, graph in enumerate(backend.energy_level_graphs):
-            if i < circuit.num_qudits:
-                mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
-        compiled.set_mapping(mappings)
-        return compiled
+        return self.compile(backend, circuit, passes)
 
     @staticmethod
     def compile_O1(backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
+        backend = QuditCompiler.private_device(backend)
         phyloc = PhyLocQRPass(backend)
         phyent = PhyEntQRCEXPass(backend)
         resynth = NaiveLocResynthOptPass(backend)
@@ -91,15 +111,12 @@ class QuditCompiler:
                 ins = phyent.transpile_gate(gate)
                 new_instructions.extend(ins)
         transpiled_circuit = circuit.copy()
-        mappings = []
-        for i, graph in enumerate(backend.energy_level_graphs):
-            if i < circuit.num_qudits:
-                mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
-        transpiled_circuit.set_mapping(mappings)
+        transpiled_circuit.set_mapping(QuditCompiler.level_mappings(backend, circuit))
         return transpiled_circuit.set_instructions(new_instructions)
 
     @staticmethod
     def compile_O2(backend: Backend, circuit: QuantumCircuit) -> QuantumCircuit:  # noqa: N802
+        backend = QuditCompiler.private_device(backend)
         phyent = PhyEntQRCEXPass(backend)
 
         lanes = Lanes(circuit)
@@ -114,9 +131,5 @@ class QuditCompiler:
                 ins = phyent.transpile_gate(gate)
                 new_instructions.extend(ins)
         transpiled_circuit = circuit.copy()
-        mappings = []
-        for i, graph in enumerate(backend.energy_level_graphs):
-            if i < circuit.num_qudits:
-                mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
-        transpiled_circuit.set_mapping(mappings)
+        transpiled_circuit.set_mapping(QuditCompiler.level_mappings(backend, circuit))
         return transpiled_circuit.set_instructions(new_instructions)
diff --git a/src/mqt/qudits/compiler/naive_local_resynth/local_resynth.py b/src/mqt/qudits/compiler/naive_local_resynth/local_resynth.py
index 5dc5931..05c5ead 100644
--- a/src/mqt/qudits/compiler/naive_local_resynth/local_resynth.py
+++ b/src/mqt/qudits/compiler/naive_local_resynth/local_resynth.py
@@ -54,9 +54,4 @@ class NaiveLocResynthOptPass(CompilerPass):
         new_instructions = self.lanes.extract_instructions()
 
         transpiled_circuit = circuit.copy()
-        mappings = []
-        for i, graph in enumerate(self.backend.energy_level_graphs):
-            if i < circuit.num_qudits:
-                mappings.append([lev for lev in graph.log_phy_map if lev < circuit.dimensions[i]])
-        transpiled_circuit.set_mapping(mappings)
         return transpiled_circuit.set_instructions(new_instructions)
-- 
2.43.0


From f443aaddcecc8e5bd4f9c3e8462d987613a17c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 55/72] fix: select the control and target qudits of controlled
 gates for noise

---
 .../simulation/noise_tools/noisy_circuit_factory.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 5334c6d..582efba 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -140,6 +140,9 @@ class NoisyCircuitFactory:
         return instruction.reference_lines
 
     def _get_control_qudits(self, instruction: Gate) -> list[int]:
+        controls = instruction.control_info["controls"]
+        if controls is not None:
+            return list(controls.indices)
         self._validate_two_qudit_gate(instruction)
         qudits_targeted = cast(list[int], instruction.target_qudits)
         return qudits_targeted[:1]
@@ -157,11 +160,11 @@ class NoisyCircuitFactory:
         Returns:
         List of target qudit indices, excluding control qudits
         """
-        if instruction.gate_type != GateTypes.SINGLE:
-            qudits_targeted = instruction.reference_lines
-            return qudits_targeted[1:]
-
-        return [cast(int, instruction.target_qudits)]
+        if isinstance(instruction.target_qudits, int):
+            return [instruction.target_qudits]
+        if instruction.control_info["controls"] is not None:
+            return list(instruction.target_qudits)
+        return instruction.target_qudits[1:]
 
     @staticmethod
     def _validate_two_qudit_gate(instruction: Gate) -> None:
-- 
2.43.0


From 45c850db47953ded3497a7bd638cad680c09cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 56/72] fix: apply the dephasing of mathematical noise

---
 .../noise_tools/noisy_circuit_factory.py           | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index 582efba..d65bca1 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -223,7 +223,10 @@ class NoisyCircuitFactory:
     def _apply_dephasing_noise(
         self, noisy_circuit: QuantumCircuit, qudits: list[int], noise_info: Noise | SubspaceNoise
     ) -> None:
-        """Applies dephasing noise to specified qudit levels outside the main depolarizing subspace levels.
+        """Applies dephasing noise to specified qudits.
+
+        Mathematical noise applies one of the powers of Z, each with the same probability; physical noise
+        dephases the qudit levels outside the main depolarizing subspace levels.
 
         Args:
             noisy_circuit: Circuit to apply noise to
@@ -233,7 +236,14 @@ class NoisyCircuitFactory:
         Raises:
             IndexError: If subspace levels are outside qudit dimensions
         """
-        if isinstance(noise_info, SubspaceNoise):  # Physical Noise
+        if isinstance(noise_info, Noise):  # Mathematical Description of Dephasing noise channel
+            for dit in qudits:
+                dim = noisy_circuit.dimensions[dit]
+                prob_each = noise_info.probability_dephasing / dim
+                probabilities = [1 - prob_each * (dim - 1)] + [prob_each] * (dim - 1)
+                for _ in range(self.rng.choice(dim, p=probabilities)):
+                    noisy_circuit.z(dit)
+        elif isinstance(noise_info, SubspaceNoise):  # Physical Noise
             for dit in qudits:
                 dim = noisy_circuit.dimensions[dit]
                 possible_levels = set(range(dim))  # Changed to set for efficient operations
-- 
2.43.0


From 3a64e1ee353370faa86c16e60604089041c6b31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 57/72] fix: keep the noise of different gates in a noise model
 apart

---
 src/mqt/qudits/simulation/noise_tools/noise.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noise.py b/src/mqt/qudits/simulation/noise_tools/noise.py
index be301c1..225d1bc 100644
--- a/src/mqt/qudits/simulation/noise_tools/noise.py
+++ b/src/mqt/qudits/simulation/noise_tools/noise.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import copy
+
 
 class Noise:
     """Represents a noise model with depolarizing and dephasing probabilities."""
@@ -98,7 +100,8 @@ class NoiseModel:
             if gate not in self.quantum_errors:
                 self.quantum_errors[gate] = {}
             if mode not in self.quantum_errors[gate]:
-                self.quantum_errors[gate][mode] = noise  # empty case
+                # every entry owns its noise, so that extending it later leaves the other entries alone
+                self.quantum_errors[gate][mode] = copy.deepcopy(noise)  # empty case
             elif isinstance(noise, Noise):
                 msg = "Mathematical noise has been defined multiple times!"
                 raise ValueError(msg)
@@ -106,7 +109,7 @@ class NoiseModel:
                 existing_instance = self.quantum_errors[gate][mode]
                 assert isinstance(existing_instance, SubspaceNoise)
                 existing_instance.add_noises(
-                    noise.subspace_w_probs
+                    copy.deepcopy(noise.subspace_w_probs)
                 )  # add the noise info to the existing SubspaceNoise instance
 
     def add_quantum_error_locally(self, noise: Noise | SubspaceNoise, gates: list[str]) -> None:
-- 
2.43.0


From e22ab8ceee4018f830be7016b701730db244aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 58/72] fix: seed every noisy circuit factory independently

---
 .../qudits/simulation/noise_tools/noisy_circuit_factory.py  | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
index d65bca1..e455de7 100644
--- a/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
+++ b/src/mqt/qudits/simulation/noise_tools/noisy_circuit_factory.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import copy
-import os
-import time
 from functools import partial
 from itertools import product
 from typing import TYPE_CHECKING, cast
@@ -31,9 +29,7 @@ class NoisyCircuitFactory:
 
     @staticmethod
     def _initialize_rng() -> Generator:
-        current_time = int(time.time() * 1000)
-        seed = hash((os.getpid(), current_time)) % 2**32
-        return np.random.default_rng(seed)
+        return np.random.default_rng()
 
     def generate_circuit(self) -> QuantumCircuit:
         noisy_circuit = QuantumCircuit(self.circuit.num_qudits, self.circuit.dimensions, self.circuit.num_cl)
-- 
2.43.0


From 9e4556cf58661f994705d008c25a50b0035e2a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 59/72] fix: seed the measurement of every shot independently

---
 src/mqt/qudits/simulation/backends/stochastic_sim.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/stochastic_sim.py b/src/mqt/qudits/simulation/backends/stochastic_sim.py
index a3f78e4..2415e7d 100644
--- a/src/mqt/qudits/simulation/backends/stochastic_sim.py
+++ b/src/mqt/qudits/simulation/backends/stochastic_sim.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
 import multiprocessing as mp
-import os
-import time
 from typing import TYPE_CHECKING
 
 import numpy as np
@@ -20,8 +18,7 @@ if TYPE_CHECKING:
 
 def generate_seed() -> int:
     """Generate a random seed for numpy random generator."""
-    current_time = int(time.time() * 1000)
-    return hash((os.getpid(), current_time)) % 2**32
+    return int(np.random.SeedSequence().generate_state(1)[0])
 
 
 def measure_state(vector_data: NDArray[np.complex128]) -> int:
-- 
2.43.0


From dbbb0c59bed28c1fece3e8fcecb7d191ab8542b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 60/72] fix: draw the noise of every shot independently

---
 src/mqt/qudits/simulation/backends/stochastic_sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqt/qudits/simulation/backends/stochastic_sim.py b/src/mqt/qudits/simulation/backends/stochastic_sim.py
index 2415e7d..a6462bb 100644
--- a/src/mqt/qudits/simulation/backends/stochastic_sim.py
+++ b/src/mqt/qudits/simulation/backends/stochastic_sim.py
@@ -63,6 +63,8 @@ def stochastic_simulation(backend: Backend, circuit: QuantumCircuit) -> NDArray
 
 def stochastic_execution_tn(args: tuple[TNSim, NoisyCircuitFactory]) -> NDArray | int:
     backend, factory = args
+    # the factory is copied to the processes along with its generator, so every shot needs a fresh one
+    factory.rng = np.random.default_rng()
     circuit = factory.generate_circuit()
     vector_data = backend.execute(circuit)
     return vector_data if backend.full_state_memory else measure_state(vector_data)
-- 
2.43.0


From e2e34e2829ea36335fbcf96216dae33364f78e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 61/72] fix: keep circuit and qudit of a level graph when
 swapping its nodes

---
 src/mqt/qudits/core/level_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/core/level_graph.py b/src/mqt/qudits/core/level_graph.py
index 3d1cb88..3835dda 100644
--- a/src/mqt/qudits/core/level_graph.py
+++ b/src/mqt/qudits/core/level_graph.py
@@ -159,7 +159,7 @@ class LevelGraph(nx.Graph):  # type: ignore[misc]
     def swap_nodes(self, node_a: int, node_b: int) -> LevelGraph:
         nodes = self.swap_node_attributes(node_a, node_b)
         # ------------------------------------------------
-        new_graph = LevelGraph([], nodes)
+        new_graph = LevelGraph([], nodes, qudit_index=self.qudit_index, og_circuit=self.og_circuit)
 
         edges = self.deep_copy_func(list(self.edges))
 
-- 
2.43.0


From 319edca4eb36ddd464f107679cd05b94adeec2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 62/72] fix: exchange the stored phases of the named levels

---
 src/mqt/qudits/core/level_graph.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/mqt/qudits/core/level_graph.py b/src/mqt/qudits/core/level_graph.py
index 3835dda..39f41d3 100644
--- a/src/mqt/qudits/core/level_graph.py
+++ b/src/mqt/qudits/core/level_graph.py
@@ -145,10 +145,6 @@ class LevelGraph(nx.Graph):  # type: ignore[misc]
         return nodelistcopy
 
     def swap_node_attr_simple(self, node_a: int, node_b: int) -> None:
-        res_list = [x[0] for x in self.nodes(data=True)]
-        node_a = res_list.index(node_a)
-        node_b = res_list.index(node_b)
-
         inode = self.fst_inode
         if "phase_storage" in self.nodes[inode]:
             phi_a = self.nodes[node_a]["phase_storage"]
-- 
2.43.0


From 1e4935b086d6ca1a6498ce6e7e3935f345b9edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 63/72] fix: count the root when refreshing the size of a
 search tree

---
 src/mqt/qudits/core/dfs_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqt/qudits/core/dfs_tree.py b/src/mqt/qudits/core/dfs_tree.py
index 521a40d..5c0941a 100644
--- a/src/mqt/qudits/core/dfs_tree.py
+++ b/src/mqt/qudits/core/dfs_tree.py
@@ -194,8 +194,8 @@ class NAryTree:
 
     @property
     def total_size(self) -> int:
-        self.size = self.size_refresh(self.root)
-        return self.size + 1
+        self.size = self.size_refresh(self.root) + 1
+        return self.size
 
     def print_tree(self, node: Node, str_aux: str) -> str:
         f = ""
-- 
2.43.0


From 09fd131cd7bbb5cde31277c5ff56d360b5842811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 64/72] fix: give the local unitaries of the ansatz independent
 parameters

---
 .../parametrize.py                              | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py
index 88daf1f..bf7617a 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/parametrize.py
@@ -48,14 +48,6 @@ def generic_sud(params: list[float] | NDArray[np.float64], dimension: int) -> ND
     # required well-structured d2 -1 params
     c_unitary = np.identity(dimension, dtype="complex")
 
-    for diag_index in range(dimension - 1):
-        l_vec = from_dirac_to_basis([diag_index], dimension)
-        d_vec = from_dirac_to_basis([dimension - 1], dimension)
-
-        zld = np.outer(np.array(l_vec), np.array(l_vec).T.conj()) - np.outer(np.array(d_vec), np.array(d_vec).T.conj())
-
-        c_unitary = np.matmul(c_unitary, expm(1j * params[reindex(diag_index, diag_index, dimension)] * zld))
-
     for m in range(dimension - 1):
         for n in range(m + 1, dimension):
             m_vec = from_dirac_to_basis([m], dimension)
@@ -73,4 +65,13 @@ def generic_sud(params: list[float] | NDArray[np.float64], dimension: int) -> ND
 
             c_unitary = np.matmul(c_unitary, expm(1j * params[reindex(m, n, dimension)] * ymn))
 
+    # on the left, the phases would merge with those of the first rotation: d^2 - 2 parameters
+    for diag_index in range(dimension - 1):
+        l_vec = from_dirac_to_basis([diag_index], dimension)
+        d_vec = from_dirac_to_basis([dimension - 1], dimension)
+
+        zld = np.outer(np.array(l_vec), np.array(l_vec).T.conj()) - np.outer(np.array(d_vec), np.array(d_vec).T.conj())
+
+        c_unitary = np.matmul(c_unitary, expm(1j * params[reindex(diag_index, diag_index, dimension)] * zld))
+
     return c_unitary
-- 
2.43.0


From ccc7a614a253a215a394bc530372aca26c3ba466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 65/72] fix: build the custom ansatz from the matrix of the
 primitive

---
 .../twodit/variational_twodit_compilation/ansatz/ansatz_gen.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
index 48a2ec2..192ef12 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_gen.py
@@ -39,7 +39,7 @@ def prepare_ansatz(u: Gate | None, params: list[list[float]], dims: list[int]) -
 def cu_ansatz(p: list[float], dims: list[int]) -> NDArray[np.complex128, np.complex128]:
     params = params_splitter(p, dims)
     cu = Primitive.CUSTOM_PRIMITIVE
-    return prepare_ansatz(cu, params, dims)
+    return prepare_ansatz(None if cu is None else cu.to_matrix(), params, dims)
 
 
 def ms_ansatz(p: list[float], dims: list[int]) -> NDArray[np.complex128, np.complex128]:
-- 
2.43.0


From 23dba22d6207f3d8e1178e6bc6233c68d1292886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 66/72] fix: order and place the gates of an instantiated
 ansatz like its matrix, and report an unreached tolerance

---
 .../ansatz/instantiate.py                     | 31 +++++++++++++------
 .../layered_compilation.py                    | 15 ++++++---
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
index 592ec9d..1a0d94b 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/instantiate.py
@@ -18,7 +18,7 @@ if typing.TYPE_CHECKING:
 
 
 def ansatz_decompose(
-    circuit: QuantumCircuit, u: Gate | None, params: list[list[float]], dims: list[int]
+    circuit: QuantumCircuit, u: Gate | None, params: list[list[float]], dims: list[int], lines: Sequence[int] = (0, 1)
 ) -> Sequence[Gate]:
     if u is None:
         msg = "Custom Gate not set."
@@ -31,28 +31,39 @@ def ansatz_decompose(
             decomposition.append(u)
 
         decomposition.append(
-            CustomOne(circuit, "CUo_SUD", counter, generic_sud(params[i], dims[counter]), dims[counter])
+            CustomOne(circuit, "CUo_SUD", lines[counter], generic_sud(params[i], dims[counter]), dims[counter])
         )
 
         counter += 1
 
+    # the ansatz multiplies these factors from left to right: the last one acts first
+    decomposition.reverse()
     return decomposition
 
 
-def create_cu_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_cu_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: Sequence[int] = (0, 1)
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
     cu = Primitive.CUSTOM_PRIMITIVE
-    return ansatz_decompose(circuit, cu, params, dims)
+    if cu is not None and sorted(cu.reference_lines) != list(lines):
+        msg = f"The custom primitive acts on qudits {cu.reference_lines}, the ansatz on {list(lines)}."
+        raise ValueError(msg)
+    return ansatz_decompose(circuit, cu, params, dims, lines)
 
 
-def create_ms_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_ms_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: Sequence[int] = (0, 1)
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
-    ms = gates.MS(circuit, "MS", [0, 1], [np.pi / 2], dims)  # ms_gate(np.pi / 2, dim)
+    ms = gates.MS(circuit, "MS", list(lines), [np.pi / 2], dims)  # ms_gate(np.pi / 2, dim)
 
-    return ansatz_decompose(circuit, ms, params, dims)
+    return ansatz_decompose(circuit, ms, params, dims, lines)
 
 
-def create_ls_instance(circuit: QuantumCircuit, p: list[float], dims: list[int]) -> Sequence[Gate]:
+def create_ls_instance(
+    circuit: QuantumCircuit, p: list[float], dims: list[int], lines: Sequence[int] = (0, 1)
+) -> Sequence[Gate]:
     params = params_splitter(p, dims)
 
     if 2 in dims:
@@ -62,6 +73,6 @@ def create_ls_instance(circuit: QuantumCircuit, p: list[float], dims: list[int])
     else:
         theta = np.pi
 
-    ls = gates.LS(circuit, "LS", [0, 1], [theta], dims)  # ls_gate(theta, dim)
+    ls = gates.LS(circuit, "LS", list(lines), [theta], dims)  # ls_gate(theta, dim)
 
-    return ansatz_decompose(circuit, ls, params, dims)
+    return ansatz_decompose(circuit, ls, params, dims, lines)
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
index ad80b61..ae1c40b 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/layered_compilation.py
@@ -25,18 +25,23 @@ def variational_compile(
     layers: int,
     custom_primitive: Gate | None = None,
 ) -> QuantumCircuit:
-    dim_0, dim_1 = itemgetter(*target.reference_lines)(target.parent_circuit.dimensions)
+    # the matrix of the target is indexed by its qudits in increasing order
+    lines = sorted(target.reference_lines)
+    dim_0, dim_1 = itemgetter(*lines)(target.parent_circuit.dimensions)
     Primitive.set_class_variables(custom_primitive)
     Optimizer.set_class_variables(target.to_matrix(), tolerance, dim_0, dim_1, layers)
-    _best_layer, _best_error, parameters = binary_search_compile(layers, ansatz_type)
+    _best_layer, best_error, parameters = binary_search_compile(layers, ansatz_type)
+    if best_error > tolerance:
+        msg = f"No decomposition within tolerance {tolerance} was found with up to {layers} layers."
+        raise RuntimeError(msg)
 
     circuit = copy.deepcopy(target.parent_circuit)
     if ansatz_type == "MS":  # MS is 0
-        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_ms_instance(circuit, parameters, [dim_0, dim_1], lines)
     elif ansatz_type == "LS":  # LS is 1
-        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_ls_instance(circuit, parameters, [dim_0, dim_1], lines)
     elif ansatz_type == "CU":
-        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1])
+        gates = create_cu_instance(circuit, parameters, [dim_0, dim_1], lines)
     else:
         raise ValueError
     circuit.set_instructions(gates)
-- 
2.43.0


From 2583df0537f569525fa1d347def57d149917d9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 67/72] fix: order and place the rotations of a sparsified gate
 like its matrix

---
 .../variational_twodit_compilation/sparsifier.py  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
index f012e91..86d2549 100644
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/sparsifier.py
@@ -36,17 +36,20 @@ def apply_rotations(
 def instantiate_rotations(circuit: QuantumCircuit, gate: Gate, params_list: list[float]) -> list[Gate]:
     gate = copy.deepcopy(gate)
     gate.parent_circuit = circuit
-    dims = typing.cast(list[int], gate.dimensions)
+    # the matrix of the gate is indexed by its qudits in increasing order
+    lines = sorted(gate.reference_lines)
+    dims = [circuit.dimensions[line] for line in lines]
     params = params_splitter(params_list, dims)
 
     decomposition: list[Gate] = []
 
+    # the matrix is r1 r2 m r3 r4: the last factors act first
     decomposition.extend((
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[0], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[1], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", lines[1], generic_sud(params[3], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", lines[0], generic_sud(params[2], dims[0]), dims[0]),
         gate,
-        CustomOne(circuit, "CUo_SUD", 0, generic_sud(params[2], dims[0]), dims[0]),
-        CustomOne(circuit, "CUo_SUD", 1, generic_sud(params[3], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", lines[1], generic_sud(params[1], dims[1]), dims[1]),
+        CustomOne(circuit, "CUo_SUD", lines[0], generic_sud(params[0], dims[0]), dims[0]),
     ))
 
     return decomposition
@@ -121,7 +124,7 @@ def objective_function(thetas: list[float], m: NDArray[np.complex128, np.complex
 
 def sparsify(gate: Gate, tol: float = 0.1) -> QuantumCircuit:
     m = gate.to_matrix()
-    dims = typing.cast(list[int], gate.dimensions)
+    dims = [gate.parent_circuit.dimensions[line] for line in sorted(gate.reference_lines)]
 
     Optimizer.set_class_variables(m, tol, dims[0], dims[1])
     bounds = Optimizer.return_bounds()
-- 
2.43.0


From 580d865e4d58f242f605fd622755f88aad902b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 68/72] fix: end the variational search with its result, and
 its timer with the search

---
 .../ansatz/ansatz_solve_n_search.py                   | 11 ++++++-----
 .../variational_twodit_compilation/opt/optimizer.py   |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
index 6251756..ac48305 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/ansatz/ansatz_solve_n_search.py
@@ -52,13 +52,14 @@ def run(num_layer: int, ansatz_type: Literal["MS", "LS", "CU"]) -> tuple[float,
 
     result_queue: queue.Queue[tuple[float, list[float]]] = queue.Queue()
 
-    thread = threading.Thread(target=Optimizer.solve_anneal, args=(bounds, ansatz_type, result_queue))
-    thread.start()
-
+    Optimizer.timer_var = False
     timer = threading.Timer(duration, interrupt_function)
+    timer.daemon = True
     timer.start()
-
-    thread.join()
+    try:
+        Optimizer.solve_anneal(bounds, ansatz_type, result_queue)
+    finally:
+        timer.cancel()
     f, x = result_queue.get()
 
     return f, x
diff --git a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
index e0ec224..b96a6ec 100755
--- a/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
+++ b/src/mqt/qudits/compiler/twodit/variational_twodit_compilation/opt/optimizer.py
@@ -139,4 +139,4 @@ class Optimizer:
             result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
 
         except TimeoutError:
-            result_queue.put((cls.FUN_SOLUTION, cls.X_SOLUTION))
+            result_queue.put((np.inf, []))
-- 
2.43.0


From 336372f785c47271a1a3cc453ea5f03c14b8fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 69/72] fix: number basis states of large qudits unambiguously,
 count outcomes in arrays

---
 .../visualisation/mini_quantum_information.py       | 13 ++-----------
 src/mqt/qudits/visualisation/plot_information.py    | 12 ++++--------
 2 files changed, 6 insertions(+), 19 deletions(-)

diff --git a/src/mqt/qudits/visualisation/mini_quantum_information.py b/src/mqt/qudits/visualisation/mini_quantum_information.py
index be027b8..3d20fd7 100644
--- a/src/mqt/qudits/visualisation/mini_quantum_information.py
+++ b/src/mqt/qudits/visualisation/mini_quantum_information.py
@@ -7,10 +7,6 @@ from typing import TYPE_CHECKING
 
 import numpy as np
 
-from mqt.qudits.quantum_circuit.components.extensions.matrix_factory import from_dirac_to_basis
-
-from .plot_information import state_labels
-
 if TYPE_CHECKING:
     from numpy.typing import NDArray
 
@@ -23,13 +19,8 @@ def get_density_matrix_from_counts(
     num_kets = reduce(operator.mul, circuit.dimensions)
     number_counts = Counter(results)
     probabilities = [(number_counts[num] / len(results)) for num in range(num_kets)]
-    kets: list[NDArray[complex]] = [
-        from_dirac_to_basis([int(char) for char in state], circuit.dimensions) for state in state_labels(circuit)
-    ]
-    density_matrix: NDArray[np.complex128] = np.zeros((num_kets, num_kets))
-    for k, p in zip(kets, probabilities):
-        density_matrix += p * np.outer(k, k.conj())
-
+    # the outcomes number the basis states in circuit order
+    density_matrix: NDArray[np.complex128] = np.diag(probabilities)
     return density_matrix
 
 
diff --git a/src/mqt/qudits/visualisation/plot_information.py b/src/mqt/qudits/visualisation/plot_information.py
index d3e403f..68cd79e 100644
--- a/src/mqt/qudits/visualisation/plot_information.py
+++ b/src/mqt/qudits/visualisation/plot_information.py
@@ -88,14 +88,9 @@ def state_labels(circuit: QuantumCircuit) -> list[str]:
     logic = [list(range(d)) for d in dimensions]
     lut = [list(element) for element in itertools.product(*logic)]
 
-    string_states = []
-    for item in lut:
-        s = ""
-        for state in item:
-            s += str(state)
-        string_states.append(s)
-
-    return string_states
+    # levels of more than one digit have to be told apart
+    separator = "," if max(dimensions) > 10 else ""
+    return [separator.join(str(state) for state in item) for item in lut]
 
 
 def plot_state(
@@ -114,6 +109,7 @@ def plot_state(
 
 def plot_counts(measurements: list[int] | NDArray[int], circuit: QuantumCircuit) -> list[int] | NDArray[int]:
     labels = state_labels(circuit)
+    measurements = list(measurements)
     counts = [measurements.count(i) for i in range(len(labels))]
     counts = remap_result(counts, circuit)
 
-- 
2.43.0


From e1d7d340808115a34e82e03e1a0062547c8c8b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 70/72] fix: keep the options of a run out of the options of
 the backend

---
 .../qudits/simulation/backends/innsbruck_01.py    | 15 ++++++++-------
 src/mqt/qudits/simulation/backends/misim.py       | 15 ++++++++-------
 src/mqt/qudits/simulation/backends/tnsim.py       | 15 ++++++++-------
 3 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/mqt/qudits/simulation/backends/innsbruck_01.py b/src/mqt/qudits/simulation/backends/innsbruck_01.py
index e291306..9ff5b9a 100644
--- a/src/mqt/qudits/simulation/backends/innsbruck_01.py
+++ b/src/mqt/qudits/simulation/backends/innsbruck_01.py
@@ -81,13 +81,14 @@ class Innsbruck01(Backend):
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         job = Job(self)
 
-        self._options.update(options)
-        self.noise_model = self._options.get("noise_model", None)
-        self.shots = self._options.get("shots", 50)
-        self.memory = self._options.get("memory", False)
-        self.full_state_memory = self._options.get("full_state_memory", False)
-        self.file_path = self._options.get("file_path", None)
-        self.file_name = self._options.get("file_name", None)
+        # the options of a run hold for this run only
+        run_options = {**self._options, **options}
+        self.noise_model = run_options.get("noise_model", None)
+        self.shots = run_options.get("shots", 50)
+        self.memory = run_options.get("memory", False)
+        self.full_state_memory = run_options.get("full_state_memory", False)
+        self.file_path = run_options.get("file_path", None)
+        self.file_name = run_options.get("file_name", None)
 
         assert self.shots >= 50, "Number of shots should be above 50"
         self.execute(circuit)
diff --git a/src/mqt/qudits/simulation/backends/misim.py b/src/mqt/qudits/simulation/backends/misim.py
index 8ed35db..c41d775 100644
--- a/src/mqt/qudits/simulation/backends/misim.py
+++ b/src/mqt/qudits/simulation/backends/misim.py
@@ -36,13 +36,14 @@ class MISim(Backend):
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         job = Job(self)
 
-        self._options.update(options)
-        self.noise_model = self._options.get("noise_model", None)
-        self.shots = self._options.get("shots", 50)
-        self.memory = self._options.get("memory", False)
-        self.full_state_memory = self._options.get("full_state_memory", False)
-        self.file_path = self._options.get("file_path", None)
-        self.file_name = self._options.get("file_name", None)
+        # the options of a run hold for this run only
+        run_options = {**self._options, **options}
+        self.noise_model = run_options.get("noise_model", None)
+        self.shots = run_options.get("shots", 50)
+        self.memory = run_options.get("memory", False)
+        self.full_state_memory = run_options.get("full_state_memory", False)
+        self.file_path = run_options.get("file_path", None)
+        self.file_name = run_options.get("file_name", None)
 
         if self.noise_model is not None:
             assert self.shots >= 50, "Number of shots should be above 50"
diff --git a/src/mqt/qudits/simulation/backends/tnsim.py b/src/mqt/qudits/simulation/backends/tnsim.py
index 3ac8a8d..402d729 100644
--- a/src/mqt/qudits/simulation/backends/tnsim.py
+++ b/src/mqt/qudits/simulation/backends/tnsim.py
@@ -39,13 +39,14 @@ class TNSim(Backend):
 
     def run(self, circuit: QuantumCircuit, **options: Unpack[Backend.DefaultOptions]) -> Job:
         job = Job(self)
-        self._options.update(options)
-        self.noise_model: NoiseModel | None = self._options.get("noise_model", None)
-        self.shots = self._options.get("shots", 50)
-        self.memory = self._options.get("memory", False)
-        self.full_state_memory = self._options.get("full_state_memory", False)
-        self.file_path = self._options.get("file_path", None)
-        self.file_name = self._options.get("file_name", None)
+        # the options of a run hold for this run only
+        run_options = {**self._options, **options}
+        self.noise_model: NoiseModel | None = run_options.get("noise_model", None)
+        self.shots = run_options.get("shots", 50)
+        self.memory = run_options.get("memory", False)
+        self.full_state_memory = run_options.get("full_state_memory", False)
+        self.file_path = run_options.get("file_path", None)
+        self.file_name = run_options.get("file_name", None)
 
         if self.noise_model is not None:
             assert self.shots >= 50, "Number of shots should be above 50"
-- 
2.43.0


From ddcddc6b352296fd156803e80381c4689c89df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 71/72] fix: accept the valid option names when setting options

---
 src/mqt/qudits/simulation/backends/backendv2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqt/qudits/simulation/backends/backendv2.py b/src/mqt/qudits/simulation/backends/backendv2.py
index e360034..7295d7b 100644
--- a/src/mqt/qudits/simulation/backends/backendv2.py
+++ b/src/mqt/qudits/simulation/backends/backendv2.py
@@ -54,7 +54,7 @@ class Backend(ABC):
 
     def set_options(self, **fields: Unpack[Backend.DefaultOptions]) -> None:
         for field in fields:
-            if not hasattr(self._options, field):
+            if field not in self.DefaultOptions.__annotations__:
                 msg = f"Options field '{field}' is not valid for this backend"
                 raise AttributeError(msg)
         self._options.update(fields)
-- 
2.43.0


From e162da625ee1e59e5f9b1e1e3b2dc5573cb2e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:57 +0000
Subject: [PATCH 72/72] fix: give every job its own id and count cancelled jobs
 as final

---
 src/mqt/qudits/simulation/jobs/job.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mqt/qudits/simulation/jobs/job.py b/src/mqt/qudits/simulation/jobs/job.py
index f5339ad..834323c 100644
--- a/src/mqt/qudits/simulation/jobs/job.py
+++ b/src/mqt/qudits/simulation/jobs/job.py
@@ -1,11 +1,11 @@
 from __future__ import annotations
 
-import os
 import time
+import uuid
 from typing import TYPE_CHECKING, Any, NoReturn
 
 from ...exceptions import JobError, JobTimeoutError
-from .jobstatus import JobStatus
+from .jobstatus import JOB_FINAL_STATES, JobStatus
 
 if TYPE_CHECKING:
     from collections.abc import Callable
@@ -36,8 +36,7 @@ class Job:
             kwargs: Any key-value metadata to associate with this job.
         """
         if job_id == "auto":
-            current_time = int(time.time() * 1000)
-            self._job_id = str(hash((os.getpid(), current_time)))
+            self._job_id = str(uuid.uuid4())
         else:
             self._job_id = job_id
         self._backend = backend
@@ -68,7 +67,7 @@ class Job:
 
     def in_final_state(self) -> bool:
         """Return whether the job is in a final job state such as DONE or ERROR."""
-        return self.status() in {JobStatus.DONE, JobStatus.ERROR}
+        return self.status() in JOB_FINAL_STATES
 
     def wait_for_final_state(
         self, timeout: float | None = None, wait: float = 5, callback: Callable[[str, str, Job], None] | None = None
@@ -87,7 +86,7 @@ class Job:
             return
         start_time = time.time()
         status = self.status()
-        while status not in {JobStatus.DONE, JobStatus.ERROR}:
+        while status not in JOB_FINAL_STATES:
             elapsed_time = time.time() - start_time
             if timeout is not None and elapsed_time >= timeout:
                 msg = f"Timeout while waiting for job {self.job_id()}."
-- 
2.43.0

