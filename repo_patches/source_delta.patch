From d8bb15f7b763ed00162897cd67f6c6bbc7db0904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 01/39] fix: treat the (length, dimension) form of qregs as a
 list of dimensions

Output, width, Toffoli and drawing all read qregs as one entry per register;
with the tuple form results were labelled with the wrong base (or IndexError).
---
 src/qudiet/core/quantum_circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index e7d06ac..f36d1a0 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -84,6 +84,10 @@ class QuantumCircuit:
                              each number is their qreg number
         """
 
+        if isinstance(qregs, tuple):
+            # (length, dimension) stands for `length` registers of that dimension
+            qregs = qregs[0] * [qregs[1]]
+
         self.backend = DefaultBackend if backend is None else backend
         self.debug_backend = self.backend
 
-- 
2.43.0


From f7db8142a30f380c79a9f6c8b902383f3320920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 02/39] fix: do not keep or extend the lists passed to
 QuantumCircuit

Missing initial states were appended to the caller's own list, and later changes
of the caller's dimension list leaked into the circuit.
---
 src/qudiet/core/quantum_circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index f36d1a0..e48dcff 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -87,6 +87,8 @@ class QuantumCircuit:
         if isinstance(qregs, tuple):
             # (length, dimension) stands for `length` registers of that dimension
             qregs = qregs[0] * [qregs[1]]
+        elif isinstance(qregs, list):
+            qregs = list(qregs)
 
         self.backend = DefaultBackend if backend is None else backend
         self.debug_backend = self.backend
@@ -103,7 +105,7 @@ class QuantumCircuit:
         self.qregs = qregs
         self.cregs = cregs or 0
         self.name = name or ""
-        self.init_states = init_states or []
+        self.init_states = list(init_states or [])
         self.circuit_output = None
 
         self.op_flow = OperatorFlow()
-- 
2.43.0


From d926267aab72573ae0213e31204b48946ed2d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 03/39] fix: build the generalised Hadamard gate as the Fourier
 matrix

The circulant built from numpy's (unordered) roots is not unitary for dims >= 4.
---
 src/qudiet/circuit_library/standard_gates/h.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/h.py b/src/qudiet/circuit_library/standard_gates/h.py
index 7ebe9b7..9e30d98 100644
--- a/src/qudiet/circuit_library/standard_gates/h.py
+++ b/src/qudiet/circuit_library/standard_gates/h.py
@@ -28,7 +28,6 @@ from abc import ABC
 from typing import Union
 
 import numpy as np
-from scipy.linalg import circulant
 from scipy.sparse import csr_matrix
 
 from qudiet.circuit_library.standard_gates.quantum_gate import QuantumGate
@@ -69,16 +68,11 @@ class HGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _usable_roots_of_unity = np.delete(_roots_of_unity, len(_roots_of_unity) - 1)
-        _unitary_builder = circulant(_usable_roots_of_unity)
-        _unitary_builder_first_row = np.ones(len(_usable_roots_of_unity))
-        _unitary_first = np.vstack([_unitary_builder_first_row, _unitary_builder])
-        _unitary_first_column = np.ones(len(_usable_roots_of_unity) + 1)
-        _unitary_unnormalized = np.c_[_unitary_first_column, _unitary_first]
+        # Discrete Fourier transform: entry (r, s) is w^(r*s), with w = exp(2*pi*i/dims)
+        _exponents = np.outer(np.arange(self.dims), np.arange(self.dims)) % self.dims
+        _unitary_unnormalized = np.real_if_close(
+            np.exp(2j * np.pi * _exponents / self.dims)
+        )
         _unitary = 1 / (math.sqrt(self.dims)) * _unitary_unnormalized
 
         return self.backend.matrix(_unitary)
-- 
2.43.0


From bc972deabcd36b03bec9f09eb464d13c0529cafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 04/39] fix: order the phases of the generalised Z gate

numpy's roots come unordered, so for dims >= 4 the gate was not a Z gate, and for
dims 2 and 3 |0> picked up a phase.
---
 src/qudiet/circuit_library/standard_gates/z.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/z.py b/src/qudiet/circuit_library/standard_gates/z.py
index c1ea11a..5b9c75f 100644
--- a/src/qudiet/circuit_library/standard_gates/z.py
+++ b/src/qudiet/circuit_library/standard_gates/z.py
@@ -67,12 +67,10 @@ class ZGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _roots_of_unity = np.flipud(_roots_of_unity)
-        _unitary = np.diag(np.flipud(_roots_of_unity))
+        # diag(1, w, w^2, ...), with w = exp(2*pi*i/dims)
+        _unitary = np.diag(
+            np.real_if_close(np.exp(2j * np.pi * np.arange(self.dims) / self.dims))
+        )
 
         return self.backend.matrix(_unitary)
 
-- 
2.43.0


From d306b5684982355a8e130d5cc22873cdb3e5b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 05/39] fix: report |amplitude|^2 as the probability of complex
 amplitudes

---
 src/qudiet/core/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index abe83d0..d59ace4 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -70,7 +70,7 @@ class Output:
                         f"|{''.join([str(s) for s in state])}>"
                         if self.output_type == OutputType.print
                         else tuple(state)
-                    ): (d**2 if self.output_method == OutputMethod.probability else d)
+                    ): (abs(d)**2 if self.output_method == OutputMethod.probability else d)
                 }
             ]
         return qoutput
-- 
2.43.0


From e4a06d9272f8955b52c668d8329973bbf45bcfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 06/39] fix: reject initial states outside 0..dim-1

---
 src/qudiet/core/init_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/init_states.py b/src/qudiet/core/init_states.py
index 655466c..243f8f6 100644
--- a/src/qudiet/core/init_states.py
+++ b/src/qudiet/core/init_states.py
@@ -40,7 +40,7 @@ class InitState:
         :param state: Represents the state in which it is to be initialized.
         :param qreg:   Represents the position of the init state in the circuit.
         """
-        if dim < state or dim < 2:
+        if dim < 2 or not 0 <= state < dim:
             raise ValueError("Please check values of dim and state")
         else:
             self.dim = dim
-- 
2.43.0


From 9a2848c81141a533873a75984c7e262c49b2a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 07/39] fix: let X increments wrap around like those of CX

Increments of dims or more were accepted and then raised IndexError in run().
---
 src/qudiet/circuit_library/standard_gates/x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/x.py b/src/qudiet/circuit_library/standard_gates/x.py
index 722085c..f5633fc 100644
--- a/src/qudiet/circuit_library/standard_gates/x.py
+++ b/src/qudiet/circuit_library/standard_gates/x.py
@@ -69,7 +69,7 @@ class XGate(QuantumGate, ABC):
         :return: The gate unitary
         """
         _unitary_builder = np.zeros(shape=(self.dims, 1))
-        _unitary_builder[self.plus] = 1
+        _unitary_builder[self.plus % self.dims] = 1
         _unitary = self.backend.matrix(circulant(_unitary_builder))
 
         return _unitary
-- 
2.43.0


From 9340f94e1645eb4dcfb753e32ba72e6c9509709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:24 +0000
Subject: [PATCH 08/39] fix: check multi-register gates against the product of
 their dimensions

A gate (or Toffoli) spanning two registers could never run: its square matrix was
compared with the list of dimensions.
---
 src/qudiet/circuit_library/__init__.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index fa7d082..3dca3e0 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -79,18 +79,11 @@ class ArbitaryGate(QuantumGate, ABC):
         if type(self.dims) == int:
             assert self._unitary.shape == (self.dims, self.dims)
         elif type(self.dims) == list:
-            if len(self.dims) == 1:
-                assert self._unitary.shape == (self.dims[0], self.dims[0])
-            if len(self.dims) == 2:
-                assert self._unitary.shape == self.dims
-            if len(self.dims) > 2:
-                # raise Exception(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
-                # warnings.warn(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
-                pass
-
+            _size = int(np.prod(self.dims))
+            assert self._unitary.shape == (_size, _size)
 
         # Qudit Dimesnion, suppose 3, the check if the shape is 3 x 3
-        # Qudit Dimesnion, suppose 2 and 3, the check if the shape is 2 x 3
+        # Qudit Dimesnion, suppose 2 and 3, the check if the shape is 6 x 6
         return self.backend.matrix(self._unitary)
 
     @property
-- 
2.43.0


From 0dcee8a4f3e86417e8776d59ad0b5e1aa8b2e6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:58 +0000
Subject: [PATCH 09/39] fix: reject negative register numbers

They passed validation and the gate was silently lost.
---
 src/qudiet/core/quantum_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index e48dcff..7db96ea 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -158,7 +158,7 @@ class QuantumCircuit:
         if type(qreg) is list:
             return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]
 
-        if qreg > self._reg_length - 1:
+        if not 0 <= qreg < self._reg_length:
             raise ValueError(
                 "Illegal placement of gate. Register specified is out of circuit bounds."
             )
-- 
2.43.0


From 8f2f1f58e11357a027eb0f3cc3ae1420cd512b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:58 +0000
Subject: [PATCH 10/39] fix: reject gate dimensions below the register's

They were accepted, and run() then failed on the mismatched product.
---
 src/qudiet/core/quantum_circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 7db96ea..c99b1e2 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -164,6 +164,8 @@ class QuantumCircuit:
             )
         if dims and dims > self._reg_dims[qreg]:
             raise ValueError("Input dimension is greater than the register dimension.")
+        if dims and dims < self._reg_dims[qreg]:
+            raise ValueError("Input dimension is less than the register dimension.")
 
     def __add_moment_to_opflow(
         self,
-- 
2.43.0


From b3991d10069be87a004025b8e9a2ad43970ad58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:58 +0000
Subject: [PATCH 11/39] fix: validate the registers of CX

Equal control and target gave a non-unitary operator; registers outside the circuit
failed only in run().
---
 src/qudiet/core/quantum_circuit.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index c99b1e2..5b974ce 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -306,6 +306,10 @@ class QuantumCircuit:
         # active_qregs = [
         #     self._reg_dims[qreg] for qreg in [range(acting_on[0], acting_on[1] + 1) if acting_on[0] < acting_on[1] else range(acting_on[1], acting_on[0] + 1)]
         # ]
+        self.__validate_gate_inputs(list(acting_on), None)
+        if acting_on[0] == acting_on[1]:
+            raise ValueError("Control and target must be different registers.")
+
         if acting_on[0] < acting_on[1]:
             active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
         else:
-- 
2.43.0


From e3c1bbb047f524518fd5b5053e4cf669c2998651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:58 +0000
Subject: [PATCH 12/39] fix: validate the registers of Toffoli

Negative registers were accepted and acted on the wrong dimensions.
---
 src/qudiet/core/quantum_circuit.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 5b974ce..9fa0ad6 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -283,6 +283,11 @@ class QuantumCircuit:
         # #         return None
         # # self.op_flow.populate_opflow(DecrMoment("DecrMoment_for_Toffoli", []))
 
+        controls, target = qreg
+        self.__validate_gate_inputs([*controls, target], None)
+        if target in controls:
+            raise ValueError("The target must not be one of the controls.")
+
         # Density Matrix Based
         _toffoligate = Toffoli(
             dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
-- 
2.43.0


From 5348379eead3888bcfc5432c9e1b1b1ae97cdc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:58 +0000
Subject: [PATCH 13/39] fix: report a refused Toffoli or measurement like any
 other refused gate

After measure_all() nothing more is added, but toffoli() and measure_all() said True.
---
 src/qudiet/core/quantum_circuit.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 9fa0ad6..f6e5cc3 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -295,7 +295,7 @@ class QuantumCircuit:
 
         _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)
 
-        return True
+        return _result
 
     def cx(
         self, acting_on: "tuple[int, int]", plus: int, dims: Optional[int] = None
@@ -373,9 +373,7 @@ class QuantumCircuit:
             Measurement(qreg=_index) for _index in range(self._reg_length)
         ]
         _m = Moment(f"Moment{len(self.op_flow._opflow_list)}", *_measurement_moment)
-        self.op_flow.populate_opflow(_m)
-
-        return True
+        return self.op_flow.populate_opflow(_m)
 
     def __initialize_states(self):
         """
-- 
2.43.0


From bd6ec7f1483594261b922ce0fd227c9d760ae379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:58 +0000
Subject: [PATCH 14/39] fix: reject custom gates on registers that are not
 neighbours

The gate's matrix covers only its own registers, so run() failed on the mismatched
product.
---
 src/qudiet/core/quantum_circuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index f6e5cc3..511d7dc 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -343,6 +343,8 @@ class QuantumCircuit:
                 qreg=qreg, dims=dims or self._reg_dims[qreg], backend=self.backend
             )
         elif type(qreg) is list:
+            if sorted(qreg) != list(range(min(qreg), max(qreg) + 1)):
+                raise ValueError("The registers of a gate must be distinct neighbours.")
             _gate = gate(
                 qreg=qreg, dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend
             )
-- 
2.43.0


From cd681bf88dec33166038d9d09f58d335bf568d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:17 +0000
Subject: [PATCH 15/39] fix: draw CX and Toffoli gates that do not start at
 register 0

Their dimensions are listed from the gate's first register on.
---
 src/qudiet/utility/circuit_draw.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index e4a78f1..2db40f9 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -173,15 +173,16 @@ def _draw_toffoli_gate(gate_,i,ax,dpi):
     crtl_,trgt=gate_.acting_on
     crtl=list(crtl_)
     plus=gate_._plus
-    dim=gate_.dims[trgt]
+    dim=gate_.dims[trgt-min(crtl+[trgt])]
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 
 def _draw_cnot_gate(gate,i,ax,dpi):
     crtl,trgt=gate.acting_on
     crtl=[crtl]
     plus=gate._plus
-    dim=gate._qreg[trgt]
-    if gate._qreg[crtl[0]]==2 and gate._qreg[trgt]==2:
+    first=min(crtl[0],trgt)
+    dim=gate._qreg[trgt-first]
+    if gate._qreg[crtl[0]-first]==2 and dim==2:
         return _draw_qubit_cnot_gate(crtl[0],trgt,i,ax,dpi)
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 def _draw_x_gate(gate_,i,ax,dpi):
-- 
2.43.0


From 5c0659aa368378fae796b766c5aee7d0b3324a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:17 +0000
Subject: [PATCH 16/39] fix: accept indented QASM, as in the README's example

---
 src/qudiet/qasm/qasm_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 4b74fae..82ebee0 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,6 +39,7 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
+    _data = "\n".join(_line.strip() for _line in _data.split("\n"))
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From e5c52800335f264c17fc207fb4799977f8183099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:17 +0000
Subject: [PATCH 17/39] fix: read the 180 of a QASM RX gate as its angle, not
 as an increment

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 82ebee0..c66f116 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -88,7 +88,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
             re.search("^RX", _gate) and re.search("180$", _gate)
         ):
             plus = 1
-            if len(_gate.split()) == 3:
+            if re.search("^X", _gate) and len(_gate.split()) == 3:
                 plus = int(_gate.split()[2])
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.x(qreg=_gate_qreg, plus=plus)
-- 
2.43.0


From 1ff26fa499e3dc6ce7d0296ac7a1ad70910c7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:17 +0000
Subject: [PATCH 18/39] fix: keep the sign of a QASM CX increment

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index c66f116..862115d 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -107,7 +107,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 int(re.findall("\d+", _gate.split()[2])[0]),
             )
             if len(_gate.split()) == 4:
-                _plus = int(re.findall("\d+", _gate.split()[3])[0])
+                _plus = int(re.findall(r"-?\d+", _gate.split()[3])[0])
             else:
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
-- 
2.43.0


From 47d9707abaded5ccc6f3a6c96e964b4159824cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:41 +0000
Subject: [PATCH 19/39] fix: accept lower-case gate names in QASM

Lines such as 'x x0' (testbench grover_n2, test_parser_1) were silently ignored.
---
 src/qudiet/qasm/qasm_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 862115d..1d5b78d 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -84,24 +84,24 @@ def circuit_from_qasm(_data, backend: Backend = None):
     qc = QuantumCircuit(qregs=_qregs, backend=backend)
 
     for _gate in _gates:
-        if re.search("^X", _gate) or (
-            re.search("^RX", _gate) and re.search("180$", _gate)
+        if re.search("^X", _gate, re.I) or (
+            re.search("^RX", _gate, re.I) and re.search("180$", _gate)
         ):
             plus = 1
-            if re.search("^X", _gate) and len(_gate.split()) == 3:
+            if re.search("^X", _gate, re.I) and len(_gate.split()) == 3:
                 plus = int(_gate.split()[2])
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.x(qreg=_gate_qreg, plus=plus)
 
-        elif re.search("^H", _gate):
+        elif re.search("^H", _gate, re.I):
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.h(qreg=_gate_qreg)
 
-        elif re.search("^Z", _gate):
+        elif re.search("^Z", _gate, re.I):
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.z(qreg=_gate_qreg)
 
-        elif re.search("^CX", _gate) or re.search("^CNOT", _gate):
+        elif re.search("^CX", _gate, re.I) or re.search("^CNOT", _gate, re.I):
             _gate_qreg = (
                 int(re.findall("\d+", _gate.split()[1])[0]),
                 int(re.findall("\d+", _gate.split()[2])[0]),
-- 
2.43.0


From 82faa05aa3748ffa1f5bd85bfee3cedc4d3dd730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:24 +0000
Subject: [PATCH 20/39] fix: keep every gate of the Moments given to
 populate_opflow

After a Moment was merged into the previous one, the rest of the call's Moments was
dropped, and of a Moment with several gates only the first was merged.
---
 src/qudiet/core/operator_flow.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/qudiet/core/operator_flow.py b/src/qudiet/core/operator_flow.py
index 7d4473b..fa16854 100644
--- a/src/qudiet/core/operator_flow.py
+++ b/src/qudiet/core/operator_flow.py
@@ -177,6 +177,11 @@ class OperatorFlow:
                 except StopIteration:
                     _qreg = None
 
+                # Only a gate that is alone in its Moment can move without
+                # leaving other gates behind
+                if sum(not isinstance(_gate, IGate) for _gate in _curr_moment_list) > 1:
+                    _qreg = None
+
                 # Loops through the OperatorFlow list, checks if any of the earlier Moment(s) have an IGate.
                 # If yes, replaces it with HGate, XGate or ZGate of the current
                 # Moment.
@@ -187,7 +192,6 @@ class OperatorFlow:
                     #     # self._opflow_list[1:]
                     # ):
                     _curr_earlier_moment = self._opflow_list[-1]
-                    _index = len(self._opflow_list) - 1
                     # Why For loop? It should check only the last moment
                     _curr_earlier_moment: Moment = _curr_earlier_moment
                     i_gate_qreg_list = [
@@ -203,16 +207,11 @@ class OperatorFlow:
                             _curr_earlier_moment.replace_igate(_curr_moment_list[_qreg])
                             # TODO : replace_igate replaces all the IGates. It needs to replace only the nth IGate (positional IGate)
                         )
-                    if _added_gate_to_earlier_moment:
-                        break
-
-                if _added_gate_to_earlier_moment:
-                    self._opflow_list[_index + 1] = _curr_earlier_moment
 
                 # Checks if the current Moment's HGate, XGate or ZGate has been added to any earlier Moment.
                 # If no, takes the last Moment in OperatorFlow list and points it to the current Moment, thereby
                 # adding it to the OperatorFlow list.
-                else:
+                if not _added_gate_to_earlier_moment:
                     _prev_moment: Moment = self._opflow_list[-1]
                     _prev_moment.next_pointer = _curr_moment
                     _curr_moment.prev_pointer = _prev_moment
-- 
2.43.0


From bdd9d7750dfdcfcaf1790bb2929d8a4f813c3b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:59 +0000
Subject: [PATCH 21/39] fix: ignore comments at the end of QASM lines

They hid the increment of X and broke CX, Toffoli and register declarations.
---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 1d5b78d..438464d 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,7 +39,7 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
-    _data = "\n".join(_line.strip() for _line in _data.split("\n"))
+    _data = "\n".join(_line.split("#")[0].strip() for _line in _data.split("\n"))
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From 6f3c69f1c4308af02183705e1fde838847fe5b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:59 +0000
Subject: [PATCH 22/39] fix: show custom gates in the text diagram

They were left out, so the diagram showed idle registers.
---
 src/qudiet/core/quantum_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 511d7dc..205c66f 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -503,6 +503,9 @@ class QuantumCircuit:
                             draw_matrix[dit][j] = f'X({op._plus})'
                         else:
                             draw_matrix[dit][j] = "|"
+                elif isinstance(op, ArbitaryGate):
+                    for dit in op.qreg if isiterable(op.qreg) else [op.qreg]:
+                        draw_matrix[dit][j] = 'G'
             
         for i in range(len(draw_matrix)):
             for j in range(len(draw_matrix[i])):
-- 
2.43.0


From 7860bc73668fc47333d475592146411efeebb2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 23/39] fix: do not keep the caller's lists in gates and
 outputs

---
 src/qudiet/core/output.py          | 2 +-
 src/qudiet/core/quantum_circuit.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index d59ace4..d5805ef 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -47,7 +47,7 @@ class Output:
         type: OutputType = OutputType.print,
         method: OutputMethod = OutputMethod.probability,
     ):
-        self.base = base
+        self.base = list(base) if isinstance(base, list) else base
         self.output_type = type
         self.output_method = method
 
diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 205c66f..0a47fd3 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -284,6 +284,7 @@ class QuantumCircuit:
         # # self.op_flow.populate_opflow(DecrMoment("DecrMoment_for_Toffoli", []))
 
         controls, target = qreg
+        qreg = (list(controls), target)
         self.__validate_gate_inputs([*controls, target], None)
         if target in controls:
             raise ValueError("The target must not be one of the controls.")
@@ -311,6 +312,7 @@ class QuantumCircuit:
         # active_qregs = [
         #     self._reg_dims[qreg] for qreg in [range(acting_on[0], acting_on[1] + 1) if acting_on[0] < acting_on[1] else range(acting_on[1], acting_on[0] + 1)]
         # ]
+        acting_on = tuple(acting_on)
         self.__validate_gate_inputs(list(acting_on), None)
         if acting_on[0] == acting_on[1]:
             raise ValueError("Control and target must be different registers.")
@@ -343,6 +345,7 @@ class QuantumCircuit:
                 qreg=qreg, dims=dims or self._reg_dims[qreg], backend=self.backend
             )
         elif type(qreg) is list:
+            qreg = list(qreg)
             if sorted(qreg) != list(range(min(qreg), max(qreg) + 1)):
                 raise ValueError("The registers of a gate must be distinct neighbours.")
             _gate = gate(
-- 
2.43.0


From 24cfdf352d17bcd7df5e7b7e9c004098c6eb6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:37 +0000
Subject: [PATCH 24/39] fix: accept QASM operands separated by commas alone

---
 src/qudiet/qasm/qasm_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 438464d..97dd15b 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -84,6 +84,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
     qc = QuantumCircuit(qregs=_qregs, backend=backend)
 
     for _gate in _gates:
+        _gate = _gate.replace(",", " ")
         if re.search("^X", _gate, re.I) or (
             re.search("^RX", _gate, re.I) and re.search("180$", _gate)
         ):
-- 
2.43.0


From bde17e38c55f5f6cce5bf084d9c6ae17cc97a531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:00 +0000
Subject: [PATCH 25/39] fix: convert mixed-radix digits to indices beyond 64
 bits

---
 src/qudiet/utils/numpy.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qudiet/utils/numpy.py b/src/qudiet/utils/numpy.py
index 2028918..54fc74a 100644
--- a/src/qudiet/utils/numpy.py
+++ b/src/qudiet/utils/numpy.py
@@ -38,10 +38,11 @@ def bin_to_Nbase(target, base=2):
     else:
         assert len(target) == len(base)
 
-    # base[0] = 1 # Anything to the power of 0 is 1
-    scale = np.array(base[::-1]).cumprod()
-    scale = [1, *scale[:-1]]
-    return np.sum(scale[::-1] * np.array(target))
+    # Python integers, because the index may exceed 64 bits
+    index = 0
+    for _digit, _base in zip(target, base):
+        index = index * int(_base) + int(_digit)
+    return index
 
 
 def Nbase_to_bin(_repr, base=[2]):
-- 
2.43.0


From a2aafddaa364fb4529199544b60ec7e42cef75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:05 +0000
Subject: [PATCH 26/39] fix: give rectangular identities of the sparse backends
 n rows and m columns

---
 src/qudiet/core/backend/CUDASparseBackend.py | 2 +-
 src/qudiet/core/backend/SparseBackend.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/core/backend/CUDASparseBackend.py b/src/qudiet/core/backend/CUDASparseBackend.py
index 08c84e9..4a21ed8 100644
--- a/src/qudiet/core/backend/CUDASparseBackend.py
+++ b/src/qudiet/core/backend/CUDASparseBackend.py
@@ -53,7 +53,7 @@ class CUDASparseBackend(Backend):
 
     @staticmethod
     def eye(n, m):
-        return sparse.eye(n=n, m=m)
+        return sparse.eye(n, m)
 
     @staticmethod
     def matrix(a):
diff --git a/src/qudiet/core/backend/SparseBackend.py b/src/qudiet/core/backend/SparseBackend.py
index 20452cd..7d68195 100644
--- a/src/qudiet/core/backend/SparseBackend.py
+++ b/src/qudiet/core/backend/SparseBackend.py
@@ -39,7 +39,7 @@ class SparseBackend(Backend):
 
     @staticmethod
     def eye(n, m):
-        return sparse.eye(n=n, m=m)
+        return sparse.eye(n, m)
 
     @staticmethod
     def matrix(a):
-- 
2.43.0


From 24f30921942fcf07dc30b4273f3c61d8883a0526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 27/39] fix: do not change a pushed Moment when a later gate
 joins its layer

---
 src/qudiet/core/moment.py        | 11 +++++++++++
 src/qudiet/core/operator_flow.py |  8 ++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/qudiet/core/moment.py b/src/qudiet/core/moment.py
index 804235a..d8635e3 100644
--- a/src/qudiet/core/moment.py
+++ b/src/qudiet/core/moment.py
@@ -23,6 +23,7 @@
 # along with this program. If not, see <http://www.gnu.org/licenses/>.
 #
 
+import copy
 from typing import Union
 
 from scipy import sparse
@@ -119,6 +120,16 @@ class Moment:
         self._moment_list.append(operation)
         return True
 
+    def copy(self) -> "Moment":
+        """
+        Copies the Moment, so that replacing gates in the copy leaves the original as it is
+
+        :return: The copy
+        """
+        _copy = copy.copy(self)
+        _copy._moment_list = list(self._moment_list)
+        return _copy
+
     def check_igate_at_qreg(self, gate_obj: Union[HGate, XGate, ZGate, CXGate]) -> bool:
         """
         Checks if _moment_list has an IGate at gate_obj.qreg position. If yes, returns True, else False
diff --git a/src/qudiet/core/operator_flow.py b/src/qudiet/core/operator_flow.py
index fa16854..89e7874 100644
--- a/src/qudiet/core/operator_flow.py
+++ b/src/qudiet/core/operator_flow.py
@@ -203,6 +203,14 @@ class OperatorFlow:
                     if type(gate_qreg) is int:
                         gate_qreg = [gate_qreg]
                     if all([(reg in i_gate_qreg_list) for reg in gate_qreg]):
+                        # The caller may push the earlier Moment again, here or
+                        # elsewhere, so the gate is added to a copy of it
+                        _curr_earlier_moment = _curr_earlier_moment.copy()
+                        if _curr_earlier_moment.prev_pointer is not None:
+                            _curr_earlier_moment.prev_pointer.next_pointer = (
+                                _curr_earlier_moment
+                            )
+                        self._opflow_list[-1] = _curr_earlier_moment
                         _added_gate_to_earlier_moment = (
                             _curr_earlier_moment.replace_igate(_curr_moment_list[_qreg])
                             # TODO : replace_igate replaces all the IGates. It needs to replace only the nth IGate (positional IGate)
-- 
2.43.0


From c41b38d4bdec7f32605b9148865519b20ccd8c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 28/39] fix: build an OperatorFlow from the Moments given to it

---
 src/qudiet/core/operator_flow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qudiet/core/operator_flow.py b/src/qudiet/core/operator_flow.py
index 89e7874..cf444e2 100644
--- a/src/qudiet/core/operator_flow.py
+++ b/src/qudiet/core/operator_flow.py
@@ -58,6 +58,8 @@ class OperatorFlow:
 
         self.debug_backend = DefaultBackend
 
+        self.populate_opflow(*args)
+
     def peek(self) -> list:
         """
         Responsible for peeking the list of Moments
-- 
2.43.0


From fc9a4de4a3613667940c974dd6d9383408136741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 29/39] fix: label the gates below the last grandparent by its
 children

---
 test_circuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test_circuit/circuit.py b/test_circuit/circuit.py
index 242c635..d81c2de 100644
--- a/test_circuit/circuit.py
+++ b/test_circuit/circuit.py
@@ -251,7 +251,7 @@ class Circuit:
                     self.qutrits.add(left_node)
                     self.qutrits.add(right_node)
 
-                condition = self.gpll_has_right_grandchild
+                condition = self.gpll_has_right_grandchild()
                 stage = "gpll"
 
                 current_depth += 1  # to keep GPLL on a different level
-- 
2.43.0


From d20c25d1438eb26563114c1adc54562a00e8ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 30/39] fix: count one qutrit less for an even number of
 controls

---
 test_circuit/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/test_circuit/main.py b/test_circuit/main.py
index 45ce2d0..e038726 100644
--- a/test_circuit/main.py
+++ b/test_circuit/main.py
@@ -21,6 +21,9 @@ def mathematical_expectation(n: int):
     qt = 2 * (c // 4) + 2
     qq = (c // 2) - (c // 4) - 1
 
+    if c % 2 == 0:
+        qt -= 1
+
     return tern, quat, qb, qt, qq
 
 
-- 
2.43.0


From 423a91b2e828a922efbc8e10d88339cc6741c413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 31/39] fix: print names and errors literally in the batch
 runner

---
 experimental.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/experimental.py b/experimental.py
index aa2ef1f..2bd8f55 100644
--- a/experimental.py
+++ b/experimental.py
@@ -1,5 +1,6 @@
 from xmlrpc.client import boolean
 from rich.console import Console
+from rich.markup import escape
 from qudiet.core import backend
 from src.qudiet.qasm.qasm_parser import parse_qasm
 import argparse, glob, pickle, warnings, time, json
@@ -68,11 +69,11 @@ def main():
 
     files = glob.glob(directory_path, recursive = True)
     console.print(f"File count: [green]{len(files)}[white]")
-    console.print(f"Analyzing files: [green]{'[white], [green]'.join(files)}[white]\n\n")
+    console.print(f"Analyzing files: [green]{'[white], [green]'.join(map(escape, files))}[white]\n\n")
 
     if operate_on in ["txt", "qasm"]:
         for file in files:
-            display = f"[bold green]Working on {file}..."
+            display = f"[bold green]Working on {escape(file)}..."
             if terminal:
                 with console.status(display) as status:
                     routine(file, backend, suffix, verbose)
@@ -85,8 +86,8 @@ def main():
         for file in files:
             with open(file, "rb") as out_file:
                 result = pickle.load(out_file)
-                console.print(f"Result for [yellow]'{file.split('/')[-1]}'[white] found:")
-                console.print(f"\t{result}\n[o]")
+                console.print(f"Result for [yellow]'{escape(file.split('/')[-1])}'[white] found:")
+                console.print(f"\t{escape(str(result))}\n[o]")
     
     pass
 
@@ -110,16 +111,16 @@ def routine(file, backend, suffix, verbose):
         with open(output, "wb") as out_file:
             pickle.dump(result, out_file)
 
-        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{file}': ", result)
+        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{escape(file)}': ", result)
 
         if verbose:
-            console.print(f"[bold]saved in [purple]{output}\n")
+            console.print(f"[bold]saved in [purple]{escape(output)}\n")
 
     except Exception as e: #IndexError as ie:
         # result = ie.args
         # print(f"[x] File '{file}' got exception '{e}'...")
         warnings.warn(f"[x] File '{file}' got exception '{e}'...")
-        console.print(f"[bold red][x][white] File [bold green]'{file}'[white] got exception '{e}'...\n[x]")
+        console.print(f"[bold red][x][white] File [bold green]'{escape(file)}'[white] got exception '{escape(str(e))}'...\n[x]")
 
 # operate_on = "pkl"
 # directory_path = "testbench/tof_qutrit" + "/**/*."+operate_on
-- 
2.43.0


From 677fd924807321f29a87268ca4b4f32eff93e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:17 +0000
Subject: [PATCH 32/39] fix: let the batch runner work in directories with
 brackets in their names

---
 experimental.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental.py b/experimental.py
index 2bd8f55..4ff09c8 100644
--- a/experimental.py
+++ b/experimental.py
@@ -65,7 +65,7 @@ def arguments():
 
 def main():
     operate_on, directory_path, verbose, backend, suffix, terminal = arguments()
-    directory_path += "/**/*."+operate_on
+    directory_path = glob.escape(directory_path) + "/**/*."+operate_on
 
     files = glob.glob(directory_path, recursive = True)
     console.print(f"File count: [green]{len(files)}[white]")
-- 
2.43.0


From f2b56b8b12d66980c70b183f88723bbe6062fa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:36 +0000
Subject: [PATCH 33/39] Revert "fix: count one qutrit less for an even number
 of controls"

This reverts commit d20c25d1438eb26563114c1adc54562a00e8ef56.
---
 test_circuit/main.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/test_circuit/main.py b/test_circuit/main.py
index e038726..45ce2d0 100644
--- a/test_circuit/main.py
+++ b/test_circuit/main.py
@@ -21,9 +21,6 @@ def mathematical_expectation(n: int):
     qt = 2 * (c // 4) + 2
     qq = (c // 2) - (c // 4) - 1
 
-    if c % 2 == 0:
-        qt -= 1
-
     return tern, quat, qb, qt, qq
 
 
-- 
2.43.0


From 279b68cd7cb98a77920f268c3a8722bfdb90c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:36 +0000
Subject: [PATCH 34/39] Revert "fix: label the gates below the last grandparent
 by its children"

This reverts commit fc9a4de4a3613667940c974dd6d9383408136741.
---
 test_circuit/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/test_circuit/circuit.py b/test_circuit/circuit.py
index d81c2de..242c635 100644
--- a/test_circuit/circuit.py
+++ b/test_circuit/circuit.py
@@ -251,7 +251,7 @@ class Circuit:
                     self.qutrits.add(left_node)
                     self.qutrits.add(right_node)
 
-                condition = self.gpll_has_right_grandchild()
+                condition = self.gpll_has_right_grandchild
                 stage = "gpll"
 
                 current_depth += 1  # to keep GPLL on a different level
-- 
2.43.0


From 4b8bd20745e6a8520667753f7f0b3616440e5b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:11 +0000
Subject: [PATCH 35/39] fix: let Toffoli and custom gates tell whether they are
 controlled and how many qudits they act on

---
 src/qudiet/circuit_library/__init__.py         |  2 +-
 .../standard_gates/toffoli_utility.py          | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index 3dca3e0..450d03b 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -64,7 +64,7 @@ class ArbitaryGate(QuantumGate, ABC):
         Check if the gate is a single qudit or multi-qudit
         :return: True or False, depending on the scenario
         """
-        return True
+        return np.size(self.qreg) == 1
 
     @property
     def unitary(self) -> csr_matrix:
diff --git a/src/qudiet/circuit_library/standard_gates/toffoli_utility.py b/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
index f894e36..15be0e4 100644
--- a/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
+++ b/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
@@ -82,4 +82,20 @@ class Toffoli(ArbitaryGate):
         self._acting_on = list(range(lb, ub+1)) 
         super().__init__(qreg, [dims[a] for a in self._acting_on], backend)
         self._unitary = _unitary
-        self._plus = plus
\ No newline at end of file
+        self._plus = plus
+
+    @property
+    def is_controlled(self) -> bool:
+        """
+        Check if the gate is controlled or not
+        :return: True or False, depending on the scenario
+        """
+        return True
+
+    @property
+    def is_single_qudit(self) -> bool:
+        """
+        Check if the gate is a single qudit or multi-qudit
+        :return: True or False, depending on the scenario
+        """
+        return False
-- 
2.43.0


From 2883f524989c04bbb93ab4c1f6320f29e8b3e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:07 +0000
Subject: [PATCH 36/39] fix: reduce a CX increment before adding it to a 64-bit
 digit

---
 src/qudiet/circuit_library/standard_gates/cx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/cx.py b/src/qudiet/circuit_library/standard_gates/cx.py
index d7a3a1e..37288d3 100644
--- a/src/qudiet/circuit_library/standard_gates/cx.py
+++ b/src/qudiet/circuit_library/standard_gates/cx.py
@@ -145,7 +145,7 @@ class CXGate(QuantumGate, ABC):
 
         # apply transform
         # target_change_to = (src_in_truth_table[target_i] + abs(target - plus)) # % target
-        target_change_to = (src_in_truth_table[target_i] + plus) % target
+        target_change_to = (src_in_truth_table[target_i] + plus % target) % target
 
         trgt_in_truth_table = src_in_truth_table.copy()
         trgt_in_truth_table[target_i] = target_change_to
-- 
2.43.0


From 829de50a9490e9e5ced75d8465aba4a8bbd03800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:23 +0000
Subject: [PATCH 37/39] fix: find the identity at a register after a
 multi-qudit gate (check_igate_at_qreg)

---
 src/qudiet/core/moment.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/qudiet/core/moment.py b/src/qudiet/core/moment.py
index d8635e3..25161cc 100644
--- a/src/qudiet/core/moment.py
+++ b/src/qudiet/core/moment.py
@@ -138,10 +138,12 @@ class Moment:
         :return: True if replacement occurs, else False
         """
         _qreg = gate_obj.qreg
-        if isinstance(self._moment_list[_qreg], IGate):
-            return True
-        else:
-            return False
+        # A block may span several registers, so the position of a gate in the
+        # list is not its register
+        return any(
+            isinstance(_gate, IGate) and _gate.qreg == _qreg
+            for _gate in self._moment_list
+        )
 
     def replace_igate(self, gate_obj: Union[HGate, XGate, ZGate]) -> bool:
         """
-- 
2.43.0


From b8604977822f876e5013fe7d358354bf990c5f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:23 +0000
Subject: [PATCH 38/39] fix: refuse to replace an identity at a register
 without a gate (replace_igate)

---
 src/qudiet/core/moment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/moment.py b/src/qudiet/core/moment.py
index 25161cc..a16d979 100644
--- a/src/qudiet/core/moment.py
+++ b/src/qudiet/core/moment.py
@@ -154,7 +154,8 @@ class Moment:
         :return: True if replacement occurs, else False
         """
         _qreg = gate_obj.qreg
-        gate, index = self.get_qreg_moment(_qreg, True)
+        # No gate acts on a register that a controlled gate only crosses
+        gate, index = self.get_qreg_moment(_qreg, True) or (None, None)
         if isinstance(gate, IGate):
             self._moment_list[index] = gate_obj
             return True
-- 
2.43.0


From 38e029c1ba04e2c7500cf6ac9b1aa0c462a8a30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:23 +0000
Subject: [PATCH 39/39] fix: find a Toffoli at its control registers
 (get_qreg_moment)

---
 src/qudiet/core/moment.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/qudiet/core/moment.py b/src/qudiet/core/moment.py
index a16d979..7ae7990 100644
--- a/src/qudiet/core/moment.py
+++ b/src/qudiet/core/moment.py
@@ -35,6 +35,7 @@ from qudiet.circuit_library.standard_gates.quantum_gate import QuantumGate
 from qudiet.circuit_library.standard_gates.x import XGate
 from qudiet.circuit_library.standard_gates.z import ZGate
 from qudiet.core.init_states import InitState
+from qudiet.utils.linalg import isiterable
 
 
 class Moment:
@@ -83,6 +84,10 @@ class Moment:
             _qregs = gate.acting_on
             if type(_qregs) is int:
                 _qregs = [_qregs]
+            # A Toffoli acts on (controls, target)
+            _qregs = [
+                _q for _part in _qregs for _q in (_part if isiterable(_part) else [_part])
+            ]
             if qreg in _qregs:
                 if index:
                     return gate, i
-- 
2.43.0

