From 4714af96b92f060bf6e0e044755a51a81fb87b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:40 +0000
Subject: [PATCH 01/32] fix: make the generalized Hadamard gate unitary for
 every dimension

The circulant built from numpy.roots is only a Fourier matrix for d = 2 and 3;
for d >= 4 the gate was not unitary. Build w^(jk)/sqrt(d) directly.
---
 src/qudiet/circuit_library/standard_gates/h.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/h.py b/src/qudiet/circuit_library/standard_gates/h.py
index 7ebe9b7..4c180c0 100644
--- a/src/qudiet/circuit_library/standard_gates/h.py
+++ b/src/qudiet/circuit_library/standard_gates/h.py
@@ -28,7 +28,6 @@ from abc import ABC
 from typing import Union
 
 import numpy as np
-from scipy.linalg import circulant
 from scipy.sparse import csr_matrix
 
 from qudiet.circuit_library.standard_gates.quantum_gate import QuantumGate
@@ -69,16 +68,11 @@ class HGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _usable_roots_of_unity = np.delete(_roots_of_unity, len(_roots_of_unity) - 1)
-        _unitary_builder = circulant(_usable_roots_of_unity)
-        _unitary_builder_first_row = np.ones(len(_usable_roots_of_unity))
-        _unitary_first = np.vstack([_unitary_builder_first_row, _unitary_builder])
-        _unitary_first_column = np.ones(len(_usable_roots_of_unity) + 1)
-        _unitary_unnormalized = np.c_[_unitary_first_column, _unitary_first]
+        # Generalized Hadamard (quantum Fourier) matrix: entry (j, k) is w^(jk)
+        _powers = np.outer(np.arange(self.dims), np.arange(self.dims)) % self.dims
+        _unitary_unnormalized = np.real_if_close(
+            np.exp(2j * np.pi * _powers / self.dims)
+        )
         _unitary = 1 / (math.sqrt(self.dims)) * _unitary_unnormalized
 
         return self.backend.matrix(_unitary)
-- 
2.43.0


From 4777fbdc061691033a22d8fa856bfd4ab8175153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:02 +0000
Subject: [PATCH 02/32] fix: order the phases of the generalized Z gate by
 level

numpy.roots does not list the roots of unity in order, so Z was diag(-1, 1) for
qubits and not a clock matrix, even up to a global phase, for d >= 4.
---
 src/qudiet/circuit_library/standard_gates/z.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/z.py b/src/qudiet/circuit_library/standard_gates/z.py
index c1ea11a..8bc9613 100644
--- a/src/qudiet/circuit_library/standard_gates/z.py
+++ b/src/qudiet/circuit_library/standard_gates/z.py
@@ -67,12 +67,9 @@ class ZGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _roots_of_unity = np.flipud(_roots_of_unity)
-        _unitary = np.diag(np.flipud(_roots_of_unity))
+        # Generalized Pauli-Z (clock) matrix: w^j on the j-th level
+        _roots_of_unity = np.exp(2j * np.pi * np.arange(self.dims) / self.dims)
+        _unitary = np.diag(np.real_if_close(_roots_of_unity))
 
         return self.backend.matrix(_unitary)
 
-- 
2.43.0


From ac5f878620c5f9fe91eac046acd4b284aa76fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:48 +0000
Subject: [PATCH 03/32] fix: accept two-register gates of the right size

A gate on two registers of dimensions a and b is an (a*b) x (a*b) matrix. The
check compared its shape with the list [a, b], so every two-register arbitrary
gate and every Toffoli spanning two registers failed when run.
---
 src/qudiet/circuit_library/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index fa7d082..4d89e0b 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -82,7 +82,7 @@ class ArbitaryGate(QuantumGate, ABC):
             if len(self.dims) == 1:
                 assert self._unitary.shape == (self.dims[0], self.dims[0])
             if len(self.dims) == 2:
-                assert self._unitary.shape == self.dims
+                assert self._unitary.shape == (np.prod(self.dims),) * 2
             if len(self.dims) > 2:
                 # raise Exception(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
                 # warnings.warn(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
@@ -90,7 +90,7 @@ class ArbitaryGate(QuantumGate, ABC):
 
 
         # Qudit Dimesnion, suppose 3, the check if the shape is 3 x 3
-        # Qudit Dimesnion, suppose 2 and 3, the check if the shape is 2 x 3
+        # Qudit Dimesnion, suppose 2 and 3, the check if the shape is 6 x 6
         return self.backend.matrix(self._unitary)
 
     @property
-- 
2.43.0


From b5da9f7737fcea8349152568587f539f032fcab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:15 +0000
Subject: [PATCH 04/32] fix: report whether toffoli() added its gate

Like the other gates, toffoli() must return False once the circuit is measured
and the gate is not added.
---
 src/qudiet/core/quantum_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index e7d06ac..787e90a 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -282,7 +282,7 @@ class QuantumCircuit:
 
         _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)
 
-        return True
+        return _result
 
     def cx(
         self, acting_on: "tuple[int, int]", plus: int, dims: Optional[int] = None
-- 
2.43.0


From 84d696ce72824c5a1e19980c08db91ab4da578ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:41 +0000
Subject: [PATCH 05/32] fix: compute probabilities of complex amplitudes as
 |a|^2

Squaring a complex amplitude gives a complex number, not its probability.
---
 src/qudiet/core/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index abe83d0..d59ace4 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -70,7 +70,7 @@ class Output:
                         f"|{''.join([str(s) for s in state])}>"
                         if self.output_type == OutputType.print
                         else tuple(state)
-                    ): (d**2 if self.output_method == OutputMethod.probability else d)
+                    ): (abs(d)**2 if self.output_method == OutputMethod.probability else d)
                 }
             ]
         return qoutput
-- 
2.43.0


From 006f93a18d7819e4316e4d0a2cbcf01aaa2bca83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:08 +0000
Subject: [PATCH 06/32] fix: wrap the increment of X modulo the dimension

X with an increment of at least the register dimension (or below its negative)
failed with an IndexError when run, although CX and Toffoli wrap around.
---
 src/qudiet/circuit_library/standard_gates/x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/x.py b/src/qudiet/circuit_library/standard_gates/x.py
index 722085c..f5633fc 100644
--- a/src/qudiet/circuit_library/standard_gates/x.py
+++ b/src/qudiet/circuit_library/standard_gates/x.py
@@ -69,7 +69,7 @@ class XGate(QuantumGate, ABC):
         :return: The gate unitary
         """
         _unitary_builder = np.zeros(shape=(self.dims, 1))
-        _unitary_builder[self.plus] = 1
+        _unitary_builder[self.plus % self.dims] = 1
         _unitary = self.backend.matrix(circulant(_unitary_builder))
 
         return _unitary
-- 
2.43.0


From 6394d9eea307c09f5cbc9faa8f97c9beaac84421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:32 +0000
Subject: [PATCH 07/32] fix: reject initial states outside 0..dim-1

A negative state silently selected a level from the top, and state == dim
failed with an IndexError instead of the ValueError meant for it.
---
 src/qudiet/core/init_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/init_states.py b/src/qudiet/core/init_states.py
index 655466c..9de3384 100644
--- a/src/qudiet/core/init_states.py
+++ b/src/qudiet/core/init_states.py
@@ -40,7 +40,7 @@ class InitState:
         :param state: Represents the state in which it is to be initialized.
         :param qreg:   Represents the position of the init state in the circuit.
         """
-        if dim < state or dim < 2:
+        if not 0 <= state < dim or dim < 2:
             raise ValueError("Please check values of dim and state")
         else:
             self.dim = dim
-- 
2.43.0


From f2fbd68b786b7b7ec8b8b6f0998263b77d610e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:36 +0000
Subject: [PATCH 08/32] fix: do not share the caller's lists with the circuit

The constructor extended the caller's init_states in place, and the circuit kept
references to the caller's register, init_states and acting_on lists, so reusing
one of those lists changed circuits already built from it.
---
 src/qudiet/core/quantum_circuit.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 787e90a..6775afa 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -84,6 +84,9 @@ class QuantumCircuit:
                              each number is their qreg number
         """
 
+        if isinstance(qregs, list):
+            qregs = list(qregs)
+
         self.backend = DefaultBackend if backend is None else backend
         self.debug_backend = self.backend
 
@@ -99,7 +102,7 @@ class QuantumCircuit:
         self.qregs = qregs
         self.cregs = cregs or 0
         self.name = name or ""
-        self.init_states = init_states or []
+        self.init_states = list(init_states or [])
         self.circuit_output = None
 
         self.op_flow = OperatorFlow()
@@ -277,7 +280,10 @@ class QuantumCircuit:
 
         # Density Matrix Based
         _toffoligate = Toffoli(
-            dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
+            dims=self.qregs,
+            qreg=(list(qreg[0]), qreg[1]),
+            plus=plus,
+            backend=self.backend,
         )
 
         _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)
@@ -304,7 +310,10 @@ class QuantumCircuit:
             active_qregs = self._reg_dims[acting_on[1] : acting_on[0] + 1]
 
         _cxgate = CXGate(
-            qreg=active_qregs, acting_on=acting_on, plus=plus, backend=self.backend
+            qreg=active_qregs,
+            acting_on=tuple(acting_on),
+            plus=plus,
+            backend=self.backend,
         )
 
         _result = self.__add_moment_to_opflow(acting_on, _cxgate)
@@ -327,7 +336,7 @@ class QuantumCircuit:
             )
         elif type(qreg) is list:
             _gate = gate(
-                qreg=qreg, dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend
+                qreg=list(qreg), dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend
             )
         _result = self.__add_moment_to_opflow(qreg, _gate)
         return _result
-- 
2.43.0


From bb25d17e010eda151e7155c7b36af7b36b996732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 09/32] fix: expand (length, dimension) registers everywhere

Only the gates on one or two registers used the expanded form of a tuple. The
output labels, toffoli(), the drawings and the reported width used the tuple
itself, so a circuit such as QuantumCircuit((3, 3)) failed or was mislabelled.
---
 src/qudiet/core/quantum_circuit.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 6775afa..b1e0db5 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -84,7 +84,13 @@ class QuantumCircuit:
                              each number is their qreg number
         """
 
-        if isinstance(qregs, list):
+        self._is_qregs_tuple = type(qregs) == tuple
+        self._is_qregs_list = type(qregs) == list
+
+        # (length, dimension) stands for a list of registers of that dimension
+        if self._is_qregs_tuple:
+            qregs = qregs[0] * [qregs[1]]
+        elif self._is_qregs_list:
             qregs = list(qregs)
 
         self.backend = DefaultBackend if backend is None else backend
@@ -109,16 +115,8 @@ class QuantumCircuit:
         self.op_flow.debug_backend = self.debug_backend
         self.op_flow.debug = debug
 
-        self._is_qregs_tuple = type(self.qregs) == tuple
-        self._is_qregs_list = type(self.qregs) == list
-
-        if self._is_qregs_tuple:
-            self._reg_length = self.qregs[0]
-            self._reg_dims = self._reg_length * [self.qregs[1]]
-
-        elif self._is_qregs_list:
-            self._reg_length = len(self.qregs)
-            self._reg_dims = self.qregs
+        self._reg_length = len(self.qregs)
+        self._reg_dims = self.qregs
 
         if self._reg_length > len(self.init_states):
             self.init_states.extend((self._reg_length - len(self.init_states)) * [0])
-- 
2.43.0


From 9255d77afb1c7b4a995c8549e44012ed9bcffc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:40 +0000
Subject: [PATCH 10/32] fix: refuse gates on registers the circuit does not
 have

Negative registers passed validation and cx() and toffoli() were not validated
at all: the gate was silently dropped, failed only when run, or (with a target
that is also a control) made the evolution non-unitary.
---
 src/qudiet/core/quantum_circuit.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index b1e0db5..b9fdc28 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -153,13 +153,25 @@ class QuantumCircuit:
         if type(qreg) is list:
             return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]
 
-        if qreg > self._reg_length - 1:
+        if not 0 <= qreg <= self._reg_length - 1:
             raise ValueError(
                 "Illegal placement of gate. Register specified is out of circuit bounds."
             )
         if dims and dims > self._reg_dims[qreg]:
             raise ValueError("Input dimension is greater than the register dimension.")
 
+    def __validate_controls(self, controls: list, target: int):
+        """
+        Responsible for checking that a controlled gate acts on different registers of the circuit.
+
+        :param controls: The control registers
+        :param target: The target register
+        """
+        _qregs = [*controls, target]
+        self.__validate_gate_inputs(_qregs, None)
+        if len(set(_qregs)) != len(_qregs):
+            raise ValueError("The controls and the target must be different registers.")
+
     def __add_moment_to_opflow(
         self,
         qreg: "Union[int, tuple[int, int]]",
@@ -276,6 +288,8 @@ class QuantumCircuit:
         # #         return None
         # # self.op_flow.populate_opflow(DecrMoment("DecrMoment_for_Toffoli", []))
 
+        self.__validate_controls(*qreg)
+
         # Density Matrix Based
         _toffoligate = Toffoli(
             dims=self.qregs,
@@ -302,6 +316,7 @@ class QuantumCircuit:
         # active_qregs = [
         #     self._reg_dims[qreg] for qreg in [range(acting_on[0], acting_on[1] + 1) if acting_on[0] < acting_on[1] else range(acting_on[1], acting_on[0] + 1)]
         # ]
+        self.__validate_controls([acting_on[0]], acting_on[1])
         if acting_on[0] < acting_on[1]:
             active_qregs = self._reg_dims[acting_on[0] : acting_on[1] + 1]
         else:
-- 
2.43.0


From 5d11f8dc368dcbf4ce1f5724eb84e7f75efaead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:18 +0000
Subject: [PATCH 11/32] fix: draw controlled gates that do not start at the
 first register

The Matplotlib drawing indexed the dimensions of the registers a CX or Toffoli
spans with absolute register numbers, so it failed or labelled the gate with the
dimension of another register. It also failed on a circuit with no gates yet.
---
 src/qudiet/utility/circuit_draw.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index e4a78f1..401bf5e 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -173,15 +173,16 @@ def _draw_toffoli_gate(gate_,i,ax,dpi):
     crtl_,trgt=gate_.acting_on
     crtl=list(crtl_)
     plus=gate_._plus
-    dim=gate_.dims[trgt]
+    dim=gate_.dims[trgt-min(crtl+[trgt])]
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 
 def _draw_cnot_gate(gate,i,ax,dpi):
     crtl,trgt=gate.acting_on
     crtl=[crtl]
     plus=gate._plus
-    dim=gate._qreg[trgt]
-    if gate._qreg[crtl[0]]==2 and gate._qreg[trgt]==2:
+    first=min(crtl[0],trgt)
+    dim=gate._qreg[trgt-first]
+    if gate._qreg[crtl[0]-first]==2 and dim==2:
         return _draw_qubit_cnot_gate(crtl[0],trgt,i,ax,dpi)
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 def _draw_x_gate(gate_,i,ax,dpi):
@@ -233,9 +234,6 @@ def draw_circuit_mpl(cir,compress=1):
     bit=len(cir.qregs)
     
     moments=cir.op_flow.peek()
-    moment=moments[1]
-    gates=moment.peek_list()
-    
     fig=1
     dpi=plt.rcParams['figure.dpi']
     x=15+bit*compress
-- 
2.43.0


From 25e4c54d21f4a476e1fa9a5e53c1197063eb80a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:01 +0000
Subject: [PATCH 12/32] fix: read the 180 of RX as an angle, not as an
 increment

'RX x0 180' was turned into an X gate that increments by 180.
---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 4b74fae..2e85000 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -87,7 +87,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
             re.search("^RX", _gate) and re.search("180$", _gate)
         ):
             plus = 1
-            if len(_gate.split()) == 3:
+            if len(_gate.split()) == 3 and not re.search("^RX", _gate):
                 plus = int(_gate.split()[2])
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.x(qreg=_gate_qreg, plus=plus)
-- 
2.43.0


From b03c74ff56fe68caea9b3d6c7b4ad4aac3783844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 13/32] fix: keep the sign of the increment of CX in qasm

'CX x0 x1 -1' was read as an increment by 1; 'X x0 -1' was read correctly.
---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 2e85000..41a5364 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -106,7 +106,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 int(re.findall("\d+", _gate.split()[2])[0]),
             )
             if len(_gate.split()) == 4:
-                _plus = int(re.findall("\d+", _gate.split()[3])[0])
+                _plus = int(re.findall("-?\d+", _gate.split()[3])[0])
             else:
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
-- 
2.43.0


From 25d562aa52faafa82feb6f55cebdc0826e52c6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:52 +0000
Subject: [PATCH 14/32] fix: ignore comments and indentation in qasm

The indented program of the README failed to parse, indented gates were skipped,
and numbers in comments were read as registers or operands.
---
 src/qudiet/qasm/qasm_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 41a5364..561e593 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -39,6 +39,8 @@ def parse_qasm(filename: str, backend: Backend = None):
 
 
 def circuit_from_qasm(_data, backend: Backend = None):
+    # Comments and indentation carry no meaning
+    _data = "\n".join(_line.split("#")[0].strip() for _line in _data.split("\n"))
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-- 
2.43.0


From 2a2223e8f3d534f1ca40b52adca90688a5347e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 15/32] fix: number qasm registers by their name

'qudit x1 (3)' declared before 'qudit x0 (2)' became register 0, so gates on x0
and x1 acted on each other's register.
---
 src/qudiet/qasm/qasm_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 561e593..12f319d 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -54,7 +54,11 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _data[0] = re.sub(r"qutrit x(\d+)", r"qudit x\1 (3)", _data[0])
 
     _qregs = [
-        int(re.findall("\d+", _dims)[0]) for _dims in re.findall("\d+\)", _data[0])
+        _dim
+        for _, _dim in sorted(
+            (int(_index), int(_dim))
+            for _index, _dim in re.findall(r"(\d+)\s*\((\d+)\)", _data[0])
+        )
     ]
     if backend is None:
         backend = DefaultBackend
-- 
2.43.0


From 84e2ebc7d20200a84d556cc0e417f1cfaa4da53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:53 +0000
Subject: [PATCH 16/32] fix: do not silently skip qasm gates

Lines the parser did not recognise, such as 'x x0' of the Grover example, were
dropped. Accept gate names in any case and refuse what is not a known gate.
---
 src/qudiet/qasm/qasm_parser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 12f319d..00d3296 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -63,8 +63,12 @@ def circuit_from_qasm(_data, backend: Backend = None):
     if backend is None:
         backend = DefaultBackend
 
-    _gates = list(filter(None, _data[1].split("\n")))
-    _found_tofs = list(filter(lambda s: re.match("^Toffoli", s), _gates))
+    # Gate names may be written in any case ("x x0")
+    _gates = [
+        re.sub(r"^\w+", lambda _name: _name[0].upper(), _gate)
+        for _gate in filter(None, _data[1].split("\n"))
+    ]
+    _found_tofs = list(filter(lambda s: re.match("^TOFFOLI", s), _gates))
 
     if _found_tofs:
         _toffolis = list(
@@ -73,7 +77,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 set(
                     (
                         re.sub(
-                            r"Toffoli x\d+[, ]+x(\d+)[, ]+x\d+",
+                            r"TOFFOLI x\d+[, ]+x(\d+)[, ]+x\d+",
                             r"\1",
                             ";".join(_found_tofs),
                         )
@@ -117,13 +121,16 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
 
-        elif re.search("^Toffoli", _gate):
+        elif re.search("^TOFFOLI", _gate):
             ints = list(map(int, re.findall("\d+", _gate)))
             _gate_qreg = (ints[:-1], ints[-1])
             _plus = 1
             # qc.toffoli(_gate_qreg, _plus)
             qc.toffoli(_gate_qreg)
 
+        else:
+            raise ValueError(f"Unknown gate in qasm: {_gate}")
+
     qc.measure_all()
 
     return qc
-- 
2.43.0


From 3669334c6f9af22dba46e3f5ac16f6b75bee1592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:48 +0000
Subject: [PATCH 17/32] fix: refuse qasm statements that cannot be executed as
 written

---
 src/qudiet/qasm/qasm_parser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 00d3296..5d929e5 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -38,6 +38,17 @@ def parse_qasm(filename: str, backend: Backend = None):
     return circuit_from_qasm(_data, backend)
 
 
+# The statements that can be executed; anything else is refused
+_REGISTER = r"[a-zA-Z]*\d+"
+_STATEMENT = re.compile(
+    rf"X\s+{_REGISTER}(\s+[+-]?\d+)?"
+    rf"|RX\s+{_REGISTER}\s+180"
+    rf"|[HZ]\s+{_REGISTER}"
+    rf"|(CX|CNOT)\s+{_REGISTER},?\s+{_REGISTER},?(\s+[+-]?\d+)?"
+    rf"|TOFFOLI\s+{_REGISTER}[, ]+{_REGISTER}[, ]+{_REGISTER}"
+)
+
+
 def circuit_from_qasm(_data, backend: Backend = None):
     # Comments and indentation carry no meaning
     _data = "\n".join(_line.split("#")[0].strip() for _line in _data.split("\n"))
@@ -93,6 +104,9 @@ def circuit_from_qasm(_data, backend: Backend = None):
     qc = QuantumCircuit(qregs=_qregs, backend=backend)
 
     for _gate in _gates:
+        if not _STATEMENT.fullmatch(_gate):
+            raise ValueError(f"Unknown gate in qasm: {_gate}")
+
         if re.search("^X", _gate) or (
             re.search("^RX", _gate) and re.search("180$", _gate)
         ):
-- 
2.43.0


From a0c928f94dc5ef2f91e7f1121ea79c4f5881a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:26 +0000
Subject: [PATCH 18/32] fix: refuse qasm registers that are not numbered from 0
 without gaps

---
 src/qudiet/qasm/qasm_parser.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 5d929e5..b83b485 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -64,13 +64,14 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _data[0] = re.sub(r"qubit x(\d+)", r"qudit x\1 (2)", _data[0])
     _data[0] = re.sub(r"qutrit x(\d+)", r"qudit x\1 (3)", _data[0])
 
-    _qregs = [
-        _dim
-        for _, _dim in sorted(
-            (int(_index), int(_dim))
-            for _index, _dim in re.findall(r"(\d+)\s*\((\d+)\)", _data[0])
-        )
-    ]
+    _registers = sorted(
+        (int(_index), int(_dim))
+        for _index, _dim in re.findall(r"(\d+)\s*\((\d+)\)", _data[0])
+    )
+    # Gates refer to the registers by number
+    if [_index for _index, _ in _registers] != list(range(len(_registers))):
+        raise ValueError("The registers in qasm must be numbered from 0, without gaps")
+    _qregs = [_dim for _, _dim in _registers]
     if backend is None:
         backend = DefaultBackend
 
-- 
2.43.0


From 35292ca533f7aa90e7993ace0bd81c68567816d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:05 +0000
Subject: [PATCH 19/32] fix: refuse malformed register declarations in qasm

---
 src/qudiet/qasm/qasm_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index b83b485..00cd5e1 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -68,6 +68,9 @@ def circuit_from_qasm(_data, backend: Backend = None):
         (int(_index), int(_dim))
         for _index, _dim in re.findall(r"(\d+)\s*\((\d+)\)", _data[0])
     )
+    for _line in filter(None, _data[0].split("\n")):
+        if not re.search(r"\d+\s*\(\d+\)", _line):
+            raise ValueError(f"Not a register declaration in qasm: {_line}")
     # Gates refer to the registers by number
     if [_index for _index, _ in _registers] != list(range(len(_registers))):
         raise ValueError("The registers in qasm must be numbered from 0, without gaps")
-- 
2.43.0


From 7591648beb46005e97616d97088acc61eec3e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:48 +0000
Subject: [PATCH 20/32] fix: eye(n, m) of the sparse backends has n rows and m
 columns

---
 src/qudiet/core/backend/CUDASparseBackend.py | 2 +-
 src/qudiet/core/backend/SparseBackend.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/core/backend/CUDASparseBackend.py b/src/qudiet/core/backend/CUDASparseBackend.py
index 08c84e9..75b888c 100644
--- a/src/qudiet/core/backend/CUDASparseBackend.py
+++ b/src/qudiet/core/backend/CUDASparseBackend.py
@@ -53,7 +53,7 @@ class CUDASparseBackend(Backend):
 
     @staticmethod
     def eye(n, m):
-        return sparse.eye(n=n, m=m)
+        return sparse.eye(m=n, n=m)
 
     @staticmethod
     def matrix(a):
diff --git a/src/qudiet/core/backend/SparseBackend.py b/src/qudiet/core/backend/SparseBackend.py
index 20452cd..70c4c55 100644
--- a/src/qudiet/core/backend/SparseBackend.py
+++ b/src/qudiet/core/backend/SparseBackend.py
@@ -39,7 +39,7 @@ class SparseBackend(Backend):
 
     @staticmethod
     def eye(n, m):
-        return sparse.eye(n=n, m=m)
+        return sparse.eye(m=n, n=m)
 
     @staticmethod
     def matrix(a):
-- 
2.43.0


From e4c08df3fe17feb1f96ff109299c6cb6b120897c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 21/32] fix: refuse qasm with missing or repeated sections

---
 src/qudiet/qasm/qasm_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 00cd5e1..b34bf08 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -55,6 +55,8 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
+    if len(_data) != 7:
+        raise ValueError("A qasm needs one header and one of .qubit, .begin and .end")
     _data.pop(6)
     _data.pop(5)
     _data.pop(3)
-- 
2.43.0


From 59248441a75856be1ed0e9f4ffa5ca882492b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 22/32] fix: do not draw a CX that adds nothing as a CNOT

---
 src/qudiet/utility/circuit_draw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index 401bf5e..d5523d9 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -182,7 +182,7 @@ def _draw_cnot_gate(gate,i,ax,dpi):
     plus=gate._plus
     first=min(crtl[0],trgt)
     dim=gate._qreg[trgt-first]
-    if gate._qreg[crtl[0]-first]==2 and dim==2:
+    if gate._qreg[crtl[0]-first]==2 and dim==2 and plus%2==1:
         return _draw_qubit_cnot_gate(crtl[0],trgt,i,ax,dpi)
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 def _draw_x_gate(gate_,i,ax,dpi):
-- 
2.43.0


From 802c032aa9fe46d0b70c160e0a876f80c6459282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 23/32] fix: do not store zeros in sparse kronecker products

---
 src/qudiet/core/backend/SparseBackend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/backend/SparseBackend.py b/src/qudiet/core/backend/SparseBackend.py
index 70c4c55..6fb6a35 100644
--- a/src/qudiet/core/backend/SparseBackend.py
+++ b/src/qudiet/core/backend/SparseBackend.py
@@ -31,7 +31,7 @@ from qudiet.core.backend.core import Backend
 class SparseBackend(Backend):
     @staticmethod
     def kron(a, b):
-        return sparse.kron(a, b)
+        return sparse.kron(a, b, format="csr")
 
     @staticmethod
     def dot(a, b):
-- 
2.43.0


From 2963bd7ba5f10387801a100663699c11c094fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 24/32] fix: print file names and errors of the batch runner
 literally

---
 experimental.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/experimental.py b/experimental.py
index aa2ef1f..e845ebe 100644
--- a/experimental.py
+++ b/experimental.py
@@ -1,5 +1,6 @@
 from xmlrpc.client import boolean
 from rich.console import Console
+from rich.markup import escape
 from qudiet.core import backend
 from src.qudiet.qasm.qasm_parser import parse_qasm
 import argparse, glob, pickle, warnings, time, json
@@ -68,11 +69,11 @@ def main():
 
     files = glob.glob(directory_path, recursive = True)
     console.print(f"File count: [green]{len(files)}[white]")
-    console.print(f"Analyzing files: [green]{'[white], [green]'.join(files)}[white]\n\n")
+    console.print(f"Analyzing files: [green]{'[white], [green]'.join(map(escape, files))}[white]\n\n")
 
     if operate_on in ["txt", "qasm"]:
         for file in files:
-            display = f"[bold green]Working on {file}..."
+            display = f"[bold green]Working on {escape(file)}..."
             if terminal:
                 with console.status(display) as status:
                     routine(file, backend, suffix, verbose)
@@ -85,7 +86,7 @@ def main():
         for file in files:
             with open(file, "rb") as out_file:
                 result = pickle.load(out_file)
-                console.print(f"Result for [yellow]'{file.split('/')[-1]}'[white] found:")
+                console.print(f"Result for [yellow]'{escape(file.split('/')[-1])}'[white] found:")
                 console.print(f"\t{result}\n[o]")
     
     pass
@@ -110,16 +111,16 @@ def routine(file, backend, suffix, verbose):
         with open(output, "wb") as out_file:
             pickle.dump(result, out_file)
 
-        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{file}': ", result)
+        console.print(f"[bold yellow]---->[white] Result for file [bold green]'{escape(file)}': ", result)
 
         if verbose:
-            console.print(f"[bold]saved in [purple]{output}\n")
+            console.print(f"[bold]saved in [purple]{escape(output)}\n")
 
     except Exception as e: #IndexError as ie:
         # result = ie.args
         # print(f"[x] File '{file}' got exception '{e}'...")
         warnings.warn(f"[x] File '{file}' got exception '{e}'...")
-        console.print(f"[bold red][x][white] File [bold green]'{file}'[white] got exception '{e}'...\n[x]")
+        console.print(f"[bold red][x][white] File [bold green]'{escape(file)}'[white] got exception '{escape(str(e))}'...\n[x]")
 
 # operate_on = "pkl"
 # directory_path = "testbench/tof_qutrit" + "/**/*."+operate_on
-- 
2.43.0


From 34b720301d3e12028e60830d0ee809e0e6c4f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:47 +0000
Subject: [PATCH 25/32] fix: refuse QASM programs whose section marks are out
 of order

---
 src/qudiet/qasm/qasm_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index b34bf08..68b88c5 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -55,8 +55,10 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
     _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
-    if len(_data) != 7:
-        raise ValueError("A qasm needs one header and one of .qubit, .begin and .end")
+    if len(_data) != 7 or not (
+        _data[1].startswith("qudit") and _data[3] == "begin" and _data[5] == "end"
+    ):
+        raise ValueError("A qasm needs one header and one of .qubit, .begin and .end, in this order")
     _data.pop(6)
     _data.pop(5)
     _data.pop(3)
-- 
2.43.0


From ad4b991ca0bc4be3d4c117619b5f82a569695545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:58 +0000
Subject: [PATCH 26/32] fix: license check accepts a header that is cut off at
 the end of the file

---
 scripts/license-headers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 9aed439..3165daa 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -33,7 +33,7 @@ import datetime
 import os
 import re
 import sys
-from itertools import chain
+from itertools import chain, repeat
 from typing import Iterator, List
 
 GIT = "https://github.com/LegacYFTw/qubit-qudit-sim"
@@ -115,7 +115,7 @@ def does_file_need_fix(filepath: str) -> bool:
             elif line not in lines_to_keep:
                 return True
         for header_line, line in zip(
-            license_header_lines, chain((first_license_line,), f)
+            license_header_lines, chain((first_license_line,), f, repeat(None))
         ):
             if line != header_line:
                 return True
-- 
2.43.0


From efde709e9c8621637d8a0863ed827b754254aa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:35 +0000
Subject: [PATCH 27/32] fix: license header put above the interpreter line of a
 file without code

---
 scripts/license-headers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 3165daa..89644c4 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -126,9 +126,8 @@ def add_header_to_file(filepath: str) -> None:
     with open(filepath, mode="r") as f:
         lines = list(f)
     i = 0
-    for i, line in enumerate(lines):
-        if line not in lines_to_keep:
-            break
+    while i < len(lines) and lines[i] in lines_to_keep:
+        i += 1
     lines = lines[:i] + license_header_lines + lines[i:]
     with open(filepath, mode="w") as f:
         f.truncate()
-- 
2.43.0


From 46d1d2123f3d2833486bf35f3e538bd3077039af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:34 +0000
Subject: [PATCH 28/32] fix: Toffoli and multi-register custom gates describe
 themselves as single-qudit, uncontrolled gates

---
 src/qudiet/circuit_library/__init__.py         |  2 +-
 .../standard_gates/toffoli_utility.py          | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index 4d89e0b..5136524 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -64,7 +64,7 @@ class ArbitaryGate(QuantumGate, ABC):
         Check if the gate is a single qudit or multi-qudit
         :return: True or False, depending on the scenario
         """
-        return True
+        return type(self.qreg) is int or len(self.qreg) == 1
 
     @property
     def unitary(self) -> csr_matrix:
diff --git a/src/qudiet/circuit_library/standard_gates/toffoli_utility.py b/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
index f894e36..15be0e4 100644
--- a/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
+++ b/src/qudiet/circuit_library/standard_gates/toffoli_utility.py
@@ -82,4 +82,20 @@ class Toffoli(ArbitaryGate):
         self._acting_on = list(range(lb, ub+1)) 
         super().__init__(qreg, [dims[a] for a in self._acting_on], backend)
         self._unitary = _unitary
-        self._plus = plus
\ No newline at end of file
+        self._plus = plus
+
+    @property
+    def is_controlled(self) -> bool:
+        """
+        Check if the gate is controlled or not
+        :return: True or False, depending on the scenario
+        """
+        return True
+
+    @property
+    def is_single_qudit(self) -> bool:
+        """
+        Check if the gate is a single qudit or multi-qudit
+        :return: True or False, depending on the scenario
+        """
+        return False
-- 
2.43.0


From 1296a3e39039924f390cb57baf9e430f0362f496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:55 +0000
Subject: [PATCH 29/32] fix: a Toffoli statement in QASM refuses several blanks
 after its name and registers not called x

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 68b88c5..6cd9bd7 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -96,7 +96,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 set(
                     (
                         re.sub(
-                            r"TOFFOLI x\d+[, ]+x(\d+)[, ]+x\d+",
+                            r"TOFFOLI\s+[a-zA-Z]*\d+[, ]+[a-zA-Z]*(\d+)[, ]+[a-zA-Z]*\d+",
                             r"\1",
                             ";".join(_found_tofs),
                         )
-- 
2.43.0


From 32acb8c5f3d96777165534adb58af4b70ec2d932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:53 +0000
Subject: [PATCH 30/32] fix: a CX with an increment beyond 64 bits adds it
 modulo the target's levels

---
 src/qudiet/circuit_library/standard_gates/cx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/cx.py b/src/qudiet/circuit_library/standard_gates/cx.py
index d7a3a1e..37288d3 100644
--- a/src/qudiet/circuit_library/standard_gates/cx.py
+++ b/src/qudiet/circuit_library/standard_gates/cx.py
@@ -145,7 +145,7 @@ class CXGate(QuantumGate, ABC):
 
         # apply transform
         # target_change_to = (src_in_truth_table[target_i] + abs(target - plus)) # % target
-        target_change_to = (src_in_truth_table[target_i] + plus) % target
+        target_change_to = (src_in_truth_table[target_i] + plus % target) % target
 
         trgt_in_truth_table = src_in_truth_table.copy()
         trgt_in_truth_table[target_i] = target_change_to
-- 
2.43.0


From 06f901d2bc819c72914e8a8b1b360ea8c4d07145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:30 +0000
Subject: [PATCH 31/32] fix: bin_to_Nbase gives a wrong index beyond 64 bits

---
 src/qudiet/utils/numpy.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/utils/numpy.py b/src/qudiet/utils/numpy.py
index 2028918..184e93e 100644
--- a/src/qudiet/utils/numpy.py
+++ b/src/qudiet/utils/numpy.py
@@ -39,9 +39,11 @@ def bin_to_Nbase(target, base=2):
         assert len(target) == len(base)
 
     # base[0] = 1 # Anything to the power of 0 is 1
-    scale = np.array(base[::-1]).cumprod()
-    scale = [1, *scale[:-1]]
-    return np.sum(scale[::-1] * np.array(target))
+    # Python integers, for indices of more than 64 bits
+    _index = 0
+    for _digit, _base in zip(target, base):
+        _index = _index * int(_base) + int(_digit)
+    return _index
 
 
 def Nbase_to_bin(_repr, base=[2]):
-- 
2.43.0


From b416c8a44d0ed573deb03659231a977412cd145d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:53 +0000
Subject: [PATCH 32/32] fix: a tuple of more than two integers was taken for
 (length, dimension), its rest ignored

---
 src/qudiet/core/quantum_circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index b9fdc28..c07d732 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -89,7 +89,8 @@ class QuantumCircuit:
 
         # (length, dimension) stands for a list of registers of that dimension
         if self._is_qregs_tuple:
-            qregs = qregs[0] * [qregs[1]]
+            _length, _dim = qregs
+            qregs = _length * [_dim]
         elif self._is_qregs_list:
             qregs = list(qregs)
 
-- 
2.43.0

