From f19076d70e179542fb88e628ffc22af71a394270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:34 +0000
Subject: [PATCH 01/27] fix: do not extend the caller's init_states list

---
 src/qudiet/core/quantum_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index e7d06ac..93da3b4 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -99,7 +99,7 @@ class QuantumCircuit:
         self.qregs = qregs
         self.cregs = cregs or 0
         self.name = name or ""
-        self.init_states = init_states or []
+        self.init_states = list(init_states or [])
         self.circuit_output = None
 
         self.op_flow = OperatorFlow()
-- 
2.43.0


From 8e0dcbed701721ff59d7fcc07ace468f48af4d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:51 +0000
Subject: [PATCH 02/27] fix: expand the (length, dimension) register form and
 copy the register list

Output, toffoli, get_circuit_config, get_circuit_info, __str__ and draw read
qregs as a list of dimensions and broke, or answered for two registers, when
the circuit was declared as a tuple. The list form was kept by reference, so
a later change to the caller's list changed the circuit.
---
 src/qudiet/core/quantum_circuit.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 93da3b4..b90b907 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -87,15 +87,21 @@ class QuantumCircuit:
         self.backend = DefaultBackend if backend is None else backend
         self.debug_backend = self.backend
 
+        if not isinstance(qregs, (tuple, list)):
+            raise ValueError(
+                "The registers must be defined as a tuple of two integers or a list of integers"
+            )
+        if isinstance(qregs, tuple):
+            # (length, dimension) is a shorthand for a list of dimensions
+            qregs = qregs[0] * [qregs[1]]
+        else:
+            qregs = list(qregs)
+
         if output is None:
             output = Output(qregs, OutputType.print, OutputMethod.amplitude)
 
         self.output_processor = output
 
-        if not isinstance(qregs, (tuple, list)):
-            raise ValueError(
-                "The registers must be defined as a tuple of two integers or a list of integers"
-            )
         self.qregs = qregs
         self.cregs = cregs or 0
         self.name = name or ""
@@ -106,16 +112,8 @@ class QuantumCircuit:
         self.op_flow.debug_backend = self.debug_backend
         self.op_flow.debug = debug
 
-        self._is_qregs_tuple = type(self.qregs) == tuple
-        self._is_qregs_list = type(self.qregs) == list
-
-        if self._is_qregs_tuple:
-            self._reg_length = self.qregs[0]
-            self._reg_dims = self._reg_length * [self.qregs[1]]
-
-        elif self._is_qregs_list:
-            self._reg_length = len(self.qregs)
-            self._reg_dims = self.qregs
+        self._reg_length = len(self.qregs)
+        self._reg_dims = self.qregs
 
         if self._reg_length > len(self.init_states):
             self.init_states.extend((self._reg_length - len(self.init_states)) * [0])
-- 
2.43.0


From b6b6a40e77ca10d2f54754d88231b40d5a69528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:11 +0000
Subject: [PATCH 03/27] fix: report probabilities as squared moduli of the
 amplitudes

---
 src/qudiet/core/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index abe83d0..c95f17c 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -70,7 +70,7 @@ class Output:
                         f"|{''.join([str(s) for s in state])}>"
                         if self.output_type == OutputType.print
                         else tuple(state)
-                    ): (d**2 if self.output_method == OutputMethod.probability else d)
+                    ): (abs(d) ** 2 if self.output_method == OutputMethod.probability else d)
                 }
             ]
         return qoutput
-- 
2.43.0


From 82591785dbae7a6725190b7416c91e8bec67b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:41 +0000
Subject: [PATCH 04/27] fix: reject negative, out-of-range and repeated
 registers for every gate

A negative register passed the bounds check and the gate silently vanished
from the circuit; cx and toffoli were not checked at all, so cx with equal
control and target put a non-unitary matrix into the circuit.
---
 src/qudiet/core/quantum_circuit.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index b90b907..825edc2 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -148,9 +148,13 @@ class QuantumCircuit:
         :param dims: The dimension of the gate
         """
         if type(qreg) is list:
+            if len(set(qreg)) != len(qreg):
+                raise ValueError(
+                    "Illegal placement of gate. The same register is specified more than once."
+                )
             return [self.__validate_gate_inputs(qreg_i, dims) for qreg_i in qreg]
 
-        if qreg > self._reg_length - 1:
+        if qreg < 0 or qreg > self._reg_length - 1:
             raise ValueError(
                 "Illegal placement of gate. Register specified is out of circuit bounds."
             )
@@ -273,6 +277,9 @@ class QuantumCircuit:
         # #         return None
         # # self.op_flow.populate_opflow(DecrMoment("DecrMoment_for_Toffoli", []))
 
+        controls, target = qreg
+        self.__validate_gate_inputs([*controls, target], None)
+
         # Density Matrix Based
         _toffoligate = Toffoli(
             dims=self.qregs, qreg=qreg, plus=plus, backend=self.backend
@@ -293,6 +300,8 @@ class QuantumCircuit:
         :return: True if everything goes well, else False
         """
 
+        self.__validate_gate_inputs(list(acting_on), None)
+
         # active_qregs = [
         #     self._reg_dims[qreg] for qreg in [range(acting_on[0], acting_on[1] + 1) if acting_on[0] < acting_on[1] else range(acting_on[1], acting_on[0] + 1)]
         # ]
-- 
2.43.0


From 0d0b9aeff714c4d9fbadc6c09ba01f4a9950626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 05/27] fix: reject initial states outside [0, dim)

A negative state wrapped around and initialised the qudit from the top level.
---
 src/qudiet/core/init_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/init_states.py b/src/qudiet/core/init_states.py
index 655466c..8c851ba 100644
--- a/src/qudiet/core/init_states.py
+++ b/src/qudiet/core/init_states.py
@@ -40,7 +40,7 @@ class InitState:
         :param state: Represents the state in which it is to be initialized.
         :param qreg:   Represents the position of the init state in the circuit.
         """
-        if dim < state or dim < 2:
+        if state < 0 or dim <= state or dim < 2:
             raise ValueError("Please check values of dim and state")
         else:
             self.dim = dim
-- 
2.43.0


From 8157f78262f42e2d7fc7acc7001038179fcfffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:13 +0000
Subject: [PATCH 06/27] fix: let toffoli report that it was refused after
 measurement

---
 src/qudiet/core/quantum_circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 825edc2..3eaabc7 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -287,7 +287,7 @@ class QuantumCircuit:
 
         _result = self.__add_moment_to_opflow(_toffoligate._acting_on, _toffoligate)
 
-        return True
+        return _result
 
     def cx(
         self, acting_on: "tuple[int, int]", plus: int, dims: Optional[int] = None
-- 
2.43.0


From c6aa157969564739558c2190b226443f9b8ccf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:41 +0000
Subject: [PATCH 07/27] fix: keep a copy of the register operands of
 multi-qudit gates

The matrices are built when the circuit runs, so changing the list passed to
cx afterwards changed the gate that had already been placed.
---
 src/qudiet/core/quantum_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 3eaabc7..9c36bb3 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -279,6 +279,7 @@ class QuantumCircuit:
 
         controls, target = qreg
         self.__validate_gate_inputs([*controls, target], None)
+        qreg = (list(controls), target)
 
         # Density Matrix Based
         _toffoligate = Toffoli(
@@ -300,6 +301,7 @@ class QuantumCircuit:
         :return: True if everything goes well, else False
         """
 
+        acting_on = tuple(acting_on)
         self.__validate_gate_inputs(list(acting_on), None)
 
         # active_qregs = [
@@ -333,6 +335,7 @@ class QuantumCircuit:
                 qreg=qreg, dims=dims or self._reg_dims[qreg], backend=self.backend
             )
         elif type(qreg) is list:
+            qreg = list(qreg)
             _gate = gate(
                 qreg=qreg, dims=dims or [ self._reg_dims[qreg_i] for qreg_i in qreg ], backend=self.backend
             )
-- 
2.43.0


From 140f5a067c30385ec001cc38e34e56ecfb2a20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:55 +0000
Subject: [PATCH 08/27] fix: check the size of multi-register gates against the
 product of the dimensions

A two-register gate could never run, since a shape tuple never equals a list,
and gates on three or more registers were not checked at all.
---
 src/qudiet/circuit_library/__init__.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/qudiet/circuit_library/__init__.py b/src/qudiet/circuit_library/__init__.py
index fa7d082..43644ea 100644
--- a/src/qudiet/circuit_library/__init__.py
+++ b/src/qudiet/circuit_library/__init__.py
@@ -79,14 +79,8 @@ class ArbitaryGate(QuantumGate, ABC):
         if type(self.dims) == int:
             assert self._unitary.shape == (self.dims, self.dims)
         elif type(self.dims) == list:
-            if len(self.dims) == 1:
-                assert self._unitary.shape == (self.dims[0], self.dims[0])
-            if len(self.dims) == 2:
-                assert self._unitary.shape == self.dims
-            if len(self.dims) > 2:
-                # raise Exception(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
-                # warnings.warn(f'The defined gate can have `at most` connected 2 registers. One target and One for Control.')
-                pass
+            size = int(np.prod(self.dims))
+            assert self._unitary.shape == (size, size)
 
 
         # Qudit Dimesnion, suppose 3, the check if the shape is 3 x 3
-- 
2.43.0


From d71139fe99e6c8aa1210a654ba4d86025a9f9a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:13 +0000
Subject: [PATCH 09/27] fix: let the X gate shift modulo the dimension like CX
 and Toffoli do

---
 src/qudiet/circuit_library/standard_gates/x.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/circuit_library/standard_gates/x.py b/src/qudiet/circuit_library/standard_gates/x.py
index 722085c..f5633fc 100644
--- a/src/qudiet/circuit_library/standard_gates/x.py
+++ b/src/qudiet/circuit_library/standard_gates/x.py
@@ -69,7 +69,7 @@ class XGate(QuantumGate, ABC):
         :return: The gate unitary
         """
         _unitary_builder = np.zeros(shape=(self.dims, 1))
-        _unitary_builder[self.plus] = 1
+        _unitary_builder[self.plus % self.dims] = 1
         _unitary = self.backend.matrix(circulant(_unitary_builder))
 
         return _unitary
-- 
2.43.0


From 74bdcd9ed906f09d6eb5c8281637ed6b5e9b729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:54 +0000
Subject: [PATCH 10/27] fix: order the roots of unity in the H and Z gates

np.roots returns them in no useful order, so from dimension 4 on H was not
even unitary and Z was not the clock operator.
---
 src/qudiet/circuit_library/standard_gates/h.py | 16 +++++-----------
 src/qudiet/circuit_library/standard_gates/z.py |  8 ++------
 2 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/qudiet/circuit_library/standard_gates/h.py b/src/qudiet/circuit_library/standard_gates/h.py
index 7ebe9b7..152cee4 100644
--- a/src/qudiet/circuit_library/standard_gates/h.py
+++ b/src/qudiet/circuit_library/standard_gates/h.py
@@ -28,7 +28,6 @@ from abc import ABC
 from typing import Union
 
 import numpy as np
-from scipy.linalg import circulant
 from scipy.sparse import csr_matrix
 
 from qudiet.circuit_library.standard_gates.quantum_gate import QuantumGate
@@ -69,16 +68,11 @@ class HGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _usable_roots_of_unity = np.delete(_roots_of_unity, len(_roots_of_unity) - 1)
-        _unitary_builder = circulant(_usable_roots_of_unity)
-        _unitary_builder_first_row = np.ones(len(_usable_roots_of_unity))
-        _unitary_first = np.vstack([_unitary_builder_first_row, _unitary_builder])
-        _unitary_first_column = np.ones(len(_usable_roots_of_unity) + 1)
-        _unitary_unnormalized = np.c_[_unitary_first_column, _unitary_first]
+        # Row j, column k holds the (j * k)-th power of the first root of unity
+        _levels = np.arange(self.dims)
+        _unitary_unnormalized = np.real_if_close(
+            np.exp(2j * np.pi * np.outer(_levels, _levels) / self.dims)
+        )
         _unitary = 1 / (math.sqrt(self.dims)) * _unitary_unnormalized
 
         return self.backend.matrix(_unitary)
diff --git a/src/qudiet/circuit_library/standard_gates/z.py b/src/qudiet/circuit_library/standard_gates/z.py
index c1ea11a..6270d97 100644
--- a/src/qudiet/circuit_library/standard_gates/z.py
+++ b/src/qudiet/circuit_library/standard_gates/z.py
@@ -67,12 +67,8 @@ class ZGate(QuantumGate, ABC):
         This is the gate unitary which shall be used to do any calculation
         :return: The gate unitary
         """
-        _roots_of_unity_build_list = np.zeros(self.dims + 1)
-        _roots_of_unity_build_list[0] = 1
-        _roots_of_unity_build_list[self.dims] = -1
-        _roots_of_unity = np.roots(_roots_of_unity_build_list)
-        _roots_of_unity = np.flipud(_roots_of_unity)
-        _unitary = np.diag(np.flipud(_roots_of_unity))
+        _roots_of_unity = np.exp(2j * np.pi * np.arange(self.dims) / self.dims)
+        _unitary = np.diag(np.real_if_close(_roots_of_unity))
 
         return self.backend.matrix(_unitary)
 
-- 
2.43.0


From 6efceca8bafe2fada5bec26f0c4c00a96936d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 11/27] fix: do not take the angle of an RX instruction for a
 shift amount

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 4b74fae..0787c14 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -87,7 +87,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
             re.search("^RX", _gate) and re.search("180$", _gate)
         ):
             plus = 1
-            if len(_gate.split()) == 3:
+            if re.search("^X", _gate) and len(_gate.split()) == 3:
                 plus = int(_gate.split()[2])
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.x(qreg=_gate_qreg, plus=plus)
-- 
2.43.0


From a639d429b071658a3c3f2d5130c6eeaf639b82f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:25 +0000
Subject: [PATCH 12/27] fix: keep the sign of the shift amount of a CX
 instruction

---
 src/qudiet/qasm/qasm_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 0787c14..262cd04 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -106,7 +106,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 int(re.findall("\d+", _gate.split()[2])[0]),
             )
             if len(_gate.split()) == 4:
-                _plus = int(re.findall("\d+", _gate.split()[3])[0])
+                _plus = int(_gate.split()[3])
             else:
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
-- 
2.43.0


From f32d30724fff14c47acd0074771ca3da0aca56cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:40 +0000
Subject: [PATCH 13/27] fix: give each declared QASM register its own dimension

Gates address registers by number, but the dimensions were taken in the order
of the declarations.
---
 src/qudiet/qasm/qasm_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 262cd04..2f7ad46 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -52,7 +52,10 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _data[0] = re.sub(r"qutrit x(\d+)", r"qudit x\1 (3)", _data[0])
 
     _qregs = [
-        int(re.findall("\d+", _dims)[0]) for _dims in re.findall("\d+\)", _data[0])
+        int(_dim)
+        for _reg, _dim in sorted(
+            re.findall(r"(\d+)\s*\((\d+)\)", _data[0]), key=lambda _decl: int(_decl[0])
+        )
     ]
     if backend is None:
         backend = DefaultBackend
-- 
2.43.0


From 5fb2ecb9502f60ed076700dff9b7adea161aa76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:23 +0000
Subject: [PATCH 14/27] fix: accept indented QASM and ignore trailing comments

The example of the README is indented and could not be parsed. A comment after
an instruction or declaration was read as operands.
---
 src/qudiet/qasm/qasm_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index 2f7ad46..ba97823 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -41,7 +41,8 @@ def parse_qasm(filename: str, backend: Backend = None):
 def circuit_from_qasm(_data, backend: Backend = None):
     _data = re.sub(r"\.qubit (\d+)", r".qudit \1", _data)
     _data = re.sub(r"\.qutrit (\d+)", r".qudit \1", _data)
-    _data = re.split("\n\.(qudit\s\d+|begin|end)", _data)
+    _data = re.sub(r"#.*", "", _data)
+    _data = re.split(r"\n\s*\.(qudit\s\d+|begin|end)", _data)
     _data.pop(6)
     _data.pop(5)
     _data.pop(3)
@@ -60,7 +61,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
     if backend is None:
         backend = DefaultBackend
 
-    _gates = list(filter(None, _data[1].split("\n")))
+    _gates = list(filter(None, map(str.strip, _data[1].split("\n"))))
     _found_tofs = list(filter(lambda s: re.match("^Toffoli", s), _gates))
 
     if _found_tofs:
-- 
2.43.0


From 532bf4b2b93791f443ea4af6a5361b605819e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:39 +0000
Subject: [PATCH 15/27] fix: never drop a QASM instruction silently

Lower-case mnemonics, RX by another angle than 180 and unknown instructions
were skipped, and CNOTZ was run as CNOT. Mnemonics are now matched as whole
words in any case, and an instruction that is not supported is an error.
---
 src/qudiet/qasm/qasm_parser.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index ba97823..d5b7890 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -62,7 +62,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
         backend = DefaultBackend
 
     _gates = list(filter(None, map(str.strip, _data[1].split("\n"))))
-    _found_tofs = list(filter(lambda s: re.match("^Toffoli", s), _gates))
+    _found_tofs = list(filter(lambda s: re.match("^Toffoli", s, re.I), _gates))
 
     if _found_tofs:
         _toffolis = list(
@@ -74,6 +74,7 @@ def circuit_from_qasm(_data, backend: Backend = None):
                             r"Toffoli x\d+[, ]+x(\d+)[, ]+x\d+",
                             r"\1",
                             ";".join(_found_tofs),
+                            flags=re.I,
                         )
                     ).split(";")
                 ),
@@ -87,24 +88,23 @@ def circuit_from_qasm(_data, backend: Backend = None):
     qc = QuantumCircuit(qregs=_qregs, backend=backend)
 
     for _gate in _gates:
-        if re.search("^X", _gate) or (
-            re.search("^RX", _gate) and re.search("180$", _gate)
-        ):
+        _name = _gate.split()[0].upper()
+        if _name == "X" or (_name == "RX" and re.search(r"\s180$", _gate)):
             plus = 1
-            if re.search("^X", _gate) and len(_gate.split()) == 3:
+            if _name == "X" and len(_gate.split()) == 3:
                 plus = int(_gate.split()[2])
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.x(qreg=_gate_qreg, plus=plus)
 
-        elif re.search("^H", _gate):
+        elif _name == "H":
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.h(qreg=_gate_qreg)
 
-        elif re.search("^Z", _gate):
+        elif _name == "Z":
             _gate_qreg = int(re.findall("\d+", _gate.split()[1])[0])
             qc.z(qreg=_gate_qreg)
 
-        elif re.search("^CX", _gate) or re.search("^CNOT", _gate):
+        elif _name in ("CX", "CNOT"):
             _gate_qreg = (
                 int(re.findall("\d+", _gate.split()[1])[0]),
                 int(re.findall("\d+", _gate.split()[2])[0]),
@@ -115,13 +115,16 @@ def circuit_from_qasm(_data, backend: Backend = None):
                 _plus = 1
             qc.cx(acting_on=_gate_qreg, plus=_plus)
 
-        elif re.search("^Toffoli", _gate):
+        elif _name == "TOFFOLI":
             ints = list(map(int, re.findall("\d+", _gate)))
             _gate_qreg = (ints[:-1], ints[-1])
             _plus = 1
             # qc.toffoli(_gate_qreg, _plus)
             qc.toffoli(_gate_qreg)
 
+        else:
+            raise ValueError(f"Unsupported QASM instruction: {_gate}")
+
     qc.measure_all()
 
     return qc
-- 
2.43.0


From 397add88c52b216c6c928acea1c2d4025f3159d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:15 +0000
Subject: [PATCH 16/27] fix: look up the dimensions of controlled gates
 relative to their first register when drawing

---
 src/qudiet/utility/circuit_draw.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index e4a78f1..5e1e636 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -173,15 +173,17 @@ def _draw_toffoli_gate(gate_,i,ax,dpi):
     crtl_,trgt=gate_.acting_on
     crtl=list(crtl_)
     plus=gate_._plus
-    dim=gate_.dims[trgt]
+    dim=gate_.dims[trgt-min(crtl+[trgt])]
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 
 def _draw_cnot_gate(gate,i,ax,dpi):
     crtl,trgt=gate.acting_on
     crtl=[crtl]
     plus=gate._plus
-    dim=gate._qreg[trgt]
-    if gate._qreg[crtl[0]]==2 and gate._qreg[trgt]==2:
+    # _qreg holds the dimensions from the upper to the lower of the two registers
+    low=min(crtl+[trgt])
+    dim=gate._qreg[trgt-low]
+    if gate._qreg[crtl[0]-low]==2 and dim==2:
         return _draw_qubit_cnot_gate(crtl[0],trgt,i,ax,dpi)
     return _draw_cgate('X',crtl,trgt,plus,dim,i,ax,dpi)
 def _draw_x_gate(gate_,i,ax,dpi):
-- 
2.43.0


From a0c72d81fced041b1f0e0582e46ebdcd487780f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 17/27] fix: draw circuits that have no gates yet

---
 src/qudiet/utility/circuit_draw.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/qudiet/utility/circuit_draw.py b/src/qudiet/utility/circuit_draw.py
index 5e1e636..605f017 100644
--- a/src/qudiet/utility/circuit_draw.py
+++ b/src/qudiet/utility/circuit_draw.py
@@ -235,9 +235,6 @@ def draw_circuit_mpl(cir,compress=1):
     bit=len(cir.qregs)
     
     moments=cir.op_flow.peek()
-    moment=moments[1]
-    gates=moment.peek_list()
-    
     fig=1
     dpi=plt.rcParams['figure.dpi']
     x=15+bit*compress
-- 
2.43.0


From c4e5f9a5587e34b43948d0fac972d576b3d34c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:50 +0000
Subject: [PATCH 18/27] fix: show custom gates in the printed circuit

---
 src/qudiet/core/quantum_circuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 9c36bb3..32c617b 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -496,6 +496,9 @@ class QuantumCircuit:
                             draw_matrix[dit][j] = f'X({op._plus})'
                         else:
                             draw_matrix[dit][j] = "|"
+                elif isinstance(op, ArbitaryGate):
+                    for dit in op.qreg if isiterable(op.qreg) else [op.qreg]:
+                        draw_matrix[dit][j] = "G"
             
         for i in range(len(draw_matrix)):
             for j in range(len(draw_matrix[i])):
-- 
2.43.0


From fada34c8cb250d41a4746cd6f042d9cd50bdda81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:52 +0000
Subject: [PATCH 19/27] fix: keep a copy of the register dimensions in Output

---
 src/qudiet/core/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qudiet/core/output.py b/src/qudiet/core/output.py
index c95f17c..e23ba9a 100644
--- a/src/qudiet/core/output.py
+++ b/src/qudiet/core/output.py
@@ -47,7 +47,7 @@ class Output:
         type: OutputType = OutputType.print,
         method: OutputMethod = OutputMethod.probability,
     ):
-        self.base = base
+        self.base = list(base)
         self.output_type = type
         self.output_method = method
 
-- 
2.43.0


From 965051d44f87905febc9f202bdc838170152049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:56 +0000
Subject: [PATCH 20/27] fix: turn one-dimensional input into a column on the
 sparse backends as well

---
 src/qudiet/core/backend/CUDASparseBackend.py | 2 ++
 src/qudiet/core/backend/SparseBackend.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/qudiet/core/backend/CUDASparseBackend.py b/src/qudiet/core/backend/CUDASparseBackend.py
index 08c84e9..3b20f1f 100644
--- a/src/qudiet/core/backend/CUDASparseBackend.py
+++ b/src/qudiet/core/backend/CUDASparseBackend.py
@@ -59,6 +59,8 @@ class CUDASparseBackend(Backend):
     def matrix(a):
         if isinstance(a, np.ndarray):
             a = cp.array(a)
+        if np.ndim(a) == 1:
+            a = cp.reshape(cp.asarray(a), (-1, 1))
         return sparse.csr_matrix(a)
 
     @staticmethod
diff --git a/src/qudiet/core/backend/SparseBackend.py b/src/qudiet/core/backend/SparseBackend.py
index 20452cd..5ba4180 100644
--- a/src/qudiet/core/backend/SparseBackend.py
+++ b/src/qudiet/core/backend/SparseBackend.py
@@ -43,6 +43,8 @@ class SparseBackend(Backend):
 
     @staticmethod
     def matrix(a):
+        if np.ndim(a) == 1:
+            a = np.reshape(a, (-1, 1))
         return sparse.csr_matrix(a)
 
     @staticmethod
-- 
2.43.0


From e866a4bdac128ba71c2a85d5443649f519ce06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 21/27] fix: return the attribute from the CUDA backends'
 attribute lookup

---
 src/qudiet/core/backend/CUDABackend.py       | 2 +-
 src/qudiet/core/backend/CUDASparseBackend.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/core/backend/CUDABackend.py b/src/qudiet/core/backend/CUDABackend.py
index a3146fc..b61569c 100644
--- a/src/qudiet/core/backend/CUDABackend.py
+++ b/src/qudiet/core/backend/CUDABackend.py
@@ -41,7 +41,7 @@ class CUDABackend(Backend):
     def __getattribute__(self, name):
         if not CUDA_HOME:
             raise Exception("CUDA Backend is disabled.")
-        super().__getattribute__(name)
+        return super().__getattribute__(name)
 
     @staticmethod
     def kron(a, b):
diff --git a/src/qudiet/core/backend/CUDASparseBackend.py b/src/qudiet/core/backend/CUDASparseBackend.py
index 3b20f1f..9c12999 100644
--- a/src/qudiet/core/backend/CUDASparseBackend.py
+++ b/src/qudiet/core/backend/CUDASparseBackend.py
@@ -41,7 +41,7 @@ class CUDASparseBackend(Backend):
     def __getattribute__(self, name):
         if not CUDA_HOME:
             raise Exception("CUDA Backend is disabled.")
-        super().__getattribute__(name)
+        return super().__getattribute__(name)
 
     @staticmethod
     def kron(a, b):
-- 
2.43.0


From 8446c23c4dffb637b24614201b964ddc336f4f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:20 +0000
Subject: [PATCH 22/27] fix: sparse eye(n, m) has n rows and m columns, like
 the dense one

---
 src/qudiet/core/backend/CUDASparseBackend.py | 2 +-
 src/qudiet/core/backend/SparseBackend.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qudiet/core/backend/CUDASparseBackend.py b/src/qudiet/core/backend/CUDASparseBackend.py
index 9c12999..0c55819 100644
--- a/src/qudiet/core/backend/CUDASparseBackend.py
+++ b/src/qudiet/core/backend/CUDASparseBackend.py
@@ -53,7 +53,7 @@ class CUDASparseBackend(Backend):
 
     @staticmethod
     def eye(n, m):
-        return sparse.eye(n=n, m=m)
+        return sparse.eye(m=n, n=m)
 
     @staticmethod
     def matrix(a):
diff --git a/src/qudiet/core/backend/SparseBackend.py b/src/qudiet/core/backend/SparseBackend.py
index 5ba4180..0e2ec5d 100644
--- a/src/qudiet/core/backend/SparseBackend.py
+++ b/src/qudiet/core/backend/SparseBackend.py
@@ -39,7 +39,7 @@ class SparseBackend(Backend):
 
     @staticmethod
     def eye(n, m):
-        return sparse.eye(n=n, m=m)
+        return sparse.eye(m=n, n=m)
 
     @staticmethod
     def matrix(a):
-- 
2.43.0


From c712ae64b9fffc53ab66427a970ff7074275629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 23/27] fix: a second .begin/.end block in a QASM text is an
 error, not ignored

---
 src/qudiet/qasm/qasm_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index d5b7890..dd0fb5a 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -48,6 +48,8 @@ def circuit_from_qasm(_data, backend: Backend = None):
     _data.pop(3)
     _data.pop(1)
     _data.pop(0)
+    if len(_data) != 2:
+        raise ValueError("Expected exactly one .begin/.end block")
 
     _data[0] = re.sub(r"qubit x(\d+)", r"qudit x\1 (2)", _data[0])
     _data[0] = re.sub(r"qutrit x(\d+)", r"qudit x\1 (3)", _data[0])
-- 
2.43.0


From a8e2aa4a09386a0f8b6e1b5da13c20e1af90bfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:42 +0000
Subject: [PATCH 24/27] fix: surplus operands of a QASM instruction are an
 error, not ignored

---
 src/qudiet/qasm/qasm_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qudiet/qasm/qasm_parser.py b/src/qudiet/qasm/qasm_parser.py
index dd0fb5a..7289b06 100644
--- a/src/qudiet/qasm/qasm_parser.py
+++ b/src/qudiet/qasm/qasm_parser.py
@@ -32,6 +32,10 @@ from qudiet.core.quantum_circuit import QuantumCircuit
 from qudiet.utils.numpy import Nbase_to_bin
 
 
+# instruction name and operands of the instructions with a fixed number of them
+_MAX_WORDS = {"X": 3, "RX": 3, "H": 2, "Z": 2, "CX": 4, "CNOT": 4}
+
+
 def parse_qasm(filename: str, backend: Backend = None):
     with open(filename, "r") as f:
         _data = f.read()
@@ -91,6 +95,8 @@ def circuit_from_qasm(_data, backend: Backend = None):
 
     for _gate in _gates:
         _name = _gate.split()[0].upper()
+        if len(_gate.split()) > _MAX_WORDS.get(_name, len(_gate)):
+            raise ValueError(f"Too many operands in QASM instruction: {_gate}")
         if _name == "X" or (_name == "RX" and re.search(r"\s180$", _gate)):
             plus = 1
             if _name == "X" and len(_gate.split()) == 3:
-- 
2.43.0


From a85277ef49cef36a4f3c5dc72aac63dbf571172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:37 +0000
Subject: [PATCH 25/27] fix: a licence header that is cut short is reported as
 missing

---
 scripts/license-headers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/license-headers.py b/scripts/license-headers.py
index 9aed439..e2fb6be 100644
--- a/scripts/license-headers.py
+++ b/scripts/license-headers.py
@@ -33,7 +33,7 @@ import datetime
 import os
 import re
 import sys
-from itertools import chain
+from itertools import chain, islice, zip_longest
 from typing import Iterator, List
 
 GIT = "https://github.com/LegacYFTw/qubit-qudit-sim"
@@ -114,8 +114,10 @@ def does_file_need_fix(filepath: str) -> bool:
                 break
             elif line not in lines_to_keep:
                 return True
-        for header_line, line in zip(
-            license_header_lines, chain((first_license_line,), f)
+        # a file that ends early lacks the rest of the header
+        rest = islice(f, len(license_header_lines) - 1)
+        for header_line, line in zip_longest(
+            license_header_lines, chain((first_license_line,), rest), fillvalue="\n"
         ):
             if line != header_line:
                 return True
-- 
2.43.0


From ac1b409d59f62916ff2bfaafcb182a304aab8ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:12 +0000
Subject: [PATCH 26/27] fix: measure_all reports that a measured circuit
 refused the measurement

---
 src/qudiet/core/quantum_circuit.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 32c617b..42f7653 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -352,7 +352,7 @@ class QuantumCircuit:
         """
         raise NotImplementedError
 
-    def measure_all(self) -> Literal[True]:
+    def measure_all(self) -> bool:
         """
         Responsible for creating the Measurement Gate and adding it to OperatorFlow through another function call.
         Contrary to the measure function, this method applies a Measurement Gate across all gates in a single Moment.
@@ -366,9 +366,7 @@ class QuantumCircuit:
             Measurement(qreg=_index) for _index in range(self._reg_length)
         ]
         _m = Moment(f"Moment{len(self.op_flow._opflow_list)}", *_measurement_moment)
-        self.op_flow.populate_opflow(_m)
-
-        return True
+        return self.op_flow.populate_opflow(_m)
 
     def __initialize_states(self):
         """
-- 
2.43.0


From dd3c064a7d2f9625d2dacefbc9d6c0483950d4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:15 +0000
Subject: [PATCH 27/27] fix: keep the columns of a drawing aligned when labels
 differ in length

---
 src/qudiet/core/quantum_circuit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qudiet/core/quantum_circuit.py b/src/qudiet/core/quantum_circuit.py
index 42f7653..c278e93 100644
--- a/src/qudiet/core/quantum_circuit.py
+++ b/src/qudiet/core/quantum_circuit.py
@@ -498,6 +498,8 @@ class QuantumCircuit:
                     for dit in op.qreg if isiterable(op.qreg) else [op.qreg]:
                         draw_matrix[dit][j] = "G"
             
+        # A column is as wide as its longest label
+        widths = [max([5] + [len(row[j]) for row in draw_matrix if row[j] != None]) for j in range(depth+2)]
         for i in range(len(draw_matrix)):
             for j in range(len(draw_matrix[i])):
                 ch = draw_matrix[i][j]
@@ -514,7 +516,7 @@ class QuantumCircuit:
                                 side = 'right'
                 else:
                     ch = '-----'
-                circuit_drawing += ch
+                circuit_drawing += ch.ljust(widths[j], '-')
             circuit_drawing += '\n'
         circuit_drawing += f"\ndepth: {self.get_circuit_config()['depth']}, width: {self.get_circuit_config()['width']}"
         return circuit_drawing
-- 
2.43.0

