From c1eb6b2fa93e7e7bf1f589fb5847a657b77a41b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 01/32] fix: unregister_backend checks the backend table, not
 the gate set

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 7fc0bf0..ddcc8c8 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -425,7 +425,7 @@ class BlueqatGlobalSetting:
         Raises:
             ValueError: Specified backend is not registered.
         """
-        if name not in GATE_SET:
+        if name not in BACKENDS:
             raise ValueError(f"Backend '{name}' is not registered.")
         del BACKENDS[name]
 
-- 
2.43.0


From cc1b0036a3c77efb5d36d8fae6c8bffd57dc99fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 02/32] fix: Circuit.set_default_backend(None) restores the
 global setting

---
 blueqat/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index ddcc8c8..9ed12f3 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -253,7 +253,7 @@ class Circuit:
         Raises:
             ValueError: If `backend_name` is not registered backend.
         """
-        if backend_name not in BACKENDS:
+        if backend_name is not None and backend_name not in BACKENDS:
             raise ValueError(f"Unknown backend '{backend_name}'.")
         self._default_backend = backend_name
 
-- 
2.43.0


From 44c135cf27831e2faa366e9aff7adadab008c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 03/32] fix: a gate with an invalid target leaves the circuit
 unchanged

---
 blueqat/circuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/blueqat/circuit.py b/blueqat/circuit.py
index 9ed12f3..bcba2eb 100644
--- a/blueqat/circuit.py
+++ b/blueqat/circuit.py
@@ -282,9 +282,11 @@ class _GateWrapper:
 
     def __getitem__(self, args):
         self.target = args
-        self.circuit.ops.append(self.gate(self.target, *self.args, **self.kwargs))
+        op = self.gate(self.target, *self.args, **self.kwargs)
         # ad-hoc
-        self.circuit.n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        n_qubits = max(gate.get_maximum_index(args) + 1, self.circuit.n_qubits)
+        self.circuit.ops.append(op)
+        self.circuit.n_qubits = n_qubits
         return self.circuit
 
     def __str__(self):
-- 
2.43.0


From f44acb16d7e17b10cd7e56b4a7b56a1b137e4f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 04/32] fix: sign of the Y basis change in
 Term.get_time_evolution

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 9adbbd6..2295fce 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -601,7 +601,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(-half_pi)[n]
+                    circuit.rx(half_pi)[n]
             for i in range(1, len(ops)):
                 circuit.cx[ops[i-1].n, ops[i].n]
             circuit.rz(-2 * coeff * t)[ops[-1].n]
@@ -612,7 +612,7 @@ class Term(_TermTuple):
                 if op.op == "X":
                     circuit.h[n]
                 elif op.op == "Y":
-                    circuit.rx(half_pi)[n]
+                    circuit.rx(-half_pi)[n]
         return append_to_circuit
 
     def to_matrix(self, n_qubits=-1, *, sparse=None):
-- 
2.43.0


From d4c011da063ddb5db52b78b65c78cfc6ce0e7d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 05/32] fix: sign of the Y basis change in
 AnsatzBase.get_energy

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b196497..9551d52 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -50,7 +50,7 @@ class AnsatzBase:
                 if op.op == "X":
                     c.h[op.n]
                 elif op.op == "Y":
-                    c.rx(-np.pi / 2)[op.n]
+                    c.rx(np.pi / 2)[op.n]
             measured = sampler(c, meas.n_iter())
             for bits, prob in measured.items():
                 if sum(bits) % 2:
-- 
2.43.0


From f03c38618aee2246d68655b5bd6e9d7792c90183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 06/32] fix: bit order in get_measurement_sampler

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 9551d52..b861d78 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -244,7 +244,7 @@ def get_measurement_sampler(n_sample, run_options=None):
 
     def sampling_by_measurement(circuit, meas):
         def reduce_bits(bits, meas):
-            bits = [int(x) for x in bits[::-1]]
+            bits = [int(x) for x in bits]
             return tuple(bits[m] for m in meas)
 
         meas = tuple(meas)
-- 
2.43.0


From c3334fdb3cd02ca6618b227b3bfcc35a3ceaa6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 07/32] fix: get_qiskit_sampler drops the identity term

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index b861d78..fc00d30 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -309,7 +309,7 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
     def sampling(circuit, meas):
         meas = tuple(meas)
         if not meas:
-            return {}
+            return {(): 1.0}
         circuit.measure[meas]
         result = circuit.run_with_ibmq(qiskit_backend=backend, returns="qiskit_result", **execute_kwargs)
         counts = Counter({reduce_bits(bits, meas): val for bits, val in result.get_counts().items()})
-- 
2.43.0


From 9374edc76e6c1277ed1fca88d470ef32cb1f780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 08/32] fix: make_sparse uses the size of the ansatz, not of
 the Hamiltonian

---
 blueqat/vqe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index fc00d30..e4d2156 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -35,7 +35,7 @@ class AnsatzBase:
         if make_method:
             self.sparse = make_method(self.hamiltonian)
         else:
-            self.sparse = self.hamiltonian.to_matrix(sparse=fmt)
+            self.sparse = self.hamiltonian.to_matrix(self.n_qubits, sparse=fmt)
 
     def get_circuit(self, params):
         """Make a circuit from parameters."""
-- 
2.43.0


From fe437c059df16603e0645c5655c56b59b3d72f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:43 +0000
Subject: [PATCH 09/32] fix: hash of the identity operator

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 2295fce..8e62cbd 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -243,7 +243,7 @@ class _PauliImpl:
         return 0 if self.is_identity else _n(self) + 1
 
     def __hash__(self):
-        return hash((self.op, _n(self)))
+        return hash((self.op, None if self.is_identity else _n(self)))
 
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
-- 
2.43.0


From c6b3d2dfa16796e3b3b4a133573de9b113c94028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 10/32] fix: Term equality with Expr, with other types and for
 zero terms

---
 blueqat/pauli.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 8e62cbd..c799170 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -497,8 +497,14 @@ class Term(_TermTuple):
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
             other = other.to_term()
-        return _TermTuple.__eq__(self, other) or \
-               _TermTuple.__eq__(self.simplify(), other.simplify())
+        if isinstance(other, Expr):
+            return self.to_expr() == other
+        if not isinstance(other, Term):
+            return NotImplemented
+        if _TermTuple.__eq__(self, other):
+            return True
+        a, b = self.simplify(), other.simplify()
+        return a.coeff == b.coeff and (a.ops == b.ops or a.coeff == 0)
 
     def __ne__(self, other):
         return not self == other
-- 
2.43.0


From ebfbdf5e66515f375d978dfe4fd059aba7bedb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 11/32] fix: division of a Term by a complex number

---
 blueqat/pauli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index c799170..0322db3 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -450,7 +450,7 @@ class Term(_TermTuple):
         return NotImplemented
 
     def __truediv__(self, other):
-        if isinstance(other, (int, float)):
+        if isinstance(other, Number):
             if other:
                 return Term(self.ops, self.coeff / other)
             raise ZeroDivisionError
-- 
2.43.0


From 459afa571f088a63a12e3d2127948f46828eadfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 12/32] fix: adding to an Expr which has repeated terms loses
 terms

---
 blueqat/pauli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 0322db3..e7b85a6 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -672,7 +672,11 @@ class Expr(_ExprTuple):
 
     def terms_to_dict(self):
         """For internal use."""
-        return {term[0]: term[1] for term in self.terms if term.coeff}
+        terms_dict = {}
+        for ops, coeff in self.terms:
+            if coeff:
+                terms_dict[ops] = terms_dict.get(ops, 0) + coeff
+        return terms_dict
 
     @staticmethod
     def from_terms_dict(terms_dict):
-- 
2.43.0


From 91941ca403733a904e55bc4b34e17628969cd430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 13/32] fix: matrix of an Expr which simplifies to zero

---
 blueqat/pauli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index e7b85a6..643e91a 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -890,6 +890,8 @@ class Expr(_ExprTuple):
         dim = 2 ** n_qubits
         is_csr = sparse == 'csr'
         gr_terms = [list(g) for _, g in groupby(sorted(expr.terms, key=grpkey), key=grpkey)]
+        if not gr_terms:
+            gr_terms = [[Term((), 0.0)]]
         n_groups = len(gr_terms)
         n_vals = n_groups * dim
         dtype_idx = np.int32 if n_qubits < 31 else np.int64
-- 
2.43.0


From aaca1104759ba55eda11202343c235d65a9d4eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 14/32] fix: sympy backend applies a gate as many times as its
 target is listed

---
 blueqat/backends/sympy_backend.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/blueqat/backends/sympy_backend.py b/blueqat/backends/sympy_backend.py
index 0db27d0..b824a37 100644
--- a/blueqat/backends/sympy_backend.py
+++ b/blueqat/backends/sympy_backend.py
@@ -76,10 +76,7 @@ class SympyBackend(Backend):
         targets = [idx for idx in targets]
         gates = []
         for idx in range(n_qubits):
-            if idx in targets:
-                gates.append(matrix_of_gate)
-            else:
-                gates.append(eye(2))
+            gates.append(matrix_of_gate ** targets.count(idx))
         return reduce(TensorProduct, reversed(gates))
 
     def _create_matrix_of_one_qubit_gate_circuit(self, gate, ctx, matrix_of_gate):
-- 
2.43.0


From 988cea040f27b2dbdc5eb9c0eb023e36858bbd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 15/32] fix: Opt accepts a QUBO given as a numpy array

---
 blueqat/wq.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index ad13928..b524eab 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -473,7 +473,7 @@ class Opt:
         len2 = len(qubo)
         if(len1==len2):
                 self.qubo = np.array(self.qubo)+M*np.array(qubo)
-        elif(self.qubo ==[]):
+        elif(len1==0):
             self.qubo = M*np.array(qubo)
         return self
 
@@ -482,7 +482,7 @@ class Opt:
         Run SA with provided QUBO. 
         Set qubo attribute in advance of calling this method.
         """
-        if self.qubo != []:
+        if len(self.qubo) > 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -533,7 +533,7 @@ class Opt:
         Set qubo attribute in advance of calling this method.
         """
         G = self.Gs
-        if self.qubo != []:
+        if len(self.qubo) > 0:
             self.qi()
         J = self.reJ()
         N = len(J)
@@ -571,7 +571,7 @@ class Opt:
             raise ImportError("dw() requires dwave-cloud-client. Please install before call this function.")
         solver = Client.from_config(endpoint= self.dwaveendpoint, token=self.dwavetoken, solver=self.dwavesolver).get_solver()
 
-        if self.qubo != []:
+        if len(self.qubo) > 0:
             self.qi()
 
         # for hi
-- 
2.43.0


From d39f855b6ab8321c21191f8de8ebe62627753fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 16/32] fix: qn_to_qubo drops the terms whose coefficient is 1

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index b524eab..9ae1ef2 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -179,13 +179,13 @@ def qn_to_qubo(expr):
             if len(arg.args) == 3:
                 qubo[i][j] = float(arg.args[0])
             elif len(arg.args) == 2:
-                qubo[i][j]
+                qubo[i][j] = 1.0
         if len(syms) == 1:
             if len(arg.args) == 2:
                 assert type(arg) == sympy.Mul
                 i = to_i(next(iter(syms)))
                 qubo[i][i] = float(arg.args[0])
-            elif len(arg.args) == 1:
+            elif not arg.args:
                 qubo[i][i] = 1.0
             else:
                 raise ValueError(f"Too many args! arg.args = {arg.args}")
-- 
2.43.0


From af2621b8891f916b036d5f8f5ae37d85d022af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 17/32] fix: the simulator cache is used only for the gates it
 was made from

---
 blueqat/backends/_numba_backend_impl.py | 17 +++++++++++++++--
 blueqat/backends/numpy_backend.py       | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index 44fa851..a10697d 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 import cmath
+import copy
 import math
 import random
 import warnings
@@ -368,15 +369,26 @@ class NumbaBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
+    def copy(self):
+        copied = copy.copy(self)
+        copied.cache_gates = self.cache_gates.copy()
+        return copied
+
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
             return
+        if len(self.cache_gates) > len(gates) or \
+                any(g1 is not g2 for g1, g2 in zip(self.cache_gates, gates)):
+            self.__clear_cache()
+            return
         if len(self.cache) != 2**n_qubits:
             self.__clear_cache()
             return
@@ -406,7 +418,7 @@ class NumbaBackend(Backend):
         shots, returns, dtype, enable_cache, ignore_global = __parse_run_args(*args, **kwargs)
 
         if enable_cache:
-            self.__clear_cache_if_invalid(n_qubits, dtype)
+            self.__clear_cache_if_invalid(gates, n_qubits, dtype)
         else:
             self.__clear_cache()
         ctx = _NumbaBackendContext(n_qubits, enable_cache, dtype)
@@ -429,6 +441,7 @@ class NumbaBackend(Backend):
                     cache_idx += 1
             if self.cache_idx != cache_idx:
                 self.cache_idx = cache_idx
+                self.cache_gates = list(gates[:cache_idx + 1])
                 if ctx.save_cache:
                     self.cache = ctx.qubits.copy()
             if ctx.cregs:
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index bf2be21..b638d34 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 from collections import Counter
+import copy
 import math
 import random
 import warnings
@@ -68,15 +69,26 @@ class NumPyBackend(Backend):
     def __init__(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
 
     def __clear_cache(self):
         self.cache = None
         self.cache_idx = -1
+        self.cache_gates = []
 
-    def __clear_cache_if_invalid(self, n_qubits, dtype):
+    def copy(self):
+        copied = copy.copy(self)
+        copied.cache_gates = self.cache_gates.copy()
+        return copied
+
+    def __clear_cache_if_invalid(self, gates, n_qubits, dtype):
         if self.cache is None:
             self.__clear_cache()
             return
+        if len(self.cache_gates) > len(gates) or \
+                any(g1 is not g2 for g1, g2 in zip(self.cache_gates, gates)):
+            self.__clear_cache()
+            return
         if len(self.cache) != 2**n_qubits:
             self.__clear_cache()
             return
@@ -104,7 +116,7 @@ class NumPyBackend(Backend):
 
         shots, returns, ignore_global = __parse_run_args(*args, **kwargs)
 
-        self.__clear_cache_if_invalid(n_qubits, DEFAULT_DTYPE)
+        self.__clear_cache_if_invalid(gates, n_qubits, DEFAULT_DTYPE)
         ctx = _NumPyBackendContext(n_qubits)
 
         def run_single_gate(gate):
@@ -123,6 +135,7 @@ class NumPyBackend(Backend):
                 if ctx.save_cache:
                     self.cache = ctx.qubits.copy()
                     self.cache_idx += 1
+                    self.cache_gates.append(gate)
             if ctx.cregs:
                 ctx.store_shot()
 
-- 
2.43.0


From a8c37aa4dcd6cf66012cf9cec82343d9ba91a84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 18/32] fix: qn_to_qubo fails on a linear term whose
 coefficient is 1

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 9ae1ef2..0e1ca53 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -181,9 +181,9 @@ def qn_to_qubo(expr):
             elif len(arg.args) == 2:
                 qubo[i][j] = 1.0
         if len(syms) == 1:
+            i = to_i(next(iter(syms)))
             if len(arg.args) == 2:
                 assert type(arg) == sympy.Mul
-                i = to_i(next(iter(syms)))
                 qubo[i][i] = float(arg.args[0])
             elif not arg.args:
                 qubo[i][i] = 1.0
-- 
2.43.0


From e97aad7519df22ec4835e9b7796bde327761ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 19/32] fix: sign of the coupling between Trotter slices in the
 recorded SQA energy

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 0e1ca53..c012e32 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -202,7 +202,7 @@ def Ei_sqa(q, J, T, P, G):
     E = 0
     for p in range(P):
         E += Ei(q[p], J) / P
-        E += T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
+        E -= T / 2 * np.log(1 / np.tanh(G / T / P)) * np.sum(q[p,:] * q[(p+1+P) % P, :])
     return E
 
 def sel(selN,selK,selarr=[]):
-- 
2.43.0


From cd70283d21f7e20020cb73b2a822fc0019b00784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 20/32] fix: net() overwrites the caller's list of edges

---
 blueqat/wq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index c012e32..13177b3 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -261,8 +261,8 @@ def net(narr,nnet):
     """
     mat = np.zeros((nnet,nnet))
     for i in range(len(narr)):
-        narr[i] = np.sort(narr[i])
-        mat[narr[i][0]][narr[i][1]] = 1
+        edge = np.sort(narr[i])
+        mat[edge[0]][edge[1]] = 1
     return mat
 
 def counter(narr):
-- 
2.43.0


From d976eb3632c96f288616bae9d28bd016742245e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 21/32] fix: sampling adds measurements to the caller's circuit

---
 blueqat/vqe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index e4d2156..fe24963 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -248,7 +248,7 @@ def get_measurement_sampler(n_sample, run_options=None):
             return tuple(bits[m] for m in meas)
 
         meas = tuple(meas)
-        circuit.measure[meas]
+        circuit = circuit.copy().measure[meas]
         counter = circuit.run(shots=n_sample, returns="shots", **run_options)
         counts = Counter({reduce_bits(bits, meas): val for bits, val in counter.items()})
         return {k: v / n_sample for k, v in counts.items()}
@@ -310,7 +310,7 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
         meas = tuple(meas)
         if not meas:
             return {(): 1.0}
-        circuit.measure[meas]
+        circuit = circuit.copy().measure[meas]
         result = circuit.run_with_ibmq(qiskit_backend=backend, returns="qiskit_result", **execute_kwargs)
         counts = Counter({reduce_bits(bits, meas): val for bits, val in result.get_counts().items()})
         return {k: v / shots for k, v in counts.items()}
-- 
2.43.0


From c72c6e406244ca67c4d26840bd297b9e3adc2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 22/32] fix: samplers lose counts of records which differ only
 in other bits

---
 blueqat/vqe.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index fe24963..4278af1 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -250,7 +250,9 @@ def get_measurement_sampler(n_sample, run_options=None):
         meas = tuple(meas)
         circuit = circuit.copy().measure[meas]
         counter = circuit.run(shots=n_sample, returns="shots", **run_options)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in counter.items()})
+        counts = Counter()
+        for bits, val in counter.items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / n_sample for k, v in counts.items()}
 
     return sampling_by_measurement
@@ -312,7 +314,9 @@ print(execute(circ, IBMQ.get_backend('ibmq_qasm_simulator')).result().get_counts
             return {(): 1.0}
         circuit = circuit.copy().measure[meas]
         result = circuit.run_with_ibmq(qiskit_backend=backend, returns="qiskit_result", **execute_kwargs)
-        counts = Counter({reduce_bits(bits, meas): val for bits, val in result.get_counts().items()})
+        counts = Counter()
+        for bits, val in result.get_counts().items():
+            counts[reduce_bits(bits, meas)] += val
         return {k: v / shots for k, v in counts.items()}
 
     return sampling
-- 
2.43.0


From ffe6cc3fd9e34e7d2ecc7b31878689d570fd147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 23/32] fix: returns="_exception" raises UnboundLocalError when
 qiskit cannot be imported

---
 blueqat/backends/ibmq_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/ibmq_backend.py b/blueqat/backends/ibmq_backend.py
index d49a1bf..2adbe00 100644
--- a/blueqat/backends/ibmq_backend.py
+++ b/blueqat/backends/ibmq_backend.py
@@ -58,7 +58,7 @@ def _qasm_runner_qiskit(qasm, qiskit_backend=None, shots=None, returns=None, **k
 
     if import_error:
         if returns == "_exception":
-            return e
+            return import_error
         if isinstance(import_error, ImportError):
             raise ImportError("Cannot import qiskit. To use this backend, please install qiskit." +
                               " `pip install qiskit`.")
-- 
2.43.0


From eb9a43e25a84ec0f2763a41c2658d6a4cd1502aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:30 +0000
Subject: [PATCH 24/32] fix: three-qubit gates do not accept negative indices

---
 blueqat/backends/_numba_backend_impl.py | 4 ++--
 blueqat/backends/numpy_backend.py       | 4 ++--
 blueqat/backends/qasm_output_backend.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/blueqat/backends/_numba_backend_impl.py b/blueqat/backends/_numba_backend_impl.py
index a10697d..e5a3af5 100644
--- a/blueqat/backends/_numba_backend_impl.py
+++ b/blueqat/backends/_numba_backend_impl.py
@@ -595,13 +595,13 @@ class NumbaBackend(Backend):
     def gate_ccz(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _czgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _czgate(qubits, n_qubits, np.array(list(slicing(gate.targets, n_qubits)), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_ccx(self, gate, ctx):
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
-        _cxgate(qubits, n_qubits, np.array(gate.targets, dtype=_QBIdx_dtype))
+        _cxgate(qubits, n_qubits, np.array(list(slicing(gate.targets, n_qubits)), dtype=_QBIdx_dtype))
         return ctx
 
     def gate_u1(self, gate, ctx):
diff --git a/blueqat/backends/numpy_backend.py b/blueqat/backends/numpy_backend.py
index b638d34..a71dff8 100644
--- a/blueqat/backends/numpy_backend.py
+++ b/blueqat/backends/numpy_backend.py
@@ -370,7 +370,7 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccz(self, gate, ctx):
-        c1, c2, t = gate.targets
+        c1, c2, t = slicing(gate.targets, ctx.n_qubits)
         qubits = ctx.qubits
         n_qubits = ctx.n_qubits
         i = ctx.indices
@@ -381,7 +381,7 @@ class NumPyBackend(Backend):
         return ctx
 
     def gate_ccx(self, gate, ctx):
-        c1, c2, t = gate.targets
+        c1, c2, t = slicing(gate.targets, ctx.n_qubits)
         ctx = self.gate_h(HGate(t), ctx)
         ctx = self.gate_ccz(CCZGate(gate.targets), ctx)
         ctx = self.gate_h(HGate(t), ctx)
diff --git a/blueqat/backends/qasm_output_backend.py b/blueqat/backends/qasm_output_backend.py
index 9279348..0759325 100644
--- a/blueqat/backends/qasm_output_backend.py
+++ b/blueqat/backends/qasm_output_backend.py
@@ -117,7 +117,7 @@ class QasmOutputBackend(Backend):
         return ctx
 
     def _three_qubit_gate_noargs(self, gate, ctx):
-        c0, c1, t = gate.targets
+        c0, c1, t = slicing(gate.targets, ctx[1])
         ctx[0].append(f"{gate.lowername} q[{c0}],q[{c1}],q[{t}];")
         return ctx
 
-- 
2.43.0


From 3028b3f70bc66446bbda8e32548917503fb71632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 25/32] fix: comparing X, Y or Z with the identity raises
 AttributeError

---
 blueqat/pauli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index 643e91a..cfb4785 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -247,8 +247,8 @@ class _PauliImpl:
 
     def __eq__(self, other):
         if isinstance(other, _PauliImpl):
-            if self.is_identity:
-                return other.is_identity
+            if self.is_identity or other.is_identity:
+                return self.is_identity and other.is_identity
             return _n(self) == _n(other) and self.op == other.op
         if isinstance(other, Term):
             return self.to_term() == other
-- 
2.43.0


From 0ec6bd88762632fa91ecb8f64fdb63d830c87114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 26/32] fix: postprocessing of a backend run gets the first
 context, not the last one

---
 blueqat/backends/backendbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/backends/backendbase.py b/blueqat/backends/backendbase.py
index f34b01e..9a2652e 100644
--- a/blueqat/backends/backendbase.py
+++ b/blueqat/backends/backendbase.py
@@ -69,7 +69,7 @@ class Backend(ABC):
         Otherwise, the developer can override `run` method if they want to change the flow of run.
         """
         gates, ctx = self._preprocess_run(gates, n_qubits, args, kwargs)
-        self._run_gates(gates, n_qubits, ctx)
+        ctx = self._run_gates(gates, n_qubits, ctx)
         return self._postprocess_run(ctx)
 
     def make_cache(self, gates, n_qubits):
-- 
2.43.0


From b38de0fd8b7021edc5ed868fa318eeca0fc44848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 27/32] fix: to_matrix(0) of an operator which acts on qubits
 returns its coefficient

---
 blueqat/pauli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blueqat/pauli.py b/blueqat/pauli.py
index cfb4785..f2ed893 100644
--- a/blueqat/pauli.py
+++ b/blueqat/pauli.py
@@ -628,6 +628,8 @@ class Term(_TermTuple):
         if n_qubits == -1:
             n_qubits = self.n_qubits
         if n_qubits == 0:
+            if self.n_qubits > 0:
+                raise ValueError(f'{self.n_qubits} qubits are required.')
             m = np.array([[self.coeff]])
             if sparse is None:
                 return m
@@ -881,6 +883,8 @@ class Expr(_ExprTuple):
         if n_qubits == -1:
             n_qubits = self.n_qubits
         if n_qubits == 0:
+            if self.n_qubits > 0:
+                raise ValueError(f'{self.n_qubits} qubits are required.')
             m = np.array([[sum(term.coeff for term in self.terms)]])
             if sparse is None:
                 return m
-- 
2.43.0


From 6f5beb667b8639bc31c7a1962a40998f560c18cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 28/32] fix: expand_qubo keeps powers of variables other than
 the first one

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 13177b3..9354ef6 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -459,7 +459,7 @@ class Opt:
         except ImportError:
             raise ImportError("optm() requires sympy. Please install before call this function.")
         f = sympy.expand(qubo)
-        deg = sympy.poly(f).degree()
+        deg = sympy.poly(f).total_degree()
 
         for i in range(deg):
             for j in f.free_symbols:
-- 
2.43.0


From c596934b857f285b78c845c6d07ea609bd9cd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 29/32] fix: qubo_to_matrix fails when a variable does not
 appear

---
 blueqat/wq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 9354ef6..503e997 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -438,7 +438,7 @@ class Opt:
             raise ImportError("optm() requires sympy. Please install before call this function.") 
 
         qubo = self.expand_qubo(qubo)
-        numN = len(qubo.free_symbols)
+        numN = max(int(repr(i)[1:]) for i in qubo.free_symbols) + 1
         optm = np.zeros((numN,numN)) 
 
         for i in qubo.free_symbols: 
-- 
2.43.0


From d0b6a6ed35b3f18bcaecb8f407930c80e26b75d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:35 +0000
Subject: [PATCH 30/32] fix: state vector sampler refuses a probability rounded
 slightly above 1

---
 blueqat/vqe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 4278af1..2b50866 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -263,6 +263,8 @@ def get_state_vector_sampler(n_sample):
         val = 0.0
         e = expect(circuit.run(returns="statevector"), meas)
         bits, probs = zip(*e.items())
+        # Rounding may leave a probability, or their sum, slightly above 1.
+        probs = np.array(probs) / sum(probs)
         dists = np.random.multinomial(n_sample, probs) / n_sample
         return dict(zip(tuple(bits), dists))
     return sampling_by_measurement
-- 
2.43.0


From 79f14e96f6515e028ca495d22f58fae651687783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:36 +0000
Subject: [PATCH 31/32] fix: a single Trotter slice has no neighbor to be
 coupled with in SQA

---
 blueqat/wq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/wq.py b/blueqat/wq.py
index 503e997..44ac072 100644
--- a/blueqat/wq.py
+++ b/blueqat/wq.py
@@ -551,7 +551,9 @@ class Opt:
                     else:
                         dE += -2*q[y][j]*q[y][x]*J[j][x] / self.tro
 
-                dE += q[y][x]*(q[(self.tro+y-1)%self.tro][x]+q[(y+1)%self.tro][x])*np.log(1/np.tanh(G/self.Tf/self.tro))*self.Tf
+                # A single replica has no neighbor to be coupled with.
+                if self.tro > 1:
+                    dE += q[y][x]*(q[(self.tro+y-1)%self.tro][x]+q[(y+1)%self.tro][x])*np.log(1/np.tanh(G/self.Tf/self.tro))*self.Tf
 
                 if dE < 0 or np.exp(-dE/self.Tf) > np.random.rand():
                     q[y][x] *= -1
-- 
2.43.0


From b7331e850196fdf53c74ec701c91422e7b0151e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:41 +0000
Subject: [PATCH 32/32] fix: get_energy measured a term wrongly when it names a
 qubit repeatedly

---
 blueqat/vqe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blueqat/vqe.py b/blueqat/vqe.py
index 2b50866..54b4689 100644
--- a/blueqat/vqe.py
+++ b/blueqat/vqe.py
@@ -44,7 +44,9 @@ class AnsatzBase:
     def get_energy(self, circuit, sampler):
         """Calculate energy from circuit and sampler."""
         val = 0.0
-        for meas in self.hamiltonian:
+        for term in self.hamiltonian:
+            # A term may name a qubit repeatedly. It is measured once.
+            meas = term.simplify()
             c = circuit.copy()
             for op in meas.ops:
                 if op.op == "X":
-- 
2.43.0

