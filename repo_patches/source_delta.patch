From 646b10101c8de7ce381b67a27bf629e0e614252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 01/35] fix: expose the density matrix array as a pytree child,
 so jit and vmap trace it

---
 horqrux/utils/operator_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index e439caf..0cc43bc 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -36,9 +36,9 @@ class DensityMatrix:
 
     array: Array
 
-    def tree_flatten(self) -> tuple[tuple, tuple[Array]]:
-        children = ()
-        aux_data = (self.array,)
+    def tree_flatten(self) -> tuple[tuple[Array], tuple]:
+        children = (self.array,)
+        aux_data = ()
         return (children, aux_data)
 
     @classmethod
-- 
2.43.0


From 69c02282153b473853f56cf7ac141d2d7325f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 02/35] fix: keep the operations of a QuantumCircuit when it
 goes through a pytree transformation

---
 horqrux/circuit.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index 0a3cccd..e5d7dba 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -50,16 +50,14 @@ class QuantumCircuit(OpSequence):
         return len(self.vparams)
 
     def tree_flatten(self) -> tuple:
-        children = (
-            self.operations,
-            self.fparams,
-        )
-        aux_data = (self.n_qubits,)
-        return (aux_data, children)
+        children = (self.operations,)
+        aux_data = (self.n_qubits, tuple(self.fparams))
+        return (children, aux_data)
 
     @classmethod
     def tree_unflatten(cls, aux_data: Any, children: Any) -> Any:
-        return cls(*aux_data, *children)
+        n_qubits, fparams = aux_data
+        return cls(n_qubits, *children, list(fparams))
 
 
 def hea(
-- 
2.43.0


From d599ec5fcaa18331392f3786243af0134017be53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 03/35] fix: multiply the tensors of a sequence in the order
 its operations are applied

---
 horqrux/composite/sequence.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index ad31e8f..404e1a8 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -4,7 +4,6 @@ from dataclasses import dataclass, field
 from functools import reduce
 from typing import Any, Iterable
 
-import jax.numpy as jnp
 from jax import Array
 from jax.tree_util import register_pytree_node_class
 
@@ -53,7 +52,11 @@ class OpSequence:
                 "Expanding tensor operation requires a `full_support` argument "
                 "larger than or equal to the `qubit_support`."
             )
-        return reduce(jnp.matmul, map(lambda x: x.tensor(values, full_support), self.operations))
+        # operations are applied from first to last: the last one is the leftmost factor
+        return reduce(
+            lambda acc, op_tensor: op_tensor @ acc,
+            map(lambda x: x.tensor(values, full_support), self.operations),
+        )
 
     def __iter__(self) -> Iterable:
         def flatten(item: Any) -> Iterable:
-- 
2.43.0


From c733ed4f279833834ddc756590e910b0066a6638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:00 +0000
Subject: [PATCH 04/35] fix: sort the qubit support of a sequence, as the
 tensor representation assumes

---
 horqrux/composite/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 404e1a8..b6a9f99 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -26,7 +26,7 @@ class OpSequence:
 
     @property
     def qubit_support(self) -> tuple:
-        return tuple(set().union(*(op.qubit_support for op in self.operations)))
+        return tuple(sorted(set().union(*(op.qubit_support for op in self.operations))))
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
-- 
2.43.0


From 7a26a10ee7f7120db5500c90f30d71c636c80a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 05/35] fix: scale a composite operation as a whole instead of
 flattening it

---
 horqrux/composite/compose.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index 4e0ff5b..eaecff7 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -27,6 +27,11 @@ class Scale(OpSequence):
     def __init__(
         self, operations: Primitive | OpSequence | list, parameter_name: str | float
     ) -> None:
+        if isinstance(operations, Add):
+            # a sum is scaled as a whole (and an Observable as the sum of its operations)
+            operations = [Add(operations.operations)]
+        elif isinstance(operations, OpSequence):
+            operations = [operations]
         super().__init__(list(operations))  # type:ignore[arg-type]
         self.parameter: str | float = parameter_name
 
-- 
2.43.0


From 54650ae53462175daf298c4b176ec6f54d24b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 06/35] fix: convert every operation of a Scale between sparse
 and dense

---
 horqrux/utils/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index d29f823..e8bd89c 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -73,12 +73,12 @@ def _(operations: OpSequence) -> OpSequence:
 
 @to_sparse.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_sparse(operations.operations[0]), operations.parameter)
+    return Scale([to_sparse(op) for op in operations.operations], operations.parameter)
 
 
 @to_dense.register
 def _(operations: Scale) -> Scale:
-    return Scale(to_dense(operations.operations[0]), operations.parameter)
+    return Scale([to_dense(op) for op in operations.operations], operations.parameter)
 
 
 @to_sparse.register
-- 
2.43.0


From b9f3f9bfb290e4f5061e683c986b01d2e704e682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 07/35] fix: keep the feature map parameters of a circuit in
 sparse and dense conversion

---
 horqrux/utils/conversion.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/horqrux/utils/conversion.py b/horqrux/utils/conversion.py
index e8bd89c..6f49e62 100644
--- a/horqrux/utils/conversion.py
+++ b/horqrux/utils/conversion.py
@@ -83,9 +83,13 @@ def _(operations: Scale) -> Scale:
 
 @to_sparse.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_sparse(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits, [to_sparse(op) for op in operations.operations], operations.fparams
+    )
 
 
 @to_dense.register
 def _(operations: QuantumCircuit) -> QuantumCircuit:
-    return QuantumCircuit(operations.n_qubits, [to_dense(op) for op in operations.operations])
+    return QuantumCircuit(
+        operations.n_qubits, [to_dense(op) for op in operations.operations], operations.fparams
+    )
-- 
2.43.0


From 5d5ecef1c2571c270c2b2f19fee5acdfc982eb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 08/35] fix: compute the overlap of two states as a squared
 modulus

---
 horqrux/utils/operator_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index 0cc43bc..d372cf1 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -449,7 +449,8 @@ def inner(state: Array, projection: Array) -> Array:
 
 
 def overlap(state: Array, projection: Array) -> Array:
-    return jnp.power(inner(state, projection), 2).real
+    projected = inner(state, projection)
+    return (jnp.conj(projected) * projected).real
 
 
 def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
-- 
2.43.0


From 8e7e9d2c94e06ca30514a51756b0513c60430825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 09/35] fix: apply an empty sequence of gates as the identity

---
 horqrux/apply.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 186eb5f..99ff1bb 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -374,8 +374,8 @@ def prepare_sequence_reduce(
         if group_gates:
             gate = group_by_index(gate)
         operator = tuple(getattr(g, op_type)(values) for g in gate)
-        target = reduce(add, [g.target for g in gate])
-        control = reduce(add, [g.control for g in gate])
+        target = reduce(add, [g.target for g in gate], ())
+        control = reduce(add, [g.control for g in gate], ())
         noise = [g.noise for g in gate]
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
-- 
2.43.0


From aafce0e604ae7d5baf13b032e7517cda6434fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 10/35] fix: do not reshape the caller's density matrix in
 place when sampling

---
 horqrux/api.py   | 2 +-
 horqrux/shots.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/horqrux/api.py b/horqrux/api.py
index 6d5ce14..b905d78 100644
--- a/horqrux/api.py
+++ b/horqrux/api.py
@@ -56,7 +56,7 @@ def sample(
     n_qubits = num_qubits(output_circuit)
     if isinstance(output_circuit, DensityMatrix):
         d = 2**n_qubits
-        output_circuit.array = output_circuit.array.reshape((d, d))
+        output_circuit = DensityMatrix(output_circuit.array.reshape((d, d)))
 
     probs = probabilities(output_circuit)
     return sample_from_probs(probs, n_qubits, n_shots)
diff --git a/horqrux/shots.py b/horqrux/shots.py
index 44c015a..0819a5b 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -180,5 +180,5 @@ def finite_shots(
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
-        output_gates.array = output_gates.array.reshape((d, d))
+        output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
     return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
-- 
2.43.0


From a759acab2317e5650400173071d142d942fe4fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 11/35] fix: differentiate a rotation with respect to its angle
 in its jacobian

---
 horqrux/utils/operator_utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index d372cf1..cbd3d29 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -169,8 +169,7 @@ def _(generator: Array, theta: float) -> Array:
     return (
         -1
         / 2
-        * (jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype) + 1j * jnp.cos(theta / 2))
-        * generator
+        * (jnp.sin(theta / 2) * jnp.eye(2, dtype=default_dtype) + 1j * jnp.cos(theta / 2) * generator)
     )
 
 
@@ -181,9 +180,8 @@ def _(generator: BCOO, theta: float) -> BCOO:
         / 2
         * (
             jnp.sin(theta / 2) * jax.experimental.sparse.eye(2, dtype=default_dtype)
-            + 1j * jnp.cos(theta / 2)
+            + 1j * jnp.cos(theta / 2) * generator
         )
-        * generator
     )
 
 
-- 
2.43.0


From 3de68823c3ea958a9c2e274816e46f185d41218e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 12/35] fix: register the matrices of the SQRTSWAP, ISWAP and
 ISQRTSWAP gates

---
 horqrux/matrices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/horqrux/matrices.py b/horqrux/matrices.py
index 19128df..dab8f7a 100644
--- a/horqrux/matrices.py
+++ b/horqrux/matrices.py
@@ -53,6 +53,9 @@ OPERATIONS_DICT = {
     "T": _T,
     "I": _I,
     "SWAP": _SWAP,
+    "SQSWAP": _SQSWAP,
+    "ISWAP": _ISWAP,
+    "ISQSWAP": _ISQSWAP,
 }
 
 SPARSE_OPERATIONS_DICT = {k: BCOO.fromdense(mat) for k, mat in OPERATIONS_DICT.items()}
-- 
2.43.0


From 760c69c51bb665ccf8c3f8f43545b262c2dddb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 13/35] fix: do not reorder multi-qubit gates when grouping
 gates by qubit

---
 horqrux/apply.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 99ff1bb..528dffe 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -281,7 +281,8 @@ def group_by_index(gates: Iterable[Primitive]) -> Iterable[Primitive]:
     sorted_gates = []
     gate_batch = []
     for gate in gates:
-        if not is_controlled(gate.control):
+        # only gates on a single qubit can be moved past the gates on other qubits
+        if not is_controlled(gate.control) and len(gate.target[0]) == 1:
             gate_batch.append(gate)
         else:
             if len(gate_batch) > 0:
-- 
2.43.0


From d98ef820df8d7e24a1612e15df237eda1f8b8271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:04 +0000
Subject: [PATCH 14/35] fix: count the target and control qubits of a gate

---
 horqrux/primitives/primitive.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 0e8fa6a..b4bf3fd 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -132,10 +132,7 @@ class Primitive:
 
     @property
     def n_qubits(self) -> int:
-        n_qubits = len(self.target)
-        if self.control[0] is not None:
-            n_qubits += len(self.control)
-        return n_qubits
+        return len(self.qubit_support)
 
     @property
     def qubit_support(self) -> tuple:
-- 
2.43.0


From 991c387b6ffe0c077a1ee49d9aefbce9d5b16860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 15/35] fix: keep PHASE gates phase gates in jitted and GPSR
 computations

---
 horqrux/differentiation/gpsr/gpsr_utils.py |  4 ++--
 horqrux/primitives/parametric.py           | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index 0362ca3..5c36f9e 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -22,7 +22,7 @@ def to_shift(gate: Parametric, shift_value: float) -> Any:
         Any: A new Parametric (Any type due to clsmethod)
     """
     children, aux_data = gate.tree_flatten()
-    return Parametric.tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
+    return type(gate).tree_unflatten(aux_data[:-1] + (aux_data[-1] + shift_value,), children)
 
 
 def prepare_param_gates_seq(
@@ -127,7 +127,7 @@ def new_named_parametric(gate: Primitive) -> Parametric:
     """
     children, aux_data = gate.tree_flatten()
     new_name = str(uuid4())
-    new_gate: Parametric = Parametric.tree_unflatten(
+    new_gate: Parametric = type(gate).tree_unflatten(
         aux_data[:-2]
         + (
             new_name,
diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 6c13384..55da2c8 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -198,6 +198,7 @@ def RZ(
     return Parametric("Z", target, control, noise, param=param, sparse=sparse)
 
 
+@register_pytree_node_class
 class _PHASE(Parametric):
     def _unitary(self, values: dict[str, float] = dict()) -> Array:
         u = jnp.eye(2, 2, dtype=default_dtype)
@@ -213,6 +214,18 @@ class _PHASE(Parametric):
             jac = BCOO.fromdense(jac)
         return jac
 
+    @cached_property
+    def eigenvals_generator(self) -> Array:
+        """Get eigenvalues of the underlying operation.
+
+        A phase gate is `exp(-i param G / 2)` for the generator `G = diag(0, -2)`,
+        whether it is controlled or not.
+
+        Returns:
+            Array: Eigenvalues of the generator.
+        """
+        return jnp.array([-2.0, 0.0])
+
     @property
     def name(self) -> str:
         base_name = "PHASE"
-- 
2.43.0


From 481edaaf6b7262d0ffeacddf207246f8232bfdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 16/35] fix: detect repeated parameters by the gates using them
 in GPSR

---
 horqrux/differentiation/gpsr/analytical.py | 100 +++++++++----------
 horqrux/differentiation/gpsr/gpsr_utils.py |  34 +------
 horqrux/differentiation/gpsr/shots.py      | 109 ++++++++++-----------
 3 files changed, 106 insertions(+), 137 deletions(-)

diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index f2134da..20963e8 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -13,10 +13,9 @@ from horqrux.differentiation.ad import _ad_expectation_single_observable
 from horqrux.differentiation.gpsr.gpsr_utils import (
     alter_gate_sequence,
     create_renamed_operators,
-    extract_gate_names,
+    has_repeated_params,
     initialize_gpsr_ingredients,
     prepare_param_gates_seq,
-    spectral_gap_from_gates,
 )
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import State
@@ -99,33 +98,30 @@ def analytical_gpsr_bwd(
 
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-
-                def jvp_component_repeated_param(param_name: str) -> Array:
-                    shift_gates = param_to_gates_indices[param_name]
-
-                    def shift_jvp(ind: int) -> Array:
-                        spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
-                        gates_up = alter_gate_sequence(gates, ind, shift)
-                        f_up = jitted_analytical_exp(state, gates_up, observables, values)
-                        gates_down = alter_gate_sequence(gates, ind, -shift)
-                        f_down = jitted_analytical_exp(state, gates_down, observables, values)
-                        return (
-                            spectral_gap
-                            * (f_up - f_down)
-                            / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                        )
-
-                    return sum(shift_jvp(shift_ind) for shift_ind in shift_gates)
-
-                jvp_caller = jvp_component_repeated_param
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
-
+        param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
+        # repeated case
+        if has_repeated_params(param_to_gates_indices):
+
+            def jvp_component_repeated_param(param_name: str) -> Array:
+                shift_gates = param_to_gates_indices[param_name]
+                if len(shift_gates) == 0:
+                    return jvp_component(param_name)
+
+                def shift_jvp(ind: int) -> Array:
+                    spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
+                    gates_up = alter_gate_sequence(gates, ind, shift)
+                    f_up = jitted_analytical_exp(state, gates_up, observables, values)
+                    gates_down = alter_gate_sequence(gates, ind, -shift)
+                    f_down = jitted_analytical_exp(state, gates_down, observables, values)
+                    return (
+                        spectral_gap
+                        * (f_up - f_down)
+                        / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
+                    )
+
+                return sum(shift_jvp(shift_ind) for shift_ind in shift_gates)
+
+            jvp_caller = jvp_component_repeated_param
     jvp = jnp.stack([jvp_caller(param) for param in val_keys]).sum(axis=-1)
     return jvp
 
@@ -188,28 +184,30 @@ def analytical_gpsr_jvp(
     values_map = None
 
     if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-                # use temporary gates and values to make use of scan
-                gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
-                values_map = {
-                    gates[ind].param: pname  # type: ignore[index]
-                    for pname in legit_val_keys
-                    for ind in param_to_gates_indices[pname]
-                }
-                values = {
-                    temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
-                }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
+        param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
+        # repeated case
+        if has_repeated_params(param_to_gates_indices):
+            # use temporary gates and values to make use of scan
+            gates = create_renamed_operators(gates, legit_val_keys)
+            # values which are not used by the gates keep their name
+            values_map = {
+                temp_name: pname
+                for pname in legit_val_keys
+                for temp_name in [
+                    gates[ind].param for ind in param_to_gates_indices[pname]  # type: ignore[index]
+                ]
+                or [pname]
+            }
+            values = {temp_name: values[pname] for temp_name, pname in values_map.items()}
+            temp_gaps = {
+                gates[ind].param: gates[ind].spectral_gap  # type: ignore[index]
+                for indices in param_to_gates_indices.values()
+                for ind in indices
+            }
+            spectral_gap = {
+                temp_name: jnp.ravel(temp_gaps.get(temp_name, spectral_gap.get(temp_name)))
+                for temp_name in values_map.keys()
+            }
 
     values_array = stack_sp(list(values.values()))
     if values_array.shape[-1] == 1:
diff --git a/horqrux/differentiation/gpsr/gpsr_utils.py b/horqrux/differentiation/gpsr/gpsr_utils.py
index 5c36f9e..226f434 100644
--- a/horqrux/differentiation/gpsr/gpsr_utils.py
+++ b/horqrux/differentiation/gpsr/gpsr_utils.py
@@ -1,7 +1,5 @@
 from __future__ import annotations
 
-from functools import partial
-from operator import is_not
 from typing import Any, Iterable
 from uuid import uuid4
 
@@ -79,41 +77,17 @@ def initialize_gpsr_ingredients(
     return val_keys, spectral_gap, shift
 
 
-def extract_gate_names(gates: Iterable[Primitive]) -> list:
-    """Extract gate names when a gate is parametric.
-
-    Args:
-        gates (Iterable[Primitive]): List of gates.
-
-    Returns:
-        list: list of names.
-    """
-    gate_names = list(
-        map(
-            lambda g: g.param if hasattr(g, "param") and isinstance(g.param, str) else None,
-            gates,
-        )
-    )
-    gate_names = list(filter(partial(is_not, None), gate_names))
-    return gate_names
-
-
-def spectral_gap_from_gates(
-    param_to_gates_indices: dict[str, tuple], param_names: Iterable[str]
-) -> dict[str, Array]:
-    """Extract spectral gap from each gate.
-
-    Only works when a parameter name is used by only one gate.
+def has_repeated_params(param_to_gates_indices: dict[str, tuple]) -> bool:
+    """Check whether a parameter is used by more than one gate.
 
     Args:
         param_to_gates_indices (dict[str, tuple]): dictionary mapping
             parameter name to indices of gates.
-        param_names (Iterable[str]): Name of parameters.
 
     Returns:
-        dict[str, Array]: Parameter names mapped with the spectral gap.
+        bool: True if a parameter is used by more than one gate.
     """
-    return {param: param_to_gates_indices[param][0].spectral_gap for param in param_names}
+    return max(map(len, param_to_gates_indices.values()), default=0) > 1
 
 
 def new_named_parametric(gate: Primitive) -> Parametric:
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index d2ced52..6e9074a 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -11,10 +11,9 @@ from horqrux.composite import Observable
 from horqrux.differentiation.gpsr.gpsr_utils import (
     alter_gate_sequence,
     create_renamed_operators,
-    extract_gate_names,
+    has_repeated_params,
     initialize_gpsr_ingredients,
     prepare_param_gates_seq,
-    spectral_gap_from_gates,
 )
 from horqrux.primitives import Primitive
 from horqrux.shots import finite_shots
@@ -71,39 +70,36 @@ def finite_shots_gpsr_backward(
     params_with_keys = zip(values.keys(), random.split(key, len(values)))
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-
-                def jvp_component_repeated_param(param_name: str, key: Array) -> Array:
-                    shift_gates = param_to_gates_indices[param_name]
-                    shift_keys = random.split(key, len(shift_gates))
-
-                    def shift_jvp(ind: int, key: Array) -> Array:
-                        up_key, down_key = random.split(key)
-                        spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
-                        gates_up = alter_gate_sequence(gates, ind, shift)  # type: ignore[arg-type]
-                        f_up = jitted_finite_shots(
-                            state, gates_up, observables, values, n_shots, up_key
-                        )
-                        gates_down = alter_gate_sequence(gates, ind, -shift)  # type: ignore[arg-type]
-                        f_down = jitted_finite_shots(
-                            state, gates_down, observables, values, n_shots, down_key
-                        )
-                        return (
-                            spectral_gap
-                            * (f_up - f_down)
-                            / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                        )
-
-                    return sum(
-                        shift_jvp(shift_ind, key) for shift_ind, key in zip(shift_gates, shift_keys)
+        param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
+        # repeated case
+        if has_repeated_params(param_to_gates_indices):
+
+            def jvp_component_repeated_param(param_name: str, key: Array) -> Array:
+                shift_gates = param_to_gates_indices[param_name]
+                if len(shift_gates) == 0:
+                    return jvp_component(param_name, key)
+                shift_keys = random.split(key, len(shift_gates))
+
+                def shift_jvp(ind: int, key: Array) -> Array:
+                    up_key, down_key = random.split(key)
+                    spectral_gap = gates[ind].spectral_gap  # type: ignore[index]
+                    gates_up = alter_gate_sequence(gates, ind, shift)  # type: ignore[arg-type]
+                    f_up = jitted_finite_shots(
+                        state, gates_up, observables, values, n_shots, up_key
+                    )
+                    gates_down = alter_gate_sequence(gates, ind, -shift)  # type: ignore[arg-type]
+                    f_down = jitted_finite_shots(
+                        state, gates_down, observables, values, n_shots, down_key
+                    )
+                    return (
+                        spectral_gap
+                        * (f_up - f_down)
+                        / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
                     )
 
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, val_keys)
+                return sum(
+                    shift_jvp(shift_ind, key) for shift_ind, key in zip(shift_gates, shift_keys)
+                )
 
             jvp_caller = jvp_component_repeated_param
     jvp = jnp.stack([jvp_caller(param, key) for param, key in params_with_keys]).sum(axis=-1)
@@ -176,29 +172,30 @@ def finite_shots_jvp(
     values_map = None
 
     if not isinstance(gates, Primitive):
-        gate_names = extract_gate_names(gates)
-        if len(gate_names) > len(legit_val_keys):
-            param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
-            # repeated case
-            if max(map(len, param_to_gates_indices.values())) > 1:  # type: ignore[arg-type]
-                # use temporary gates and values to make use of scan
-                gates = create_renamed_operators(gates, legit_val_keys)  # type: ignore[index]
-                values_map = {
-                    gates[ind].param: pname  # type: ignore[index]
-                    for pname in legit_val_keys
-                    for ind in param_to_gates_indices[pname]
-                }
-                values = {
-                    temp_name: values[values_map[temp_name]] for temp_name in values_map.keys()
-                }
-                spectral_gap = {
-                    temp_name: gates[ind].spectral_gap  # type: ignore[index]
-                    for temp_name in values_map.keys()
-                    for ind in param_to_gates_indices[values_map[temp_name]]
-                }
-
-            else:
-                spectral_gap = spectral_gap_from_gates(param_to_gates_indices, legit_val_keys)
+        param_to_gates_indices = prepare_param_gates_seq(legit_val_keys, gates)
+        # repeated case
+        if has_repeated_params(param_to_gates_indices):
+            # use temporary gates and values to make use of scan
+            gates = create_renamed_operators(gates, legit_val_keys)
+            # values which are not used by the gates keep their name
+            values_map = {
+                temp_name: pname
+                for pname in legit_val_keys
+                for temp_name in [
+                    gates[ind].param for ind in param_to_gates_indices[pname]  # type: ignore[index]
+                ]
+                or [pname]
+            }
+            values = {temp_name: values[pname] for temp_name, pname in values_map.items()}
+            temp_gaps = {
+                gates[ind].param: gates[ind].spectral_gap  # type: ignore[index]
+                for indices in param_to_gates_indices.values()
+                for ind in indices
+            }
+            spectral_gap = {
+                temp_name: jnp.ravel(temp_gaps.get(temp_name, spectral_gap.get(temp_name)))
+                for temp_name in values_map.keys()
+            }
 
     values_array = stack_sp(list(values.values()))
     if values_array.shape[-1] == 1:
-- 
2.43.0


From d6b5a2e4c0d11ba35c13a596800c6530741d0f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 17/35] fix: sample observables in their own eigenbasis when
 they do not share one

---
 horqrux/shots.py | 69 ++++++++++++++++++------------------------------
 1 file changed, 26 insertions(+), 43 deletions(-)

diff --git a/horqrux/shots.py b/horqrux/shots.py
index 0819a5b..3e7ff2b 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -6,7 +6,6 @@ from typing import Any, Iterable, Union
 import jax
 import jax.numpy as jnp
 from jax import Array
-from jax.experimental import checkify
 
 from horqrux.apply import apply_gates
 from horqrux.composite import Observable
@@ -97,61 +96,45 @@ def eigen_sample(
             observables,
         )
     )
-    eigs = jax.vmap(jnp.linalg.eigh)(jnp.stack(mat_obs))
-    eigvecs, eigvals = align_eigenvectors(eigs.eigenvalues, eigs.eigenvectors)
-    probs = eigen_probabilities(state, eigvecs)
-    return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean(axis=0)
+    eigenvalues, eigenvectors = align_eigenvectors(jnp.stack(mat_obs))
 
+    def sample_mean(eigvals: Array, eigvecs: Array) -> Array:
+        # note: reusing the key keeps observables sharing their eigenvectors correlated
+        probs = eigen_probabilities(state, eigvecs)
+        return jax.random.choice(key=key, a=eigvals, p=probs, shape=(n_shots,)).mean()
 
-@jax.vmap
-def validate_permutation_matrix(P: Array) -> Array:
-    rows = P.sum(axis=0)
-    columns = P.sum(axis=1)
-    ones = jnp.ones(P.shape[0], dtype=rows.dtype)
-    return ((ones == rows) & (ones == columns)).min()
+    return jnp.stack([sample_mean(vals, vecs) for vals, vecs in zip(eigenvalues, eigenvectors)])
 
 
-def checkify_valid_permutation(P: Array) -> None:
-    checkify.check(
-        jnp.all(validate_permutation_matrix(P)),
-        "Did not calculate valid permutation matrix",
-    )
-
-
-def align_eigenvectors(eigenvalues: Array, eigenvectors: Array) -> tuple[Array, Array]:
+def align_eigenvectors(observables: Array) -> tuple[Array, Array]:
     """
-    Given a list of eigenvalue eigenvector matrix tuples in the form of
-    [(eigenvalue, eigenvector)...], this function aligns all the eigenvector
-    matrices so that they are identical, and also rearranges the corresponding
-    eigenvalues.
+    Obtain the eigenvalues and eigenvectors of a stack of observables, using
+    the eigenvectors of the first observable for every observable they diagonalize.
 
     This is primarily used as a utility function to help sample multiple
     correlated observables when using finite shots.
-    """
-    eigenvector = eigenvectors[0]
-
-    P = jax.vmap(lambda mat: permutation_matrix(mat, eigenvector))(eigenvectors)
-    checkify.checkify(checkify_valid_permutation)(P)
-    aligned_eigenvalues = jax.vmap(jnp.dot)(eigenvalues, P).T
-    return eigenvector, aligned_eigenvalues
-
-
-def permutation_matrix(mat: Array, eigenvector_matrix: Array) -> Array:
-    """Obtain the permutation matrix for aligning eigenvectors.
-
-    Given two permuted eigenvector matrices, A and B, we wish to find a permutation
-    matrix P such that A P = B. This function calculates such a permutation
-    matrix and uses it to align each eigenvector matrix to the first eigenvector
-    matrix of eigs.
 
     Args:
-        mat (Array): Matrix A.
-        eigenvector_matrix (Array): Eigenvector matrix B.
+        observables (Array): Matrices of the observables.
 
     Returns:
-        Array: Permutation matrix P.
+        tuple[Array, Array]: Eigenvalues and eigenvectors of each observable.
     """
-    return (jnp.linalg.inv(mat) @ eigenvector_matrix).real > 0.5
+    observables = 0.5 * (observables + jnp.conjugate(jnp.swapaxes(observables, -1, -2)))
+    eigs = jax.vmap(jnp.linalg.eigh)(observables)
+    shared = eigs.eigenvectors[0]
+
+    def align(mat: Array, eigenvalues: Array, eigenvectors: Array) -> tuple[Array, Array]:
+        rotated = jnp.conjugate(shared.T) @ mat @ shared
+        diagonal = rotated.diagonal()
+        tol = jnp.sqrt(jnp.finfo(eigenvalues.dtype).eps) * jnp.abs(eigenvalues).max()
+        is_diagonal = jnp.abs(rotated - jnp.diag(diagonal)).max() <= tol
+        return (
+            jnp.where(is_diagonal, diagonal.real, eigenvalues),
+            jnp.where(is_diagonal, shared, eigenvectors),
+        )
+
+    return jax.vmap(align)(observables, eigs.eigenvalues, eigs.eigenvectors)
 
 
 def finite_shots(
-- 
2.43.0


From 8b77039631be5220690bf6be7fafcdce510e9fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 18/35] fix: accept separate circuit and observable values in
 every forward expectation

---
 horqrux/differentiation/adjoint.py         | 13 +++++++++----
 horqrux/differentiation/gpsr/analytical.py |  6 ++++--
 horqrux/shots.py                           |  6 ++++--
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/horqrux/differentiation/adjoint.py b/horqrux/differentiation/adjoint.py
index a5b4b17..c0c39bd 100644
--- a/horqrux/differentiation/adjoint.py
+++ b/horqrux/differentiation/adjoint.py
@@ -8,17 +8,22 @@ from horqrux.composite import Observable, OpSequence
 from horqrux.primitives.primitive import Primitive
 from horqrux.utils.operator_utils import OperationType, inner
 from horqrux.utils.sparse_utils import real_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def ad_expectation(
-    state: Array, circuit: OpSequence, observable: Observable, values: dict[str, float]
+    state: Array,
+    circuit: OpSequence,
+    observable: Observable,
+    values: dict[str, float] | dict[str, dict[str, float]],
 ) -> Array:
     """
     Run 'state' through a sequence of 'gates' given parameters 'values'
     and compute the expectation given an observable.
     """
-    out_state = apply_gates(state, list(iter(circuit)), values, OperationType.UNITARY)  # type: ignore[type-var]
-    projected_state = observable.forward(out_state, values)
+    values_circuit, values_observables = _values_processing(values)
+    out_state = apply_gates(state, list(iter(circuit)), values_circuit, OperationType.UNITARY)  # type: ignore[type-var]
+    projected_state = observable.forward(out_state, values_observables)
     return real_sp(inner(out_state, projected_state))
 
 
@@ -35,7 +40,7 @@ def adjoint_expectation(
     observable: Observable,
     values: dict[str, float] | dict[str, dict[str, float]],
 ) -> Array:
-    return ad_expectation(state, circuit, observable, values)  # type: ignore[arg-type]
+    return ad_expectation(state, circuit, observable, values)
 
 
 def adjoint_expectation_single_observable_fwd(
diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index 20963e8..836e51d 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -20,6 +20,7 @@ from horqrux.differentiation.gpsr.gpsr_utils import (
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import State
 from horqrux.utils.sparse_utils import stack_sp
+from horqrux.utils.values_utils import _values_processing
 
 
 def analytical_expectation(
@@ -40,12 +41,13 @@ def analytical_expectation(
     Returns:
         Array: Expectation values.
     """
+    values_circuit, values_observables = _values_processing(values)
     outputs = list(
         map(
             lambda observable: _ad_expectation_single_observable(
-                apply_gates(state, gates, values),
+                apply_gates(state, gates, values_circuit),
                 observable,
-                values,
+                values_observables,
             ),
             observables,
         )
diff --git a/horqrux/shots.py b/horqrux/shots.py
index 3e7ff2b..a10f5de 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -11,6 +11,7 @@ from horqrux.apply import apply_gates
 from horqrux.composite import Observable
 from horqrux.primitives import Primitive
 from horqrux.utils.operator_utils import DensityMatrix, State, expand_operator, num_qubits
+from horqrux.utils.values_utils import _values_processing
 
 
 @singledispatch
@@ -159,9 +160,10 @@ def finite_shots(
     Returns:
         Array: Expectation values.
     """
-    output_gates = apply_gates(state, gates, values)
+    values_circuit, values_observables = _values_processing(values)
+    output_gates = apply_gates(state, gates, values_circuit)
     n_qubits = num_qubits(output_gates)
     if isinstance(output_gates, DensityMatrix):
         d = 2**n_qubits
         output_gates = DensityMatrix(output_gates.array.reshape((d, d)))
-    return eigen_sample(output_gates, observables, values, n_qubits, n_shots, key)
+    return eigen_sample(output_gates, observables, values_observables, n_qubits, n_shots, key)
-- 
2.43.0


From bb18060ddbd4214aca1cd6932d01d62b321d02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 19/35] fix: follow the order of the targets in the tensor
 representation of a gate

---
 horqrux/primitives/primitive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index b4bf3fd..51f749b 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -17,8 +17,10 @@ from horqrux.utils.operator_utils import (
     _dagger,
     controlled,
     expand_operator,
+    hilbert_reshape,
     is_controlled,
     none_like,
+    permute_basis,
     zero_state,
 )
 
@@ -119,6 +121,11 @@ class Primitive:
             Array: Unitary representation taking into account the qubit support.
         """
         base_unitary = self._unitary(values)
+        if len(self.target[0]) > 1:
+            # the base unitary follows the order of the targets, not the sorted support
+            base_unitary = permute_basis(
+                hilbert_reshape(base_unitary), self.target[0], inv=True
+            ).reshape(base_unitary.shape)
         if is_controlled(self.control):
             base_unitary = controlled(base_unitary, self.target, self.control)
         if full_support is None:
-- 
2.43.0


From cb79a2ac453d64e30a8c53911a72567c1bbbd5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:46 +0000
Subject: [PATCH 20/35] fix: do not entangle a qubit with itself in a
 single-qubit hea

---
 horqrux/circuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index e5d7dba..249531e 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -89,7 +89,8 @@ def hea(
                 for fn, qubit in zip(rot_fns, [i for _ in range(len(rot_fns))])
             ]
             param_names += [op.param for op in ops]
-            ops += [NOT((i + 1) % n_qubits, i % n_qubits) for i in range(n_qubits)]  # type: ignore[arg-type]
+            if n_qubits > 1:
+                ops += [NOT((i + 1) % n_qubits, i % n_qubits) for i in range(n_qubits)]  # type: ignore[arg-type]
             gates += ops
 
     return gates
-- 
2.43.0


From 8473c86be3d6125f3f1b9cff6fca966101c15311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 21/35] fix: do not list constant angles among the parameters
 of a circuit

---
 horqrux/composite/sequence.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index b6a9f99..f8fe787 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -82,7 +82,14 @@ class OpSequence:
         """
         from horqrux.primitives import Parametric
 
-        return set([str(op.param) for op in list(iter(self)) if isinstance(op, Parametric)])  # type: ignore[type-var]
+        # gates with a constant angle have no parameter
+        return set(
+            [
+                str(op.param)
+                for op in list(iter(self))  # type: ignore[type-var]
+                if isinstance(op, Parametric) and op.is_parametric
+            ]
+        )
 
     @property
     def n_vparams(self) -> int:
-- 
2.43.0


From 28fe29f4195b12cebefa109ad3722c4afcc8ca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:58 +0000
Subject: [PATCH 22/35] fix: recognise numpy integers as control qubits

---
 horqrux/utils/operator_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index cbd3d29..c2a6702 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -460,7 +460,7 @@ def uniform_state(n_qubits: int, sparse: bool = False) -> ArrayLike:
 
 
 def is_controlled(qubit_support: Union[tuple[Union[int, None], ...], int, None]) -> bool:
-    if isinstance(qubit_support, int):
+    if isinstance(qubit_support, (int, np.integer)):
         return True
     elif isinstance(qubit_support, tuple):
         return any(is_controlled(q) for q in qubit_support)
-- 
2.43.0


From cf98809bdddf3c016363f6aa684a9b1420cbcccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 23/35] fix: scale sparse tensors by numpy scalars

---
 horqrux/composite/compose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index eaecff7..c8e9214 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -66,7 +66,7 @@ class Scale(OpSequence):
             Array: Unitary representation.
         """
         param = values[self.parameter] if isinstance(self.parameter, str) else self.parameter
-        return param * super().tensor(values, full_support)
+        return jnp.array(param) * super().tensor(values, full_support)
 
 
 @register_pytree_node_class
-- 
2.43.0


From b15057e2236bf2ee80397ad64fb9a2869074bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 24/35] fix: keep the indices of controlled operators concrete,
 so their tensors can be jitted

---
 horqrux/utils/operator_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/horqrux/utils/operator_utils.py b/horqrux/utils/operator_utils.py
index c2a6702..87e0170 100644
--- a/horqrux/utils/operator_utils.py
+++ b/horqrux/utils/operator_utils.py
@@ -265,14 +265,15 @@ def prepare_controlled(
     full_dim = 2**ntotal_qubits
 
     # Compute the control mask using bit manipulation
-    control_mask = jnp.sum(
-        jnp.array(
+    # note: numpy keeps the mask concrete when jitting
+    control_mask = np.sum(
+        np.array(
             [1 << (ntotal_qubits - control_qubit - 1) for control_qubit in control_ind_support]
         )
     )
 
     # Create indices for the controlled subspace
-    indices = jnp.arange(full_dim)
+    indices = np.arange(full_dim)
     controlled_indices = indices[(indices & control_mask) == control_mask]
     return full_dim, controlled_indices
 
-- 
2.43.0


From 6328c89005c5583b8c05fedc7a2ecee4c9c1145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 25/35] fix: keep the parameter names of a scaled gate

---
 horqrux/composite/sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index f8fe787..6898c4d 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -86,7 +86,7 @@ class OpSequence:
         return set(
             [
                 str(op.param)
-                for op in list(iter(self))  # type: ignore[type-var]
+                for op in list(OpSequence.__iter__(self))  # type: ignore[type-var]
                 if isinstance(op, Parametric) and op.is_parametric
             ]
         )
-- 
2.43.0


From 891ffe776e78bdc0f288f23b3c8c58d20de96d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 26/35] fix: do not share the list of feature map parameters
 between circuits

---
 horqrux/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index 249531e..36acf84 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -29,7 +29,7 @@ class QuantumCircuit(OpSequence):
     ):
         super().__init__(list(operations))  # type:ignore[arg-type]
         self.n_qubits = n_qubits
-        self.fparams = fparams
+        self.fparams = list(fparams)
 
     @property
     def vparams(self) -> set[str]:
-- 
2.43.0


From f85fcbbe9a41a84352e616bc3eb5a0855fdcd48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 27/35] fix: let the jacobian of a controlled gate vanish when
 a control is not set

---
 horqrux/apply.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 528dffe..5b21186 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -331,6 +331,38 @@ def merge_operators(
     return merged_operators[::-1], merged_targets[::-1], merged_controls[::-1]
 
 
+def controlled_jacobians(
+    operators: tuple[Array, ...], targets: tuple, controls: tuple
+) -> tuple[tuple[Array, ...], tuple, tuple]:
+    """
+    Replace the jacobians of controlled gates by operators on both their control and target qubits,
+    which vanish (instead of being the identity) when some control qubit is not set.
+
+    Arguments:
+        operators: The arrays representing the jacobians.
+        targets: The corresponding target qubits.
+        controls: The corresponding control qubits.
+
+    Returns:
+        A tuple of operators, targets and controls.
+    """
+    new_operators, new_targets, new_controls = [], [], []
+    for operator, target, control in zip(operators, targets, controls):
+        if is_controlled(control):
+            dim = operator.shape[0] * 2 ** len(control)
+            offset = dim - operator.shape[0]
+            if isinstance(operator, BCOO):
+                operator = BCOO((operator.data, operator.indices + offset), shape=(dim, dim))
+            else:
+                operator = jnp.pad(operator, ((offset, 0), (offset, 0)))
+            target = (*control, *target)
+            control = (None,)
+        new_operators.append(operator)
+        new_targets.append(target)
+        new_controls.append(control)
+    return tuple(new_operators), tuple(new_targets), tuple(new_controls)
+
+
 @singledispatch
 def apply_gates(
     state: Any,
@@ -371,6 +403,8 @@ def prepare_sequence_reduce(
         operator_fn = getattr(gate, op_type)
         operator, target, control = (operator_fn(values),), gate.target, gate.control
         noise += [gate.noise]
+        if op_type == OperationType.JACOBIAN:
+            operator, target, control = controlled_jacobians(operator, target, control)
     else:
         if group_gates:
             gate = group_by_index(gate)
@@ -378,6 +412,8 @@ def prepare_sequence_reduce(
         target = reduce(add, [g.target for g in gate], ())
         control = reduce(add, [g.control for g in gate], ())
         noise = [g.noise for g in gate]
+        if op_type == OperationType.JACOBIAN:
+            operator, target, control = controlled_jacobians(operator, target, control)
         # merge when no noise is present
         if (noise == [None] * len(noise)) and merge_ops:
             operator, target, control = merge_operators(operator, target, control)
-- 
2.43.0


From cc9c58a702c79932b6241c4dac879195a6c976b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 28/35] fix: reject gates which use a qubit twice

---
 horqrux/primitives/primitive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 51f749b..77bcf22 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -54,6 +54,11 @@ class Primitive:
             self.control = none_like(self.target)
         else:
             self.control = Primitive.parse_idx(self.control)
+        qubits = tuple(self.target[0])
+        if is_controlled(self.control):
+            qubits += tuple(self.control[0])
+        if len(set(qubits)) < len(qubits):
+            raise ValueError(f"The qubits of a gate should be distinct. Got {qubits}.")
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
         from horqrux.apply import apply_gates
-- 
2.43.0


From 28a526ef97bc0b4e518b6aa303a53a531f7d44d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:05 +0000
Subject: [PATCH 29/35] fix: leave the symmetrization of observables to eigh,
 as XLA folds a constant one wrongly under jit

---
 horqrux/shots.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/horqrux/shots.py b/horqrux/shots.py
index a10f5de..1c1c881 100644
--- a/horqrux/shots.py
+++ b/horqrux/shots.py
@@ -121,7 +121,6 @@ def align_eigenvectors(observables: Array) -> tuple[Array, Array]:
     Returns:
         tuple[Array, Array]: Eigenvalues and eigenvectors of each observable.
     """
-    observables = 0.5 * (observables + jnp.conjugate(jnp.swapaxes(observables, -1, -2)))
     eigs = jax.vmap(jnp.linalg.eigh)(observables)
     shared = eigs.eigenvectors[0]
 
-- 
2.43.0


From 8569b73820c15e822d4b6121fe297650665a1469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 30/35] fix: keep no tracers in the cached spectral properties
 of gates

---
 horqrux/primitives/parametric.py | 45 ++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/horqrux/primitives/parametric.py b/horqrux/primitives/parametric.py
index 55da2c8..51f1080 100644
--- a/horqrux/primitives/parametric.py
+++ b/horqrux/primitives/parametric.py
@@ -100,21 +100,23 @@ class Parametric(Primitive):
         Returns:
             Array: Eigenvalues of the operation.
         """
-        eig_vals_generator = eigvalsh_sp(self.generator)
-        if is_controlled(self.control):
-            if not self.sparse:
-                eig_vals_generator = jnp.concatenate(
-                    (
-                        jnp.zeros(2 ** (len(self.control)), dtype=eig_vals_generator.dtype),
+        # cached on the gate: no tracer may be kept when first computed while tracing
+        with jax.ensure_compile_time_eval():
+            eig_vals_generator = eigvalsh_sp(self.generator)
+            if is_controlled(self.control):
+                if not self.sparse:
+                    eig_vals_generator = jnp.concatenate(
+                        (
+                            jnp.zeros(2 ** (len(self.control)), dtype=eig_vals_generator.dtype),
+                            eig_vals_generator,
+                        )
+                    )
+                else:
+                    eig_vals_generator = bcoo_concatenate(
+                        empty(2 ** (len(self.control)), dtype=eig_vals_generator.dtype),
                         eig_vals_generator,
                     )
-                )
-            else:
-                eig_vals_generator = bcoo_concatenate(
-                    empty(2 ** (len(self.control)), dtype=eig_vals_generator.dtype),
-                    eig_vals_generator,
-                )
-        return eig_vals_generator
+            return eig_vals_generator
 
     @cached_property
     def spectral_gap(self) -> Array:
@@ -123,12 +125,14 @@ class Parametric(Primitive):
         Returns:
             Array: Spectral gap value.
         """
-        spectrum = jnp.atleast_2d(self.eigenvals_generator)
-        diffs = spectrum - spectrum.T
-        # note for jitting, must specify a size
-        # atm only size 2 is acceptable given all possible generators in OPERATIONS_DICT
-        spectral_gap = unique_jit(jnp.abs(jnp.tril(diffs)), size=2)
-        return spectral_gap[nonzero_jit(spectral_gap, size=1)]
+        # cached on the gate: no tracer may be kept when first computed while tracing
+        with jax.ensure_compile_time_eval():
+            spectrum = jnp.atleast_2d(self.eigenvals_generator)
+            diffs = spectrum - spectrum.T
+            # note for jitting, must specify a size
+            # atm only size 2 is acceptable given all possible generators in OPERATIONS_DICT
+            spectral_gap = unique_jit(jnp.abs(jnp.tril(diffs)), size=2)
+            return spectral_gap[nonzero_jit(spectral_gap, size=1)]
 
     @property
     def is_parametric(self) -> bool:
@@ -224,7 +228,8 @@ class _PHASE(Parametric):
         Returns:
             Array: Eigenvalues of the generator.
         """
-        return jnp.array([-2.0, 0.0])
+        with jax.ensure_compile_time_eval():
+            return jnp.array([-2.0, 0.0])
 
     @property
     def name(self) -> str:
-- 
2.43.0


From 7756574f6180572dd5ca4596449f48eefd80ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:20 +0000
Subject: [PATCH 31/35] fix: apply a circuit or sum called without a state to
 the zero state of its register

---
 horqrux/circuit.py            | 4 ++++
 horqrux/composite/compose.py  | 2 ++
 horqrux/composite/sequence.py | 8 +++++++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/horqrux/circuit.py b/horqrux/circuit.py
index 36acf84..8549e4e 100644
--- a/horqrux/circuit.py
+++ b/horqrux/circuit.py
@@ -9,6 +9,7 @@ from jax.tree_util import register_pytree_node_class
 from horqrux.composite.sequence import OpSequence
 from horqrux.primitives.parametric import RX, RY
 from horqrux.primitives.primitive import NOT, Primitive
+from horqrux.utils.operator_utils import State, zero_state
 
 
 @register_pytree_node_class
@@ -31,6 +32,9 @@ class QuantumCircuit(OpSequence):
         self.n_qubits = n_qubits
         self.fparams = list(fparams)
 
+    def _default_state(self) -> State:
+        return zero_state(self.n_qubits)
+
     @property
     def vparams(self) -> set[str]:
         """List of variational parameters of the circuit.
diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index c8e9214..f3839be 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -91,6 +91,8 @@ class Add(OpSequence):
         return cls(*children, *aux_data)
 
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
+        if state is None:
+            state = self._default_state()
         return reduce(add, map(lambda op: op(state, values), self.operations))
 
     def tensor(
diff --git a/horqrux/composite/sequence.py b/horqrux/composite/sequence.py
index 6898c4d..9bc3a04 100644
--- a/horqrux/composite/sequence.py
+++ b/horqrux/composite/sequence.py
@@ -7,7 +7,7 @@ from typing import Any, Iterable
 from jax import Array
 from jax.tree_util import register_pytree_node_class
 
-from horqrux.utils.operator_utils import State
+from horqrux.utils.operator_utils import State, zero_state
 
 
 @register_pytree_node_class
@@ -28,7 +28,13 @@ class OpSequence:
     def qubit_support(self) -> tuple:
         return tuple(sorted(set().union(*(op.qubit_support for op in self.operations))))
 
+    def _default_state(self) -> State:
+        """State the operations are applied to when none is given."""
+        return zero_state(len(self.qubit_support))
+
     def __call__(self, state: State | None = None, values: dict[str, Array] = dict()) -> State:
+        if state is None:
+            state = self._default_state()
         return reduce(lambda state, gate: gate.__call__(state, values), self.operations, state)
 
     def tensor(
-- 
2.43.0


From 1dbee67262f0a1bf876bd50df316b3344d2dd313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:02 +0000
Subject: [PATCH 32/35] fix: accept one-shot iterables, tuples and circuits
 wherever an iterable of gates is taken

---
 horqrux/apply.py                           | 4 ++--
 horqrux/differentiation/gpsr/analytical.py | 5 +++++
 horqrux/differentiation/gpsr/shots.py      | 3 +++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index 5b21186..d525a37 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -406,8 +406,8 @@ def prepare_sequence_reduce(
         if op_type == OperationType.JACOBIAN:
             operator, target, control = controlled_jacobians(operator, target, control)
     else:
-        if group_gates:
-            gate = group_by_index(gate)
+        # note: the gates are iterated over several times
+        gate = tuple(group_by_index(gate) if group_gates else gate)
         operator = tuple(getattr(g, op_type)(values) for g in gate)
         target = reduce(add, [g.target for g in gate], ())
         control = reduce(add, [g.control for g in gate], ())
diff --git a/horqrux/differentiation/gpsr/analytical.py b/horqrux/differentiation/gpsr/analytical.py
index 836e51d..b9e4670 100644
--- a/horqrux/differentiation/gpsr/analytical.py
+++ b/horqrux/differentiation/gpsr/analytical.py
@@ -41,6 +41,8 @@ def analytical_expectation(
     Returns:
         Array: Expectation values.
     """
+    if not isinstance(gates, Primitive):
+        gates = list(gates)
     values_circuit, values_observables = _values_processing(values)
     outputs = list(
         map(
@@ -100,6 +102,7 @@ def analytical_gpsr_bwd(
 
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
+        gates = list(gates)
         param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
         # repeated case
         if has_repeated_params(param_to_gates_indices):
@@ -180,6 +183,8 @@ def analytical_gpsr_jvp(
     """
     values = primals[0]
     tangent_dict = tangents[0]
+    if not isinstance(gates, Primitive):
+        gates = list(gates)
     fwd = analytical_gpsr_fwd(state, gates, observable, values)
 
     legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
diff --git a/horqrux/differentiation/gpsr/shots.py b/horqrux/differentiation/gpsr/shots.py
index 6e9074a..6412bcb 100644
--- a/horqrux/differentiation/gpsr/shots.py
+++ b/horqrux/differentiation/gpsr/shots.py
@@ -70,6 +70,7 @@ def finite_shots_gpsr_backward(
     params_with_keys = zip(values.keys(), random.split(key, len(values)))
     jvp_caller = jvp_component
     if not isinstance(gates, Primitive):
+        gates = list(gates)
         param_to_gates_indices = prepare_param_gates_seq(val_keys, gates)
         # repeated case
         if has_repeated_params(param_to_gates_indices):
@@ -166,6 +167,8 @@ def finite_shots_jvp(
     """
     values = primals[0]
     tangent_dict = tangents[0]
+    if not isinstance(gates, Primitive):
+        gates = list(gates)
     fwd = finite_shots_fwd(state, gates, observable, values, n_shots, key)
 
     legit_val_keys, spectral_gap, shift = initialize_gpsr_ingredients(values)
-- 
2.43.0


From 6b96f5802be6c555a8c127e1b90216aed42b3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:02 +0000
Subject: [PATCH 33/35] fix: evaluate an observable called without a state on
 the zero state

---
 horqrux/composite/compose.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/horqrux/composite/compose.py b/horqrux/composite/compose.py
index f3839be..3f77937 100644
--- a/horqrux/composite/compose.py
+++ b/horqrux/composite/compose.py
@@ -150,4 +150,6 @@ class Observable(Add):
         """
         from horqrux.differentiation.ad import _ad_expectation_single_observable
 
+        if state is None:
+            state = self._default_state()
         return _ad_expectation_single_observable(state, self, values)
-- 
2.43.0


From fe247a3dd834127054781dac4d64014f03ca089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:56 +0000
Subject: [PATCH 34/35] fix: apply Kraus operators to the qubits they are given

---
 horqrux/apply.py | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/horqrux/apply.py b/horqrux/apply.py
index d525a37..9edf3d8 100644
--- a/horqrux/apply.py
+++ b/horqrux/apply.py
@@ -194,21 +194,7 @@ def apply_kraus_operator(
     Returns:
         Array: K \\rho K^\\dagger.
     """
-    state_dims: tuple[int, ...] = target
-    n_qubits = int(np.log2(kraus.size))
-    kraus = kraus.reshape((2,) * n_qubits)
-    op_out_dims = tuple(np.arange(kraus.ndim // 2, kraus.ndim, dtype=int))
-    op_in_dims = tuple(np.arange(0, kraus.ndim // 2, dtype=int))
-    new_state_dims = tuple(range(len(state_dims)))
-
-    array = jnp.moveaxis(a=array, source=new_state_dims, destination=state_dims)
-    array = jnp.tensordot(a=kraus, b=array, axes=(op_out_dims, new_state_dims))
-
-    array = _dagger(array)
-    array = jnp.tensordot(a=kraus, b=array, axes=(op_out_dims, op_in_dims))
-    array = _dagger(array)
-    array = jnp.moveaxis(a=array, source=state_dims, destination=new_state_dims)
-    return array
+    return apply_operator(DensityMatrix(array), kraus, target, (None,)).array
 
 
 def apply_kraus_sum(
-- 
2.43.0


From 4d5d616d12c661ae5c76fdc9e1f1cf72c75e0038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:10 +0000
Subject: [PATCH 35/35] fix: apply gates whose qubits are given as arrays

---
 horqrux/primitives/primitive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/horqrux/primitives/primitive.py b/horqrux/primitives/primitive.py
index 77bcf22..6286338 100644
--- a/horqrux/primitives/primitive.py
+++ b/horqrux/primitives/primitive.py
@@ -46,7 +46,8 @@ class Primitive:
         elif isinstance(idx, tuple):
             return (idx,)
         else:
-            return (idx.astype(int),)
+            # note: an array of indices would not be recognized as a tuple of qubits
+            return (tuple(idx.astype(int).tolist()),)
 
     def __post_init__(self) -> None:
         self.target = Primitive.parse_idx(self.target)
-- 
2.43.0

