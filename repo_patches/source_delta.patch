From 6b877ba31f36a5a4753a95353a6da136fb84f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 01/64] fix: reject logical operators of the same type that do
 not commute

QuditCode.set_logical_ops only validated the X-Z commutation relations, so sets of logical X (or Z)
operators that do not commute among themselves were accepted.
---
 qldpc/codes/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 2bac8f0..fd752b3 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1177,6 +1177,11 @@ class QuditCode(AbstractCode):
                 raise ValueError("The given logical operators have incorrect commutation relations")
             if np.any(symplectic_conjugate(self.matrix) @ logical_ops.T):
                 raise ValueError("The given logical operators violate parity checks")
+            for ops in (logical_ops_x, logical_ops_z):
+                if np.any(symplectic_conjugate(ops) @ ops.T):
+                    raise ValueError(
+                        "The given logical operators have incorrect commutation relations"
+                    )
             if dimension != self.dimension:
                 raise ValueError("An incorrect number of logical operators was provided")
         self._logical_ops = logical_ops
-- 
2.43.0


From 60975fe59d659bbb84228d471f368bde72925d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:27 +0000
Subject: [PATCH 02/64] fix: logical operators of general subsystem codes

Not every gauge group has the standard form that QuditCode.get_logical_ops relies on: if it does not,
the method returned operators that violate parity checks, or crashed.  In that case, find logical
operators by a symplectic Gram-Schmidt procedure.  If a standard form does exist, additionally make
sure that all X-type logical operators commute.
---
 qldpc/codes/common.py | 55 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index fd752b3..d0b0079 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -912,6 +912,14 @@ class QuditCode(AbstractCode):
         if not (self._logical_ops is None or recompute):
             return self._logical_ops
 
+        # some subsystem codes have no standard form, in which case find a symplectic basis directly
+        if self.is_subsystem_code and not self._has_standard_form():
+            logical_ops = _get_symplectic_basis(
+                symplectic_conjugate(self.matrix).null_space()
+            )
+            self._logical_ops = logical_ops
+            return logical_ops
+
         # construct the standard-form parity check matrix
         (
             matrix,
@@ -974,11 +982,31 @@ class QuditCode(AbstractCode):
         permutation = np.argsort(qudit_locs)
         logicals_x = logicals_x.reshape(-1, len(self))[:, permutation].reshape(-1, 2 * len(self))
         logicals_z = logicals_z.reshape(-1, len(self))[:, permutation].reshape(-1, 2 * len(self))
+
+        # multiply X-type logicals by Z-type logicals to make all X-type logicals commute
+        inner_products = symplectic_conjugate(logicals_x) @ logicals_x.T
+        logicals_x = logicals_x + np.triu(inner_products, 1).view(self.field) @ logicals_z
+
         logical_ops = np.vstack([logicals_x, logicals_z]).view(self.field)
 
         self._logical_ops = logical_ops
         return logical_ops
 
+    def _has_standard_form(self) -> bool:
+        """Can the parity check matrix of this code be brought into standard form?
+
+        This is always possible for stabilizer codes.  For subsystem codes, it is only possible if
+        there are as many independent parity checks with X-type support (modulo parity checks with
+        only Z-type support) as there are such stabilizers and gauge qudits.
+        """
+        if not self.is_subsystem_code:
+            return True
+        checks = self.canonicalized.matrix
+        stabilizers = self.get_stabilizer_ops(canonicalized=True)
+        num_checks_x = np.count_nonzero(first_nonzero_cols(checks) < len(self))
+        num_stabs_x = np.count_nonzero(first_nonzero_cols(stabilizers) < len(self))
+        return bool(num_checks_x == num_stabs_x + self.gauge_dimension)
+
     def get_standard_form_data(
         self,
     ) -> tuple[
@@ -1091,6 +1119,9 @@ class QuditCode(AbstractCode):
             rows_gx = rows_gz = cols_gx = cols_gz = slice(0)
 
         else:
+            if not self._has_standard_form():
+                raise ValueError("The parity check matrix of this code has no standard form")
+
             # X-type and Z-type stabilizers in standard form
             stabilizer_ops = self.get_stabilizer_ops()
             code = QuditCode(stabilizer_ops, is_subsystem_code=False)
@@ -2421,6 +2452,30 @@ class CSSCode(QuditCode):
         return 1 - infidelity, variance
 
 
+def _get_symplectic_basis(vectors: galois.FieldArray) -> galois.FieldArray:
+    """Symplectic Gram-Schmidt: conjugate pairs of vectors, modulo vectors that commute with all.
+
+    The first (second) half of the rows returned by this method are X-type (Z-type), and the vectors
+    at rows j and j+k are dual to each other.
+    """
+    vectors_x = []
+    vectors_z = []
+    while len(vectors):
+        vector, vectors = vectors[0], vectors[1:]
+        inner_products = vectors @ symplectic_conjugate(vector)
+        if not np.any(inner_products):
+            continue
+        index = np.flatnonzero(inner_products)[0]
+        dual = vectors[index] / inner_products[index]
+        vectors = np.delete(vectors, index, axis=0).view(type(vectors))
+        overlaps_x = vectors @ symplectic_conjugate(vector)
+        overlaps_z = vectors @ symplectic_conjugate(dual)
+        vectors = vectors - np.outer(overlaps_x, dual) + np.outer(overlaps_z, vector)
+        vectors_x.append(vector)
+        vectors_z.append(dual)
+    return np.reshape(vectors_x + vectors_z, (-1, vectors.shape[1])).view(type(vectors))
+
+
 def _join_slices(*sectors: Slice) -> npt.NDArray[np.int_]:
     """Join index slices together into one slice."""
     return np.concatenate(
-- 
2.43.0


From ca95968a4c78ea275cf0ae8b0d0aaac050888856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 03/64] fix: shortening a code on a bit that is zero in all
 code words

ClassicalCode.shorten dropped a row of the generator matrix even if no code word has support on the
shortened bit, thereby losing code words.
---
 qldpc/codes/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index d0b0079..2fae910 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -596,13 +596,15 @@ class ClassicalCode(AbstractCode):
         To shorten a code on a given bit, we:
         - move the bit to the first position,
         - row-reduce the generator matrix into the form [ identity_matrix, other_stuff ], and
-        - delete the first row and column from the generator matrix.
+        - delete the first row and column from the generator matrix (or only the first column, if
+          the bit is zero in all code words).
         """
         assert all(0 <= bit < len(self) for bit in bits)
         generator = self.generator
         for bit in sorted(bits, reverse=True):
             generator = np.roll(generator, -bit, axis=1).view(self.field)
-            generator = generator.row_reduce()[1:, 1:]
+            first_row = 1 if np.any(generator[:, 0]) else 0
+            generator = generator.row_reduce()[first_row:, 1:]
             generator = np.roll(generator, bit, axis=1).view(self.field)
         return ClassicalCode.from_generator(generator)
 
-- 
2.43.0


From d390788c793907271c81bbb30af69f17ca4fc82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 04/64] fix: do not modify the graph used to construct a
 TannerCode

TannerCode.as_directed_subgraph removed the edge ordering data from the provided graph.
---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index cfe34f2..95a1890 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -246,7 +246,7 @@ class TannerCode(ClassicalCode):
             edge = frozenset([node_a, node_b])
             directed_subgraph.add_edge(node_a, edge)
             directed_subgraph.add_edge(node_b, edge)
-            if (sort_data := edge_data.pop("sort", None)) is not None:
+            if (sort_data := edge_data.get("sort")) is not None:
                 directed_subgraph[node_a][edge]["sort"] = sort_data[node_a]
                 directed_subgraph[node_b][edge]["sort"] = sort_data[node_b]
         return directed_subgraph
-- 
2.43.0


From d2b3124ad9bcfc6c7ae446378c8a858709e67480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 05/64] fix: exact distance of binary codes with block length
 at least 256

The weights of vectorized operators were summed in 8-bit integers, which made the brute-force
distance calculation crash (numpy >= 2) for strings of 256 or more bits.
---
 qldpc/codes/distance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/distance.py b/qldpc/codes/distance.py
index aef6d44..037a688 100644
--- a/qldpc/codes/distance.py
+++ b/qldpc/codes/distance.py
@@ -277,7 +277,7 @@ def get_distance_quantum(
     bufs = [np.empty_like(arrayf) for _ in range(nbuf)]
 
     # Min weight of the part containing logical ops
-    weights = weight_func(arrayf[2**num_stabilizers :])
+    weights = weight_func(arrayf[2**num_stabilizers :]).astype(np.uint)
     min_weight = _inplace_rowsum(weights).min(initial=num_bits)
 
     for li in range(1, 2 ** len(int_logical_ops)):
-- 
2.43.0


From 8bf18b9553e2e22cc8316660ff145fcbf5e215b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 06/64] fix: upper bound on the distance of a vector if
 decoding fails

ClassicalCode.get_one_distance_bound returned the weight of whatever the decoder returned, even if it
does not take the given vector to a code word, in which case the 'bound' may lie below the distance.
---
 qldpc/codes/common.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 2fae910..5fa7052 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -473,11 +473,12 @@ class ClassicalCode(AbstractCode):
         """
         if vector is not None:
             # find the distance of the given vector from a code word
-            correction = decoders.decode(
-                self.matrix,
-                self.matrix @ np.asarray(vector, dtype=int).view(self.field),
-                **decoder_args,
-            )
+            vector = np.asarray(vector, dtype=int).view(self.field)
+            syndrome = self.matrix @ vector
+            correction = decoders.decode(self.matrix, syndrome, **decoder_args)
+            if not np.array_equal(self.matrix @ correction.view(self.field), syndrome):
+                # decoding failed, so fall back to the distance from the all-0 code word
+                correction = vector
             return int(np.count_nonzero(correction))
 
         # effective syndrome: a trivial "actual" syndrome, and a nonzero overlap with a random word
-- 
2.43.0


From cf1194a129f034abfb4bf83dac7159ac00318df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:35 +0000
Subject: [PATCH 07/64] fix: reducing a logical operator never increases its
 weight

CSSCode.reduce_logical_op unconditionally installed the solution found by a decoder, which may have a
larger weight than the current logical operator (e.g. in the SurfaceCode(3) with the default decoder).
---
 qldpc/codes/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 5fa7052..192744c 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2238,6 +2238,11 @@ class CSSCode(QuditCode):
             actual_syndrome = effective_check_matrix @ candidate_logical_op.view(self.field)
             logical_op_found = np.array_equal(actual_syndrome, effective_syndrome)
 
+        # decoders are not guaranteed to find a low-weight solution, so make sure we found one
+        old_logical_op = self.get_logical_ops(pauli)[logical_index]
+        if np.count_nonzero(candidate_logical_op) >= np.count_nonzero(old_logical_op):
+            return None
+
         assert self._logical_ops is not None
         self._logical_ops.shape = (2, self.dimension, 2, len(self))
         self._logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
-- 
2.43.0


From 0eee4d6f0eeae96f8b52f243c1bbfed4071ab714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 08/64] fix: do not change the logical operators of the inner
 code in a concatenation

If only one copy of the inner code was required, QuditCode.concatenate permuted the logical operators
of the code that it was given.
---
 qldpc/codes/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 192744c..cc93958 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -18,6 +18,7 @@ limitations under the License.
 from __future__ import annotations
 
 import abc
+import copy
 import functools
 import itertools
 import random
@@ -1582,12 +1583,14 @@ class QuditCode(AbstractCode):
         if (num_outer_blocks := len(outer_physical_to_inner_logical) // len(outer)) > 1:
             outer = outer.stack(*[outer] * num_outer_blocks)
 
-        # permute logical operators of the inner code
-        inner._logical_ops = (
+        # permute logical operators of (a copy of) the inner code
+        logical_ops = (
             inner.get_logical_ops()
             .reshape(2, inner.dimension, -1)[:, outer_physical_to_inner_logical, :]
             .reshape(2 * inner.dimension, -1)
         ).view(inner.field)
+        inner = copy.copy(inner)
+        inner._logical_ops = logical_ops
 
         return inner, outer
 
-- 
2.43.0


From 95275e60ffb17ba4f3d82bc9457570270ce7d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 09/64] fix: conjugation of codes over fields with odd
 characteristic

A Fourier transform takes X -> Z and Z -> X^-1.  Without the sign, conjugating a subset of qudits changes
commutation relations, so QuditCode.conjugated returned invalid codes or rejected its logical operators.
---
 qldpc/codes/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index cc93958..6a7d083 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1404,12 +1404,14 @@ class QuditCode(AbstractCode):
             qudits = getattr(self, "_default_conjugate", ())
         matrix_reshaped = self.matrix.copy().reshape(-1, 2, len(self))
         matrix_reshaped[:, :, qudits] = matrix_reshaped[:, ::-1, qudits]
+        matrix_reshaped[:, 0, qudits] *= -1  # Fourier transforms take X -> Z and Z -> X^-1
         matrix = matrix_reshaped.reshape(-1, 2 * len(self))
         code = QuditCode(matrix, field=self.field.order, is_subsystem_code=self.is_subsystem_code)
 
         if self._logical_ops is not None:
             logical_ops = self._logical_ops.copy().reshape(-1, 2, len(self))
             logical_ops[:, :, qudits] = logical_ops[:, ::-1, qudits]
+            logical_ops[:, 0, qudits] *= -1
             code.set_logical_ops(logical_ops.reshape(-1, 2 * len(self)))
 
         return code
-- 
2.43.0


From b791531b8933c5d41c2f24bb741f4813246c8754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:28 +0000
Subject: [PATCH 10/64] fix: deformation of codes without logical qubits

QuditCode.deformed crashed if the (empty set of) logical operators had already been computed.
---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 6a7d083..162ac71 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1440,7 +1440,7 @@ class QuditCode(AbstractCode):
                 string = op_to_string(check)
                 xs_zs = tableau(string).to_numpy()
                 new_strings.append(np.concatenate(xs_zs))
-            return self.field(new_strings)
+            return np.array(new_strings, dtype=int).reshape(strings.shape).view(self.field)
 
         # deform this code by transforming its stabilizers
         matrix = deform_strings(self.matrix)
-- 
2.43.0


From bde597e861c71e2a6dcf2bf26d2f961ec58b99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 11/64] fix: copy a CSSCode into a QuditCode

---
 qldpc/codes/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 162ac71..c8de5a1 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -93,7 +93,7 @@ class AbstractCode(abc.ABC):
         The base field is taken to be F_2 by default.
         """
         if isinstance(matrix, AbstractCode):
-            self._matrix = matrix._matrix
+            self._matrix = matrix.matrix
             self._field = matrix._field
             self._dimension = matrix._dimension
             self._distance = matrix._distance
-- 
2.43.0


From cde3bbe6a8bd6a4e85d81ffc32a36dbf1b039ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 12/64] fix: reducing a logical operator does not change arrays
 shared with other objects

---
 qldpc/codes/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index c8de5a1..905d3fc 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2248,10 +2248,11 @@ class CSSCode(QuditCode):
         if np.count_nonzero(candidate_logical_op) >= np.count_nonzero(old_logical_op):
             return None
 
+        # update a copy of the logical operators, which may be shared with other objects
         assert self._logical_ops is not None
-        self._logical_ops.shape = (2, self.dimension, 2, len(self))
-        self._logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
-        self._logical_ops.shape = (2 * self.dimension, 2 * len(self))
+        logical_ops = self._logical_ops.copy().reshape(2, self.dimension, 2, len(self))
+        logical_ops[pauli, logical_index, pauli, :] = candidate_logical_op
+        self._logical_ops = logical_ops.reshape(2 * self.dimension, 2 * len(self))
 
     def reduce_logical_ops(self, pauli: PauliXZ | None = None, **decoder_args: Any) -> None:
         """Reduce the weight of all logical operators."""
-- 
2.43.0


From 61f102896abbcad93e0af0ac38619bf771b31512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 13/64] fix: keep checks and bits with no edges in Tanner
 graphs

---
 qldpc/codes/common.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 905d3fc..de312b1 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -275,6 +275,9 @@ class ClassicalCode(AbstractCode):
         """
         graph = nx.DiGraph()
         matrix = np.asanyarray(matrix)
+        num_checks, num_bits = matrix.shape
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(num_checks))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(num_bits))
         for row, col in zip(*np.nonzero(matrix)):
             node_c = Node(index=int(row), is_data=False)
             node_d = Node(index=int(col), is_data=True)
@@ -784,7 +787,11 @@ class QuditCode(AbstractCode):
     def matrix_to_graph(matrix: npt.NDArray[np.int_] | Sequence[Sequence[int]]) -> nx.DiGraph:
         """Convert a parity check matrix into a Tanner graph."""
         graph = nx.DiGraph()
-        matrix = np.reshape(matrix, (len(matrix), 2, -1))
+        matrix = np.asanyarray(matrix)
+        num_checks, num_qudits = matrix.shape[0], matrix.shape[1] // 2
+        matrix = matrix.reshape(num_checks, 2, num_qudits)
+        graph.add_nodes_from(Node(index=row, is_data=False) for row in range(num_checks))
+        graph.add_nodes_from(Node(index=col, is_data=True) for col in range(num_qudits))
         for row, xz, col in zip(*np.nonzero(matrix)):
             node_check = Node(index=int(row), is_data=False)
             node_qudit = Node(index=int(col), is_data=True)
-- 
2.43.0


From 3dcc86737f332f2940d0503d15baa094e2e3de5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 14/64] fix: convert Tanner graphs without an explicit field
 into matrices

---
 qldpc/codes/common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index de312b1..56f9dc8 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -291,7 +291,8 @@ class ClassicalCode(AbstractCode):
         """Convert a Tanner graph into a parity check matrix."""
         num_bits = sum(node.is_data for node in graph.nodes())
         num_checks = len(graph.nodes()) - num_bits
-        field = getattr(graph, "order", DEFAULT_FIELD_ORDER)
+        # nx.DiGraph.order is a method unless it was replaced by the order of a field
+        field = graph.order if isinstance(graph.order, int) else DEFAULT_FIELD_ORDER
         matrix = galois.GF(field).Zeros((num_checks, num_bits))
         for node_c, node_b, data in graph.edges(data=True):
             matrix[node_c.index, node_b.index] = data.get("val", 1)
@@ -821,7 +822,8 @@ class QuditCode(AbstractCode):
         for node_check, node_qudit, data in graph.edges(data=True):
             op = data.get(QuditOperator) or data.get(Pauli)
             matrix[node_check.index, :, node_qudit.index] = op.value
-        field = getattr(graph, "order", DEFAULT_FIELD_ORDER)
+        # nx.DiGraph.order is a method unless it was replaced by the order of a field
+        field = graph.order if isinstance(graph.order, int) else DEFAULT_FIELD_ORDER
         return galois.GF(field)(matrix.reshape(num_checks, 2 * num_qudits))
 
     def get_strings(self) -> list[str]:
-- 
2.43.0


From ad30c24ec1e7b4d7a227f0ce2578d318958e6845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:41 +0000
Subject: [PATCH 15/64] fix: read inverses of qudit operators from strings

---
 qldpc/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index f3e9950..b6997bb 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -138,7 +138,7 @@ class QuditOperator:
             pauli = factor[0]
             val_str = factor[2:-1]
             _factor = f"{pauli}({val_str})"
-            if pauli not in "XYZ" or not val_str.isnumeric() or factor != _factor:
+            if pauli not in "XYZ" or not val_str.removeprefix("-").isnumeric() or factor != _factor:
                 raise ValueError(invalid_op)
 
             val = int(val_str)
-- 
2.43.0


From 1bc869c5e6130566bb549e1cb0eaa2e0de469902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 16/64] fix: lookup decoders do not correct the trivial
 syndrome

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index b350ebd..b190f6d 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -188,7 +188,7 @@ class LookupDecoder(Decoder):
 
         self.table: dict[tuple[int, ...], npt.NDArray[np.int_]] = {}
         block_length = matrix.shape[1] // repeat
-        for weight in range(max_weight, 0, -1):
+        for weight in range(max_weight, -1, -1):
             for error_sites in itertools.combinations(range(block_length), weight):
                 error_site_indices = list(error_sites)
                 for errors in itertools.product(local_errors, repeat=weight):
-- 
2.43.0


From 4be19347824a9f8d74d6a710b1ea5abaa545cb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 17/64] fix: do not expose the table of a LookupDecoder to
 changes

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index b190f6d..861daad 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -202,7 +202,7 @@ class LookupDecoder(Decoder):
 
     def decode(self, syndrome: npt.NDArray[np.int_]) -> npt.NDArray[np.int_]:
         """Decode an error syndrome and return an inferred error."""
-        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction.copy())
+        return self.table.get(tuple(syndrome.view(np.ndarray)), self.null_correction).copy()
 
 
 def get_symplectic_weight(vector: npt.NDArray[np.int_]) -> int:
-- 
2.43.0


From c3cbe87addea6b45aa992699e2174ed55e96dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 18/64] fix: union-find decoding of quantum codes given by
 plain integer arrays

---
 qldpc/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index 861daad..c4c1e16 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -259,7 +259,7 @@ class GUFDecoder(Decoder):
         else:
             # decoding a quantum code: the "weight" of an error vector is its symplectic weight
             self.get_weight = get_symplectic_weight
-            self.code = codes.QuditCode(symplectic_conjugate(matrix))
+            self.code = codes.QuditCode(symplectic_conjugate(codes.QuditCode(matrix).matrix))
 
         self.graph = self.code.graph.to_undirected()
 
-- 
2.43.0


From d0ecfa8c9e58705d70920123002f3d3a603af1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 19/64] fix: integer programs for decoding over fields with
 order greater than 2

---
 qldpc/decoders.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/qldpc/decoders.py b/qldpc/decoders.py
index c4c1e16..1f27c88 100644
--- a/qldpc/decoders.py
+++ b/qldpc/decoders.py
@@ -411,17 +411,18 @@ class ILPDecoder(Decoder):
             raise ValueError(message + f"\nSolver output: {result}")
 
         # return solution to the problem variables
-        return self.variables.value.astype(int)
+        return np.rint(self.variables.value).astype(int)
 
     def cvxpy_constraints_for_syndrome(
         self, syndrome: npt.NDArray[np.int_]
     ) -> list[cvxpy.Constraint]:
         """Build cvxpy constraints of the form `matrix @ variables == syndrome (mod q)`.
 
-        This method uses boolean slack variables {s_j} to relax each constraint of the form
+        This method uses slack variables {s_j} to relax each constraint of the form
         `expression = val mod q`
         to
-        `expression = val + sum_j q^j s_j`.
+        `expression = val + sum_j q^j s_j`,
+        where each slack variable s_j takes values in {0, ..., q - 1}.
         """
         syndrome = np.asarray(syndrome, dtype=int) % self.modulus
 
@@ -432,11 +433,17 @@ class ILPDecoder(Decoder):
             if max_zero == 0 or self.modulus == 2:
                 max_power_of_q = max_zero.bit_length() - 1
             else:
-                max_power_of_q = int(np.log2(max_zero) / np.log2(self.modulus))
+                max_power_of_q = 0
+                while max_zero >= self.modulus ** (max_power_of_q + 1):
+                    max_power_of_q += 1
 
             if max_power_of_q > 0:
                 powers_of_q = [self.modulus**jj for jj in range(1, max_power_of_q + 1)]
-                slack_variables = cvxpy.Variable(max_power_of_q, boolean=True)
+                if self.modulus == 2:
+                    slack_variables = cvxpy.Variable(max_power_of_q, boolean=True)
+                else:
+                    slack_variables = cvxpy.Variable(max_power_of_q, integer=True)
+                    constraints += [slack_variables >= 0, slack_variables <= self.modulus - 1]
                 zero_mod_q = powers_of_q @ slack_variables
             else:
                 zero_mod_q = 0
-- 
2.43.0


From b348b176544a19c4a9195e7028f0b8fa58f9c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 20/64] fix: construct groups from repeated generating matrices

---
 qldpc/abstract.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index b11dccf..81fe1e7 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -301,12 +301,16 @@ class Group:
         if not matrices:
             return TrivialGroup()
 
-        # keep track of group members and a multiplication table
-        index_to_member = {
-            idx: gen if isinstance(gen, np.ndarray) else np.asarray(gen, dtype=int)
-            for idx, gen in enumerate(matrices)
-        }
-        hash_to_index = {hash(gen.data.tobytes()): idx for idx, gen in index_to_member.items()}
+        # keep track of (distinct) group members and a multiplication table
+        index_to_member: dict[int, npt.NDArray[np.int_]] = {}
+        hash_to_index: dict[int, int] = {}
+        for matrix in matrices:
+            gen = matrix if isinstance(matrix, np.ndarray) else np.asarray(matrix, dtype=int)
+            gen_hash = hash(gen.data.tobytes())
+            if gen_hash not in hash_to_index:
+                hash_to_index[gen_hash] = gen_idx = len(hash_to_index)
+                index_to_member[gen_idx] = gen
+        num_generators = len(index_to_member)
         table_as_dict = {}
 
         new_members: dict[int, npt.NDArray[np.int_]]
@@ -345,7 +349,7 @@ class Group:
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[row]) for row in range(len(matrices))]
+        generators = [GroupMember(table[row]) for row in range(num_generators)]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-- 
2.43.0


From 17e72e161c63a2f7f27a6422c4fb968f20195b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 21/64] fix: lift products to products in groups with
 generating matrices

---
 qldpc/abstract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 81fe1e7..a39ef0f 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -341,15 +341,17 @@ class Group:
         for (aa, bb), cc in table_as_dict.items():
             table[aa, bb] = cc
 
-        # dictionary from a permutation to the index of a group member
-        permutation_to_index = {tuple(row): idx for idx, row in enumerate(table)}
+        # Dictionary from a permutation to the index of a group member.  Members are represented by
+        # how they act on the group from the right, for consistency with how SymPy composes
+        # permutations, such that the product of two permutations represents a product of matrices.
+        permutation_to_index = {tuple(col): idx for idx, col in enumerate(table.T)}
 
         def lift(member: GroupMember) -> npt.NDArray[np.int_]:
             """Lift a member to its matrix representation."""
             return index_to_member[permutation_to_index[tuple(member.array_form)]]
 
         # identify generating permutations and build the group itself
-        generators = [GroupMember(table[row]) for row in range(num_generators)]
+        generators = [GroupMember(table[:, col]) for col in range(num_generators)]
         return Group(*generators, lift=lift)
 
     def random_symmetric_subset(
-- 
2.43.0


From b2b77d6fe955b034331cf1d3765c5823ad1f57ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 22/64] fix: lift products to products in special linear groups

---
 qldpc/abstract.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index a39ef0f..119d963 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1314,7 +1314,8 @@ class SpecialLinearGroup(Group):
             for member in self.get_generating_mats(self.dimension, self.field.order):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
-                    next_vec = member @ np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
+                    # act on row vectors, for consistency with how SymPy composes permutations
+                    next_vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field) @ member
                     next_index = target_space.index(next_vec.view(np.ndarray).tobytes())
                     perm[index] = next_index
                 generators.append(GroupMember(perm))
@@ -1322,17 +1323,17 @@ class SpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts on a standard basis vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int).view(self.field)
 
             super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
 
-- 
2.43.0


From 5d1fa0c8cc1c27f500d598aded0b7f540b8be1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 23/64] fix: lift products to products in groups with a
 multiplication table

---
 qldpc/abstract.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 119d963..fb57f2f 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -285,7 +285,9 @@ class Group:
         integer_lift: IntegerLift | None = None,
     ) -> Group:
         """Construct a group from a multiplication (Cayley) table."""
-        members = {GroupMember(row): idx for idx, row in enumerate(table)}
+        # Members are represented by how they act on the group from the right, for consistency with how
+        # SymPy composes permutations.
+        members = {GroupMember(col): idx for idx, col in enumerate(np.asarray(table, dtype=int).T)}
 
         if integer_lift is None:
             return Group(*members)
@@ -1233,7 +1235,7 @@ class QuaternionGroup(Group):
                 blocks = [[zero, -unit], [unit, zero]]
             else:  # if base == 3; +/- k
                 blocks = [[zero, -imag], [-imag, zero]]
-            return sign * (np.block(blocks).T % 3).view(galois.GF(3))
+            return sign * (np.block(blocks) % 3).view(galois.GF(3))
 
         group = Group.from_table(table, integer_lift=integer_lift)
         super()._init_from_group(group, name=QuaternionGroup.__name__)
-- 
2.43.0


From 63531282d2cacbf6cd75ade7cdbd388d090c47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 24/64] fix: sample random members of the first SmallGroup of
 each order

---
 qldpc/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index fb57f2f..bed00c1 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1261,7 +1261,7 @@ class SmallGroup(Group):
 
     def random(self, *, seed: int | None = None) -> GroupMember:
         """A random element this group."""
-        return super().random(seed=seed) if self.group_index > 1 else self.identity
+        return super().random(seed=seed) if self.order > 1 else self.identity
 
     @functools.cached_property
     def structure(self) -> str:
-- 
2.43.0


From 0da82950e729a4ad31fe0174290444f75e013c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 25/64] fix: Abelian groups with trivial factors

---
 qldpc/abstract.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index bed00c1..62e9d24 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1133,6 +1133,8 @@ class AbelianGroup(Group):
     initialized with direct_sum=True, the group members get lifted to a direct sum ⨁_i L(g_i)^{a_i}.
     """
 
+    _factor_generators: list[GroupMember]
+
     def __init__(self, *orders: int, direct_sum: bool = False) -> None:
         group = comb.named_groups.AbelianGroup(*orders)
         order_text = ",".join(map(str, orders))
@@ -1154,14 +1156,28 @@ class AbelianGroup(Group):
                 combined_mat = functools.reduce(np.kron, mats)
             return combined_mat
 
+        # Identify one generator per factor.  SymPy drops the (trivial) generators of factors with order
+        # 1, so identify these generators explicitly.
+        self._factor_generators = []
+        for val, factor_order in zip(vals, orders):
+            array_form = list(range(sum(orders)))
+            for shift in range(factor_order):
+                array_form[val + shift] = val + (shift + 1) % factor_order
+            self._factor_generators.append(GroupMember(array_form))
+
         # override the default order in which SymPy iterates over group members
         def generate_func() -> Iterator[comb.Permutation]:
             for powers in itertools.product(*[range(order) for order in orders]):
-                factors = [gen**power for gen, power in zip(group.generators, powers)]
+                factors = [gen**power for gen, power in zip(self._factor_generators, powers)]
                 yield functools.reduce(operator.mul, factors)
 
         super()._init_from_group(group, name, generate_func, lift)
 
+    @property
+    def generators(self) -> Sequence[GroupMember]:
+        """Generators of this group: one for each cyclic factor."""
+        return list(self._factor_generators)
+
 
 class CyclicGroup(AbelianGroup):
     """Cyclic group of a specified order.
@@ -1180,7 +1196,9 @@ class CyclicGroup(AbelianGroup):
         def lift(member: GroupMember) -> npt.NDArray[np.int_]:
             return np.roll(identity_mat, member.apply(0), axis=0)
 
-        super()._init_from_group(comb.named_groups.CyclicGroup(order), lift=lift)
+        group = comb.named_groups.CyclicGroup(order)
+        self._factor_generators = list(map(GroupMember.from_sympy, group.generators))
+        super()._init_from_group(group, lift=lift)
 
 
 class DihedralGroup(Group):
-- 
2.43.0


From a418d71ef4279c171695f5ff8ed9cd6962239a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 26/64] fix: trivial groups contain the identity

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 62e9d24..469adfb 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -192,7 +192,8 @@ class Group:
         return new_group
 
     def __contains__(self, member: GroupMember) -> bool:
-        return member in self._group
+        # SymPy does not recognize the identity as a member of a trivial group
+        return member == self.identity or member in self._group
 
     @property
     def order(self) -> int:
-- 
2.43.0


From 580c9abf8c438c597662a37f65226166e0d4bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 27/64] fix: lift products to products in projective special
 linear groups

---
 qldpc/abstract.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 469adfb..a6bd274 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1437,7 +1437,7 @@ class ProjectiveSpecialLinearGroup(Group):
                 for vec in itertools.product(range(self.field.order), repeat=self.dimension)
             ]
             del target_orbits[0]  # remove the orbit of the zero vector
-            target_space = [next(iter(orbit)) for orbit in set(target_orbits)]
+            target_space = [min(orbit) for orbit in dict.fromkeys(target_orbits)]
 
             # identify how the generators permute elements of the target space
             generators = []
@@ -1445,7 +1445,8 @@ class ProjectiveSpecialLinearGroup(Group):
                 perm = np.empty(len(target_space), dtype=int)
                 for index, vec_bytes in enumerate(target_space):
                     vec = np.frombuffer(vec_bytes, dtype=np.uint8).view(self.field)
-                    next_orbit = [root * member @ vec for root in roots]
+                    # act on row vectors, for consistency with how SymPy composes permutations
+                    next_orbit = [root * vec @ member for root in roots]
                     next_vec = next((vec for vec in next_orbit if vec.tobytes() in target_space))
                     next_index = target_space.index(next_vec.tobytes())
                     perm[index] = next_index
@@ -1455,19 +1456,22 @@ class ProjectiveSpecialLinearGroup(Group):
             def lift(member: GroupMember) -> npt.NDArray[np.int_]:
                 """Lift a group member to a square matrix.
 
-                Each column is determined by how the matrix acts on a standard basis vector.
+                Each row is determined by how the matrix acts on a standard basis vector.
                 """
-                cols = []
+                rows = []
                 for entry in range(self.dimension):
                     inp_vec = np.zeros(self.dimension, dtype=np.uint8)
                     inp_vec[entry] = 1
                     inp_idx = target_space.index(inp_vec.tobytes())
                     out_idx = member(inp_idx)
                     out_vec = np.frombuffer(target_space[out_idx], dtype=np.uint8)
-                    cols.append(out_vec)
-                return np.vstack(cols, dtype=int).T
+                    rows.append(out_vec)
+                return np.vstack(rows, dtype=int).view(self.field)
 
-            super()._init_from_group(comb.PermutationGroup(generators), lift=lift)
+            # If SL has a nontrivial center, then members of PSL are not represented by d×d matrices,
+            # so default to the regular representation of PSL.
+            group = comb.PermutationGroup(generators)
+            super()._init_from_group(group, lift=lift if num_roots == 1 else None)
 
         else:
             # represent group members by how they permute elements of the group itself
-- 
2.43.0


From 03cf2bbc0ab059a2c4dd6c99435ee5cf2dfde138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 28/64] fix: iterate over members of PSL as square matrices

---
 qldpc/abstract.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index a6bd274..353abc0 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1515,8 +1515,9 @@ class ProjectiveSpecialLinearGroup(Group):
             frozenset([(root * mat).tobytes() for root in roots])
             for mat in SpecialLinearGroup.iter_mats(dimension, field)
         ]
-        for orbit in set(orbits):
-            yield np.frombuffer(next(iter(orbit)), dtype=np.uint8).view(base_field)
+        for orbit in dict.fromkeys(orbits):
+            entries = np.frombuffer(min(orbit), dtype=np.uint8)
+            yield entries.reshape(dimension, dimension).view(base_field)
 
 
 SL = SpecialLinearGroup
-- 
2.43.0


From 8cce73e0abb5c39b6b53a3f8dd8315e2064803b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 29/64] fix: subtract group members from members of a group
 algebra

---
 qldpc/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 353abc0..8ec1297 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -583,6 +583,8 @@ class RingMember:
         return NotImplemented  # pragma: no cover
 
     def __sub__(self, other: RingMember | GroupMember | int) -> RingMember:
+        if isinstance(other, GroupMember):
+            return self + RingMember(self.ring, (-self.field(1), other))
         return self + (-1) * other
 
     def __radd__(self, other: GroupMember) -> RingMember:
-- 
2.43.0


From 99f29ff8a369b0d400e1cf0113e84b030ac09006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 30/64] fix: negative powers of members of a group algebra

---
 qldpc/abstract.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 8ec1297..a0b2a38 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -630,6 +630,10 @@ class RingMember:
         return self * (-1)
 
     def __pow__(self, power: int) -> RingMember:
+        if power < 0:
+            if (inverse := self.inverse()) is None:
+                raise ValueError("Cannot take a negative power of a non-invertible ring member")
+            return inverse**-power
         return functools.reduce(operator.mul, [self] * power, self.ring.one)
 
     def copy(self) -> RingMember:
-- 
2.43.0


From 8c219a49dad2e5693eda31b312f52c915ccc7461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 31/64] fix: convert matrices over extension fields into arrays
 over the trivial group

---
 qldpc/abstract.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index a0b2a38..7606a81 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1124,12 +1124,12 @@ class TrivialGroup(Group):
         field = type(data).order if isinstance(data, galois.FieldArray) else None
         group = TrivialGroup()
         ring = GroupRing(group, field)
-        zero = ring.zero
-        one = ring.one
 
         array = np.asarray(data, dtype=int)
-        terms = [val * one if val else zero for val in array.ravel()]
-        return RingArray(np.array(terms, dtype=object).reshape(array.shape))
+        terms = [
+            RingMember(ring, (int(val) % ring.field.order, group.identity)) for val in array.ravel()
+        ]
+        return RingArray(np.array(terms, dtype=object).reshape(array.shape), ring)
 
 
 class AbelianGroup(Group):
-- 
2.43.0


From ac7239a8afe2ba349ae931c427b411cf25a2fea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 32/64] fix: combine arrays over equal rings that were built
 independently

---
 qldpc/abstract.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 7606a81..ed30a47 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -772,14 +772,13 @@ class RingArray(npt.NDArray[np.object_]):
         kwargs: Mapping[str, typing.Any],
     ) -> RingArray | None:
         """Intercept array operations to ensure RingArray compatibility."""
-        rings = {self._ring} | {x._ring for x in args if isinstance(x, RingArray)}
-        if len(rings) > 1:
+        if any(x._ring != self._ring for x in args if isinstance(x, RingArray)):
             raise ValueError("Cannot perform operations on RingArrays with different base rings")
         args = tuple(x.view(np.ndarray) if isinstance(x, RingArray) else x for x in args)
         result = super().__array_function__(func, types, args, kwargs)
         if isinstance(result, np.ndarray):
             result = result.view(RingArray)
-            setattr(result, "_ring", next(iter(rings), None))
+            setattr(result, "_ring", self._ring)
         return result
 
     def __array_ufunc__(
@@ -790,14 +789,13 @@ class RingArray(npt.NDArray[np.object_]):
         **kwargs: object,
     ) -> RingArray | None:
         """Intercept array operations to ensure RingArray compatibility."""
-        rings = {self._ring} | {x._ring for x in inputs if isinstance(x, RingArray)}
-        if len(rings) > 1:
+        if any(x._ring != self._ring for x in inputs if isinstance(x, RingArray)):
             raise ValueError("Cannot perform operations on RingArrays with different base rings")
         inputs = tuple(x.view(np.ndarray) if isinstance(x, RingArray) else x for x in inputs)
         result = super().__array_ufunc__(ufunc, method, *inputs, **kwargs)
         if isinstance(result, np.ndarray):
             result = result.view(RingArray)
-            setattr(result, "_ring", next(iter(rings), None))
+            setattr(result, "_ring", self._ring)
         return result
 
     @property
-- 
2.43.0


From 7674575d6f2ad7a3c8a95f32c04fb0493a51061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 33/64] fix: null space of ring-valued matrices with no null
 vectors

---
 qldpc/abstract.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index ed30a47..57c0b44 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -874,7 +874,7 @@ class RingArray(npt.NDArray[np.object_]):
         group = ring.group if isinstance(ring, GroupRing) else ring
         assert array.shape[-1] == group.order
         vals = [RingMember.from_vector(ring, entry) for entry in array.reshape(-1, group.order)]
-        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]))
+        return RingArray(np.array(vals, dtype=object).reshape(array.shape[:-1]), ring)
 
     def to_field_array(self) -> galois.FieldArray:
         """Convert a RingArray into an array of coefficients (in a finite field) for each entry.
@@ -882,7 +882,8 @@ class RingArray(npt.NDArray[np.object_]):
         This method is the inverse of RingArray.from_field_array.
         """
         vals = [val.to_vector() for val in self.ravel()]
-        return np.asarray(vals).reshape(self.shape + (self.group.order,)).view(self.field)
+        array = np.asarray(vals, dtype=int).reshape(self.shape + (self.group.order,))
+        return array.view(self.field)
 
     @classmethod
     def from_field_vector(cls, ring: GroupRing | Group, vector: npt.NDArray[np.int_]) -> RingArray:
@@ -913,7 +914,7 @@ class RingArray(npt.NDArray[np.object_]):
         # collect ring-valued null row vectors (that is, transposed null column vectors)
         null_vectors = ~RingArray.from_field_array(
             self.ring,
-            null_field_vectors.reshape(len(null_field_vectors), -1, self.group.order),
+            null_field_vectors.reshape(len(null_field_vectors), self.shape[1], self.group.order),
         )
 
         return null_vectors.row_reduce(force_heuristic=force_heuristic)
-- 
2.43.0


From 64c8bd76bd7b18e43a4d5b50a11a1c191c1ff43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 34/64] fix: preserve the row space in row reduction over
 non-Abelian group algebras

---
 qldpc/abstract.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 57c0b44..ac8a57f 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -1064,12 +1064,13 @@ class RingArray(npt.NDArray[np.object_]):
             self.ring, field_vectors.reshape(len(field_vectors), -1, self.group.order)
         )
 
-        """
-        Invert (transpose the entries of the matrix to make them right-acting (that is, to
-        transform coefficients that are to the left of each row vector), and lift to a matrix over
-        the field.
-        """
-        field_matrix = (~ring_matrix).view(RingArray).regular_lift()
+        # collect all left-multiples of each row by a group member, as row vectors over the field
+        left_multiples = np.array(
+            [[gg * val for val in row] for row in ring_matrix for gg in self.group.generate()],
+            dtype=object,
+        ).reshape(-1, self.shape[1])
+        field_matrix = RingArray(left_multiples, self.ring).to_field_array()
+        field_matrix = field_matrix.reshape(len(left_multiples), -1).view(self.field)
 
         # throw out rows that can be expressed as ring-linear combinations of other rows
         rows_to_keep = np.ones((len(ring_matrix), self.group.order), dtype=bool)
-- 
2.43.0


From 6b55deac8391f6238d1881f5ca1eeeb4ff9b6cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 35/64] fix: keep row-reducing ring-valued matrices until no
 entry can be used as a pivot

---
 qldpc/abstract.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index ac8a57f..fd6ddab 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -976,7 +976,7 @@ class RingArray(npt.NDArray[np.object_]):
 
         return np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
 
-    def _reduce_rows_with_invertible_entries(self, *, restart_call: bool = False) -> RingArray:
+    def _reduce_rows_with_invertible_entries(self) -> RingArray:
         """Row-reduce greedily using invertible entries.
 
         Loop over every row.  If that row contains an invertible entry, normalize the row by this
@@ -984,15 +984,16 @@ class RingArray(npt.NDArray[np.object_]):
         an appropriate multiple of this row (as you would with ordinary Gaussian elimination).
         """
         assert self.ndim == 2
-        rows: slice | list[int]
-
-        matrix = self if restart_call else self.copy()
+        matrix = self.copy()
         num_rows, num_cols = self.shape
 
-        row_reductions_made = False  # did we perform row reductions?
+        row_reductions_made = False  # did we perform row reductions since the last pass?
+        remaining_rows = collections.deque(range(num_rows))  # rows that have not been normalized
         noninvertible_rows = []  # which rows have only non-invertible entries?
-        for row in range(num_rows):
+        while remaining_rows:
+            row = remaining_rows.popleft()
             row_vector = matrix[row]
+            inverse = None
 
             # look for an invertible entry in this row
             for col, entry in enumerate(row_vector):
@@ -1015,10 +1016,11 @@ class RingArray(npt.NDArray[np.object_]):
             else:
                 noninvertible_rows.append(row)
 
-        if row_reductions_made and noninvertible_rows:
-            # some non-invertible entries may have become invertible, so try row-reducing again
-            rows = [row for row in noninvertible_rows if np.any(matrix[row])]
-            matrix[rows].view(RingArray)._reduce_rows_with_invertible_entries(restart_call=True)
+            if not remaining_rows and row_reductions_made:
+                # some non-invertible entries may have become invertible, so try row-reducing again
+                remaining_rows.extend(noninvertible_rows)
+                noninvertible_rows = []
+                row_reductions_made = False
 
         return matrix
 
-- 
2.43.0


From c2db0e2c0ab3e0508b5914b748463021b250a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 36/64] fix: rows of row-reduced ring-valued matrices are
 independent, and have no leftover pivots

---
 qldpc/abstract.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index fd6ddab..193fdff 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -964,17 +964,21 @@ class RingArray(npt.NDArray[np.object_]):
         Warning: this method is unoptimized.  There is a lot of room for speeding things up.
         """
 
-        # greedily convert invertible entries into "pivots" that are uniquely nonzero in some column
-        matrix = self._reduce_rows_with_invertible_entries()
+        matrix = self
+        while True:
+            # greedily convert invertible entries into "pivots" that are uniquely nonzero in a column
+            matrix = matrix._reduce_rows_with_invertible_entries()
 
-        # split matrix into rows with pivots, and all other rows
-        pivot_matrix, non_pivot_matrix = matrix._split_by_pivots()
+            # split matrix into rows with (invertible) pivots, and all other rows
+            pivot_matrix, non_pivot_matrix = matrix._split_by_pivots(allow_non_units=False)
 
-        if non_pivot_matrix.size:
-            # identify a minimal basis for the span of the non-pivot rows
-            non_pivot_matrix = non_pivot_matrix._remove_linearly_dependent_rows()
+            if non_pivot_matrix.size:
+                # identify a minimal basis for the span of the non-pivot rows
+                non_pivot_matrix = non_pivot_matrix._remove_linearly_dependent_rows()
 
-        return np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
+            matrix = np.vstack([pivot_matrix, non_pivot_matrix]).view(RingArray)
+            if not any(entry.inverse() for entry in non_pivot_matrix.ravel()):
+                return matrix
 
     def _reduce_rows_with_invertible_entries(self) -> RingArray:
         """Row-reduce greedily using invertible entries.
@@ -1036,7 +1040,7 @@ class RingArray(npt.NDArray[np.object_]):
         pivot_cols = np.sum(self_as_bool, axis=0) == 1
         for col in np.argwhere(pivot_cols):
             row = np.argwhere(self_as_bool[:, col])[0][0]
-            pivot_rows[row] = allow_non_units or self[row, col][0].inverse()
+            pivot_rows[row] |= allow_non_units or bool(self[row, col][0].inverse())
         pivot_matrix = self[pivot_rows].view(RingArray)
         non_pivot_matrix = self[~pivot_rows].view(RingArray)
         return pivot_matrix, non_pivot_matrix[np.any(non_pivot_matrix, axis=1)]
-- 
2.43.0


From 3e11cf2df7324d37d09bb175d909d4fda9665800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 37/64] fix: invert members of a group algebra if the identity
 is not the first group member

---
 qldpc/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index 193fdff..bb5aaa1 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -696,7 +696,8 @@ class RingMember:
         try:
             matrix = self.regular_lift()
             matrix_inv = np.linalg.inv(matrix).view(self.field)
-            return RingMember.from_vector(self.ring, matrix_inv[:, 0])
+            identity_index = self.group.index(self.group.identity)
+            return RingMember.from_vector(self.ring, matrix_inv[:, identity_index])
         except np.linalg.LinAlgError:
             return None
 
-- 
2.43.0


From 33c6bad966217dbffba70089ba2d4ead2579cec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 38/64] fix: tensor products of chain complexes over a group
 algebra have RingMember-valued entries

---
 qldpc/objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index b6997bb..95e81b2 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -517,7 +517,10 @@ class ChainComplex:
             col_deg_a, col_deg_b = col_degs
             rows = chain_a.dim(row_deg_a) * chain_b.dim(row_deg_b)
             cols = chain_a.dim(col_deg_a) * chain_b.dim(col_deg_b)
-            return chain_field.Zeros((rows, cols))
+            zeros = chain_field.Zeros((rows, cols))
+            if isinstance(op := chain_a.ops[0], abstract.RingArray):
+                return abstract.RingArray.build(zeros.view(np.ndarray), op.ring)
+            return zeros
 
         ops = []
         for degree in range(1, chain_a.num_links + chain_b.num_links + 1):
-- 
2.43.0


From 2c4661b3e0ac1991c3825a6250b865c98805e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:45 +0000
Subject: [PATCH 39/64] fix: refuse tensor products over a group algebra that
 are not chain complexes

---
 qldpc/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/objects.py b/qldpc/objects.py
index 95e81b2..a23f248 100644
--- a/qldpc/objects.py
+++ b/qldpc/objects.py
@@ -551,4 +551,6 @@ class ChainComplex:
             ops = [op.view(chain_field) for op in ops]
         else:
             ops = [op.view(abstract.RingArray) for op in ops]
-        return ChainComplex(*ops, skip_validation=True)
+
+        # over a non-Abelian group algebra, the boundary operators may fail to compose to zero
+        return ChainComplex(*ops, skip_validation=chain_a.group is None)
-- 
2.43.0


From 8ea6e1711ac189314a06656fdbf84a184c55972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 40/64] fix: the check of a one-bit ring code is trivial

---
 qldpc/codes/classical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 95a1890..052b6ce 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -51,8 +51,8 @@ class RingCode(ClassicalCode):
         self._field = galois.GF(field or DEFAULT_FIELD_ORDER)
         self._matrix = self.field.Zeros((bits, bits))
         for row in range(bits):
-            self._matrix[row, row] = 1
-            self._matrix[row, (row + 1) % bits] = -self.field(1)
+            self._matrix[row, row] += self.field(1)
+            self._matrix[row, (row + 1) % bits] -= self.field(1)
 
         self._dimension = 1
         self._distance = bits
-- 
2.43.0


From 070609276e17ae7abdf6c4e308387e9a9fddbad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 41/64] fix: subsystem product codes whose checks all commute
 are stabilizer codes

---
 qldpc/codes/quantum.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 5d837e8..faf8294 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -916,7 +916,6 @@ class SHPCode(CSSCode):
             matrix_x.view(np.ndarray).astype(int),
             matrix_z.view(np.ndarray).astype(int),
             code_field.order,
-            is_subsystem_code=True,
         )
 
         stab_ops_x = np.kron(code_x.matrix, code_z.generator)
@@ -1067,7 +1066,7 @@ class SLPCode(CSSCode):
         assert isinstance(matrix_x, abstract.RingArray)
         assert isinstance(matrix_z, abstract.RingArray)
 
-        CSSCode.__init__(self, matrix_x.lift(), matrix_z.lift(), field, is_subsystem_code=True)
+        CSSCode.__init__(self, matrix_x.lift(), matrix_z.lift(), field)
 
 
 ################################################################################
-- 
2.43.0


From b95b2f500e13ff3f323314f7cc9bfa68d8e0b899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 42/64] fix: rotated surface codes with a side of length one

---
 qldpc/codes/quantum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index faf8294..a8c0636 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1421,7 +1421,10 @@ class SurfaceCode(CSSCode):
                     # no Z-type parity checks on the left/right boundaries
                     checks_z.append(check)
 
-        return np.array(checks_x), np.array(checks_z)
+        return (
+            np.array(checks_x, dtype=int).reshape(-1, rows * cols),
+            np.array(checks_z, dtype=int).reshape(-1, rows * cols),
+        )
 
 
 class ToricCode(CSSCode):
-- 
2.43.0


From 7b76597e4dce52565149b18408e9ee7a2e259b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 43/64] fix: keep isolated nodes in hypergraph products of
 Tanner graphs

---
 qldpc/codes/quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index a8c0636..a9d09f0 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -765,6 +765,7 @@ class HGPCode(CSSCode):
 
         # fix edge orientation, and tag each edge with a QuditOperator
         graph = nx.DiGraph()
+        graph.add_nodes_from(graph_product)
         for node_fst, node_snd, data in graph_product.edges(data=True):
             # identify the sectors of two nodes
             sector_fst = HGPCode.get_sector(*node_fst)
-- 
2.43.0


From 37274c779df2fa5733531312a71aca8c27745c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 44/64] fix: Reed-Muller codes of order zero

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index 052b6ce..ae7c0bc 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -163,7 +163,7 @@ class ReedMullerCode(ClassicalCode):
         ReedMullerCode._assert_valid_params(order, size)
 
         if order == 0:
-            return np.ones(2**size, dtype=int)
+            return np.ones((1, 2**size), dtype=int)
         if order == size:
             return np.identity(2**size, dtype=int)
 
-- 
2.43.0


From 1abe4baa847f62e9c2664fedf47033171648201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:24 +0000
Subject: [PATCH 45/64] fix: accept the block lengths of BCH codes over fields
 of order above ten

---
 qldpc/codes/classical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/classical.py b/qldpc/codes/classical.py
index ae7c0bc..5ce3855 100644
--- a/qldpc/codes/classical.py
+++ b/qldpc/codes/classical.py
@@ -128,7 +128,7 @@ class BCHCode(ClassicalCode):
     def __init__(self, length: int, dimension: int, field: int | None = None) -> None:
         field = field or DEFAULT_FIELD_ORDER
         length_in_base = np.base_repr(length, base=field)
-        if not length_in_base == str(field - 1) * len(length_in_base):
+        if not length_in_base == np.base_repr(field - 1, base=field) * len(length_in_base):
             raise ValueError(
                 f"BCH codes over F_{field} are only defined for block lengths {field}^m - 1 with"
                 " integer m."
-- 
2.43.0


From e172f0da7a38665611b3e068d2c92a7aa7053fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 46/64] fix: two-block codes keep the field of their matrices

---
 qldpc/codes/quantum.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index a9d09f0..502e31e 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -151,8 +151,9 @@ class TBCode(CSSCode):
         validate: bool = True,
     ) -> None:
         """Construct a two-block quantum code."""
-        matrix_a = ClassicalCode(matrix_a, field).matrix
-        matrix_b = ClassicalCode(matrix_b, field).matrix
+        code_a = ClassicalCode(matrix_a, field)
+        code_b = ClassicalCode(matrix_b, field)
+        matrix_a, matrix_b = code_a.matrix, code_b.matrix
         if validate and not np.array_equal(matrix_a @ matrix_b, matrix_b @ matrix_a):
             raise ValueError("The matrices provided for this TBCode are incompatible")
 
@@ -162,7 +163,7 @@ class TBCode(CSSCode):
             self,
             matrix_x,
             matrix_z,
-            field,
+            code_a.field.order,
             promise_equal_distance_xz=promise_equal_distance_xz,
             is_subsystem_code=False,
         )
-- 
2.43.0


From 94fbd362d5ef32fccd062df7270ca5395a35dfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 47/64] fix: quasi-cyclic codes with several unused cyclic
 groups

---
 qldpc/codes/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 502e31e..d05e5db 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -226,7 +226,7 @@ class QCCode(TBCode):
 
         # add more placeholder symbols if necessary
         while len(symbol_to_order) < len(orders):
-            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbols)))
+            unique_symbol = sympy.Symbol("~" + "".join(map(str, symbol_to_order)))
             symbol_to_order[unique_symbol] = orders[len(symbol_to_order)]
 
         self.symbols = tuple(symbol_to_order.keys())
-- 
2.43.0


From 405369099864c764f64d1274f65de8f9de7aff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 48/64] fix: canonical form of polynomials with coefficients or
 with only one term

---
 qldpc/codes/quantum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index d05e5db..1b4bc9d 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -304,15 +304,15 @@ class QCCode(TBCode):
 
         # canonialize and add one term ata time
         new_poly = sympy.core.numbers.Zero()
-        for term in poly.args:
+        for term in sympy.Add.make_args(poly.as_expr().expand()):
             coeff, exponents = self.get_coefficient_and_exponents(term)
 
-            new_term = sympy.core.numbers.One()
+            new_term = sympy.Integer(coeff)
             for symbol, order in zip(self.symbols, orders):
                 new_exponent = exponents.get(symbol, 0) % order
                 if new_exponent > order / 2:
                     new_exponent -= order
-                new_term *= coeff * symbol**new_exponent
+                new_term *= symbol**new_exponent
 
             new_poly += new_term
 
-- 
2.43.0


From c900ec50b6016f3a53e2c1c0bd5716f467a929a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 49/64] fix: bivariate bicycle codes with a monomial have no
 toric layout

---
 qldpc/codes/quantum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 1b4bc9d..955dfcb 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -494,8 +494,12 @@ class BBCode(QCCode):
             return []
 
         # identify individual monomials (terms without their coefficients) in the polynomials
-        monomials_a = [term.as_coeff_Mul()[1] for term in self.poly_a.as_expr().args]
-        monomials_b = [term.as_coeff_Mul()[1] for term in self.poly_b.as_expr().args]
+        monomials_a = [
+            term.as_coeff_Mul()[1] for term in sympy.Add.make_args(self.poly_a.as_expr())
+        ]
+        monomials_b = [
+            term.as_coeff_Mul()[1] for term in sympy.Add.make_args(self.poly_b.as_expr())
+        ]
 
         # identify collections of monomials that can be combined to obtain a toric layout
         toric_params = []
-- 
2.43.0


From be0abe1078b2c54220b7b9cb80a83b7e5b04dfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 50/64] fix: lifted products whose checks do not commute are
 subsystem codes

---
 qldpc/codes/quantum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 955dfcb..4691488 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1018,7 +1018,8 @@ class LPCode(CSSCode):
         # if Hadamard-transforming qudits, conjugate those in the (1, 1) sector by default
         self._default_conjugate = slice(self.sector_size[0, 0], None)
 
-        CSSCode.__init__(self, matrix_x.lift(), matrix_z.lift(), field, is_subsystem_code=False)
+        # X-type and Z-type parity checks might not commute if the base group is non-Abelian
+        CSSCode.__init__(self, matrix_x.lift(), matrix_z.lift(), field)
 
 
 class SLPCode(CSSCode):
-- 
2.43.0


From ff46acda9bc67df6e7dd5fdffa8fd3b26b042768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 51/64] fix: compare the defining data of quantum Tanner codes

---
 qldpc/codes/quantum.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index 4691488..be0e7d3 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1151,11 +1151,11 @@ class QTCode(CSSCode):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, QTCode)
-            and other.code_a == other.code_a
-            and other.code_b == other.code_b
-            and other.complex.subset_a == other.complex.subset_a
-            and other.complex.subset_b == other.complex.subset_b
-            and other.complex.bipartite == other.complex.bipartite
+            and self.code_a == other.code_a
+            and self.code_b == other.code_b
+            and self.complex.subset_a == other.complex.subset_a
+            and self.complex.subset_b == other.complex.subset_b
+            and self.complex.bipartite == other.complex.bipartite
         )
 
     @staticmethod
-- 
2.43.0


From 427d91e8903ec0ed4eae429687d07ea638e0a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 52/64] fix: order the qudits of a quantum Tanner code
 reproducibly

---
 qldpc/codes/quantum.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index be0e7d3..b89a7ac 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1192,15 +1192,17 @@ class QTCode(CSSCode):
         then requires that edge (ag, f(g,a,b)) has label (a^-1, b), as verified by defining g' = ag
         and checking that f(g,a,b) = f(g',a^-1,b).
         """
-        subset_a = cayplex.cover_subset_a
-        subset_b = cayplex.cover_subset_b
+        # sort subsets to ensure that nodes and faces are always added in the same order
+        subset_a = sorted(cayplex.cover_subset_a)
+        subset_b = sorted(cayplex.cover_subset_b)
 
         # identify the identity element
         member = next(iter(subset_a))
         identity = member * ~member
 
-        # identify the set of nodes for which we still need to add faces
-        nodes_to_add = set([identity])
+        # identify the nodes for which we still need to add faces
+        nodes_to_add = [identity]
+        old_nodes = set(nodes_to_add)
 
         # build the subgraphs one node at a time
         subgraph_x = nx.DiGraph()
@@ -1208,10 +1210,6 @@ class QTCode(CSSCode):
         while nodes_to_add:
             gg = nodes_to_add.pop()
 
-            # identify nodes we have already covered, and new nodes we may need to cover
-            old_nodes = set(subgraph_x.nodes())
-            new_nodes = set()
-
             # add all faces adjacent to this node
             for aa, bb in itertools.product(subset_a, subset_b):
                 aa_gg, gg_bb = aa * gg, gg * bb
@@ -1220,9 +1218,9 @@ class QTCode(CSSCode):
                 subgraph_x.add_edge(gg, face, sort=(aa, bb))
                 subgraph_z.add_edge(aa_gg, face, sort=(~aa, bb))
 
-                new_nodes.add(aa_gg_bb)
-
-            nodes_to_add |= new_nodes - old_nodes
+                if aa_gg_bb not in old_nodes:
+                    nodes_to_add.append(aa_gg_bb)
+                    old_nodes.add(aa_gg_bb)
 
         return subgraph_x, subgraph_z
 
-- 
2.43.0


From ca9274a7e8e5f8a333cf00ddd75ce4975b15fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:49 +0000
Subject: [PATCH 53/64] fix: load quantum Tanner codes whose seed codes have no
 parity checks

---
 qldpc/codes/quantum.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/qldpc/codes/quantum.py b/qldpc/codes/quantum.py
index b89a7ac..1aa2d6b 100644
--- a/qldpc/codes/quantum.py
+++ b/qldpc/codes/quantum.py
@@ -1290,21 +1290,19 @@ class QTCode(CSSCode):
         field = ast.literal_eval(lines[-2].split(":")[-1])
         bipartite = ast.literal_eval(lines[-1].split(":")[-1])
 
-        # load integer arrays separated by comments
-        arrays = []
-        last_index = 0
-        for index, line in enumerate(lines):
-            if line.startswith("#"):
-                if index > last_index + 1:
-                    array = np.genfromtxt(lines[last_index + 1 : index], dtype=int, ndmin=2)
-                    arrays.append(array)
-                last_index = index
+        def load_rows(label: str) -> list[list[int]]:
+            """Load the (possibly empty) integer array that follows a comment with the given label."""
+            start = len(lines) - lines[::-1].index(f"# {label}:")
+            rows = itertools.takewhile(lambda line: not line.startswith("#"), lines[start:])
+            return [[int(val) for val in row.split()] for row in rows]
 
         # construct subsets and generating codes
-        subset_a = set(abstract.GroupMember(gen) for gen in arrays[0])
-        subset_b = set(abstract.GroupMember(gen) for gen in arrays[1])
-        code_a = ClassicalCode(arrays[2], field)
-        code_b = ClassicalCode(arrays[3], field)
+        subset_a = set(abstract.GroupMember(gen) for gen in load_rows("subset_a"))
+        subset_b = set(abstract.GroupMember(gen) for gen in load_rows("subset_b"))
+        matrix_a = np.array(load_rows("code_a.matrix"), dtype=int).reshape(-1, len(subset_a))
+        matrix_b = np.array(load_rows("code_b.matrix"), dtype=int).reshape(-1, len(subset_b))
+        code_a = ClassicalCode(matrix_a, field)
+        code_b = ClassicalCode(matrix_b, field)
         return QTCode(subset_a, subset_b, code_a, code_b, bipartite=bipartite)
 
 
-- 
2.43.0


From 8b379947e680465bfc9288055fb503480702e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 54/64] fix: deform codes by circuits that preserve their
 logical operators

---
 qldpc/circuits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 598a373..3809376 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -205,7 +205,7 @@ def get_transversal_automorphism_group(
     deformations for which the logical Pauli group of the original QuditCode is a valid choice of
     logical Pauli group for the deformed QuditCode.
     """
-    parity_checks = code.matrix if not deform_code else symplectic_conjugate(code.get_logical_ops())
+    parity_checks = code.matrix if not deform_code else code.get_logical_ops()
     matrix_x = parity_checks.reshape(-1, 2, len(code))[:, 0, :]
     matrix_z = parity_checks.reshape(-1, 2, len(code))[:, 1, :]
     if not local_gates or local_gates == {"H"}:
-- 
2.43.0


From c914893e80c43d0489149011c647acaa3b22c3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 55/64] fix: intersect groups that permute the same number of
 bits

---
 qldpc/circuits.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index 3809376..f3890dc 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -19,7 +19,7 @@ from __future__ import annotations
 
 import collections
 import functools
-from collections.abc import Callable, Collection, Sequence
+from collections.abc import Callable, Collection, Iterable, Sequence
 
 import numpy as np
 import stim
@@ -223,7 +223,8 @@ def get_transversal_automorphism_group(
 
     # compute the automorphism group of an instrumental classical code
     instrumental_code = codes.ClassicalCode(matrix)
-    group_code = instrumental_code.get_automorphism_group()
+    num_bits = len(instrumental_code)
+    group_code = _get_padded_group(instrumental_code.get_automorphism_group().generators, num_bits)
 
     # identify the group of instrumental code transformations generated by the gate set
     num_sectors = len(instrumental_code) // len(code)
@@ -241,11 +242,17 @@ def get_transversal_automorphism_group(
             for ss in range(num_sectors - 1)
             for qq in range(len(code))
         ]
-    group_gates = abstract.Group(*map(abstract.GroupMember, column_perms))
+    group_gates = _get_padded_group(map(abstract.GroupMember, column_perms), num_bits)
 
     # intersect the groups above to find the group generated by a transversal gate set
     group_aut_gens = _sympy_group_intersection_generators(group_code, group_gates)
-    return abstract.Group(*map(abstract.GroupMember, group_aut_gens))
+    return _get_padded_group(map(abstract.GroupMember, group_aut_gens), num_bits)
+
+
+def _get_padded_group(generators: Iterable[abstract.GroupMember], degree: int) -> abstract.Group:
+    """Construct a group whose members permute (and possibly fix) the given number of objects."""
+    padded_generators = [abstract.GroupMember(gen, size=degree) for gen in generators]
+    return abstract.Group(*padded_generators or [abstract.GroupMember(range(degree))])
 
 
 @cache.use_disk_cache(
-- 
2.43.0


From 9d28fc65af14c9f829ea592fa48139725c959834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 56/64] fix: distinguish keyword arguments from positional
 arguments in cache keys

---
 qldpc/cache.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/cache.py b/qldpc/cache.py
index d4f217d..a39ad2c 100644
--- a/qldpc/cache.py
+++ b/qldpc/cache.py
@@ -36,6 +36,10 @@ def get_disk_cache(cache_name: str, *, cache_dir: str | None = None) -> diskcach
     return diskcache.Cache(cache_path)
 
 
+class _KeywordArguments:
+    """Marker to distinguish keyword arguments from positional arguments in a cache key."""
+
+
 def use_disk_cache(
     cache_name: str,
     *,
@@ -55,7 +59,7 @@ def use_disk_cache(
             if key_func is not None:
                 key = key_func(*args, **kwargs)
             else:
-                key = args + tuple(kwargs.items())
+                key = args + ((_KeywordArguments, *sorted(kwargs.items())),) if kwargs else args
             if key in cache:
                 return cache[key]
 
-- 
2.43.0


From 14bacec7732852b704ec17a11291e2d992b05c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 57/64] fix: look up cached results in one step

---
 qldpc/cache.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qldpc/cache.py b/qldpc/cache.py
index a39ad2c..846f834 100644
--- a/qldpc/cache.py
+++ b/qldpc/cache.py
@@ -36,6 +36,9 @@ def get_disk_cache(cache_name: str, *, cache_dir: str | None = None) -> diskcach
     return diskcache.Cache(cache_path)
 
 
+_MISSING = object()  # placeholder for results that are not in the cache
+
+
 class _KeywordArguments:
     """Marker to distinguish keyword arguments from positional arguments in a cache key."""
 
@@ -60,8 +63,9 @@ def use_disk_cache(
                 key = key_func(*args, **kwargs)
             else:
                 key = args + ((_KeywordArguments, *sorted(kwargs.items())),) if kwargs else args
-            if key in cache:
-                return cache[key]
+            result = cache.get(key, _MISSING)
+            if result is not _MISSING:
+                return result
 
             # compute results and save to cache
             result = function(*args, **kwargs)
-- 
2.43.0


From b5bda881a9e97cb7ab1ae39dcbf1773d191b1412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 58/64] fix: embed subfield coefficients of primitive central
 idempotents

---
 qldpc/external/groups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 6185b9f..525473d 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -271,13 +271,14 @@ def get_primitive_central_idempotents(
         for ring_term_match in re_ring_term.finditer(ring_member_match.group()):
             coefficient_string, cycles_string = ring_term_match.group().split("*")
 
-            # convert "Z(p^k)^m" into galois.GF(field)(galois.GF(p**k).primitive_element ** m)
+            # convert "Z(p^k)^m", in the subfield of order p^k, into an element of galois.GF(field)
             coefficient_match = re_coefficient_components.match(coefficient_string)
             assert coefficient_match is not None
             pp = int(coefficient_match.group(1))
             kk = int(coefficient_match.group(2) or 1)
             mm = int(coefficient_match.group(3) or 1)
-            coefficient = galois.GF(field)(galois.GF(pp**kk).primitive_element ** mm)
+            subfield_index = (field - 1) // (pp**kk - 1)
+            coefficient = galois.GF(field).primitive_element ** (subfield_index * mm)
 
             # extract and 0-index cycles
             cycles = tuple(
-- 
2.43.0


From 3e8facab6fb0bb695386ecc70c97bc73503a1c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 59/64] fix: only look up exact names of small groups on
 GroupNames.org

---
 qldpc/external/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qldpc/external/groups.py b/qldpc/external/groups.py
index 525473d..73a7209 100644
--- a/qldpc/external/groups.py
+++ b/qldpc/external/groups.py
@@ -140,7 +140,7 @@ def get_generators_from_groupnames(group: str) -> GENERATORS_LIST | None:
     """Retrieve GAP group generators from GroupNames.org."""
 
     # extract order and index of a SmallGroup
-    match = re.match(r"SmallGroup\(([0-9]+),([0-9]+)\)", group)
+    match = re.fullmatch(r"SmallGroup\(([0-9]+),([0-9]+)\)", group)
     if match:
         order, index = map(int, match.groups())
     else:
-- 
2.43.0


From 6bb59163bc9c4981a6c32ced9b7f1a8290e9882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 60/64] fix: allow a maximum error rate of zero when estimating
 logical error rates

---
 qldpc/codes/common.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index 56f9dc8..c13353d 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -2527,6 +2527,10 @@ def _get_sample_allocation(
     This method returns an array whose k-th entry is the number of samples to devote to errors of
     weight k, given a maximum error rate that we care about.
     """
+    if max_error_rate == 0:
+        # there are no errors to sample
+        return np.zeros(1, dtype=int)
+
     probs = _get_error_probs_by_weight(block_length, max_error_rate)
 
     # zero out the distribution at k=0, flatten it out to the left of its peak, and renormalize
@@ -2555,7 +2559,7 @@ def _get_error_probs_by_weight(
     We compute the above probability using logarithms because otherwise the combinatorial factor
     (n choose k) might be too large to handle.
     """
-    max_weight = max_weight or block_length
+    max_weight = max_weight if max_weight is not None else block_length
 
     # deal with some pathological cases
     if error_rate == 0:
-- 
2.43.0


From 5e2823ab652de911545a50ec9b70a36c22615040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 61/64] fix: draw random members of all trivial groups

---
 qldpc/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/abstract.py b/qldpc/abstract.py
index bb5aaa1..74c4ce8 100644
--- a/qldpc/abstract.py
+++ b/qldpc/abstract.py
@@ -251,6 +251,8 @@ class Group:
 
     def random(self, *, seed: int | None = None) -> GroupMember:
         """A random element this group."""
+        if self.order == 1:
+            return self.identity  # sympy fails to draw a random member of a trivial group
         if seed is not None:
             sympy.core.random.seed(seed)
         return GroupMember.from_sympy(self._group.random())
-- 
2.43.0


From 49e63cc07d2f489718dfb2090bcadbe3e016b819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:11 +0000
Subject: [PATCH 62/64] fix: canonicalized stabilizers of one type

---
 qldpc/codes/common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index c13353d..e185eb7 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1243,7 +1243,9 @@ class QuditCode(AbstractCode):
 
         # if requested, retrieve stabilizer operators of one type only
         if pauli is not None:
-            stabilizer_ops = self.get_stabilizer_ops()
+            stabilizer_ops = self.get_stabilizer_ops(
+                recompute=recompute, canonicalized=canonicalized
+            )
             pivots_x = first_nonzero_cols(stabilizer_ops) < len(self)
             return stabilizer_ops[pivots_x if pauli is Pauli.X else ~pivots_x]
 
-- 
2.43.0


From 61cfa485385abd08363dd79f3afb5564cab37a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 63/64] fix: transversal operations of codes without symmetries

---
 qldpc/circuits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qldpc/circuits.py b/qldpc/circuits.py
index f3890dc..70bc263 100644
--- a/qldpc/circuits.py
+++ b/qldpc/circuits.py
@@ -263,6 +263,8 @@ def _sympy_group_intersection_generators(
     group_a: abstract.Group, group_b: abstract.Group
 ) -> tuple[tuple[int, ...], ...]:
     """Get the generators of the intersection of two Sympy permutation groups."""
+    if group_a.order == 1:
+        return group_a.hashable_generators()  # sympy fails to search for subgroups of a trivial group
     group_sympy = group_a.to_sympy().subgroup_search(group_b.to_sympy().contains)
     return abstract.Group(group_sympy).hashable_generators()
 
-- 
2.43.0


From 5bc6c8bef9b6f0523ed6acd703deaba4f582ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:19 +0000
Subject: [PATCH 64/64] fix: stabilizers in the standard form of subsystem
 codes

---
 qldpc/codes/common.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/qldpc/codes/common.py b/qldpc/codes/common.py
index e185eb7..bc4b27c 100644
--- a/qldpc/codes/common.py
+++ b/qldpc/codes/common.py
@@ -1175,14 +1175,11 @@ class QuditCode(AbstractCode):
 
             """
             Row reducing the combiner stabilizer + gauge matrices added gauge ops to stabilizers to
-            zero out entries above the gauge-pivot columns.  Remove the added gauge operators.
+            zero out entries above the gauge-pivot columns (and, in the X sector, above the pivots
+            of Z-type gauge ops that were dropped).  Remove the added gauge operators.
             """
-            matrix_x[:num_stabs_x] += (
-                stabilizers_x[:num_stabs_x, pivots_gx] @ matrix_x[num_stabs_x:]
-            )
-            matrix_z[:num_stabs_z] += (
-                stabilizers_z[:num_stabs_z, pivots_gz] @ matrix_z[num_stabs_z:]
-            )
+            matrix_x[:num_stabs_x] = stabilizers_x
+            matrix_z[:num_stabs_z] = stabilizers_z
 
             # full parity check matrix in standard form
             matrix = np.vstack([matrix_x, np.hstack([np.zeros_like(matrix_z), matrix_z])])
-- 
2.43.0

