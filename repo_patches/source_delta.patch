From 58bff2e4573f12b0c0778ec50130e1633c5e8af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 01/20] fix: conjugate small representations acted on by
 anti-linear coset representative

Gamma(a0 u) = omega(a0, u)^* Gamma(a0) Gamma(u)^* because a0 is anti-linear.
Without the conjugate, returned co-representations violated the multiplication
rule for almost all type-II, -III, and -IV groups.
---
 src/spgrep/corep.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index b0fbafc..78bfd4a 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -189,7 +189,9 @@ def enumerate_spinor_small_corepresentations(
             corep = np.zeros((order, dim, dim), dtype=np.complex_)
             corep[xsg_indices] = irrep
             corep[a0u] = (
-                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U[None, :, :] @ irrep
+                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
+                * U[None, :, :]
+                @ np.conj(irrep)  # a0 is anti-linear
             )
         elif indicator == -1:
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
@@ -209,7 +211,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])  # a0 is anti-linear
             )
         elif indicator == 0:
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
@@ -230,7 +232,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])  # a0 is anti-linear
             )
         else:
             raise ValueError("Unreachable!")
-- 
2.43.0


From 6528c3645d65de566520e18408bb81f9e85f67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 02/20] fix: transform given cell to primitive via its
 standardization

The hall number found by spglib refers to the standardized cell. Use the
transformation from the given cell to it so that nonstandard settings, origins
and non-standardized cells are reduced with the proper centering.
---
 src/spgrep/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 112a1a8..732d591 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -98,7 +98,10 @@ def get_spacegroup_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # Hall number refers to the standardized cell, which may differ from the given cell
+    to_primitive = np.linalg.inv(
+        dataset["transformation_matrix"]
+    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -379,7 +382,10 @@ def get_spacegroup_spinor_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # Hall number refers to the standardized cell, which may differ from the given cell
+    to_primitive = np.linalg.inv(
+        dataset["transformation_matrix"]
+    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
-- 
2.43.0


From 737af4dac684bb134b47b0e8986cc52f20309f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 03/20] fix: map duplicated operations to index of unique
 primitive symmetry

---
 src/spgrep/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index c31dcae..4e917b1 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -84,7 +84,7 @@ def unique_primitive_symmetry(
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = i
+            mapping_to_primitive_symmetry[i] = len(rotations_int)
             rotations_int.append(rotation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
-- 
2.43.0


From 2eec226506d869a27314f9b353b31d8342f9a5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 04/20] fix: Frobenius-Schur indicator of irreps not comparable
 with their conjugates

The sum over g of tr D(g)^2 is not restricted to -1, 0, 1 for small
representations with 2k != 0 or for complex factor systems, for which valid irreps
were rejected as not irreducible.
---
 src/spgrep/irreps.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 1aae7d9..f1f5265 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -95,8 +95,15 @@ def enumerate_small_representations(
         )
         irreps.append(rep * phases[:, None, None])
 
+    # summation over translations becomes zero unless `2*kpoint equiv 0`
+    two_kpoint = 2 * kpoint
+    two_kpoint -= np.rint(two_kpoint)
+    is_self_conjugate = np.allclose(two_kpoint, 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        indicators = [
+            frobenius_schur_indicator(irrep) if is_self_conjugate else 0 for irrep in irreps
+        ]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -123,13 +130,7 @@ def enumerate_small_representations(
     indicators = []
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
-
-        indicator = frobenius_schur_indicator(irrep)
-        # summation over translations becomes zero unless `2*kpoint equiv 0`
-        two_kpoint = 2 * kpoint
-        two_kpoint -= np.rint(two_kpoint)
-        if not np.allclose(two_kpoint, 0):
-            indicator = 0
+        indicator = frobenius_schur_indicator(irrep) if is_self_conjugate else 0
 
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
@@ -201,8 +202,13 @@ def enumerate_unitary_irreps(
     for irrep in irreps:
         irrep = purify_irrep_value(irrep, atol=atol)
 
+    # Irrep and its conjugate have different factor systems unless `factor_system` is real
+    is_self_conjugate = np.allclose(np.imag(factor_system), 0, atol=rtol)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        indicators = [
+            frobenius_schur_indicator(irrep) if is_self_conjugate else 0 for irrep in irreps
+        ]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -229,7 +235,7 @@ def enumerate_unitary_irreps(
     indicators = []
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
-        indicator = frobenius_schur_indicator(irrep)
+        indicator = frobenius_schur_indicator(irrep) if is_self_conjugate else 0
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
-- 
2.43.0


From 30ccec32c0b37594cafb5841db6478d7c795d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 05/20] fix: real basis of physically irreducible
 representations

Eigenvectors of degenerate eigenvalues of the intertwiner were taken as orthogonal
and the transformation matrix was transposed, which gave matrices that are not
representations when the irrep is not already in a suitable basis.
---
 src/spgrep/irreps.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index f1f5265..39d4a27 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -602,21 +602,19 @@ def get_physically_irrep(
             irrep, conj_irrep, atol=atol, max_num_random_generations=max_num_random_generations
         )
 
-        # Take real or imaginary part of eigenvectors for new basis vectors
-        eigvals, eigvecs = np.linalg.eig(U)  # eigvecs[:, i] is the i-th eigenvector
-        real_eigvecs = []
-        for eigvec in np.transpose(eigvecs):
-            if not np.allclose(np.real(eigvec), 0, atol=atol):
-                real_eigvec = np.real(eigvec)
-            else:
-                real_eigvec = np.imag(eigvec)
-            real_eigvecs.append(real_eigvec / np.linalg.norm(real_eigvec))
-        S = np.transpose(real_eigvecs)
-
-        # Square root of intertwiner
-        T = S.T @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S
-
-        real_irrep = np.real(np.einsum("il,klm,mj->kij", T, irrep, np.conj(T), optimize="greedy"))
+        # U is symmetric and unitary: its real and imaginary parts are commuting real symmetric matrices.
+        # Diagonalize them simultaneously by real orthogonal matrix S.
+        eigvals, S = np.linalg.eigh(np.real(U))
+        boundaries = np.nonzero(np.diff(eigvals) > 1e-4)[0] + 1
+        for indices in np.split(np.arange(dim), boundaries):
+            block = S[:, indices]
+            S[:, indices] = block @ np.linalg.eigh(block.T @ np.imag(U) @ block)[1]
+
+        # Square root of intertwiner: T is symmetric, unitary, and T @ T = U
+        T = S @ np.diag([nroot(z, 2) for z in np.diag(S.T @ U @ S)]) @ S.T
+
+        # irrep @ U = U @ conj(irrep)
+        real_irrep = np.real(np.einsum("li,klm,mj->kij", np.conj(T), irrep, T, optimize="greedy"))
 
     elif indicator in [-1, 0]:
         real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)
-- 
2.43.0


From 2ca0fb2344a46c2de9d9d0964e663ca898c58643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 06/20] fix: diagonal blocks of co-representations with
 indicator -1

Basis vectors a0 phi U^dagger form the same irrep as phi, not the conjugated one,
which differs from it unless the intertwiner is a scalar.
---
 docs/formulation/irreps/corep.md | 2 +-
 src/spgrep/corep.py              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/formulation/irreps/corep.md b/docs/formulation/irreps/corep.md
index 7942ebc..258d8dc 100644
--- a/docs/formulation/irreps/corep.md
+++ b/docs/formulation/irreps/corep.md
@@ -98,7 +98,7 @@ $$
     \tilde{\mathbf{\Gamma}}(u) &=
         \begin{pmatrix}
             \mathbf{\Gamma}(u) & \mathbf{0} \\
-            \mathbf{0} & \overline{\mathbf{\Gamma}}(u) \\
+            \mathbf{0} & \mathbf{\Gamma}(u) \\
         \end{pmatrix} \\
     \tilde{\mathbf{\Gamma}}(a_{0}) &=
         \begin{pmatrix}
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 78bfd4a..11ac2e0 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -198,9 +198,9 @@ def enumerate_spinor_small_corepresentations(
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
 
             # [ [irrep, 0],
-            #   [0, conj_irrep]]
+            #   [0, irrep]]
             corep[xsg_indices, :dim, :dim] = irrep
-            corep[xsg_indices, dim:, dim:] = conj_irrep
+            corep[xsg_indices, dim:, dim:] = irrep
 
             # [ [0, -U],
             #   [U, 0] ]
-- 
2.43.0


From 7d43cf81888e6f8b9a477895adf41871fd8d86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 07/20] fix: time-reversal operations flip k-vector in
 space-group co-representations

Little group and factor system treated anti-linear operations as ordinary ones, and
anti-translations in type-IV magnetic space groups were rejected.
---
 src/spgrep/core.py  |  6 ++++--
 src/spgrep/corep.py |  4 ++++
 src/spgrep/group.py | 28 ++++++++++++++++++++++++----
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 732d591..1d7e0d4 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -542,14 +542,16 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
         kpoint = np.zeros(3)
 
     # Sanity check to use primitive cell
-    for rotation, translation in zip(rotations, translations):
+    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
+        if time_reversals is not None and time_reversals[i] == 1:
+            continue  # Anti-translation in type-IV
         if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
             translation, 0, atol=atol
         ):
             raise ValueError("Specify symmetry operations in primitive cell!")
 
     little_rotations, little_translations, mapping_little_group = get_little_group(
-        rotations, translations, kpoint, atol=atol
+        rotations, translations, kpoint, atol=atol, time_reversals=time_reversals
     )
 
     if time_reversals is None:
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 11ac2e0..590466d 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -40,6 +40,9 @@ def enumerate_spinor_small_corepresentations(
        \overline{\mathbf{D}}^{\mathbf{k}\alpha}(\mathbf{S}_{i}1') \overline{\mathbf{D}}^{\mathbf{k}\alpha}(\mathbf{S}_{j}\theta_{j})^{\ast}
             = \omega(\mathbf{S}_{i}1', \mathbf{S}_{j}\theta_{j}) e^{ -i \mathbf{g}_{i} \cdot \mathbf{w}_{j} } \overline{\mathbf{D}}^{\mathbf{k}\alpha}(\mathbf{S}_{k}\theta_{k}) \\
 
+    where :math:`\mathbf{g}_{i} = \mathbf{S}_{i}^{-1} \mathbf{k} - \mathbf{k}` for :math:`\mathbf{S}_{i}1`
+    and :math:`\mathbf{g}_{i} = \mathbf{S}_{i}^{-1} \mathbf{k} + \mathbf{k}` for :math:`\mathbf{S}_{i}1'`.
+
     See :ref:`corep_spinor_factor_system` for spinor-derived factor system :math:`\omega`.
 
     Parameters
@@ -108,6 +111,7 @@ def enumerate_spinor_small_corepresentations(
         little_rotations,
         little_translations,
         kpoint,
+        little_time_reversals,
     )
     factor_system = corep_spinor_factor_system * nonsymmorphic_factor_system
 
diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 67e82ff..7ee3908 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -102,6 +102,7 @@ def get_factor_system_from_little_group(
     little_rotations: NDArrayInt,
     little_translations: NDArrayFloat,
     kpoint: NDArrayFloat,
+    little_time_reversals: NDArrayInt | None = None,
 ) -> NDArrayComplex:
     r"""Calculate factor system of projective representation of little co-group.
 
@@ -110,6 +111,7 @@ def get_factor_system_from_little_group(
        = \exp \left( -i \mathbf{g}_{i} \cdot \mathbf{w}_{j} \right) D^{\mathbf{k}}_{p}(S_{k})
 
     where :math:`S_{i}S_{j} = S_{k}` and :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} - \mathbf{k}`.
+    For time-reversal operation :math:`S_{i}1'`, :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} + \mathbf{k}`.
 
     Parameters
     ----------
@@ -118,6 +120,8 @@ def get_factor_system_from_little_group(
     little_translations: array, (order, 3)
         Translation parts of coset of little group stabilizing ``kpoint``.
     kpoint: array, (3, )
+    little_time_reversals: (Optional) array[int], (order, )
+        Time-reversal parts of coset of little group. If not specified, treat as ordinary operations.
 
     Returns
     -------
@@ -125,11 +129,16 @@ def get_factor_system_from_little_group(
         Factor system of representations of little co-group that have one-to-one correspondence to small representations
     """
     n = len(little_rotations)
+    if little_time_reversals is None:
+        little_time_reversals = np.zeros((n,), dtype=np.int_)
 
     residuals = np.zeros((n, 3))
-    for i, rotation in enumerate(little_rotations):
+    for i, (rotation, time_reversal) in enumerate(zip(little_rotations, little_time_reversals)):
         # Never take modulus!
-        residuals[i] = rotation.T @ kpoint - kpoint
+        if time_reversal == 1:
+            residuals[i] = rotation.T @ kpoint + kpoint
+        else:
+            residuals[i] = rotation.T @ kpoint - kpoint
 
     factor_system = np.zeros((n, n), dtype=np.complex_)
     for i, residual in enumerate(residuals):
@@ -144,14 +153,20 @@ def get_little_group(
     translations: NDArrayFloat,
     kpoint: NDArrayFloat,
     atol: float = 1e-8,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, NDArrayInt]:
     """Return coset of little group of given space group which stabilize kpoint under rotations.
 
+    Time-reversal operations additionally flip ``kpoint``.
+
     Parameters
     ----------
     rotations: array, (order, 3, 3)
     translations: array, (order, 3)
     kpoint: array, (3, )
+    atol: float
+    time_reversals: (Optional) array[int], (order, )
+        Time-reversal parts of operations. If not specified, treat as ordinary operations.
 
     Returns
     -------
@@ -164,9 +179,14 @@ def get_little_group(
     little_rotations = []
     little_translations = []
     mapping_little_group = []
+    if time_reversals is None:
+        time_reversals = np.zeros((len(rotations),), dtype=np.int_)
 
-    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        residual = rotation.T @ kpoint - kpoint
+    for i, (rotation, translation, time_reversal) in enumerate(
+        zip(rotations, translations, time_reversals)
+    ):
+        sign = -1 if time_reversal == 1 else 1
+        residual = sign * rotation.T @ kpoint - kpoint
         residual = residual - np.rint(residual)
         if not np.allclose(residual, 0, atol=atol):
             continue
-- 
2.43.0


From b9833849a354f8b4c758b7fac2ab46a686d1ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 08/20] fix: keep time-reversal partners when reducing magnetic
 symmetry to primitive cell

Operations sharing a rotation but not a time-reversal part were merged, and
time-reversal parts of unique operations were picked by a mapping of wrong length.
---
 src/spgrep/core.py      |  8 +++++---
 src/spgrep/transform.py | 22 +++++++++++++++-------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 1d7e0d4..c9714bf 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -373,10 +373,12 @@ def get_spacegroup_spinor_irreps(
 
     if magmoms is None:
         dataset = get_symmetry_dataset(cell=(lattice, positions, numbers), symprec=symprec)
+        time_reversals = None
     else:
         dataset = get_magnetic_symmetry_dataset(
             cell=(lattice, positions, numbers, magmoms), symprec=symprec
         )
+        time_reversals = np.array(dataset["time_reversals"]).astype(int)
 
     rotations = dataset["rotations"]
     translations = dataset["translations"]
@@ -392,7 +394,7 @@ def get_spacegroup_spinor_irreps(
     prim_lattice = to_primitive.T @ lattice  # (AP)^T = P^T @ A^T
     # mapping_to_prim: [0..num_sym) -> [0..order)
     uniq_prim_rotations, uniq_prim_translations, mapping_to_prim = unique_primitive_symmetry(
-        prim_rotations, prim_translations
+        prim_rotations, prim_translations, time_reversals
     )
 
     if magmoms is None:
@@ -413,8 +415,8 @@ def get_spacegroup_spinor_irreps(
             max_num_random_generations=max_num_random_generations,
         )
     else:
-        time_reversals = dataset["time_reversals"]
-        uniq_prim_time_reversals = time_reversals[mapping_to_prim]
+        uniq_prim_time_reversals = np.zeros((len(uniq_prim_rotations),), dtype=np.int_)
+        uniq_prim_time_reversals[mapping_to_prim] = time_reversals
         (
             prim_irreps,
             _,
diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index 4e917b1..39db663 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -53,7 +53,9 @@ def transform_symmetry_and_kpoint(
 
 
 def unique_primitive_symmetry(
-    rotations: NDArrayInt, translations: NDArrayFloat
+    rotations: NDArrayInt,
+    translations: NDArrayFloat,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, list[int]]:
     """Remove duplicated symmetry operations.
 
@@ -61,6 +63,8 @@ def unique_primitive_symmetry(
     ----------
     rotations: array, (num_sym, 3, 3)
     translations: array, (num_sym, 3)
+    time_reversals: (Optional) array[int], (num_sym, )
+        If specified, operations with different time-reversal parts are distinguished.
 
     Returns
     -------
@@ -69,23 +73,27 @@ def unique_primitive_symmetry(
     mapping_to_primitive_symmetry: array, (num_sym, )
         ``(rotations[i], translations[i])`` is transformed to ``(unique_rotations[j], unique_translations[j])`` where ``j = mapping_to_primitive_symmetry[i]``.
     """
-    rotations_int: list[tuple[tuple[int]]] = []
+    if time_reversals is None:
+        time_reversals = np.zeros((len(rotations),), dtype=np.int_)
+    operations_int: list[tuple[tuple[tuple[int]], int]] = []
 
     unique_rotations = []
     unique_translations = []
     mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]
-    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
-        rotation_int = ndarray2d_to_integer_tuple(rotation)
+    for i, (rotation, translation, time_reversal) in enumerate(
+        zip(rotations, translations, time_reversals)
+    ):
+        operation_int = (ndarray2d_to_integer_tuple(rotation), int(time_reversal))
         try:
-            j = rotations_int.index(rotation_int)
+            j = operations_int.index(operation_int)
             # Duplicated symmetry operation
             mapping_to_primitive_symmetry[i] = j
         except ValueError:
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = len(rotations_int)
-            rotations_int.append(rotation_int)
+            mapping_to_primitive_symmetry[i] = len(operations_int)
+            operations_int.append(operation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
 
-- 
2.43.0


From cdf3028e50f3c6c898b889eef9284ed07c8fd6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 09/20] fix: type-I magnetic space group consists of ordinary
 operations only

---
 src/spgrep/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 7ee3908..08625d6 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -244,7 +244,7 @@ def decompose_by_maximal_space_subgroup(
     a0_idx: int
         Index of :math:`a_{0}` in given list of symmetries
     """
-    if np.all(time_reversals == 1):
+    if np.all(time_reversals == 0):
         # Type-I MSG
         return None
 
-- 
2.43.0


From a45d5e97f58e63e61b6635fe1909aecff9307323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 10/20] fix: spin factor system and rotations for little group
 in given cell

They were returned for the little group in a primitive cell, out of step with
irreps and mapping_little_group for centered cells.
---
 src/spgrep/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index c9714bf..9277bf1 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -122,7 +122,7 @@ def get_spacegroup_irreps(
     )
 
     # Go back to conventional cell
-    irreps, mapping_little_group = _adjust_phase_for_centering_translations(
+    irreps, mapping_little_group, _ = _adjust_phase_for_centering_translations(
         prim_translations,
         prim_kpoint,
         uniq_prim_translations,
@@ -437,7 +437,7 @@ def get_spacegroup_spinor_irreps(
         )
 
     # Go back to conventional cell
-    irreps, mapping_little_group = _adjust_phase_for_centering_translations(
+    irreps, mapping_little_group, mapping_conv_to_prim_little_group = _adjust_phase_for_centering_translations(
         prim_translations,
         prim_kpoint,
         uniq_prim_translations,
@@ -445,6 +445,11 @@ def get_spacegroup_spinor_irreps(
         prim_irreps,
         mapping_prim_little_group,
     )
+    # Spin parts do not depend on translations
+    little_spinor_factor_system = little_spinor_factor_system[
+        np.ix_(mapping_conv_to_prim_little_group, mapping_conv_to_prim_little_group)
+    ]
+    little_unitary_rotations = little_unitary_rotations[mapping_conv_to_prim_little_group]
 
     if magmoms is None:
         return (
@@ -456,6 +461,7 @@ def get_spacegroup_spinor_irreps(
             mapping_little_group,
         )
     else:
+        little_anti_linear = little_anti_linear[mapping_conv_to_prim_little_group]
         return (
             irreps,
             little_spinor_factor_system,
@@ -739,4 +745,4 @@ def _adjust_phase_for_centering_translations(
         irrep = purify_irrep_value(irrep)
 
         irreps.append(irrep)
-    return irreps, np.array(mapping_little_group)
+    return irreps, np.array(mapping_little_group), mapping_conv_to_prim_little_group
-- 
2.43.0


From 34eec09ed28213ab3cccff65ec834d4cc5f0a7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 11/20] fix: decompose representation containing an irrep
 several times

Distinct irreps were required to exhaust the dimension without multiplicity.
---
 src/spgrep/irreps.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 39d4a27..946f645 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -313,7 +313,7 @@ def decompose_representation(
     rtol: float = 1e-5,
     max_num_random_generations: int = 4,
 ) -> list[NDArrayComplex]:
-    """Decompose given (projective) representation into all unitary irreps.
+    """Decompose given (projective) representation into all inequivalent unitary irreps.
 
     Parameters
     ----------
@@ -328,7 +328,9 @@ def decompose_representation(
     -------
     irreps: list of unitary Irreps with (order, dim, dim)
     """
+    order = representation.shape[0]
     dim0 = representation.shape[1]
+    character = get_character(representation)
 
     rng = np.random.default_rng(seed=0)
     for _ in range(max_num_random_generations):
@@ -348,7 +350,12 @@ def decompose_representation(
         # Decompose to subspaces corresponding to Irreps
         irreps = _get_irreps_from_matrix(representation, matrix, rtol=rtol)
 
-        if np.sum([irrep.shape[1] for irrep in irreps]) == dim0:
+        # Each irrep appears in `irreps` once even if contained several times in `representation`
+        multiplicities = [
+            np.around(np.real(np.vdot(get_character(irrep), character))) // order
+            for irrep in irreps
+        ]
+        if np.sum([m * irrep.shape[1] for m, irrep in zip(multiplicities, irreps)]) == dim0:
             return irreps
 
     warn("Failed to search all irreps. Try increasing max_num_random_generations.")
-- 
2.43.0


From 99d56135172ab2a9baab04f37a0da4225d0f9dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 12/20] fix: return no irreps if random search for intertwiner
 fails

Normalizing the zero matrix gave irreps filled with NaN.
---
 src/spgrep/irreps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 946f645..bd6a219 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -507,6 +507,8 @@ def enumerate_unitary_irreps_from_solvable_group_chain(
                     atol=atol,
                     max_num_random_generations=max_num_random_generations,
                 )
+                if np.allclose(intertwiner, 0):
+                    return []  # Failed to find intertwiner with warning
                 scale = intertwiner.copy()
                 for _ in range(p - 1):
                     scale = np.dot(intertwiner, scale)
-- 
2.43.0


From 93742c95b337ab575c695b0f3954f2fc9c363a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 13/20] fix: spin factor system for lattices with numerical
 noise

Products of SU(2) matrices were compared with tight tolerance and the factor was left
zero for lattices symmetric only within symprec.
---
 src/spgrep/corep.py  | 6 ++----
 src/spgrep/spinor.py | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 590466d..3f7fa27 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -314,9 +314,7 @@ def get_corep_spinor_factor_system(
             # si @ sj = sk in O(3)
             k = table[i, j]
             # Multiplier should be -1 or 1
-            for multiplier in [-1, 1]:
-                if np.allclose(uiuj, multiplier * unitary_rotations[k]):
-                    corep_spinor_factor_system[i, j] = multiplier
-                    break
+            overlap = np.real(np.vdot(unitary_rotations[k], uiuj))
+            corep_spinor_factor_system[i, j] = 1 if overlap > 0 else -1
 
     return corep_spinor_factor_system, unitary_rotations, anti_linear
diff --git a/src/spgrep/spinor.py b/src/spgrep/spinor.py
index 6948a7b..c6592c4 100644
--- a/src/spgrep/spinor.py
+++ b/src/spgrep/spinor.py
@@ -137,10 +137,8 @@ def get_spinor_factor_system(
         k = table[i, j]
         uiuj = ui @ uj
         # Multiplier should be -1 or 1
-        for multiplier in [-1, 1]:
-            if np.allclose(uiuj, multiplier * unitary_rotations[k]):
-                spinor_factor_system[i, j] = multiplier
-                break
+        overlap = np.real(np.vdot(unitary_rotations[k], uiuj))
+        spinor_factor_system[i, j] = 1 if overlap > 0 else -1
 
     return spinor_factor_system, unitary_rotations
 
-- 
2.43.0


From 8f544f8b2da48022036ea4e94e4625b712d46f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:56 +0000
Subject: [PATCH 14/20] fix: k-vector given as list when inspecting reality of
 small representations

---
 src/spgrep/irreps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index bd6a219..e642518 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -96,7 +96,7 @@ def enumerate_small_representations(
         irreps.append(rep * phases[:, None, None])
 
     # summation over translations becomes zero unless `2*kpoint equiv 0`
-    two_kpoint = 2 * kpoint
+    two_kpoint = 2 * np.array(kpoint)
     two_kpoint -= np.rint(two_kpoint)
     is_self_conjugate = np.allclose(two_kpoint, 0)
 
-- 
2.43.0


From e71075c075d56d86d651fd638167834e27d6b47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 15/20] fix: pair only conjugated small representations to
 physically irreducible ones

---
 src/spgrep/irreps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index e642518..a371955 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -118,7 +118,8 @@ def enumerate_small_representations(
         for j, cj in enumerate(characters):
             if visited[j]:
                 continue
-            if is_equivalent_irrep(np.conj(ci), cj):
+            # Characters at `kpoint` and `-kpoint` are not orthogonal in general
+            if np.allclose(np.conj(ci), cj, rtol=rtol, atol=rtol):
                 conjugated_pairs.append((i, j))
                 visited[j] = True
                 inequivalent = True
-- 
2.43.0


From 1f97aff32af7b94f0e96b5b8597db3e139c19f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:37 +0000
Subject: [PATCH 16/20] fix: keep symmetrized tensors that are independent but
 not orthogonal

---
 src/spgrep/tensor.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/spgrep/tensor.py b/src/spgrep/tensor.py
index 845718a..e3fc07f 100644
--- a/src/spgrep/tensor.py
+++ b/src/spgrep/tensor.py
@@ -84,12 +84,7 @@ def apply_intrinsic_symmetry(
     tensors: list[NDArrayComplex] | list[NDArrayFloat],
     atol: float = 1e-6,  # A bit large tolerance setting to handle numerical noise
 ) -> list[NDArrayComplex] | list[NDArrayFloat]:
-    """Apply symmetric group on tensors.
-
-    Note
-    ----
-    Current implementation may return wrong number of symmetrized tensors for higher rank...
-    """
+    """Apply symmetric group on tensors."""
     list_sym_basis = []  # type: ignore
     for coeff in tensors:
         rank = len(coeff.shape)
@@ -109,7 +104,7 @@ def apply_intrinsic_symmetry(
             and grassmann_distance(
                 sym_tensor.reshape(1, -1), np.concatenate(list_sym_basis, axis=0)
             )
-            < 0.5
+            < 1e-3
         ):
             continue
 
-- 
2.43.0


From 0d69a4cd70a1684291faee8c71c10b20b1ccd13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 17/20] fix: find all copies of an irrep contained many times
 in a representation

---
 src/spgrep/representation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spgrep/representation.py b/src/spgrep/representation.py
index 63e1ce1..486830e 100644
--- a/src/spgrep/representation.py
+++ b/src/spgrep/representation.py
@@ -164,7 +164,7 @@ def project_to_irrep(
     if num_basis == 0:
         return []
 
-    def _project_to_irrep(adjusted_atol):
+    def _project_to_irrep(adjusted_atol, min_distance):
         count = 0
         basis: list[NDArrayComplex] = []
         for n in range(dim):
@@ -190,10 +190,10 @@ def project_to_irrep(
 
                 # Check if linearly independent with other basis vectors
                 # If basis_nj is not independent, Grassmann distance (min correlation) should be one.
-                # We use very rough tolerance, 0.5 to avoid numerical noises.
+                # We use very rough tolerance at first to avoid numerical noises.
                 if (len(basis) > 0) and grassmann_distance(
                     basis_nj, np.concatenate(np.array(basis), axis=0)
-                ) < 0.5:
+                ) < min_distance:
                     continue
 
                 basis.append(basis_nj)
@@ -205,13 +205,15 @@ def project_to_irrep(
     atol_lb = 1e-10
     atol_ub = 1e-2
     adjusted_atol = np.clip(atol, atol_lb, atol_ub)
+    min_distance = 0.5
     for _ in range(max_num_trials):
-        basis, count = _project_to_irrep(adjusted_atol)
+        basis, count = _project_to_irrep(adjusted_atol, min_distance)
         if count == num_basis:
             break
         elif count < num_basis:
             # Tighten tolerance to compare basis vectors
             adjusted_atol = np.sqrt(atol_lb * adjusted_atol)
+            min_distance /= 2
             warn(f"Tighten tolerance for projection: {adjusted_atol}")
         else:
             # Loosen tolerance to compare basis vectors
-- 
2.43.0


From 3ba92fe797909031a4df64a53e1d01798a4b3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 18/20] fix: return no (co-)representations if the search for
 their intertwiner fails

---
 src/spgrep/corep.py  | 6 ++++++
 src/spgrep/irreps.py | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 3f7fa27..a7f5d77 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -190,6 +190,9 @@ def enumerate_spinor_small_corepresentations(
         if indicator == 1:
             # Unitary matrix s.t. irrep @ U = conj_irrep @ U
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
+            if np.allclose(U, 0):
+                # Failed to find intertwiner with warning
+                return [], [], corep_spinor_factor_system, unitary_rotations, anti_linear
             corep = np.zeros((order, dim, dim), dtype=np.complex_)
             corep[xsg_indices] = irrep
             corep[a0u] = (
@@ -199,6 +202,9 @@ def enumerate_spinor_small_corepresentations(
             )
         elif indicator == -1:
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
+            if np.allclose(U, 0):
+                # Failed to find intertwiner with warning
+                return [], [], corep_spinor_factor_system, unitary_rotations, anti_linear
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
 
             # [ [irrep, 0],
diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index a371955..55cb4f4 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -136,6 +136,8 @@ def enumerate_small_representations(
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
+        if np.allclose(real_irrep, 0):
+            return [], []  # Failed to find intertwiner with warning
         real_irrep = purify_real_irrep_value(real_irrep, atol=atol)
         real_irreps.append(real_irrep)
         indicators.append(indicator)
@@ -240,6 +242,8 @@ def enumerate_unitary_irreps(
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
+        if np.allclose(real_irrep, 0):
+            return [], []  # Failed to find intertwiner with warning
         real_irrep = purify_real_irrep_value(real_irrep, atol=atol)
         real_irreps.append(real_irrep)
         indicators.append(indicator)
-- 
2.43.0


From 376627146c5c1a401e817fa493cd5467b8dc4b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 19/20] fix: count copies of physically irreducible
 representations by the norm of their characters

---
 src/spgrep/representation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/representation.py b/src/spgrep/representation.py
index 486830e..2fa7f35 100644
--- a/src/spgrep/representation.py
+++ b/src/spgrep/representation.py
@@ -159,7 +159,9 @@ def project_to_irrep(
     character_sum = np.sum(np.conj(character_irrep) * character)
     if not np.isclose(character_sum, np.around(character_sum), atol=atol):
         warn("Inner product of characters should return an integer.")
-    num_basis = np.around(character_sum) / order
+    # Characters of a physically irreducible representation have norm two or four
+    norm = max(np.around(np.sum(np.abs(character_irrep) ** 2) / order), 1)
+    num_basis = np.around(character_sum) / (order * norm)
     num_basis = np.around(np.real(num_basis)).astype(int)
     if num_basis == 0:
         return []
-- 
2.43.0


From a66d9186da5003f532c12e52cd783077bdcf54e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 20/20] fix: compare 2k with a reciprocal lattice vector within
 the given tolerance

---
 src/spgrep/irreps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 55cb4f4..877148d 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -98,7 +98,7 @@ def enumerate_small_representations(
     # summation over translations becomes zero unless `2*kpoint equiv 0`
     two_kpoint = 2 * np.array(kpoint)
     two_kpoint -= np.rint(two_kpoint)
-    is_self_conjugate = np.allclose(two_kpoint, 0)
+    is_self_conjugate = np.allclose(two_kpoint, 0, atol=atol)
 
     if not real:
         indicators = [
-- 
2.43.0

