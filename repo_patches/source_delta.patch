From b0c34675a3a0fc8bf6f581fe3b424427c66ae84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 01/15] fix: transform real-type irreps to real matrices with
 the inverse square root of the intertwiner

The intertwiner U satisfies irrep @ U = U @ conj(irrep), so with T^2 = U the
real form is T^-1 @ irrep @ T, and T is assembled from the column eigenvectors
as S @ diag @ S.T. The former expression only worked for special U; its
imaginary part was silently dropped for method='random'.
---
 src/spgrep/irreps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 1aae7d9..7619f17 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -608,9 +608,9 @@ def get_physically_irrep(
         S = np.transpose(real_eigvecs)
 
         # Square root of intertwiner
-        T = S.T @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S
+        T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T
 
-        real_irrep = np.real(np.einsum("il,klm,mj->kij", T, irrep, np.conj(T), optimize="greedy"))
+        real_irrep = np.real(np.einsum("il,klm,mj->kij", np.conj(T), irrep, T, optimize="greedy"))
 
     elif indicator in [-1, 0]:
         real_irrep = np.empty((order, 2 * dim, 2 * dim), dtype=np.float_)
-- 
2.43.0


From 5ca72dbfe585256fd6a5319742c22f319f882cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 02/15] fix: do not evaluate the Frobenius-Schur indicator
 where it is identically zero

For 2*kpoint not equivalent to 0, or for a complex factor system, the sum over
the coset representatives alone is no indicator and may exceed one, so that
frobenius_schur_indicator raised ValueError (e.g. Hall number 124 at
(1/4, 1/4, 1/4)).
---
 src/spgrep/irreps.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index 7619f17..cc689ab 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -95,8 +95,14 @@ def enumerate_small_representations(
         )
         irreps.append(rep * phases[:, None, None])
 
+    # Summation over translations becomes zero unless `2*kpoint equiv 0`
+    two_kpoint = 2 * np.asarray(kpoint)
+    is_self_conjugate_kpoint = np.allclose(two_kpoint - np.rint(two_kpoint), 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        indicators = [
+            frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0 for irrep in irreps
+        ]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -124,12 +130,7 @@ def enumerate_small_representations(
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
 
-        indicator = frobenius_schur_indicator(irrep)
-        # summation over translations becomes zero unless `2*kpoint equiv 0`
-        two_kpoint = 2 * kpoint
-        two_kpoint -= np.rint(two_kpoint)
-        if not np.allclose(two_kpoint, 0):
-            indicator = 0
+        indicator = frobenius_schur_indicator(irrep) if is_self_conjugate_kpoint else 0
 
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
@@ -201,8 +202,13 @@ def enumerate_unitary_irreps(
     for irrep in irreps:
         irrep = purify_irrep_value(irrep, atol=atol)
 
+    # Conjugate of projective irrep has the same factor system only if it is real
+    is_real_factor_system = np.allclose(np.imag(factor_system), 0)
+
     if not real:
-        indicators = [frobenius_schur_indicator(irrep) for irrep in irreps]
+        indicators = [
+            frobenius_schur_indicator(irrep) if is_real_factor_system else 0 for irrep in irreps
+        ]
         return irreps, indicators
 
     # Physically irreducible representation
@@ -229,7 +235,7 @@ def enumerate_unitary_irreps(
     indicators = []
     for conj_pair in conjugated_pairs:
         irrep = irreps[conj_pair[0]]
-        indicator = frobenius_schur_indicator(irrep)
+        indicator = frobenius_schur_indicator(irrep) if is_real_factor_system else 0
         real_irrep = get_physically_irrep(
             irrep, indicator, atol=atol, max_num_random_generations=max_num_random_generations
         )
-- 
2.43.0


From 146f34ee5143a9b7a36f4d6a359afea4e63cadb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 03/15] fix: take real orthonormal eigenvectors of the
 intertwiner for real-type irreps

For degenerate eigenvalues np.linalg.eig returns neither orthogonal nor real
vectors, so real parts of them did not diagonalize the intertwiner (e.g. Hall
number 73 at (1/2, 0, 0)) and the returned matrices were no representation.
---
 src/spgrep/irreps.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/spgrep/irreps.py b/src/spgrep/irreps.py
index cc689ab..ad6f6e6 100644
--- a/src/spgrep/irreps.py
+++ b/src/spgrep/irreps.py
@@ -602,16 +602,11 @@ def get_physically_irrep(
             irrep, conj_irrep, atol=atol, max_num_random_generations=max_num_random_generations
         )
 
-        # Take real or imaginary part of eigenvectors for new basis vectors
-        eigvals, eigvecs = np.linalg.eig(U)  # eigvecs[:, i] is the i-th eigenvector
-        real_eigvecs = []
-        for eigvec in np.transpose(eigvecs):
-            if not np.allclose(np.real(eigvec), 0, atol=atol):
-                real_eigvec = np.real(eigvec)
-            else:
-                real_eigvec = np.imag(eigvec)
-            real_eigvecs.append(real_eigvec / np.linalg.norm(real_eigvec))
-        S = np.transpose(real_eigvecs)
+        # Since U is symmetric and unitary, its real and imaginary parts are commutative real-symmetric
+        # matrices. Real orthonormal eigenvectors of their generic linear combination diagonalize U
+        # even if U has degenerated eigenvalues.
+        _, S = np.linalg.eigh(np.cos(1) * np.real(U) + np.sin(1) * np.imag(U))
+        eigvals = np.diag(S.T @ U @ S)
 
         # Square root of intertwiner
         T = S @ np.diag([nroot(eigval, 2) for eigval in eigvals]) @ S.T
-- 
2.43.0


From aec8466e360986e9b524ad98bd1fa4bf7116a019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 04/15] fix: conjugate irreps following an anti-linear operator
 in co-representations

D(a0) D(u)^* = omega(a0, u) D(a0 u) requires the matrix for u to be conjugated
in D(a0 u), and the basis a0 phi U^dagger in the pseudo-real case transforms
by the irrep itself. The returned matrices violated the documented
multiplication law for complex irreps (e.g. grey point group 3 1').
---
 docs/formulation/irreps/corep.md |  8 ++++----
 src/spgrep/corep.py              | 12 +++++++-----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/docs/formulation/irreps/corep.md b/docs/formulation/irreps/corep.md
index 7942ebc..c9457dd 100644
--- a/docs/formulation/irreps/corep.md
+++ b/docs/formulation/irreps/corep.md
@@ -72,7 +72,7 @@ A new basis $\{ \frac{1}{\sqrt{2}}(\phi_{i} + \psi_{i}) \}_{i}$ gives the follow
 $$
     \tilde{\mathbf{\Gamma}}(u) &= \mathbf{\Gamma}(u) \\
     \tilde{\mathbf{\Gamma}}(a_{0}) &= \mathbf{U} \\
-    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u) \\
+    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u)^{\ast} \\
     \mathbf{U}\mathbf{U}^{\ast} &= \omega(a_{0}, a_{0})\Gamma(a_{0}^{2}).
 $$
 
@@ -98,14 +98,14 @@ $$
     \tilde{\mathbf{\Gamma}}(u) &=
         \begin{pmatrix}
             \mathbf{\Gamma}(u) & \mathbf{0} \\
-            \mathbf{0} & \overline{\mathbf{\Gamma}}(u) \\
+            \mathbf{0} & \mathbf{\Gamma}(u) \\
         \end{pmatrix} \\
     \tilde{\mathbf{\Gamma}}(a_{0}) &=
         \begin{pmatrix}
             \mathbf{0} & -\mathbf{U} \\
             \mathbf{U} & \mathbf{0} \\
         \end{pmatrix} \\
-    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u)
+    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u)^{\ast}
 $$
 
 ### Case: $\xi^{\alpha} = 0$
@@ -123,7 +123,7 @@ $$
             \mathbf{0} & \omega(a_{0}, a_{0}) \mathbf{\Gamma}(a_{0}^{2}) \\
             \mathbf{1} & \mathbf{0} \\
         \end{pmatrix} \\
-    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u)
+    \tilde{\mathbf{\Gamma}}(a_{0}u) &= \omega(a_{0}, u)^{\ast} \tilde{\mathbf{\Gamma}}(a_{0}) \tilde{\mathbf{\Gamma}}(u)^{\ast}
 $$
 
 (corep_spinor_factor_system)=
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index b0fbafc..9e7ff51 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -189,16 +189,18 @@ def enumerate_spinor_small_corepresentations(
             corep = np.zeros((order, dim, dim), dtype=np.complex_)
             corep[xsg_indices] = irrep
             corep[a0u] = (
-                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None] * U[None, :, :] @ irrep
+                np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
+                * U[None, :, :]
+                @ np.conj(irrep)
             )
         elif indicator == -1:
             U = get_intertwiner(irrep, conj_irrep, atol, max_num_random_generations)
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
 
             # [ [irrep, 0],
-            #   [0, conj_irrep]]
+            #   [0, irrep]]
             corep[xsg_indices, :dim, :dim] = irrep
-            corep[xsg_indices, dim:, dim:] = conj_irrep
+            corep[xsg_indices, dim:, dim:] = irrep
 
             # [ [0, -U],
             #   [U, 0] ]
@@ -209,7 +211,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         elif indicator == 0:
             corep = np.zeros((order, 2 * dim, 2 * dim), dtype=np.complex_)
@@ -230,7 +232,7 @@ def enumerate_spinor_small_corepresentations(
             corep[a0u] = (
                 np.conj(factor_system[a0_idx, xsg_indices])[:, None, None]
                 * corep_a0[None, :, :]
-                @ corep[xsg_indices]
+                @ np.conj(corep[xsg_indices])
             )
         else:
             raise ValueError("Unreachable!")
-- 
2.43.0


From 771ecfa532e22e835340ea20af8288e91d1c2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 05/15] fix: account for time reversal inverting kpoint in
 magnetic little groups

An anti-unitary operation belongs to the little group iff R^T k + k is a
reciprocal lattice vector, and conjugates the phase of the operation to its
right. Both were treated as if the operation were unitary, which gave wrong
little groups or violated the multiplication law away from 2*kpoint = 0.
---
 src/spgrep/core.py  |  2 +-
 src/spgrep/corep.py |  1 +
 src/spgrep/group.py | 12 ++++++++++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 112a1a8..4166115 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -543,7 +543,7 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
             raise ValueError("Specify symmetry operations in primitive cell!")
 
     little_rotations, little_translations, mapping_little_group = get_little_group(
-        rotations, translations, kpoint, atol=atol
+        rotations, translations, kpoint, atol=atol, time_reversals=time_reversals
     )
 
     if time_reversals is None:
diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 9e7ff51..13fa71d 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -108,6 +108,7 @@ def enumerate_spinor_small_corepresentations(
         little_rotations,
         little_translations,
         kpoint,
+        little_time_reversals,
     )
     factor_system = corep_spinor_factor_system * nonsymmorphic_factor_system
 
diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 67e82ff..7a13249 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -102,6 +102,7 @@ def get_factor_system_from_little_group(
     little_rotations: NDArrayInt,
     little_translations: NDArrayFloat,
     kpoint: NDArrayFloat,
+    little_time_reversals: NDArrayInt | None = None,
 ) -> NDArrayComplex:
     r"""Calculate factor system of projective representation of little co-group.
 
@@ -118,6 +119,8 @@ def get_factor_system_from_little_group(
     little_translations: array, (order, 3)
         Translation parts of coset of little group stabilizing ``kpoint``.
     kpoint: array, (3, )
+    little_time_reversals: (Optional) array[int], (order, )
+        If specified, :math:`\mathbf{g}_{i} = S_{i}^{-1} \mathbf{k} + \mathbf{k}` for anti-linear operations.
 
     Returns
     -------
@@ -130,6 +133,9 @@ def get_factor_system_from_little_group(
     for i, rotation in enumerate(little_rotations):
         # Never take modulus!
         residuals[i] = rotation.T @ kpoint - kpoint
+        if little_time_reversals is not None and little_time_reversals[i] == 1:
+            # Anti-linear operation conjugates the phase of the second operation
+            residuals[i] = rotation.T @ kpoint + np.asarray(kpoint)
 
     factor_system = np.zeros((n, n), dtype=np.complex_)
     for i, residual in enumerate(residuals):
@@ -144,6 +150,7 @@ def get_little_group(
     translations: NDArrayFloat,
     kpoint: NDArrayFloat,
     atol: float = 1e-8,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, NDArrayInt]:
     """Return coset of little group of given space group which stabilize kpoint under rotations.
 
@@ -152,6 +159,8 @@ def get_little_group(
     rotations: array, (order, 3, 3)
     translations: array, (order, 3)
     kpoint: array, (3, )
+    time_reversals: (Optional) array[int], (order, )
+        If specified, operations with time reversal additionally invert ``kpoint``.
 
     Returns
     -------
@@ -167,6 +176,9 @@ def get_little_group(
 
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
         residual = rotation.T @ kpoint - kpoint
+        if time_reversals is not None and time_reversals[i] == 1:
+            # Time reversal inverts kpoint
+            residual = rotation.T @ kpoint + np.asarray(kpoint)
         residual = residual - np.rint(residual)
         if not np.allclose(residual, 0, atol=atol):
             continue
-- 
2.43.0


From 52a4bb94815503a9f15dec1e25a895009a1d4486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 06/15] fix: accept anti-translations of type-IV magnetic space
 groups in primitive cell

The check for a primitive cell rejected (E, t)1' although it is not a lattice
translation, so that no type-IV magnetic space group was accepted.
---
 src/spgrep/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 4166115..c2d6418 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -536,7 +536,9 @@ def get_spacegroup_spinor_irreps_from_primitive_symmetry(
         kpoint = np.zeros(3)
 
     # Sanity check to use primitive cell
-    for rotation, translation in zip(rotations, translations):
+    for i, (rotation, translation) in enumerate(zip(rotations, translations)):
+        if time_reversals is not None and time_reversals[i] == 1:
+            continue  # Anti-translation of type-IV is not a lattice translation
         if np.allclose(rotation, np.eye(3), rtol=rtol, atol=atol) and not np.allclose(
             translation, 0, atol=atol
         ):
-- 
2.43.0


From 312ca25fa2e6355e32b13fc87a2535fcfdeede6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 07/15] fix: return None for type-I groups in
 decompose_by_maximal_space_subgroup

A type-I group has no time-reversal operation. The test was inverted, so that a
type-I group raised AttributeError instead of returning None as documented.
---
 src/spgrep/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index 7a13249..ca4a1f9 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -236,7 +236,7 @@ def decompose_by_maximal_space_subgroup(
     a0_idx: int
         Index of :math:`a_{0}` in given list of symmetries
     """
-    if np.all(time_reversals == 1):
+    if np.all(time_reversals == 0):
         # Type-I MSG
         return None
 
-- 
2.43.0


From 3c4f15b72afb4667159dd39d927dd52af57b74b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 08/15] fix: raise ValueError where it was only constructed

get_pointgroup_chain_generators returned an empty list when no tabulated point
group matched.
---
 src/spgrep/group.py      | 2 +-
 src/spgrep/pointgroup.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/group.py b/src/spgrep/group.py
index ca4a1f9..a764ac9 100644
--- a/src/spgrep/group.py
+++ b/src/spgrep/group.py
@@ -44,7 +44,7 @@ def get_cayley_table(
             trk = tri != trj
             k = operations_list.index((ndarray2d_to_integer_tuple(rk), trk))
             if table[i][j] != -1:
-                ValueError("Should specify a matrix group.")
+                raise ValueError("Should specify a matrix group.")
             table[i][j] = k
 
     return np.array(table)
diff --git a/src/spgrep/pointgroup.py b/src/spgrep/pointgroup.py
index 0fde970..73c61b2 100644
--- a/src/spgrep/pointgroup.py
+++ b/src/spgrep/pointgroup.py
@@ -714,5 +714,4 @@ def get_pointgroup_chain_generators(prim_rotations: NDArrayInt) -> list[int]:
             generators = get_generators(pg_symbol, idx)
             return [mapping[g] for g in generators]
 
-    ValueError("Failed to match with tabulated point groups.")
-    return []  # This line is unreachable, just for persuading mypy!
+    raise ValueError("Failed to match with tabulated point groups.")
-- 
2.43.0


From 75026b3526fd55402a8c2b5d989856317738fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 09/15] fix: map operations to indices of unique operations in
 unique_primitive_symmetry

A new operation was mapped to its index in the given list, which differs from
its index in the unique list when duplicates precede it.
---
 src/spgrep/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index c31dcae..cb01c06 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -84,7 +84,7 @@ def unique_primitive_symmetry(
             # New symmetry operation
             unique_rotations.append(rotation)
             unique_translations.append(np.remainder(translation, 1))
-            mapping_to_primitive_symmetry[i] = i
+            mapping_to_primitive_symmetry[i] = len(unique_rotations) - 1
             rotations_int.append(rotation_int)
 
     return np.array(unique_rotations), np.array(unique_translations), mapping_to_primitive_symmetry
-- 
2.43.0


From ec18f028009eabada87241fc89e77af8e58cffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 10/15] fix: distinguish time-reversal parts when reducing
 magnetic symmetry to a primitive cell

For type-II and type-IV magnetic space groups every rotation appears with and
without time reversal. Anti-unitary operations were dropped as duplicates, and
time-reversal parts of unique operations were taken from other operations.
---
 src/spgrep/core.py      | 7 ++++---
 src/spgrep/transform.py | 8 +++++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index c2d6418..5f7dd23 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -377,6 +377,7 @@ def get_spacegroup_spinor_irreps(
 
     rotations = dataset["rotations"]
     translations = dataset["translations"]
+    time_reversals = None if magmoms is None else dataset["time_reversals"]
 
     # Transform to primitive
     to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
@@ -386,7 +387,7 @@ def get_spacegroup_spinor_irreps(
     prim_lattice = to_primitive.T @ lattice  # (AP)^T = P^T @ A^T
     # mapping_to_prim: [0..num_sym) -> [0..order)
     uniq_prim_rotations, uniq_prim_translations, mapping_to_prim = unique_primitive_symmetry(
-        prim_rotations, prim_translations
+        prim_rotations, prim_translations, time_reversals
     )
 
     if magmoms is None:
@@ -407,8 +408,8 @@ def get_spacegroup_spinor_irreps(
             max_num_random_generations=max_num_random_generations,
         )
     else:
-        time_reversals = dataset["time_reversals"]
-        uniq_prim_time_reversals = time_reversals[mapping_to_prim]
+        uniq_prim_time_reversals = np.zeros(len(uniq_prim_rotations), dtype=time_reversals.dtype)
+        uniq_prim_time_reversals[mapping_to_prim] = time_reversals
         (
             prim_irreps,
             _,
diff --git a/src/spgrep/transform.py b/src/spgrep/transform.py
index cb01c06..b14c478 100644
--- a/src/spgrep/transform.py
+++ b/src/spgrep/transform.py
@@ -53,7 +53,9 @@ def transform_symmetry_and_kpoint(
 
 
 def unique_primitive_symmetry(
-    rotations: NDArrayInt, translations: NDArrayFloat
+    rotations: NDArrayInt,
+    translations: NDArrayFloat,
+    time_reversals: NDArrayInt | None = None,
 ) -> tuple[NDArrayInt, NDArrayFloat, list[int]]:
     """Remove duplicated symmetry operations.
 
@@ -61,6 +63,8 @@ def unique_primitive_symmetry(
     ----------
     rotations: array, (num_sym, 3, 3)
     translations: array, (num_sym, 3)
+    time_reversals: (Optional) array[int], (num_sym, )
+        If specified, operations with different time-reversal parts are distinguished.
 
     Returns
     -------
@@ -76,6 +80,8 @@ def unique_primitive_symmetry(
     mapping_to_primitive_symmetry = [-1 for _ in range(len(rotations))]
     for i, (rotation, translation) in enumerate(zip(rotations, translations)):
         rotation_int = ndarray2d_to_integer_tuple(rotation)
+        if time_reversals is not None:
+            rotation_int = (rotation_int, bool(time_reversals[i]))  # type: ignore
         try:
             j = rotations_int.index(rotation_int)
             # Duplicated symmetry operation
-- 
2.43.0


From 5a0a48dcad003ffc137aabbbffdca0db629db777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 11/15] fix: align spinor factor system and unitary rotations
 with the conventional little group

get_spacegroup_spinor_irreps returned them over the little group of the
primitive cell, so that their indices did not correspond to irreps and
mapping_little_group for centred cells.
---
 src/spgrep/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 5f7dd23..7d0f39c 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -119,7 +119,7 @@ def get_spacegroup_irreps(
     )
 
     # Go back to conventional cell
-    irreps, mapping_little_group = _adjust_phase_for_centering_translations(
+    irreps, mapping_little_group, _ = _adjust_phase_for_centering_translations(
         prim_translations,
         prim_kpoint,
         uniq_prim_translations,
@@ -430,7 +430,7 @@ def get_spacegroup_spinor_irreps(
         )
 
     # Go back to conventional cell
-    irreps, mapping_little_group = _adjust_phase_for_centering_translations(
+    irreps, mapping_little_group, mapping_conv_to_prim_little_group = _adjust_phase_for_centering_translations(
         prim_translations,
         prim_kpoint,
         uniq_prim_translations,
@@ -438,6 +438,10 @@ def get_spacegroup_spinor_irreps(
         prim_irreps,
         mapping_prim_little_group,
     )
+    little_spinor_factor_system = little_spinor_factor_system[
+        np.ix_(mapping_conv_to_prim_little_group, mapping_conv_to_prim_little_group)
+    ]
+    little_unitary_rotations = little_unitary_rotations[mapping_conv_to_prim_little_group]
 
     if magmoms is None:
         return (
@@ -449,6 +453,7 @@ def get_spacegroup_spinor_irreps(
             mapping_little_group,
         )
     else:
+        little_anti_linear = little_anti_linear[mapping_conv_to_prim_little_group]
         return (
             irreps,
             little_spinor_factor_system,
@@ -732,4 +737,4 @@ def _adjust_phase_for_centering_translations(
         irrep = purify_irrep_value(irrep)
 
         irreps.append(irrep)
-    return irreps, np.array(mapping_little_group)
+    return irreps, np.array(mapping_little_group), mapping_conv_to_prim_little_group
-- 
2.43.0


From b27cdaf47ccb9c289ae19cb116a792d371fa4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 12/15] fix: transform from the given cell to a primitive cell
 also for non-standard settings

get_primitive_transformation_matrix is relative to the standardized cell of the
Hall number, which is not the given cell for e.g. primitive cells of fcc and bcc
lattices: wrong little groups were returned or ValueError was raised.
---
 src/spgrep/core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index 7d0f39c..c0d6f3a 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -98,7 +98,10 @@ def get_spacegroup_irreps(
     translations = dataset["translations"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # Hall number refers to the standardized cell, x_std = transformation_matrix @ x + origin_shift
+    to_primitive = np.linalg.inv(
+        dataset["transformation_matrix"]
+    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
@@ -380,7 +383,10 @@ def get_spacegroup_spinor_irreps(
     time_reversals = None if magmoms is None else dataset["time_reversals"]
 
     # Transform to primitive
-    to_primitive = get_primitive_transformation_matrix(dataset["hall_number"])
+    # Hall number refers to the standardized cell, x_std = transformation_matrix @ x + origin_shift
+    to_primitive = np.linalg.inv(
+        dataset["transformation_matrix"]
+    ) @ get_primitive_transformation_matrix(dataset["hall_number"])
     prim_rotations, prim_translations, prim_kpoint = transform_symmetry_and_kpoint(
         to_primitive, rotations, translations, kpoint_conv
     )
-- 
2.43.0


From 6f4c2a61c16d54555643b649535f7f2afc9fed37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 13/15] fix: purify irreps of conventional cells with the given
 tolerance

atol was not passed to _adjust_phase_for_centering_translations.
---
 src/spgrep/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spgrep/core.py b/src/spgrep/core.py
index c0d6f3a..19e4ff8 100644
--- a/src/spgrep/core.py
+++ b/src/spgrep/core.py
@@ -129,6 +129,7 @@ def get_spacegroup_irreps(
         mapping_to_prim,
         prim_irreps,
         mapping_prim_little_group,
+        atol=atol,
     )
 
     return irreps, rotations, translations, mapping_little_group
@@ -443,6 +444,7 @@ def get_spacegroup_spinor_irreps(
         mapping_to_prim,
         prim_irreps,
         mapping_prim_little_group,
+        atol=atol,
     )
     little_spinor_factor_system = little_spinor_factor_system[
         np.ix_(mapping_conv_to_prim_little_group, mapping_conv_to_prim_little_group)
@@ -712,6 +714,7 @@ def _adjust_phase_for_centering_translations(
     mapping_to_prim,
     prim_irreps,
     mapping_prim_little_group,
+    atol=1e-8,
 ):
     remapping_prim_little_group = {}  # [0..order) -> [0..prim_little_group_order)
     for i, idx in enumerate(mapping_prim_little_group):
@@ -740,7 +743,7 @@ def _adjust_phase_for_centering_translations(
     for prim_irrep in prim_irreps:
         # prim_irrep: (little_group_order, dim, dim)
         irrep = prim_irrep[mapping_conv_to_prim_little_group] * phases[:, None, None]
-        irrep = purify_irrep_value(irrep)
+        irrep = purify_irrep_value(irrep, atol=atol)
 
         irreps.append(irrep)
     return irreps, np.array(mapping_little_group), mapping_conv_to_prim_little_group
-- 
2.43.0


From 7478bddfe41c78bff16a36adb90f6812943165ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 14/15] fix: choose the spinor multiplier by its sign instead
 of by tight tolerance

For a lattice whose symmetry holds only up to numerical noise (e.g. 1e-7), neither
sign matched within 1e-8, the factor system was silently left zero, and NaN or
ValueError followed.
---
 src/spgrep/corep.py  | 6 ++----
 src/spgrep/spinor.py | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/spgrep/corep.py b/src/spgrep/corep.py
index 13fa71d..df88792 100644
--- a/src/spgrep/corep.py
+++ b/src/spgrep/corep.py
@@ -311,9 +311,7 @@ def get_corep_spinor_factor_system(
             # si @ sj = sk in O(3)
             k = table[i, j]
             # Multiplier should be -1 or 1
-            for multiplier in [-1, 1]:
-                if np.allclose(uiuj, multiplier * unitary_rotations[k]):
-                    corep_spinor_factor_system[i, j] = multiplier
-                    break
+            overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))  # -2 or 2
+            corep_spinor_factor_system[i, j] = 1 if overlap > 0 else -1
 
     return corep_spinor_factor_system, unitary_rotations, anti_linear
diff --git a/src/spgrep/spinor.py b/src/spgrep/spinor.py
index 6948a7b..90607b4 100644
--- a/src/spgrep/spinor.py
+++ b/src/spgrep/spinor.py
@@ -137,10 +137,8 @@ def get_spinor_factor_system(
         k = table[i, j]
         uiuj = ui @ uj
         # Multiplier should be -1 or 1
-        for multiplier in [-1, 1]:
-            if np.allclose(uiuj, multiplier * unitary_rotations[k]):
-                spinor_factor_system[i, j] = multiplier
-                break
+        overlap = np.real(np.trace(uiuj @ np.conj(unitary_rotations[k].T)))  # -2 or 2
+        spinor_factor_system[i, j] = 1 if overlap > 0 else -1
 
     return spinor_factor_system, unitary_rotations
 
-- 
2.43.0


From caf670d1cb78571a92f9320281236ddd8f61a1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:38 +0000
Subject: [PATCH 15/15] fix: is_prime returned True for numbers smaller than
 two

---
 src/spgrep/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spgrep/utils.py b/src/spgrep/utils.py
index 8fe16ca..55e8495 100644
--- a/src/spgrep/utils.py
+++ b/src/spgrep/utils.py
@@ -48,6 +48,8 @@ def get_symmetry_from_hall_number(hall_number: int) -> tuple[NDArrayInt, NDArray
 
 def is_prime(n: int) -> bool:
     """Return true if given number is prime."""
+    if n < 2:
+        return False
     for i in range(2, n):
         if n % i == 0:
             return False
-- 
2.43.0

