From 69e234b10e8ddc368a5417857c73413ae47bb07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 01/55] fix: raise the error for an OperatorString with
 inconsistent operators and labels

---
 qosy/operatorstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5e6dfa8..d86a735 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -123,7 +123,7 @@ class OperatorString:
         self.op_type           = op_type
 
         if len(self.orbital_operators) != len(self.orbital_labels):
-            ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
+            raise ValueError('The number of orbital operators and labels is inconsistent for the OperatorString: {} {}'.format(len(self.orbital_operators), len(self.orbital_labels)))
 
         self.prefactor = prefactor
 
-- 
2.43.0


From cb366c72d3bb91399fc5af66ccf27b295f69fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 02/55] fix: always compute the Hermitian prefactor of a
 Majorana string

---
 qosy/operatorstring.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index d86a735..5107aa4 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -146,6 +146,8 @@ class OperatorString:
             num_swaps_to_reorder = (num_ab*(num_ab-1))/2
             if num_swaps_to_reorder % 2 == 1:
                 self.prefactor = 1j
+            else:
+                self.prefactor = 1.0
 
         if (self.op_type == 'Pauli' and self.prefactor != 1) \
            or (self.op_type == 'Majorana' and self.prefactor not in [1, 1j]) \
-- 
2.43.0


From e9c787883b9a04b15b3c55d7add73145789810e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 03/55] fix: give equal OperatorStrings equal names and hashes

---
 qosy/operatorstring.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 5107aa4..963c251 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -154,6 +154,10 @@ class OperatorString:
            or (self.op_type == 'Fermion' and self.prefactor not in [1, 1j]):
             raise ValueError('Invalid prefactor {} for operator string of op_type {}'.format(self.prefactor, self.op_type))
                  
+        # Store the prefactor in one canonical form, so that
+        # equal OperatorStrings have equal names and hashes.
+        self.prefactor = 1j if self.prefactor == 1j else 1.0
+
         name_list = [str(self.prefactor),' ']
         for (op, la) in zip(self.orbital_operators, self.orbital_labels):
             name_list.extend([op, ' ', str(la), ' '])
-- 
2.43.0


From 0b2e54cb70a0d58af053a489a3326e48f3b46365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:54 +0000
Subject: [PATCH 04/55] fix: distinguish OperatorStrings with different
 prefactors in equality

---
 qosy/operatorstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/operatorstring.py b/qosy/operatorstring.py
index 963c251..7fb608a 100644
--- a/qosy/operatorstring.py
+++ b/qosy/operatorstring.py
@@ -215,7 +215,7 @@ class OperatorString:
             >>> op_string1 == op_string3 # True
         """
         
-        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type)
+        equals = (len(self.orbital_operators) == len(other.orbital_operators)) and (self.orbital_operators == other.orbital_operators).all() and (self.orbital_labels == other.orbital_labels).all() and (self.op_type == other.op_type) and (self.prefactor == other.prefactor)
         
         return equals
 
-- 
2.43.0


From 744585f1b6d96a971fd3976115e6a1d817d55bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 05/55] fix: do not modify a shared Basis when adding in-place
 to an Operator

---
 qosy/basis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index 25867a1..e72f6d0 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -540,9 +540,10 @@ class Operator:
         if self.op_type != other.op_type:
             raise ValueError('Cannot add operator of op_type {} to operator of op_type {}'.format(self.op_type, other.op_type))
 
-        # Enlarge the basis.
+        # Enlarge the basis. A new Basis is created, because the
+        # current one can be shared with other Operators.
         old_len = len(self._basis)
-        self._basis += other._basis
+        self._basis = self._basis + other._basis
         new_len = len(self._basis)
 
         # Pad the coefficients vector with zeros
-- 
2.43.0


From 67c6c61f614f2f3ff3b63dff80129f2a7af5e197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:30 +0000
Subject: [PATCH 06/55] fix: order the annihilation operators of cluster_basis
 Fermion strings as documented

---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index e72f6d0..f0a69fb 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -858,7 +858,7 @@ def cluster_basis(k, cluster_labels, op_type, include_identity=False):
                             labels_backward = possible_labels_backward[ind_labels_backward]
                             
                             ops    = ['CDag']*len(labels_forward) + ['C']*len(labels_backward)
-                            labels = np.concatenate((labels_forward, labels_backward))
+                            labels = np.concatenate((labels_forward, labels_backward[::-1]))
                             
                             op_string = OperatorString(ops, labels, op_type, prefactor)
 
-- 
2.43.0


From ce5a87728aa0ee96322a0bf14e8984cb7e1973f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 07/55] fix: compute the minimum distance on periodic skewed
 lattices

---
 qosy/lattice.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 684ef53..8a2e159 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -137,6 +137,22 @@ class Lattice:
                 self._boundary_vectors = previous_bvecs \
                                          + [boundary_vec + pbv for pbv in previous_bvecs] \
                                          + [-boundary_vec + pbv for pbv in previous_bvecs]
+
+        # The periodic images of a point that can be closest to another one.
+        # On a skewed lattice, these are not obtained from the boundary vectors,
+        # but from the shortest translations that generate the same images.
+        periods = [self.num_cells[ind_vec] * self.unit_cell.lattice_vectors[ind_vec] for ind_vec in range(self.dim) if self.periodic_boundaries[ind_vec]]
+        shifts  = list(it.product([-1,0,1], repeat=len(periods)))
+        reduced = False
+        while not reduced:
+            reduced = True
+            for (ind_period, shift) in it.product(range(len(periods)), shifts):
+                period = np.dot(shift, periods)
+                if shift[ind_period] == 1 and nla.norm(period) < nla.norm(periods[ind_period]) - self.tol:
+                    periods[ind_period] = period
+                    reduced = False
+        self._image_vectors = [np.dot(shift, periods) if len(periods) > 0 else np.zeros(self.dim) for shift in shifts]
+                    
                     
     def index(self, position, orbital_name=''):
         """Return the index of the orbital whose atom is located
@@ -210,8 +226,15 @@ class Lattice:
         else:
             pos2 = position2
             
-        mirror_distances = [np.linalg.norm((pos1+bv)-pos2) for bv in self._boundary_vectors]
-        return np.min(mirror_distances)
+        # Move to closer and closer periodic images until
+        # the closest one is reached.
+        difference   = np.subtract(pos1, pos2)
+        min_distance = np.inf
+        while nla.norm(difference) < min_distance - self.tol:
+            min_distance = nla.norm(difference)
+            difference   = min([difference + iv for iv in self._image_vectors], key=nla.norm)
+
+        return np.minimum(min_distance, nla.norm(difference))
 
     def position(self, orb_index):
         """Compute the position of the orbital with the
-- 
2.43.0


From dba6e7b3e755114191f5a9a4bbc2125a4f244935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 08/55] fix: wrap positions more than one period outside of a
 periodic lattice

---
 qosy/lattice.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 8a2e159..89c19ef 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -187,6 +187,17 @@ class Lattice:
             
             if (pos_name, orbital_name) in self._indices_orbitals:
                 return self._indices_orbitals[(pos_name, orbital_name)] 
+
+        # If it is not there, the position could also be more than one
+        # period away from the orbital.
+        if np.any(self.periodic_boundaries):
+            periods = np.array([self.num_cells[ind_vec] * self.unit_cell.lattice_vectors[ind_vec] for ind_vec in range(self.dim)])
+            for (ind_orbital, (pos, name, _)) in enumerate(self._orbitals):
+                if name == orbital_name:
+                    coords = nla.solve(periods.T, position - pos)
+                    coords = coords - np.where(self.periodic_boundaries, np.round(coords), 0.0)
+                    if nla.norm(np.dot(coords, periods)) < self.tol:
+                        return ind_orbital
             
         return -1
         
-- 
2.43.0


From 507797c42599dab1893c15d4b7c9f7013127d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 09/55] fix: accept numpy integers as orbital indices in
 Lattice.distance

---
 qosy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 89c19ef..06ad79d 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -227,12 +227,12 @@ class Lattice:
         boundaries to be computed correctly.
         """
 
-        if type(position1) is int:
+        if isinstance(position1, (int, np.integer)):
             (pos1, _, _) = self._orbitals[position1]
         else:
             pos1 = position1
             
-        if type(position2) is int:
+        if isinstance(position2, (int, np.integer)):
             (pos2, _, _) = self._orbitals[position2]
         else:
             pos2 = position2
-- 
2.43.0


From f143d5bfda9d94cef01bd31804d66f7dc1dc5440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 10/55] fix: compare the list's elements in argsort

---
 qosy/symmetrization.py | 5 +----
 qosy/tools.py          | 3 ++-
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 35adf6a..3b46269 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -121,10 +121,7 @@ def _symmetrize_atoms(lattice, G, tol=1e-12):
     # Break ties by considering the distance
     # from the origin along each axis.
     distances = [(nla.norm(pos),)+tuple(np.abs(pos))+tuple(pos) for (pos, _) in sym_atom_info]
-    def _comp(ind1, ind2):
-        tup1 = distances[ind1]
-        tup2 = distances[ind2]
-
+    def _comp(tup1, tup2):
         # Ignore equal entries.
         comparison_vec = np.abs(np.array(tup1) - np.array(tup2)) < tol
         index_tup = 0
diff --git a/qosy/tools.py b/qosy/tools.py
index 22d9a82..46bd241 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -300,7 +300,8 @@ def argsort(mylist, comp=None):
     if comp is None:
         return sorted(range(len(mylist)), key=mylist.__getitem__)
     else:
-        return sorted(range(len(mylist)), key=cmp_to_key(comp))
+        key = cmp_to_key(comp)
+        return sorted(range(len(mylist)), key=lambda ind: key(mylist[ind]))
 
 def remove_duplicates(objects, equiv=None, tol=1e-12):
     """Remove duplicate objects from
-- 
2.43.0


From a386a02b5bbd32d4b516428b44d529ef4d61b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 11/55] fix: discard a zero first vector in gram_schmidt

---
 qosy/tools.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index 46bd241..c1cf12d 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -468,9 +468,7 @@ def gram_schmidt(matrix, tol=0.0):
             return (vec1.H).dot(vec2)[0,0]
         
     shift = 0
-    new_matrix[:,0] = matrix[:,0] / _norm(matrix[:,0])
-    
-    for ind_col_unshifted in range(1,k):
+    for ind_col_unshifted in range(k):
         ind_col = ind_col_unshifted - shift
         new_matrix[:,ind_col] = matrix[:,ind_col_unshifted]
         for ind_vec in range(ind_col):
-- 
2.43.0


From b7475ea492efe6cdd154d5486713722a20f87293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 12/55] fix: swap names in strings that contain parentheses

---
 qosy/tools.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/qosy/tools.py b/qosy/tools.py
index c1cf12d..a814ca1 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -366,11 +366,7 @@ def swap(string, nameA, nameB):
         >>> qosy.swap('1 2 3', '1', '3') # '3 2 1'
     """
     
-    result = string.replace(nameA, '({})'.format(nameA))
-    result = result.replace(nameB, nameA)
-    result = result.replace('({})'.format(nameA), nameB)
-
-    return result
+    return replace(string, {nameA : nameB, nameB : nameA})
 
 def replace(string, substitutions):
     """ Perform many string replacements
-- 
2.43.0


From e280c7b9edaf52f26e6b5693e7f1f85e2bbdec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 13/55] fix: include the identity in distance_basis when asked
 to

---
 qosy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/basis.py b/qosy/basis.py
index f0a69fb..b1f3912 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -952,6 +952,6 @@ def distance_basis(lattice, k, R, op_type, allowed_orbitals=None, include_identi
     
     total_basis = Basis()
     for cluster_labels in sorted_clusters:
-        total_basis += cluster_basis(k, cluster_labels, op_type)
+        total_basis += cluster_basis(k, cluster_labels, op_type, include_identity)
         
     return total_basis
-- 
2.43.0


From 9447166584e1af865b28f3b6496dc549fdfd37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 14/55] fix: convert the Fermion identity without including the
 identity

---
 qosy/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index b0eed54..67674f6 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -204,7 +204,7 @@ def _convert_majorana_string(op_string, include_identity=False):
         else:
             raise ValueError('Invalid lex_order = {} and coeff = {}'.format(lex_order, coeff))
 
-    return Operator(np.array(coeffs_fermion), op_strings_fermion)
+    return Operator(np.array(coeffs_fermion), op_strings_fermion, 'Fermion')
 
 
 def _convert_fermion_string(op_string, include_identity=False):
@@ -307,7 +307,7 @@ def _convert_fermion_string(op_string, include_identity=False):
         coeffs_majorana.append(coeffM)
         op_strings_majorana.append(op_string_M)
 
-    return Operator(np.array(coeffs_majorana), op_strings_majorana)
+    return Operator(np.array(coeffs_majorana), op_strings_majorana, 'Majorana')
 
 def _convert_operator_string(op_string, to_op_type, include_identity=False):
     # Converts an OperatorString to a linear combination of
-- 
2.43.0


From 927c0c8c5c9d95a855353dfdb15c1f48a0276355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 15/55] fix: represent the identity in conversion_matrix when
 it is in the basis

---
 qosy/conversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qosy/conversion.py b/qosy/conversion.py
index 67674f6..005aa70 100644
--- a/qosy/conversion.py
+++ b/qosy/conversion.py
@@ -472,6 +472,9 @@ def conversion_matrix(basis_from, basis_to, tol=1e-16):
         return ss.csr_matrix(dtype=complex,shape=(0,0))
     
     to_op_type = basis_to.op_strings[0].op_type
+
+    # Keep the identity if it can be represented in the new basis.
+    include_identity = OperatorString([], [], to_op_type) in basis_to
     
     # Collect the entries of the sparse conversion matrix.
     row_inds = []
@@ -480,7 +483,7 @@ def conversion_matrix(basis_from, basis_to, tol=1e-16):
     
     for ind_from in range(len(basis_from)):
         op_string_from        = basis_from[ind_from]
-        converted_operator_to = convert(op_string_from, to_op_type)
+        converted_operator_to = convert(op_string_from, to_op_type, include_identity)
 
         for (coeff, op_string_to) in converted_operator_to:
             if np.abs(coeff) > tol:
-- 
2.43.0


From 0d4a6a80b105e9dc5d2cb76214a72ddf036aa4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 16/55] fix: account for non-orthonormal Operators in
 invariant_operators

---
 qosy/core.py | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 7543236..5cfbd40 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -22,6 +22,7 @@ many desired continuous and discrete symmetries at one.
 import warnings
 import numpy as np
 import numpy.linalg as nla
+import scipy.linalg as sla
 import scipy.sparse as ss
 import scipy.sparse.linalg as ssla
 
@@ -101,6 +102,23 @@ def commuting_operators(basis, operator, operation_mode='commutator', return_sup
     else:
         return null_space
 
+def _overlap_matrix(basis):
+    # The overlaps (in terms of their coefficients) between
+    # the vectors in a Basis or list of Operators.
+
+    if isinstance(basis, Basis):
+        return ss.identity(len(basis), dtype=complex, format='csr')
+
+    coeffs_operators = [dict((os, coeff) for (coeff, os) in op) for op in basis]
+
+    overlaps = np.zeros((len(basis), len(basis)), dtype=complex)
+    for indA in range(len(basis)):
+        for indB in range(len(basis)):
+            overlaps[indA, indB] = sum(np.conj(coeff) * coeffs_operators[indB].get(os, 0.0) \
+                                       for (os, coeff) in coeffs_operators[indA].items())
+
+    return ss.csr_matrix(overlaps)
+
 def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=None, return_superoperator=False, tol=1e-10):
     """Find operators in the vector space spanned by the
     OperatorStrings :math:`\\hat{\\mathcal{S}}_a` that commute (or anti-commute)
@@ -126,7 +144,9 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
         If True, returns :math:`I \\mp (S + S^\\dagger)/2` where
         :math:`S` is the symmetry matrix. The null space of 
         this superoperator corresponds to the :math:`(\\pm 1)` 
-        eigenspace of the symmetry matrix. Default is False.
+        eigenspace of the symmetry matrix. For a list of Operators with 
+        the overlap matrix :math:`G`, returns :math:`G \\mp (GS + (GS)^\\dagger)/2`.
+        Default is False.
     num_vecs : int, optional
         Default to None. If None, then the symmetry matrix
         is converted to a dense matrix and full diagonalization
@@ -160,12 +180,19 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     else:
         raise ValueError('Unknown operation_mode: {}'.format(operation_mode))
 
+    # The Operators in a list are not necessarily orthonormal,
+    # so their overlaps need to be taken into account.
+    overlaps   = _overlap_matrix(basis)
+    sym_matrix = overlaps.dot(sym_matrix)
+
     matrix = 0.5*(sym_matrix + sym_matrix.H)
 
-    if num_vecs is None:
+    if num_vecs is None and isinstance(basis, Basis):
         (evals, evecs) = nla.eigh(matrix.toarray())
+    elif num_vecs is None:
+        (evals, evecs) = sla.eigh(matrix.toarray(), overlaps.toarray())
     else:
-        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, sigma=sign)
+        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, M=overlaps, sigma=sign)
 
     inds = np.where(np.abs(evals - sign) < tol)[0]
     vecs = evecs[:,inds]
@@ -174,7 +201,7 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
         warnings.warn('All {} vectors found with eigsh were in the ({})-eigenvalue subspace. Increase num_vecs to ensure that you are not missing null vectors.'.format(num_vecs, sign))
 
     if return_superoperator:
-        superoperator = ss.eye(len(basis), format='csc') - sign * matrix
+        superoperator = overlaps - sign * matrix
         return (vecs, superoperator, 1.0 - sign*evals, evecs)
     else:
         return vecs
-- 
2.43.0


From b83c8f3ab6e9d1114fb1f1520bf84371c43d1d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:41 +0000
Subject: [PATCH 17/55] fix: keep the span of the vectors orthogonalized by the
 operator generator

---
 qosy/core.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 5cfbd40..c6bd966 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -451,12 +451,12 @@ class SymmetricOperatorGenerator:
                 curr_ops   = self.projected_output_operators[ind_output]
                 prev_ops   = self.projected_output_operators[ind_output-1]
 
-                num_curr_ops = int(curr_ops.shape[1])
+                # The current vectors are in the span of the previous
+                # ones, so there are as many vectors as before. Note that
+                # tol is the tolerance of the squared length of the vectors.
+                matrix = np.hstack((curr_ops, prev_ops))
             
-                matrix                    = np.copy(prev_ops)
-                matrix[:, 0:num_curr_ops] = curr_ops
-            
-                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=0.0)
+                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=np.sqrt(tol))
 
                 if verbose:
                     dim_curr = int(curr_ops.shape[1])
-- 
2.43.0


From bbd167f88be8ede499959021c56ffbb34b802ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 18/55] fix: record that no operators were generated for
 skipped symmetries

---
 qosy/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qosy/core.py b/qosy/core.py
index c6bd966..3566a6b 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -484,6 +484,11 @@ class SymmetricOperatorGenerator:
 
             if len(basis) == 0:
                 print(' SKIPPING SYMMETRY {}'.format(ind_input+1))
+                # There are no operators with this symmetry.
+                self.projected_superoperators.append(ss.csr_matrix((0,0), dtype=complex))
+                self.projected_eigenvectors.append(np.zeros((0,0), dtype=complex))
+                self.projected_eigenvalues.append(np.zeros(0))
+                self.projected_output_operators.append([])
                 continue
                 
             input_symmetry = self.input_symmetries[ind_input]
-- 
2.43.0


From 2bc20e5e4e6a170f90a0abf79cab18db836b2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 19/55] fix: shift the spectrum of the symmetry matrix in the
 sparse solver of invariant_operators

---
 qosy/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qosy/core.py b/qosy/core.py
index 3566a6b..32ced3a 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -192,7 +192,10 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
     elif num_vecs is None:
         (evals, evecs) = sla.eigh(matrix.toarray(), overlaps.toarray())
     else:
-        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, M=overlaps, sigma=sign)
+        # Shift slightly outside of the spectrum, since the
+        # shift-invert method fails exactly at an eigenvalue.
+        sigma = sign * (1.0 + 1e-6)
+        (evals, evecs) = ssla.eigsh(matrix, k=num_vecs, M=overlaps, sigma=sigma)
 
     inds = np.where(np.abs(evals - sign) < tol)[0]
     vecs = evecs[:,inds]
-- 
2.43.0


From b113f817057bb508432b9348f1afe5c8f103b411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 20/55] fix: use the current results in repeated noncumulative
 operator generation

---
 qosy/core.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 32ced3a..3a4d0ca 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -344,6 +344,10 @@ class SymmetricOperatorGenerator:
         
         num_inputs = len(self.input_symmetries)
 
+        # The results are appended to those of previous calculations.
+        start           = len(self.output_operators)
+        start_projected = len(self.projected_output_operators)
+
         if verbose:
             print('===== 1. GENERATING OPERATORS =====')
             print(' STARTING WITH BASIS OF DIM {}'.format(len(self.basis)))
@@ -392,15 +396,15 @@ class SymmetricOperatorGenerator:
                 # projection in the first iteration. The "projected_superoperator"
                 # and its eigenvalues/eigenvectors are the same as the unprojected
                 # one. TODO: This should probably be changed in the future.
-                self.projected_output_operators.append(self.output_operators[ind_output])
+                self.projected_output_operators.append(self.output_operators[start+ind_output])
 
-                self.projected_superoperators.append(self.superoperators[ind_output])
-                self.projected_eigenvalues.append(self.eigenvalues[ind_output])
-                self.projected_eigenvectors.append(self.eigenvectors[ind_output])
+                self.projected_superoperators.append(self.superoperators[start+ind_output])
+                self.projected_eigenvalues.append(self.eigenvalues[start+ind_output])
+                self.projected_eigenvectors.append(self.eigenvectors[start+ind_output])
             else:
                 # Project onto the previous iteration's results.
-                curr_ops   = self.output_operators[ind_output]
-                prev_ops   = self.projected_output_operators[ind_output-1]
+                curr_ops   = self.output_operators[start+ind_output]
+                prev_ops   = self.projected_output_operators[start_projected+ind_output-1]
                 
                 # The current projected operators are the intersection
                 # of the current unprojected operators and the previous
@@ -409,7 +413,7 @@ class SymmetricOperatorGenerator:
 
                 # Compute the projected superoperator.
                 proj_curr_ops_sparse    = ss.csr_matrix(proj_curr_ops)
-                projected_superoperator = ((proj_curr_ops_sparse.H).dot(self.superoperators[ind_output])).dot(proj_curr_ops_sparse)
+                projected_superoperator = ((proj_curr_ops_sparse.H).dot(self.superoperators[start+ind_output])).dot(proj_curr_ops_sparse)
                 self.projected_superoperators.append(projected_superoperator)
                 
                 # Compute the projected superoperator's eigenvalues and eigenvectors.
@@ -437,8 +441,8 @@ class SymmetricOperatorGenerator:
                 print('===== 3. POST-PROCESSING: SPARSIFICATION =====')
 
             for ind_output in range(num_inputs):
-                curr_ops = self.projected_output_operators[ind_output]
-                self.projected_output_operators[ind_output] = sparsify(curr_ops)
+                curr_ops = self.projected_output_operators[start_projected+ind_output]
+                self.projected_output_operators[start_projected+ind_output] = sparsify(curr_ops)
                 print(' ({}) Sparsified a vector space of dim {}'.format(ind_output+1, int(curr_ops.shape[1])))
         
         if orthogonalization:
@@ -451,15 +455,15 @@ class SymmetricOperatorGenerator:
             # The goal here is to find a nicer basis for each of the vector spaces.
             for ind_output in range(num_inputs-1,0,-1):
                 # Orthogonalize against the previous iteration's results.
-                curr_ops   = self.projected_output_operators[ind_output]
-                prev_ops   = self.projected_output_operators[ind_output-1]
+                curr_ops   = self.projected_output_operators[start_projected+ind_output]
+                prev_ops   = self.projected_output_operators[start_projected+ind_output-1]
 
                 # The current vectors are in the span of the previous
                 # ones, so there are as many vectors as before. Note that
                 # tol is the tolerance of the squared length of the vectors.
                 matrix = np.hstack((curr_ops, prev_ops))
             
-                self.projected_output_operators[ind_output-1] = gram_schmidt(matrix, tol=np.sqrt(tol))
+                self.projected_output_operators[start_projected+ind_output-1] = gram_schmidt(matrix, tol=np.sqrt(tol))
 
                 if verbose:
                     dim_curr = int(curr_ops.shape[1])
-- 
2.43.0


From d98933584c6071d40fa309c4de1a9215135be9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:13 +0000
Subject: [PATCH 21/55] fix: terminate generate_lie_algebra in the presence of
 rounding errors

---
 qosy/algebra.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 3368686..a94f2a9 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -583,7 +583,8 @@ def generate_lie_algebra(operators, tol=1e-12):
 
         # For simplicity, orthogonalize the vectors.
         # V = columns are the vectors
-        vectors = gram_schmidt(vectors)
+        # Discard any linearly dependent vectors.
+        vectors = gram_schmidt(vectors, tol=np.sqrt(tol))
 
         # The projection P onto the vector space
         # spanned by vectors.
@@ -617,8 +618,9 @@ def generate_lie_algebra(operators, tol=1e-12):
                 
                 opC = -1j * commutator(opA, opB)
 
-                # Normalize the new operator.
-                if opC.norm() > tol:
+                # Normalize the new operator. A norm that is small compared
+                # to those of opA and opB is due to rounding errors.
+                if opC.norm() > np.sqrt(tol) * opA.norm() * opB.norm():
                     opC.remove_zeros(tol=tol)
                     opC.normalize()
                 # Ignore commuting operators.
@@ -646,21 +648,21 @@ def generate_lie_algebra(operators, tol=1e-12):
                 # currently spanned by vectors.
                 vecC = opC.to_vector(combined_basis, fmt='csc')
                 
-                overlaps = projector.dot(vecC)
-                overlap  = (vecC.H).dot(overlaps)[0,0]
+                # Find the part of opC that is orthogonal to that
+                # space. Project twice to reduce the rounding errors.
+                vecC = vecC - projector.dot(vecC)
+                vecC = vecC - projector.dot(vecC)
 
                 # If it is not already in the vector space,
                 # add it to the vector space and update the
                 # projector into that space.
-                if np.abs(overlap - 1.0) > tol:
+                if np.abs((vecC.H).dot(vecC)[0,0]) > tol:
                     # Add the operator (in its original,
                     # non orthogonal form) to the lie algebra.
                     lie_algebra.append(opC)
 
-                    # Update the new vector so that is
-                    # orthogonal to the previous vectors
-                    # and normalized. Then add it to the vectors.
-                    vecC -= overlaps
+                    # Normalize the new vector, which is orthogonal
+                    # to the previous ones, and add it to the vectors.
                     vecC /= np.sqrt(np.abs((vecC.H).dot(vecC)[0,0]))
                     vectors = ss.hstack((vectors, vecC), format='csc')
 
-- 
2.43.0


From cbeae0ecb702d20698da948f51651c290041d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 22/55] fix: build the complete symmetry group in
 symmetrize_basis

---
 qosy/symmetrization.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 3b46269..8d21df0 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -60,24 +60,18 @@ def symmetrize_basis(basis, group_generators, tol=1e-12):
     num_orbitals = len(group_generators[0].info)
     I = label_permutation(np.arange(num_orbitals)) # Identity transformation
     G = [I]
-    G_set = set(G)
-    newG = G + group_generators
-    newG_set = set([tuple(g.info) for g in newG])
-    
-    while len(newG) != len(G):
-        G = newG
-        G_set = newG_set
-        
-        # Generate new group elements
+    G_set = set([tuple(I.info)])
+
+    # Multiply by the generators until no new group elements
+    # are found. Note: G grows as it is iterated over.
+    for g in G:
         for gen in group_generators:
-            for g in G:
-                perm       = compose_permutations(g.info, gen.info)
-                perm_tuple = tuple(perm)
-                if perm_tuple not in newG_set:
-                    newG_set.add(perm_tuple)
-                    perm_transformation = label_permutation(perm)
-                    newG.append(perm_transformation)
-        
+            perm       = compose_permutations(g.info, gen.info)
+            perm_tuple = tuple(perm)
+            if perm_tuple not in G_set:
+                G_set.add(perm_tuple)
+                G.append(label_permutation(perm))
+
     # The symmetrized basis will be a list of Operators
     # that obey the given discrete group symmetries.
     symmetrized_basis  = []
-- 
2.43.0


From ac438cdb496c30369113593e68e4b2fe5234351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:50 +0000
Subject: [PATCH 23/55] fix: reject space group operations that do not permute
 the orbitals

---
 qosy/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/transformation.py b/qosy/transformation.py
index 57377bc..ec1ad29 100644
--- a/qosy/transformation.py
+++ b/qosy/transformation.py
@@ -353,7 +353,7 @@ def space_group_symmetry(lattice, R, d):
     orbital_label_permutation = [lattice.index(np.dot(R,r) + d, orbital_name) \
                                  for (r, orbital_name,_) in lattice]
 
-    if -1 in orbital_label_permutation:
+    if -1 in orbital_label_permutation or len(set(orbital_label_permutation)) != len(orbital_label_permutation):
         raise ValueError('Invalid permutation of orbital labels:\n{}'.format(orbital_label_permutation))
 
     symmetry = label_permutation(orbital_label_permutation)
-- 
2.43.0


From 8e6b2127e1ccb5d982b24a307ce30a3840cb594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 24/55] fix: build the complete point group in
 symmetrize_lattice

---
 qosy/symmetrization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 8d21df0..53ab439 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -240,12 +240,12 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
 
     # Construct the point group G from its generators.
     G = [np.eye(dim)]
-    newG = G + point_group_generators
+    newG = remove_duplicates(G + point_group_generators)
     while len(newG) != len(G):
         G = newG
         
         # Generate new group elements, potentially with duplicates
-        newG = [np.dot(g,gen) for g in G for gen in point_group_generators]
+        newG = G + [np.dot(g,gen) for g in G for gen in point_group_generators]
         # Remove the duplicates
         newG = remove_duplicates(newG)
 
-- 
2.43.0


From b6b00be541c2a53ee5dd9b0de34c2507bc6fe1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 25/55] fix: expand the unit cell in every direction in
 symmetrize_lattice

---
 qosy/symmetrization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qosy/symmetrization.py b/qosy/symmetrization.py
index 53ab439..1e5bfcf 100644
--- a/qosy/symmetrization.py
+++ b/qosy/symmetrization.py
@@ -261,11 +261,12 @@ def symmetrize_lattice(lattice, point_group_generators, num_expansions=1, tol=1e
     for ind_expansion in range(num_expansions):
         # Expand the lattice in the direction of each
         # lattice vector.
+        new_lattice = old_lattice
         for ind_lv in range(len(orig_lattice_vectors)):
             delta = orig_lattice_vectors[ind_lv]
 
             # Expand the lattice in the direction of delta.
-            new_lattice = _expand_lattice(old_lattice, ind_lv, delta)
+            new_lattice = _expand_lattice(new_lattice, ind_lv, delta)
         
         # Symmetrize the atom positions for the new
         # unit cell.
-- 
2.43.0


From 8c6f206cadda1f49077d5df774131b23ba265cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 26/55] fix: keep zero modes from misaligning the energies in
 diagonalize_quadratic

---
 qosy/diagonalization.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index ad7b458..f096952 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -316,6 +316,23 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     # so that it forms 2x2 blocks of the form [[0, a], [-a, 0]].
     (T, Z) = sla.schur(A.toarray(), output='real')
     
+    # The zero modes are 1x1 blocks that can be anywhere between the
+    # 2x2 blocks. Collect them at the end, so that they do not shift
+    # the 2x2 blocks.
+    blocks     = []
+    zero_modes = []
+    ind        = 0
+    while ind < 2*N:
+        if ind + 1 < 2*N and np.abs(T[ind,ind+1]) > threshold:
+            blocks.extend([ind, ind+1])
+            ind += 2
+        else:
+            zero_modes.append(ind)
+            ind += 1
+    order = blocks + zero_modes
+    T     = T[order,:][:,order]
+    Z     = Z[:,order]
+
     # N (non-negative) eigenvalues
     # Note: the +/- eigenvalue pairs across the diagonal are
     # scrambled so that sometimes the positive one is on the
-- 
2.43.0


From 16c273ea4a0af69a50e4e2c9db6b89025b488786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 27/55] fix: fermionic eigenvectors of diagonalize_quadratic

---
 qosy/diagonalization.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index f096952..5fff543 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -357,23 +357,23 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
     eigvecs_Fermion = np.zeros((2*N,2*N), dtype=complex)
     for m in range(N):
         for n in range(N):
-            # The \bar{c_m} vectors
-            # \bar{c}_m = \sum_n a_n c_n + ...
+            # The \bar{c}_n vectors
+            # \bar{c}_n = \sum_m a_m c_m + ...
             eigvecs_Fermion[m,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
                                           -1j*Z[2*m+1,2*n] +    Z[2*m+1,2*n+1])
 
-            # \bar{c}_m = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[m,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                              +1j*Z[2*m+1,2*n]    - Z[2*m+1,2*n+1])
+            # \bar{c}_n = ... + \sum_m b_m c_m^\dagger
+            eigvecs_Fermion[m+N,n] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
+                                            +1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
             
-            # The \bar{c_m}^\dagger vectors
-            # \bar{c}_m^\dagger = \sum_n a_n c_n + ...
-            eigvecs_Fermion[2*m+1,n] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
-                                              -1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
-
-            # \bar{c}_m^\dagger = ... + \sum_n b_n c_n^\dagger
-            eigvecs_Fermion[2*m+1,2*n+1] = 0.5 * (    Z[2*m,2*n]   + 1j*Z[2*m,2*n+1] \
-                                                  -1j*Z[2*m+1,2*n]    + Z[2*m+1,2*n+1])
+            # The \bar{c}_n^\dagger vectors
+            # \bar{c}_n^\dagger = \sum_m a_m c_m + ...
+            eigvecs_Fermion[m,n+N] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
+                                            -1j*Z[2*m+1,2*n] -    Z[2*m+1,2*n+1])
+
+            # \bar{c}_n^\dagger = ... + \sum_m b_m c_m^\dagger
+            eigvecs_Fermion[m+N,n+N] = 0.5 * (    Z[2*m,2*n]   - 1j*Z[2*m,2*n+1] \
+                                              +1j*Z[2*m+1,2*n] +    Z[2*m+1,2*n+1])
             
     # The ground state energy
     constant_shift = -0.5*np.sum(eigvals)
-- 
2.43.0


From d08a806e7220294f1de38491cd94b9ad04a5918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 28/55] fix: make to_operator work

---
 qosy/diagonalization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 5fff543..404c238 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -106,9 +106,9 @@ def to_vector(matrix, basis, num_orbitals):
     
 # TODO: document, test
 def to_operator(matrix, basis, num_orbitals):
-    coeffs = to_vector(matrix, basis)
+    coeffs = to_vector(matrix, basis, num_orbitals)
 
-    op = qy.Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
+    op = Operator(coeffs, basis.op_strings, op_type=basis.op_strings[0].op_type)
 
     return op
 
-- 
2.43.0


From 23c20a1a2c6d60d3c873e83547044c38e3c121d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:37 +0000
Subject: [PATCH 29/55] fix: ignore cancelled pairing terms in
 diagonalize_quadratic_tightbinding

---
 qosy/diagonalization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index 404c238..ccd223d 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -383,7 +383,8 @@ def diagonalize_quadratic(operator, num_orbitals, lattice=None, threshold=1e-12)
 # TODO: document, test, finish
 def diagonalize_quadratic_tightbinding(operator, num_orbitals, num_vecs=None):
     
-    op = convert(operator, 'Fermion')
+    # Pairing terms can cancel in the conversion.
+    op = convert(operator, 'Fermion').remove_zeros(tol=1e-12)
     
     data = []
     row_inds = []
-- 
2.43.0


From ce504d5619fda533e312f30f44aabf1ac1c095a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:38 +0000
Subject: [PATCH 30/55] fix: explore the terms of new operators from the
 already explored basis

_explore assumed that everything in explored_basis had been commuted with
every term of H. With shared explored_data (or several com_ops in
selected_ci_greedy) the entries of terms seen for the first time were missing.
---
 qosy/algorithms.py | 56 +++++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 7e324fd..5dac73d 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -127,32 +127,42 @@ def _explore(basis, H, explored_basis, explored_extended_basis, explored_s_const
     # First, find the part of basis that is unexplored.
     unexplored_basis = Basis([os for os in basis if os not in explored_basis])
 
-    # Then explore that part.
-    (unexplored_s_constants_data, unexplored_extended_basis) = structure_constants(unexplored_basis, H._basis, return_extended_basis=True, return_data_tuple=True)
+    # Also find the terms in H that were not considered in the previous
+    # explorations. These need to be explored from the whole explored_basis.
+    explored_terms   = Basis(list(explored_s_constants_data.keys()))
+    unexplored_terms = Basis([os for os in H._basis if os not in explored_terms])
 
-    # Update the explored Bases.
-    explored_basis          += unexplored_basis
-    explored_extended_basis += unexplored_extended_basis
+    explorations = [(unexplored_basis, explored_terms), (explored_basis + unexplored_basis, unexplored_terms)]
 
-    # Update the explored structure constants data.
-    for (coeff, os) in H:
-        # The new information found from exploring.
-        row_inds_unexplored = [explored_extended_basis.index(unexplored_extended_basis.op_strings[ind_eb_os]) for ind_eb_os in unexplored_s_constants_data[os][0]]
-        col_inds_unexplored = [explored_basis.index(unexplored_basis.op_strings[ind_b_os]) for ind_b_os in unexplored_s_constants_data[os][1]]
-        data_unexplored     = unexplored_s_constants_data[os][2]
-
-        # The old information from previous exploration.
-        if os in explored_s_constants_data:
-            old_row_inds = explored_s_constants_data[os][0]
-            old_col_inds = explored_s_constants_data[os][1]
-            old_data     = explored_s_constants_data[os][2]
-        else:
-            old_row_inds = []
-            old_col_inds = []
-            old_data     = []
+    # Update the explored Basis.
+    explored_basis += unexplored_basis
+    
+    for (new_basis, terms) in explorations:
+        # Then explore that part.
+        (new_s_constants_data, new_extended_basis) = structure_constants(new_basis, terms, return_extended_basis=True, return_data_tuple=True)
+
+        # Update the explored extended Basis.
+        explored_extended_basis += new_extended_basis
+
+        # Update the explored structure constants data.
+        for os in terms:
+            # The new information found from exploring.
+            row_inds_new = [explored_extended_basis.index(new_extended_basis.op_strings[ind_eb_os]) for ind_eb_os in new_s_constants_data[os][0]]
+            col_inds_new = [explored_basis.index(new_basis.op_strings[ind_b_os]) for ind_b_os in new_s_constants_data[os][1]]
+            data_new     = new_s_constants_data[os][2]
+
+            # The old information from previous exploration.
+            if os in explored_s_constants_data:
+                old_row_inds = explored_s_constants_data[os][0]
+                old_col_inds = explored_s_constants_data[os][1]
+                old_data     = explored_s_constants_data[os][2]
+            else:
+                old_row_inds = []
+                old_col_inds = []
+                old_data     = []
             
-        # The update
-        explored_s_constants_data[os] = (old_row_inds + row_inds_unexplored, old_col_inds + col_inds_unexplored, old_data + data_unexplored)
+            # The update
+            explored_s_constants_data[os] = (old_row_inds + row_inds_new, old_col_inds + col_inds_new, old_data + data_new)
     
     # From the collected information, find the
     # extended_basis corresponding to basis.
-- 
2.43.0


From 1a4394896636a92269a93c64da693b836af7a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 31/55] fix: use the matrix returned by _explore in selected_ci

_explore returns the liouvillian matrix, which selected_ci, selected_ci_sweep
and selected_ci_greedy_simple passed on as if it were the dictionary of
structure constants; liouvillian_matrix was not imported.
---
 qosy/algorithms.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 5dac73d..2a9d391 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -15,7 +15,7 @@ import scipy.sparse.linalg as ssla
 from .tools import intersection, gram_schmidt, sparsify
 from .operatorstring import opstring
 from .basis import Basis, Operator
-from .algebra import commutator, commutant_matrix, structure_constants, product, anticommutator
+from .algebra import commutator, commutant_matrix, liouvillian_matrix, structure_constants, product, anticommutator
 from .transformation import symmetry_matrix
     
 def _truncate_basis(basis, vector, threshold=1e-6, max_basis_size=100, filter_fun=None):
@@ -308,8 +308,8 @@ def selected_ci(initial_operator, H, num_steps, threshold=1e-6, max_basis_size=1
         print('Expanded basis: {}'.format(len(basis)))
 
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 2*max_num_evecs:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
@@ -446,8 +446,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
             print('  Expanded basis: {}'.format(len(basis)))
 
             # Find best operator in basis
-            (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-            com_matrix = _com_matrix(s_constants, H).real
+            (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+            com_matrix = ((l_matrix.H).dot(l_matrix)).real
 
             orig_com_matrix = com_matrix.copy()
             
@@ -587,9 +587,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             operator = operators[-1]
         
         # O -> [H,O]
-        (s_constants1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        (l_matrix1, extended_basis1) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
-        l_matrix1    = _l_matrix(s_constants1, H)
         com_H_operator = l_matrix1.dot(ss.csr_matrix(operator.coeffs).T)
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
@@ -597,9 +596,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
-            (s_constants2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-
-            l_matrix2 = _l_matrix(s_constants2, H)
+            (l_matrix2, extended_basis2) = _explore(A_basis1, H, explored_basis, explored_extended_basis, explored_s_constants_data)
 
             #A = ss.csr_matrix(([1.0], ([0], [0])), shape=(1,1), dtype=complex)
             com_H_A = l_matrix2.toarray()[:,0]
@@ -632,8 +629,8 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             previous_basis = copy.deepcopy(basis)
             
         # Find best operator in basis
-        (s_constants, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = _com_matrix(s_constants, H).real
+        (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
+        com_matrix = ((l_matrix.H).dot(l_matrix)).real
         
         if len(basis) < 20:
             (evals, evecs) = nla.eigh(com_matrix.toarray())
-- 
2.43.0


From fce5691454cf2c3c0bdbde9bb9a6396c066421ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 32/55] fix: compute an operator in selected_ci even if the
 initial basis is closed

The searches compared the expanded basis with the initial one before the first
step and returned no operator when they agreed; selected_ci_greedy_simple failed when there was no new term.
---
 qosy/algorithms.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 2a9d391..4489864 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -296,7 +296,7 @@ def selected_ci(initial_operator, H, num_steps, threshold=1e-6, max_basis_size=1
         basis += temp_extended_basis
 
         # End early if the algorithm has converged to a basis.
-        if set(basis.op_strings) == set(previous_basis.op_strings):
+        if step > 0 and set(basis.op_strings) == set(previous_basis.op_strings):
             break
         # Also end early if it gets into a cycle of switching between two bases.
         elif previous_previous_basis is not None and set(basis.op_strings) == set(previous_previous_basis.op_strings):
@@ -434,7 +434,7 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
                 basis = pre_filter_fun(basis)
             
             # Skip com_matrix calculation if the algorithm has converged to a basis.
-            if set(basis.op_strings) == set(previous_basis.op_strings):
+            if len(operators) > 0 and set(basis.op_strings) == set(previous_basis.op_strings):
                 continue
             # Also if it gets into a cycle of switching between two bases.
             #elif previous_previous_basis is not None and set(basis.op_strings) == set(previous_previous_basis.op_strings):
@@ -593,6 +593,7 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
 
         # largest term of [H,O] is A; A -> largest term B in [H,A]
         inds_largest_termsA = np.argsort(np.abs(com_H_operator.toarray().flatten()))[::-1]
+        ind_largest_termB = None
         for indA in inds_largest_termsA:
             A_basis1 = Basis()
             A_basis1 += extended_basis1[indA]
@@ -603,7 +604,6 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
             #print('com_H_A = {}'.format(com_H_A))
         
             inds_largest_termsB = np.argsort(np.abs(com_H_A))[::-1]
-            ind_largest_termB = None
             for indB in inds_largest_termsB:
                 if extended_basis2[indB] not in basis:
                     ind_largest_termB = indB
@@ -614,12 +614,13 @@ def selected_ci_greedy_simple(initial_operator, H, num_steps, threshold=1e-6, ma
                 print('Failed to find a B, picking new A.')
                 
         # Insert B into the basis
-        basis += extended_basis2[ind_largest_termB]
+        if ind_largest_termB is not None:
+            basis += extended_basis2[ind_largest_termB]
         
         print('Basis = {}'.format(len(basis)))
             
         # Skip com_matrix calculation if the algorithm has converged to a basis.
-        if set(basis.op_strings) == set(previous_basis.op_strings):
+        if step > 0 and set(basis.op_strings) == set(previous_basis.op_strings):
             continue
         # Also if it gets into a cycle of switching between two bases.
         #elif previous_previous_basis is not None and set(basis.op_strings) == set(previous_previous_basis.op_strings):
-- 
2.43.0


From f8e8bf5fa71e967d3878b416e36d4dc535093d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:47 +0000
Subject: [PATCH 33/55] fix: keep the best constrained operator in
 selected_ci_greedy

The vectors were re-sorted by |[H,O]|^2 alone, so that with several com_ops or
with orth_ops the result was not the operator minimizing what was asked for.
---
 qosy/algorithms.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 4489864..15ced9a 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -949,10 +949,6 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
                 vec = ss.csr_matrix(evecs[:, ind_vec].reshape((len(basis), 1)), dtype=complex)
                 evals[ind_vec] = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
 
-            inds_sort = np.argsort(np.abs(evals))
-            evals = evals[inds_sort]
-            evecs = evecs[:, inds_sort]
-
         if target_operator is None:
             vector   = evecs[:,0]
             com_norm = evals[0]
-- 
2.43.0


From 8a9f72dde1e122b71142ab5d9336de8e3c835e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 34/55] fix: return the string when there is nothing to replace

The empty regular expression matched everywhere and raised a KeyError.
---
 qosy/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/tools.py b/qosy/tools.py
index a814ca1..adc7a3a 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -391,6 +391,9 @@ def replace(string, substitutions):
     
     # From https://gist.github.com/carlsmith/b2e6ba538ca6f58689b4c18f46fef11c
     
+    if len(substitutions) == 0:
+        return string
+
     substrings = sorted(substitutions, key=len, reverse=True)
     regex      = re.compile('|'.join(map(re.escape, substrings)))
 
-- 
2.43.0


From 9f81a791f9362e97ebbf173e6823c407dbcefd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 35/55] fix: accept sparse matrices in sparsify

They are documented, but scipy.linalg.lu raised an error.
---
 qosy/tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/tools.py b/qosy/tools.py
index adc7a3a..9fbbe12 100644
--- a/qosy/tools.py
+++ b/qosy/tools.py
@@ -556,6 +556,9 @@ def sparsify(vectors, orthogonalize=True, tol=1e-12):
         >>> qosy.sparsify(vecs) # [[1,0],[0,1]]
     """
 
+    if ss.issparse(vectors):
+        vectors = vectors.toarray()
+
     num_vectors = int(vectors.shape[1])
     
     if num_vectors <= 1:
-- 
2.43.0


From 4ea8e411f54b72848fe2df8264ca10b30e86888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 36/55] fix: compute the norms of an Operator without terms

The inf-norm raised an error, e.g., when printing a zero vector.
---
 qosy/basis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/basis.py b/qosy/basis.py
index b1f3912..10c8619 100644
--- a/qosy/basis.py
+++ b/qosy/basis.py
@@ -411,6 +411,9 @@ class Operator:
         >>> operator.norm(order=numpy.inf) # 1.0
         """
         
+        if len(self.coeffs) == 0:
+            return np.linalg.norm(self.coeffs)
+        
         return np.linalg.norm(self.coeffs, ord=order)
 
     def normalize(self, order=None):
-- 
2.43.0


From e493baf4340703e06fa9b43c13beb59efc5584f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 37/55] fix: end selected_ci_greedy if the target fidelity
 cannot be reached

---
 qosy/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 15ced9a..3144218 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -971,8 +971,9 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             
             if target_fidelity is not None and (fidelity < target_fidelity):
                 # If it fails on the first step, it likely
-                # will keep failing.
-                if step == 0:
+                # will keep failing. If all eigenvectors are
+                # already used, more of them cannot help.
+                if step == 0 or int(evecs.shape[1]) == len(basis):
                     # End early.
                     end_early = True
                     if verbose:
-- 
2.43.0


From fe65ba6a7c3b65cb53ed22d29581b42989772e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 38/55] fix: truncate the operators of the greedy searches with
 their own coefficients

---
 qosy/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 3144218..7181fef 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1024,12 +1024,12 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             best_com_norm = com_norm
         
         # Truncate basis
-        basis = _truncate_basis(basis, evecs[:,0], threshold=threshold, max_basis_size=max_basis_sizes_arr[step])
+        basis = _truncate_basis(basis, vector, threshold=threshold, max_basis_size=max_basis_sizes_arr[step])
         if verbose:
             print('  Truncated basis: {}'.format(len(basis)))
 
         # Truncate the operator into the new basis
-        new_coeffs = [vector[basis.index(os)] for os in basis]
+        new_coeffs = [vector[operator._basis.index(os)] for os in basis]
         operator = Operator(new_coeffs, basis.op_strings)
 
         # Stop early if reached the target commutator norm threshold.
@@ -1268,7 +1268,7 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         # Truncate the operator into the new basis
         current_operators = []
         for ind_vec in range(num_ops):
-            new_coeffs = [evecs[basis.index(os),ind_vec] for os in basis]
+            new_coeffs = [evecs[previous_basis.index(os),ind_vec] for os in basis]
             new_op     = Operator(new_coeffs, basis.op_strings)
             current_operators.append(new_op)
         
-- 
2.43.0


From 4a74f7c900291c5831b95ff373c97cf168c86a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 39/55] fix: report norms without the constraints in
 selected_ci_greedy

---
 qosy/algorithms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 7181fef..6bca967 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -944,7 +944,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
 
         # Recompute the commutator norms for just
         # commuting with the Hamiltonian.
-        if len(com_ops) > 1 or orth_ops is not None:
+        if len(com_ops) > 1 or orth_ops is not None or transformations is not None:
             for ind_vec in range(int(evecs.shape[1])):
                 vec = ss.csr_matrix(evecs[:, ind_vec].reshape((len(basis), 1)), dtype=complex)
                 evals[ind_vec] = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
@@ -968,6 +968,11 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
             # commutator norm with the Hamiltonian |[H, O]|^2,
             # even though it is not an eigenstate of the commutant matrix.
             (vector, com_norm, fidelity) = highest_fidelity_operator(target_op, evecs, evals, basis)
+
+            # The eigenvectors only diagonalize the commutant matrix
+            # of the Hamiltonian if nothing else was added to it.
+            if len(com_ops) > 1 or orth_ops is not None or transformations is not None:
+                com_norm = np.vdot(vector, com_matrix_H.dot(vector)).real
             
             if target_fidelity is not None and (fidelity < target_fidelity):
                 # If it fails on the first step, it likely
-- 
2.43.0


From 84cb23a29a5d74e9953a4d240331379f4383e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 40/55] fix: report norms without the constraints in
 selected_ci_greedy_many_ops2

---
 qosy/algorithms.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 6bca967..dcec1f0 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1225,7 +1225,8 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         
         # Find best operators in basis
         (l_matrix, _) = _explore(basis, H, explored_basis, explored_extended_basis, explored_s_constants_data)
-        com_matrix = ((l_matrix.H).dot(l_matrix)).real
+        com_matrix_H = ((l_matrix.H).dot(l_matrix)).real
+        com_matrix   = com_matrix_H
             
         # Orthogonalize against the given operators.
         if orth_ops is not None:
@@ -1246,11 +1247,7 @@ def selected_ci_greedy_many_ops2(initial_operators, H, num_steps, num_H_terms=10
         if orth_ops is not None:
             for ind_vec in range(int(evecs.shape[1])):
                 vec = ss.csr_matrix(evecs[:, ind_vec].reshape((len(basis), 1)), dtype=complex)
-                evals[ind_vec] = (vec.H).dot(com_matrix.dot(vec))[0,0].real
-                
-            inds_sort = np.argsort(np.abs(evals))
-            evals = evals[inds_sort]
-            evecs = evecs[:, inds_sort]
+                evals[ind_vec] = (vec.H).dot(com_matrix_H.dot(vec))[0,0].real
             
         vector   = evecs[:,0]
         com_norm = evals[0]
-- 
2.43.0


From 919de7f7e93131642ba4f2d935e152e06ca050a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:49 +0000
Subject: [PATCH 41/55] fix: find all and only the ladder operators in the
 given basis

---
 qosy/core.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 3a4d0ca..1c3073e 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -856,17 +856,25 @@ def _ladder_operators(basis, operator, sparsification=False, tol=1e-12, return_o
         L_notAB = L[inds_os_notAB_in_B, :]
         L_notAB = L_notAB[:, inds_os_AB_in_A].toarray()
 
-        # Perform SVD on the L_notAB to determine the right null vectors.
-        # These are the vectors we care about: they stay in basisAB after
-        # applying the Liouvillian matrix.
-        (left_svecs, svals, right_svecsH) = nla.svd(L_notAB)
-
-        inds_zero_svals = np.where(np.abs(svals) < tol)[0]
-        print('inds_zero_svals = {}'.format(inds_zero_svals))
-        valid_vecs      = np.conj(np.transpose(right_svecsH))[:, inds_zero_svals]
-        
-        print('svals      = {}'.format(svals))
-        #print('valid_vecs = {}'.format(valid_vecs))
+        # Perform SVD on the L_notAB to determine the right null vectors
+        # in each eigenspace of L_AB. These are the vectors we care about:
+        # the eigenvectors of L_AB that stay in basisAB after applying the
+        # Liouvillian matrix.
+        (evals_AB, evecs_AB) = nla.eigh(0.5*(L_AB + np.conj(np.transpose(L_AB))))
+
+        valid_vecs = [np.zeros((len(inds_os_AB_in_A), 0), dtype=complex)]
+        ind_ev     = 0
+        while ind_ev < len(evals_AB):
+            num_deg    = np.sum(np.abs(evals_AB[ind_ev:] - evals_AB[ind_ev]) < 1e-10)
+            eigenspace = evecs_AB[:, ind_ev:ind_ev+num_deg]
+            
+            (left_svecs, svals, right_svecsH) = nla.svd(np.dot(L_notAB, eigenspace))
+            
+            rank = np.sum(np.abs(svals) >= 1e-10)
+            valid_vecs.append(np.dot(eigenspace, np.conj(np.transpose(right_svecsH))[:, rank:]))
+            
+            ind_ev += num_deg
+        valid_vecs = np.hstack(valid_vecs)
 
         # The L_A matrix projected onto the valid vectors that stay in basisA.
         projected_L = np.dot(np.conj(np.transpose(valid_vecs)), np.dot(L_AB, valid_vecs))
-- 
2.43.0


From 1209011bbcf6e4aec73e84586d5cf30698328b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:32 +0000
Subject: [PATCH 42/55] fix: find all and only the inverse ladder operators in
 the given basis

---
 qosy/core.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/qosy/core.py b/qosy/core.py
index 1c3073e..d26a30a 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -1082,11 +1082,18 @@ def _inverse_ladder_operators(basis, ladder_operator, sparsification=True, tol=1
     
     # The right null vectors of the Liouvillian matrix.
     (left_svecs, svals, right_svecs_dag) = nla.svd(L.toarray())
-    inds_null_space = np.where(np.abs(svals) < tol)[0]
-    right_null_vecs = np.conj(right_svecs_dag.T)[:, inds_null_space]
+    rank            = np.sum(np.abs(svals) >= tol)
+    right_null_vecs = np.conj(right_svecs_dag.T)[:, rank:]
 
     if sparsification:
         right_null_vecs = sparsify(right_null_vecs)
+
+    # The homogenous solutions, as they are returned if there
+    # is no particular solution.
+    if return_operators:
+        null_vecs = [Operator(vector, basisA.op_strings) for vector in right_null_vecs.T]
+    else:
+        null_vecs = right_null_vecs
     
     # Check if the ladder operator can be expressed in basisB.
     check_ladder_op_in_B = True
@@ -1098,16 +1105,21 @@ def _inverse_ladder_operators(basis, ladder_operator, sparsification=True, tol=1
     # homogenous solutions (symmetries) and
     # no particular solution.
     if not check_ladder_op_in_B:
-        return (None, right_null_vecs)
+        return (None, null_vecs)
     
     vector_ladder_op = ladder_operator.to_vector(basisB)
     
     # The pseudo-inverse of the Liouvillian matrix.
-    L_pinv = nla.pinv(L.toarray())
+    L_pinv = nla.pinv(L.toarray(), rcond=tol)
 
     # The particular solution.
     vector_inverse_op = np.dot(L_pinv, vector_ladder_op)
 
+    # If the pseudo-inverse does not solve the equation,
+    # there is no particular solution either.
+    if not np.allclose(L.dot(vector_inverse_op), vector_ladder_op):
+        return (None, null_vecs)
+
     # TODO: modify. Keep only the real null vectors.
 
     print('basisA:\n{}\nbasisB:\n{}'.format(basisA,basisB))
-- 
2.43.0


From a9772048db13f4def3bc17a03077d341d3ba4a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:34 +0000
Subject: [PATCH 43/55] fix: refuse products of operator strings of different
 types

---
 qosy/algebra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index a94f2a9..2127704 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -27,6 +27,8 @@ def _operation_opstring(op_string_A, op_string_B, operation_mode='commutator', t
     op_type = op_string_A.op_type
     if not (op_type == 'Pauli' or op_type == 'Majorana'):
         raise NotImplementedError('Unsupported commutator between operator strings of type: {}'.format(op_type))
+    if op_string_B.op_type != op_type:
+        raise ValueError('Cannot perform algebraic operation {} between OperatorStrings of types {} and {}.'.format(operation_mode, op_type, op_string_B.op_type))
 
     if operation_mode == 'product' \
        and (op_type == 'Pauli' or op_type == 'Majorana') \
-- 
2.43.0


From 14cc366a04326d1862d9ce7b0f8df85c3b314f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 44/55] fix: refuse unknown operation modes of algebraic
 operations

---
 qosy/algebra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qosy/algebra.py b/qosy/algebra.py
index 2127704..d081225 100644
--- a/qosy/algebra.py
+++ b/qosy/algebra.py
@@ -24,6 +24,9 @@ def _operation_opstring(op_string_A, op_string_B, operation_mode='commutator', t
     operation_mode='product'        returns S_a * S_b
     """
     
+    if operation_mode not in ['commutator', 'anticommutator', 'product']:
+        raise ValueError('Unknown operation_mode: {}'.format(operation_mode))
+
     op_type = op_string_A.op_type
     if not (op_type == 'Pauli' or op_type == 'Majorana'):
         raise NotImplementedError('Unsupported commutator between operator strings of type: {}'.format(op_type))
-- 
2.43.0


From 1dffd81fa16eba81f187cd761b652d33afa2b746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 45/55] fix: keep orthogonality and symmetry constraints of
 searches well conditioned

The penalties of 1e10 and 1e12 were lost to round-off together with the
elements of the commutant matrix and the shift of the shift-invert method
for bases of 20 and more strings. Project the given operators out instead.
---
 qosy/algorithms.py | 59 +++++++++++++++++-----------------------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index dcec1f0..8530b4b 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -79,26 +79,25 @@ def _orthogonalize_com_matrix(com_matrix, basis, orth_ops):
     # ground state orthogonal to the given
     # operators.
 
-    new_com_matrix = com_matrix.copy()
-    
+    # The parts of the given operators that are in the
+    # basis. The real and imaginary parts are separate
+    # vectors, since the ground state is real.
+    orth_vecs = np.zeros((len(basis), 2*len(orth_ops)))
+    for ind_op in range(len(orth_ops)):
+        for (coeff, os) in orth_ops[ind_op]:
+            if os in basis:
+                orth_vecs[basis.index(os), 2*ind_op]   = np.real(coeff)
+                orth_vecs[basis.index(os), 2*ind_op+1] = np.imag(coeff)
+    orth_vecs = ss.csr_matrix(gram_schmidt(orth_vecs, tol=1e-10))
+
     # Create a projection matrix that projects
     # out of the space spanned by the given operators.
-    proj_ops = ss.csr_matrix((len(basis),len(basis)), dtype=complex)
-    for orth_op in orth_ops:
-        row_inds = []
-        col_inds = []
-        data     = []
-        for (coeff, os) in orth_op:
-            if os in basis:
-                data.append(coeff)
-                row_inds.append(basis.index(os))
-                col_inds.append(0)
-        orth_vec = ss.csr_matrix((data, (row_inds, col_inds)), shape=(len(basis),1), dtype=complex)
+    proj_ops  = orth_vecs.dot(orth_vecs.H)
+    projector = ss.identity(len(basis), format='csr') - proj_ops
 
-        proj_ops += orth_vec.dot(orth_vec.H)
-        
-    large_number = 1e10
-    new_com_matrix += large_number * proj_ops
+    # (See _symmetrize_com_matrix.)
+    large_number   = 1e6 * max(1.0, abs(com_matrix).max())
+    new_com_matrix = projector.dot(com_matrix).dot(projector) + large_number * proj_ops
 
     return new_com_matrix.real
 
@@ -109,7 +108,10 @@ def _symmetrize_com_matrix(com_matrix, basis, transformations):
 
     new_com_matrix = com_matrix.copy()
 
-    large_number = 1e10
+    # A number that is large compared to the elements of the commutant
+    # matrix, but not so large that they, and the small shift of the
+    # shift-invert method, are lost to round-off.
+    large_number = 1e6 * max(1.0, abs(com_matrix).max())
     for transformation in transformations:
         matrix = symmetry_matrix(basis, transformation)
         matrix = 0.5*(matrix + matrix.H)
@@ -453,25 +455,8 @@ def selected_ci_sweep(initial_operator, H, num_sweeps, threshold=1e-6, max_basis
             
             # Project against the given operators.
             if orth_ops is not None:
-                # Create a projection matrix that projects
-                # out of the space spanned by the given operators.
-                proj_ops = ss.csr_matrix((len(basis),len(basis)), dtype=complex)
-                for orth_op in orth_ops:
-                    row_inds = []
-                    col_inds = []
-                    data     = []
-                    for (coeff, os) in orth_op:
-                        if os in basis:
-                            data.append(coeff)
-                            row_inds.append(basis.index(os))
-                            col_inds.append(0)
-                    orth_vec = ss.csr_matrix((data, (row_inds, col_inds)), shape=(len(basis),1), dtype=complex)
-
-                    proj_ops += orth_vec.dot(orth_vec.H)
-
-                large_number = 1e12
-                com_matrix += large_number * proj_ops
-            
+                com_matrix = _orthogonalize_com_matrix(com_matrix, basis, orth_ops)
+
             # Rescale C^\dagger C to D^{-1/2} C^\dagger C D^{-1/2}
             # for a given normalization of the OperatorStrings D.
             if norm_fun is not None:
-- 
2.43.0


From cc43f14166b79cede8a1cd8fc5723165902102ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:15 +0000
Subject: [PATCH 46/55] fix: permute configurations of 64 and more orbitals
 without overflow

---
 qosy/diagonalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/diagonalization.py b/qosy/diagonalization.py
index ccd223d..6e052a5 100644
--- a/qosy/diagonalization.py
+++ b/qosy/diagonalization.py
@@ -125,7 +125,7 @@ def apply_transformation_conf(transformation, conf, num_orbitals):
     
     new_conf = 0
     for label in range(num_orbitals):
-        new_label = permutation[label]
+        new_label = int(permutation[label])
         mask_old_label = (1 << (num_orbitals-1-label))
         mask_new_label = (1 << (num_orbitals-1-new_label))
         
-- 
2.43.0


From c0ff6c7c2719b2cf2c5c27dd8abb34b246ee31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 47/55] fix: plot operator strings on three and more orbitals
 of a chain

---
 qosy/visualization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 41838fd..50c9c46 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -467,6 +467,8 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
                 plt.plot([pos1[0], pos2[0]], [pos1[1], pos2[1]], 'r-', linewidth=max_width*np.abs(weight), alpha=0.5*np.abs(weight))
         else:
             positions = [lattice._orbitals[orb_label][0] for (orb_op, orb_label) in op_string]
+            if lattice.dim == 1:
+                positions = [np.array([pos[0], 0.0]) for pos in positions]
             num_pos = len(positions)
 
             # Order the points by angles from a reference point.
-- 
2.43.0


From f1e62a1fa9174591248d94d0a1811f7c06a15131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 48/55] fix: draw the markers of two-orbital operator strings,
 in the color of each operator

---
 qosy/visualization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 50c9c46..1db5605 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -453,11 +453,11 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
 
             # TODO: flag to plot only bonds involving a particular site
 
-            plt.plot([pos1[0]], [pos1[1]], color=markercolors[orb_op1], markeredgecolor=markercolors[orb_op1], alpha=0.5*np.abs(weight), markersize=marker_size)
+            plt.plot([pos1[0]], [pos1[1]], 'o', color=markercolors[orb_op1], markeredgecolor=markercolors[orb_op1], alpha=0.5*np.abs(weight), markersize=marker_size)
             if orb_name1 != '':
                 plt.annotate(orb_name1, xy=(pos1[0],pos1[1]), color='k')
             
-            plt.plot([pos2[0]], [pos2[1]], color=markercolors[orb_op1], markeredgecolor=markercolors[orb_op2], alpha=0.5*np.abs(weight), markersize=marker_size)
+            plt.plot([pos2[0]], [pos2[1]], 'o', color=markercolors[orb_op2], markeredgecolor=markercolors[orb_op2], alpha=0.5*np.abs(weight), markersize=marker_size)
             if orb_name2 != '':
                 plt.annotate(orb_name2, xy=(pos2[0],pos2[1]), color='k')
 
@@ -537,7 +537,7 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
             if orb_name1 != '':
                 ax.text(pos1[0], pos1[1], pos1[2], orb_name1, size=20, zorder=1)
 
-            ax.scatter([pos2[0]], [pos2[1]], zs=[pos2[2]], marker='o', c=markercolors[orb_op1], alpha=0.5*np.abs(weight), s=marker_size)
+            ax.scatter([pos2[0]], [pos2[1]], zs=[pos2[2]], marker='o', c=markercolors[orb_op2], alpha=0.5*np.abs(weight), s=marker_size)
             if orb_name2 != '':
                 ax.text(pos2[0], pos2[1], pos2[2], orb_name2, size=20, zorder=1)
 
-- 
2.43.0


From 459eb349cca45e5411cc1f3a2ce5083a827733b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 49/55] fix: warn about plotted coefficients with a negative
 imaginary part

---
 qosy/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 1db5605..d0d3e64 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -414,7 +414,7 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
         
     max_width = 3.0
     
-    if np.imag(weight) > 1e-10:
+    if np.abs(np.imag(weight)) > 1e-10:
         warnings.warn('Cannot plot an operator string with an imaginary coefficient. Taking real part.')
     
     weight = np.real(weight)
-- 
2.43.0


From 9dffd5e928399790c99ef93ea1373120dbc31011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 50/55] fix: do not fail to plot operators with an identity
 term

---
 qosy/visualization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index d0d3e64..7d5db06 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -414,6 +414,10 @@ def plot_opstring(op_string, lattice, distance_cutoff=None, weight=1.0, marker_s
         
     max_width = 3.0
     
+    # The identity acts on no orbitals.
+    if len(op_string.orbital_operators) == 0:
+        return
+    
     if np.abs(np.imag(weight)) > 1e-10:
         warnings.warn('Cannot plot an operator string with an imaginary coefficient. Taking real part.')
     
-- 
2.43.0


From e0a3f458fcaa5c9b73b92e9ab431f42b169a11ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 51/55] fix: label the orbitals of all unit cells in plots of
 3D lattices

---
 qosy/visualization.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/qosy/visualization.py b/qosy/visualization.py
index 7d5db06..37db8a7 100644
--- a/qosy/visualization.py
+++ b/qosy/visualization.py
@@ -391,13 +391,16 @@ def plot(lattice, with_labels=False, with_lattice_vectors=True, with_unit_cell=F
         
         if with_labels:
             label = 0
-            for (pos_atom, orbitals_atom) in zip(lattice.unit_cell.atom_positions, lattice.unit_cell.atom_orbitals):
-                labels_atom = []
-                for orbital in orbitals_atom:
-                    labels_atom.append(label)
-                    label += 1
-                
-                ax.text(pos_atom[0], pos_atom[1], pos_atom[2], str(labels_atom), size=20, zorder=1)
+            while label < len(lattice):
+                for orbitals_atom in lattice.unit_cell.atom_orbitals:
+                    labels_atom = []
+                    for orbital in orbitals_atom:
+                        labels_atom.append(label)
+                        label += 1
+
+                    if len(labels_atom) > 0:
+                        ind = labels_atom[0]
+                        ax.text(xs[ind], ys[ind], zs[ind], str(labels_atom), size=20, zorder=1)
     else:
         raise ValueError('Cannot plot a {}-dimensional lattice.'.format(lattice.dim))
 
-- 
2.43.0


From d3c604ecf2674e93476d963e1b8c1b2b74649ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 52/55] fix: let selected_ci_greedy use as many eigenvectors as
 the target fidelity needs

---
 qosy/algorithms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 8530b4b..1634def 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -970,6 +970,7 @@ def selected_ci_greedy(initial_operator, com_ops, num_steps, num_H_terms=10, num
                         print('  fidelity = {} < {}, ending early.'.format(fidelity, target_fidelity))
                 else:
                     num_vecs += 1
+                    ncv       = 40*num_vecs
                     basis     = copy.deepcopy(previous_basis)
                     if verbose:
                         print('  num_vecs = {}'.format(num_vecs))
-- 
2.43.0


From b59b26e0a00146d0b507ae7209ccb0e2f8f45888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 53/55] fix: accept lists of basis sizes in
 selected_ci_greedy_many_ops

---
 qosy/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qosy/algorithms.py b/qosy/algorithms.py
index 1634def..4193266 100644
--- a/qosy/algorithms.py
+++ b/qosy/algorithms.py
@@ -1095,7 +1095,7 @@ def selected_ci_greedy_many_ops(initial_operators, H, num_steps, num_H_terms=10,
 
             # Truncate the operator.
             if step > 0:
-                current_op = _truncate_operator(current_op, threshold=threshold, max_basis_size=max_basis_size)
+                current_op = _truncate_operator(current_op, threshold=threshold, max_basis_size=max_basis_sizes[step-1])
 
             com_ops = H
             #com_ops = [H] + [current_operators[ind_op2] for ind_op2 in range(num_operators) if ind_op2 != ind_op]
-- 
2.43.0


From 24e2f93cbda15a9a4204ffa093f553cee0ac0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:25 +0000
Subject: [PATCH 54/55] fix: diagonalize fully when num_vecs is not smaller
 than the space of operators

---
 qosy/core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/qosy/core.py b/qosy/core.py
index d26a30a..8d55472 100644
--- a/qosy/core.py
+++ b/qosy/core.py
@@ -80,6 +80,10 @@ def commuting_operators(basis, operator, operation_mode='commutator', return_sup
         as sparse scipy matrices.
     """
     
+    # eigsh cannot find (almost) all of the eigenvectors.
+    if num_vecs is not None and num_vecs >= len(basis) - 1:
+        num_vecs = None
+
     l_matrix = liouvillian_matrix(basis, operator, operation_mode=operation_mode)
 
     com_matrix = (l_matrix.H).dot(l_matrix)
@@ -171,6 +175,10 @@ def invariant_operators(basis, transform, operation_mode='commutator', num_vecs=
         as sparse scipy matrices.
     """
     
+    # eigsh cannot find (almost) all of the eigenvectors.
+    if num_vecs is not None and num_vecs >= len(basis) - 1:
+        num_vecs = None
+
     sym_matrix = symmetry_matrix(basis, transform)
     
     if operation_mode in ['commute', 'Commute', 'symmetry', 'commutator']:
@@ -417,7 +425,7 @@ class SymmetricOperatorGenerator:
                 self.projected_superoperators.append(projected_superoperator)
                 
                 # Compute the projected superoperator's eigenvalues and eigenvectors.
-                if self.num_vecs[ind_output] is not None:
+                if self.num_vecs[ind_output] is not None and self.num_vecs[ind_output] < int(projected_superoperator.shape[0]) - 1:
                     # Using scipy.sparse.linalg.eigsh
                     sigma = -1e-6
                     (evalsPSO, evecsPSO) = ssla.eigsh(projected_superoperator, k=self.num_vecs[ind_output], sigma=sigma)
-- 
2.43.0


From f16548092f7d82f4b9ccee027ae5388cc21bc771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:29 +0000
Subject: [PATCH 55/55] fix: find orbitals of open lattices whose positions are
 rounded differently

---
 qosy/lattice.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/qosy/lattice.py b/qosy/lattice.py
index 06ad79d..7e4568a 100644
--- a/qosy/lattice.py
+++ b/qosy/lattice.py
@@ -189,15 +189,15 @@ class Lattice:
                 return self._indices_orbitals[(pos_name, orbital_name)] 
 
         # If it is not there, the position could also be more than one
-        # period away from the orbital.
-        if np.any(self.periodic_boundaries):
-            periods = np.array([self.num_cells[ind_vec] * self.unit_cell.lattice_vectors[ind_vec] for ind_vec in range(self.dim)])
-            for (ind_orbital, (pos, name, _)) in enumerate(self._orbitals):
-                if name == orbital_name:
-                    coords = nla.solve(periods.T, position - pos)
-                    coords = coords - np.where(self.periodic_boundaries, np.round(coords), 0.0)
-                    if nla.norm(np.dot(coords, periods)) < self.tol:
-                        return ind_orbital
+        # period away from the orbital, or its name could be rounded
+        # differently than the name of the orbital's position.
+        periods = np.array([self.num_cells[ind_vec] * self.unit_cell.lattice_vectors[ind_vec] for ind_vec in range(self.dim)])
+        for (ind_orbital, (pos, name, _)) in enumerate(self._orbitals):
+            if name == orbital_name:
+                coords = nla.solve(periods.T, position - pos)
+                coords = coords - np.where(self.periodic_boundaries, np.round(coords), 0.0)
+                if nla.norm(np.dot(coords, periods)) < self.tol:
+                    return ind_orbital
             
         return -1
         
-- 
2.43.0

