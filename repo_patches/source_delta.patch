From 1109c4fc5703ace0e22db5081080f22308978034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:54 +0000
Subject: [PATCH 01/42] fix: tolerate float noise when enumerating lattice
 sites and neighbours

Rounding to 14 decimals is below the float noise of triangular and hexagonal
coordinates beyond a few cells, so sites were duplicated and neighbours lost.
---
 exact_diag/ed_geometry.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index b66a3a1..557d34d 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -12,7 +12,7 @@ except ImportError:
 
 
 class Geometry:
-    _round_decimals = 14
+    _round_decimals = 10
 
     def __init__(self,
                  xlocs=None,
@@ -646,7 +646,7 @@ class Geometry:
 
 
 class Lattice:
-    _round_decimals = 14
+    _round_decimals = 12
 
     def __init__(self,
                  lattice_vect1,
@@ -1041,11 +1041,11 @@ def reduce_vectors(vect1,
     # a = M^x \cdot v, M^x = ( P^b_2 -P^b_1) / (P^a_1*P^b_2 - P^b_1*P^a_2)
     # entries = M^y \cdot v, M^y = (-P^a_2  P^a_1) / (P^a_1*P^b_2 - P^b_1*P^a_2)
 
-    if np.round(norm1, 14) == 0:
+    if np.round(norm1, 10) == 0:
         # handle case where one of our periodicity vectors is zero
         proj1s = np.zeros([1, vects.shape[1]])
     else:
-        if np.round(norm2, 14) == 0:
+        if np.round(norm2, 10) == 0:
             # if second periodicity vector is zero, we ignore it
             vect1 = periodicity_vect1.transpose() / norm1 ** 2
         else:
@@ -1054,18 +1054,18 @@ def reduce_vectors(vect1,
 
         proj1s = vect1.dot(vects)
 
-    if np.round(norm2, 14) == 0:
+    if np.round(norm2, 10) == 0:
         proj2s = np.zeros([1, vects.shape[1]])
     else:
-        if np.round(norm1, 14) == 0:
+        if np.round(norm1, 10) == 0:
             vect2 = periodicity_vect2.transpose() / norm2 ** 2
         else:
             vect2 = np.array([[-periodicity_vect1[1, 0], periodicity_vect1[0, 0]]]) / det
 
         proj2s = vect2.dot(vects)
 
-    proj1s = np.round(proj1s, 14)
-    proj2s = np.round(proj2s, 14)
+    proj1s = np.round(proj1s, 10)
+    proj2s = np.round(proj2s, 10)
 
     # TODO: add check of this!
     # expect proj1s * periodicity_vect1 + proj2s * periodicity_vect2 = vects
-- 
2.43.0


From 51b7dc38d17008a9219209dc253d0deeac73d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:16 +0000
Subject: [PATCH 02/42] fix: use the closest periodic image for site
 separations

With non-orthogonal periodicity vectors (triangular lattices two sites wide) the
centered cell does not hold the closest image, so neighbours were missing.
---
 exact_diag/ed_geometry.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 557d34d..1891df7 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -783,6 +783,10 @@ class Lattice:
         latt_vect1_dist = np.zeros([nsites, nsites])
         latt_vect2_dist = np.zeros([nsites, nsites])
 
+        # displacements to neighboring images, starting with no displacement
+        images = np.concatenate([n1 * self.periodicity_vect1 + n2 * self.periodicity_vect2
+                                 for n1 in (0, -1, 1) for n2 in (0, -1, 1)], axis=1)
+
         for ii in range(0, nsites):
             for jj in range(0, ii):
                 xdist_min[ii, jj], ydist_min[ii, jj], _, _ = \
@@ -792,6 +796,12 @@ class Lattice:
                                    ylocs[ii] - ylocs[jj],
                                    mode='centered')
 
+                # if the periodicity vectors are not orthogonal, a neighboring image may be closer
+                xs_im = xdist_min[ii, jj] + images[0]
+                ys_im = ydist_min[ii, jj] + images[1]
+                ind_min = np.argmin(np.round(xs_im ** 2 + ys_im ** 2, Geometry._round_decimals))
+                xdist_min[ii, jj], ydist_min[ii, jj] = xs_im[ind_min], ys_im[ind_min]
+
                 _, _, latt_vect1_dist[ii, jj], latt_vect2_dist[ii, jj] = \
                     reduce_vectors(self.lattice_vect1,
                                    self.lattice_vect2,
-- 
2.43.0


From ee76cd51e609c07ec78ec05f57a42bfb7c99d9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:35 +0000
Subject: [PATCH 03/42] fix: reject periodicity vectors that are not lattice
 translations

Operator precedence made the compatibility check pass whenever the leftover
y component was non-zero.
---
 exact_diag/ed_geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 1891df7..2ea7e21 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -887,7 +887,7 @@ class Lattice:
                                                 self.periodicity_vect1[0, 0],
                                                 self.periodicity_vect1[1, 0],
                                                 mode='positive')
-        if not np.array_equiv(xred_p1, 0) and np.array_equiv(yred_p1, 0):
+        if np.any(np.round(xred_p1, Geometry._round_decimals)) or np.any(np.round(yred_p1, Geometry._round_decimals)):
             return False
 
         xred_p2, yred_p2, _, _ = reduce_vectors(self.lattice_vect1,
@@ -895,7 +895,7 @@ class Lattice:
                                                 self.periodicity_vect2[0, 0],
                                                 self.periodicity_vect2[1, 0],
                                                 mode='positive')
-        if not np.array_equiv(xred_p2, 0) and np.array_equiv(yred_p2, 0):
+        if np.any(np.round(xred_p2, Geometry._round_decimals)) or np.any(np.round(yred_p2, Geometry._round_decimals)):
             return False
 
         return True
-- 
2.43.0


From 19ce8f2eef5e56824bbd84a32a76bb0eaa404394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:35 +0000
Subject: [PATCH 04/42] fix: geometry equality must see phases and cope with a
 missing lattice

---
 exact_diag/ed_geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 2ea7e21..2ed5722 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -630,6 +630,7 @@ class Geometry:
             np.array_equal(self.xdist_mat, other.xdist_mat) and \
             np.array_equal(self.ydist_mat, other.ydist_mat) and \
             np.array_equal(self.adjacency_mat, other.adjacency_mat) and \
+            np.array_equal(self.phase_mat, other.phase_mat) and \
             self.lattice == other.lattice:
             return True
         else:
@@ -944,6 +945,8 @@ class Lattice:
     # #################################
 
     def __eq__(self, other):
+        if not isinstance(other, Lattice):
+            return False
         if np.array_equal(self.lattice_vect1, other.lattice_vect1) and \
            np.array_equal(self.lattice_vect2, other.lattice_vect2) and \
            np.array_equal(self.periodicity_vect1, other.periodicity_vect1) and \
-- 
2.43.0


From da8578641a79b66c722edf5082c6cb5f9baf4cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:12 +0000
Subject: [PATCH 05/42] fix: adjacency sorting must use the number of
 neighbours as the first key

np.lexsort takes its primary key last, so sites were ordered by the longest walks.
---
 exact_diag/ed_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 2ed5722..9bf3eca 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -419,7 +419,7 @@ class Geometry:
                 adjacency_order_n.append(np.sum(adj_mat_powers[ii], 1))
                 adjacency_test_n[:, ii] = np.sum(adj_mat_powers[ii], 1)
 
-            sorted_indices = np.lexsort(tuple(adjacency_order_n))
+            sorted_indices = np.lexsort(tuple(adjacency_order_n[::-1]))
 
             # however, if two sites are equivalent under a symmetry operation, this process does not distinguish them.
             # It doesn't matter which site we select first, but we need to choose the next site in some way based on
-- 
2.43.0


From 863bdaaf1eb7bcdfc9517a916bc43f646dbd8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 06/42] fix: single site operators for local dimension other
 than two

The identity after the site was sized 2**n, so spin > 1/2 fields could not be built.
---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c8a5395..c2da356 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -339,7 +339,7 @@ class ed_base:
                 endmat = sp.kron(endmat, self.parity_op, format="coo")
             # TODO: can I generate this parity matrix without a loop? Would it be faster?
         elif format == "boson":
-            endmat = sp.eye(2 ** (n_logical_sites - site_index_logical - 1))
+            endmat = sp.eye(self.nbasis ** (n_logical_sites - site_index_logical - 1))
         else:
             raise Exception()
 
-- 
2.43.0


From 21a51e04239fb299ffae2b4978e77bccdaf1fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 07/42] fix: get_xform_op must return an operator for the
 identity transformation

With only trivial cycles it returned the integer 1.
---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c2da356..f3690a4 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -136,7 +136,7 @@ class ed_base:
         if print_results:
             tstart = perf_counter()
 
-        trans_op = 1
+        trans_op = sp.eye(self.nstates, format="csr")
         for cycle in cycles:
             if len(cycle) > 1:
                 # loop over species
-- 
2.43.0


From 9fd525ecdcebd0c47c66c49a019f69daf6a6e06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 08/42] fix: get_norms of a single one-dimensional state
 (np.expand_dim does not exist)

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index f3690a4..9a22347 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -562,7 +562,7 @@ class ed_base:
             tstart = perf_counter()
 
         if states.ndim == 1:
-            states = np.expand_dim(states, axis=1)
+            states = np.expand_dims(states, axis=1)
 
         if sp.issparse(states):
             states = states.tocsr()
-- 
2.43.0


From 0ca7c1b0ad0b4ac0e07d60d929e2c1553c258e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 09/42] fix: per-species potentials were written to the site
 axis

---
 exact_diag/ed_fermions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 3af1943..fd21628 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -124,7 +124,7 @@ class fermions(ed_base):
         elif potentials.size == self.nspecies:
             self.potentials = np.zeros((self.geometry.nsites, self.nspecies))
             for ii in range(0, self.nspecies):
-                self.potentials[ii, :] = potentials[ii] * np.ones(self.geometry.nsites)
+                self.potentials[:, ii] = potentials[ii] * np.ones(self.geometry.nsites)
         elif potentials.shape == (self.geometry.nsites, self.nspecies):
             self.potentials = potentials
         elif potentials.shape == (self.geometry.nsites,) and self.nspecies == 1:
-- 
2.43.0


From 1c6be5b936d358664f349e1350098ae99dbbc6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:09 +0000
Subject: [PATCH 10/42] fix: keep complex hopping amplitudes from twisted
 boundary conditions

The hopping matrix dropped the imaginary part of the phases, and the reverse hop
used the same amplitude instead of its conjugate, so H was not hermitian.
---
 exact_diag/ed_fermions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index fd21628..92eaa94 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -238,7 +238,8 @@ class fermions(ed_base):
         if t.size == 1:
             t = t * np.ones(self.nspecies)
 
-        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies))
+        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies),
+                               dtype=np.result_type(t, self.geometry.phase_mat, float))
         for ii in range(0, self.nspecies):
             hopping_mat[:, :, ii] = t[ii] * np.multiply(self.geometry.adjacency_mat, self.geometry.phase_mat)
 
@@ -334,13 +335,13 @@ class fermions(ed_base):
                         for kk in range(0, self.nspecies):
                             # avoid calculating operators unless will be nonzero
                             if self.ts[ii, jj, kk] != 0:
-                                ke_op = ke_op + self.ts[ii, jj, kk] * sep_along_vector[ii, jj] * (
-                                        - projector * self.get_two_site_op(ii, kk, jj, kk,
+                                ke_op = ke_op + sep_along_vector[ii, jj] * (
+                                        - self.ts[ii, jj, kk] * projector * self.get_two_site_op(ii, kk, jj, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
                                           projector.conj().transpose()
-                                        - projector * self.get_two_site_op(jj, kk, ii, kk,
+                                        - np.conj(self.ts[ii, jj, kk]) * projector * self.get_two_site_op(jj, kk, ii, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
-- 
2.43.0


From ad7e4d825c0a2124000cc78d22fb547b5b470dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:10 +0000
Subject: [PATCH 11/42] fix: findSiteCycles reported order 0 on a single site

---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 8f23332..dbeba65 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -186,7 +186,7 @@ def findSiteCycles(transform_fn,
     # find the number of transformations required to get us_interspecies back to our initial configuration
     # column k of trans_sites is the site labels after performing the transformation k-times
     trans_sites = sites[:, None]
-    current_sites = np.zeros(sites.shape)
+    current_sites = np.full(sites.shape, -1)
     max_iter = nsites + 1
     ii = 0
     while not np.array_equal(current_sites, sites) and ii < max_iter:
-- 
2.43.0


From 0b6664c6c667597b9c0f4310c5aa5afae8a9cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:31 +0000
Subject: [PATCH 12/42] fix: hopping in the Hamiltonian must not be scaled by
 the bond's x and y lengths

The kinetic term was the sum of the x and y weighted kinetic operators, so any hop
that is not a unit step along one axis (triangular, hexagonal, polygon, further
neighbours) had amplitude t*(|dx|+|dy|) instead of t.
---
 exact_diag/ed_fermions.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 92eaa94..f337347 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -289,8 +289,7 @@ class fermions(ed_base):
 
         haml = haml + self.get_u_interspecies_op(self.us_interspecies, projector=projector)
         haml = haml + self.get_u_samespecies_op(self.us_same_species, projector=projector)
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([1, 0]))
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([0, 1]))
+        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=None)
         haml = haml + self.get_chemical_pot_op(self.mus, projector=projector)
         haml = haml + self.get_potential_op(self.potentials, projector=projector)
 
@@ -307,7 +306,7 @@ class fermions(ed_base):
         Compute the kinetic energy operator for a specific hopping connection matrix
 
         :param projector:
-        :param direction_vect:
+        :param direction_vect: weight each hop by its length along this direction. If None, weight all hops equally
         :return:
         """
         # TODO: add option for kinetic energy along some arbitary direction
@@ -321,8 +320,11 @@ class fermions(ed_base):
 
         ke_op = sp.csr_matrix((nstates, nstates))
 
-        sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
-                                   np.square(direction_vect[1] * self.geometry.ydist_mat))
+        if direction_vect is None:
+            sep_along_vector = np.ones((n_physical_sites, n_physical_sites))
+        else:
+            sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
+                                       np.square(direction_vect[1] * self.geometry.ydist_mat))
         # hopping terms
         if n_physical_sites > 1:
 
-- 
2.43.0


From 68c67d88902fd001e44bd14e56608f7843f220b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:31 +0000
Subject: [PATCH 13/42] fix: get_current_op used hopping attributes that do not
 exist

---
 exact_diag/ed_fermions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index f337347..dac3eca 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -493,12 +493,10 @@ class fermions(ed_base):
         # such a chain (ring) doesn't have a consistent notion of right vs. left (clockwise vs. counterclockwise)
 
         geom_obj = self.geometry
-        tx = self.tx
-        ty = self.ty
 
         direction_vector = np.reshape(np.asarray(direction_vector), [2])
 
-        current_op = 0
+        current_op = sp.csr_matrix((self.nstates, self.nstates))
         distance_component_x = geom_obj.xdist_mat * direction_vector[0]
         distance_component_y = geom_obj.ydist_mat * direction_vector[1]
         is_x_neighbor = np.round(np.abs(geom_obj.xdist_mat), 14) == 1
@@ -509,12 +507,12 @@ class fermions(ed_base):
                 for kk in range(0, self.nspecies):
 
                     if geom_obj.adjacency_mat[ii, jj] and is_x_neighbor[ii, jj]:
-                        link_current = tx * distance_component_x[ii, jj] * \
+                        link_current = self.ts[ii, jj, kk] * distance_component_x[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
 
                     if geom_obj.adjacency_mat[ii, jj] and is_y_neighbor[ii, jj]:
-                        link_current = ty * distance_component_y[ii, jj] * \
+                        link_current = self.ts[ii, jj, kk] * distance_component_y[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
         current_op = 1j * current_op
-- 
2.43.0


From 2cdeb8169468739846f4c112ad214747e8d48bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:49 +0000
Subject: [PATCH 14/42] fix: spin raising and lowering operators were
 interchanged

With sz = diag(s, ..., -s) the raising operator lies above the diagonal. The old form
lowered m, so sy had the opposite sign of pauli_y / 2 and [sx, sy] was -i sz.
---
 exact_diag/ed_spins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 5777798..68f6c39 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -82,7 +82,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin - 1, -spin - 1, -1)
-        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), -1)
+        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), 1)
 
     @staticmethod
     def get_sminus(spin):
@@ -93,7 +93,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin, -spin, -1)
-        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), 1)
+        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), -1)
 
     def get_sx(self,
                spin):
-- 
2.43.0


From 086ff67dfb836b0a2f92b0d93ee04b1ce2d573f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:49 +0000
Subject: [PATCH 15/42] fix: spinSystem.get_sum_op referred to a name that does
 not exist

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 68f6c39..a3e1c1e 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -448,7 +448,7 @@ class spinSystem(ed_base):
         :return: OpMat, sparse matrix
         """
         species_index = 0
-        return ed_base.ed_base.get_sum_op(self, op, species_index, format="boson", print_results=False)
+        return ed_base.get_sum_op(self, op, species_index, format="boson", print_results=False)
 
     def get_swap_up_down_op(self):
         """
-- 
2.43.0


From bd2dd5171b6a7170b3be235f5987f661d39c96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:49 +0000
Subject: [PATCH 16/42] fix: get_state_parity called get_state_vects with
 arguments it does not take

---
 exact_diag/ed_spins.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index a3e1c1e..f06d4b2 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -217,8 +217,7 @@ class spinSystem(ed_base):
         """
         if print_results:
             tstart = perf_counter()
-        StateParity = np.mod(np.array(self.get_state_vects(self.geometry.nsites,
-                                                           2 ** self.geometry.nsites).sum(1)), 2)
+        StateParity = np.mod(np.array(self.get_state_vects().sum(1)), 2)
         if print_results:
             tend = perf_counter()
             print("get_state_parity took %0.2fs" % (tend - tstart))
-- 
2.43.0


From 0ad5ba5f2d5e4764b32b48f0318955e954927aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:49 +0000
Subject: [PATCH 17/42] fix: interaction matrix from a list of bonds along a
 ring

np.diag(j[-1], -1) raises, and createH reads the lower triangle so the closing bond has to
be there too.
---
 exact_diag/ed_spins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index f06d4b2..7880d25 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -155,8 +155,9 @@ class spinSystem(ed_base):
             if j.shape == (self.geometry.nsites, self.geometry.nsites):
                 j_mat = j
             elif j.size == self.geometry.nsites:
-                j_mat = np.diag(j[:-1], 1) + np.diag(j[-1], -1)
+                j_mat = np.diag(j[:-1], 1) + np.diag(j[:-1], -1)
                 j_mat[0, self.geometry.nsites - 1] = j[-1]
+                j_mat[self.geometry.nsites - 1, 0] = j[-1]
             else:
                 raise Exception('j should be nsites x nsites matrix or a list of size nsites')
         else:
-- 
2.43.0


From e8006dd24c39e9407dbace0e3eaea9bcf7752020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:49 +0000
Subject: [PATCH 18/42] fix: get_interaction_mat_c6 used geometry attributes
 that do not exist

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 7880d25..02b6e67 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -135,7 +135,7 @@ class spinSystem(ed_base):
         :param cutoff_dist:
         :return:
         """
-        distmat = np.sqrt(self.geometry.site_distances_reduced_x ** 2 + self.geometry.site_distances_reduced_y ** 2)
+        distmat = np.sqrt(self.geometry.xdist_mat ** 2 + self.geometry.ydist_mat ** 2)
         jmat = np.zeros(distmat.shape)
         jmat[distmat != 0] = C6*np.power(np.reciprocal(distmat[distmat != 0]), 6)
         return jmat
-- 
2.43.0


From ffc21d83f2b13173d094139025f1ece047e770a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:49 +0000
Subject: [PATCH 19/42] fix: second antiferromagnetic state must be the spin
 flip of the first

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 02b6e67..281932f 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -377,7 +377,7 @@ class spinSystem(ed_base):
             else:
                 # if nsites is even
                 AFMState1Ind = (2 + NStates) / 3 - 1
-            AFMState2Ind = NStates - AFMState1Ind
+            AFMState2Ind = NStates - 1 - AFMState1Ind
         else:
             print('AFM State finder not implemented for even number of sites in X-direction when using '
                   'conventional number, or not implemented for only a single site. Will return FM states instead')
-- 
2.43.0


From 8eec59eec43d69388d8c48a37c156115de643980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:49 +0000
Subject: [PATCH 20/42] fix: swap operator for spins other than one half, and
 of a site with itself

---
 exact_diag/ed_spins.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 281932f..752f69f 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -472,7 +472,14 @@ class spinSystem(ed_base):
         :param species: Integer specifying species (should always be zero in this case)
         :return: Sparse matrix
         """
-        return self.get_two_site_op(site1, species, site2, species, self.pauli_plus, self.pauli_minus, format="boson") + \
-               self.get_two_site_op(site1, species, site2, species, self.pauli_minus, self.pauli_plus, format="boson") + \
-               0.5 * sp.eye(self.nstates) + \
-               0.5 * self.get_two_site_op(site1, species, site2, species, self.pauli_z, self.pauli_z, format="boson")
+        if site1 == site2:
+            return sp.eye(self.nstates, format="csr")
+
+        swap = sp.csr_matrix((self.nstates, self.nstates))
+        for ii in range(self.nbasis):
+            for jj in range(self.nbasis):
+                # |ii><jj| on the first site and |jj><ii| on the second
+                op = np.zeros((self.nbasis, self.nbasis))
+                op[ii, jj] = 1
+                swap = swap + self.get_two_site_op(site1, species, site2, species, op, op.transpose(), format="boson")
+        return swap
-- 
2.43.0


From ea1434b5a8f720cee0ed3a22746221cca3a41d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:49 +0000
Subject: [PATCH 21/42] fix: thermal factor of the retarded response belongs to
 the initial state

sum_nm A_nm B_mn (e^{-beta E_n} +- e^{-beta E_m}) delta(w + E_n - E_m) needs e^{-beta E_n} on
row n; the old form did not reduce to the zero temperature branch.
---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 9a22347..9b83829 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1109,7 +1109,7 @@ class ed_base:
             beta = 1 / temperature
             z = np.sum(np.exp(- beta * eig_vals))
             mat_elem = np.multiply(a_matrix_elems, b_matrix_elems.transpose())
-            thermal_mat_elem = mat_elem.dot(np.diag(np.exp(- beta * eig_vals)))
+            thermal_mat_elem = np.diag(np.exp(- beta * eig_vals)).dot(mat_elem)
             omega_fn = lambda wo, eta, es, amp: np.multiply(1 + factor * np.exp(beta * es), lor(wo + es, eta, amp))
 
         else:
-- 
2.43.0


From 69d33b2c594d383306d868e9c0af370b00765241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:49 +0000
Subject: [PATCH 22/42] fix: D7 rotation classes did not match the character
 table

The projectors for the two dimensional representations spanned mixtures.
---
 exact_diag/ed_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index dbeba65..d7fb87e 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -645,8 +645,8 @@ def getD7Projectors(rot_op,
                     [refl_op, rot_op * refl_op, rot_op**2 * refl_op, rot_op**3 * refl_op,
                      rot_op**4 * refl_op, rot_op**5 * refl_op, rot_op**6 * refl_op],
                     [rot_op, rot_op ** 6],
-                    [rot_op**3, rot_op**4],
-                    [rot_op**2, rot_op**5]]
+                    [rot_op**2, rot_op**5],
+                    [rot_op**3, rot_op**4]]
 
     projs = get_symmetry_projectors(char_table, conj_classes, print_results=print_results)
 
-- 
2.43.0


From 449a4361dd539d59f7299aaa3395ec6d9cc4967e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:43 +0000
Subject: [PATCH 23/42] fix: nsites x nspecies potentials were misread on a
 single site

---
 exact_diag/ed_fermions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index dac3eca..b0fa501 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -121,7 +121,7 @@ class fermions(ed_base):
         potentials = np.asarray(potentials)
         if potentials.size == 1:
             self.potentials = potentials * np.ones((self.geometry.nsites, self.nspecies))
-        elif potentials.size == self.nspecies:
+        elif potentials.size == self.nspecies and potentials.ndim == 1:
             self.potentials = np.zeros((self.geometry.nsites, self.nspecies))
             for ii in range(0, self.nspecies):
                 self.potentials[:, ii] = potentials[ii] * np.ones(self.geometry.nsites)
-- 
2.43.0


From c0cc39b92945292c4eef1cd59297470c24f35b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:09 +0000
Subject: [PATCH 24/42] fix: get_partition_fn_hamiltonian raised for every
 sparse Hamiltonian

scipy.linalg.expm takes dense arrays.
---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 9b83829..989ec2c 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -946,7 +946,7 @@ class ed_base:
         if beta == 0:
             return hamiltonian.shape[0]
         else:
-            return np.trace(expm(- beta * hamiltonian).toarray().real)
+            return np.trace(expm(- beta * hamiltonian.toarray())).real
 
     def get_partition_fn_sectors(self,
                                  energies_sectors: list,
-- 
2.43.0


From 7d4e6f77439355742aaeef75e32bbadfe520e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:55 +0000
Subject: [PATCH 25/42] fix: conjugacy classes of the diagonal reflections of
 the 3x3 torus

For the anti-clockwise rotations that getRotFn produces (R Tx = Ty R) the translates of
R*Refl conjugate to it are Tx*Ty and Tx^2*Ty^2, not Tx*Ty^2 and Tx^2*Ty, and the other way
round for R^3*Refl. With the wrong classes four dimensional irreps were split in two.
---
 exact_diag/ed_symmetry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index d7fb87e..07ecbe6 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -723,8 +723,8 @@ def getC4V_and_3byb3(rot_op,
     c4 = [refl_op, rot_op**2 * refl_op, tx_op * refl_op, tx_op**2 * refl_op,
           ty_op * rot_op**2 * refl_op, ty_op**2 * rot_op**2 * refl_op]
     c2 = [rot_op * refl_op, rot_op ** 3 * refl_op,
-          tx_op * ty_op ** 2 * rot_op * refl_op, tx_op ** 2 * ty_op * rot_op * refl_op,
-          tx_op * ty_op * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op ** 3 * refl_op]
+          tx_op * ty_op * rot_op * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op * refl_op,
+          tx_op * ty_op ** 2 * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op * rot_op ** 3 * refl_op]
 
     c3 = [rot_op**2, tx_op * rot_op**2, tx_op**2 * rot_op**2,
           ty_op * rot_op**2, ty_op**2 * rot_op**2, tx_op * ty_op * rot_op**2,
@@ -747,10 +747,10 @@ def getC4V_and_3byb3(rot_op,
           tx_op**2 * ty_op * rot_op**2 * refl_op, tx_op**2 * ty_op**2 * rot_op**2 * refl_op]
     c7 = [tx_op * rot_op * refl_op, tx_op**2 * rot_op * refl_op,
           ty_op * rot_op * refl_op, ty_op**2 * rot_op * refl_op,
-          tx_op * ty_op * rot_op * refl_op, tx_op**2 * ty_op**2 * rot_op * refl_op,
+          tx_op * ty_op**2 * rot_op * refl_op, tx_op**2 * ty_op * rot_op * refl_op,
           tx_op * rot_op**3 * refl_op, tx_op**2 * rot_op**3 * refl_op,
           ty_op * rot_op**3 * refl_op, ty_op**2 * rot_op**3 * refl_op,
-          tx_op * ty_op**2 * rot_op**3 * refl_op, tx_op**2 * ty_op * rot_op**3 * refl_op]
+          tx_op * ty_op * rot_op**3 * refl_op, tx_op**2 * ty_op**2 * rot_op**3 * refl_op]
 
     c9 = [tx_op, tx_op**2, ty_op, ty_op**2]
     c6 = [tx_op * ty_op, tx_op ** 2 * ty_op, tx_op * ty_op ** 2, tx_op ** 2 * ty_op ** 2]
-- 
2.43.0


From a9484916ca8bbbb27e87e883581d598862818d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:48 +0000
Subject: [PATCH 26/42] fix: get_overlaps of two sparse collections of states

np.squeeze wraps a sparse matrix in a 0-d object array; the documented result is a numpy
array of overlaps.
---
 exact_diag/ed_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 989ec2c..4df8a6b 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -543,6 +543,9 @@ class ed_base:
             # changed order for more sensible interpretation
             overlaps = states1.conj().transpose().dot(states2)
 
+        if sp.issparse(overlaps):
+            overlaps = overlaps.toarray()
+
         if print_results:
             print(f"get_overlaps took {perf_counter() - tstart:.2f}s")
 
-- 
2.43.0


From f0a8c2558f9d5214050eaba15140537465c84768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:11 +0000
Subject: [PATCH 27/42] fix: current operator dropped hops that are not of unit
 length along x or y

---
 exact_diag/ed_fermions.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index b0fa501..3b5271d 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -497,22 +497,14 @@ class fermions(ed_base):
         direction_vector = np.reshape(np.asarray(direction_vector), [2])
 
         current_op = sp.csr_matrix((self.nstates, self.nstates))
-        distance_component_x = geom_obj.xdist_mat * direction_vector[0]
-        distance_component_y = geom_obj.ydist_mat * direction_vector[1]
-        is_x_neighbor = np.round(np.abs(geom_obj.xdist_mat), 14) == 1
-        is_y_neighbor = np.round(np.abs(geom_obj.ydist_mat), 14) == 1
+        distance_component = geom_obj.xdist_mat * direction_vector[0] + geom_obj.ydist_mat * direction_vector[1]
 
         for ii in range(0, geom_obj.nsites):
             for jj in range(0, geom_obj.nsites):
                 for kk in range(0, self.nspecies):
 
-                    if geom_obj.adjacency_mat[ii, jj] and is_x_neighbor[ii, jj]:
-                        link_current = self.ts[ii, jj, kk] * distance_component_x[ii, jj] * \
-                                       self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
-                        current_op = current_op + link_current
-
-                    if geom_obj.adjacency_mat[ii, jj] and is_y_neighbor[ii, jj]:
-                        link_current = self.ts[ii, jj, kk] * distance_component_y[ii, jj] * \
+                    if ii != jj and self.ts[ii, jj, kk] != 0:
+                        link_current = self.ts[ii, jj, kk] * distance_component[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
         current_op = 1j * current_op
-- 
2.43.0


From 76cd298dd737658dae3da203adc8daa203493bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:11 +0000
Subject: [PATCH 28/42] fix: get_all_clusters_with_subclusters ignored
 use_symmetry=False when counting subclusters

---
 exact_diag/ed_nlce.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index bd03a80..0c01c8e 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -143,7 +143,8 @@ def get_all_clusters_with_subclusters(max_order: int,
             print("cluster index = %d" % index)
         cluster = full_cluster_list[index]
         # get all sub clusters of each cluster
-        subclusters_list, subcluster_mult_mat, order_indices_subclusters = get_reduced_subclusters(cluster)
+        subclusters_list, subcluster_mult_mat, order_indices_subclusters = \
+            get_reduced_subclusters(cluster, use_symmetry=use_symmetry)
         cluster_reduction_mat = map_between_cluster_bases(full_cluster_list,
                                                           order_indices_full,
                                                           subclusters_list,
@@ -416,13 +417,15 @@ def reduce_clusters_by_geometry(cluster_orders_list,
 
 
 def get_reduced_subclusters(parent_geometry,
-                            print_progress: bool = False):
+                            print_progress: bool = False,
+                            use_symmetry: bool = True):
     """
     For a given parent geometry, produce all subclusters and the number of times each subcluster is contained in the
     parent
 
     :param parent_geometry:
     :param print_progress:
+    :param use_symmetry: If True, clusters related by D4 symmetry are regarded as the same
     :return cluster_list: a list of distinct sub clusters of the parent_geometry (including the parent geometry itself)
     :return sub_cluster_mat: a square matrix which gives the number of times cluster j can be embedded in cluster i, if
       cluster j is a proper sub-cluster of i (i.e. the diagonal of this matrix is zero).
@@ -434,7 +437,7 @@ def get_reduced_subclusters(parent_geometry,
 
     # get unique geometric clusters of each order and multiplicity
     clusters_geom_distinct, clusters_geom_multiplicity, cluster_reduction_mat = \
-        reduce_clusters_by_geometry(cluster_orders_list, use_symmetry=True)
+        reduce_clusters_by_geometry(cluster_orders_list, use_symmetry=use_symmetry)
     clusters_list = [g for h in clusters_geom_distinct for g in h]
 
     # indices
-- 
2.43.0


From 669a0634157aa3aef485570c73fb33a5e8fddc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:11 +0000
Subject: [PATCH 29/42] fix: linked cluster weights of values with an axis of
 length one

---
 exact_diag/ed_nlce.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index 0c01c8e..8fcef64 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -548,8 +548,8 @@ def get_nlce_exp_val(exp_vals_clusters,
         # in the general case, we need to sum over index 1 of sub_cluster_multiplicty_mat, and index 0 of weights.
         # np.dot no longer works, as this sums over the last index of the first array, and the second to last index of
         # the second array. To sum over arbitrary axes, use np.tensordot
-        weights[ii, ...] = exp_vals_clusters[ii, ...] - np.squeeze(
-            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0)))
+        weights[ii, ...] = exp_vals_clusters[ii, ...] - \
+            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0))[0]
 
     # exp_val_nlce[jj] = sub_cluster_multiplicity_mat[-1, :] * weights[:, jj] / nsites
     # exp_val_nlce = np.squeeze(np.tensordot(sub_cluster_multiplicity_mat[-1, :].toarray(),
@@ -560,8 +560,8 @@ def get_nlce_exp_val(exp_vals_clusters,
     size = [len(order_start_indices) - 1] + [int(c) for c in b]
     nlce_orders = np.zeros(tuple(size))
     for ii in range(0, len(order_start_indices) - 1):
-        nlce_orders[ii, ...] = np.squeeze(np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
-                                                 weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))) / nsites
+        nlce_orders[ii, ...] = np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
+                                            weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))[0] / nsites
 
     return exp_val_nlce, nlce_orders, weights
 
-- 
2.43.0


From 1b49af29f3881ec63530fe3a18b62583ae1cea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:42 +0000
Subject: [PATCH 30/42] fix: fermi gas response in 1d ignored the wave vector,
 and rounding spoiled degenerate levels

---
 exact_diag/fermi_gas.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index fca2774..02bacfc 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -588,7 +588,7 @@ def fg_density_response(beta,
         kxkx_shift = kxkx + k[0]
 
         # get energies
-        dispersion = lambda kx: -2 * np.cos(kxkx)
+        dispersion = lambda kx: -2 * np.cos(kx)
         es = dispersion(kxkx)
         es_q = dispersion(kxkx_shift)
 
@@ -612,8 +612,13 @@ def fg_density_response(beta,
         # this expression holds except where we have accidental degeneracies.
         chi_terms = np.divide(fermi(beta, mu, es) - fermi(beta, mu, es_q), omega + es - es_q + 1j * eta)
         # at those points, use L'Hopital's rule to get finite value
-        lim = -fermi_derivatives(beta, mu, es, eta=0.0)[0]
-        chi_terms[np.isnan(chi_terms)] = lim[np.isnan(chi_terms)]
+        # the energies are only equal up to rounding, so the numerator and denominator need not vanish exactly
+        if omega == 0 and eta == 0:
+            degenerate = np.logical_or(np.abs(es - es_q) < 1e-10, np.isnan(chi_terms))
+        else:
+            degenerate = np.isnan(chi_terms)
+        if np.any(degenerate):
+            chi_terms[degenerate] = -fermi_derivatives(beta, mu, es[degenerate], eta=0.0)[0]
         # sum them to get chi
         chi = np.sum(chi_terms) / kxkx.size
 
-- 
2.43.0


From aa5c83a3690d5b6d277da05e0f87f3e7aa988106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:42 +0000
Subject: [PATCH 31/42] fix: get_dos2 raised for every input, and normalised by
 the wrong bin width

---
 exact_diag/fermi_gas.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index 02bacfc..aadc455 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -184,17 +184,15 @@ def get_dos2(nsites: int = 100,
     pts_per_bin = 2000
     de = pts_per_bin * emean
     # determine bin number from bin widths
-    nbins = np.floor((np.max(es) - np.min(es)) / de)
+    nbins = int(np.floor((np.max(es) - np.min(es)) / de))
     # ensure odd number of bins
     if nbins % 2 == 0:
         nbins = nbins + 1
     # bin edges and means
-    e_bin_end_pts = np.linspace(np.min(es), np.max(es), nbins)
+    e_bin_end_pts = np.linspace(np.min(es), np.max(es), nbins + 1)
     e_means = 0.5 * (e_bin_end_pts[1:] + e_bin_end_pts[:-1])
 
-    num_in_bin, _ = np.histogram(es.ravel(), e_bin_end_pts)
-
-    dos = np.divide(num_in_bin, de) / es.size
+    dos = get_dos(es, e_bin_end_pts)
 
     return dos, e_means
 
-- 
2.43.0


From 023d2d3a6819bab69deb522e76cce46a04f690f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:42 +0000
Subject: [PATCH 32/42] fix: fg_mu missed the requested density at low
 temperature and for odd numbers of sites

---
 exact_diag/fermi_gas.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index aadc455..43eee5c 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -427,7 +427,7 @@ def fg_mu(beta,
     :param dim:
     :return mu:
     """
-    # TODO: this still fails at T = 0 and low T near half-filling
+    # TODO: this still fails at T = 0
 
     beta = np.asarray(beta)
     if beta.ndim == 0:
@@ -455,22 +455,22 @@ def fg_mu(beta,
             mu[coord] = fg_mu(beta[coord], density[coord], nsites, dim)
     else:
         min_fn = lambda mu: np.abs(fg_density(beta, mu, nsites, dim) - density)
-        jacobian = lambda mu: fg_compressibility(beta, mu, nsites, dim)
-        jacobian_fsqr = lambda mu: 2 * min_fn(mu) * jacobian(mu)
 
         # mu_guess = np.array([0.0])
         # result = scipy.optimize.minimize(min_fn, mu_guess)
         # mu = result.x
 
-        if density == 0.5:
+        if density == 0.5 and (beta == 0 or beta == np.inf):
             mu = 0
         elif beta != np.inf:
-            # seems to work more robustly than scipy.optimize.minimize
-            # but fails at half-filling. jacobian_fsqr has a zero there...is that the reason?
-            fit_handle = root_scalar(jacobian_fsqr, x0=-0.1, x1=0.1)
+            # density increases with mu, and the chemical potential lies between those of a gas with all levels
+            # at the bottom respectively at the top of the band
+            half_band_width = 4. if dim == '2d' else 2.
+            offset = (np.log(density / (1 - density)) / beta).item()
+            fit_handle = root_scalar(lambda mu: float(fg_density(beta, mu, nsites, dim) - density.item()),
+                                     bracket=(offset - half_band_width - 1e-6, offset + half_band_width + 1e-6))
             mu = fit_handle.root
         else:
-            # jacobian_fsqr = -inf here, which is why this fials otherwise...
             mu_guess = np.array([0.0])
             result = minimize(min_fn, mu_guess)
             mu = result.x
-- 
2.43.0


From 918b6fe08490f109ce82c5e70cf86d9023f3e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:10 +0000
Subject: [PATCH 33/42] fix: copies of one site were counted as different sites
 when rounding separated them

---
 exact_diag/ed_geometry.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 9bf3eca..7820b87 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -755,8 +755,15 @@ class Lattice:
                                                     vects[0, :],
                                                     vects[1, :],
                                                     mode='positive')
-        xlocs_red = np.round(xlocs_red, self._round_decimals)
-        ylocs_red = np.round(ylocs_red, self._round_decimals)
+        # rounding can split copies of the same coordinate which fall on either side of a rounding boundary,
+        # so identify rounded coordinates which differ only in the last decimal place
+        for locs_red in (xlocs_red, ylocs_red):
+            locs_red[:] = np.round(locs_red, self._round_decimals)
+            vals, inds = np.unique(locs_red, return_inverse=True)
+            for kk in range(1, len(vals)):
+                if vals[kk] - vals[kk - 1] < 2 * 10. ** (-self._round_decimals):
+                    vals[kk] = vals[kk - 1]
+            locs_red[:] = vals[inds.reshape(locs_red.shape)]
         # eliminate duplicates
         locs = np.unique(np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0), axis=1)
         xlocs = locs[0, :]
-- 
2.43.0


From 83936e3a4ce8ea4857b228e3abea9383782536aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:06 +0000
Subject: [PATCH 34/42] fix: projectors onto representations of dimension above
 one dropped the imaginary part

---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 07ecbe6..1188127 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -289,7 +289,7 @@ def reduce_symm_projector(p_full,
 
         # construct reduced projector matrix
         # maximum rank, but real rank can be less than this
-        p_red = sp.lil_matrix((p_full.shape))
+        p_red = sp.lil_matrix(p_full.shape, dtype=p_full.dtype)
         p_row_counter = 0
         inv_counter = 0
 
-- 
2.43.0


From df4f143f1afc0785793b626ad5b1fdc8a052bec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:06 +0000
Subject: [PATCH 35/42] fix: number of second lattice vectors separating two
 sites had the wrong sign for one order of the pair

---
 exact_diag/ed_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 7820b87..9bee252 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -820,7 +820,7 @@ class Lattice:
                 xdist_min[jj, ii] = - xdist_min[ii, jj]
                 ydist_min[jj, ii] = - ydist_min[ii, jj]
                 latt_vect1_dist[jj, ii] = - latt_vect1_dist[ii, jj]
-                latt_vect2_dist[jj, ii] = - -latt_vect2_dist[ii, jj]
+                latt_vect2_dist[jj, ii] = - latt_vect2_dist[ii, jj]
 
         return xdist_min, ydist_min, latt_vect1_dist, latt_vect2_dist
 
-- 
2.43.0


From 55d0a6579b96f0814ccf871baa1fc707cf4c58fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:06 +0000
Subject: [PATCH 36/42] fix: time evolution in a one-state subspace returned
 times along the axis of basis states

---
 exact_diag/ed_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 4df8a6b..53bebd1 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -266,10 +266,12 @@ class ed_base:
         # transform back to initial basis. Need to multiply a stack of matrices by the same matrix. So want to do
         # matrix multiplication along the first two dimensions (0 and 1) and ignore the 3rd dimension (2)
         evolved_states = np.tensordot(eig_vects, evolved_states_eig_basis, axes=([1], [0]))
-        evolved_states = np.squeeze(evolved_states)
 
-        if evolved_states.ndim == 1:
-            evolved_states = np.expand_dims(evolved_states, axis=1)
+        # drop the axis of a single initial state or time, but keep basis states along the first axis
+        if num_init_states == 1:
+            evolved_states = evolved_states[:, :, 0]
+        elif times.size == 1:
+            evolved_states = evolved_states[:, 0, :]
 
         if print_results:
             print(f"Time evolving {num_init_states:d} state(s) "
-- 
2.43.0


From d21d0e760f56772d919ff9d00ad85c08d62589f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:06 +0000
Subject: [PATCH 37/42] fix: generate_clusters raised when its data file
 already existed

---
 cluster/generate_clusters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/generate_clusters.py b/cluster/generate_clusters.py
index bece71f..7355a22 100644
--- a/cluster/generate_clusters.py
+++ b/cluster/generate_clusters.py
@@ -10,7 +10,7 @@ def generate_clusters(fname_cluster_dat, max_cluster_order):
     if os.path.isfile(fname_cluster_dat):
         with open(fname_cluster_dat, 'rb') as f:
             data = pickle.load(f)
-        cluster_list = data[2]
+        cluster_list = data["cluster_list"]
         return len(cluster_list)
 
     # if data file doesn't already exist, we must generate the clusters and create the file
-- 
2.43.0


From da468a6c324a3d5392767b3c3ddc5943f98c3bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:06 +0000
Subject: [PATCH 38/42] fix: diag_cluster raised for every cluster of more than
 one site

---
 cluster/diag_cluster.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cluster/diag_cluster.py b/cluster/diag_cluster.py
index 04839d0..ca5e673 100644
--- a/cluster/diag_cluster.py
+++ b/cluster/diag_cluster.py
@@ -44,12 +44,13 @@ def diag_cluster(cluster_index,
         szsz_corrs[0, jj] = 0
         for aa in range(0, model.geometry.nsites):
             for bb in range(aa + 1, model.geometry.nsites):
-                szsz_op = model.getTwoSiteOp(aa,
-                                             bb,
-                                             model.geometry.nsites,
-                                             model.pauli_z,
-                                             model.pauli_z,
-                                             format="boson")
+                szsz_op = model.get_two_site_op(aa,
+                                                0,
+                                                bb,
+                                                0,
+                                                model.pauli_z,
+                                                model.pauli_z,
+                                                format="boson")
                 szsz_exp = model.get_exp_vals_thermal(eig_vects, szsz_op, eig_vals, T)
                 szsz_corrs[0, jj] = szsz_corrs[0, jj] + szsz_exp
 
-- 
2.43.0


From fd0ffbf646e36ba213223dcdc92e74133284f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:06 +0000
Subject: [PATCH 39/42] fix: aggregate_results could not be imported and read
 its cluster file in a different layout than it is written

---
 cluster/aggregate_results.py         | 9 ++++-----
 cluster/generate_clusters_no_subs.py | 3 ++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cluster/aggregate_results.py b/cluster/aggregate_results.py
index 5c1e051..5f995a2 100644
--- a/cluster/aggregate_results.py
+++ b/cluster/aggregate_results.py
@@ -4,7 +4,7 @@ import pickle
 import numpy as np
 import re
 
-import ed_nlce
+from exact_diag import ed_nlce
 
 def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
 
@@ -49,10 +49,9 @@ def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
     with open(fname_cluster_dat, 'rb') as f:
         cluster_dat = pickle.load(f)
     max_cluster_order = cluster_dat[0]
-    cluster_multiplicities = cluster_dat[1]
-    clusters_list = cluster_dat[2]
-    sub_cluster_mult = cluster_dat[3]
-    order_start_indices = cluster_dat[4]
+    order_start_indices = cluster_dat[2]
+    cluster_multiplicities = np.reshape(cluster_dat[4], (1, -1))
+    sub_cluster_mult = cluster_dat[5]
 
     # NLCE
     energy_nlce, orders_energy, weight_energy = \
diff --git a/cluster/generate_clusters_no_subs.py b/cluster/generate_clusters_no_subs.py
index 96c322f..673e246 100644
--- a/cluster/generate_clusters_no_subs.py
+++ b/cluster/generate_clusters_no_subs.py
@@ -20,7 +20,8 @@ def generate_clusters_no_subs(fname_cluster_dat,
     t_end = time.process_time()
 
     # save cluster data
-    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start]
+    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start,
+                     cluster_multiplicities]
     with open(fname_cluster_dat, 'wb') as f:
         pickle.dump(data_clusters, f)
 
-- 
2.43.0


From d47be5392a40ecca34e86a9d8e2a9478ee20f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:49 +0000
Subject: [PATCH 40/42] fix: projectors of integer-valued operators onto
 representations of dimension above one were zero

---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 1188127..d9bd821 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -289,7 +289,7 @@ def reduce_symm_projector(p_full,
 
         # construct reduced projector matrix
         # maximum rank, but real rank can be less than this
-        p_red = sp.lil_matrix(p_full.shape, dtype=p_full.dtype)
+        p_red = sp.lil_matrix(p_full.shape, dtype=np.result_type(p_full.dtype, float))
         p_row_counter = 0
         inv_counter = 0
 
-- 
2.43.0


From 21e5a1f5b8ce389c24c049041863c9b02b59ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:49 +0000
Subject: [PATCH 41/42] fix: reduce_symm_projector changed the matrix it was
 given

---
 exact_diag/ed_symmetry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index d9bd821..7058662 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -248,6 +248,7 @@ def reduce_symm_projector(p_full,
         states_related_by_symm = states_related_by_symm.tocsr()
 
     # round to avoid any finite precision issues
+    p_full = p_full.copy()
     p_full.data[np.abs(p_full.data) < 1e-10] = 0
     p_full.eliminate_zeros()
 
-- 
2.43.0


From 59820bd3de6a9a59231bd74b551e0c63843fd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:07 +0000
Subject: [PATCH 42/42] fix: findSiteCycles rejected transformations whose
 order exceeds the number of sites

---
 exact_diag/ed_symmetry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 7058662..2338260 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -187,15 +187,15 @@ def findSiteCycles(transform_fn,
     # column k of trans_sites is the site labels after performing the transformation k-times
     trans_sites = sites[:, None]
     current_sites = np.full(sites.shape, -1)
-    max_iter = nsites + 1
     ii = 0
-    while not np.array_equal(current_sites, sites) and ii < max_iter:
+    while not np.array_equal(current_sites, sites):
         ii = ii + 1
         _, current_sites = getTransformedSites(transform_fn, trans_sites[:, ii - 1], geom_obj, tol=tol)
+        if np.unique(current_sites).size != nsites:
+            # only permutations of the sites return to the initial configuration
+            raise Exception("Transformation maps different sites to the same site")
         trans_sites = np.concatenate([trans_sites, current_sites[:, None]], 1)
     max_cycle_len = ii
-    if max_cycle_len == max_iter:
-        raise Exception("Number of cycles required to close transformation greater than maximum allowed iterations")
 
     cycles = []
     for ii in range(0, len(sites)):
-- 
2.43.0

