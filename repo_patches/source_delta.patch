From b1390732bc9ff1d8d025625119d602e7c5ec7a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:36 +0000
Subject: [PATCH 01/45] fix: tolerate floating point error when enumerating
 lattice sites and finding neighbors

Comparing coordinates to 14 decimals duplicated sites on e.g. the 3x3 hexagonal
lattice and dropped bonds on e.g. the 5x5 triangular lattice.
---
 exact_diag/ed_geometry.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index b66a3a1..0941405 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -12,7 +12,7 @@ except ImportError:
 
 
 class Geometry:
-    _round_decimals = 14
+    _round_decimals = 10
 
     def __init__(self,
                  xlocs=None,
@@ -647,6 +647,8 @@ class Geometry:
 
 class Lattice:
     _round_decimals = 14
+    # coordinates accumulate floating point error, so comparisons between them need a coarser tolerance
+    _compare_decimals = 10
 
     def __init__(self,
                  lattice_vect1,
@@ -757,9 +759,11 @@ class Lattice:
         xlocs_red = np.round(xlocs_red, self._round_decimals)
         ylocs_red = np.round(ylocs_red, self._round_decimals)
         # eliminate duplicates
-        locs = np.unique(np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0), axis=1)
-        xlocs = locs[0, :]
-        ylocs = locs[1, :]
+        locs = np.concatenate([xlocs_red[None, :], ylocs_red[None, :]], 0)
+        # adding zero turns -0. into 0., so that they compare as the same coordinate
+        _, inds = np.unique(np.round(locs, self._compare_decimals) + 0., axis=1, return_index=True)
+        xlocs = locs[0, inds]
+        ylocs = locs[1, inds]
         nsites = len(xlocs)
 
         return nsites, xlocs, ylocs
@@ -1064,8 +1068,8 @@ def reduce_vectors(vect1,
 
         proj2s = vect2.dot(vects)
 
-    proj1s = np.round(proj1s, 14)
-    proj2s = np.round(proj2s, 14)
+    proj1s = np.round(proj1s, 10)
+    proj2s = np.round(proj2s, 10)
 
     # TODO: add check of this!
     # expect proj1s * periodicity_vect1 + proj2s * periodicity_vect2 = vects
-- 
2.43.0


From d098c4d64863ae3a11d318cc41ba2d12228be19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:36 +0000
Subject: [PATCH 02/45] fix: use the shortest periodic image for site
 separations on skewed cells

On periodic triangular lattices which are two sites wide, the centered reduction
picked an image that is not the closest one, and bonds between neighbors were missing.
---
 exact_diag/ed_geometry.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 0941405..e10ae6a 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -787,15 +787,27 @@ class Lattice:
         latt_vect1_dist = np.zeros([nsites, nsites])
         latt_vect2_dist = np.zeros([nsites, nsites])
 
+        # (0, 0) is first, so that it is preferred if several images are the same distance away
+        image_inds = [(n1, n2) for n1 in (0, 1, -1) for n2 in (0, 1, -1)]
+
         for ii in range(0, nsites):
             for jj in range(0, ii):
-                xdist_min[ii, jj], ydist_min[ii, jj], _, _ = \
+                xdist, ydist, _, _ = \
                     reduce_vectors(self.periodicity_vect1,
                                    self.periodicity_vect2,
                                    xlocs[ii] - xlocs[jj],
                                    ylocs[ii] - ylocs[jj],
                                    mode='centered')
 
+                # if the periodicity vectors are not orthogonal, the shortest separation may be a neighboring image
+                xdist_images = xdist + np.array([n1 * self.periodicity_vect1[0, 0] + n2 * self.periodicity_vect2[0, 0]
+                                                 for n1, n2 in image_inds])
+                ydist_images = ydist + np.array([n1 * self.periodicity_vect1[1, 0] + n2 * self.periodicity_vect2[1, 0]
+                                                 for n1, n2 in image_inds])
+                min_ind = np.argmin(np.round(np.sqrt(xdist_images**2 + ydist_images**2), self._compare_decimals))
+                xdist_min[ii, jj] = xdist_images[min_ind]
+                ydist_min[ii, jj] = ydist_images[min_ind]
+
                 _, _, latt_vect1_dist[ii, jj], latt_vect2_dist[ii, jj] = \
                     reduce_vectors(self.lattice_vect1,
                                    self.lattice_vect2,
-- 
2.43.0


From 1e4d9bde39200af3b783698fede0d5bdb6b163ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:36 +0000
Subject: [PATCH 03/45] fix: lattice vector separations should be antisymmetric
 in the two sites

---
 exact_diag/ed_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index e10ae6a..406c4be 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -818,7 +818,7 @@ class Lattice:
                 xdist_min[jj, ii] = - xdist_min[ii, jj]
                 ydist_min[jj, ii] = - ydist_min[ii, jj]
                 latt_vect1_dist[jj, ii] = - latt_vect1_dist[ii, jj]
-                latt_vect2_dist[jj, ii] = - -latt_vect2_dist[ii, jj]
+                latt_vect2_dist[jj, ii] = - latt_vect2_dist[ii, jj]
 
         return xdist_min, ydist_min, latt_vect1_dist, latt_vect2_dist
 
-- 
2.43.0


From 0ca0190849209ee14d95ea732064caef51c7d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:36 +0000
Subject: [PATCH 04/45] fix: reject periodicity vectors which are not lattice
 vectors

Operator precedence meant that most incommensurate periodicity vectors were accepted.
---
 exact_diag/ed_geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 406c4be..528a3c5 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -893,7 +893,7 @@ class Lattice:
                                                 self.periodicity_vect1[0, 0],
                                                 self.periodicity_vect1[1, 0],
                                                 mode='positive')
-        if not np.array_equiv(xred_p1, 0) and np.array_equiv(yred_p1, 0):
+        if not (np.allclose(xred_p1, 0) and np.allclose(yred_p1, 0)):
             return False
 
         xred_p2, yred_p2, _, _ = reduce_vectors(self.lattice_vect1,
@@ -901,7 +901,7 @@ class Lattice:
                                                 self.periodicity_vect2[0, 0],
                                                 self.periodicity_vect2[1, 0],
                                                 mode='positive')
-        if not np.array_equiv(xred_p2, 0) and np.array_equiv(yred_p2, 0):
+        if not (np.allclose(xred_p2, 0) and np.allclose(yred_p2, 0)):
             return False
 
         return True
-- 
2.43.0


From e62fcb80c543edf893e53216ff98ebd6fdedde44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:36 +0000
Subject: [PATCH 05/45] fix: comparing a geometry on a lattice with one without
 a lattice raised AttributeError

---
 exact_diag/ed_geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 528a3c5..12b33dc 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -950,6 +950,9 @@ class Lattice:
     # #################################
 
     def __eq__(self, other):
+        if not isinstance(other, Lattice):
+            return False
+
         if np.array_equal(self.lattice_vect1, other.lattice_vect1) and \
            np.array_equal(self.lattice_vect2, other.lattice_vect2) and \
            np.array_equal(self.periodicity_vect1, other.periodicity_vect1) and \
-- 
2.43.0


From 6dbd33099f3f6c37437e2dc275e56fb45d40dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:09 +0000
Subject: [PATCH 06/45] fix: geometries which differ in their hopping phases
 are not equal

---
 exact_diag/ed_geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 12b33dc..e0932af 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -630,6 +630,7 @@ class Geometry:
             np.array_equal(self.xdist_mat, other.xdist_mat) and \
             np.array_equal(self.ydist_mat, other.ydist_mat) and \
             np.array_equal(self.adjacency_mat, other.adjacency_mat) and \
+            np.array_equal(self.phase_mat, other.phase_mat) and \
             self.lattice == other.lattice:
             return True
         else:
-- 
2.43.0


From 7525b0efbdfd8063b513614dd6470ffa01e768de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:36 +0000
Subject: [PATCH 07/45] fix: ignore floating point error when sorting sites by
 row

---
 exact_diag/ed_geometry.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index e0932af..828c8cd 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -393,19 +393,23 @@ class Geometry:
         :return: sorted_indices
         """
 
+        # sites in the same row or column may differ by floating point error
+        xlocs = np.round(self.xlocs, self._round_decimals)
+        ylocs = np.round(self.ylocs, self._round_decimals)
+
         if sorting_mode == 'top_alternating':
             # put sites in order top-to-bottom, alternating order in each row
             # For lattice where periodicity respects A and B sublattices, this should
             # order the sites so that every other number is on a different sublattice.
             # This is helpful because it makes identifying some states easier
-            sorted_indices = np.lexsort((self.xlocs * np.power(-1., self.ylocs - np.max(self.ylocs)), -self.ylocs))
+            sorted_indices = np.lexsort((xlocs * np.power(-1., ylocs - np.max(ylocs)), -ylocs))
         elif sorting_mode == 'top_left':
             # put sites in order top-to-bottom, then left-to-right
             # sort on largest-y (smallest -y), then sort on smallest-x
-            sorted_indices = np.lexsort((self.xlocs, -self.ylocs))
+            sorted_indices = np.lexsort((xlocs, -ylocs))
         elif sorting_mode == 'bottom_right':
             # put sites in order bottom-to-top, then left-to-right
-            sorted_indices = np.lexsort((self.xlocs, self.ylocs))
+            sorted_indices = np.lexsort((xlocs, ylocs))
         elif sorting_mode == 'adjacency':
             # sort sites by number of adjacent sites
             # if sites have the same number of adjacent sites, sort by how many sites can be reach in k steps for
-- 
2.43.0


From 947aaed2d6e91f6cbc5d824c4424666d8f50e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:53 +0000
Subject: [PATCH 08/45] fix: order of the D7 conjugacy classes did not match
 the character table

---
 exact_diag/ed_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 8f23332..1177740 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -645,8 +645,8 @@ def getD7Projectors(rot_op,
                     [refl_op, rot_op * refl_op, rot_op**2 * refl_op, rot_op**3 * refl_op,
                      rot_op**4 * refl_op, rot_op**5 * refl_op, rot_op**6 * refl_op],
                     [rot_op, rot_op ** 6],
-                    [rot_op**3, rot_op**4],
-                    [rot_op**2, rot_op**5]]
+                    [rot_op**2, rot_op**5],
+                    [rot_op**3, rot_op**4]]
 
     projs = get_symmetry_projectors(char_table, conj_classes, print_results=print_results)
 
-- 
2.43.0


From 9af722a52fa479198759b47901d5b2e5f0f38552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:53 +0000
Subject: [PATCH 09/45] fix: findSiteCycles reported zero transformations to
 close on a single site

---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 1177740..58e7bb6 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -186,7 +186,7 @@ def findSiteCycles(transform_fn,
     # find the number of transformations required to get us_interspecies back to our initial configuration
     # column k of trans_sites is the site labels after performing the transformation k-times
     trans_sites = sites[:, None]
-    current_sites = np.zeros(sites.shape)
+    current_sites = None
     max_iter = nsites + 1
     ii = 0
     while not np.array_equal(current_sites, sites) and ii < max_iter:
-- 
2.43.0


From 61ffb80d3df555228e8267097809cc837c94fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 10/45] fix: single site operators had the wrong size if the
 local basis is not two dimensional

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c8a5395..c2da356 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -339,7 +339,7 @@ class ed_base:
                 endmat = sp.kron(endmat, self.parity_op, format="coo")
             # TODO: can I generate this parity matrix without a loop? Would it be faster?
         elif format == "boson":
-            endmat = sp.eye(2 ** (n_logical_sites - site_index_logical - 1))
+            endmat = sp.eye(self.nbasis ** (n_logical_sites - site_index_logical - 1))
         else:
             raise Exception()
 
-- 
2.43.0


From d3b7aa86a67a00eba2c4a1e428db54e42b1ae139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 11/45] fix: get_norms raised AttributeError for a single state
 vector

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index c2da356..b50bd9f 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -562,7 +562,7 @@ class ed_base:
             tstart = perf_counter()
 
         if states.ndim == 1:
-            states = np.expand_dim(states, axis=1)
+            states = np.expand_dims(states, axis=1)
 
         if sp.issparse(states):
             states = states.tocsr()
-- 
2.43.0


From aff9caf104309777936204a11cd3cd01e8fb1900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 12/45] fix: partition function of a sparse hamiltonian raised
 an exception

---
 exact_diag/ed_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index b50bd9f..a0c957f 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -946,7 +946,9 @@ class ed_base:
         if beta == 0:
             return hamiltonian.shape[0]
         else:
-            return np.trace(expm(- beta * hamiltonian).toarray().real)
+            if sp.issparse(hamiltonian):
+                hamiltonian = hamiltonian.toarray()
+            return np.trace(expm(- beta * hamiltonian)).real
 
     def get_partition_fn_sectors(self,
                                  energies_sectors: list,
-- 
2.43.0


From e8b876883cbb859d8022c88cd3b9122443faa6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 13/45] fix: thermal weights in the finite temperature retarded
 response

The weight exp(-beta * E_n) (1 -/+ exp(beta * (E_n - E_m))) was applied with
exp(-beta * E_m), which does not reduce to the zero temperature result.
---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index a0c957f..1261ffc 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1111,7 +1111,7 @@ class ed_base:
             beta = 1 / temperature
             z = np.sum(np.exp(- beta * eig_vals))
             mat_elem = np.multiply(a_matrix_elems, b_matrix_elems.transpose())
-            thermal_mat_elem = mat_elem.dot(np.diag(np.exp(- beta * eig_vals)))
+            thermal_mat_elem = np.diag(np.exp(- beta * eig_vals)).dot(mat_elem)
             omega_fn = lambda wo, eta, es, amp: np.multiply(1 + factor * np.exp(beta * es), lor(wo + es, eta, amp))
 
         else:
-- 
2.43.0


From cbe50f13268a04514bea66efb4eaf86f8dd8a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 14/45] fix: get_xform_op returned an integer for
 transformations which do not move any site

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 1261ffc..d98611c 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -136,7 +136,7 @@ class ed_base:
         if print_results:
             tstart = perf_counter()
 
-        trans_op = 1
+        trans_op = sp.eye(self.nstates, format="csr")
         for cycle in cycles:
             if len(cycle) > 1:
                 # loop over species
-- 
2.43.0


From d7e278eee56791fc37cb603a768ea7662e3b938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:08 +0000
Subject: [PATCH 15/45] fix: spinless2spinfullIndex returned a float species
 index

---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index d98611c..876ce34 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -313,7 +313,7 @@ class ed_base:
         :return: (spinfull site index, spin index)
         """
         site_index = np.mod(spinless_site_index, n_physical_sites)
-        spin_index = (spinless_site_index - site_index) / n_physical_sites
+        spin_index = (spinless_site_index - site_index) // n_physical_sites
         return site_index, spin_index
 
     def get_single_site_op(self,
-- 
2.43.0


From 7232590b193a35b939cc3ac08ac726eb1f41e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 16/45] fix: zero temperature averages missed part of a
 degenerate ground state

Degenerate eigenvalues of a hamiltonian with norm of order 10 already differ by
more than 1e-13, e.g. for the 7 site Heisenberg ring with j=10.
---
 exact_diag/ed_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 876ce34..b84fe44 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -925,7 +925,7 @@ class ed_base:
             else:
                 # zero temperature
                 # Check for degenerate states
-                nstates = len(energies[np.round(energies, 13) == 0])
+                nstates = len(energies[np.round(energies, 10) == 0])
                 thermal_weights = np.zeros(energies.size)
                 thermal_weights[0:nstates] = 1.
                 z = float(nstates)
-- 
2.43.0


From 58406ac42e936760414bce615e1821b2a19ed0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 17/45] fix: retarded response dropped transitions at low
 temperature due to overflow

---
 exact_diag/ed_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index b84fe44..03c9671 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -1111,8 +1111,10 @@ class ed_base:
             beta = 1 / temperature
             z = np.sum(np.exp(- beta * eig_vals))
             mat_elem = np.multiply(a_matrix_elems, b_matrix_elems.transpose())
-            thermal_mat_elem = np.diag(np.exp(- beta * eig_vals)).dot(mat_elem)
-            omega_fn = lambda wo, eta, es, amp: np.multiply(1 + factor * np.exp(beta * es), lor(wo + es, eta, amp))
+            # combine the weights of both terms here, because exp(beta * (E_n - E_m)) overflows at low temperatures
+            weights = np.exp(- beta * eig_vals)
+            thermal_mat_elem = np.multiply(mat_elem, weights[:, None] + factor * weights[None, :])
+            omega_fn = lambda wo, eta, es, amp: lor(wo + es, eta, amp)
 
         else:
             z = 1
-- 
2.43.0


From 44ee1d09342d8215d5316219f057ec6efc07e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 18/45] fix: integrate_conductivity at low temperature and for
 degenerate states

The result was nan at low temperature because the exponential overflows, and
numerically degenerate states, which should be excluded, were included.
---
 exact_diag/ed_fermions.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 3af1943..ab202ea 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -555,20 +555,21 @@ class fermions(ed_base):
             [a, b] = np.meshgrid(eig_vals, eig_vals)
             omegas = b - a
 
-            weight = np.divide(1 - np.exp(- beta * omegas), omegas)
-            weight[omegas == 0] = 0
-            # multiply each column by the appropriate exponentail factor and weight. Then sum over everything.
-            # think of n as columns, n as rows
-            sigma_re_two_sided_int = np.pi / z / nsites * \
-                                     np.sum(np.sum(np.multiply(np.square(np.abs(current_matrix_elems)).dot(
-                                         np.diag(np.exp(- beta * eig_vals))), weight)))
+            # exp(-beta * E_n) * (1 - exp(-beta * (E_m - E_n))) / (E_m - E_n)
+            # written in terms of the boltzmann factors, because the second exponential may overflow.
+            # think of n as columns, m as rows
+            boltzmann = np.exp(- beta * eig_vals)
+            non_degenerate = np.abs(omegas) > 1e-10
+            weight = np.zeros(omegas.shape)
+            np.divide(boltzmann[None, :] - boltzmann[:, None], omegas, out=weight, where=non_degenerate)
+            sigma_re_two_sided_int = np.pi / z / nsites * np.sum(np.multiply(np.square(np.abs(current_matrix_elems)),
+                                                                             weight))
 
         else:
             # period_start = 0, only need to sum over one set of states
             omegas = eig_vals - eig_vals[0]
-            # omegas[omegas == 0] = 1e9
-            weight = np.divide(1, omegas)
-            weight[omegas == 0] = 0
+            weight = np.zeros(omegas.shape)
+            np.divide(1, omegas, out=weight, where=np.abs(omegas) > 1e-10)
             current_matrix_elems = current_matrix_elems[:, 0]
             # we are effectively doing the one-sided integral, therefore we need to multiply this by 2
             sigma_one_sided_int = np.pi / nsites * np.sum(np.multiply(np.square(np.abs(current_matrix_elems)), weight))
-- 
2.43.0


From 56e1ad137aabb8d6ba3bfac08c8b46ee55b3aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:28 +0000
Subject: [PATCH 19/45] fix: optical conductivity at low temperature and for
 degenerate ground states

Absorption was dropped at low temperature because the exponential overflows,
and at zero temperature numerically degenerate states, which should be excluded,
gave a diverging contribution.
---
 exact_diag/ed_fermions.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index ab202ea..8e0a924 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -612,7 +612,11 @@ class fermions(ed_base):
             [a, b] = np.meshgrid(eig_vals, eig_vals)
             omegas = b - a
 
-            thermal_mat_elem = np.square(np.abs(current_matrix_elems)).dot(np.diag(np.exp(- beta * eig_vals)))
+            # |J_mn|^2 * exp(-beta * E_n) * (1 - exp(-beta * (E_m - E_n))), where n labels columns and m labels rows
+            # written in terms of the boltzmann factors, because the second exponential may overflow.
+            boltzmann = np.exp(- beta * eig_vals)
+            thermal_mat_elem = np.multiply(np.square(np.abs(current_matrix_elems)),
+                                           boltzmann[None, :] - boltzmann[:, None])
             omegas = omegas[np.abs(current_matrix_elems) > 10 ** -16].flatten()
             thermal_mat_elem = thermal_mat_elem[np.abs(current_matrix_elems) > 10 ** -16].flatten()
             # there is some ambiguity in how to define this function. In particular,
@@ -623,20 +627,17 @@ class fermions(ed_base):
             # get rid of these elements, because this is zero (and we shouldn't evaluate omega_start = 0).
             # If we put both as e_m-e_n, then we get a nan, which is also removed later.
             # But we should not put them both as omega_start, because???
-            omega_fn = lambda wo, eta, w, amp: np.divide(np.multiply(1 - np.exp(-beta * w),
-                                                                     lor(wo, eta, w, amp)),
-                                                         wo)
+            omega_fn = lambda wo, eta, w, amp: np.divide(lor(wo, eta, w, amp), wo)
 
         else:
             z = 1
             omegas = eig_vals
             thermal_mat_elem = np.square(np.abs(current_matrix_elems[:, 0]))
-            omegas = omegas[np.abs(current_matrix_elems[:, 0]) > 10 ** -16].flatten()
-            thermal_mat_elem = thermal_mat_elem[np.abs(current_matrix_elems[:, 0]) > 10 ** -16].flatten()
-            # need to turn infs into nans to more easily get rid of
-            omega_fn = lambda wo, eta, w, amp: np.multiply(np.divide(lor(np.abs(wo), eta, w, amp),
-                                                                     w),
-                                                           1 - np.isinf(1/w))
+            # exclude matrix elements between the (possibly degenerate) ground states
+            to_use = np.logical_and(np.abs(current_matrix_elems[:, 0]) > 10 ** -16, omegas > 1e-10)
+            omegas = omegas[to_use].flatten()
+            thermal_mat_elem = thermal_mat_elem[to_use].flatten()
+            omega_fn = lambda wo, eta, w, amp: np.divide(lor(np.abs(wo), eta, w, amp), w)
 
         opt_cond_fn = lambda wo, eta: np.pi / z / self.geometry.nsites * np.nansum(omega_fn(wo,
                                                                                             eta,
-- 
2.43.0


From 93cb9ed3020fa750ac5100132546bcc4d070d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 20/45] fix: potentials given per species were assigned to
 sites instead of species

---
 exact_diag/ed_fermions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 8e0a924..fb254f9 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -124,7 +124,7 @@ class fermions(ed_base):
         elif potentials.size == self.nspecies:
             self.potentials = np.zeros((self.geometry.nsites, self.nspecies))
             for ii in range(0, self.nspecies):
-                self.potentials[ii, :] = potentials[ii] * np.ones(self.geometry.nsites)
+                self.potentials[:, ii] = potentials[ii] * np.ones(self.geometry.nsites)
         elif potentials.shape == (self.geometry.nsites, self.nspecies):
             self.potentials = potentials
         elif potentials.shape == (self.geometry.nsites,) and self.nspecies == 1:
-- 
2.43.0


From fdd43d05b315afd6acb96ffe3a0c19a9dfe42fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 21/45] fix: complex hopping amplitudes, e.g. for twisted
 boundary conditions

The imaginary part of the hopping was discarded, and the hermitian conjugate
term did not use the conjugate amplitude.
---
 exact_diag/ed_fermions.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index fb254f9..9791439 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -238,11 +238,13 @@ class fermions(ed_base):
         if t.size == 1:
             t = t * np.ones(self.nspecies)
 
-        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies))
+        # complex if we have e.g. twisted boundary conditions
+        hopping_mat = np.zeros((self.geometry.nsites, self.geometry.nsites, self.nspecies),
+                               dtype=np.result_type(float, t.dtype, self.geometry.phase_mat.dtype))
         for ii in range(0, self.nspecies):
             hopping_mat[:, :, ii] = t[ii] * np.multiply(self.geometry.adjacency_mat, self.geometry.phase_mat)
 
-            if not np.array_equal(hopping_mat[:, :, ii], hopping_mat[:, :, ii].conj().transpose()):
+            if not np.allclose(hopping_mat[:, :, ii], hopping_mat[:, :, ii].conj().transpose()):
                 raise Exception('Hopping matrix in get_hopping_mat was not hermitian.')
 
         return hopping_mat
@@ -334,13 +336,15 @@ class fermions(ed_base):
                         for kk in range(0, self.nspecies):
                             # avoid calculating operators unless will be nonzero
                             if self.ts[ii, jj, kk] != 0:
-                                ke_op = ke_op + self.ts[ii, jj, kk] * sep_along_vector[ii, jj] * (
-                                        - projector * self.get_two_site_op(ii, kk, jj, kk,
+                                ke_op = ke_op + sep_along_vector[ii, jj] * (
+                                        - self.ts[ii, jj, kk] *
+                                          projector * self.get_two_site_op(ii, kk, jj, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
                                           projector.conj().transpose()
-                                        - projector * self.get_two_site_op(jj, kk, ii, kk,
+                                        - np.conj(self.ts[ii, jj, kk]) *
+                                          projector * self.get_two_site_op(jj, kk, ii, kk,
                                                                            self.cdag_op,
                                                                            self.c_op,
                                                                            "fermion") *
-- 
2.43.0


From 072a94ab956d77d9ae72111fae7920a376510c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 22/45] fix: hamiltonian hopping was scaled by the bond
 orientation and length

The sum of the x- and y-kinetic energies weights each bond by |dx| + |dy|, so
the tunneling was wrong unless all bonds lie along x or y and have unit length,
e.g. for triangular, hexagonal and polygon geometries.
---
 exact_diag/ed_fermions.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 9791439..0275c91 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -290,8 +290,7 @@ class fermions(ed_base):
 
         haml = haml + self.get_u_interspecies_op(self.us_interspecies, projector=projector)
         haml = haml + self.get_u_samespecies_op(self.us_same_species, projector=projector)
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([1, 0]))
-        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=np.array([0, 1]))
+        haml = haml + self.get_kinetic_op(projector=projector, direction_vect=None)
         haml = haml + self.get_chemical_pot_op(self.mus, projector=projector)
         haml = haml + self.get_potential_op(self.potentials, projector=projector)
 
@@ -308,7 +307,8 @@ class fermions(ed_base):
         Compute the kinetic energy operator for a specific hopping connection matrix
 
         :param projector:
-        :param direction_vect:
+        :param direction_vect: only consider the kinetic energy along this direction. If None, use the full
+          kinetic energy
         :return:
         """
         # TODO: add option for kinetic energy along some arbitary direction
@@ -322,8 +322,11 @@ class fermions(ed_base):
 
         ke_op = sp.csr_matrix((nstates, nstates))
 
-        sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
-                                   np.square(direction_vect[1] * self.geometry.ydist_mat))
+        if direction_vect is None:
+            sep_along_vector = np.ones(self.geometry.xdist_mat.shape)
+        else:
+            sep_along_vector = np.sqrt(np.square(direction_vect[0] * self.geometry.xdist_mat) +
+                                       np.square(direction_vect[1] * self.geometry.ydist_mat))
         # hopping terms
         if n_physical_sites > 1:
 
-- 
2.43.0


From 987698083b7283de8c23b8f5f3f109f2e35d9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:10 +0000
Subject: [PATCH 23/45] fix: get_current_op used tunneling attributes which do
 not exist

---
 exact_diag/ed_fermions.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/exact_diag/ed_fermions.py b/exact_diag/ed_fermions.py
index 0275c91..02f8e27 100644
--- a/exact_diag/ed_fermions.py
+++ b/exact_diag/ed_fermions.py
@@ -497,28 +497,18 @@ class fermions(ed_base):
         # such a chain (ring) doesn't have a consistent notion of right vs. left (clockwise vs. counterclockwise)
 
         geom_obj = self.geometry
-        tx = self.tx
-        ty = self.ty
 
         direction_vector = np.reshape(np.asarray(direction_vector), [2])
 
-        current_op = 0
-        distance_component_x = geom_obj.xdist_mat * direction_vector[0]
-        distance_component_y = geom_obj.ydist_mat * direction_vector[1]
-        is_x_neighbor = np.round(np.abs(geom_obj.xdist_mat), 14) == 1
-        is_y_neighbor = np.round(np.abs(geom_obj.ydist_mat), 14) == 1
+        current_op = sp.csr_matrix((self.nstates, self.nstates))
+        distance_component = geom_obj.xdist_mat * direction_vector[0] + geom_obj.ydist_mat * direction_vector[1]
 
         for ii in range(0, geom_obj.nsites):
             for jj in range(0, geom_obj.nsites):
                 for kk in range(0, self.nspecies):
 
-                    if geom_obj.adjacency_mat[ii, jj] and is_x_neighbor[ii, jj]:
-                        link_current = tx * distance_component_x[ii, jj] * \
-                                       self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
-                        current_op = current_op + link_current
-
-                    if geom_obj.adjacency_mat[ii, jj] and is_y_neighbor[ii, jj]:
-                        link_current = ty * distance_component_y[ii, jj] * \
+                    if ii != jj and self.ts[ii, jj, kk] != 0:
+                        link_current = self.ts[ii, jj, kk] * distance_component[ii, jj] * \
                                        self.get_two_site_op(ii, kk, jj, kk, self.cdag_op, self.c_op, format="fermion")
                         current_op = current_op + link_current
         current_op = 1j * current_op
-- 
2.43.0


From 9aaa48d4c685bb776c8c91c9b0165d6759abc5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 24/45] fix: spin raising and lowering operators were exchanged

The basis is ordered from m=s to m=-s, so S+ lowered m. As a result S^y had the
wrong sign and [S^x, S^y] = -i S^z.
---
 exact_diag/ed_spins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 5777798..68f6c39 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -82,7 +82,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin - 1, -spin - 1, -1)
-        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), -1)
+        return sp.diags(np.sqrt((spin - ms) * (spin + ms + 1)), 1)
 
     @staticmethod
     def get_sminus(spin):
@@ -93,7 +93,7 @@ class spinSystem(ed_base):
         :return:
         """
         ms = np.arange(spin, -spin, -1)
-        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), 1)
+        return sp.diags(np.sqrt((spin + ms) * (spin - ms + 1)), -1)
 
     def get_sx(self,
                spin):
-- 
2.43.0


From 98bc4b9ebe07cb53a02c44f91b2eeee86e7e243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 25/45] fix: spinSystem.get_sum_op raised AttributeError

---
 exact_diag/ed_spins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 68f6c39..a3e1c1e 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -448,7 +448,7 @@ class spinSystem(ed_base):
         :return: OpMat, sparse matrix
         """
         species_index = 0
-        return ed_base.ed_base.get_sum_op(self, op, species_index, format="boson", print_results=False)
+        return ed_base.get_sum_op(self, op, species_index, format="boson", print_results=False)
 
     def get_swap_up_down_op(self):
         """
-- 
2.43.0


From 1beeb82138fae9f55ffa7595ce976edecdcdbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 26/45] fix: get_state_parity called get_state_vects with
 arguments it does not accept

---
 exact_diag/ed_spins.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index a3e1c1e..f06d4b2 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -217,8 +217,7 @@ class spinSystem(ed_base):
         """
         if print_results:
             tstart = perf_counter()
-        StateParity = np.mod(np.array(self.get_state_vects(self.geometry.nsites,
-                                                           2 ** self.geometry.nsites).sum(1)), 2)
+        StateParity = np.mod(np.array(self.get_state_vects().sum(1)), 2)
         if print_results:
             tend = perf_counter()
             print("get_state_parity took %0.2fs" % (tend - tstart))
-- 
2.43.0


From 804d2d48b382edee6e9e8a445b48f5a35150e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 27/45] fix: interactions given as one number per bond raised
 an exception

---
 exact_diag/ed_spins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index f06d4b2..7880d25 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -155,8 +155,9 @@ class spinSystem(ed_base):
             if j.shape == (self.geometry.nsites, self.geometry.nsites):
                 j_mat = j
             elif j.size == self.geometry.nsites:
-                j_mat = np.diag(j[:-1], 1) + np.diag(j[-1], -1)
+                j_mat = np.diag(j[:-1], 1) + np.diag(j[:-1], -1)
                 j_mat[0, self.geometry.nsites - 1] = j[-1]
+                j_mat[self.geometry.nsites - 1, 0] = j[-1]
             else:
                 raise Exception('j should be nsites x nsites matrix or a list of size nsites')
         else:
-- 
2.43.0


From 92369633cb523665d687076eda5edc52f40a7288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 28/45] fix: the second antiferromagnetic state was off by one
 basis state

---
 exact_diag/ed_spins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 7880d25..11be5e8 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -373,11 +373,11 @@ class spinSystem(ed_base):
             # if Xsites is odd
             if NSites % 2:
                 # if nsites is odd
-                AFMState1Ind = (1 + NStates) / 3 - 1
+                AFMState1Ind = (1 + NStates) // 3 - 1
             else:
                 # if nsites is even
-                AFMState1Ind = (2 + NStates) / 3 - 1
-            AFMState2Ind = NStates - AFMState1Ind
+                AFMState1Ind = (2 + NStates) // 3 - 1
+            AFMState2Ind = NStates - 1 - AFMState1Ind
         else:
             print('AFM State finder not implemented for even number of sites in X-direction when using '
                   'conventional number, or not implemented for only a single site. Will return FM states instead')
-- 
2.43.0


From 96ee4a9cb4138ac9508fa025182ca8b2288e284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:02 +0000
Subject: [PATCH 29/45] fix: get_swap_op raised an exception for spins other
 than 1/2

---
 exact_diag/ed_spins.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_spins.py b/exact_diag/ed_spins.py
index 11be5e8..e35545c 100644
--- a/exact_diag/ed_spins.py
+++ b/exact_diag/ed_spins.py
@@ -472,7 +472,15 @@ class spinSystem(ed_base):
         :param species: Integer specifying species (should always be zero in this case)
         :return: Sparse matrix
         """
-        return self.get_two_site_op(site1, species, site2, species, self.pauli_plus, self.pauli_minus, format="boson") + \
-               self.get_two_site_op(site1, species, site2, species, self.pauli_minus, self.pauli_plus, format="boson") + \
-               0.5 * sp.eye(self.nstates) + \
-               0.5 * self.get_two_site_op(site1, species, site2, species, self.pauli_z, self.pauli_z, format="boson")
+        if site1 == site2:
+            return sp.eye(self.nstates, format="csr")
+
+        # sum over |a><b| on site1 and |b><a| on site2
+        swap_op = sp.csr_matrix((self.nstates, self.nstates))
+        for aa in range(self.nbasis):
+            for bb in range(self.nbasis):
+                ab_op = np.zeros((self.nbasis, self.nbasis))
+                ab_op[aa, bb] = 1
+                swap_op = swap_op + self.get_two_site_op(site1, species, site2, species,
+                                                         ab_op, ab_op.transpose(), format="boson")
+        return swap_op
-- 
2.43.0


From e3a3e848cd035b957fbbbb2c717951f7be3ee66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 30/45] fix: get_nlce_exp_val raised an exception if the last
 dimension has size one

---
 exact_diag/ed_nlce.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index bd03a80..ae1fa03 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -545,8 +545,8 @@ def get_nlce_exp_val(exp_vals_clusters,
         # in the general case, we need to sum over index 1 of sub_cluster_multiplicty_mat, and index 0 of weights.
         # np.dot no longer works, as this sums over the last index of the first array, and the second to last index of
         # the second array. To sum over arbitrary axes, use np.tensordot
-        weights[ii, ...] = exp_vals_clusters[ii, ...] - np.squeeze(
-            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0)))
+        weights[ii, ...] = exp_vals_clusters[ii, ...] - \
+            np.tensordot(sub_cluster_multiplicity_mat[ii, :].toarray(), weights, axes=(1, 0))[0, ...]
 
     # exp_val_nlce[jj] = sub_cluster_multiplicity_mat[-1, :] * weights[:, jj] / nsites
     # exp_val_nlce = np.squeeze(np.tensordot(sub_cluster_multiplicity_mat[-1, :].toarray(),
@@ -557,8 +557,8 @@ def get_nlce_exp_val(exp_vals_clusters,
     size = [len(order_start_indices) - 1] + [int(c) for c in b]
     nlce_orders = np.zeros(tuple(size))
     for ii in range(0, len(order_start_indices) - 1):
-        nlce_orders[ii, ...] = np.squeeze(np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
-                                                 weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))) / nsites
+        nlce_orders[ii, ...] = np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
+                                            weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))[0, ...] / nsites
 
     return exp_val_nlce, nlce_orders, weights
 
-- 
2.43.0


From 4ee04367ec15a1b8da1fb99826f6b038c6207490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:59 +0000
Subject: [PATCH 31/45] fix: sub-cluster multiplicities without symmetry

get_all_clusters_with_subclusters(use_symmetry=False) identified sub-clusters
related by symmetry, and then lost all but one of them.
---
 exact_diag/ed_nlce.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index ae1fa03..d88b158 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -143,7 +143,8 @@ def get_all_clusters_with_subclusters(max_order: int,
             print("cluster index = %d" % index)
         cluster = full_cluster_list[index]
         # get all sub clusters of each cluster
-        subclusters_list, subcluster_mult_mat, order_indices_subclusters = get_reduced_subclusters(cluster)
+        subclusters_list, subcluster_mult_mat, order_indices_subclusters = \
+            get_reduced_subclusters(cluster, use_symmetry=use_symmetry)
         cluster_reduction_mat = map_between_cluster_bases(full_cluster_list,
                                                           order_indices_full,
                                                           subclusters_list,
@@ -416,13 +417,15 @@ def reduce_clusters_by_geometry(cluster_orders_list,
 
 
 def get_reduced_subclusters(parent_geometry,
-                            print_progress: bool = False):
+                            print_progress: bool = False,
+                            use_symmetry: bool = True):
     """
     For a given parent geometry, produce all subclusters and the number of times each subcluster is contained in the
     parent
 
     :param parent_geometry:
     :param print_progress:
+    :param use_symmetry: if True, regard clusters which are related by D4 symmetry as identical
     :return cluster_list: a list of distinct sub clusters of the parent_geometry (including the parent geometry itself)
     :return sub_cluster_mat: a square matrix which gives the number of times cluster j can be embedded in cluster i, if
       cluster j is a proper sub-cluster of i (i.e. the diagonal of this matrix is zero).
@@ -434,7 +437,7 @@ def get_reduced_subclusters(parent_geometry,
 
     # get unique geometric clusters of each order and multiplicity
     clusters_geom_distinct, clusters_geom_multiplicity, cluster_reduction_mat = \
-        reduce_clusters_by_geometry(cluster_orders_list, use_symmetry=True)
+        reduce_clusters_by_geometry(cluster_orders_list, use_symmetry=use_symmetry)
     clusters_list = [g for h in clusters_geom_distinct for g in h]
 
     # indices
-- 
2.43.0


From e4b0809b09d46db582798377a1fb27a3cbed5b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:21 +0000
Subject: [PATCH 32/45] fix: generate_clusters raised KeyError if the cluster
 file already exists

---
 cluster/generate_clusters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/generate_clusters.py b/cluster/generate_clusters.py
index bece71f..7355a22 100644
--- a/cluster/generate_clusters.py
+++ b/cluster/generate_clusters.py
@@ -10,7 +10,7 @@ def generate_clusters(fname_cluster_dat, max_cluster_order):
     if os.path.isfile(fname_cluster_dat):
         with open(fname_cluster_dat, 'rb') as f:
             data = pickle.load(f)
-        cluster_list = data[2]
+        cluster_list = data["cluster_list"]
         return len(cluster_list)
 
     # if data file doesn't already exist, we must generate the clusters and create the file
-- 
2.43.0


From c77633cb6fd489e34de89283cc99d8252cc6634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:21 +0000
Subject: [PATCH 33/45] fix: diag_cluster called a method which no longer
 exists

---
 cluster/diag_cluster.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cluster/diag_cluster.py b/cluster/diag_cluster.py
index 04839d0..ca5e673 100644
--- a/cluster/diag_cluster.py
+++ b/cluster/diag_cluster.py
@@ -44,12 +44,13 @@ def diag_cluster(cluster_index,
         szsz_corrs[0, jj] = 0
         for aa in range(0, model.geometry.nsites):
             for bb in range(aa + 1, model.geometry.nsites):
-                szsz_op = model.getTwoSiteOp(aa,
-                                             bb,
-                                             model.geometry.nsites,
-                                             model.pauli_z,
-                                             model.pauli_z,
-                                             format="boson")
+                szsz_op = model.get_two_site_op(aa,
+                                                0,
+                                                bb,
+                                                0,
+                                                model.pauli_z,
+                                                model.pauli_z,
+                                                format="boson")
                 szsz_exp = model.get_exp_vals_thermal(eig_vects, szsz_op, eig_vals, T)
                 szsz_corrs[0, jj] = szsz_corrs[0, jj] + szsz_exp
 
-- 
2.43.0


From 8adbbd0f69f237fcffd4469530c30c0f54ab55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:21 +0000
Subject: [PATCH 34/45] fix: aggregate_results could not read the output of
 aggregate_subclusters

The fields were read in the wrong order, and the cluster multiplicities, which
the expansion needs, were not saved.
---
 cluster/aggregate_results.py         | 11 ++++++-----
 cluster/generate_clusters_no_subs.py |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/cluster/aggregate_results.py b/cluster/aggregate_results.py
index 5c1e051..095db4d 100644
--- a/cluster/aggregate_results.py
+++ b/cluster/aggregate_results.py
@@ -4,7 +4,7 @@ import pickle
 import numpy as np
 import re
 
-import ed_nlce
+from exact_diag import ed_nlce
 
 def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
 
@@ -49,10 +49,11 @@ def aggregate_results(file_pattern, fname_cluster_dat, fname_out):
     with open(fname_cluster_dat, 'rb') as f:
         cluster_dat = pickle.load(f)
     max_cluster_order = cluster_dat[0]
-    cluster_multiplicities = cluster_dat[1]
-    clusters_list = cluster_dat[2]
-    sub_cluster_mult = cluster_dat[3]
-    order_start_indices = cluster_dat[4]
+    # layout written by generate_clusters_no_subs and aggregate_subclusters
+    clusters_list = cluster_dat[1]
+    order_start_indices = cluster_dat[2]
+    cluster_multiplicities = cluster_dat[4][None, :]
+    sub_cluster_mult = cluster_dat[5]
 
     # NLCE
     energy_nlce, orders_energy, weight_energy = \
diff --git a/cluster/generate_clusters_no_subs.py b/cluster/generate_clusters_no_subs.py
index 96c322f..e2a983b 100644
--- a/cluster/generate_clusters_no_subs.py
+++ b/cluster/generate_clusters_no_subs.py
@@ -20,7 +20,7 @@ def generate_clusters_no_subs(fname_cluster_dat,
     t_end = time.process_time()
 
     # save cluster data
-    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start]
+    data_clusters = [max_cluster_order, clusters_list, order_start_indices, t_end - t_start, cluster_multiplicities]
     with open(fname_cluster_dat, 'wb') as f:
         pickle.dump(data_clusters, f)
 
-- 
2.43.0


From 305f60580bba0961323fc3659bca51aa1563cbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:00 +0000
Subject: [PATCH 35/45] fix: 1d density response ignored the wavevector

---
 exact_diag/fermi_gas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index fca2774..e5fd740 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -588,7 +588,7 @@ def fg_density_response(beta,
         kxkx_shift = kxkx + k[0]
 
         # get energies
-        dispersion = lambda kx: -2 * np.cos(kxkx)
+        dispersion = lambda kx: -2 * np.cos(kx)
         es = dispersion(kxkx)
         es_q = dispersion(kxkx_shift)
 
-- 
2.43.0


From 510e07c9e9b91aade3b3843b4cb38efd91898adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:00 +0000
Subject: [PATCH 36/45] fix: density response at degeneracies which are only
 degenerate to floating point precision

The limiting value was only used if the energies were exactly equal. Otherwise
the ratio of two floating point errors was added to the sum.
---
 exact_diag/fermi_gas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index e5fd740..efd5cba 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -613,7 +613,8 @@ def fg_density_response(beta,
         chi_terms = np.divide(fermi(beta, mu, es) - fermi(beta, mu, es_q), omega + es - es_q + 1j * eta)
         # at those points, use L'Hopital's rule to get finite value
         lim = -fermi_derivatives(beta, mu, es, eta=0.0)[0]
-        chi_terms[np.isnan(chi_terms)] = lim[np.isnan(chi_terms)]
+        degenerate = np.logical_and(np.abs(es - es_q) < 1e-10, np.abs(omega + 1j * eta) < 1e-10)
+        chi_terms[degenerate] = lim[degenerate]
         # sum them to get chi
         chi = np.sum(chi_terms) / kxkx.size
 
-- 
2.43.0


From 47f51df186a51d50157fdcbc40773af8339cabe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:00 +0000
Subject: [PATCH 37/45] fix: fg_mu did not find the chemical potential at low
 temperature and at half-filling

Use a bracketing root finder on the density, which is monotonic in mu.
---
 exact_diag/fermi_gas.py | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index efd5cba..c07ad7d 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -2,7 +2,7 @@
 Compute properties of a one- or two-component non-interacting Fermi gas
 """
 import numpy as np
-from scipy.optimize import root_scalar, minimize
+from scipy.optimize import root_scalar
 from warnings import warn
 
 
@@ -429,8 +429,6 @@ def fg_mu(beta,
     :param dim:
     :return mu:
     """
-    # TODO: this still fails at T = 0 and low T near half-filling
-
     beta = np.asarray(beta)
     if beta.ndim == 0:
         beta = beta[None]
@@ -456,26 +454,18 @@ def fg_mu(beta,
 
             mu[coord] = fg_mu(beta[coord], density[coord], nsites, dim)
     else:
-        min_fn = lambda mu: np.abs(fg_density(beta, mu, nsites, dim) - density)
-        jacobian = lambda mu: fg_compressibility(beta, mu, nsites, dim)
-        jacobian_fsqr = lambda mu: 2 * min_fn(mu) * jacobian(mu)
-
-        # mu_guess = np.array([0.0])
-        # result = scipy.optimize.minimize(min_fn, mu_guess)
-        # mu = result.x
-
-        if density == 0.5:
-            mu = 0
-        elif beta != np.inf:
-            # seems to work more robustly than scipy.optimize.minimize
-            # but fails at half-filling. jacobian_fsqr has a zero there...is that the reason?
-            fit_handle = root_scalar(jacobian_fsqr, x0=-0.1, x1=0.1)
-            mu = fit_handle.root
-        else:
-            # jacobian_fsqr = -inf here, which is why this fials otherwise...
-            mu_guess = np.array([0.0])
-            result = minimize(min_fn, mu_guess)
-            mu = result.x
+        if not 0 < density.item() < 1:
+            raise ValueError('density must be between zero and one.')
+
+        # the density increases monotonically with mu, so enlarge bracket until it contains the root
+        fn = lambda mu: float(np.squeeze(fg_density(beta, mu, nsites, dim) - density))
+
+        mu_max = 5.
+        while (fn(-mu_max) > 0 or fn(mu_max) < 0) and mu_max < 1e12:
+            mu_max *= 2
+
+        fit_handle = root_scalar(fn, bracket=[-mu_max, mu_max], method='brentq')
+        mu = np.array([fit_handle.root])
 
     return mu
 
-- 
2.43.0


From 5bbd475442fc9eea027da222036fb9ab7d94a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:00 +0000
Subject: [PATCH 38/45] fix: get_dos2 raised TypeError, and was not normalized

---
 exact_diag/fermi_gas.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/exact_diag/fermi_gas.py b/exact_diag/fermi_gas.py
index c07ad7d..ea12bcc 100644
--- a/exact_diag/fermi_gas.py
+++ b/exact_diag/fermi_gas.py
@@ -184,17 +184,15 @@ def get_dos2(nsites: int = 100,
     pts_per_bin = 2000
     de = pts_per_bin * emean
     # determine bin number from bin widths
-    nbins = np.floor((np.max(es) - np.min(es)) / de)
+    nbins = int(np.floor((np.max(es) - np.min(es)) / de))
     # ensure odd number of bins
     if nbins % 2 == 0:
         nbins = nbins + 1
     # bin edges and means
-    e_bin_end_pts = np.linspace(np.min(es), np.max(es), nbins)
+    e_bin_end_pts = np.linspace(np.min(es), np.max(es), nbins + 1)
     e_means = 0.5 * (e_bin_end_pts[1:] + e_bin_end_pts[:-1])
 
-    num_in_bin, _ = np.histogram(es.ravel(), e_bin_end_pts)
-
-    dos = np.divide(num_in_bin, de) / es.size
+    dos = get_dos(es, e_bin_end_pts)
 
     return dos, e_means
 
-- 
2.43.0


From 3e8a2d9d52c957e45401c26934ac31d8ce87ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:42 +0000
Subject: [PATCH 39/45] fix: conjugacy classes of the C4v and 3x3 translation
 group mixed two classes

The products of the diagonal reflections with translations were assigned to
the wrong class for counter-clockwise rotations, which are the ones getRotFn
returns, so two of the sectors were not irreducible representations. Also use
the class labels of the documented character table.
---
 exact_diag/ed_symmetry.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 58e7bb6..337f5c9 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -688,7 +688,7 @@ def getC4V_and_3byb3(rot_op,
 
     C3 = {R^2, Tx^nTy^mR^2} (order=2, #=9)
 
-    C4 = {R*Refl, R^3*Refl, Tx*Ty^2*R*Refl, Tx^2*Ty*R*Refl, Tx*Ty*R^3*Refl, Tx^2*Ty^2*R^3*Refl} (order=2, #=6)
+    C4 = {R*Refl, R^3*Refl, Tx*Ty*R*Refl, Tx^2*Ty^2*R*Refl, Tx*Ty^2*R^3*Refl, Tx^2*Ty*R^3*Refl} (order=2, #=6)
 
     C5 = {R, R^3, Tx^n*Ty^m*R, Tx^n*Ty^m*R^3} (order=4, #=18)
 
@@ -697,8 +697,8 @@ def getC4V_and_3byb3(rot_op,
     C7 = {Tx^n*Ty^m*Refl except (n,m) = (0,0), (1,0) and (2,0)
           Tx^n*Ty^m*R^2*Refl except (n,m) = (0,0), (0,1), and (0, 2)} (order=6, #=12)
 
-    C8 = {Tx^n*Ty^m*R*Refl except (n,m) = (0,0), (1,2) and (2, 1),
-          Tx^n*Ty^m*R^3*Refl except (n,m) = (0,0), (1,1) and (2,2)} (order=6, #=12)
+    C8 = {Tx^n*Ty^m*R*Refl except (n,m) = (0,0), (1,1) and (2, 2),
+          Tx^n*Ty^m*R^3*Refl except (n,m) = (0,0), (1,2) and (2,1)} (order=6, #=12)
 
     C9 = {TxTy, Tx^2Ty, TxTy^2 Tx^2Ty^2} (order=3, #=4)
 
@@ -709,22 +709,13 @@ def getC4V_and_3byb3(rot_op,
     :param print_results:
     :return:
     """
-    #(c2, c7, c6) 0.335493
-    #(c2, c7, c9) dim 1856
-    #(c2, c8, c6) dim 2064
-    #(c2, c8, c9) dim 2064
-    #(c4, c7, c6) dim 2064
-    #(c4, c7, c9) dim 2064
-    #(c4, c8, c6) dim 1856
-    #(c4, c8, c9) 0.0904164
-
     c1 = [sp.eye(refl_op.shape[0], format="csr")]
 
-    c4 = [refl_op, rot_op**2 * refl_op, tx_op * refl_op, tx_op**2 * refl_op,
+    c2 = [refl_op, rot_op**2 * refl_op, tx_op * refl_op, tx_op**2 * refl_op,
           ty_op * rot_op**2 * refl_op, ty_op**2 * rot_op**2 * refl_op]
-    c2 = [rot_op * refl_op, rot_op ** 3 * refl_op,
-          tx_op * ty_op ** 2 * rot_op * refl_op, tx_op ** 2 * ty_op * rot_op * refl_op,
-          tx_op * ty_op * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op ** 3 * refl_op]
+    c4 = [rot_op * refl_op, rot_op ** 3 * refl_op,
+          tx_op * ty_op * rot_op * refl_op, tx_op ** 2 * ty_op ** 2 * rot_op * refl_op,
+          tx_op * ty_op ** 2 * rot_op ** 3 * refl_op, tx_op ** 2 * ty_op * rot_op ** 3 * refl_op]
 
     c3 = [rot_op**2, tx_op * rot_op**2, tx_op**2 * rot_op**2,
           ty_op * rot_op**2, ty_op**2 * rot_op**2, tx_op * ty_op * rot_op**2,
@@ -739,21 +730,21 @@ def getC4V_and_3byb3(rot_op,
           tx_op * ty_op * rot_op**3, tx_op * ty_op**2 * rot_op**3,
           tx_op**2 * ty_op * rot_op**3, tx_op**2 * ty_op**2 * rot_op**3]
 
-    c8 = [ty_op * refl_op, ty_op**2 * refl_op,
+    c7 = [ty_op * refl_op, ty_op**2 * refl_op,
           tx_op * ty_op * refl_op, tx_op * ty_op**2 * refl_op,
           tx_op**2 * ty_op * refl_op, tx_op**2 * ty_op**2 * refl_op,
           tx_op * rot_op**2 * refl_op, tx_op**2 * rot_op**2 * refl_op,
           tx_op * ty_op * rot_op**2 * refl_op, tx_op * ty_op**2 * rot_op**2 * refl_op,
           tx_op**2 * ty_op * rot_op**2 * refl_op, tx_op**2 * ty_op**2 * rot_op**2 * refl_op]
-    c7 = [tx_op * rot_op * refl_op, tx_op**2 * rot_op * refl_op,
+    c8 = [tx_op * rot_op * refl_op, tx_op**2 * rot_op * refl_op,
           ty_op * rot_op * refl_op, ty_op**2 * rot_op * refl_op,
-          tx_op * ty_op * rot_op * refl_op, tx_op**2 * ty_op**2 * rot_op * refl_op,
+          tx_op * ty_op**2 * rot_op * refl_op, tx_op**2 * ty_op * rot_op * refl_op,
           tx_op * rot_op**3 * refl_op, tx_op**2 * rot_op**3 * refl_op,
           ty_op * rot_op**3 * refl_op, ty_op**2 * rot_op**3 * refl_op,
-          tx_op * ty_op**2 * rot_op**3 * refl_op, tx_op**2 * ty_op * rot_op**3 * refl_op]
+          tx_op * ty_op * rot_op**3 * refl_op, tx_op**2 * ty_op**2 * rot_op**3 * refl_op]
 
-    c9 = [tx_op, tx_op**2, ty_op, ty_op**2]
-    c6 = [tx_op * ty_op, tx_op ** 2 * ty_op, tx_op * ty_op ** 2, tx_op ** 2 * ty_op ** 2]
+    c6 = [tx_op, tx_op**2, ty_op, ty_op**2]
+    c9 = [tx_op * ty_op, tx_op ** 2 * ty_op, tx_op * ty_op ** 2, tx_op ** 2 * ty_op ** 2]
 
     conj_classes = [c1, c2, c3, c4, c5, c6, c7, c8, c9]
 
-- 
2.43.0


From 849b4bf380950f508122357caab24771f4262291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:20 +0000
Subject: [PATCH 40/45] fix: get_overlaps of two sparse collections of states
 returned an object array

---
 exact_diag/ed_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/exact_diag/ed_base.py b/exact_diag/ed_base.py
index 03c9671..abd0520 100644
--- a/exact_diag/ed_base.py
+++ b/exact_diag/ed_base.py
@@ -535,6 +535,8 @@ class ed_base:
         if sp.issparse(states1):
             states1 = states1.tocsc()
             overlaps = sp.csr_matrix.dot(states1.conj().transpose(), states2)
+            if sp.issparse(overlaps):
+                overlaps = overlaps.toarray()
 
         elif sp.issparse(states2):
             states2 = states2.tocsc()
-- 
2.43.0


From f3cbe59fde9b3028c41dab509b3d5f028821c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:07 +0000
Subject: [PATCH 41/45] fix: adjacency sorting did not sort by the number of
 adjacent sites first

---
 exact_diag/ed_geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exact_diag/ed_geometry.py b/exact_diag/ed_geometry.py
index 828c8cd..e454533 100644
--- a/exact_diag/ed_geometry.py
+++ b/exact_diag/ed_geometry.py
@@ -423,7 +423,8 @@ class Geometry:
                 adjacency_order_n.append(np.sum(adj_mat_powers[ii], 1))
                 adjacency_test_n[:, ii] = np.sum(adj_mat_powers[ii], 1)
 
-            sorted_indices = np.lexsort(tuple(adjacency_order_n))
+            # the last key is the primary key for lexsort, and this should be the number of adjacent sites
+            sorted_indices = np.lexsort(tuple(adjacency_order_n[::-1]))
 
             # however, if two sites are equivalent under a symmetry operation, this process does not distinguish them.
             # It doesn't matter which site we select first, but we need to choose the next site in some way based on
-- 
2.43.0


From 399576bd26f1a241f9f43bb21a3e756caf018995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:35 +0000
Subject: [PATCH 42/45] fix: grnfn_imagtime_ft dropped tau=beta when rounding
 beta to 14 digits increases it

---
 exact_diag/greens_fns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index edc360d..d4cd7a2 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -197,11 +197,11 @@ def grnfn_imagtime_ft(matsubara_frqs,
     if not np.any(np.round(np.abs(taus - beta), 14) == 0):
         warn('tau = beta was not supplied to grnfn_imagtime_ft.')
 
-    if np.round(taus, 14).max() > beta or np.round(taus, 14).min() < 0:
+    if np.round(taus - beta, 14).max() > 0 or np.round(taus, 14).min() < 0:
         warn('taus supplied to grnfn_imagtime_ft contained values smaller than 0 or'
              ' larger than beta. Those values will be ignored in the calculation',
              RuntimeWarning)
-        indices_to_use = np.logical_and(np.round(taus, 14) >= 0, np.round(taus, 14) <= beta)
+        indices_to_use = np.logical_and(np.round(taus, 14) >= 0, np.round(taus - beta, 14) <= 0)
         grn_fn_imagtime = grn_fn_imagtime[indices_to_use]
         taus = taus[indices_to_use]
 
-- 
2.43.0


From ab4eb4fe65501ef2f9b3e4c4927473b54f7b11e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:35 +0000
Subject: [PATCH 43/45] fix: imaginary time Green's function lost occupied
 states at low temperature

---
 exact_diag/greens_fns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exact_diag/greens_fns.py b/exact_diag/greens_fns.py
index d4cd7a2..ec81864 100644
--- a/exact_diag/greens_fns.py
+++ b/exact_diag/greens_fns.py
@@ -260,8 +260,10 @@ def get_noninteracting_gfn_tau(taus,
 
     if format == "fermion":
         fermi_fn = np.divide(1, 1 + np.exp(beta * epsilon_k))
+        # 1 - fermi_fn, without loss of precision for occupied states at low temperatures
+        hole_fn = np.divide(1, 1 + np.exp(-beta * epsilon_k))
         # TODO: should I enforce one of the heaviside functions to be 1 at \tau = 0 ?
-        greens_fn = - np.exp(-epsilon_k * taus) * ((1 - fermi_fn) * np.heaviside(taus, 0) -
+        greens_fn = - np.exp(-epsilon_k * taus) * (hole_fn * np.heaviside(taus, 0) -
                                                    fermi_fn * np.heaviside(-1 * taus, 0))
     elif format == "bosone":
         raise Exception("TODO: noninteracting boson green's function calculation not implemented yet")
-- 
2.43.0


From a60ec9d21eec82baae94c9d8c31f43ea38ec96cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:34 +0000
Subject: [PATCH 44/45] fix: projectors onto higher dimensional irreps lost
 imaginary parts of complex transformation operators

---
 exact_diag/ed_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exact_diag/ed_symmetry.py b/exact_diag/ed_symmetry.py
index 337f5c9..9837cca 100644
--- a/exact_diag/ed_symmetry.py
+++ b/exact_diag/ed_symmetry.py
@@ -289,7 +289,7 @@ def reduce_symm_projector(p_full,
 
         # construct reduced projector matrix
         # maximum rank, but real rank can be less than this
-        p_red = sp.lil_matrix((p_full.shape))
+        p_red = sp.lil_matrix(p_full.shape, dtype=p_full.dtype)
         p_row_counter = 0
         inv_counter = 0
 
-- 
2.43.0


From b909061f5cddd44b4dfb28ba2d12a3ed5e4c669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:34 +0000
Subject: [PATCH 45/45] fix: linked cluster and Euler sums discarded the
 imaginary part of complex cluster values

---
 exact_diag/ed_nlce.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/exact_diag/ed_nlce.py b/exact_diag/ed_nlce.py
index d88b158..5ff5122 100644
--- a/exact_diag/ed_nlce.py
+++ b/exact_diag/ed_nlce.py
@@ -536,7 +536,7 @@ def get_nlce_exp_val(exp_vals_clusters,
     nclusters = exp_vals_clusters.shape[0]
     # want to accept arbitrary exp_vals shapes, subject only to the condition that the
     # first dimension loops over clusters
-    weights = np.zeros(exp_vals_clusters.shape)
+    weights = np.zeros(exp_vals_clusters.shape, dtype=np.result_type(exp_vals_clusters, float))
 
     # compute weights in a nice tensorial way
     # W_p(c) = P(c) - \sum_{s<c} W_p(s)
@@ -558,7 +558,7 @@ def get_nlce_exp_val(exp_vals_clusters,
 
     b = list(exp_vals_clusters[0, ...].shape)
     size = [len(order_start_indices) - 1] + [int(c) for c in b]
-    nlce_orders = np.zeros(tuple(size))
+    nlce_orders = np.zeros(tuple(size), dtype=weights.dtype)
     for ii in range(0, len(order_start_indices) - 1):
         nlce_orders[ii, ...] = np.tensordot(parent_clust_multiplicity_vect[0, order_start_indices[ii]:order_start_indices[ii+1]][None, :],
                                             weights[order_start_indices[ii]:order_start_indices[ii+1], ...], axes=(1, 0))[0, ...] / nsites
@@ -575,7 +575,7 @@ def euler_resum(exp_vals_orders,
     :return:
     """
     # TODO: test
-    euler_orders = np.zeros(exp_vals_orders.shape)
+    euler_orders = np.zeros(exp_vals_orders.shape, dtype=np.result_type(exp_vals_orders, float))
 
     for ii in range(0, euler_orders.shape[0]):
         jjs = np.arange(0, ii + 1)
-- 
2.43.0

