From 91c4ffecab882699f01cb64905e6a9c9ac2c632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 01/52] fix: sign of the right-hand extrapolation term in
 convolve_ddf

---
 src/tight_binding_redweasel/density_of_states.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9c2eb21..1a9b12c 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -112,10 +112,10 @@ def convolve_ddf(x, energy_smpl: np.ndarray, states: np.ndarray, beta: float, ex
     if extrapolation == 'flat':
         if extrapolation_point is None:
             s += df(x - energy_smpl[0]) * states[..., 0]
-            s += df(energy_smpl[-1] - x) * states[..., -1]
+            s -= df(energy_smpl[-1] - x) * states[..., -1]
         else:
             # assume N(mu) starts at 0 and ends at N(extrapolation_point[0]) = extrapolation_point[1]
-            s += df(extrapolation_point[0] - x) * extrapolation_point[1]
+            s -= df(extrapolation_point[0] - x) * extrapolation_point[1]
     return s
 
 
-- 
2.43.0


From 0f04a53ea29fc9fc1da3de979c10acca0279bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 02/52] fix: band range refinement must not shrink the sampled
 band range

---
 src/tight_binding_redweasel/density_of_states.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 1a9b12c..9a04608 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -290,7 +290,9 @@ class DensityOfStates:
                         break  # don't follow too big steps (e.g. at band crossings)
                     max_k -= step
                 # compute min/max values and store them
-                self.bands_range.append(tuple(model(np.array([min_k, max_k]))[:, i]))
+                # (never shrink the sampled range, which can happen if a step crosses into another band)
+                min_e, max_e = model(np.array([min_k, max_k]))[:, i]
+                self.bands_range.append((min(min_e, np.min(self.bands[..., i])), max(max_e, np.max(self.bands[..., i]))))
         else:
             self.bands_range = [(np.min(self.bands[..., i]), np.max(self.bands[..., i])) for i in range(self.bands.shape[-1])]
         # TODO add bands_range_k_points, because that is useful information in some contexts
-- 
2.43.0


From b345ba8911418809d46ca7c6ae8e2d4b88ae08ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 03/52] fix: secant returned nan if the start values already
 solve the equation

---
 src/tight_binding_redweasel/density_of_states.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 9a04608..83b906e 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -128,6 +128,11 @@ def secant(y, f, a, b, tol=1e-16, max_i=100):
     """
     fa = f(a) - y
     fb = f(b) - y
+    # don't divide by zero if the start values already are solutions (e.g. inside of a band gap)
+    if abs(fa) < tol:
+        return a
+    if abs(fb) < tol or fa == fb:
+        return b
     for i in range(max_i):
         x = (a * fb - b * fa) / (fb - fa)
         if a == x or b == x:
-- 
2.43.0


From 896f7b0c92a53ba85b33fc21f1b25bf47fb00d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 04/52] fix: chemical_potential compared the temperature with
 the previous one instead of that of the stored distribution

---
 src/tight_binding_redweasel/density_of_states.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 83b906e..7d19d63 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -562,7 +562,7 @@ class DensityOfStates:
         T_smpl = np.asarray(T_smpl).reshape(-1)
         if np.max(T_smpl) >= T_lin:
             states_lin = np.array([self.states_below(energy) for energy in energy_smpl_lin])
-        beta = -10000.0  # invalid value
+        beta_smpl = -10000.0  # inverse temperature of the stored distribution, initially invalid
         res = []
         for T in T_smpl:
             if T <= 0:
@@ -571,15 +571,13 @@ class DensityOfStates:
                 beta = 1 / (k_B * T)  # 1/eV
                 res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl_lin, states_lin, beta, extrapolation='flat'), fermi_energy, fermi_energy + 0.1, tol, maxsteps))
             else:
-                new_beta = 1 / (k_B * T)  # 1/eV
-                if abs(beta - new_beta) / new_beta > 5e-2:
+                beta = 1 / (k_B * T)  # 1/eV
+                # keep distribution if it doesn't cause too big errors (performance)
+                if abs(beta_smpl - beta) / beta > 5e-2:
                     # recalculate distribution for precision
-                    beta = 0.25 / (k_B * T)  # 1/eV
-                    energy_smpl = _samples(e0, e1, fermi_energy, beta, N)
-                    beta = new_beta
+                    energy_smpl = _samples(e0, e1, fermi_energy, 0.25 * beta, N)
                     states = np.array([self.states_below(energy) for energy in energy_smpl])
-                # keep distribution if it doesn't cause too big errors (performance)
-                beta = new_beta
+                    beta_smpl = beta
                 res.append(secant(electrons, lambda x: convolve_df(x, energy_smpl, states, beta, extrapolation='flat', extrapolation_point=(e1, self.model_bandcount())), fermi_energy, fermi_energy + 1 / beta, tol, maxsteps))
         return np.array(res)
 
-- 
2.43.0


From aa2e084e9f9f48921ec516ec4eeaf134037eb23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 05/52] fix: energy of bands completely below the chemical
 potential

---
 src/tight_binding_redweasel/density_of_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/density_of_states.py b/src/tight_binding_redweasel/density_of_states.py
index 7d19d63..14c7bc9 100644
--- a/src/tight_binding_redweasel/density_of_states.py
+++ b/src/tight_binding_redweasel/density_of_states.py
@@ -615,7 +615,7 @@ class DensityOfStates:
                 # Romberg extrapolation with just one more step -> ~ Simpson rule.
                 # this assumes that the density is continuous, which is the case for 3D bandstructures.
                 int2 = np.sum((states[:-2:2] + states[2::2])/2 * (e_smpl[2::2] - e_smpl[:-2:2]))
-                energy += mu * states[-1] - (int1 + (int1 - int2)/(4 - 1))
+                energy += min(max_e, mu) * states[-1] - (int1 + (int1 - int2)/(4 - 1))
         # TODO allow more than one T to be used!
         if T <= 0.0:
             # this part is pretty well convergent
-- 
2.43.0


From ec8f00da69efa51b3db10771f19831a53816ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 06/52] fix: inversion flag counted twice for even dimensional
 groups containing the inversion

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 5b9a707..0fba094 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -96,7 +96,8 @@ class Symmetry:
                 # self.S = np.array([s for s in self.S if next((x for x in np.ravel(s) if abs(x) > 1e-4), 1) > 0])
                 # here inversion can be a problem, as it may be in the center, but it's not always a normal subgroup!
                 # for now, disable the inversion symmetry reduction in even dimensions.
-                pass
+                # (S already contains the inversion, so don't count it twice)
+                self.inversion = False
         elif inversion and len(self.S[0]) % 2 == 0:
             # realize inversion in even dimensions
             self.S = np.concatenate([self.S, -self.S], axis=0)
-- 
2.43.0


From a39156b7babfb8567525b2d83b8739ea154eaaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 07/52] fix: Symmetry.__eq__ depended on which of s and -s was
 stored

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 0fba094..93f5680 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -139,7 +139,8 @@ class Symmetry:
             return False
         if len(self) != len(other):
             return False
-        return pointcloud_distance(self.S, other.S) < len(self.S) * 1e-7
+        # compare all operations, as the same group can be split into S and -S in different ways
+        return pointcloud_distance(self.get_symmetry_operations(), other.get_symmetry_operations()) < len(self.S) * 1e-7
 
     def __len__(self) -> int:
         """Cardinality of the group (including inversion symmetry if present!)"""
-- 
2.43.0


From b3e0f4bc7052cfa3a7b4335862604002b7e0d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 08/52] fix: Symmetry.__contains__ ignored the inverted
 operations

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 93f5680..0605802 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -965,8 +965,9 @@ class Symmetry:
         if other.inversion and not self.inversion:
             return False
         # now check if all matrices of other are contained in self
+        S = self.get_symmetry_operations()
         for s in other.S:
-            if not np.any(np.linalg.norm(s[None] - self.S, axis=(1, 2)) < 1e-7):
+            if not np.any(np.linalg.norm(s[None] - S, axis=(1, 2)) < 1e-7):
                 return False
         return True
 
-- 
2.43.0


From dc34c84e289827050ffdace06b4d6b12abc06bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 09/52] fix: Symmetry.symmetrize ignored the inversion

---
 src/tight_binding_redweasel/symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 0605802..c8c8673 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -846,13 +846,13 @@ class Symmetry:
         in_letters = letters[:rank[0] + rank[1]]
         out_letters = letters[-rank[0] - rank[1]:]
         einsum_str = ",".join([b + a if i < rank[0] else a + b for i, (a, b) in enumerate(zip(in_letters, out_letters))] + [in_letters]) + "->" + out_letters
-        for s in self.S:
+        for s in self.get_symmetry_operations():
             inv_s = np.linalg.inv(s)
             sign = 1
             if pseudo_tensor:
                 sign = np.sign(np.linalg.det(s))  # what happens with unitary groups where this can be from U(1)?
             res += np.einsum(einsum_str, *rank[0] * (inv_s,), *rank[1] * (s,), orig * sign, optimize="optimal")
-        res /= len(self.S)
+        res /= len(self)
         return res
 
     def equivalence_classes(self, equiv_relation: Callable[[np.ndarray, np.ndarray], bool]) -> list:
-- 
2.43.0


From a44e3ea1d05f719f4e90b88d470f05eaeb79ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 10/52] fix: check_neighbors failed for all inputs

---
 src/tight_binding_redweasel/symmetry.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index c8c8673..abea515 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -745,15 +745,18 @@ class Symmetry:
         neighbors = neighbors[np.argsort(np.linalg.norm(neighbors, axis=-1))]
         count = [0] * len(neighbors)
         for i, r in enumerate(neighbors):
-            for s in zip(self.S):
+            for s in self.S:
                 # using transposed symmetry operations, as the whole symmetry is meant to be in k-space
                 r_ = np.transpose(s) @ r
                 # here only the neighbors with an index similar to i need to be checked
                 # TODO replace this search by the KD-Trees
                 start = max(i - len(self.S) * 3, 0)
                 end = min(i + len(self.S) * 3, len(neighbors))
-                j = start + np.argmin(np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
-                                                 np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1)))
+                dist = np.minimum(np.linalg.norm(neighbors[start:end] - r_[None, :], axis=-1),
+                                  np.linalg.norm(neighbors[start:end] + r_[None, :], axis=-1))
+                j = start + np.argmin(dist)
+                if dist[j - start] > 1e-4:
+                    raise ValueError(f"neighbors need to be choosen to fit the symmetry, but {r_} is missing")
                 count[j] += 1
         for c in count:
             if c != len(self.S):
-- 
2.43.0


From ac08567f1c56ce773eb9b99701a5222f2fd3b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 11/52] fix: complete_neighbors dropped neighbors without an
 inverted partner

---
 src/tight_binding_redweasel/symmetry.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index abea515..d032315 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -721,8 +721,13 @@ class Symmetry:
                 new_neighbors.append((n, orig_index))
                 used_neighbors.add(tuple(n))
         # remove negative versions
-        neighbors = [(n, orig_index) for n, orig_index in new_neighbors if next(
-            (x for x in n if abs(x) > 1e-7), 1) > 0]
+        def is_positive(n):
+            return next((x for x in n if abs(x) > 1e-7), 1) > 0
+        neighbors = [(n, orig_index) for n, orig_index in new_neighbors if is_positive(n)]
+        for n, orig_index in new_neighbors:
+            # if only the negative version exists, flip it to keep the neighbor
+            if not is_positive(n) and all(np.linalg.norm(n + m) > 1e-6 for m, _ in neighbors):
+                neighbors.append((-n, orig_index))
         neighbors = sorted(neighbors, key=lambda ni: np.linalg.norm(ni[0]))
         order = [orig_index for _, orig_index in neighbors]
         neighbors = [n for n, _ in neighbors]
-- 
2.43.0


From 9e480374a474177d8c06e64572745608304af2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 12/52] fix: symmetrize failed for tensors of rank 0

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index d032315..912b949 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -852,7 +852,7 @@ class Symmetry:
         # hacky but simple...
         letters = "abcdefghijklmnopqrstuvwxyz"
         in_letters = letters[:rank[0] + rank[1]]
-        out_letters = letters[-rank[0] - rank[1]:]
+        out_letters = letters[len(letters) - rank[0] - rank[1]:]
         einsum_str = ",".join([b + a if i < rank[0] else a + b for i, (a, b) in enumerate(zip(in_letters, out_letters))] + [in_letters]) + "->" + out_letters
         for s in self.get_symmetry_operations():
             inv_s = np.linalg.inv(s)
-- 
2.43.0


From 9b2c7a6afbe3b0d1d47e5607513154ed12607dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 13/52] fix: reduce_symmetric_data missed equivalent points on
 fine grids

---
 src/tight_binding_redweasel/symmetry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 912b949..33aaf3c 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -688,7 +688,8 @@ class Symmetry:
                     # find all instances of k_ in reduced_k and delete them
                     j = i
                     while j < len(reduced_k):
-                        if np.linalg.norm(reduced_k[j]) > scale * 1.0001:
+                        # the points are only sorted up to the rounding above
+                        if np.linalg.norm(reduced_k[j])**2 > scale**2 + 0.02:
                             break  # * this is what makes this a good algorithm
                         if np.linalg.norm(reduced_k[j] - k_) < scale * 1e-6:
                             if checked and np.linalg.norm(reduced[j] - value) > 1e-7:
-- 
2.43.0


From c7e2e99ef296c9fb9b150891c9455f50811d0e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 14/52] fix: shifting a model with k dependent overlap shifted
 its bands only approximately

---
 src/tight_binding_redweasel/tight_binding_asym.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7815886..2877494 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -878,10 +878,15 @@ class AsymTightBindingModel:
             # direct sum of the models -> combine the bandstructures
             return AsymTightBindingModel(self.H + other.H, S=self.S + other.S)
         else:
-            # shift the whole bandstructure
-            # TODO figure out how this actually works wih S(k)
+            # shift the whole bandstructure -> H(k) + other * S(k)
             H = self.H.copy()
-            H.H_r[0] += self.S.H_r[0] * float(other)
+            H.H_r = H.H_r.astype(np.promote_types(H.H_r.dtype, np.promote_types(self.S.H_r.dtype, np.float64)))
+            for r, S_r in zip(self.S.neighbors, self.S.H_r):
+                i, mirror = try_neighbor_function(H.neighbors)(r)
+                if i is None:
+                    H.add_neighbors([r])
+                    i, mirror = len(H.neighbors) - 1, False
+                H.H_r[i] += (S_r if not mirror else np.conj(S_r.T)) * float(other)
             return AsymTightBindingModel(H, S=self.S.copy())
 
     def __mul__(self, fac: float) -> 'AsymTightBindingModel':
-- 
2.43.0


From b83aa80eb4f38d88c7962485c2d28a1c0d79e09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 15/52] fix: supercell dropped couplings and the overlap, and
 failed for negative rows of the supercell matrix

---
 .../tight_binding_asym.py                     | 40 ++++++++++++-------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 2877494..7909faa 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -844,11 +844,9 @@ class AsymTightBindingModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) < 1e-7), "The supercell matrix must be integer valued"
         matrix = np.round(matrix).astype(np.int64)
-        det = round(np.linalg.det(matrix))
-        new_neighbors = self.H.neighbors @ matrix.T
+        det = abs(round(np.linalg.det(matrix)))
         n = len(self.H.H_r[0])
         new_band_count = n * det
-        H_r = self.params_complex()
         # now get all integer positions in the cell defined by matrix
         # for that, compute the (half open) bounding box of matrix * [0,1[^3
         box = np.stack(np.meshgrid(*[[0, 1]]*dim), axis=-1).reshape(-1, dim)
@@ -856,22 +854,34 @@ class AsymTightBindingModel:
         bounding_box = np.min(box, axis=0), np.max(box, axis=0)
         assert np.array(bounding_box).dtype == np.int64
         # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d]) for d in range(dim)]), axis=-1).reshape(-1, dim)
+        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1) for d in range(dim)]), axis=-1).reshape(-1, dim)
         p_box = box @ np.linalg.inv(matrix).T
         # internal positions + origin (0)
         internal_positions = list(p_box[np.all((p_box >= 0-1e-7) & (p_box < 1-1e-7), axis=1)] @ A_new.T)
         assert len(internal_positions) == det
-        # now build the new hamiltonian
-        H_r2 = np.zeros((len(H_r), new_band_count, new_band_count), dtype=np.complex128)
-        neighbor_func = try_neighbor_function(self.H.neighbors)
-        for k, nk in enumerate(new_neighbors):
-            for i, pi in enumerate(internal_positions):
-                for j, pj in enumerate(internal_positions):
-                    m, mirror = neighbor_func(nk + pj - pi)
-                    if m is not None:
-                        H_r2[k, i*n:(i+1)*n, j*n:(j+1)*n] = H_r[m] if not mirror else np.conj(H_r[m].T)
-        model = AsymTightBindingModel(HermitianFourierSeries(new_neighbors, H_r2))
-        return model
+        # now build the new hamiltonian (and the new overlap matrix)
+
+        def fold(series: HermitianFourierSeries) -> HermitianFourierSeries:
+            H_r = series.H_r
+            new_neighbors = series.neighbors @ (A_new @ np.linalg.inv(A_original)).T
+            # add the remaining supercell lattice vectors that are needed to keep all couplings
+            p = np.array(internal_positions)
+            needed = (series.neighbors[:, None, None] + p[:, None] - p[None, :]).reshape(-1, dim)
+            needed_int = needed @ np.linalg.inv(A_new).T
+            needed = needed[np.all(np.abs(needed_int - np.round(needed_int)) < 1e-5, axis=-1)]
+            for r in needed:
+                if min(np.min(np.linalg.norm(new_neighbors - r, axis=-1)), np.min(np.linalg.norm(new_neighbors + r, axis=-1))) > 1e-4:
+                    new_neighbors = np.concatenate([new_neighbors, [r]], axis=0)
+            H_r2 = np.zeros((len(new_neighbors), new_band_count, new_band_count), dtype=np.complex128)
+            neighbor_func = try_neighbor_function(series.neighbors)
+            for k, nk in enumerate(new_neighbors):
+                for i, pi in enumerate(internal_positions):
+                    for j, pj in enumerate(internal_positions):
+                        m, mirror = neighbor_func(nk + pj - pi)
+                        if m is not None:
+                            H_r2[k, i*n:(i+1)*n, j*n:(j+1)*n] = H_r[m] if not mirror else np.conj(H_r[m].T)
+            return HermitianFourierSeries(new_neighbors, H_r2)
+        return AsymTightBindingModel(fold(self.H), S=fold(self.S))
 
     def __add__(self, other) -> 'AsymTightBindingModel':
         if type(other) == type(self):
-- 
2.43.0


From 482bfddf68a485b79202c995da20b9c58fd7059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 16/52] fix: BandStructureModel.supercell failed for all inputs
 and dropped couplings

---
 src/tight_binding_redweasel/bandstructure.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index ee2ccf2..8bb57cd 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -845,11 +845,11 @@ class BandStructureModel:
         matrix = np.linalg.inv(A_original) @ A_new
         assert np.all(np.abs(np.round(matrix) - matrix) <
                       1e-7), "The supercell matrix must be integer valued"
-        matrix = np.round(matrix)
-        det = round(np.linalg.det(matrix))
+        matrix = np.round(matrix).astype(np.int64)
+        det = abs(round(np.linalg.det(matrix)))
         assert self.sym is None or len(
             self.sym) == 1, "No symmetries of the coefficients are allowed for this operation"
-        new_neighbors = self.neighbors @ matrix.T
+        new_neighbors = self.neighbors @ (A_new @ np.linalg.inv(A_original)).T
         n = len(self.params[0])
         new_band_count = n * det
         params = self.params_complex()
@@ -860,15 +860,23 @@ class BandStructureModel:
         bounding_box = np.min(box, axis=0), np.max(box, axis=0)
         assert np.array(bounding_box).dtype == np.int64
         # now create a meshgrid inside the bounding box and select the points with inv(matrix) in [0, 1[
-        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d])
+        box = np.stack(np.meshgrid(*[np.arange(bounding_box[0][d], bounding_box[1][d] + 1)
                        for d in range(dim)]), axis=-1).reshape(-1, dim)
         p_box = box @ np.linalg.inv(matrix).T
         # internal positions + origin (0)
         internal_positions = list(
             p_box[np.all((p_box >= 0 - 1e-7) & (p_box < 1 - 1e-7), axis=1)] @ A_new.T)
         assert len(internal_positions) == det
+        # add the remaining supercell lattice vectors that are needed to keep all couplings
+        p = np.array(internal_positions)
+        needed = (self.neighbors[:, None, None] + p[:, None] - p[None, :]).reshape(-1, dim)
+        needed_int = needed @ np.linalg.inv(A_new).T
+        needed = needed[np.all(np.abs(needed_int - np.round(needed_int)) < 1e-5, axis=-1)]
+        for r in needed:
+            if min(np.min(np.linalg.norm(new_neighbors - r, axis=-1)), np.min(np.linalg.norm(new_neighbors + r, axis=-1))) > 1e-4:
+                new_neighbors = np.concatenate([new_neighbors, [r]], axis=0)
         # now build the new hamiltonian
-        H_r = np.zeros((len(params), new_band_count,
+        H_r = np.zeros((len(new_neighbors), new_band_count,
                        new_band_count), dtype=np.complex128)
         neighbor_func = try_neighbor_function(self.neighbors)
         for k, nk in enumerate(new_neighbors):
@@ -879,7 +887,7 @@ class BandStructureModel:
                         H_r[k, i * n:(i + 1) * n, j * n:(j + 1) *
                             n] = params[m] if not mirror else np.conj(params[m].T)
         model = BandStructureModel.init_tight_binding(
-            Symmetry.none(), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
+            Symmetry.none(dim), new_neighbors, new_band_count, cos_reduced=cos_reduced, exp=exp)
         model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From 8e577dd02d9201f85ed515ed62be3ca1c33866f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 17/52] fix: json files of models with less than 3 dimensions
 could not be loaded

---
 src/tight_binding_redweasel/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 8bb57cd..9bdb3b4 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -748,7 +748,7 @@ class BandStructureModel:
         elif format == "json":
             neighbors, H_r = json_tb_format.load(filename)
             model = BandStructureModel.init_tight_binding(
-                Symmetry.none(), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
+                Symmetry.none(len(neighbors[0])), neighbors, len(H_r[0]), cos_reduced=cos_reduced, exp=exp)
             model.set_params_complex(H_r)
         return model
 
-- 
2.43.0


From 882d6a1acdafc3526ffaafcd7134a71f3fe43c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 18/52] fix: large models were truncated when saved in the
 python format

---
 src/tight_binding_redweasel/bandstructure.py      | 2 +-
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 9bdb3b4..63b1cc2 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -680,7 +680,7 @@ class BandStructureModel:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
         opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
+        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=10**12, legacy='1.21')
         if format == "python":
             with open(filename, "w") as file:
                 assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 7909faa..c6cf22a 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -257,7 +257,7 @@ class AsymTightBindingModel:
         if format not in {"json"}:
             raise ValueError('only supported format is "json"')
         opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=100000, legacy='1.21')
+        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=10**12, legacy='1.21')
         if format == "json":
             json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
             # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
-- 
2.43.0


From 174cafd0f7e1bf5fc939aabaa9b29d58152cac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 19/52] fix: conversion between cos_reduced and full
 coefficients ignored the number of symmetry operations

---
 src/tight_binding_redweasel/bandstructure.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index 63b1cc2..c2ab20f 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -604,22 +604,24 @@ class BandStructureModel:
         if self.neighbors is None:
             raise ValueError(
                 "This function can only be used on default tight binding models")
+        # each coefficient function is a sum over the symmetry operations
+        op_count = len(self.sym.S) if self.sym is not None else 1
         if self.exp:
             H_r = np.array(self.params)
             if self.cos_reduced:
-                H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+                H_r[0] -= op_count * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
             return H_r
         H_r = np.array(self.params)
         if self.sym is not None and not self.sym.inversion:
             n = (len(self.params) + 1) // 2
             if self.cos_reduced:
                 # H_r[1:n] += H_r[0]
-                H_r[0] -= np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
+                H_r[0] -= op_count * np.sum(H_r[1:n] + np.conj(np.swapaxes(H_r[1:n], -1, -2)), axis=0)
                 pass
             H_r[1:n] += H_r[n:] * -1j
             H_r = H_r[:n]
         elif self.cos_reduced:
-            H_r[0] -= np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
+            H_r[0] -= op_count * np.sum(H_r[1:] + np.conj(np.swapaxes(H_r[1:], -1, -2)), axis=0)
         return H_r
 
     def set_params_complex(self, H_r):
@@ -634,10 +636,11 @@ class BandStructureModel:
             raise ValueError("This function can only be used on default tight binding models")
         if len(H_r) != len(self.neighbors):
             raise ValueError(f"The parameters {np.shape(H_r)} must match the neighbor count {len(self.neighbors)}")
+        op_count = len(self.sym.S) if self.sym is not None else 1
         if self.exp:
             self.params = np.array(H_r)
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:] +
+                self.params[0] += op_count * np.sum(self.params[1:] +
                                          np.conj(np.swapaxes(self.params[1:], -1, -2)), axis=0)
         else:
             self.params = np.array(H_r)
@@ -650,7 +653,7 @@ class BandStructureModel:
                 self.params += np.conj(np.swapaxes(self.params, -1, -2))
             self.params /= 2
             if self.cos_reduced:
-                self.params[0] += np.sum(self.params[1:n], axis=0) * 2
+                self.params[0] += np.sum(self.params[1:n], axis=0) * (2 * op_count)
 
     def save(self, filename: str, format=None):
         """Save the model to a file format, which can be read with the correspoding `BandStructureModel.load` function.
-- 
2.43.0


From 951068ad1647e894a5a329ac945e2889db188790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 20/52] fix: a failed save left numpy's print options changed

---
 src/tight_binding_redweasel/bandstructure.py  | 30 ++++++++-----------
 .../tight_binding_asym.py                     | 11 +++----
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/tight_binding_redweasel/bandstructure.py b/src/tight_binding_redweasel/bandstructure.py
index c2ab20f..bb1ac2d 100644
--- a/src/tight_binding_redweasel/bandstructure.py
+++ b/src/tight_binding_redweasel/bandstructure.py
@@ -682,23 +682,19 @@ class BandStructureModel:
         if format not in {"python", "json", "wannier90"}:
             raise ValueError(
                 'supported formats are "python", "json" and "wannier90"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=10**12, legacy='1.21')
-        if format == "python":
-            with open(filename, "w") as file:
-                assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
-                file.write(repr(self.params_complex()) + ",\\\n")
-                file.write(repr(self.neighbors) + ",\\\n")
-                file.write(repr(self.sym.S) + ",\\\n")
-                file.write(repr(self.sym.inversion) + "\n")
-        elif format == "wannier90":
-            tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
-        elif format == "json":
-            json_tb_format.save(filename, self.neighbors,
-                                self.params_complex())
-
-        # reset printoptions to what they were before
-        np.set_printoptions(**opt)
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=10**12, legacy='1.21'):
+            if format == "python":
+                with open(filename, "w") as file:
+                    assert self.sym is not None, "BandStructureModel needs a symmetry to save in this format."
+                    file.write(repr(self.params_complex()) + ",\\\n")
+                    file.write(repr(self.neighbors) + ",\\\n")
+                    file.write(repr(self.sym.S) + ",\\\n")
+                    file.write(repr(self.sym.inversion) + "\n")
+            elif format == "wannier90":
+                tb_fmt.save_hr(filename, self.neighbors, self.params_complex())
+            elif format == "json":
+                json_tb_format.save(filename, self.neighbors,
+                                    self.params_complex())
 
     @staticmethod
     def load(filename: str, format=None, cos_reduced=False, exp=True) -> 'BandStructureModel':
diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index c6cf22a..fe40d99 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -256,13 +256,10 @@ class AsymTightBindingModel:
                 raise ValueError("unrecognised format for file " + filename)
         if format not in {"json"}:
             raise ValueError('only supported format is "json"')
-        opt = np.get_printoptions()
-        np.set_printoptions(precision=None, suppress=False, floatmode="unique", threshold=10**12, legacy='1.21')
-        if format == "json":
-            json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
-            # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
-
-        np.set_printoptions(**opt)  # reset printoptions
+        with np.printoptions(precision=None, suppress=False, floatmode="unique", threshold=10**12, legacy='1.21'):
+            if format == "json":
+                json_tb_format.save(filename, self.H.neighbors, self.H.H_r)
+                # TODO save the S matrix part as well, maybe in a separate file? Or extend the format...
 
     @staticmethod
     def load(filename: str, format=None) -> Self:
-- 
2.43.0


From 53b113ea50ad98988bc12bebb4de626bc0bd2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 21/52] fix: product of two unitary representations failed for
 all inputs

---
 src/tight_binding_redweasel/unitary_representations.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index eca4cbb..8d5c425 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -502,8 +502,7 @@ class UnitaryRepresentation:
             # this is only supported if one of the representations has inv_split at 0 or dim.
             if rhs.inv_split == 0 or rhs.inv_split == rhs.dim():
                 # case 1: kron is ordered correctly
-                for i in range(len(res)):
-                    res.U[i] = np.kron(self.U[i], res.U[i])
+                res.U = np.array([np.kron(u1, u2) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split = self.inv_split * rhs.dim()
                 if rhs.inv_split == 0:
                     # flip inversion symmetry if self has it
@@ -512,8 +511,7 @@ class UnitaryRepresentation:
             elif self.inv_split == 0 or self.inv_split == self.dim():
                 # case 2: kron is flipped
                 # TODO make the kron in linalg do this loop correctly and generally
-                for i in range(len(res)):
-                    res.U[i] = np.kron(res.U[i], self.U[i])
+                res.U = np.array([np.kron(u2, u1) for u1, u2 in zip(self.U, res.U)])
                 res.inv_split *= self.dim()
                 if self.inv_split == 0:
                     # flip inversion symmetry if self has it
-- 
2.43.0


From 52522290a27732a4420049fc1154d27118135dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 22/52] fix: UnitaryRepresentation.from_generator lost
 operations if the generators had duplicates or no neutral element and failed
 for rotations with irrational entries

---
 .../unitary_representations.py                     | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index 8d5c425..bd7e6be 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -52,8 +52,10 @@ class UnitaryRepresentation:
         """
         Nk = len(S_G[0])
         N = len(U_G[0])
-        S = S_G.copy()
-        U = U_G.copy()
+        # the neutral element comes first, such that products with it keep the generators
+        S = [np.eye(Nk), *S_G]
+        U = [np.eye(N), *U_G]
+        prev_len = 0
         # exponentiate the group n times to form the full group
         for _ in range(1000):
             S_new = np.array(S)
@@ -62,17 +64,16 @@ class UnitaryRepresentation:
             U_new = np.reshape(U_new.reshape(-1, 1, N, N) @ U_new.reshape(1, -1, N, N), (-1, N, N))
             # TODO why does the above not work?
             # convert back to tuples and reduce
-            prev_len = len(S)
             S = {}
             for s, u in zip(S_new, U_new):
-                s_key = tuple([tuple(s_) for s_ in s])
+                s_key = tuple([tuple(s_) for s_ in np.round(s, 6) + 0.0])
                 if s_key in S:
                     # the symmetry already exists
                     # check if the U_new symmetry matches
                     u_existing = S[s_key][1]
-                    assert np.sum((u_existing - u)**2) < 1e-14
+                    assert np.sum(np.abs(u_existing - u)**2) < 1e-14
                 else:
-                    S[s_key] = (s_key, u)
+                    S[s_key] = (s, u)
             pairs = list(S.values())
             S = []
             U = []
@@ -82,6 +83,7 @@ class UnitaryRepresentation:
             assert len(S) < 1000 # limitation to avoid endless loops
             if len(S) <= prev_len:
                 break
+            prev_len = len(S)
         u_repr = UnitaryRepresentation(_sym.Symmetry(np.array(S), inversion), N)
         u_repr.inv_split = 0 if negate_inversion else N
         u_repr.U = np.array(U)
-- 
2.43.0


From 0a171c314832d5406841497f4ad98fe348ee13f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 23/52] fix: UnitaryRepresentation.symmetrizer failed if there
 are no mirrored neighbors or no inversion

---
 .../unitary_representations.py                       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/unitary_representations.py b/src/tight_binding_redweasel/unitary_representations.py
index bd7e6be..2517d7a 100644
--- a/src/tight_binding_redweasel/unitary_representations.py
+++ b/src/tight_binding_redweasel/unitary_representations.py
@@ -291,13 +291,13 @@ class UnitaryRepresentation:
                 raise ValueError("neighbors need to be choosen to fit the symmetry, however counting occurences has found the numbers " + str(count))
         # task_list_r0 should only contain one index, so check that and simplify
         task_list_r0 = tuple(np.reshape(task_list_r0, (-1, 3)).T)
-        assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(task_list_r0[0][0] == task_list_r0[0])
-        r0_index = task_list_r0[0][0] if len(task_list_r0) else None
+        assert np.all(task_list_r0[0] == task_list_r0[1]) and np.all(task_list_r0[0][:1] == task_list_r0[0])
+        r0_index = task_list_r0[0][0] if len(task_list_r0[0]) else None
         # the rest can stay as is, just numpyify them
-        task_list_rinv = np.reshape(task_list_rinv, (-1, 3))
-        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]])].T)
-        task_list_r = np.reshape(task_list_r, (-1, 3))
-        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]])].T)
+        task_list_rinv = np.reshape(task_list_rinv, (-1, 3)).astype(int)
+        task_list_rinv = tuple(task_list_rinv[np.array([i in classes for i in task_list_rinv[:,0]], dtype=bool)].T)
+        task_list_r = np.reshape(task_list_r, (-1, 3)).astype(int)
+        task_list_r = tuple(task_list_r[np.array([i in classes for i in task_list_r[:,0]], dtype=bool)].T)
         class_copy = []
         class_invcopy = []
         for i, class_other in classes.items():
-- 
2.43.0


From 997af23997baa2c092b7ef21a5cbae5722541dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 24/52] fix: HamiltonianSymmetry.copy failed for all inputs

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index cbb4012..505c629 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -58,8 +58,8 @@ class HamiltonianSymmetry:
         return sum((u.dim() for u in self.U))
     
     def copy(self) -> Self:
-        u_repr = HamiltonianSymmetry(self.sym.copy(), 1)
-        u_repr.inv = np.array(self.inv)
+        u_repr = HamiltonianSymmetry(self.sym.copy())
+        u_repr.translation = np.array(self.translation)
         u_repr.U = [u.copy() for u in self.U]
         u_repr.pos = [x.copy() for x in self.pos]
         u_repr.names = self.names.copy()
-- 
2.43.0


From f8f792bb0d19dea3d4ebe275adf2f35172466974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 25/52] fix: HamiltonianSymmetry.symmetrize was no projection
 and broke the symmetry if the inverted neighbor of a symmetric one is missing

---
 src/tight_binding_redweasel/hamiltonian_symmetry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 505c629..5515398 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -372,7 +372,8 @@ class HamiltonianSymmetry:
                         u1_ = u1.U[k]
                         u2_ = u2.U[k]
                         j, mirror = neighbor_func(s @ (r + r2 - r1) - r2 + r1)
-                        if j is not None:
+                        # the inverted neighbor is needed as well, otherwise the symmetry is incomplete
+                        if j is not None and (not self.sym.inversion or neighbor_func(-(s @ (r + r2 - r1)) - r2 + r1)[0] is not None):
                             h = H_r3[j]
                             if mirror:
                                 h = np.conj(h.T)
@@ -442,7 +443,8 @@ class HamiltonianSymmetry:
                     s_table = {}
                     for k, s in enumerate(self.sym.S):
                         j, mirror = neighbor_func(s @ (r - r1 + r2) + r1 - r2)
-                        if j is not None:
+                        # the inverted neighbor is needed as well, otherwise the symmetry is incomplete
+                        if j is not None and (not self.sym.inversion or neighbor_func(-(s @ (r - r1 + r2)) + r1 - r2)[0] is not None):
                             # reduce total_table by merging entries which have the same effect (based on the given self.U)
                             # doing this makes it go from 8448 to 8019 entries in my testcase
                             # NOTE: only works if the U are exact... rounding causes a race condition
-- 
2.43.0


From 78f716aa8f0cdaf3073af44a7dd2092183709ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 26/52] fix: HamiltonianSymmetry.apply used wrong phases for
 orbitals at different positions and ignored its inversion parameter

---
 .../hamiltonian_symmetry.py                   | 37 ++++++++-----------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/tight_binding_redweasel/hamiltonian_symmetry.py b/src/tight_binding_redweasel/hamiltonian_symmetry.py
index 5515398..24c819a 100644
--- a/src/tight_binding_redweasel/hamiltonian_symmetry.py
+++ b/src/tight_binding_redweasel/hamiltonian_symmetry.py
@@ -24,7 +24,7 @@ class HamiltonianSymmetry:
     There is an additional phase added to each individual unitary representation.
     The total symmetry can be expressed as:
 
-    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+    `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
 
     In solid state physics, the most important example for this
     is the **system hamiltonian**, which gives the class its name.
@@ -241,7 +241,7 @@ class HamiltonianSymmetry:
         """Apply the unitary transformation for one symmetry operation
         at the given k-point to the hermitian operator to get
 
-        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(1+S)(r_1-r_2))`
+        `H((S^T)^{-1} k) = U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
 
         Args:
             k (arraylike): The spacial point
@@ -251,32 +251,24 @@ class HamiltonianSymmetry:
                                         (not covered by the index alone). Defaults to False.
 
         Returns:
-            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(ik(1+S)(r_1-r_2))`
+            arraylike(dim, dim): the resulting hermitian operator `U_S H(k) U^+_S exp(2πik(S^{-1}-1)(r_1-r_2))`
         """
-        # apply inversion first, as that is the simple part
-        hamiltonian_inv = np.array(hamiltonian)
-        n1 = 0
-        for u1, r1 in zip(self.U, self.pos):
-            d1 = u1.dim()
-            u1 = 1 if u1.inv_split > 0 else -1
-            if u1 < 0:
-                # TODO use r1 !?!
-                hamiltonian_inv[n1:n1+d1,:] *= -1
-                hamiltonian_inv[:,n1:n1+d1] *= -1
-        # now apply the symmetry operation
-        result = np.zeros_like(hamiltonian)
-        s = self.sym.S[s_index]
+        k = np.asarray(k)
+        sign = -1 if inversion else 1
+        # the transformed point is (S^T)^{-1} k
+        sk = np.linalg.inv(sign * self.sym.S[s_index]).T @ k
+        hamiltonian = np.asarray(hamiltonian)
+        result = np.zeros(hamiltonian.shape, dtype=np.complex128)
         n1 = 0
         for u1, r1 in zip(self.U, self.pos):
             d1 = u1.dim()
             n2 = 0
             for u2, r2 in zip(self.U, self.pos):
                 d2 = u2.dim()
-                u1_ = u1.U[s_index]
-                u2_ = u2.U[s_index]
-                fac = np.exp(2j*np.pi * k @ (r1 - s @ r2)) # TODO check again!
-                fac *= np.exp(-2j*np.pi * k @ (r2 - s @ r1))
-                result[n1:n1+d1,n2:n2+d2] += fac * u1_ @ hamiltonian_inv[n1:n1+d1,n2:n2+d2] @ np.conj(u2_.T)
+                fac = np.exp(2j*np.pi * (sk - k) @ (r1 - r2))
+                if inversion and (u1.inv_split > 0) != (u2.inv_split > 0):
+                    fac = -fac
+                result[n1:n1+d1,n2:n2+d2] = fac * u1.U[s_index] @ hamiltonian[n1:n1+d1,n2:n2+d2] @ np.conj(u2.U[s_index].T)
                 n2 += d2
             n1 += d1
         return result
@@ -543,7 +535,8 @@ class HamiltonianSymmetry:
             used_k = [k]
             for inv in [1, -1] if self.sym.inversion else [1]:
                 for s_index, s in enumerate(self.sym.S):
-                    k_ = s @ k * inv
+                    # the transformed point, which belongs to self.apply
+                    k_ = np.linalg.inv(s).T @ k * inv
                     # * this is why this algorithm is asymtotically slow
                     if np.min(np.linalg.norm(used_k - k_.reshape(1, -1), axis=-1)) < scale * 1e-6:
                         continue
-- 
2.43.0


From 3bad10b66cfc4981abd02b9028fe419a27e08f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 27/52] fix: KPath failed if the start point was given as tuple
 or list of coordinates

---
 src/tight_binding_redweasel/kpaths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 378fda8..07c4e2f 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -43,7 +43,7 @@ class KPath(Sequence):
         self.points = points  # no copy, be careful!
         self.indices = [0]  # symmetry point indices
         additional = []
-        if isinstance(start, list) or isinstance(start, tuple):
+        if isinstance(start, (list, tuple)) and not all(np.ndim(x) == 0 and not isinstance(x, str) for x in start):
             # accept a list of points instead of start
             additional = start[1:]
             start = start[0]
-- 
2.43.0


From f67617d3611d023fd799a232c826cc907c3af8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 28/52] fix: tetragonal_bc_points replaced the global table of
 symmetry points

---
 src/tight_binding_redweasel/kpaths.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 07c4e2f..8e73b24 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -406,8 +406,7 @@ def tetragonal_bc_points(c: float) -> dict:
         dict: _description_
     """
     if c == 1:
-        global points
-        return points  # cubic, is contained in the global points dict
+        return globals()["points"]  # cubic, is contained in the global points dict
     points = {}
     points['G'] = (np.zeros(3), 'Γ')
     points['X'] = (np.array([0.5, 0.5, 0]), 'X')
-- 
2.43.0


From 73535604c1b4500f0cfc2d730c6de32fe456bdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:54 +0000
Subject: [PATCH 29/52] fix: periodic interpolation failed for data outside of
 the [-0.5, 0.5] unit cell

---
 src/tight_binding_redweasel/kpaths.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tight_binding_redweasel/kpaths.py b/src/tight_binding_redweasel/kpaths.py
index 8e73b24..38bc225 100644
--- a/src/tight_binding_redweasel/kpaths.py
+++ b/src/tight_binding_redweasel/kpaths.py
@@ -274,6 +274,8 @@ def interpolate(k_smpl, bands, sym: _sym.Symmetry = None, method="cubic", period
         k_smpl_orig = k_smpl
         k_smpl, bands = sym.realize_symmetric_data(
             k_smpl, bands, unit_cell=periodic, average_bad_duplicates=True)
+    elif periodic:
+        k_smpl = (k_smpl + 0.5) % 1.0 - 0.5
     if grid is None:
         grid = (round(len(k_smpl)**(1 / kdim)),)*kdim
     else:
-- 
2.43.0


From 746341ed2d6bd401ba32683b5155308d9a297009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 30/52] fix: mass density counted the mass of the electrons
 twice

---
 src/tight_binding_redweasel/qespresso_interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index f157566..2d931b4 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -390,9 +390,8 @@ class QECrystal:
         ax.legend()
     
     def _mass_per_cell(self) -> float:
-        nuclei_mass = 1.66053907e-27 * sum((element_masses[element_numbers[t]] for t in self.types))
-        electron_mass = 9.1093837e-31 * sum((element_numbers[t] for t in self.types))
-        return electron_mass + nuclei_mass # in kg
+        # the atomic masses already contain the electrons
+        return 1.66053907e-27 * sum((element_masses[element_numbers[t]] for t in self.types)) # in kg
 
     def mass_density(self) -> float:
         """Compute the mass density based on the given crystal lattice.
-- 
2.43.0


From b43f15a5b12a9276f580aec46ea6a2c2f12663e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 31/52] fix: mass density was negative for left-handed lattice
 vectors

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 2d931b4..4d66c15 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -400,7 +400,7 @@ class QECrystal:
         Returns:
             float: mass density in kg/m^3
         """
-        return self._mass_per_cell() / np.linalg.det(self.lattice_vectors_in_m())
+        return self._mass_per_cell() / abs(np.linalg.det(self.lattice_vectors_in_m()))
 
     def scale_to_density(self, density: float):
         """Scale the basis to match a given density.
-- 
2.43.0


From e70df6690724b3ca1a0e6cde64813e291d9e745d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:21 +0000
Subject: [PATCH 32/52] fix: scale_to_density changed the lattice matrix of the
 caller and failed for integer matrices

---
 src/tight_binding_redweasel/qespresso_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 4d66c15..915f392 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -408,7 +408,8 @@ class QECrystal:
         Args:
             density (float): The target density in kg/m^3
         """
-        self.A *= (self.mass_density() / density)**(1/3)
+        # don't change the matrix in place, it belongs to the caller
+        self.A = self.A * (self.mass_density() / density)**(1/3)
 
     def lattice_vectors_in_m(self) -> np.ndarray:
         """
-- 
2.43.0


From 7d07ebe319f2338fd5790df624bc899f7f734bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 33/52] fix: conductivities were negative for left-handed
 lattice vectors

---
 src/tight_binding_redweasel/bulk_properties.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 3751b84..644955b 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -374,7 +374,7 @@ class KIntegral:
         Returns:
             (ndarray[max_a+1, N_T, N_d, N_d]): (L^(0), L^(1), L^(2)). Results L^(0) in 1/(Ohm*m)/s, L^(1) in J/C/(Ohm*m)/s, L^(2) in (J/C)^2/(Ohm*m)/s.
         """
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
@@ -386,7 +386,7 @@ class KIntegral:
 
     # conductivity divided by the electron scattering time tau. Assuming constant tau. Result in 1/(Ohm*m*s)
     def drude_factor(self, A: np.ndarray, spin_factor=2):
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, _k: v[:, None, :] * v[:, :, None], hessians=False)[0]
         D = spin_factor * elementary_charge**2 * I / eV / V_EZ
         return D  # result is in 1/(Ohm*m)/s
@@ -407,7 +407,7 @@ class KIntegral:
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # Somehow their units don't match the expected result unit, so I removed the division by the speed of light to make it work.
         # I canceled one e from sigma_xx with e^2 from sigma_xyz
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         # sigma_xyz = elementary_charge/c/eV * self.integrate_df_A(A, lambda _e, v, h, _k: (v[:,0]**2*h[:,1,1] - v[:,0]*v[:,1]*h[:,1,0]), hessians=True)
         I = self.integrate_df_A(A, lambda _e, v, h, _k: (v[:, 0]**2 * h[:, 1, 1] - v[:, 0] * v[:, 1] * h[:, 1, 0]), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: v[:, 0]**2, hessians=False)[0]
@@ -421,7 +421,7 @@ class KIntegral:
         # PhysRevB.45.10886 Hall effect formula with constant relaxation time over k.
         # In reality the relaxation times are different over k-space or even just for different spins in the same band. (PhysRev.97.647)
         # I canceled one e from sigma_0 with e^2 from sigma_H
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         I = self.integrate_df_A(A, lambda _e, v, h, _k: np.einsum("ni,nij,nj->n", v, h, v) - np.einsum("nj,nj,nii->n", v, v, h), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, _k: (v**2).sum(-1), hessians=False)[0]
         sigma_H = elementary_charge / eV * spin_factor / 6 * I
@@ -450,7 +450,7 @@ class KIntegral:
         """
         # From the book "C. Hurd, The Hall Coeffcient of Metals and Alloys (Plenum, New York, 1972)"
         # Assuming constant relaxation time for now -> independent of it
-        V_EZ = np.linalg.det(A * 1e-10)
+        V_EZ = abs(np.linalg.det(A * 1e-10))
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
-- 
2.43.0


From bca65457b4a57b338d08fcedb8a7439474c2a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 34/52] fix: conductivity_hall_tensor failed for a k-dependent
 scattering time

---
 src/tight_binding_redweasel/bulk_properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 644955b..6ff1094 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -454,8 +454,8 @@ class KIntegral:
         if isinstance(tau, float):
             tau_v = tau
             tau = lambda _: tau_v
-        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k))
-        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * tau(k)**2)
+        tau_1 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1)))
+        tau_2 = (lambda v, _: v) if tau is None else (lambda v, k: v * np.reshape(tau(k), (-1, 1, 1, 1))**2)
         I = self.integrate_df_A(A, lambda _e, v, h, k: tau_2(np.einsum("yds,na,ns,nbd->naby", antisym_tensor, v, v, h), k), hessians=True)[0]
         I2 = self.integrate_df_A(A, lambda _e, v, k: tau_1(v[:, None, :] * v[:, :, None], k), hessians=False)[0]
         sigma3 = 1 / V_EZ * elementary_charge**3 / eV * spin_factor * I
-- 
2.43.0


From 2add7d127bdc1e81dbf02e9b7977f6724664d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 35/52] fix: integrals of insulators had the wrong shape

---
 src/tight_binding_redweasel/bulk_properties.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 6ff1094..3c81451 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -300,10 +300,10 @@ class KIntegral:
                 # no fermi surface!
                 # to get the output shape right, evaluate g at one point
                 if hessians:
-                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3))))
+                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.eye(3)[None], np.zeros((1, 3))))[0]
                 else:
-                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.zeros((1, 3))))
-                return np.array([[I]])
+                    I = 0.0 * np.asanyarray(g(self.mu, np.zeros((1, 3)), np.zeros((1, 3))))[0]
+                return np.array([[I]] * (moments + 1))
             # TODO see comment in __init__
             raise NotImplementedError("integrals for isolators (semiconductors) are currently not implemented")
 
-- 
2.43.0


From c8f8d418b7b70cd3d118db14a7d32ade5b223a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 36/52] fix: Hessians of FreeElectrons had the wrong shape

---
 src/tight_binding_redweasel/bulk_properties.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 3c81451..6470733 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -504,4 +504,6 @@ class FreeElectrons:
             order = order[:, :self.limit_count]
         bands = np.take_along_axis(bands, order, axis=-1)
         grad = np.take_along_axis(grad, order[:, None, :], axis=-1)
-        return self.fac * bands, self.fac * grad, self.fac * hess[None, ...]
+        # the Hessian is the same for all points and bands
+        hess = np.broadcast_to(hess[None, :, :, :bands.shape[-1]], (len(bands), 3, 3, bands.shape[-1]))
+        return self.fac * bands, self.fac * grad, self.fac * hess
-- 
2.43.0


From 3ea523dab12ff9dd77299c51869a0d6e07405f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 37/52] fix: KIntegral failed for one surface at positive
 temperature

---
 src/tight_binding_redweasel/bulk_properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index 6470733..a4467a5 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -133,7 +133,7 @@ def _integration_points(fermi_energy: float, T_min: float, T_max: float, N: int)
 def _integration_weights(x: np.ndarray, beta_j: np.ndarray, mu_j: np.ndarray, E_min: float, E_max: float, rtol=1e-4):
     assert len(x) % 2 == 1
     if len(x) == 1:
-        return np.array([1.0])
+        return x, np.ones((len(beta_j), 1))
     b = [2 * scipy.special.zeta(n) * (1 - 2**(1 - n)) if n % 2 == 0 else 0 for n in range(len(x))]
     I_nj = lambda n, j: beta_j[j]**(-n) * b[n]
     # sum_i X_ijn w_ij = I_jn
-- 
2.43.0


From b20b5f2e775c5ffb5c7f4207d1bf8011ac828023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 38/52] fix: KIntegral failed for insulators at zero
 temperature and lost temperatures if zero was given more than once

---
 src/tight_binding_redweasel/bulk_properties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/bulk_properties.py b/src/tight_binding_redweasel/bulk_properties.py
index a4467a5..b3d7dcc 100644
--- a/src/tight_binding_redweasel/bulk_properties.py
+++ b/src/tight_binding_redweasel/bulk_properties.py
@@ -209,10 +209,11 @@ class KIntegral:
         else:
             if self.metal:
                 self.e_smpl = np.array([self.fermi_energy])
-                self.integration_weights = np.array([[1]])
+                self.integration_weights = np.ones((len(T), 1))
             else:
                 # no e_smpl, all integrals are empty for T=0
-                pass
+                self.e_smpl = []
+                self.integration_weights = np.zeros((len(T), 0))
         self.e_smpl = np.array(self.e_smpl)
         for e in self.e_smpl:
             k_smpl, band_indices, weights, _ = dos_model.fermi_surface_samples(e, improved_points=improved_points, improved_weights=False, normalize=None)
-- 
2.43.0


From 369c19f298d1e0ab605f3b52470716c770809cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 39/52] fix: the last band offset was never tried in windowed
 losses and error histograms, equal band counts gave infinity

---
 src/tight_binding_redweasel/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/loss.py b/src/tight_binding_redweasel/loss.py
index 733fdec..ff849f3 100644
--- a/src/tight_binding_redweasel/loss.py
+++ b/src/tight_binding_redweasel/loss.py
@@ -57,7 +57,7 @@ def model_windowed_loss(bands, ref_bands, min_energy, max_energy, allow_skipped_
         select = (min_energy <= ref_bands) & (ref_bands <= max_energy)
         cost = float("inf")
         # find out bandoffset by checking all bandoffsets and finding the one with the lowest error
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands) * select[:,i:i+compare_bands]
             else:
@@ -98,7 +98,7 @@ def model_error_hist(bands, ref_bands, N=50, allow_skipped_bands=False):
         error = None
         ref_bands2 = ref_bands
         cost = float("inf")
-        for i in range(max_offset):
+        for i in range(max_offset + 1):
             if len(bands[0]) < len(ref_bands[0]):
                 diff = (ref_bands[:,i:i+compare_bands] - bands)
             else:
-- 
2.43.0


From 5ea87505014d15f1d31e6be0dd8eb484806db4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:08 +0000
Subject: [PATCH 40/52] fix: conjugate_gradient_solve changed the start vector
 of the caller and failed for mixed real/complex or integer data

---
 src/tight_binding_redweasel/linalg.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index ae7894d..e1b0d0a 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -243,12 +243,10 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
     Returns:
         np.ndarray: The best approximation for the result `x` from `Ax=b`.
     """
-    if x0 is None:
-        x = np.zeros_like(b)
-        r = -b
-    else:
-        x = x0
-        r = A(x) - b
+    # don't change x0 and b and use a type, which can store the solution
+    x = np.zeros(np.shape(b), dtype=np.result_type(b, float)) if x0 is None else np.array(x0)
+    r = A(x) - b
+    x, r = x.astype(np.result_type(x, r, float)), r.astype(np.result_type(x, r, float))
     d = r.copy()
     r_sqr = np.sum(r.conj() * r)
     if max_i is None:
-- 
2.43.0


From 8746ddac553272b2a78ee01ea73c755c44b16d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 41/52] fix: find_classes ignored the inversion

---
 src/tight_binding_redweasel/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/symmetry.py b/src/tight_binding_redweasel/symmetry.py
index 33aaf3c..9d32dba 100644
--- a/src/tight_binding_redweasel/symmetry.py
+++ b/src/tight_binding_redweasel/symmetry.py
@@ -824,7 +824,7 @@ class Symmetry:
         # build the symmetry graph for the neighbor list
         for i, r in enumerate(points):
             rep_class = set()
-            for s in self.S:
+            for s in self.get_symmetry_operations():
                 r_ = s @ r
                 dist = np.linalg.norm(points - r_[None, :], axis=-1)
                 j = np.argmin(dist)
-- 
2.43.0


From a81aa8c1ac064076669dfa5d4f26efa436c2947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 42/52] fix: TightBindingModel could not be created for
 symmetries with inversion

---
 src/tight_binding_redweasel/tight_binding.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 021a397..34d1411 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -27,21 +27,21 @@ class TightBindingModel:
         param_count = len(neighbors)
         if not self.sym.inversion:
             param_count = param_count * 2 - 1 # add separate sin Terms
-        else:
-            # make the onsite matrix blockdiagonal
-            n = unitary_repr.inv_split
-            self.params[0][:n,n:] = 0
-            self.params[0][n:,:n] = 0
         # check params
         if params is not None:
             assert np.shape(unitary_repr.U)[1] == np.shape(params)[1]
-            self.params = np.asarray(params)
+            self.params = np.array(params)
             pshape = np.shape(self.params)
             assert len(pshape) == 3
             assert pshape[1] == pshape[2]
             assert pshape[0] == param_count
         else:
             self.params = np.zeros((param_count,) + (np.shape(unitary_repr.U)[1],)*2, dtype=np.complex128)
+        if self.sym.inversion:
+            # make the onsite matrix blockdiagonal
+            n = unitary_repr.inv_split
+            self.params[0][:n,n:] = 0
+            self.params[0][n:,:n] = 0
         # TODO sanity checks for symmetrically equivalent neighbors (those are not allowed)
     
     def band_count(self):
-- 
2.43.0


From 5a1b8f0dac445bba83f3239df99c2a3bd29fa725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 43/52] fix: gradients of TightBindingModel failed for integer
 k-points

---
 src/tight_binding_redweasel/tight_binding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding.py b/src/tight_binding_redweasel/tight_binding.py
index 34d1411..7400f36 100644
--- a/src/tight_binding_redweasel/tight_binding.py
+++ b/src/tight_binding_redweasel/tight_binding.py
@@ -189,7 +189,7 @@ class TightBindingModel:
     def df_i(self, k, i):
         assert i >= 0
         k = np.asarray(k)
-        d = np.zeros_like(k)
+        d = np.zeros(k.shape)
         if i == 0:
             if self.sym.inversion:
                 return d, d
-- 
2.43.0


From 4ed4a91664bbd04b96f74f99f598840e7efb1ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:05 +0000
Subject: [PATCH 44/52] fix: conjugate gradient solver stepped on after
 convergence and along null directions

---
 src/tight_binding_redweasel/linalg.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/linalg.py b/src/tight_binding_redweasel/linalg.py
index e1b0d0a..7929f63 100644
--- a/src/tight_binding_redweasel/linalg.py
+++ b/src/tight_binding_redweasel/linalg.py
@@ -252,17 +252,21 @@ def conjugate_gradient_solve(A: Callable[[np.ndarray], np.ndarray], b: np.ndarra
     if max_i is None:
         max_i = int(np.prod(np.shape(x)) * 2.5) + 1
     i = 0
+    max_curvature = 0
     while True:
+        if r_sqr <= err**2:
+            # print("cg", i)
+            return x
         A_d = A(d)
         d_sqr = np.real(np.sum(d.conj() * A_d))  # real because A is positive definite!
-        if d_sqr == 0:
+        curvature = abs(d_sqr) / np.sum(np.abs(d)**2) if d_sqr != 0 else 0
+        if curvature <= 1e-14 * max_curvature:
+            # only rounding errors in the null space of A are left
             # print("cg", i, "d")
             return x
+        max_curvature = max(curvature, max_curvature)
         alpha = r_sqr / d_sqr
         x -= alpha * d
-        if r_sqr <= err**2:
-            # print("cg", i)
-            return x
         if i > max_i:
             # print(f"conjugate gradient didn't converge ({r_sqr**.5:.2e} > {err:.2e})")
             return x
-- 
2.43.0


From 612bf6a1edac8162048c39989577a5957b1c2858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:05 +0000
Subject: [PATCH 45/52] fix: logging an exact fit (no error in any band) failed

---
 src/tight_binding_redweasel/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/logger.py b/src/tight_binding_redweasel/logger.py
index 8e6dfde..bc55a9f 100644
--- a/src/tight_binding_redweasel/logger.py
+++ b/src/tight_binding_redweasel/logger.py
@@ -42,7 +42,7 @@ class OptimisationLogger:
             # U+2581 = ▁ ... U+2588 = █
             scale = np.max(max_err)
             error_vis = "".join(
-                [" " if err/scale <= 1/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
+                [" " if err <= scale/16 else chr(0x2581 + round(err/scale * 8 - 1)) for err in max_err])
             print(f"{iteration:3}: loss{loss:9.2e}{scale:8.1e}×[{error_vis}]", end="")
             if not self.update_line:
                 print()
-- 
2.43.0


From 0f526bb6d586f18bd8df4c19026f5299211e3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:05 +0000
Subject: [PATCH 46/52] fix: randomize failed for real coefficients (e.g. the
 default overlap)

---
 src/tight_binding_redweasel/tight_binding_asym.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index fe40d99..944d1f4 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -312,12 +312,12 @@ class AsymTightBindingModel:
         dparams = sigma * np.random.standard_normal(self.H.H_r.shape) + sigma * 1j*np.random.standard_normal(self.H.H_r.shape)
         if keep_zeros:
             dparams *= np.where(np.abs(self.H.H_r) < 1e-8, 0, 1)
-        self.H.H_r += dparams
+        self.H.H_r = self.H.H_r + dparams
         if randomize_S:
             dparams = sigma * np.random.standard_normal(self.S.H_r.shape) + sigma * 1j*np.random.standard_normal(self.S.H_r.shape)
             if keep_zeros:
                 dparams *= np.where(np.abs(self.S.H_r) < 1e-8, 0, 1)
-            self.S.H_r += dparams
+            self.S.H_r = self.S.H_r + dparams
 
     def error(self, k_smpl, ref_bands, band_weights, band_offset):
         """
-- 
2.43.0


From 8b4fdf61b9272e23ce3a30f6dbf2d02f36b47907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:05 +0000
Subject: [PATCH 47/52] fix: autofit_asym failed when bands were added

---
 src/tight_binding_redweasel/tight_binding_asym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/tight_binding_asym.py b/src/tight_binding_redweasel/tight_binding_asym.py
index 944d1f4..e706749 100644
--- a/src/tight_binding_redweasel/tight_binding_asym.py
+++ b/src/tight_binding_redweasel/tight_binding_asym.py
@@ -966,7 +966,7 @@ def autofit_asym(name, neighbors_src, k_smpl, ref_bands, band_weights, sym: Symm
         tb = AsymTightBindingModel.new(neighbors, add_bands_below + np.shape(ref_bands)[-1] + add_bands_above)
         tb.randomize(0.01)
         tb.normalize()
-        tb.H.H_r[0] = np.diag(ref_bands[0])
+        tb.H.H_r[0] = np.diag(np.pad(ref_bands[0], (add_bands_below, add_bands_above), mode="edge"))
         # now fit in 10 steps extending from the gamma point (0-point)
         log = logger.OptimisationLogger(update_line=False)
         for j in range(1, 11):
-- 
2.43.0


From e4cdb5b5ae224f5c819facd0ff782b94835937c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 48/52] fix: read_bands_crystal failed if the data contains no
 symmetries

---
 src/tight_binding_redweasel/qespresso_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 915f392..82bd6ad 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -558,6 +558,7 @@ class QECrystal:
             if len(S) == 0:
                 # there is always one symmetry, the trivial symmetry
                 S = np.eye(3)[None,...]
+                S_trans = [np.zeros(3)]
             # assert np.linalg.norm(np.einsum("nij,nik->njk", S, S) - np.eye(len(S[0]))) < 1e-5, "symmetries in crystal space are not orthogonal"
             assert np.linalg.norm(np.round(S) - S) < 1e-8, "symmetries in crystal space should be integers, but are not"
             assert len(S_trans) == len(S), "every symmetry needs an associated translational part if one of them has one."
-- 
2.43.0


From aca14d2f240b2ac338589c0bde7fec3d9b19b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 49/52] fix: read_charge_density lost the imaginary part of the
 coefficients and was off by half a coefficient

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 82bd6ad..cf1018f 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -819,7 +819,9 @@ class QECrystal:
             # k+G = xk + h*b1 + k*b2 + l*b3
             g_smpl = b1[None,:] * mill[:, 0:1] + b2[None,:] * mill[:, 1:2] + b3[None,:] * mill[:, 2:3]
 
-            rho_g = np.zeros((nspin, ngm_g))
+            # end of this record and start of the next one
+            f.seek(8, 1)
+            rho_g = np.zeros((nspin, ngm_g), dtype=complex)
             for i in range(nspin):
                 rho_g[i,:] = np.fromfile(f, dtype='complex128', count=ngm_g)
                 f.seek(8, 1)
-- 
2.43.0


From 0cc653677d94c38592961c8fe8b11230ee9346b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 50/52] fix: read_projections_order_spilling failed for more
 than one atom

---
 src/tight_binding_redweasel/qespresso_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index cf1018f..1dbfcc3 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -597,7 +597,7 @@ class QECrystal:
                     key, _value = key_value.split("=")
                     key = key.strip()
                     if "charge" not in key and key not in ["p", "d", "f"]:
-                        if self.types:
+                        if len(self.types):
                             order.append(f"{index}{self.types[index-1]}_{key}")
                         else:
                             order.append(f"{index}_{key}")
-- 
2.43.0


From e077252b8e6204b3f4e6e7fc07bec50ab0851b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 51/52] fix: from_disk mixed up units of atom positions, cutoff
 and temperature

---
 src/tight_binding_redweasel/qespresso_interface.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 1dbfcc3..41500db 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -1400,6 +1400,8 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
         a2 = [float(x) for x in section.getElementsByTagName("a2")[0].firstChild.nodeValue.strip().split()]
         a3 = [float(x) for x in section.getElementsByTagName("a3")[0].firstChild.nodeValue.strip().split()]
         A = np.array([a1, a2, a3]).T
+        # the atom positions are in bohr_radius like this A
+        inv_A = np.linalg.inv(A)
         if crystal.unit == "angstrom":
             A *= bohr_to_angstrom
         crystal.A = A
@@ -1407,18 +1409,19 @@ def from_disk(name: str, read_output=True, prepare_pseudopotentials=False) -> QE
             atom_type = atom.getAttribute("name")
             atom_pos = [float(x) for x in atom.firstChild.nodeValue.strip().split()]
             # convert atom_pos to crystal coordinates, as those are used by the class
-            atom_pos = np.linalg.inv(A) @ atom_pos
+            atom_pos = inv_A @ atom_pos
             basis.append(atom_pos)
             types.append(atom_type)
         crystal.basis = np.array(basis)
         crystal.types = np.array(types)
-        crystal.kinetic_energy_cutoff = float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
+        # the xml uses Hartree, while the input of pw.x is in Rydberg
+        crystal.kinetic_energy_cutoff = 2 * float(section.getElementsByTagName("ecutwfc")[0].firstChild.nodeValue)
         #ecutrho = float(section.getElementsByTagName("ecutrho")[0].firstChild.nodeValue)
         smearing = section.getElementsByTagName("smearing")
         if smearing:
             if smearing[0].firstChild.nodeValue.strip() == "fd": # TODO check the shorthand...
-                # TODO check unit!
-                crystal.T = float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
+                # from Hartree to Rydberg and then to Kelvin
+                crystal.T = 2 * float(smearing[0].getAttribute("degauss")) / 6.3336231269e-6
     if prepare_pseudopotentials:
         qe_prepare()
     return crystal
-- 
2.43.0


From 81b286e293b6f3bf4e2f4839898e841059c9dc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:01 +0000
Subject: [PATCH 52/52] fix: read_wavefunctions mixed up the spinor components
 of noncollinear calculations

---
 src/tight_binding_redweasel/qespresso_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tight_binding_redweasel/qespresso_interface.py b/src/tight_binding_redweasel/qespresso_interface.py
index 41500db..3dcd431 100644
--- a/src/tight_binding_redweasel/qespresso_interface.py
+++ b/src/tight_binding_redweasel/qespresso_interface.py
@@ -780,8 +780,8 @@ class QECrystal:
                     evc[i,:] = np.fromfile(f, dtype='complex128', count=npol*igwx)
                     f.seek(8, 1)
                 
-                # TODO is this order correct???
-                evc_list.append(evc.reshape(nbnd, igwx, npol))
+                # both components of a spinor are stored one after the other
+                evc_list.append(np.swapaxes(evc.reshape(nbnd, npol, igwx), 1, 2))
                 g_smpl_list.append(mill)
         inv_order = np.zeros(len(order), dtype=np.int64)
         inv_order[np.array(order)-1] = np.arange(len(order))
-- 
2.43.0

