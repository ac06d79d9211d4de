From 8e2521888d0dedf2934970cc0e958dc7b7c0ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 01/15] fix: log prior gradient drops Jacobian terms when
 several priors are set

---
 runlmc/parameterization/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/parameterization/model.py b/runlmc/parameterization/model.py
index c2082fa..3979a4f 100644
--- a/runlmc/parameterization/model.py
+++ b/runlmc/parameterization/model.py
@@ -113,7 +113,7 @@ class Model(paramz.Model, _PriorizableNode):
 
         # Incorporate Jacobian for transformations again
         indices_with_prior = {
-            idx for idx in indices for _, indices in self.priors.items()}
+            idx for _, indices in self.priors.items() for idx in indices}
         for constraint, indices in self.constraints.items():
             if not isinstance(constraint, Transformation):
                 continue
-- 
2.43.0


From aa19d1b55fab876c1f0b32a3b70eb1ea2c87edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 02/15] fix: SLFM-only and independent-only kernels gained a
 spurious identity on the grid

---
 runlmc/lmc/grid_kernel.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/runlmc/lmc/grid_kernel.py b/runlmc/lmc/grid_kernel.py
index 82ed108..846dc8d 100644
--- a/runlmc/lmc/grid_kernel.py
+++ b/runlmc/lmc/grid_kernel.py
@@ -32,9 +32,8 @@ class GridKernel(Matrix):
         elif ktype == 'bt':
             self.grid_K = _gen_bt_grid(functional_kernel, grid_k, active_dim)
         elif ktype == 'slfm':
-            m = interpolant.shape[1]
             self.grid_K = _gen_slfm_grid(
-                functional_kernel, grid_k, m, active_dim)
+                functional_kernel, grid_k, active_dim)
         else:
             assert False, ktype
 
@@ -74,18 +73,19 @@ def gen_grid_kernel(fk, grid_dists, interpolants, lens_per_output):
     return SumMatrix(ls), grid_kerns
 
 
-def _gen_slfm_grid(functional_kernel, grid_k, m, active_dim):
-    coreg_Ks = _gen_coreg_Ks(functional_kernel, grid_k, m, active_dim)
-    diag_Ks = _gen_diag_Ks(functional_kernel, grid_k, m, active_dim)
-    return SumMatrix([coreg_Ks, diag_Ks])
+def _gen_slfm_grid(functional_kernel, grid_k, active_dim):
+    # Either term is absent (not an identity) if it has no kernels.
+    Ks = [_gen_coreg_Ks(functional_kernel, grid_k, active_dim),
+          _gen_diag_Ks(functional_kernel, grid_k, active_dim)]
+    return SumMatrix([K for K in Ks if K is not None])
 
 
-def _gen_coreg_Ks(fk, grid_k, m, active_dim):
+def _gen_coreg_Ks(fk, grid_k, active_dim):
     kidxs = fk.active_dims[active_dim]
     non_indep = fk.filter_non_indep_idxs(kidxs)
     all_coreg = [fk.coreg_vecs[idx] for idx in non_indep]
     if not all_coreg:
-        return Identity(m)
+        return None
     ranks = np.array([len(coreg) for coreg in all_coreg])
     A_star = np.vstack(all_coreg).T
     I_m = Identity(np.prod(grid_k.shape[1:]))
@@ -100,9 +100,9 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
     return coreg_Ks
 
 
-def _gen_diag_Ks(fk, grid_k, m, active_dim):
+def _gen_diag_Ks(fk, grid_k, active_dim):
     if fk.num_lmc[active_dim] == 0 and fk.num_indep[active_dim] == 0:
-        return Identity(m)
+        return None
     kidxs = fk.active_dims[active_dim]
     diags = np.column_stack([fk.coreg_diags[kidx] for kidx in kidxs])
     Q = grid_k.shape[0]
-- 
2.43.0


From d72a8555e1fa5467162b02199185fc4bc22f35bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 03/15] fix: AdaDelta stepped in place on the model's and the
 caller's start array

---
 runlmc/models/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runlmc/models/optimization.py b/runlmc/models/optimization.py
index f1b09db..e2ecc4d 100644
--- a/runlmc/models/optimization.py
+++ b/runlmc/models/optimization.py
@@ -57,6 +57,8 @@ class AdaDelta(Optimizer):
                   'grad norm {:10.4e}'.format(grad_norm))
 
     def opt(self, x, f_fp=None, f=None, fp=None):
+        # climin steps in place, and x may be the model's or the caller's
+        x = x.copy()
         ada = self._prepare_adadelta(x, fp)
 
         min_grad_ratio = self.kwargs['min_grad_ratio']
-- 
2.43.0


From 6007bcfd800caee074c68066d6246aa1385a6353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 04/15] fix: autogrid changed the caller's grid size array in
 place

---
 runlmc/approx/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 59e3897..dfb8f65 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -202,7 +202,7 @@ def autogrid(Xs, lo, hi, m):
     if m is None:
         m = np.ones(P) * (sum(len(X) for X in Xs) // len(Xs))
     else:
-        m = np.asarray(m)
+        m = np.array(m)  # copy, changed in-place below
     lo = (max_lo if lo is None else np.minimum(lo, max_lo)).astype(float)
     hi = (min_hi if hi is None else np.maximum(hi, min_hi)).astype(float)
 
-- 
2.43.0


From ebc5c4fecb8934711acecbcc5f23373034c82f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 05/15] fix: prediction failed for models with an identity
 kernel

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index d867c28..37dca4b 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -307,7 +307,8 @@ class InterpolatedLLGP(MultiGP):
                                  for per_output
                                  in self._functional_kernel.coreg_vecs)
         coregs += np.column_stack(self._functional_kernel.coreg_diags)
-        zero_dist = {v: 0 for v in self._functional_kernel.active_dims}
+        zero_dist = {v: np.zeros(1)
+                     for v in self._functional_kernel.active_dims}
         kernels = self._functional_kernel.eval_kernels(zero_dist)
         native_output_var = coregs.dot(kernels).reshape(-1)
         native_var = native_output_var + self._functional_kernel.noise
-- 
2.43.0


From b1dbec417b631a4e7c6fb8fedff924379afd86da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 06/15] fix: precompute prediction failed when all kernels
 share a subset of the dimensions

---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 37dca4b..9a58b80 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -370,7 +370,7 @@ class InterpolatedLLGP(MultiGP):
         if len(self.interpolants) != 1:
             raise ValueError(
                 'precompute prediction mode unavailable for split kernels')
-        W, WT = self.interpolants[tuple(range(self.input_dim))]
+        W, WT = next(iter(self.interpolants.values()))
         K_UU = self.kernel.K.Ks[0].grid_K
         # SKI should have a half_matrix() method returning these two,
         # in which case we'd just ask self.kernel.K.ski for them.
-- 
2.43.0


From 508764e5607a418d1224168f8199adea6b530ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 07/15] fix: on-the-fly prediction failed when no output had
 test points

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 9a58b80..d4c5e20 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -392,7 +392,8 @@ class InterpolatedLLGP(MultiGP):
         K_test_X = ExactLMCLikelihood.kernel_from_indices(
             Xs, self.Xs, self._functional_kernel)
         ls = [(self.kernel.K, k_star) for k_star in K_test_X]
-        inverted = np.array(self._pool.starmap(Iterative.solve, ls)).T
+        inverted = np.array(self._pool.starmap(Iterative.solve, ls))
+        inverted = inverted.reshape(K_test_X.shape).T  # maybe 0 test points
 
         full_mat = K_test_X.dot(inverted)
         return np.diag(full_mat)
-- 
2.43.0


From de75822b976c77a394f8ef1b2532c38ffca428c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 08/15] fix: K() handed out the cached kernel matrix itself

---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index d4c5e20..03e0bc8 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -257,7 +257,7 @@ class InterpolatedLLGP(MultiGP):
         :returns: :math:`K_{\\text{SKI}}`, the approximation of the exact
                   kernel.
         """
-        return self._dense().K
+        return self._dense().K.copy()
 
     def log_det_K(self):
         """
-- 
2.43.0


From a13786149ca715501a1a3e6e78e56b0214c4612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 09/15] fix: models using a process pool could not be copied or
 pickled

---
 runlmc/util/inline_pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runlmc/util/inline_pool.py b/runlmc/util/inline_pool.py
index 0345614..c591901 100644
--- a/runlmc/util/inline_pool.py
+++ b/runlmc/util/inline_pool.py
@@ -18,6 +18,10 @@ class InlinePool:
             return self._pool.starmap(f, ls)
         return [f(*x) for x in ls]
 
+    def __getstate__(self):
+        # Processes can't be copied or pickled; such copies run serially.
+        return {'_pool': None}
+
     def __del__(self):
         if self._pool:
             self._pool.close()
-- 
2.43.0


From c6cfb9d0e64dcac77a24be0233fc81610d08a15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:07 +0000
Subject: [PATCH 10/15] fix: a failed or interrupted update left the previous
 kernel in use

---
 runlmc/models/interpolated_llgp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 03e0bc8..096032f 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -191,6 +191,9 @@ class InterpolatedLLGP(MultiGP):
 
     def parameters_changed(self):
         self._clear_caches()
+        # If this update fails or is interrupted, then the kernel for the
+        # previous parameters must not be used with the new parameters.
+        self.kernel = None
 
         grid_kernel, gk_dict = gen_grid_kernel(
             self._functional_kernel,
@@ -282,6 +285,8 @@ class InterpolatedLLGP(MultiGP):
 
         :returns: the normal quadratic term for the current outputs `Ys`.
         """
+        if self.kernel is None:
+            self.parameters_changed()
         return self.y.dot(self.kernel.alpha())
 
     def log_likelihood(self):
-- 
2.43.0


From 2108e06b2092eeb768b4d2d2e3a05195ee61dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:32 +0000
Subject: [PATCH 11/15] fix: a failed update's partial record misaligned the
 metrics series

---
 runlmc/lmc/metrics.py              | 8 ++++++++
 runlmc/models/interpolated_llgp.py | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/runlmc/lmc/metrics.py b/runlmc/lmc/metrics.py
index cda2550..8377ec0 100644
--- a/runlmc/lmc/metrics.py
+++ b/runlmc/lmc/metrics.py
@@ -8,3 +8,11 @@ class Metrics:
         self.grad_error = []
         self.solv_error = []
         self.log_likely = []
+
+    def drop_partial(self):
+        """Drop what an update which failed part-way had recorded, so that
+        the same index refers to the same update in all of the series."""
+        all_series = list(vars(self).values())
+        complete = min(map(len, all_series))
+        for series in all_series:
+            del series[complete:]
diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 096032f..b1084a2 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -194,6 +194,8 @@ class InterpolatedLLGP(MultiGP):
         # If this update fails or is interrupted, then the kernel for the
         # previous parameters must not be used with the new parameters.
         self.kernel = None
+        if self.metrics is not None:
+            self.metrics.drop_partial()
 
         grid_kernel, gk_dict = gen_grid_kernel(
             self._functional_kernel,
-- 
2.43.0


From 8e435f1d97a2c02281c7b0c45f3db457f4912c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:39 +0000
Subject: [PATCH 12/15] fix: a refused prior of unknown domain replaced the
 previous prior

---
 runlmc/parameterization/priorizable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runlmc/parameterization/priorizable.py b/runlmc/parameterization/priorizable.py
index ab7ce5e..c62d943 100644
--- a/runlmc/parameterization/priorizable.py
+++ b/runlmc/parameterization/priorizable.py
@@ -52,12 +52,14 @@ class PriorizableLeaf(_PriorizableNode):
         :param  prior: prior set for this parameter
         :type prior: :class:`runlmc.parameterization.Prior`
         """
+        # An unknown domain is refused before anything changes
+        constrain = Prior._CONSTRAIN_DOMAIN[prior.domain]
+
         # Warn if overwriting previous prior
         prev_priors = self._unset_prior()
         self._add_to_index_operations(
             self.priors, prev_priors, prior, warning=True)
 
-        constrain = Prior._CONSTRAIN_DOMAIN[prior.domain]
         constrain(self)
 
         assert all(c is not __fixed__ for c in self._all_constraints()), \
-- 
2.43.0


From ba5db28afd442ffdebd5dfc93dba751addb2d28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:23 +0000
Subject: [PATCH 13/15] fix: a prior whose constraint update failed was left
 without its constraint

---
 runlmc/parameterization/priorizable.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runlmc/parameterization/priorizable.py b/runlmc/parameterization/priorizable.py
index c62d943..ca86b9c 100644
--- a/runlmc/parameterization/priorizable.py
+++ b/runlmc/parameterization/priorizable.py
@@ -55,13 +55,15 @@ class PriorizableLeaf(_PriorizableNode):
         # An unknown domain is refused before anything changes
         constrain = Prior._CONSTRAIN_DOMAIN[prior.domain]
 
+        # Constraining updates the model, which may fail or be interrupted:
+        # no prior may be in place then without the constraint it needs.
+        constrain(self)
+
         # Warn if overwriting previous prior
         prev_priors = self._unset_prior()
         self._add_to_index_operations(
             self.priors, prev_priors, prior, warning=True)
 
-        constrain(self)
-
         assert all(c is not __fixed__ for c in self._all_constraints()), \
             'Should not be fixed with a prior'
 
-- 
2.43.0


From 4f5cab081d5ffeaf045ccd9f3689aa10356dfb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:38 +0000
Subject: [PATCH 14/15] fix: link the scale of a Scaled kernel

The scale was created as a parameter but never linked, so edits of it did
not reach the model (cached answers mixed old and new scale) and it was
never learned.
---
 runlmc/kern/scaled.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runlmc/kern/scaled.py b/runlmc/kern/scaled.py
index 6f17e51..59731f9 100644
--- a/runlmc/kern/scaled.py
+++ b/runlmc/kern/scaled.py
@@ -18,6 +18,7 @@ class Scaled(StationaryKern):
         self.k = k
         self.link_parameter(k)
         self.scale = Param('scale', 1, Logexp())
+        self.link_parameter(self.scale)
 
     def from_dist(self, dists):
         return self.scale * self.k.from_dist(dists)
-- 
2.43.0


From bc0dcf27da103b9bcdeaa515e9d146ca02f80a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:38 +0000
Subject: [PATCH 15/15] fix: publish the kernel of an update only once it is
 complete

An interrupt between assigning model.kernel and its grid kernels left a
kernel on which every later prediction raised AttributeError.
---
 runlmc/models/interpolated_llgp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index b1084a2..6c4d3f3 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -202,14 +202,15 @@ class InterpolatedLLGP(MultiGP):
             self.dists,
             self.interpolants,
             list(map(len, self.Ys)))
-        self.kernel = ApproxLMCLikelihood(
+        kernel = ApproxLMCLikelihood(
             self._functional_kernel,
             grid_kernel,
             self.dists,
             self.interpolants,
             self.Ys,
             self._deriv_service)
-        self.kernel._grid_kernels = gk_dict
+        kernel._grid_kernels = gk_dict
+        self.kernel = kernel
 
         if _LOG.isEnabledFor(logging.DEBUG):
             fmt = '{:7.6e}'.format
-- 
2.43.0

