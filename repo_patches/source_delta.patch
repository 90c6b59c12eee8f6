From 94f82374d16758685fe6b1242eeb3d14aafc2499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:39 +0000
Subject: [PATCH 01/22] fix: Gaussian update and log-likelihood for vector
 measurements

The Kalman gain for dy >= 2 was computed with a single (upper, right-sided)
triangular solve instead of the full Cholesky solve, and the multivariate normal
log density solved with chol transposed, so that filtering results were wrong for
any correlated measurement prediction covariance (and a shape error when dy != dx).
---
 mfs/classical_filters_smoothers/gfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 5b3d1e9..45f68a8 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -47,7 +47,7 @@ def _log_normal_pdf(x: FloatScalar, mu: FloatScalar, variance: FloatScalar) -> F
 
 
 def _log_mvn_pdf(x: JArray, mu: JArray, chol: JArray) -> JFloat:
-    z = jax.lax.linalg.triangular_solve(chol, x - mu)
+    z = jax.scipy.linalg.solve_triangular(chol, x - mu, lower=True)
     return -0.5 * (jnp.dot(z, z) + 2 * jnp.sum(jnp.log(math.sqrt(2 * math.pi) * jnp.diagonal(chol))))
 
 
@@ -75,7 +75,7 @@ def _linear_update(mp: JArray, vp: JArray,
         n_ell = jnp.squeeze(-_log_normal_pdf(y, pred_y, S))
     else:
         chol = jax.lax.linalg.cholesky(S)
-        K = jax.lax.linalg.triangular_solve(chol, H @ vp).T
+        K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T
         n_ell = -_log_mvn_pdf(y, pred_y, chol)
     return mp + K @ (y - pred_y), vp - K @ S @ K.T, n_ell
 
-- 
2.43.0


From e5f9d2022e5e144144eb6778c6fa10fe99cc7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:39 +0000
Subject: [PATCH 02/22] fix: 1D scaled central moments of the Normal transition
 approximations

The n-th scaled central moment must be divided by scale ** n, whereas every order
was divided by scale ** (0 + 1 + ... + 2 N - 1).
---
 mfs/one_dim/moments.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index bd3aed3..ca1d041 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -202,9 +202,8 @@ def sde_cond_moments_tme_normal(drift: Callable, dispersion: Callable, dt: Float
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = tme.mean_and_cov(jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order)
-        s = jnp.prod(scale ** jnp.arange(num_moments))
         return jnp.array([raw_moment_of_normal(jnp.squeeze(cond_mean) - mean, jnp.squeeze(cond_var), p)
-                          for p in range(num_moments)])[n] / s
+                          for p in range(num_moments)])[n] / scale ** n
 
     @partial(jax.vmap, in_axes=[0])
     def state_cond_mean(x: JFloat) -> JFloat:
@@ -240,8 +239,7 @@ def sde_cond_moments_euler(drift: Callable, dispersion: Callable, dt: FloatScala
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = x + drift(x) * dt, dispersion(x) ** 2 * dt
-        s = jnp.prod(scale ** jnp.arange(num_moments))
-        return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p) for p in range(num_moments)])[n] / s
+        return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p) for p in range(num_moments)])[n] / scale ** n
 
     @partial(jax.vmap, in_axes=[0])
     def state_cond_mean(x: JFloat) -> JFloat:
-- 
2.43.0


From ab6ef94ecac1035efc26024ff8e31e0a96cbd458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:39 +0000
Subject: [PATCH 03/22] fix: zeroth central moment of Normal is one

scipy's factorial2(-1) is zero in the supported versions, so that the zeroth moment
was returned as zero.
---
 mfs/one_dim/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index ca1d041..267a1a8 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -33,7 +33,7 @@ def central_moment_of_normal(variance: FloatScalar, p: int) -> FloatScalar:
     """
     if p % 2 == 0:
         scale = jnp.sqrt(variance)
-        return scale ** p * scipy.special.factorial2(p - 1, exact=True)
+        return scale ** p * raw_moment_of_standard_normal(p)
     else:
         return 0.
 
-- 
2.43.0


From 61c7ce16f69bea4c5efa86b34d05c1b408d56ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:39 +0000
Subject: [PATCH 04/22] fix: variance of GaussianSum1D when only two moments
 are requested

For N = 1 the array of central moments has no second-order entry, and the clamped
index silently gave variance zero and NaN scaled moments.
---
 mfs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 9a4b8da..5fe9722 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -67,7 +67,7 @@ class GaussianSum1D(NamedTuple):
                               zip(means, variances, weights)]) for p in range(2 * N)])
         cms = jnp.array([sum([raw_moment_of_normal(mean - centre, variance, p) * weight for mean, variance, weight in
                               zip(means, variances, weights)]) for p in range(2 * N)])
-        variance = cms[2]
+        variance = jnp.sum(weights * (variances + (means - centre) ** 2))
         scms = cms / jnp.sqrt(variance) ** jnp.arange(2 * N)
         return cls(means=means, variances=variances, weights=weights,
                    mean=centre, variance=variance,
-- 
2.43.0


From e5232b3cd5421076ccff46ba12d70f6b06127b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:39 +0000
Subject: [PATCH 05/22] fix: high-order multivariate Normal moments with JAX
 inputs

Exact factorials beyond 20! are object arrays, which JAX cannot multiply with.
---
 mfs/multi_dims/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/multi_dims/moments.py b/mfs/multi_dims/moments.py
index 295f942..e602e51 100644
--- a/mfs/multi_dims/moments.py
+++ b/mfs/multi_dims/moments.py
@@ -146,8 +146,8 @@ def raw_moments_mvn_kan(mean: Array, cov: Array, multi_index: Sequence[int]) ->
     signs = (-1) ** np.sum(vs, axis=1)
     combs = np.prod(scipy_comb(np.asarray(multi_index), vs), axis=1)
     quad_prods = (hs[:, None, :] @ cov @ hs[:, :, None] / 2).ravel() ** rs \
-                 * (hs @ mean) ** (s - 2 * rs) / (scipy_factorial(rs, exact=True) * scipy_factorial(s - 2 * rs,
-                                                                                                    exact=True))
+                 * (hs @ mean) ** (s - 2 * rs) / (scipy_factorial(rs, exact=True).astype('float64')
+                                               * scipy_factorial(s - 2 * rs, exact=True).astype('float64'))
     if isinstance(cov, np.ndarray):
         return np.einsum('i,i,i', signs, combs, quad_prods) * 1.
     else:
-- 
2.43.0


From b3a91194a13285c308266e319790bd2bb5fbbce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:39 +0000
Subject: [PATCH 06/22] fix: saddle point density uses the roots of the saddle
 point equation

The polynomial coefficients were taken for its roots.
---
 mfs/one_dim/pdf_approximations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 39d613e..16ec50f 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -183,7 +183,8 @@ def saddle_point(sms: JArray,
     @partial(jax.vmap, in_axes=[0])
     def pdf(x: JFloat) -> JFloat:
         saddle_equation_poly = jnp.polyadd((mean - x) * sms_poly, scale * jnp.polyder(sms_poly))
-        s = find_nearest_real_root(saddle_equation_poly, jnp.array([(x - mean) / scale ** 2])) / scale
+        roots = jnp.roots(saddle_equation_poly, strip_zeros=False)
+        s = find_nearest_real_root(roots, (x - mean) / scale) / scale
         return jnp.exp(cgf(s) - s * x) / jnp.sqrt(2 * math.pi * dd_cgf(s))
 
     return pdf
-- 
2.43.0


From dae5aa343f3a105d8c1632747a28129a99d5a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:39 +0000
Subject: [PATCH 07/22] fix: nd_cartesian_prod_2 returns the Cartesian product

The axes were reshaped instead of transposed, which mixed up the coordinates.
---
 mfs/multi_dims/quadratures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/multi_dims/quadratures.py b/mfs/multi_dims/quadratures.py
index 66e74ee..4ba1858 100644
--- a/mfs/multi_dims/quadratures.py
+++ b/mfs/multi_dims/quadratures.py
@@ -110,7 +110,7 @@ def nd_cartesian_prod_2(x: JArray) -> JArray:
     Not used. Used for comparison with a legacy implementation.
     """
     d = x.shape[0]
-    return jnp.array(jnp.meshgrid(*x)).reshape(-1, d)
+    return jnp.array(jnp.meshgrid(*x)).reshape(d, -1).T
 
 
 def _chained_inner_products(x: JArray):
-- 
2.43.0


From f875f8435542cd2637500ac703f5342da597d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:39 +0000
Subject: [PATCH 08/22] fix: resampling never selects a particle of zero weight

The uniforms are drawn from [0, 1), so that the inverse of the cumulative weights
must be right-continuous.
---
 mfs/classical_filters_smoothers/resampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/classical_filters_smoothers/resampling.py b/mfs/classical_filters_smoothers/resampling.py
index f2e4394..a416213 100644
--- a/mfs/classical_filters_smoothers/resampling.py
+++ b/mfs/classical_filters_smoothers/resampling.py
@@ -47,7 +47,7 @@ def _systematic_or_stratified(weights: JArray, key: JArray, is_systematic: bool)
     else:
         u = jax.random.uniform(key, (n,))
     idx = jnp.searchsorted(jnp.cumsum(weights),
-                           (jnp.arange(n, dtype=weights.dtype) + u) / n)
+                           (jnp.arange(n, dtype=weights.dtype) + u) / n, side='right')
     return jnp.clip(idx, 0, n - 1)
 
 
@@ -62,7 +62,7 @@ def stratified(weights: JArray, key: JArray) -> JArray:
 def multinomial(weights: JArray, key: JArray) -> JArray:
     n = weights.shape[0]
     idx = jnp.searchsorted(jnp.cumsum(weights),
-                           _sorted_uniforms(n, key))
+                           _sorted_uniforms(n, key), side='right')
     return jnp.clip(idx, 0, n - 1)
 
 
-- 
2.43.0


From 2b6c64350d8887c7d0e009c09917ec6ff0acc0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:39 +0000
Subject: [PATCH 09/22] fix: integer overflow in Gauss--Hermite of order 26 and
 above

---
 mfs/classical_filters_smoothers/quadratures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/classical_filters_smoothers/quadratures.py b/mfs/classical_filters_smoothers/quadratures.py
index 754f968..b70cb95 100644
--- a/mfs/classical_filters_smoothers/quadratures.py
+++ b/mfs/classical_filters_smoothers/quadratures.py
@@ -123,8 +123,8 @@ class SigmaPoints(NamedTuple):
         H : List
             The 0 to p-th order Hermite polynomial coefficients in a list.
         """
-        H0 = np.array([1])
-        H1 = np.array([2, 0])
+        H0 = np.array([1.])
+        H1 = np.array([2., 0.])
 
         H = [H0, H1]
 
-- 
2.43.0


From 9f7c726d4979016a3a894d3fa37bf563714daa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:01 +0000
Subject: [PATCH 10/22] fix: LDL completion of singular matrices

An exactly zero pivot, for instance from the moments of a distribution supported on
fewer points than quadrature nodes, gave NaN although completing such moment matrices
is the purpose of the routine.
---
 mfs/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 5fe9722..db1b079 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -513,13 +513,18 @@ def ldl(mat: JArray) -> Tuple[JArray, JArray]:
     not performant at all. The XLA team should implement LDL in the XLA level for the best performance.
     """
     n = mat.shape[0]
-    l = jnp.eye(n).at[1:, 0].set(mat[1:, 0] / mat[0, 0])
+
+    def safe_divide(x, pivot):
+        # A zero pivot of a positive semi-definite matrix comes with a zero column.
+        return jnp.where(pivot == 0., 0., x / jnp.where(pivot == 0., 1., pivot))
+
+    l = jnp.eye(n).at[1:, 0].set(safe_divide(mat[1:, 0], mat[0, 0]))
     d = jnp.ones((n,)) * mat[0, 0]
     for j in range(1, n):
         v = l[j, :j] * d[:j]
         _d = mat[j, j] - jnp.dot(l[j, :j], v)
         d = d.at[j].set(_d)
-        l = l.at[j + 1:, j].set((mat[j + 1:, j] - l[j + 1:, :j] @ v) / _d)
+        l = l.at[j + 1:, j].set(safe_divide(mat[j + 1:, j] - l[j + 1:, :j] @ v, _d))
     return l, d
 
 
@@ -535,4 +540,4 @@ def ldl_chol(mat: JArray, eps: float = None) -> JArray:
     if eps is None:
         eps = 1e-8 * jnp.linalg.norm(mat, 'fro')
     l, d = ldl(mat)
-    return jnp.einsum('ij,j->ij', l, jnp.where(d < 0, eps, jnp.sqrt(d)))
+    return jnp.einsum('ij,j->ij', l, jnp.where(d <= 0, eps, jnp.sqrt(jnp.where(d <= 0, 1., d))))
-- 
2.43.0


From fd31b7bbfd411cf00736270f75390cf47397ed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:01 +0000
Subject: [PATCH 11/22] fix: Legendre expansion on intervals other than [-1, 1]

The expansion coefficients are expectations of Legendre polynomials of the variable
mapped to [-1, 1], but they were evaluated with the moments of the unmapped variable.
---
 mfs/one_dim/pdf_approximations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 16ec50f..83bd024 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -114,6 +114,10 @@ def legendre_poly_expansion(rms: JArray, a: FloatScalar = -1., b: FloatScalar =
     """
     num_moments = rms.shape[0]
 
+    # Moments of (2 X - (a + b)) / (b - a), which lives in [-1, 1].
+    rms = [sum([math.comb(n, j) * (-(a + b)) ** (n - j) * 2 ** j * rms[j] for j in range(n + 1)]) / (b - a) ** n
+           for n in range(num_moments)]
+
     def poly(k: int, placeholder: Union[Sequence[FloatScalar], JArray]) -> FloatScalar:
         return sum([(-1) ** i * 2 ** (-k) * math.factorial(2 * k - 2 * i)
                     / (math.factorial(i) * math.factorial(k - i) * math.factorial(k - 2 * i))
-- 
2.43.0


From b275feed30cc2ca660076aba5b26b0c7bdcc166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:01 +0000
Subject: [PATCH 12/22] fix: predictive scale in the scaled central moment
 filters

The documented scale is the standard deviation of the predicted state, which by the law
of total variance is the expected conditional variance plus the variance of the
conditional mean. The second term was missing, so that the moments were not scaled to
unit variance, and were NaN for transitions of zero conditional variance.
---
 mfs/multi_dims/filtering.py | 2 +-
 mfs/one_dim/filtering.py    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mfs/multi_dims/filtering.py b/mfs/multi_dims/filtering.py
index e776f8b..5cff2f6 100644
--- a/mfs/multi_dims/filtering.py
+++ b/mfs/multi_dims/filtering.py
@@ -186,7 +186,7 @@ def moment_filter_nd_scms(state_cond_scms: Tuple[Callable[[JArray, JArray, JArra
         # TODO: cond_scale or cond_cov?
         cond_means, cond_vars = state_cond_mean_vars(nodes)
         mean = jnp.einsum('ij,i->j', cond_means, weights)
-        scale = jnp.sqrt(jnp.einsum('ij,i->j', cond_vars, weights))
+        scale = jnp.sqrt(jnp.einsum('ij,i->j', cond_vars + (cond_means - mean) ** 2, weights))
         scms = jnp.einsum('ij,i->j', state_cond_scms_fn(nodes, state_moments_indices, mean, scale), weights)
 
         # Update step
diff --git a/mfs/one_dim/filtering.py b/mfs/one_dim/filtering.py
index 3aac2c5..4a61b63 100644
--- a/mfs/one_dim/filtering.py
+++ b/mfs/one_dim/filtering.py
@@ -221,7 +221,8 @@ def moment_filter_scms(
         # Prediction step
         weights, nodes = moment_quadrature(scms, mean, scale, sort_nodes=False, ldl=stable)
         cond_means, cond_vars = state_cond_mean_var(nodes)
-        mean, scale = jnp.dot(cond_means, weights), jnp.sqrt(jnp.dot(cond_vars, weights))
+        mean = jnp.dot(cond_means, weights)
+        scale = jnp.sqrt(jnp.dot(cond_vars + (cond_means - mean) ** 2, weights))
         scms = jnp.einsum('ij,i->j', state_cond_scaled_central_moments(nodes, orders, mean, scale), weights)
 
         # Update step
-- 
2.43.0


From 0831de4a2b8829a615a7eeb2704b8c49cd4abefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:01 +0000
Subject: [PATCH 13/22] fix: TME conditional moments at the origin and at the
 mean

The second and higher derivatives of x ** n with a traced integer n are NaN at x = 0, so
that the TME raw (central) conditional moments were NaN at every state which equals zero
(the mean).
---
 mfs/multi_dims/moments.py |  7 ++++---
 mfs/one_dim/moments.py    |  8 ++++----
 mfs/utils.py              | 13 +++++++++++++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/mfs/multi_dims/moments.py b/mfs/multi_dims/moments.py
index e602e51..3b22923 100644
--- a/mfs/multi_dims/moments.py
+++ b/mfs/multi_dims/moments.py
@@ -26,6 +26,7 @@ from scipy.special import comb as scipy_comb
 from scipy.special import factorial as scipy_factorial
 from typing import Sequence, Callable, Tuple, Union
 from mfs.multi_dims.multi_indices import find_indices
+from mfs.utils import integer_power
 from functools import partial
 from mfs.typings import JArray, JFloat, Array, FloatScalar, JInt
 
@@ -446,7 +447,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0])
     def state_cond_raw_moments(x: JArray, multi_index: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod(_x ** multi_index)
+            return jnp.prod(integer_power(_x, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
@@ -454,7 +455,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0, None])
     def state_cond_central_moments(x: JArray, multi_index: JArray, mean: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod((_x - mean) ** multi_index)
+            return jnp.prod(integer_power(_x - mean, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
@@ -462,7 +463,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JArray, multi_index: JArray, mean: JArray, scale: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod(((_x - mean) / scale) ** multi_index)
+            return jnp.prod(integer_power((_x - mean) / scale, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index 267a1a8..5fbd29c 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -22,7 +22,7 @@ import jax.numpy as jnp
 import scipy.linalg
 import tme.base_jax as tme
 from mfs.one_dim.quadtures import moment_quadrature
-from mfs.utils import partial_bell
+from mfs.utils import integer_power, partial_bell
 from mfs.typings import JInt, IntScalar, JFloat, FloatScalar, JArray
 from functools import partial
 from typing import Callable, Tuple
@@ -146,7 +146,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0])
     def state_cond_raw_moments(x: JFloat, n: JInt) -> JFloat:
         def phi(u):
-            return u ** n
+            return integer_power(u, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
@@ -154,7 +154,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0, None])
     def state_cond_central_moments(x: JFloat, n: JInt, mean: FloatScalar) -> JFloat:
         def phi(u):
-            return (u - mean) ** n
+            return integer_power(u - mean, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
@@ -162,7 +162,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         def phi(u):
-            return ((u - mean) / scale) ** n
+            return integer_power((u - mean) / scale, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
diff --git a/mfs/utils.py b/mfs/utils.py
index db1b079..bd8b31e 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -36,6 +36,19 @@ def binom(n, k):
     return factorial(n) / (factorial(k) * factorial(n - k))
 
 
+@jax.custom_jvp
+def integer_power(x, n):
+    """x ** n for non-negative integers n, the derivatives of which (of any order) are valid at x = 0 too.
+    """
+    return x ** n
+
+
+@integer_power.defjvp
+def _integer_power_jvp(primals, tangents):
+    x, n = primals
+    return integer_power(x, n), n * integer_power(x, jnp.maximum(n - 1, 0)) * tangents[0]
+
+
 class GaussianSum1D(NamedTuple):
     """Unidimensional Gaussian-sum distribution.
     """
-- 
2.43.0


From b414293ded5dd03eb216b0e9832011e3e70c4fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:26 +0000
Subject: [PATCH 14/22] fix: independent random keys in the particle filters

The key given to the initial sampler was also split into the keys of the time steps, and
the key given to the transition (proposal) sampler was also split into the resampling key.
With a sampler that splits its key, for instance GaussianSum1D.sampler, and two
measurements, the initial and the first transition noises were identical.
---
 mfs/classical_filters_smoothers/smc.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mfs/classical_filters_smoothers/smc.py b/mfs/classical_filters_smoothers/smc.py
index a5ae85a..a353410 100644
--- a/mfs/classical_filters_smoothers/smc.py
+++ b/mfs/classical_filters_smoothers/smc.py
@@ -63,21 +63,22 @@ def bootstrap_filter(transition_sampler: Callable[[JArray, JArray], JArray],
         samples, nell = carry
         y, _key = elem
 
-        samples = transition_sampler(samples, _key)
+        key_transition, key_resampling = jax.random.split(_key)
+        samples = transition_sampler(samples, key_transition)
 
         weights = measurement_cond_pdf(y, samples)
         nell -= jnp.log(jnp.mean(weights))
         weights = weights / weights.sum()
 
-        _key, _ = jax.random.split(_key)
         if conti_resampling:
-            samples = continuous_resampling(samples, weights, nsamples, _key)
+            samples = continuous_resampling(samples, weights, nsamples, key_resampling)
         else:
-            samples = samples[resampling(weights, _key), ...]
+            samples = samples[resampling(weights, key_resampling), ...]
 
         return (samples, nell), samples
 
-    init_samples = init_sampler(key, nsamples)
+    key_init, key = jax.random.split(key)
+    init_samples = init_sampler(key_init, nsamples)
     keys = jax.random.split(key, num=ys.shape[0])
 
     (*_, nell_ys), solution_samples = jax.lax.scan(scan_body, (init_samples, 0.), (ys, keys))
@@ -127,15 +128,16 @@ def particle_filter(proposal_sampler: Callable[[JArray, JArray, JArray], JArray]
         ancestors = carry
         y, _key = elem
 
-        samples = proposal_sampler(ancestors, y, _key)
+        key_proposal, key_resampling = jax.random.split(_key)
+        samples = proposal_sampler(ancestors, y, key_proposal)
         weights = measurement_cond_pdf(y, samples) * transition_density(samples, ancestors) \
                   / proposal_density(samples, ancestors, y)
         weights = weights / weights.sum()
 
-        _key, _ = jax.random.split(_key)
-        samples = samples[resampling(weights, _key), ...]
+        samples = samples[resampling(weights, key_resampling), ...]
         return samples, samples
 
-    init_samples = init_sampler(key, nsamples)
+    key_init, key = jax.random.split(key)
+    init_samples = init_sampler(key_init, nsamples)
     keys = jax.random.split(key, num=ys.shape[0])
     return jax.lax.scan(scan_body, init_samples, (ys, keys))[1]
-- 
2.43.0


From 175f346aecb11fb902fc60628e01a1874809e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:07 +0000
Subject: [PATCH 15/22] fix: resampling never selects a zero-weight particle
 when rounding exhausts the weights

---
 mfs/classical_filters_smoothers/resampling.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mfs/classical_filters_smoothers/resampling.py b/mfs/classical_filters_smoothers/resampling.py
index a416213..1fab6ee 100644
--- a/mfs/classical_filters_smoothers/resampling.py
+++ b/mfs/classical_filters_smoothers/resampling.py
@@ -40,6 +40,12 @@ def _sorted_uniforms(n, key: JArray) -> JArray:
     return z[:-1] / z[-1]
 
 
+def _clip_to_positive(idx: JArray, weights: JArray) -> JArray:
+    # Rounding can put a sorted uniform at or above the last cumulative weight: clip to the last particle of positive weight
+    last = weights.shape[0] - 1 - jnp.argmax(weights[::-1] > 0)
+    return jnp.clip(idx, 0, last)
+
+
 def _systematic_or_stratified(weights: JArray, key: JArray, is_systematic: bool) -> JArray:
     n = weights.shape[0]
     if is_systematic:
@@ -48,7 +54,7 @@ def _systematic_or_stratified(weights: JArray, key: JArray, is_systematic: bool)
         u = jax.random.uniform(key, (n,))
     idx = jnp.searchsorted(jnp.cumsum(weights),
                            (jnp.arange(n, dtype=weights.dtype) + u) / n, side='right')
-    return jnp.clip(idx, 0, n - 1)
+    return _clip_to_positive(idx, weights)
 
 
 def systematic(weights: JArray, key: JArray) -> JArray:
@@ -63,7 +69,7 @@ def multinomial(weights: JArray, key: JArray) -> JArray:
     n = weights.shape[0]
     idx = jnp.searchsorted(jnp.cumsum(weights),
                            _sorted_uniforms(n, key), side='right')
-    return jnp.clip(idx, 0, n - 1)
+    return _clip_to_positive(idx, weights)
 
 
 def _avg_n_nplusone(x):
-- 
2.43.0


From 91dd8614dc8bbfd70e5fb573f03f08389a8366c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:51 +0000
Subject: [PATCH 16/22] fix: finite sorted uniforms in multinomial resampling
 when a uniform is zero

---
 mfs/classical_filters_smoothers/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/resampling.py b/mfs/classical_filters_smoothers/resampling.py
index 1fab6ee..130b691 100644
--- a/mfs/classical_filters_smoothers/resampling.py
+++ b/mfs/classical_filters_smoothers/resampling.py
@@ -36,7 +36,7 @@ from mfs.typings import JArray
 def _sorted_uniforms(n, key: JArray) -> JArray:
     # Credit goes to Nicolas Chopin
     us = jax.random.uniform(key, (n + 1,))
-    z = jnp.cumsum(-jnp.log(us))
+    z = jnp.cumsum(-jnp.log1p(-us))  # us is in [0, 1), so that log(us) may be infinite
     return z[:-1] / z[-1]
 
 
-- 
2.43.0


From 9e3ae8b2cf99b897755bbb54ddd09f7442c24805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:29 +0000
Subject: [PATCH 17/22] fix: integration_steps argument of the prey-predator
 simulator

---
 mfs/multi_dims/ss_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mfs/multi_dims/ss_models.py b/mfs/multi_dims/ss_models.py
index ad58958..06ca25c 100644
--- a/mfs/multi_dims/ss_models.py
+++ b/mfs/multi_dims/ss_models.py
@@ -22,6 +22,7 @@ import jax.numpy as jnp
 import numpy as np
 from mfs.utils import GaussianSumND
 from mfs.typings import FloatScalar, JArray, JFloat
+from functools import partial
 from typing import Callable, Union, Tuple, NamedTuple
 
 
@@ -66,7 +67,7 @@ def prey_predator(multi_indices):
     def measurement_cond_pmf(y, x):
         return jax.scipy.stats.bernoulli.pmf(y, emission(x[0]))
 
-    @jax.jit
+    @partial(jax.jit, static_argnames=('integration_steps',))
     def simulate(key, integration_steps: int = 100):
         key_x0, key_ws, key_ys = jax.random.split(key, 3)
 
-- 
2.43.0


From f3a17ad1240cb020646d793a06dec49a876536df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:02 +0000
Subject: [PATCH 18/22] fix: moment conversions for vectors of 35 or more
 moments

---
 mfs/one_dim/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index 5fbd29c..4eb7b16 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -80,7 +80,7 @@ def _make_pascal_triangle(s: int) -> JArray:
     -----
     pascal() is not a JAX function, hence, cannot be jitted.
     """
-    return jnp.asarray(scipy.linalg.pascal(s, kind='lower', exact=True))
+    return jnp.asarray(scipy.linalg.pascal(s, kind='lower', exact=True).astype('float64'))
 
 
 def raw_to_central(rms: JArray) -> JArray:
-- 
2.43.0


From 6ffa372a1e6c5235eb465ef547fea001964cefb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:18 +0000
Subject: [PATCH 19/22] fix: covariance of discretised linear SDEs with large
 dispersions

---
 mfs/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index bd8b31e..0cadfe1 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -174,9 +174,13 @@ def discretise_lti_sde(A: JArray, B: JArray, dt: float) -> Tuple[JArray, JArray]
     d = A.shape[0]
 
     F = jax.scipy.linalg.expm(A * dt)
-    phi = jnp.vstack([jnp.hstack([A, B @ B.T]), jnp.hstack([jnp.zeros_like(A), -A.T])])
+    # The covariance is linear in B B^T. Normalise, as expm gives NaN when the norm of its argument is large.
+    BBT = B @ B.T
+    scale = jax.lax.stop_gradient(jnp.max(jnp.abs(BBT)))
+    scale = jnp.where(scale > 0., scale, 1.)
+    phi = jnp.vstack([jnp.hstack([A, BBT / scale]), jnp.hstack([jnp.zeros_like(A), -A.T])])
     AB = jax.scipy.linalg.expm(phi * dt) @ jnp.vstack([jnp.zeros_like(A), jnp.eye(d)])
-    cov = AB[0:d, :] @ F.T
+    cov = scale * (AB[0:d, :] @ F.T)
     return F, cov
 
 
-- 
2.43.0


From 115471decb3c5f74058f2878fe48250f4336fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:05 +0000
Subject: [PATCH 20/22] fix: Kalman update keeps the covariance symmetric over
 long histories

---
 mfs/classical_filters_smoothers/gfs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 45f68a8..0d50779 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -77,7 +77,9 @@ def _linear_update(mp: JArray, vp: JArray,
         chol = jax.lax.linalg.cholesky(S)
         K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T
         n_ell = -_log_mvn_pdf(y, pred_y, chol)
-    return mp + K @ (y - pred_y), vp - K @ S @ K.T, n_ell
+    vf = vp - K @ S @ K.T
+    # Rounding errors in the antisymmetric part are not contracted by the update, and grow if F is not stable.
+    return mp + K @ (y - pred_y), 0.5 * (vf + vf.T), n_ell
 
 
 def _gaussian_smoother_shared(DT: JArray,
-- 
2.43.0


From f84dc9a5d919195df2a4a98ebd61660d8ce78bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:11 +0000
Subject: [PATCH 21/22] fix: sigma-point covariances far from the origin

---
 mfs/classical_filters_smoothers/gfs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 0d50779..e37fbda 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -133,7 +133,7 @@ def _sgp_prediction(sgps: SigmaPoints,
 
     evals_of_m, evals_of_cov = vectorised_state_cond_m_cov(chi, dt)
     mp = sgps.expectation(evals_of_m)
-    vp = sgps.expectation(_vectorised_outer(evals_of_m, evals_of_m) + evals_of_cov) - jnp.outer(mp, mp)
+    vp = sgps.expectation(_vectorised_outer(evals_of_m - mp, evals_of_m - mp) + evals_of_cov)
     return mp, vp, chi, evals_of_m
 
 
@@ -175,10 +175,10 @@ def _sgp_update(sgps: SigmaPoints,
     evals_m, evals_Xi = vectorised_measurement_cond_m_cov(chi)
     pred = sgps.expectation(evals_m)
     if const_measurement_cov:
-        S = sgps.expectation(_vectorised_outer(evals_m, evals_m)) - jnp.outer(pred, pred) + evals_Xi[0]
+        S = sgps.expectation(_vectorised_outer(evals_m - pred, evals_m - pred)) + evals_Xi[0]
     else:
-        S = sgps.expectation(_vectorised_outer(evals_m, evals_m) + evals_Xi) - jnp.outer(pred, pred)
-    C = sgps.expectation(_vectorised_outer(chi, evals_m)) - jnp.outer(mp, sgps.expectation(evals_m))
+        S = sgps.expectation(_vectorised_outer(evals_m - pred, evals_m - pred) + evals_Xi)
+    C = sgps.expectation(_vectorised_outer(chi - mp, evals_m - pred))
 
     chol = jax.lax.linalg.cholesky(S)
     K = jax.scipy.linalg.cho_solve((chol, True), C.T).T
@@ -586,7 +586,7 @@ def sgp_smoother(state_cond_m_cov: Callable[[JArray, FloatScalar], Tuple[JArray,
         mf, vf = elem
 
         mp, vp, chi, evals_of_m = _sgp_prediction(sgps, vectorised_cond_m_cov, dt, mf, vf)
-        D = sgps.expectation(_vectorised_outer(chi, evals_of_m)) - jnp.outer(mf, mp)
+        D = sgps.expectation(_vectorised_outer(chi - mf, evals_of_m - mp))
 
         ms, vs = _gaussian_smoother_shared(D.T, mf, vf, mp, vp, ms, vs)
         return (ms, vs), (ms, vs)
-- 
2.43.0


From 1f79965efdf21ddcd5c3fd953e54159e2f81c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:11 +0000
Subject: [PATCH 22/22] fix: covariance of Gaussian sums far from the origin

---
 mfs/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 0cadfe1..a44e49d 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -124,9 +124,8 @@ class GaussianSumND(NamedTuple):
         d = means.shape[1]
 
         centre = jnp.sum(means * weights[:, None], axis=0)
-        cov = sum(
-            [weight * (cov + jnp.outer(mean, mean)) for mean, cov, weight in zip(means, covs, weights)]) - jnp.outer(
-            centre, centre)
+        cov = sum([weight * (cov + jnp.outer(mean - centre, mean - centre)) for mean, cov, weight in
+                   zip(means, covs, weights)])
         l = [np.vectorize(raw_moments_mvn_kan, signature='(d),(d,d),(d)->()')(mean, cov, multi_indices) * weight for
              mean, cov, weight in zip(means, covs, weights)]
         rms = jnp.sum(jnp.vstack(l), axis=0)
-- 
2.43.0

