From 78af28b1b500e28573cb909f328888a84648b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:58 +0000
Subject: [PATCH 01/16] fix: whiten the innovation with the lower Cholesky
 factor in _log_mvn_pdf

triangular_solve defaults to left_side=False, lower=False, so for measurements of
dimension > 1 only the diagonal of the factor was used and the reported negative
log-likelihood was wrong whenever the innovation covariance was not diagonal.
---
 mfs/classical_filters_smoothers/gfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 5b3d1e9..079dc0f 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -47,7 +47,7 @@ def _log_normal_pdf(x: FloatScalar, mu: FloatScalar, variance: FloatScalar) -> F
 
 
 def _log_mvn_pdf(x: JArray, mu: JArray, chol: JArray) -> JFloat:
-    z = jax.lax.linalg.triangular_solve(chol, x - mu)
+    z = jax.lax.linalg.triangular_solve(chol, x - mu, left_side=True, lower=True)
     return -0.5 * (jnp.dot(z, z) + 2 * jnp.sum(jnp.log(math.sqrt(2 * math.pi) * jnp.diagonal(chol))))
 
 
-- 
2.43.0


From 5b9f205532d8878fa6b572fd6411b43b5b5133b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:58 +0000
Subject: [PATCH 02/16] fix: Kalman gain for measurements of dimension > 1

The gain must solve with S, not with (the transpose of the strictly diagonal part
of) its Cholesky factor; the old code raised a shape error or returned NaN for dy > 1.
---
 mfs/classical_filters_smoothers/gfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 079dc0f..6f181cc 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -75,7 +75,7 @@ def _linear_update(mp: JArray, vp: JArray,
         n_ell = jnp.squeeze(-_log_normal_pdf(y, pred_y, S))
     else:
         chol = jax.lax.linalg.cholesky(S)
-        K = jax.lax.linalg.triangular_solve(chol, H @ vp).T
+        K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T
         n_ell = -_log_mvn_pdf(y, pred_y, chol)
     return mp + K @ (y - pred_y), vp - K @ S @ K.T, n_ell
 
-- 
2.43.0


From c0dcbee637666f193199f4a6d97ed4ef3ebc3f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:58 +0000
Subject: [PATCH 03/16] fix: scale the n-th 1D conditional moment by scale ** n

The Euler and TME-Normal scaled central moments divided every order by the product
of all powers of the scale.
---
 mfs/one_dim/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index bd3aed3..4daa29d 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -202,7 +202,7 @@ def sde_cond_moments_tme_normal(drift: Callable, dispersion: Callable, dt: Float
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = tme.mean_and_cov(jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order)
-        s = jnp.prod(scale ** jnp.arange(num_moments))
+        s = scale ** n
         return jnp.array([raw_moment_of_normal(jnp.squeeze(cond_mean) - mean, jnp.squeeze(cond_var), p)
                           for p in range(num_moments)])[n] / s
 
@@ -240,7 +240,7 @@ def sde_cond_moments_euler(drift: Callable, dispersion: Callable, dt: FloatScala
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = x + drift(x) * dt, dispersion(x) ** 2 * dt
-        s = jnp.prod(scale ** jnp.arange(num_moments))
+        s = scale ** n
         return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p) for p in range(num_moments)])[n] / s
 
     @partial(jax.vmap, in_axes=[0])
-- 
2.43.0


From 63980f67f1d5df7eb643129166e874666b763056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:58 +0000
Subject: [PATCH 04/16] fix: Legendre expansion on intervals other than [-1, 1]

The basis coefficients are expectations of Legendre polynomials of the variable mapped
to [-1, 1], but they were evaluated with the moments of the unmapped variable.
---
 mfs/one_dim/pdf_approximations.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 39d613e..f58116a 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -114,6 +114,10 @@ def legendre_poly_expansion(rms: JArray, a: FloatScalar = -1., b: FloatScalar =
     """
     num_moments = rms.shape[0]
 
+    # Moments of the variable (2 X - (a + b)) / (b - a) which lives in [-1, 1].
+    unit_rms = jnp.array([sum([math.comb(n, k) * (2 / (b - a)) ** k * (-(a + b) / (b - a)) ** (n - k) * rms[k]
+                               for k in range(n + 1)]) for n in range(num_moments)])
+
     def poly(k: int, placeholder: Union[Sequence[FloatScalar], JArray]) -> FloatScalar:
         return sum([(-1) ** i * 2 ** (-k) * math.factorial(2 * k - 2 * i)
                     / (math.factorial(i) * math.factorial(k - i) * math.factorial(k - 2 * i))
@@ -124,7 +128,7 @@ def legendre_poly_expansion(rms: JArray, a: FloatScalar = -1., b: FloatScalar =
         return poly(k, jnp.array([x ** i for i in range(k + 1)]))
 
     def basis_coeff(k: int) -> FloatScalar:
-        return (2 * k + 1) / 2 * poly(k, rms)
+        return (2 * k + 1) / 2 * poly(k, unit_rms)
 
     @partial(jax.vmap, in_axes=[0])
     def pdf(x):
-- 
2.43.0


From 69290887de50356ae932e7f267cabcdf06da48d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:58 +0000
Subject: [PATCH 05/16] fix: solve the saddle point equation

The coefficients of the saddle equation polynomial were used in place of its roots, and
the starting point was not expressed in the scaled variable of that polynomial.
---
 mfs/one_dim/pdf_approximations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index f58116a..e0b146e 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -187,7 +187,8 @@ def saddle_point(sms: JArray,
     @partial(jax.vmap, in_axes=[0])
     def pdf(x: JFloat) -> JFloat:
         saddle_equation_poly = jnp.polyadd((mean - x) * sms_poly, scale * jnp.polyder(sms_poly))
-        s = find_nearest_real_root(saddle_equation_poly, jnp.array([(x - mean) / scale ** 2])) / scale
+        roots = jnp.roots(saddle_equation_poly, strip_zeros=False)
+        s = find_nearest_real_root(roots, (x - mean) / scale) / scale
         return jnp.exp(cgf(s) - s * x) / jnp.sqrt(2 * math.pi * dd_cgf(s))
 
     return pdf
-- 
2.43.0


From 88da10ba6763fcce8b6230e1aa2da863e9c18a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:21 +0000
Subject: [PATCH 06/16] fix: raw_moments_mvn_kan for total orders above 20

Exact factorials above 20! come back as an object array, which JAX rejects.
---
 mfs/multi_dims/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/multi_dims/moments.py b/mfs/multi_dims/moments.py
index 295f942..a8c100d 100644
--- a/mfs/multi_dims/moments.py
+++ b/mfs/multi_dims/moments.py
@@ -146,8 +146,8 @@ def raw_moments_mvn_kan(mean: Array, cov: Array, multi_index: Sequence[int]) ->
     signs = (-1) ** np.sum(vs, axis=1)
     combs = np.prod(scipy_comb(np.asarray(multi_index), vs), axis=1)
     quad_prods = (hs[:, None, :] @ cov @ hs[:, :, None] / 2).ravel() ** rs \
-                 * (hs @ mean) ** (s - 2 * rs) / (scipy_factorial(rs, exact=True) * scipy_factorial(s - 2 * rs,
-                                                                                                    exact=True))
+                 * (hs @ mean) ** (s - 2 * rs) / np.asarray(scipy_factorial(rs, exact=True)
+                                                            * scipy_factorial(s - 2 * rs, exact=True), dtype='float64')
     if isinstance(cov, np.ndarray):
         return np.einsum('i,i,i', signs, combs, quad_prods) * 1.
     else:
-- 
2.43.0


From 607df2fbb497244f3aac34d56721e0bc9d492c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:21 +0000
Subject: [PATCH 07/16] fix: nd_cartesian_prod_2 returns the Cartesian product

Reshaping (d, n, ..., n) directly to (-1, d) mixes the coordinates.
---
 mfs/multi_dims/quadratures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/multi_dims/quadratures.py b/mfs/multi_dims/quadratures.py
index 66e74ee..4ba1858 100644
--- a/mfs/multi_dims/quadratures.py
+++ b/mfs/multi_dims/quadratures.py
@@ -110,7 +110,7 @@ def nd_cartesian_prod_2(x: JArray) -> JArray:
     Not used. Used for comparison with a legacy implementation.
     """
     d = x.shape[0]
-    return jnp.array(jnp.meshgrid(*x)).reshape(-1, d)
+    return jnp.array(jnp.meshgrid(*x)).reshape(d, -1).T
 
 
 def _chained_inner_products(x: JArray):
-- 
2.43.0


From 676a9503bd7ed2f7054426deaa0662ae237ff506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:32 +0000
Subject: [PATCH 08/16] fix: zeroth central moment of a Normal is one

scipy.special.factorial2(-1, exact=True) is 0, so central_moment_of_normal(v, 0) returned 0.
---
 mfs/one_dim/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index 4daa29d..eec6c67 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -33,7 +33,7 @@ def central_moment_of_normal(variance: FloatScalar, p: int) -> FloatScalar:
     """
     if p % 2 == 0:
         scale = jnp.sqrt(variance)
-        return scale ** p * scipy.special.factorial2(p - 1, exact=True)
+        return scale ** p * math.prod(range(p - 1, 0, -2))
     else:
         return 0.
 
-- 
2.43.0


From 48fc191dbc9e08ce41f23d9f769fabb33df093ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:02 +0000
Subject: [PATCH 09/16] fix: Gauss-Hermite coefficients overflow int64 from
 order 26 on

---
 mfs/classical_filters_smoothers/quadratures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/classical_filters_smoothers/quadratures.py b/mfs/classical_filters_smoothers/quadratures.py
index 754f968..b70cb95 100644
--- a/mfs/classical_filters_smoothers/quadratures.py
+++ b/mfs/classical_filters_smoothers/quadratures.py
@@ -123,8 +123,8 @@ class SigmaPoints(NamedTuple):
         H : List
             The 0 to p-th order Hermite polynomial coefficients in a list.
         """
-        H0 = np.array([1])
-        H1 = np.array([2, 0])
+        H0 = np.array([1.])
+        H1 = np.array([2., 0.])
 
         H = [H0, H1]
 
-- 
2.43.0


From 646213529c511fa418310cbeeaca28c113cc725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:24 +0000
Subject: [PATCH 10/16] fix: plain TME conditional moments at a state that
 equals the centre

Higher derivatives of x ** n with a traced integer n are NaN at x = 0, hence the raw (central)
conditional moments were NaN at a zero state (at the centre).
---
 mfs/multi_dims/moments.py |  7 ++++---
 mfs/one_dim/moments.py    | 19 ++++++++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/mfs/multi_dims/moments.py b/mfs/multi_dims/moments.py
index a8c100d..a9897b0 100644
--- a/mfs/multi_dims/moments.py
+++ b/mfs/multi_dims/moments.py
@@ -26,6 +26,7 @@ from scipy.special import comb as scipy_comb
 from scipy.special import factorial as scipy_factorial
 from typing import Sequence, Callable, Tuple, Union
 from mfs.multi_dims.multi_indices import find_indices
+from mfs.one_dim.moments import power
 from functools import partial
 from mfs.typings import JArray, JFloat, Array, FloatScalar, JInt
 
@@ -446,7 +447,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0])
     def state_cond_raw_moments(x: JArray, multi_index: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod(_x ** multi_index)
+            return jnp.prod(power(_x, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
@@ -454,7 +455,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0, None])
     def state_cond_central_moments(x: JArray, multi_index: JArray, mean: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod((_x - mean) ** multi_index)
+            return jnp.prod(power(_x - mean, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
@@ -462,7 +463,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JArray, multi_index: JArray, mean: JArray, scale: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod(((_x - mean) / scale) ** multi_index)
+            return jnp.prod(power((_x - mean) / scale, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index eec6c67..ffb89b0 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -138,6 +138,19 @@ def scaled_to_central(sms: JArray, scale: FloatScalar) -> JArray:
     return sms * jnp.array([scale ** n for n in range(sms.shape[0])])
 
 
+@jax.custom_jvp
+def power(x: JArray, n: JInt) -> JArray:
+    """`x ** n` for non-negative integer `n`, with derivatives of any order that are well-defined also at `x = 0`.
+    """
+    return x ** n
+
+
+@power.defjvp
+def _power_jvp(primals, tangents):
+    x, n = primals
+    return power(x, n), n * power(x, jnp.maximum(n - 1, 0)) * tangents[0]
+
+
 def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar, tme_order: int):
     """Create conditional moments based on TME expansion.
     """
@@ -146,7 +159,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0])
     def state_cond_raw_moments(x: JFloat, n: JInt) -> JFloat:
         def phi(u):
-            return u ** n
+            return power(u, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
@@ -154,7 +167,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0, None])
     def state_cond_central_moments(x: JFloat, n: JInt, mean: FloatScalar) -> JFloat:
         def phi(u):
-            return (u - mean) ** n
+            return power(u - mean, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
@@ -162,7 +175,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         def phi(u):
-            return ((u - mean) / scale) ** n
+            return power((u - mean) / scale, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
-- 
2.43.0


From 0ae392b928cfb20f5062e078773c03a86ac128eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:27 +0000
Subject: [PATCH 11/16] fix: prey-predator simulator with a given number of
 integration steps

The number of steps decides a shape, but was traced by jit, so that passing it raised an error.
---
 mfs/multi_dims/ss_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mfs/multi_dims/ss_models.py b/mfs/multi_dims/ss_models.py
index ad58958..f24dfc3 100644
--- a/mfs/multi_dims/ss_models.py
+++ b/mfs/multi_dims/ss_models.py
@@ -22,6 +22,7 @@ import jax.numpy as jnp
 import numpy as np
 from mfs.utils import GaussianSumND
 from mfs.typings import FloatScalar, JArray, JFloat
+from functools import partial
 from typing import Callable, Union, Tuple, NamedTuple
 
 
@@ -66,7 +67,7 @@ def prey_predator(multi_indices):
     def measurement_cond_pmf(y, x):
         return jax.scipy.stats.bernoulli.pmf(y, emission(x[0]))
 
-    @jax.jit
+    @partial(jax.jit, static_argnums=(1,))
     def simulate(key, integration_steps: int = 100):
         key_x0, key_ws, key_ys = jax.random.split(key, 3)
 
-- 
2.43.0


From 018c950c124b1b1e0f42aa0e482690c1224fc6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:33 +0000
Subject: [PATCH 12/16] fix: conversions of 35 or more one-dimensional moments
 raised an error (Pascal triangle of Python integers)

---
 mfs/one_dim/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index ffb89b0..8c5980c 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -80,7 +80,7 @@ def _make_pascal_triangle(s: int) -> JArray:
     -----
     pascal() is not a JAX function, hence, cannot be jitted.
     """
-    return jnp.asarray(scipy.linalg.pascal(s, kind='lower', exact=True))
+    return jnp.asarray(scipy.linalg.pascal(s, kind='lower', exact=True).astype('float64'))
 
 
 def raw_to_central(rms: JArray) -> JArray:
-- 
2.43.0


From 3a0bc16c76505ecbec97853aa88e18ff316f353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:50 +0000
Subject: [PATCH 13/16] fix: variance and scaled moments of GaussianSum1D for N
 = 1

---
 mfs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 9a4b8da..5fe9722 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -67,7 +67,7 @@ class GaussianSum1D(NamedTuple):
                               zip(means, variances, weights)]) for p in range(2 * N)])
         cms = jnp.array([sum([raw_moment_of_normal(mean - centre, variance, p) * weight for mean, variance, weight in
                               zip(means, variances, weights)]) for p in range(2 * N)])
-        variance = cms[2]
+        variance = jnp.sum(weights * (variances + (means - centre) ** 2))
         scms = cms / jnp.sqrt(variance) ** jnp.arange(2 * N)
         return cls(means=means, variances=variances, weights=weights,
                    mean=centre, variance=variance,
-- 
2.43.0


From ff6a0ce0dbaf94fb8f94df43d49f1d7dd8ddd841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:55 +0000
Subject: [PATCH 14/16] fix: derivative of the zeroth central moment of a
 multivariate Normal

---
 mfs/multi_dims/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/multi_dims/moments.py b/mfs/multi_dims/moments.py
index a9897b0..828d8f9 100644
--- a/mfs/multi_dims/moments.py
+++ b/mfs/multi_dims/moments.py
@@ -98,7 +98,7 @@ def central_moments_mvn_kan(cov: Array, multi_index: Sequence[int]) -> FloatScal
 
     signs = (-1) ** np.sum(vs, axis=1)
     combs = np.prod(scipy_comb(np.asarray(multi_index), vs), axis=1)
-    quad_prods = (hs[:, None, :] @ cov @ hs[:, :, None] / 2).reshape((vs.shape[0],)) ** (s / 2)
+    quad_prods = (hs[:, None, :] @ cov @ hs[:, :, None] / 2).reshape((vs.shape[0],)) ** int(s // 2)
 
     if s % 2 == 0:
         if isinstance(cov, np.ndarray):
-- 
2.43.0


From 8af160a0f32a174e22be5837d8b903cdd0ae106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:55 +0000
Subject: [PATCH 15/16] fix: derivative of ldl_chol when a pivot is negative

---
 mfs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 5fe9722..0ea4dd2 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -535,4 +535,4 @@ def ldl_chol(mat: JArray, eps: float = None) -> JArray:
     if eps is None:
         eps = 1e-8 * jnp.linalg.norm(mat, 'fro')
     l, d = ldl(mat)
-    return jnp.einsum('ij,j->ij', l, jnp.where(d < 0, eps, jnp.sqrt(d)))
+    return jnp.einsum('ij,j->ij', l, jnp.where(d < 0, eps, jnp.sqrt(jnp.where(d < 0, 1., d))))
-- 
2.43.0


From ab523b2f8889542243500186b0fce62d166cfcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:55 +0000
Subject: [PATCH 16/16] fix: derivative of simulated paths with diagonal
 covariances

---
 mfs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 0ea4dd2..d4edaf1 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -233,7 +233,7 @@ def simulate_sde(m_and_cov: Callable[[JArray, FloatScalar], Tuple[JArray, JArray
         m, cov = m_and_cov(x, ddt)
 
         if diagonal_cov:
-            x = m + jnp.sqrt(cov) @ normal_inc
+            x = m + jnp.sqrt(jnp.diagonal(cov)) * normal_inc
         else:
             x = m + jax.lax.linalg.cholesky(cov) @ normal_inc
         return x, None
-- 
2.43.0

