From 27bb638e35eddebca72cfd26f49141e33806feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:35 +0000
Subject: [PATCH 01/12] fix: Gaussian filter update for multidimensional
 measurements (Kalman gain and log-likelihood)

---
 mfs/classical_filters_smoothers/gfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 5b3d1e9..6f181cc 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -47,7 +47,7 @@ def _log_normal_pdf(x: FloatScalar, mu: FloatScalar, variance: FloatScalar) -> F
 
 
 def _log_mvn_pdf(x: JArray, mu: JArray, chol: JArray) -> JFloat:
-    z = jax.lax.linalg.triangular_solve(chol, x - mu)
+    z = jax.lax.linalg.triangular_solve(chol, x - mu, left_side=True, lower=True)
     return -0.5 * (jnp.dot(z, z) + 2 * jnp.sum(jnp.log(math.sqrt(2 * math.pi) * jnp.diagonal(chol))))
 
 
@@ -75,7 +75,7 @@ def _linear_update(mp: JArray, vp: JArray,
         n_ell = jnp.squeeze(-_log_normal_pdf(y, pred_y, S))
     else:
         chol = jax.lax.linalg.cholesky(S)
-        K = jax.lax.linalg.triangular_solve(chol, H @ vp).T
+        K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T
         n_ell = -_log_mvn_pdf(y, pred_y, chol)
     return mp + K @ (y - pred_y), vp - K @ S @ K.T, n_ell
 
-- 
2.43.0


From bc0b08b3eb75778884baac4fc11f292bee871853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:35 +0000
Subject: [PATCH 02/12] fix: scale the n-th conditional scaled central moment
 by scale ** n

---
 mfs/one_dim/moments.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index bd3aed3..ca1d041 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -202,9 +202,8 @@ def sde_cond_moments_tme_normal(drift: Callable, dispersion: Callable, dt: Float
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = tme.mean_and_cov(jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order)
-        s = jnp.prod(scale ** jnp.arange(num_moments))
         return jnp.array([raw_moment_of_normal(jnp.squeeze(cond_mean) - mean, jnp.squeeze(cond_var), p)
-                          for p in range(num_moments)])[n] / s
+                          for p in range(num_moments)])[n] / scale ** n
 
     @partial(jax.vmap, in_axes=[0])
     def state_cond_mean(x: JFloat) -> JFloat:
@@ -240,8 +239,7 @@ def sde_cond_moments_euler(drift: Callable, dispersion: Callable, dt: FloatScala
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = x + drift(x) * dt, dispersion(x) ** 2 * dt
-        s = jnp.prod(scale ** jnp.arange(num_moments))
-        return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p) for p in range(num_moments)])[n] / s
+        return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p) for p in range(num_moments)])[n] / scale ** n
 
     @partial(jax.vmap, in_axes=[0])
     def state_cond_mean(x: JFloat) -> JFloat:
-- 
2.43.0


From b203aa76d3e4284b674bd1676d4f62b8a67d4029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:35 +0000
Subject: [PATCH 03/12] fix: the zeroth central moment of a Normal is one

---
 mfs/one_dim/moments.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index ca1d041..dc60070 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -31,7 +31,9 @@ from typing import Callable, Tuple
 def central_moment_of_normal(variance: FloatScalar, p: int) -> FloatScalar:
     """p-th central moment of Normal.
     """
-    if p % 2 == 0:
+    if p == 0:
+        return 1.
+    elif p % 2 == 0:
         scale = jnp.sqrt(variance)
         return scale ** p * scipy.special.factorial2(p - 1, exact=True)
     else:
-- 
2.43.0


From 5ea8b506743e0d38ee231e2eb71ffec01771c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:35 +0000
Subject: [PATCH 04/12] fix: saddle_point selects the saddle among the roots of
 the saddle equation

---
 mfs/one_dim/pdf_approximations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 39d613e..16ec50f 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -183,7 +183,8 @@ def saddle_point(sms: JArray,
     @partial(jax.vmap, in_axes=[0])
     def pdf(x: JFloat) -> JFloat:
         saddle_equation_poly = jnp.polyadd((mean - x) * sms_poly, scale * jnp.polyder(sms_poly))
-        s = find_nearest_real_root(saddle_equation_poly, jnp.array([(x - mean) / scale ** 2])) / scale
+        roots = jnp.roots(saddle_equation_poly, strip_zeros=False)
+        s = find_nearest_real_root(roots, (x - mean) / scale) / scale
         return jnp.exp(cgf(s) - s * x) / jnp.sqrt(2 * math.pi * dd_cgf(s))
 
     return pdf
-- 
2.43.0


From c0023ba5544384028fd3469870f41d23eb7b1981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:35 +0000
Subject: [PATCH 05/12] fix: legendre_poly_expansion maps the moments to the
 reference interval

---
 mfs/one_dim/pdf_approximations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 16ec50f..1e414e2 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -114,6 +114,11 @@ def legendre_poly_expansion(rms: JArray, a: FloatScalar = -1., b: FloatScalar =
     """
     num_moments = rms.shape[0]
 
+    # Moments of (2 X - (a + b)) / (b - a), which takes values in [-1, 1]
+    ums = jnp.array([sum([math.comb(k, j) * (2 / (b - a)) ** j * (-(a + b) / (b - a)) ** (k - j) * rms[j]
+                          for j in range(k + 1)])
+                     for k in range(num_moments)])
+
     def poly(k: int, placeholder: Union[Sequence[FloatScalar], JArray]) -> FloatScalar:
         return sum([(-1) ** i * 2 ** (-k) * math.factorial(2 * k - 2 * i)
                     / (math.factorial(i) * math.factorial(k - i) * math.factorial(k - 2 * i))
@@ -124,7 +129,7 @@ def legendre_poly_expansion(rms: JArray, a: FloatScalar = -1., b: FloatScalar =
         return poly(k, jnp.array([x ** i for i in range(k + 1)]))
 
     def basis_coeff(k: int) -> FloatScalar:
-        return (2 * k + 1) / 2 * poly(k, rms)
+        return (2 * k + 1) / 2 * poly(k, ums)
 
     @partial(jax.vmap, in_axes=[0])
     def pdf(x):
-- 
2.43.0


From b6ba30954ccaf0fcd30c93f5ec9ba38df49f1de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:35 +0000
Subject: [PATCH 06/12] fix: nd_cartesian_prod_2 returns the Cartesian product
 for more than one dimension

---
 mfs/multi_dims/quadratures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/multi_dims/quadratures.py b/mfs/multi_dims/quadratures.py
index 66e74ee..0d1f0c7 100644
--- a/mfs/multi_dims/quadratures.py
+++ b/mfs/multi_dims/quadratures.py
@@ -110,7 +110,7 @@ def nd_cartesian_prod_2(x: JArray) -> JArray:
     Not used. Used for comparison with a legacy implementation.
     """
     d = x.shape[0]
-    return jnp.array(jnp.meshgrid(*x)).reshape(-1, d)
+    return jnp.stack(jnp.meshgrid(*x, indexing='ij'), axis=-1).reshape(-1, d)
 
 
 def _chained_inner_products(x: JArray):
-- 
2.43.0


From 77e0393769506dfdc94fb822dd335aa9c61fcb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:35 +0000
Subject: [PATCH 07/12] fix: variance of GaussianSum1D when only two moments
 are kept

---
 mfs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 9a4b8da..f3515d2 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -67,7 +67,7 @@ class GaussianSum1D(NamedTuple):
                               zip(means, variances, weights)]) for p in range(2 * N)])
         cms = jnp.array([sum([raw_moment_of_normal(mean - centre, variance, p) * weight for mean, variance, weight in
                               zip(means, variances, weights)]) for p in range(2 * N)])
-        variance = cms[2]
+        variance = jnp.sum((variances + (means - centre) ** 2) * weights)
         scms = cms / jnp.sqrt(variance) ** jnp.arange(2 * N)
         return cls(means=means, variances=variances, weights=weights,
                    mean=centre, variance=variance,
-- 
2.43.0


From 1fe75a1ea0f44197b46d94a44de5054a6480d1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:35 +0000
Subject: [PATCH 08/12] fix: raw_moments_mvn_kan for JAX inputs and moment
 orders above 20

---
 mfs/multi_dims/moments.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mfs/multi_dims/moments.py b/mfs/multi_dims/moments.py
index 295f942..e4bdd48 100644
--- a/mfs/multi_dims/moments.py
+++ b/mfs/multi_dims/moments.py
@@ -146,8 +146,7 @@ def raw_moments_mvn_kan(mean: Array, cov: Array, multi_index: Sequence[int]) ->
     signs = (-1) ** np.sum(vs, axis=1)
     combs = np.prod(scipy_comb(np.asarray(multi_index), vs), axis=1)
     quad_prods = (hs[:, None, :] @ cov @ hs[:, :, None] / 2).ravel() ** rs \
-                 * (hs @ mean) ** (s - 2 * rs) / (scipy_factorial(rs, exact=True) * scipy_factorial(s - 2 * rs,
-                                                                                                    exact=True))
+                 * (hs @ mean) ** (s - 2 * rs) / (scipy_factorial(rs) * scipy_factorial(s - 2 * rs))
     if isinstance(cov, np.ndarray):
         return np.einsum('i,i,i', signs, combs, quad_prods) * 1.
     else:
-- 
2.43.0


From a2e6b8794f2ea6834528029db04437d195550d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:55 +0000
Subject: [PATCH 09/12] fix: make integration_steps of prey_predator's simulate
 a static argument

Passing integration_steps raised a ConcretizationTypeError, because the jitted
function traces it while it sets an array shape and goes through math.sqrt.
---
 mfs/multi_dims/ss_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mfs/multi_dims/ss_models.py b/mfs/multi_dims/ss_models.py
index ad58958..3b21db3 100644
--- a/mfs/multi_dims/ss_models.py
+++ b/mfs/multi_dims/ss_models.py
@@ -20,6 +20,7 @@ import math
 import jax
 import jax.numpy as jnp
 import numpy as np
+from functools import partial
 from mfs.utils import GaussianSumND
 from mfs.typings import FloatScalar, JArray, JFloat
 from typing import Callable, Union, Tuple, NamedTuple
@@ -66,7 +67,7 @@ def prey_predator(multi_indices):
     def measurement_cond_pmf(y, x):
         return jax.scipy.stats.bernoulli.pmf(y, emission(x[0]))
 
-    @jax.jit
+    @partial(jax.jit, static_argnums=(1,))
     def simulate(key, integration_steps: int = 100):
         key_x0, key_ws, key_ys = jax.random.split(key, 3)
 
-- 
2.43.0


From 64618dd5fcc37fdba160bbe8e9efd5b631ea701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:56 +0000
Subject: [PATCH 10/12] fix: TME conditional moments are nan at a state equal
 to the mean

The monomial was differentiated through a power with a traced integer
exponent, the second derivative of which is 0 * inf at zero.
---
 mfs/multi_dims/moments.py |  7 ++++---
 mfs/one_dim/moments.py    |  8 ++++----
 mfs/utils.py              | 13 +++++++++++++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/mfs/multi_dims/moments.py b/mfs/multi_dims/moments.py
index e4bdd48..810c409 100644
--- a/mfs/multi_dims/moments.py
+++ b/mfs/multi_dims/moments.py
@@ -26,6 +26,7 @@ from scipy.special import comb as scipy_comb
 from scipy.special import factorial as scipy_factorial
 from typing import Sequence, Callable, Tuple, Union
 from mfs.multi_dims.multi_indices import find_indices
+from mfs.utils import integer_power
 from functools import partial
 from mfs.typings import JArray, JFloat, Array, FloatScalar, JInt
 
@@ -445,7 +446,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0])
     def state_cond_raw_moments(x: JArray, multi_index: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod(_x ** multi_index)
+            return jnp.prod(integer_power(_x, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
@@ -453,7 +454,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0, None])
     def state_cond_central_moments(x: JArray, multi_index: JArray, mean: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod((_x - mean) ** multi_index)
+            return jnp.prod(integer_power(_x - mean, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
@@ -461,7 +462,7 @@ def sde_cond_moments_tme(drift: Callable,
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JArray, multi_index: JArray, mean: JArray, scale: JArray) -> JArray:
         def phi(_x):
-            return jnp.prod(((_x - mean) / scale) ** multi_index)
+            return jnp.prod(integer_power((_x - mean) / scale, multi_index))
 
         return tme.expectation(phi, x, dt, drift, dispersion, order=tme_order)
 
diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index dc60070..5b3319d 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -22,7 +22,7 @@ import jax.numpy as jnp
 import scipy.linalg
 import tme.base_jax as tme
 from mfs.one_dim.quadtures import moment_quadrature
-from mfs.utils import partial_bell
+from mfs.utils import partial_bell, integer_power
 from mfs.typings import JInt, IntScalar, JFloat, FloatScalar, JArray
 from functools import partial
 from typing import Callable, Tuple
@@ -148,7 +148,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0])
     def state_cond_raw_moments(x: JFloat, n: JInt) -> JFloat:
         def phi(u):
-            return u ** n
+            return integer_power(u, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
@@ -156,7 +156,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0, None])
     def state_cond_central_moments(x: JFloat, n: JInt, mean: FloatScalar) -> JFloat:
         def phi(u):
-            return (u - mean) ** n
+            return integer_power(u - mean, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
@@ -164,7 +164,7 @@ def sde_cond_moments_tme(drift: Callable, dispersion: Callable, dt: FloatScalar,
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         def phi(u):
-            return ((u - mean) / scale) ** n
+            return integer_power((u - mean) / scale, n)
 
         return jnp.squeeze(tme.expectation(phi, jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order))
 
diff --git a/mfs/utils.py b/mfs/utils.py
index f3515d2..c48a1b3 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -36,6 +36,19 @@ def binom(n, k):
     return factorial(n) / (factorial(k) * factorial(n - k))
 
 
+@jax.custom_jvp
+def integer_power(x, n):
+    """`x ** n` for natural numbers `n`, the derivatives of which (of any order) are also well-defined at `x = 0`.
+    """
+    return x ** n
+
+
+@integer_power.defjvp
+def integer_power_jvp(primals, tangents):
+    x, n = primals
+    return integer_power(x, n), n * integer_power(x, jnp.maximum(n - 1, 0)) * tangents[0]
+
+
 class GaussianSum1D(NamedTuple):
     """Unidimensional Gaussian-sum distribution.
     """
-- 
2.43.0


From 4f1929241440b40c2eec5919665535c87102be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:38 +0000
Subject: [PATCH 11/12] fix: factorials and binomials beyond 64-bit integers in
 moment conversions and expansions

---
 mfs/multi_dims/moments.py         | 2 +-
 mfs/one_dim/moments.py            | 8 ++++----
 mfs/one_dim/pdf_approximations.py | 6 +++---
 mfs/one_dim/quadtures.py          | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mfs/multi_dims/moments.py b/mfs/multi_dims/moments.py
index 810c409..c4ab989 100644
--- a/mfs/multi_dims/moments.py
+++ b/mfs/multi_dims/moments.py
@@ -104,7 +104,7 @@ def central_moments_mvn_kan(cov: Array, multi_index: Sequence[int]) -> FloatScal
         if isinstance(cov, np.ndarray):
             return np.einsum('i,i,i', signs, combs, quad_prods) / math.factorial(int(s / 2))
         else:
-            return jnp.einsum('i,i,i', signs, combs, quad_prods) / math.factorial(int(s / 2))
+            return jnp.einsum('i,i,i', signs, combs, quad_prods) / float(math.factorial(int(s / 2)))
     else:
         return 0.
 
diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index 5b3319d..3bf75f0 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -35,7 +35,7 @@ def central_moment_of_normal(variance: FloatScalar, p: int) -> FloatScalar:
         return 1.
     elif p % 2 == 0:
         scale = jnp.sqrt(variance)
-        return scale ** p * scipy.special.factorial2(p - 1, exact=True)
+        return scale ** p * float(scipy.special.factorial2(p - 1, exact=True))
     else:
         return 0.
 
@@ -72,7 +72,7 @@ def raw_moment_of_standard_normal(p: int) -> float:
 def raw_moment_of_normal(mean: FloatScalar, variance: FloatScalar, p: int) -> FloatScalar:
     """p-th moment of a Normal random variable given mean and variance.
     """
-    return sum([math.comb(p, m) * mean ** m * variance ** ((p - m) / 2) * raw_moment_of_standard_normal(p - m)
+    return sum([float(math.comb(p, m)) * mean ** m * variance ** ((p - m) / 2) * raw_moment_of_standard_normal(p - m)
                 for m in range(p + 1)])
 
 
@@ -82,7 +82,7 @@ def _make_pascal_triangle(s: int) -> JArray:
     -----
     pascal() is not a JAX function, hence, cannot be jitted.
     """
-    return jnp.asarray(scipy.linalg.pascal(s, kind='lower', exact=True))
+    return jnp.asarray(scipy.linalg.pascal(s, kind='lower', exact=True).astype(float))
 
 
 def raw_to_central(rms: JArray) -> JArray:
@@ -300,7 +300,7 @@ def sms_to_cumulants(sms: JArray, mean: FloatScalar, scale: FloatScalar) -> JArr
         elif n == 0:
             raise ValueError(f'The implementation does not allow n = 0.')
         else:
-            return sum([(-1) ** (k - 1) * math.factorial(k - 1) * partial_bell(n, k, scaled_to_central(sms, scale)[1:])
+            return sum([(-1.) ** (k - 1) * math.factorial(k - 1) * partial_bell(n, k, scaled_to_central(sms, scale)[1:])
                         for k in range(1, n + 1)])
 
     return jnp.array([nth_cumulant(n) for n in range(1, sms.shape[0])])
diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 1e414e2..be29863 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -83,7 +83,7 @@ def gram_charlier(cumulants: JArray) -> Callable[[JArray], JArray]:
     @partial(jax.vmap, in_axes=[0])
     def pdf(x):
         h = ((x - mean) / jnp.sqrt(variance))
-        z = [complete_bell(j, bell_input[:j]) / (math.factorial(j) * variance ** (j / 2)) * hermite_probabilist(j, h)
+        z = [complete_bell(j, bell_input[:j]) / (float(math.factorial(j)) * variance ** (j / 2)) * hermite_probabilist(j, h)
              for j in range(order + 1)]
         return base_func(x) * sum(z)
 
@@ -160,7 +160,7 @@ def truncated_cumulant_generating_function(z: JFloat,
 
     """
     num_moments = ms.shape[0]
-    smgf_coeffs = jnp.array([(z * scale) ** n / math.factorial(n) for n in range(num_moments)])
+    smgf_coeffs = jnp.array([(z * scale) ** n / float(math.factorial(n)) for n in range(num_moments)])
     smgf = jnp.einsum('i,i', smgf_coeffs, ms)
     return z * mean + jnp.log(smgf)
 
@@ -173,7 +173,7 @@ def saddle_point(sms: JArray,
     This implementation applies to polynomial-truncated cumulant-generating functions.
     """
     num_moments = sms.shape[0]
-    sms_poly = jnp.flip(sms / jnp.array([math.factorial(n) for n in range(num_moments)]))
+    sms_poly = jnp.flip(sms / jnp.array([float(math.factorial(n)) for n in range(num_moments)]))
 
     def cgf(z):
         return z * mean + jnp.log(jnp.polyval(sms_poly, z * scale))
diff --git a/mfs/one_dim/quadtures.py b/mfs/one_dim/quadtures.py
index 046bd53..2f8473b 100644
--- a/mfs/one_dim/quadtures.py
+++ b/mfs/one_dim/quadtures.py
@@ -179,5 +179,5 @@ def taylor_quadrature(f: Callable[[FloatScalar, Any], FloatScalar],
 
     result = derivative_funcs[0](mean, *operands)
     for r in range(1, order + 1):
-        result += derivative_funcs[r](mean, *operands) * cms[r] / math.factorial(r)
+        result += derivative_funcs[r](mean, *operands) * cms[r] / float(math.factorial(r))
     return result
-- 
2.43.0


From 7f1351ae5c0f0784af7958e56e251618c3ed7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:16 +0000
Subject: [PATCH 12/12] fix: build Hermite coefficients in floating point
 (Gauss--Hermite of order 26 and above overflowed int64)

---
 mfs/classical_filters_smoothers/quadratures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/classical_filters_smoothers/quadratures.py b/mfs/classical_filters_smoothers/quadratures.py
index 754f968..b70cb95 100644
--- a/mfs/classical_filters_smoothers/quadratures.py
+++ b/mfs/classical_filters_smoothers/quadratures.py
@@ -123,8 +123,8 @@ class SigmaPoints(NamedTuple):
         H : List
             The 0 to p-th order Hermite polynomial coefficients in a list.
         """
-        H0 = np.array([1])
-        H1 = np.array([2, 0])
+        H0 = np.array([1.])
+        H1 = np.array([2., 0.])
 
         H = [H0, H1]
 
-- 
2.43.0

