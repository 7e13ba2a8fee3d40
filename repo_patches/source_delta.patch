From 96d16bbb42cf1c4932eaa507ec6546914dcc8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:14 +0000
Subject: [PATCH 1/8] fix: zeroth central moment of a Normal is one

scipy.special.factorial2(-1, exact=True) is 0, so central_moment_of_normal(variance, 0) returned 0.
---
 mfs/one_dim/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index bd3aed3..50630ea 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -33,7 +33,7 @@ def central_moment_of_normal(variance: FloatScalar, p: int) -> FloatScalar:
     """
     if p % 2 == 0:
         scale = jnp.sqrt(variance)
-        return scale ** p * scipy.special.factorial2(p - 1, exact=True)
+        return scale ** p * raw_moment_of_standard_normal(p)
     else:
         return 0.
 
-- 
2.43.0


From 35fcb8153ca014db0b6ea4d20bbf3435ca8f1e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:14 +0000
Subject: [PATCH 2/8] fix: variance of GaussianSum1D with N = 1

With N = 1 only two moments are computed and cms[2] is out of bounds: JAX clamps the index and returns cms[1] = 0.
---
 mfs/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/utils.py b/mfs/utils.py
index 9a4b8da..5fe9722 100644
--- a/mfs/utils.py
+++ b/mfs/utils.py
@@ -67,7 +67,7 @@ class GaussianSum1D(NamedTuple):
                               zip(means, variances, weights)]) for p in range(2 * N)])
         cms = jnp.array([sum([raw_moment_of_normal(mean - centre, variance, p) * weight for mean, variance, weight in
                               zip(means, variances, weights)]) for p in range(2 * N)])
-        variance = cms[2]
+        variance = jnp.sum(weights * (variances + (means - centre) ** 2))
         scms = cms / jnp.sqrt(variance) ** jnp.arange(2 * N)
         return cls(means=means, variances=variances, weights=weights,
                    mean=centre, variance=variance,
-- 
2.43.0


From 74245d3d19a330d0fa7a6dc779ce657ad5efff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:07 +0000
Subject: [PATCH 3/8] fix: Kalman gain for multi-dimensional measurements in
 the linear Gaussian update

The gain needs S^{-1}, but only one of the two triangular solves was done (and
against the wrong triangle).
---
 mfs/classical_filters_smoothers/gfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 5b3d1e9..16dd4b1 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -75,7 +75,7 @@ def _linear_update(mp: JArray, vp: JArray,
         n_ell = jnp.squeeze(-_log_normal_pdf(y, pred_y, S))
     else:
         chol = jax.lax.linalg.cholesky(S)
-        K = jax.lax.linalg.triangular_solve(chol, H @ vp).T
+        K = jax.scipy.linalg.cho_solve((chol, True), H @ vp).T
         n_ell = -_log_mvn_pdf(y, pred_y, chol)
     return mp + K @ (y - pred_y), vp - K @ S @ K.T, n_ell
 
-- 
2.43.0


From f1b09f422915fa512c0c32e8e3fbcc7739159265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:07 +0000
Subject: [PATCH 4/8] fix: whiten with the lower Cholesky factor in the
 multivariate normal log density

---
 mfs/classical_filters_smoothers/gfs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/classical_filters_smoothers/gfs.py b/mfs/classical_filters_smoothers/gfs.py
index 16dd4b1..45f68a8 100644
--- a/mfs/classical_filters_smoothers/gfs.py
+++ b/mfs/classical_filters_smoothers/gfs.py
@@ -47,7 +47,7 @@ def _log_normal_pdf(x: FloatScalar, mu: FloatScalar, variance: FloatScalar) -> F
 
 
 def _log_mvn_pdf(x: JArray, mu: JArray, chol: JArray) -> JFloat:
-    z = jax.lax.linalg.triangular_solve(chol, x - mu)
+    z = jax.scipy.linalg.solve_triangular(chol, x - mu, lower=True)
     return -0.5 * (jnp.dot(z, z) + 2 * jnp.sum(jnp.log(math.sqrt(2 * math.pi) * jnp.diagonal(chol))))
 
 
-- 
2.43.0


From e23ab6dc3d421f7328394a96cb21b1184215254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:31 +0000
Subject: [PATCH 5/8] fix: scale of the 1D scaled central conditional moments
 is scale ** n

---
 mfs/one_dim/moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mfs/one_dim/moments.py b/mfs/one_dim/moments.py
index 50630ea..40529e1 100644
--- a/mfs/one_dim/moments.py
+++ b/mfs/one_dim/moments.py
@@ -202,7 +202,7 @@ def sde_cond_moments_tme_normal(drift: Callable, dispersion: Callable, dt: Float
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = tme.mean_and_cov(jnp.atleast_1d(x), dt, drift, dispersion, order=tme_order)
-        s = jnp.prod(scale ** jnp.arange(num_moments))
+        s = scale ** n
         return jnp.array([raw_moment_of_normal(jnp.squeeze(cond_mean) - mean, jnp.squeeze(cond_var), p)
                           for p in range(num_moments)])[n] / s
 
@@ -240,7 +240,7 @@ def sde_cond_moments_euler(drift: Callable, dispersion: Callable, dt: FloatScala
     @partial(jax.vmap, in_axes=[None, 0, None, None])
     def state_cond_scaled_central_moments(x: JFloat, n: JInt, mean: FloatScalar, scale: FloatScalar) -> JFloat:
         cond_mean, cond_var = x + drift(x) * dt, dispersion(x) ** 2 * dt
-        s = jnp.prod(scale ** jnp.arange(num_moments))
+        s = scale ** n
         return jnp.array([raw_moment_of_normal(cond_mean - mean, cond_var, p) for p in range(num_moments)])[n] / s
 
     @partial(jax.vmap, in_axes=[0])
-- 
2.43.0


From 1b7129381640a02794b3f9fde9d617894edfbd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:06 +0000
Subject: [PATCH 6/8] fix: saddle_point evaluates at a root of the saddle
 equation

---
 mfs/one_dim/pdf_approximations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index 39d613e..c3901c0 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -183,7 +183,8 @@ def saddle_point(sms: JArray,
     @partial(jax.vmap, in_axes=[0])
     def pdf(x: JFloat) -> JFloat:
         saddle_equation_poly = jnp.polyadd((mean - x) * sms_poly, scale * jnp.polyder(sms_poly))
-        s = find_nearest_real_root(saddle_equation_poly, jnp.array([(x - mean) / scale ** 2])) / scale
+        roots = jnp.roots(saddle_equation_poly, strip_zeros=False)
+        s = find_nearest_real_root(roots, jnp.array([(x - mean) / scale])) / scale
         return jnp.exp(cgf(s) - s * x) / jnp.sqrt(2 * math.pi * dd_cgf(s))
 
     return pdf
-- 
2.43.0


From 4c5031652ddf607c37a0fe8c8f9b68d3cd05285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:07 +0000
Subject: [PATCH 7/8] fix: Legendre expansion uses the moments of the variable
 mapped to [-1, 1]

---
 mfs/one_dim/pdf_approximations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mfs/one_dim/pdf_approximations.py b/mfs/one_dim/pdf_approximations.py
index c3901c0..b0023fc 100644
--- a/mfs/one_dim/pdf_approximations.py
+++ b/mfs/one_dim/pdf_approximations.py
@@ -114,6 +114,11 @@ def legendre_poly_expansion(rms: JArray, a: FloatScalar = -1., b: FloatScalar =
     """
     num_moments = rms.shape[0]
 
+    # Moments of the variable (2 X - (a + b)) / (b - a) living in [-1, 1]
+    std_rms = [sum([math.comb(n, j) * (2 / (b - a)) ** j * (-(a + b) / (b - a)) ** (n - j) * rms[j]
+                    for j in range(n + 1)])
+               for n in range(num_moments)]
+
     def poly(k: int, placeholder: Union[Sequence[FloatScalar], JArray]) -> FloatScalar:
         return sum([(-1) ** i * 2 ** (-k) * math.factorial(2 * k - 2 * i)
                     / (math.factorial(i) * math.factorial(k - i) * math.factorial(k - 2 * i))
@@ -124,7 +129,7 @@ def legendre_poly_expansion(rms: JArray, a: FloatScalar = -1., b: FloatScalar =
         return poly(k, jnp.array([x ** i for i in range(k + 1)]))
 
     def basis_coeff(k: int) -> FloatScalar:
-        return (2 * k + 1) / 2 * poly(k, rms)
+        return (2 * k + 1) / 2 * poly(k, std_rms)
 
     @partial(jax.vmap, in_axes=[0])
     def pdf(x):
-- 
2.43.0


From 1f030e2d82cb9f784c147140837526dc1f8f997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:36 +0000
Subject: [PATCH 8/8] fix: nd_cartesian_prod_2 lists the Cartesian combinations
 (it reshaped the meshgrid across vectors)

---
 mfs/multi_dims/quadratures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mfs/multi_dims/quadratures.py b/mfs/multi_dims/quadratures.py
index 66e74ee..0d1f0c7 100644
--- a/mfs/multi_dims/quadratures.py
+++ b/mfs/multi_dims/quadratures.py
@@ -110,7 +110,7 @@ def nd_cartesian_prod_2(x: JArray) -> JArray:
     Not used. Used for comparison with a legacy implementation.
     """
     d = x.shape[0]
-    return jnp.array(jnp.meshgrid(*x)).reshape(-1, d)
+    return jnp.stack(jnp.meshgrid(*x, indexing='ij'), axis=-1).reshape(-1, d)
 
 
 def _chained_inner_products(x: JArray):
-- 
2.43.0

