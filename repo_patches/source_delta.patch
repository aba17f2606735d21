From e489474cf7d2832fc9a77f6f9e65d95dadbe4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 01/34] fix: Constant kernel raised AttributeError (self.eye)
 and used integer matrices

---
 src/smolgp/kernels/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 5bef960..8750de0 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -525,7 +525,7 @@ class Constant(StateSpaceModel):
 
     def design_matrix(self) -> JAXArray:
         """The design (also called the feedback) matrix for a Constant process, F"""
-        return jnp.array([[0]])
+        return jnp.array([[0.0]])
 
     def stationary_covariance(self) -> JAXArray:
         """The stationary covariance of a Constant process, Pinf"""
@@ -533,7 +533,7 @@ class Constant(StateSpaceModel):
 
     def noise(self) -> JAXArray:
         """The scalar Qc for a Constant process"""
-        return jnp.array([[0]])
+        return jnp.array([[0.0]])
 
     def observation_matrix(self, X: JAXArray) -> JAXArray:
         """The observation model H for a Constant process"""
@@ -547,11 +547,11 @@ class Constant(StateSpaceModel):
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The transition matrix A_k for a Constant process"""
         del X1, X2
-        return self.eye(self.dimension)
+        return jnp.eye(self.dimension)
 
     def process_noise(self, X1, X2, use_van_loan=False):
         """The process noise Q_k for a Constant process"""
-        return jnp.array([[0]])
+        return jnp.array([[0.0]])
 
 
 class SHO(StateSpaceModel):
-- 
2.43.0


From efc6838d943b2c09f5b1cf46638319f765b57728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 02/34] fix: Exp.transition_matrix failed for Python-number
 time lags (parallel solvers)

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 8750de0..106a356 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -789,7 +789,7 @@ class Exp(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return jnp.exp(-dt[None, None] / self.scale)
+        return jnp.array([[jnp.exp(-dt / self.scale)]])
 
     def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """The process noise Q_k for the Exp process"""
-- 
2.43.0


From 317ea7c30cb0ab277d0fbe1d006506015a9006a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 03/34] fix: scalar * kernel raised TypeError (Scale had no
 name) and left process noise unscaled

---
 src/smolgp/kernels/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 106a356..93e0528 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -478,13 +478,20 @@ class Scale(Wrapper):
 
     scale: JAXArray | float
 
+    def __init__(self, kernel, scale, name: str | None = None, **kwargs):
+        self.kernel = kernel
+        self.scale = scale
+        self.name = f"Scale({kernel.name})" if name is None else name
+
     def stationary_covariance(self) -> JAXArray:
         return self.scale * self.kernel.stationary_covariance()
 
-    # TODO: also scale Qc?
     def noise(self) -> JAXArray:
         return self.scale * self.kernel.noise()
 
+    def process_noise(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
+        return self.scale * self.kernel.process_noise(X1, X2)
+
 
 ################ GP KERNEL DEFINITIONS ################
 ## TODO: tinygp base kernels not yet implemented
-- 
2.43.0


From 0f731e8eb5407f170b3c992400c67eb0f400a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 04/34] fix: unique component names raised KeyError with
 repeated products and could collide

---
 src/smolgp/gp.py           | 18 +++++++++---------
 src/smolgp/kernels/base.py |  4 ++--
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 829b294..4c4a3bf 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -16,7 +16,7 @@ from tinygp import kernels, means
 from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
-from smolgp.kernels import StateSpaceModel, Sum, Product
+from smolgp.kernels import StateSpaceModel, Sum
 from smolgp.kernels.base import extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
@@ -48,21 +48,21 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
         counts[k.name] = counts.get(k.name, 0) + 1
     # counter for how many times we've used each duplicated name
     used = {name: 1 for name, c in counts.items() if c > 1}
+    # names that are no longer available
+    taken = set(names)
 
     def _rename(k: StateSpaceModel) -> StateSpaceModel:
         if isinstance(k, Sum):
             k1 = _rename(k.kernel1)
             k2 = _rename(k.kernel2)
             return Sum(k1, k2)
-        if isinstance(k, Product):
-            k1 = _rename(k.kernel1)
-            k2 = _rename(k.kernel2)
-            return Product(k1, k2)
-        # Leaf
+        # Leaf (a Product is a single component of the model)
         if counts[k.name] > 1:
-            idx = used[k.name]
-            used[k.name] += 1
-            newname = f"{k.name}_{idx}"
+            newname = f"{k.name}_{used[k.name]}"
+            while newname in taken:
+                used[k.name] += 1
+                newname = f"{k.name}_{used[k.name]}"
+            taken.add(newname)
             return dataclasses.replace(k, name=newname)
         else:
             # Single occurrence: leave unchanged
diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 93e0528..3d9d0c8 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -345,10 +345,10 @@ class Product(StateSpaceModel):
     kernel1: StateSpaceModel
     kernel2: StateSpaceModel
 
-    def __init__(self, kernel1, kernel2):
+    def __init__(self, kernel1, kernel2, name: str | None = None):
         self.kernel1 = kernel1
         self.kernel2 = kernel2
-        self.name = f"Product({kernel1.name}, {kernel2.name})"
+        self.name = f"Product({kernel1.name}, {kernel2.name})" if name is None else name
 
     @property
     def dimension(self) -> int:
-- 
2.43.0


From 85f6da4617d465fc71281bdbc064da8cfc192aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 05/34] fix: extracting a product component always returned
 zero

---
 src/smolgp/kernels/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 3d9d0c8..05232c2 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -400,10 +400,11 @@ class Product(StateSpaceModel):
         return jnp.kron(Pinf1, Q2) + jnp.kron(Q1, Pinf2) - jnp.kron(Q1, Q2)
 
     def observation_model(self, X: JAXArray, component=None) -> JAXArray:
-        """H = H1 ⊗ H2 with component extraction"""
-        H1 = self.kernel1.observation_model(X, component=component)
-        H2 = self.kernel2.observation_model(X, component=component)
-        return jnp.kron(H1, H2)
+        """H = H1 ⊗ H2 with component extraction (a product is a single component)"""
+        keep = (component is None) or (self.name == component)
+        H1 = self.kernel1.observation_model(X)
+        H2 = self.kernel2.observation_model(X)
+        return jnp.kron(H1, H2) * int(keep)
 
     def observation_matrix(self, X: JAXArray) -> JAXArray:
         """H = H1 ⊗ H2"""
-- 
2.43.0


From 3ef082a882d8bf61299ffb9b30157eb8cf0c7315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 06/34] fix: extracting a (sub-)sum component always returned
 zero

---
 src/smolgp/kernels/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 05232c2..ce28483 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -308,6 +308,8 @@ class Sum(StateSpaceModel):
 
     def observation_model(self, X: JAXArray, component=None) -> JAXArray:
         """H = [H1, H2] with component extraction"""
+        if component == self.name:
+            component = None  # the component is this whole sum
         return jnp.hstack(
             (
                 self.kernel1.observation_model(X, component=component),
-- 
2.43.0


From c091f895d367a87eb69c3dfcf9ece3d49870eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 07/34] fix: overdamped SHO overflowed to NaN for time lags of
 many damping times

---
 src/smolgp/kernels/base.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index ce28483..cb47627 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -661,10 +661,13 @@ class SHO(StateSpaceModel):
 
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
-            x = n * w * dt
-            sinh = jnp.sinh(x)
-            cosh = jnp.cosh(x)
-            return jnp.exp(-0.5 * w * dt / q) * jnp.array(
+            # cosh and sinh with the damping factored in, so they can't overflow
+            r = 0.5 / q + n
+            slow = jnp.exp(-w * dt / r)
+            fast = jnp.exp(-w * dt * r)
+            sinh = 0.5 * (slow - fast)
+            cosh = 0.5 * (slow + fast)
+            return jnp.array(
                 [[cosh + sinh / f, sinh / (w * n)], [-w * sinh / n, cosh - sinh / f]]
             )
 
@@ -720,15 +723,17 @@ class SHO(StateSpaceModel):
             n2 = jnp.square(n)
             w2 = jnp.square(w)
             a = w * dt / q  # argument in exponential
-            x = n * w * dt  # argument in sin/cos
-            sinh = jnp.sinh(x)
-            sinh2 = jnp.sinh(2 * x)
-            sinhsq = jnp.square(sinh)
-            exp = jnp.exp(-a)
+            # sinh(x)^2 and sinh(2x) for x = n*w*dt with the
+            # damping exp(-a) factored in, so they can't overflow
+            r = 0.5 / q + n
+            slow = jnp.exp(-w * dt / r)
+            fast = jnp.exp(-w * dt * r)
+            sinh2 = 0.5 * (slow - fast) * (slow + fast)
+            sinhsq = 0.25 * jnp.square(slow - fast)
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
-            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2)) * exp
-            Q12 = Q21 = exp * (w * sinhsq / (n2 * q))
-            Q22 = w2 * (-expm1 + exp * (sinh2 / f - sinhsq / (2 * n2 * q2)))
+            Q11 = -expm1 - (sinh2 / f + sinhsq / (2 * n2 * q2))
+            Q12 = Q21 = w * sinhsq / (n2 * q)
+            Q22 = w2 * (-expm1 + (sinh2 / f - sinhsq / (2 * n2 * q2)))
             return jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
 
         return jax.lax.cond(
-- 
2.43.0


From c6b8972ac9b4352e541260c04c52b3553b044206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:14 +0000
Subject: [PATCH 08/34] fix: SHO process noise was zeroed by an absolute
 threshold in small units

---
 src/smolgp/kernels/base.py       | 11 ++++++-----
 src/smolgp/kernels/integrated.py | 12 +++++++-----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index cb47627..0345d3d 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -710,12 +710,13 @@ class SHO(StateSpaceModel):
             exp = jnp.exp(-a)
             expm1 = jnp.expm1(-a)  # exp(-a) - 1
             Q11 = -expm1 - (sin2 / f + sinsq / (2 * n2 * q2)) * exp
-            Q12 = Q21 = exp * (w * sinsq / (n2 * q))
-            Q22 = w2 * (-expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2)))
-            Q = jnp.square(self.sigma) * jnp.array([[Q11, Q12], [Q21, Q22]])
-            return jnp.where(
+            Q12 = Q21 = exp * (sinsq / (n2 * q))
+            Q22 = -expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2))
+            Q = jnp.array([[Q11, Q12], [Q21, Q22]])
+            Q = jnp.where(
                 jnp.abs(Q) < 1e-14, jnp.zeros_like(Q), Q
-            )  # prevent underflows
+            )  # prevent underflows (before applying the units of sigma and omega)
+            return jnp.square(self.sigma) * Q * jnp.array([[1, w], [w, w2]])
 
         def overdamped(dt: JAXArray) -> JAXArray:
             f = 2 * n * q
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index ef07155..cc40a36 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -390,7 +390,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
             sin2 = jnp.sin(2 * arg)
             cos2 = jnp.cos(2 * arg)
             A2 = jnp.square(A)
-            iQ12_1 = jnp.square(exp * (cos + A * sin) - 1) / (q * w)
+            iQ12_1 = jnp.square(exp * (cos + A * sin) - 1) / q
             iQ12_2 = A * exp * (4 * sin - exp * sin2) - 2 * A2 * exp2 * sinsq + exp2m1
 
             part1 = 8 * q * w * dt + 4 * q2 - 12
@@ -398,14 +398,16 @@ class IntegratedSHO(IntegratedStateSpaceModel):
             part3_1 = 16 * exp * (cos + (1 - 2 * q2) * A * sin)
             part3_2 = exp2 * ((1 - 3 * A2) / A * sin2 - 3 * cos2)
             part3 = part3_1 + part3_2
-            iQ22 = 1 / (4 * q2 * w2) * (part1 + part2 + part3)
+            iQ22 = 1 / (4 * q2) * (part1 + part2 + part3)
             iQ22 = jnp.maximum(iQ22, 0.0)  # prevent underflows at dt=0
 
-            Qaug12 = sigma2 * jnp.array([[iQ12_1], [iQ12_2]])
-            Qaug22 = sigma2 * jnp.array([[iQ22]])
-            # Prevent underflows
+            Qaug12 = jnp.array([[iQ12_1], [iQ12_2]])
+            Qaug22 = jnp.array([[iQ22]])
+            # Prevent underflows (before applying the units of sigma and omega)
             Qaug12 = jnp.where(jnp.abs(Qaug12) < 1e-14, jnp.zeros_like(Qaug12), Qaug12)
             Qaug22 = jnp.where(jnp.abs(Qaug22) < 1e-14, jnp.zeros_like(Qaug22), Qaug22)
+            Qaug12 = sigma2 * Qaug12 * jnp.array([[1 / w], [1]])
+            Qaug22 = sigma2 * Qaug22 / w2
             Qaug21 = Qaug12.T
             return Qaug12, Qaug21, Qaug22
 
-- 
2.43.0


From 57ff95b140c512cbb4b319c7d7349c968897a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:51 +0000
Subject: [PATCH 09/34] fix: a single datum or a single test point lost its
 leading axis (IndexError / wrong shape)

---
 src/smolgp/gp.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 4c4a3bf..cbea392 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -71,6 +71,11 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     return _rename(kernel)
 
 
+def _squeeze_trailing(x: JAXArray) -> JAXArray:
+    """Drop all length-1 axes except the leading (data or test point) axis"""
+    return jnp.squeeze(x, axis=tuple(i for i in range(1, x.ndim) if x.shape[i] == 1))
+
+
 class ConditionedStates(eqx.Module):
     """
     An object to hold the conditioned means and variances
@@ -153,7 +158,7 @@ class ConditionedStates(eqx.Module):
         m_sel = jnp.take(self.smoothed_mean, idx, axis=0)
         P_sel = jnp.take(self.smoothed_cov, idx, axis=0)
         mu, var = jax.vmap(project)(self.X, m_sel, P_sel)
-        return mu.squeeze(), var.squeeze()
+        return _squeeze_trailing(mu), _squeeze_trailing(var)
 
 
 class PredictedStates(eqx.Module):
@@ -193,7 +198,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         mu = jax.vmap(_project)(H, self.mean)
-        return mu.squeeze()
+        return _squeeze_trailing(mu)
 
     def project_variance(self, observation_model) -> JAXArray:
         """
@@ -206,7 +211,7 @@ class PredictedStates(eqx.Module):
 
         H = jax.vmap(observation_model)(self.t_states)
         var = jax.vmap(_project)(H, self.cov)
-        return var.squeeze()
+        return _squeeze_trailing(var)
 
     @property
     def loc(self) -> JAXArray:
@@ -677,10 +682,10 @@ class GaussianProcess(eqx.Module):
                             X, component=name
                         )
                     H = jax.vmap(H_test)(X_test)
-                    mu = jax.vmap(lambda H_i, m: H_i @ m)(H, mean).squeeze()
-                    var = jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(
-                        H, variance
-                    ).squeeze()
+                    mu = _squeeze_trailing(jax.vmap(lambda H_i, m: H_i @ m)(H, mean))
+                    var = _squeeze_trailing(
+                        jax.vmap(lambda H_i, P: H_i @ P @ H_i.T)(H, variance)
+                    )
 
         if return_var:
             return mu, var
-- 
2.43.0


From b4b6d3be76c0da4ad14e6324fece0c48ba2d7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 10/34] fix: parallel solver failed for one-dimensional state
 spaces (Exp, Constant)

---
 src/smolgp/solvers/parallel/kalman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 99c77c4..a33ccf1 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -65,11 +65,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (P @ H0.T).T).T
 
         A = jnp.zeros_like(Phi0)
-        b = jnp.squeeze(m + K @ (y0 - H0 @ m))
+        b = m + K @ (y0 - H0 @ m)
         C = P - K @ S @ K.T
 
         _M = Phi0.T @ H0.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y0)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y0))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
@@ -92,11 +92,11 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         K = jnp.linalg.solve(S.T, (Q_dt @ Hk.T).T).T
 
         A = (I - K @ Hk) @ Phi_dt
-        b = jnp.squeeze(K @ jnp.atleast_1d(y))  # remove atleast_1d?
+        b = K @ jnp.atleast_1d(y)  # remove atleast_1d?
         C = (I - K @ Hk) @ Q_dt
 
         _M = Phi_dt.T @ Hk.T
-        eta = jnp.squeeze(_M @ jnp.linalg.solve(S, jnp.atleast_1d(y)))
+        eta = _M @ jnp.linalg.solve(S, jnp.atleast_1d(y))
         J = _M @ jnp.linalg.solve(S, _M.T)
 
         return (A, b, C, eta, J)
-- 
2.43.0


From 3f6626a6499b4d82a0a0a61785d18c4dffd2e519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:26 +0000
Subject: [PATCH 11/34] fix: parallel solver could not predict when the
 coordinates are a tuple

---
 src/smolgp/solvers/parallel/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 26e421d..0d7c81b 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -150,7 +150,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             Kalman prediction from most recent
             filtered (not smoothed) state
             """
-            dt = X_test[ktest] - self.X[k]
+            dt = t_test[ktest] - t_states[k]
             m_k = m_filtered[k]
             P_k = P_filtered[k]
             A_star = A(0, dt)  # transition matrix from t_k to t_star
@@ -180,7 +180,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             ]  # RTS smoothed covariance at next data point
 
             # Time-lag between states
-            dt = self.X[k_next] - X_test[ktest]
+            dt = t_states[k_next] - t_test[ktest]
 
             # Transition matrix for this step
             A_k = A(0, dt)
-- 
2.43.0


From b394bb639f670960d29e6a3b5a047503973be03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 12/34] fix: filters evaluated the observation model at bare
 times or time lags, not data coordinates

---
 src/smolgp/solvers/kalman.py          |  9 ++++-----
 src/smolgp/solvers/parallel/kalman.py | 19 ++++++++++---------
 src/smolgp/solvers/solver.py          |  4 +---
 3 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index 8168e92..c719963 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -31,7 +31,7 @@ def KalmanFilter(kernel, X, y, noise, return_v_S=False):
         P0 = P0.to_dense()  # needed for carry in jax.lax.scan
 
     t = kernel.coord_to_sortable(X)
-    output = kalman_filter(A, Q, H, R, t, y, m0, P0)
+    output = kalman_filter(A, Q, H, R, X, t, y, m0, P0)
     if return_v_S:
         return output
     else:
@@ -40,7 +40,7 @@ def KalmanFilter(kernel, X, y, noise, return_v_S=False):
 
 
 @jax.jit
-def kalman_filter(A, Q, H, R, t, y, m0, P0):
+def kalman_filter(A, Q, H, R, X, t, y, m0, P0):
     """
     Jax implementation of the Kalman filter algorithm
 
@@ -54,6 +54,7 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
     of time steps and d is the dimension of the state vector.
     """
     N = len(t)  # number of data points
+    H_all = jax.vmap(H)(X)  # observation models at the data coordinates
 
     def step(carry, k):
         """
@@ -90,9 +91,7 @@ def kalman_filter(A, Q, H, R, t, y, m0, P0):
         P_pred = A_prev @ P_prev @ A_prev.T + Q_prev
 
         # Update (Eq. 4.21)
-        ## TODO: let t be a tuple and use coord_to_sortable to get time axis out
-        ##       That way we can pass the full t into H and it can use e.g. instid etc.
-        H_k = H(t[k])  # observation model for this time step
+        H_k = H_all[k]  # observation model for this time step
         y_pred = H_k @ m_pred  # predicted observation
         v_k = y[k] - y_pred  # "innovation" or "surprise" term
         S_k = H_k @ P_pred @ H_k.T + R[k]  # uncertainy in predicted observation
diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index a33ccf1..95f469c 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -29,7 +29,7 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
     P0 = kernel.stationary_covariance()
     t = kernel.coord_to_sortable(X)
 
-    asso_params = make_associative_params(Phi, H, Q, R, t, y, m0, P0)
+    asso_params = make_associative_params(Phi, H, Q, R, X, t, y, m0, P0)
     A, b, C, eta, J = parallel_kalman_filter(asso_params)
     m_pred, P_pred, v, S = postprocess(Phi, H, Q, R, X, t, y, b, C, m0, P0)
     # return (A, b, C, eta, J), (m_pred, P_pred, v, S)
@@ -41,23 +41,25 @@ def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
 
 
 @jax.jit
-def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
+def make_associative_params(Phi, H, Q, R, X, t, y, m0, P0):
     """Generate the associative parameters needed for parallel Kalman
 
     See Eqns. 10, 11, 12 from Sarkka & Garcia-Fernandez (2020)
 
     """
 
+    # observation models at the data coordinates
+    H_all = jax.vmap(H)(X)
+
     def make_first_params(
         Phi,
-        H,
+        H0,
         m0,
         P0,
         y0,
         r0,
     ):
         Phi0 = Phi(0, 0)
-        H0 = H(0)  # this is sort of unnecessary but we'll keep it for now
 
         m = Phi0 @ m0
         P = Phi0 @ P0 @ Phi0.T  # Q(0,0) = 0
@@ -76,7 +78,7 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
     def make_generic_params(
         Phi,
-        H,
+        Hk,
         Q,
         t_delta,
         y,
@@ -85,7 +87,6 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
         Phi_dt = Phi(0, t_delta)
         I = jnp.eye(Phi_dt.shape[-1])
 
-        Hk = H(t_delta)  # TODO: this is wrong, pass data coordinate here
         Q_dt = Q(0, t_delta)
 
         S = Hk @ Q_dt @ Hk.T + r
@@ -101,12 +102,12 @@ def make_associative_params(Phi, H, Q, R, t, y, m0, P0):
 
         return (A, b, C, eta, J)
 
-    A0, b0, C0, eta0, J0 = make_first_params(Phi, H, m0, P0, y[0], R[0])
+    A0, b0, C0, eta0, J0 = make_first_params(Phi, H_all[0], m0, P0, y[0], R[0])
     t_delta = jnp.diff(t)
     A, b, C, eta, J = jax.vmap(
         make_generic_params,
-        in_axes=(None, None, None, 0, 0, 0),
-    )(Phi, H, Q, t_delta, y[1:], R[1:])
+        in_axes=(None, 0, None, 0, 0, 0),
+    )(Phi, H_all[1:], Q, t_delta, y[1:], R[1:])
 
     A_all = jnp.concatenate([A0[jnp.newaxis, ...], A], axis=0)
     b_all = jnp.concatenate([b0[jnp.newaxis, ...], b], axis=0)
diff --git a/src/smolgp/solvers/solver.py b/src/smolgp/solvers/solver.py
index 2801eb7..1d1a3e5 100644
--- a/src/smolgp/solvers/solver.py
+++ b/src/smolgp/solvers/solver.py
@@ -47,9 +47,7 @@ class StateSpaceSolver(eqx.Module):
 
     def Kalman(self, y, return_v_S=False) -> Any:
         """Wrapper for Kalman filter used with this solver"""
-        return KalmanFilter(
-            self.kernel, self.t_states, y, self.noise, return_v_S=return_v_S
-        )
+        return KalmanFilter(self.kernel, self.X, y, self.noise, return_v_S=return_v_S)
 
     def RTS(self, kalman_results) -> Any:
         """Wrapper for RTS smoother used with this solver"""
-- 
2.43.0


From c11a829a1d496a0b1855cf4d87ded42696c9e0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 13/34] fix: condition(y, X_test) failed for every solver

---
 src/smolgp/gp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index cbea392..ed64be1 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -558,7 +558,11 @@ class GaussianProcess(eqx.Module):
 
         if X_test is not None:
             # If X_test was given, also predit at those points
-            mu, var = self.solver.predict(X_test, conditioned_results)
+            # and project the predicted states to observation space
+            mean, cov = self.solver.predict(X_test, states())
+            predicted = PredictedStates(X_test, mean, cov, self.kernel)
+            mu = predicted.project_mean(observation_model)
+            var = predicted.project_variance(observation_model)
         else:
             # Otherwise, project the conditioned states
             # (at the data points) to observation space
-- 
2.43.0


From 529b560e048e036092e9e4a9aa97d9d3bd1b0783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 14/34] fix: parallel integrated filter dropped a first
 measurement of zero exposure time

---
 .../solvers/integrated/parallel/kalman.py     | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 2222c9b..1abda0e 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -175,11 +175,23 @@ def make_associative_params(
         J = _a @ _c
         return (A, b, C, eta, J)
 
-    A0, b0, C0, eta0, J0 = make_first_params(
-        Phi_aug,
-        m0,
-        P0,
-        RESET(instid[0]),
+    def make_first_end_params():
+        # the first state is an exposure end if that exposure has
+        # zero length, so here the prior is updated with its datum
+        Hk = H_array[obsid[0]]
+        Sk = Hk @ P0 @ Hk.T + R[obsid[0]]
+        Kk = jnp.linalg.solve(Sk.T, (P0 @ Hk.T).T).T
+        A = jnp.zeros_like(P0)
+        b = m0 + Kk @ (y[obsid[0]] - Hk @ m0)
+        C = P0 - Kk @ Sk @ Kk.T
+        eta = jnp.zeros(state_dim)
+        J = jnp.zeros_like(P0)
+        return (A, b, C, eta, J)
+
+    A0, b0, C0, eta0, J0 = jax.lax.cond(
+        stateid[0] == 0,
+        lambda: make_first_params(Phi_aug, m0, P0, RESET(instid[0])),
+        make_first_end_params,
     )
     t_delta = jnp.diff(t_states)
 
-- 
2.43.0


From cd559bed91a7f2b59b93054a4a40e3c94068bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 15/34] fix: integrated smoothing returned NaN for simultaneous
 exposure starts and IntegratedCosine

---
 src/smolgp/helpers.py                         | 20 +++++++++++++++++++
 src/smolgp/solvers/integrated/parallel/rts.py |  4 +++-
 .../solvers/integrated/parallel/solver.py     |  3 ++-
 src/smolgp/solvers/integrated/rts.py          |  6 ++++--
 src/smolgp/solvers/integrated/solver.py       |  3 ++-
 5 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 06631c4..887a4ca 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -11,6 +11,26 @@ def block_view(A, b):
     return A.reshape(N, b, M, b).transpose(0, 2, 1, 3)
 
 
+def smoothing_gain(C: JAXArray, P: JAXArray) -> JAXArray:
+    """
+    The RTS smoothing gain G = C P^+ for cross-covariance C and predicted covariance P
+
+    P is singular if some combination of the (augmented) states is known exactly,
+    e.g. when two exposures start at the same time or if the process has no driving
+    noise. The pseudo-inverse gives the right gain in that case; P is first rescaled
+    to unit variances so that the cutoff does not depend on the units of each state.
+    """
+    var = jnp.diagonal(P)
+    known = var <= 0.0
+    scale = jnp.where(known, 0.0, 1.0 / jnp.sqrt(jnp.where(known, 1.0, var)))
+    P = scale[:, None] * P * scale[None, :]
+    C = C * scale[None, :]
+    Pinv = jnp.linalg.pinv(P, hermitian=True)
+    G = C @ Pinv
+    G = G + (C - G @ P) @ Pinv  # refine, since P may be nearly singular
+    return G * scale[None, :]
+
+
 def Q_from_VanLoan(F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray) -> JAXArray:
     """
     Van Loan method to compute Q = ∫0^dt exp(F (dt-s)) L Qc L^T exp(F^T (dt-s)) ds
diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index ed66266..0cd607d 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import smoothing_gain
+
 
 def ParallelIntegratedRTSSmoother(
     kernel,
@@ -104,7 +106,7 @@ def make_associative_params(
         A = Phik @ Pk @ Phik.T + Qk
         b = Pk @ Phik.T
 
-        E = jax.scipy.linalg.solve(A.T, b.T, assume_a="pos").T
+        E = smoothing_gain(b, A)
         g = mk - E @ (Phik @ mk)
         L = Pk - E @ Phik @ Pk
 
diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index d04ec95..c5c1b12 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -7,6 +7,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import smoothing_gain
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.parallel.kalman import ParallelIntegratedKalmanFilter
 from smolgp.solvers.integrated.parallel.rts import ParallelIntegratedRTSSmoother
@@ -225,7 +226,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_star_pred @ A_k.T).T).T
+            G_k = smoothing_gain(P_star_pred @ A_k.T, P_pred_next)
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index 2a98cc0..eb5386b 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import smoothing_gain
+
 
 def IntegratedRTSSmoother(kernel, t_states, obsid, instid, stateid, kalman_results):
     """
@@ -72,14 +74,14 @@ def integrated_rts_smoother(
 
             Reset = RESET(instid[obsid[k]])
             AR = A_k @ Reset
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k_pre @ AR.T).T).T
+            G_k = smoothing_gain(P_k_pre @ AR.T, P_pred_next)
             m_hat_k = m_k_pre + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k_pre + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
 
         def smooth_end():
             """RTS smooth an exposure-end state"""
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_k @ A_k.T).T).T
+            G_k = smoothing_gain(P_k @ A_k.T, P_pred_next)
             m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
             P_hat_k = P_k + G_k @ (P_hat_next - P_pred_next) @ G_k.T
             return m_hat_k, P_hat_k
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 727d4db..5c137b3 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -9,6 +9,7 @@ import equinox as eqx
 from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
+from smolgp.helpers import smoothing_gain
 from smolgp.kernels.base import StateSpaceModel
 from smolgp.solvers.integrated.kalman import IntegratedKalmanFilter
 from smolgp.solvers.integrated.rts import IntegratedRTSSmoother
@@ -220,7 +221,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
             A_k = A_aug(dt)
 
             # RTS update
-            G_k = jnp.linalg.solve(P_pred_next.T, (P_star_pred @ A_k.T).T).T
+            G_k = smoothing_gain(P_star_pred @ A_k.T, P_pred_next)
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
             P_star_hat = P_star_pred + G_k @ (P_hat_next - P_pred_next) @ G_k.T
 
-- 
2.43.0


From 240dd6c4ca2e5a618d79a5ac57084a6b99396ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 16/34] fix: integrated kernels lost accuracy, then overflowed,
 for long time lags

---
 src/smolgp/helpers.py            | 67 ++++++++++++++++++++++++++++++++
 src/smolgp/kernels/integrated.py | 45 ++++++++++-----------
 2 files changed, 88 insertions(+), 24 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 887a4ca..3586bbe 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -1,3 +1,4 @@
+import jax
 import jax.numpy as jnp
 from jax.scipy.linalg import expm
 from tinygp.helpers import JAXArray
@@ -139,3 +140,69 @@ def VanLoan(
         "H2": H2,
         "K1": K1,
     }
+
+
+def _halve_until_short(F: JAXArray, dt: JAXArray) -> tuple[JAXArray, JAXArray]:
+    """
+    The number of times to halve dt until |F| dt < 1, and the resulting time step
+
+    The exponentials in the Van Loan method contain both growing and decaying terms,
+    so are only accurate over a short time step (and overflow over a very long one).
+    """
+    norm = jax.lax.stop_gradient(jnp.max(jnp.sum(jnp.abs(F), axis=0)) * dt)
+    n = jnp.ceil(jnp.log2(jnp.maximum(norm, 1.0))).astype(int)
+    return n, dt / 2.0**n
+
+
+MAX_DOUBLINGS = 48
+
+
+def stable_Phibar(F: JAXArray, dt: JAXArray) -> JAXArray:
+    """
+    Phibar = ∫0^dt exp(F s) ds over a time step of any length, by computing it
+    over a short step with :func:`Phibar_from_VanLoan` and doubling the step.
+    """
+    n, h = _halve_until_short(F, dt)
+
+    def double(i, carry):
+        Phi, Phibar = carry
+        more = i < n
+        return (
+            jnp.where(more, Phi @ Phi, Phi),
+            jnp.where(more, Phibar + Phi @ Phibar, Phibar),
+        )
+
+    carry = (expm(F * h), Phibar_from_VanLoan(F, h))
+    _, Phibar = jax.lax.fori_loop(0, MAX_DOUBLINGS, double, carry)
+    return Phibar
+
+
+def stable_integrated_process_noise(
+    F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray
+) -> JAXArray:
+    """
+    The process noise of the state x augmented with the integral of its first element,
+    z = ∫ x[0] dt, over a time step of any length, by computing it over a short step
+    with :func:`VanLoan` and doubling the step.
+    """
+    n, h = _halve_until_short(F, dt)
+    d = len(F)
+
+    vanloan = VanLoan(F, L, Qc, h)
+    F3 = vanloan["F3"]
+    Q11 = F3.T @ vanloan["G2"]
+    Q12 = (F3.T @ vanloan["H2"])[:, :1]
+    F3TK1 = F3.T @ vanloan["K1"]
+    Q22 = (F3TK1 + F3TK1.T)[:1, :1]
+    Q = jnp.block([[Q11, Q12], [Q12.T, Q22]])
+
+    A = jnp.eye(d + 1).at[:d, :d].set(F3.T)
+    A = A.at[d, :d].set(vanloan["G3"].T[0])
+
+    def double(i, carry):
+        A, Q = carry
+        more = i < n
+        return jnp.where(more, A @ A, A), jnp.where(more, A @ Q @ A.T + Q, Q)
+
+    _, Q = jax.lax.fori_loop(0, MAX_DOUBLINGS, double, (A, Q))
+    return Q
diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index cc40a36..6b6f67a 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -38,7 +38,7 @@ from tinygp.helpers import JAXArray
 
 import smolgp.kernels
 from smolgp.kernels import StateSpaceModel
-from smolgp.helpers import Phibar_from_VanLoan
+from smolgp.helpers import stable_Phibar, stable_integrated_process_noise
 
 
 class IntegratedStateSpaceModel(StateSpaceModel):
@@ -143,6 +143,11 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         L_aug = jnp.vstack([L] + [0.0] * self.num_insts)
         return L_aug
 
+    def _state_scale(self) -> JAXArray:
+        """The typical size of each element of the base state, to work in natural units"""
+        var = jnp.diagonal(self.base_model.stationary_covariance())
+        return jnp.where(var > 0.0, jnp.sqrt(jnp.where(var > 0.0, var, 1.0)), 1.0)
+
     def integrated_transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
         The integrated transition matrix between two states at coordinates X1 and X2, $A_k$
@@ -151,11 +156,12 @@ class IntegratedStateSpaceModel(StateSpaceModel):
 
         Overload this method if you wish to define the integrated transition matrix analytically.
         """
-        F = self.base_model.design_matrix()
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        return Phibar_from_VanLoan(F, dt)
+        scale = self._state_scale()
+        F = self.base_model.design_matrix() * scale[None, :] / scale[:, None]
+        return stable_Phibar(F, dt) * scale[:, None] / scale[None, :]
 
     def transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
@@ -183,22 +189,15 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t1 = self.coord_to_sortable(X1)
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
-        F = self.base_model.design_matrix()
-        L = self.base_model.noise_effect_matrix()
+        scale = self._state_scale()
+        F = self.base_model.design_matrix() * scale[None, :] / scale[:, None]
+        L = self.base_model.noise_effect_matrix() / scale[:, None]
         Qc = self.base_model.noise()
 
-        vanloan = smolgp.helpers.VanLoan(F, L, Qc, dt)
-        F3 = vanloan["F3"]
-        H2 = vanloan["H2"]
-        K1 = vanloan["K1"]
-
-        M = F3.T @ H2
-        F3TK1 = F3.T @ K1
-        W = F3TK1 + F3TK1.T
-
-        Qaug12 = M[:, :1]
+        Q = stable_integrated_process_noise(F, L, Qc, dt)
+        Qaug12 = Q[: self.d, self.d :] * scale[:, None] * scale[0]
         Qaug21 = Qaug12.T
-        Qaug22 = W[:1, :1]
+        Qaug22 = Q[self.d :, self.d :] * jnp.square(scale[0])
         return Qaug12, Qaug21, Qaug22
 
     # @partial(
@@ -222,8 +221,8 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         t2 = self.coord_to_sortable(X2)
         dt = t2 - t1
         if force_numerical:
-            Qaug12, Qaug21, Qaug22 = super(type(self), self).integrated_process_noise(
-                X1, X2
+            Qaug12, Qaug21, Qaug22 = IntegratedStateSpaceModel.integrated_process_noise(
+                self, X1, X2
             )
         else:
             Qaug12, Qaug21, Qaug22 = self.integrated_process_noise(X1, X2)
@@ -307,8 +306,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def critical(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return super(IntegratedSHO, self).integrated_transition_matrix(t1, t2)
 
         def underdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## General integral from t1->t2:
@@ -343,8 +341,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def overdamped(t1: JAXArray, t2: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            F = self.base_model.design_matrix()
-            return Phibar_from_VanLoan(F, t2 - t1)
+            return super(IntegratedSHO, self).integrated_transition_matrix(t1, t2)
 
         # Return the appropriate form based on quality factor
         t1 = self.coord_to_sortable(X1)
@@ -373,7 +370,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def critical(dt: JAXArray) -> JAXArray:
             # TODO: returning numerical result until we do this integral by hand
-            return super(type(self), self).integrated_process_noise(0, dt)
+            return super(IntegratedSHO, self).integrated_process_noise(0, dt)
 
         def underdamped(dt: JAXArray) -> JAXArray:
             x = a * dt
@@ -413,7 +410,7 @@ class IntegratedSHO(IntegratedStateSpaceModel):
 
         def overdamped(dt: JAXArray) -> JAXArray:
             ## TODO: returning numerical result until we do this integral by hand
-            return super(type(self), self).integrated_process_noise(0, dt)
+            return super(IntegratedSHO, self).integrated_process_noise(0, dt)
 
         return jax.lax.cond(
             jnp.allclose(q, 0.5),
-- 
2.43.0


From f8c895cc237e03cbb9c205288fba6aaa06f4c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 17/34] fix: integrated solvers failed for integer time
 coordinates

---
 src/smolgp/solvers/integrated/parallel/solver.py | 2 +-
 src/smolgp/solvers/integrated/solver.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index c5c1b12..7c6ac01 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -61,7 +61,7 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 5c137b3..c7c66c5 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -62,7 +62,7 @@ class IntegratedStateSpaceSolver(eqx.Module):
 
         # Interleave start and end times into one array (fastest)
         # https://stackoverflow.com/questions/5347065/interleaving-two-numpy-arrays-efficiently
-        t_states = jnp.empty((ts.size + te.size,), dtype=tmid.dtype)
+        t_states = jnp.empty((ts.size + te.size,), dtype=ts.dtype)
         t_states = t_states.at[0::2].set(ts)  # evens are start times
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
-- 
2.43.0


From c38225037c9530dad8696ff7d6cfb0ee3123df77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 18/34] fix: back-to-back exposures could be reset before being
 observed, due to round-off

---
 src/smolgp/solvers/integrated/parallel/solver.py | 8 +++++---
 src/smolgp/solvers/integrated/solver.py          | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index 7c6ac01..fd6e7e6 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -66,9 +66,11 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
         # Have to re-sort because exposures can overlap
-        # enforce end times before start times at same t
-        sortidx = jnp.lexsort((-stateid, t_states))
-        t_states = t_states[sortidx]
+        # enforce end times before start times at same t (to within round-off, otherwise
+        # back-to-back exposures could be reset before they are observed)
+        roundoff = 4 * jnp.finfo(t_states.dtype).eps * jnp.max(jnp.abs(t_states))
+        sortidx = jnp.lexsort((-stateid, t_states - roundoff * stateid))
+        t_states = jax.lax.cummax(t_states[sortidx])
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index c7c66c5..4a055b4 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -67,9 +67,11 @@ class IntegratedStateSpaceSolver(eqx.Module):
         t_states = t_states.at[1::2].set(te)  # odds are end times
         stateid = jnp.tile(jnp.array([0, 1]), len(tmid))  # 0 for start, 1 for end
         # Have to re-sort because exposures can overlap
-        # enforce end times before start times at same t
-        sortidx = jnp.lexsort((-stateid, t_states))
-        t_states = t_states[sortidx]
+        # enforce end times before start times at same t (to within round-off, otherwise
+        # back-to-back exposures could be reset before they are observed)
+        roundoff = 4 * jnp.finfo(t_states.dtype).eps * jnp.max(jnp.abs(t_states))
+        sortidx = jnp.lexsort((-stateid, t_states - roundoff * stateid))
+        t_states = jax.lax.cummax(t_states[sortidx])
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
-- 
2.43.0


From 7886fe087ca5386d3549cdc75d74c0eb32ffa0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 19/34] fix: sequential filter failed for integer time
 coordinates or kernel parameters

---
 src/smolgp/solvers/kalman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/solvers/kalman.py b/src/smolgp/solvers/kalman.py
index c719963..f6d5bf2 100644
--- a/src/smolgp/solvers/kalman.py
+++ b/src/smolgp/solvers/kalman.py
@@ -29,6 +29,7 @@ def KalmanFilter(kernel, X, y, noise, return_v_S=False):
     P0 = kernel.stationary_covariance()
     if not isinstance(P0, JAXArray):
         P0 = P0.to_dense()  # needed for carry in jax.lax.scan
+    P0 = P0.astype(jnp.result_type(P0, m0))  # integer kernel parameters
 
     t = kernel.coord_to_sortable(X)
     output = kalman_filter(A, Q, H, R, X, t, y, m0, P0)
@@ -78,7 +79,7 @@ def kalman_filter(A, Q, H, R, X, t, y, m0, P0):
         Delta = jax.lax.cond(
             k > 0,
             lambda i: t[i] - t[i - 1],
-            lambda _: 0.0,
+            lambda _: jnp.zeros_like(t[0]),
             k,
         )
 
-- 
2.43.0


From 38793f9a6b0bd29156aa44d210e1b2413edadba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:42 +0000
Subject: [PATCH 20/34] fix: scaled or wrapped integrated kernels were silently
 given the instantaneous solver

---
 src/smolgp/gp.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index ed64be1..16755f7 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -17,7 +17,7 @@ from tinygp.helpers import JAXArray
 from tinygp.noise import Diagonal, Noise
 
 from smolgp.kernels import StateSpaceModel, Sum
-from smolgp.kernels.base import extract_leaf_kernels
+from smolgp.kernels.base import Wrapper, extract_leaf_kernels
 from smolgp.kernels.integrated import IntegratedStateSpaceModel
 
 from smolgp.solvers import StateSpaceSolver
@@ -71,6 +71,16 @@ def assign_unique_kernel_names(kernel: StateSpaceModel) -> StateSpaceModel:
     return _rename(kernel)
 
 
+def _has_integrated_kernel(kernel: StateSpaceModel) -> bool:
+    """Whether any element of the kernel is integrated, including in Products or Wrappers"""
+    return any(
+        _has_integrated_kernel(k.kernel)
+        if isinstance(k, Wrapper)
+        else isinstance(k, IntegratedStateSpaceModel)
+        for k in extract_leaf_kernels(kernel, all=True)
+    )
+
+
 def _squeeze_trailing(x: JAXArray) -> JAXArray:
     """Drop all length-1 axes except the leading (data or test point) axis"""
     return jnp.squeeze(x, axis=tuple(i for i in range(1, x.ndim) if x.shape[i] == 1))
@@ -332,7 +342,7 @@ class GaussianProcess(eqx.Module):
 
         # Check if the kernel contains any integrated components
         kernels = extract_leaf_kernels(self.kernel)
-        is_integrated = any([isinstance(k, IntegratedStateSpaceModel) for k in kernels])
+        is_integrated = _has_integrated_kernel(self.kernel)
         is_instantaneous = all([isinstance(k, StateSpaceModel) for k in kernels])
 
         # If using an integrated solver, ensure X has both coords and bin sizes
-- 
2.43.0


From 6e00761f0bed1c9f0a8142a8320fd4941b585e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 21/34] fix: evaluating the diagonal of a kernel raised
 ValueError

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 0345d3d..01c87dc 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -226,7 +226,7 @@ class StateSpaceModel(Kernel):
     def evaluate_diag(self, X: JAXArray) -> JAXArray:
         """For state space kernels, the variance is simple to compute"""
         h = self.observation_model(X)
-        return h @ self.stationary_covariance() @ h.T
+        return (h @ self.stationary_covariance() @ h.T).squeeze()
 
     def psd(self, omega: JAXArray) -> JAXArray:
         """
-- 
2.43.0


From 0add9fe7551f9fa8bd53cc4902698f201cbf5544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 22/34] fix: smoothing started from a reset state if the last
 exposure has zero length

---
 src/smolgp/solvers/integrated/parallel/rts.py |  8 +++++++-
 src/smolgp/solvers/integrated/rts.py          | 14 +++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index 0cd607d..aa80806 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -130,7 +130,13 @@ def make_associative_params(
         stateid[:-1],
     )
 
-    EN, gN, LN = make_last_params(m_filter[-1], P_filter[-1])
+    # The last state is an exposure-start only if that exposure has
+    # zero length, in which case use its pre-reset state
+    EN, gN, LN = jax.lax.cond(
+        stateid[-1] == 0,
+        lambda: make_last_params(m_pred[-1], P_pred[-1]),
+        lambda: make_last_params(m_filter[-1], P_filter[-1]),
+    )
 
     E_all = jnp.concatenate([E, EN[jnp.newaxis, ...]], axis=0)
     g_all = jnp.concatenate([g, gN[jnp.newaxis, ...]], axis=0)
diff --git a/src/smolgp/solvers/integrated/rts.py b/src/smolgp/solvers/integrated/rts.py
index eb5386b..017e6b0 100644
--- a/src/smolgp/solvers/integrated/rts.py
+++ b/src/smolgp/solvers/integrated/rts.py
@@ -95,15 +95,19 @@ def integrated_rts_smoother(
 
         return (m_hat_k, P_hat_k), (m_hat_k, P_hat_k)
 
-    # Start smoothing from final filtered state
-    init_carry = (m_filtered[-1], P_filtered[-1])
+    # Start smoothing from final filtered state (or from the pre-reset state if
+    # that is an exposure-start, which then belongs to a zero-length exposure)
+    last_is_start = stateid[-1] == 0
+    m_last = jnp.where(last_is_start, m_predicted[-1], m_filtered[-1])
+    P_last = jnp.where(last_is_start, P_predicted[-1], P_filtered[-1])
+    init_carry = (m_last, P_last)
 
     # Run backward from N-2 down to 0
     K = len(t_states)  # number of iterations
     _, outputs = jax.lax.scan(step, init_carry, jnp.arange(K - 2, -1, -1))
     m_smooth_reversed, P_smooth_reversed = outputs
 
-    # Reverse outputs (with final filtered=smoothed state) to match time order
-    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_filtered[-1][None, :]])
-    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_filtered[-1][None, :, :]])
+    # Reverse outputs (with final smoothed state) to match time order
+    m_smooth = jnp.vstack([m_smooth_reversed[::-1], m_last[None, :]])
+    P_smooth = jnp.vstack([P_smooth_reversed[::-1], P_last[None, :, :]])
     return m_smooth, P_smooth
-- 
2.43.0


From 1791b21f9623eeb549cfa09633c4861767cf036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:15 +0000
Subject: [PATCH 23/34] fix: coincident exposure edges that differ by round-off
 made the smoothing gain noise

---
 src/smolgp/solvers/integrated/parallel/solver.py | 5 +++++
 src/smolgp/solvers/integrated/solver.py          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index fd6e7e6..4c84e46 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -71,6 +71,11 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
         roundoff = 4 * jnp.finfo(t_states.dtype).eps * jnp.max(jnp.abs(t_states))
         sortidx = jnp.lexsort((-stateid, t_states - roundoff * stateid))
         t_states = jax.lax.cummax(t_states[sortidx])
+        # make coincident times exactly equal, since an integral over a time step
+        # that is merely round-off would be known to no significant digits
+        step = jnp.diff(t_states, prepend=t_states[:1])
+        first = jax.lax.cummax(jnp.where(step > roundoff, jnp.arange(len(step)), 0))
+        t_states = t_states[first]
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index 4a055b4..db1e3a1 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -72,6 +72,11 @@ class IntegratedStateSpaceSolver(eqx.Module):
         roundoff = 4 * jnp.finfo(t_states.dtype).eps * jnp.max(jnp.abs(t_states))
         sortidx = jnp.lexsort((-stateid, t_states - roundoff * stateid))
         t_states = jax.lax.cummax(t_states[sortidx])
+        # make coincident times exactly equal, since an integral over a time step
+        # that is merely round-off would be known to no significant digits
+        step = jnp.diff(t_states, prepend=t_states[:1])
+        first = jax.lax.cummax(jnp.where(step > roundoff, jnp.arange(len(step)), 0))
+        t_states = t_states[first]
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
-- 
2.43.0


From 6d65104d9189bdaf990e6eda1aa51efa4eda993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 24/34] fix: ExpSineSquared.error_bound was exceeded by the
 actual error

---
 src/smolgp/kernels/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 01c87dc..75d455e 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -1187,12 +1187,15 @@ class ExpSineSquared(Wrapper):
     def error_bound(self):
         """
         An upper bound on the error in the covariance
-        from the Taylor series approximation.
+        from truncating the series after `order` terms.
 
-        See Sec 3.4 of Solin & Särkkä (2014).
+        Each neglected term is at most sigma^2 * 2 * exp(-x) * I_j(x) for
+        x = 1 / scale, where exp(-x) * I_j(x) <= (x / 2)^j / j!
         """
         J = self.order
-        return jnp.exp(1 - self.scale) / jax.scipy.special.factorial(J + 1)
+        half = 0.5 / self.scale
+        tail = jnp.power(half, J) / factorial(J) * jnp.exp(half)
+        return 2 * jnp.square(self.sigma) * tail
 
     def stationary_covariance(self) -> JAXArray:
         return jnp.square(self.sigma) * self.kernel.stationary_covariance()
-- 
2.43.0


From dd317b7bc845d1b737bcb8411fe2f48ced90dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:26 +0000
Subject: [PATCH 25/34] fix: dense integrated kernel was wrong by up to 5% for
 exposures very short compared to the timescale

---
 src/smolgp/kernels/dense.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/dense.py b/src/smolgp/kernels/dense.py
index 0b1db42..9fba81e 100644
--- a/src/smolgp/kernels/dense.py
+++ b/src/smolgp/kernels/dense.py
@@ -458,7 +458,7 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         # functionally zero, then both obs are zero-exposure
         # so we can simply use the latent kernel with Delta
         timescale = 2 * jnp.pi / self.w
-        use_latent = jnp.abs(delta1 / timescale) < 1e-8
+        use_latent = jnp.abs(delta1 / timescale) < 1e-4
         k = jnp.where(use_latent, self.latent_process(Delta), k)
 
         # We might also have a finite exposure (obs1) but
@@ -466,7 +466,7 @@ class IntegratedSHOKernel(tinygp.kernels.Kernel):
         # This can come up when conditioning the GP to
         # determine the "true" latent curve
         notothers = ~use_latent
-        case0 = jnp.abs(delta2 / timescale) < 1e-8
+        case0 = jnp.abs(delta2 / timescale) < 1e-4
         k = jnp.where(case0 & notothers, self.full_single_integral(Delta, delta1), k)
 
         ##### Finite-exposure cases #####
-- 
2.43.0


From 8fe089f545f1457a9a148d5de93aa210f71f4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 26/34] fix: kernel evaluation exchanged the two observation
 models if the first coordinate is earlier

---
 src/smolgp/kernels/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 75d455e..294119a 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -219,7 +219,7 @@ class StateSpaceModel(Kernel):
         h2 = self.observation_model(X2)
         return jnp.where(
             self.coord_to_sortable(X1) < self.coord_to_sortable(X2),
-            (h2 @ Pinf @ self.transition_matrix(X1, X2).T @ h1.T).squeeze(),
+            (h1 @ Pinf @ self.transition_matrix(X1, X2).T @ h2.T).squeeze(),
             (h1 @ self.transition_matrix(X2, X1) @ Pinf @ h2.T).squeeze(),
         )
 
-- 
2.43.0


From 2282b248acf8ffdf541f7dd7f348a0912e1e0a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 27/34] fix: predict ignored the observation model given to it
 at the data coordinates

---
 src/smolgp/gp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/smolgp/gp.py b/src/smolgp/gp.py
index 16755f7..c38d899 100644
--- a/src/smolgp/gp.py
+++ b/src/smolgp/gp.py
@@ -665,7 +665,9 @@ class GaussianProcess(eqx.Module):
                     mu = self.states.smoothed_mean
                     var = self.states.smoothed_cov
                 else:
-                    if kernel is None:
+                    if kernel is None and observation_model is not None:
+                        mu, var = self.states.project_at_data(observation_model)
+                    elif kernel is None:
                         # already computed here
                         mu, var = self.loc, self.var
                     else:
-- 
2.43.0


From 1adbe2b524ddae4b305685715ccbbe6e579e478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 28/34] fix: gradients with respect to exposure times were
 wrong if exposure edges coincide

---
 src/smolgp/solvers/integrated/parallel/solver.py | 7 ++++++-
 src/smolgp/solvers/integrated/solver.py          | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/solver.py b/src/smolgp/solvers/integrated/parallel/solver.py
index 4c84e46..2244127 100644
--- a/src/smolgp/solvers/integrated/parallel/solver.py
+++ b/src/smolgp/solvers/integrated/parallel/solver.py
@@ -70,12 +70,17 @@ class ParallelIntegratedStateSpaceSolver(eqx.Module):
         # back-to-back exposures could be reset before they are observed)
         roundoff = 4 * jnp.finfo(t_states.dtype).eps * jnp.max(jnp.abs(t_states))
         sortidx = jnp.lexsort((-stateid, t_states - roundoff * stateid))
-        t_states = jax.lax.cummax(t_states[sortidx])
+        t_sorted = t_states[sortidx]
+        t_states = jax.lax.cummax(t_sorted)
         # make coincident times exactly equal, since an integral over a time step
         # that is merely round-off would be known to no significant digits
         step = jnp.diff(t_states, prepend=t_states[:1])
         first = jax.lax.cummax(jnp.where(step > roundoff, jnp.arange(len(step)), 0))
         t_states = t_states[first]
+        # each time still depends on its own exposure for the purposes of differentiation
+        t_states = jax.lax.stop_gradient(t_states) + (
+            t_sorted - jax.lax.stop_gradient(t_sorted)
+        )
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
diff --git a/src/smolgp/solvers/integrated/solver.py b/src/smolgp/solvers/integrated/solver.py
index db1e3a1..6fe22b6 100644
--- a/src/smolgp/solvers/integrated/solver.py
+++ b/src/smolgp/solvers/integrated/solver.py
@@ -71,12 +71,17 @@ class IntegratedStateSpaceSolver(eqx.Module):
         # back-to-back exposures could be reset before they are observed)
         roundoff = 4 * jnp.finfo(t_states.dtype).eps * jnp.max(jnp.abs(t_states))
         sortidx = jnp.lexsort((-stateid, t_states - roundoff * stateid))
-        t_states = jax.lax.cummax(t_states[sortidx])
+        t_sorted = t_states[sortidx]
+        t_states = jax.lax.cummax(t_sorted)
         # make coincident times exactly equal, since an integral over a time step
         # that is merely round-off would be known to no significant digits
         step = jnp.diff(t_states, prepend=t_states[:1])
         first = jax.lax.cummax(jnp.where(step > roundoff, jnp.arange(len(step)), 0))
         t_states = t_states[first]
+        # each time still depends on its own exposure for the purposes of differentiation
+        t_states = jax.lax.stop_gradient(t_states) + (
+            t_sorted - jax.lax.stop_gradient(t_sorted)
+        )
         obsid = obsid[sortidx]
         stateid = stateid[sortidx]  # 0 for t_s, 1 for t_e
 
-- 
2.43.0


From c4234d3907664a85711f91ff33ced44b2d109adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 29/34] fix: gradient with respect to repeated coordinates was
 wrong for the underdamped SHO

---
 src/smolgp/kernels/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/smolgp/kernels/base.py b/src/smolgp/kernels/base.py
index 294119a..f0a23c2 100644
--- a/src/smolgp/kernels/base.py
+++ b/src/smolgp/kernels/base.py
@@ -713,9 +713,9 @@ class SHO(StateSpaceModel):
             Q12 = Q21 = exp * (sinsq / (n2 * q))
             Q22 = -expm1 + exp * (sin2 / f - sinsq / (2 * n2 * q2))
             Q = jnp.array([[Q11, Q12], [Q21, Q22]])
-            Q = jnp.where(
-                jnp.abs(Q) < 1e-14, jnp.zeros_like(Q), Q
-            )  # prevent underflows (before applying the units of sigma and omega)
+            # prevent underflows (before applying the units of sigma and omega),
+            # but not of the derivatives (dQ22/dt is finite at dt=0)
+            Q = Q - jax.lax.stop_gradient(jnp.where(jnp.abs(Q) < 1e-14, Q, 0.0))
             return jnp.square(self.sigma) * Q * jnp.array([[1, w], [w, w2]])
 
         def overdamped(dt: JAXArray) -> JAXArray:
-- 
2.43.0


From 9ddcd7ae4bb597a6d887074c6aaa0d389f0a262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:41 +0000
Subject: [PATCH 30/34] fix: integrated kernels gave NaN or -inf for exposures
 of 1e5 or more time units

The blocks of the Van Loan exponentials have different units; with long steps the
scaling and squaring in expm lost or overflowed some of them. Use the step as the
unit of time.
---
 src/smolgp/helpers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 3586bbe..129e60d 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -172,7 +172,8 @@ def stable_Phibar(F: JAXArray, dt: JAXArray) -> JAXArray:
             jnp.where(more, Phibar + Phi @ Phibar, Phibar),
         )
 
-    carry = (expm(F * h), Phibar_from_VanLoan(F, h))
+    # (with h as the unit of time, since the blocks of the exponential have different units)
+    carry = (expm(F * h), h * Phibar_from_VanLoan(F * h, 1.0))
     _, Phibar = jax.lax.fori_loop(0, MAX_DOUBLINGS, double, carry)
     return Phibar
 
@@ -188,16 +189,17 @@ def stable_integrated_process_noise(
     n, h = _halve_until_short(F, dt)
     d = len(F)
 
-    vanloan = VanLoan(F, L, Qc, h)
+    # with h as the unit of time, since the blocks of the exponential have different units
+    vanloan = VanLoan(F * h, L, Qc * h, 1.0)
     F3 = vanloan["F3"]
     Q11 = F3.T @ vanloan["G2"]
-    Q12 = (F3.T @ vanloan["H2"])[:, :1]
-    F3TK1 = F3.T @ vanloan["K1"]
+    Q12 = h * (F3.T @ vanloan["H2"])[:, :1]
+    F3TK1 = jnp.square(h) * (F3.T @ vanloan["K1"])
     Q22 = (F3TK1 + F3TK1.T)[:1, :1]
     Q = jnp.block([[Q11, Q12], [Q12.T, Q22]])
 
     A = jnp.eye(d + 1).at[:d, :d].set(F3.T)
-    A = A.at[d, :d].set(vanloan["G3"].T[0])
+    A = A.at[d, :d].set(h * vanloan["G3"].T[0])
 
     def double(i, carry):
         A, Q = carry
-- 
2.43.0


From 7e2c614703b053840745b0702a8704fae9ed60c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:41 +0000
Subject: [PATCH 31/34] fix: integral states had unit variance whatever the
 units, which ruined predictions

The initial variance of an integral is arbitrary, but if it is tiny or huge compared to
the process and its timescale the smoothing gain is lost to round-off.
---
 src/smolgp/kernels/integrated.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/smolgp/kernels/integrated.py b/src/smolgp/kernels/integrated.py
index 6b6f67a..d727674 100644
--- a/src/smolgp/kernels/integrated.py
+++ b/src/smolgp/kernels/integrated.py
@@ -88,9 +88,15 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         return F_aug
 
     def stationary_covariance(self) -> JAXArray:
-        """The augmented stationary covariance of the process, Pinf"""
+        """
+        The augmented stationary covariance of the process, Pinf
+
+        The integral states are always reset before they are used, so that their
+        variance here is arbitrary; we use the units of the process to keep it commensurate
+        """
         Pinf = self.base_model.stationary_covariance()
-        Pinf_aug = jnp.diag(jnp.ones(self.dimension)).at[: self.d, : self.d].set(Pinf)
+        var = jax.lax.stop_gradient(jnp.square(self._integral_scale()))
+        Pinf_aug = jnp.diag(jnp.full(self.dimension, var)).at[: self.d, : self.d].set(Pinf)
         return Pinf_aug
 
     def observation_matrix(self, X: JAXArray) -> JAXArray:
@@ -148,6 +154,14 @@ class IntegratedStateSpaceModel(StateSpaceModel):
         var = jnp.diagonal(self.base_model.stationary_covariance())
         return jnp.where(var > 0.0, jnp.sqrt(jnp.where(var > 0.0, var, 1.0)), 1.0)
 
+    def _integral_scale(self) -> JAXArray:
+        """The typical size of the integral states: the process over its longest timescale"""
+        scale = self._state_scale()
+        F = self.base_model.design_matrix() * scale[None, :] / scale[:, None]
+        time = jnp.max(jnp.sum(jnp.abs(jnp.linalg.inv(F)), axis=0))
+        ok = jnp.isfinite(time) & (time > 0.0)
+        return jnp.where(ok, scale[0] * jnp.where(ok, time, 1.0), 1.0)
+
     def integrated_transition_matrix(self, X1: JAXArray, X2: JAXArray) -> JAXArray:
         """
         The integrated transition matrix between two states at coordinates X1 and X2, $A_k$
-- 
2.43.0


From 1d01ef1b5c168ed594be2f74931d9da832ce33d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:41 +0000
Subject: [PATCH 32/34] fix: parallel integrated smoother lost precision across
 long gaps

The variance of an idle integral grows without bound, so L = P - E A E^T lost its digits
(smoothed variances were wrong by 1% after a gap of 1e6). Scan over the difference of
smoothed and predicted states instead, as in the sequential smoother.
---
 src/smolgp/solvers/integrated/parallel/rts.py | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/smolgp/solvers/integrated/parallel/rts.py b/src/smolgp/solvers/integrated/parallel/rts.py
index aa80806..28ea6c2 100644
--- a/src/smolgp/solvers/integrated/parallel/rts.py
+++ b/src/smolgp/solvers/integrated/parallel/rts.py
@@ -25,9 +25,8 @@ def ParallelIntegratedRTSSmoother(
             m_pred, P_pred, m_filter, P_filter
 
     Returns:
-        E:
-        g: smoothed means
-        L: smoothed covariances
+        m_smoothed: smoothed means
+        P_smoothed: smoothed covariances
     """
     m_pred, P_pred, m_filter, P_filter = kalman_results
     Phi_aug = kernel.transition_matrix
@@ -46,9 +45,17 @@ def ParallelIntegratedRTSSmoother(
         m_filter,
         P_filter,
     )
-    E, g, L = parallel_integrated_rts_smoother(asso_params)
-    m_smoothed = g
-    P_smoothed = L
+    E, _, _ = asso_params
+    _, g, L = parallel_integrated_rts_smoother(asso_params)
+
+    # g, L are the changes (smoothed - predicted) of the next state: add their effect
+    # to the filtered state (or to the pre-reset state at the start of an exposure)
+    start = stateid == 0
+    m_k = jnp.where(start[:, None], m_pred, m_filter)
+    P_k = jnp.where(start[:, None, None], P_pred, P_filter)
+    G = E[:-1]
+    m_smoothed = m_k.at[:-1].add(jnp.einsum("kij,kj->ki", G, g[1:]))
+    P_smoothed = P_k.at[:-1].add(G @ L[1:] @ G.transpose(0, 2, 1))
     return m_smoothed, P_smoothed
 
 
@@ -106,9 +113,11 @@ def make_associative_params(
         A = Phik @ Pk @ Phik.T + Qk
         b = Pk @ Phik.T
 
+        # The recursion is for the smoothed minus the predicted state, since the variance
+        # of an idle integral, which grows without bound, would lose the digits of L
         E = smoothing_gain(b, A)
-        g = mk - E @ (Phik @ mk)
-        L = Pk - E @ Phik @ Pk
+        g = mk - mp
+        L = Pk - Pp
 
         return (E, g, L)
 
@@ -134,8 +143,8 @@ def make_associative_params(
     # zero length, in which case use its pre-reset state
     EN, gN, LN = jax.lax.cond(
         stateid[-1] == 0,
-        lambda: make_last_params(m_pred[-1], P_pred[-1]),
-        lambda: make_last_params(m_filter[-1], P_filter[-1]),
+        lambda: make_last_params(jnp.zeros_like(m_pred[-1]), jnp.zeros_like(P_pred[-1])),
+        lambda: make_last_params(m_filter[-1] - m_pred[-1], P_filter[-1] - P_pred[-1]),
     )
 
     E_all = jnp.concatenate([E, EN[jnp.newaxis, ...]], axis=0)
-- 
2.43.0


From 6bf95047b2c15c5f5964ca78182e5e2591cad5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:41 +0000
Subject: [PATCH 33/34] fix: parallel filters were wrong if the units of time
 were far from the timescale

I + C J mixes states of different units (the process, derivatives, integrals), and was
solved without scaling: likelihoods were wrong by O(1) for e.g. IntegratedMatern52 with
a timescale of 1e9 s.
---
 src/smolgp/helpers.py                         | 26 +++++++++++++++++++
 .../solvers/integrated/parallel/kalman.py     | 18 ++++++-------
 src/smolgp/solvers/parallel/kalman.py         | 18 ++++++-------
 3 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index 129e60d..d0db2c9 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -32,6 +32,32 @@ def smoothing_gain(C: JAXArray, P: JAXArray) -> JAXArray:
     return G * scale[None, :]
 
 
+def filter_pair_solvers(C: JAXArray, J: JAXArray):
+    """
+    Functions x -> (I + C J)^-1 x and x -> (I + J C)^-1 x, to combine two elements of the
+    parallel Kalman filter, for the covariance C of one and the information matrix J of
+    the other.
+
+    The states have different units (the process, its derivatives, its integrals, other
+    components), so the systems are solved in terms of states scaled to unit variance.
+    """
+    varC, varJ = jnp.diagonal(C), jnp.diagonal(J)
+    var = jnp.where(varC > 0, varC, 1.0 / jnp.where(varJ > 0, varJ, 1.0))
+    scale = jax.lax.stop_gradient(jnp.sqrt(var))
+    unit = jnp.outer(scale, scale)
+    M = jnp.eye(len(C)) + (C / unit) @ (J * unit)
+
+    def solve_CJ(x):
+        s = scale if x.ndim == 1 else scale[:, None]
+        return s * jnp.linalg.solve(M, x / s)
+
+    def solve_JC(x):
+        s = scale if x.ndim == 1 else scale[:, None]
+        return jnp.linalg.solve(M.T, x * s) / s
+
+    return solve_CJ, solve_JC
+
+
 def Q_from_VanLoan(F: JAXArray, L: JAXArray, Qc: JAXArray, dt: JAXArray) -> JAXArray:
     """
     Van Loan method to compute Q = ∫0^dt exp(F (dt-s)) L Qc L^T exp(F^T (dt-s)) ds
diff --git a/src/smolgp/solvers/integrated/parallel/kalman.py b/src/smolgp/solvers/integrated/parallel/kalman.py
index 1abda0e..09d2317 100644
--- a/src/smolgp/solvers/integrated/parallel/kalman.py
+++ b/src/smolgp/solvers/integrated/parallel/kalman.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import filter_pair_solvers
+
 
 def ParallelIntegratedKalmanFilter(
     kernel,
@@ -243,17 +245,13 @@ def _combine_per_pair(left, right):
     Ai, bi, Ci, etai, Ji = left
     Aj, bj, Cj, etaj, Jj = right
 
-    dim = Ai.shape[-1]
-    I = jnp.eye(dim)
-
-    D = I + Ci @ Jj
-    E = I + Jj @ Ci
+    solve_D, solve_E = filter_pair_solvers(Ci, Jj)
 
-    Aij = Aj @ jnp.linalg.solve(D, Ai)
-    bij = Aj @ jnp.linalg.solve(D, bi + Ci @ etaj) + bj
-    Cij = Aj @ jnp.linalg.solve(D, Ci) @ Aj.T + Cj
-    etaij = Ai.T @ jnp.linalg.solve(E, etaj - Jj @ bi) + etai
-    Jij = Ai.T @ jnp.linalg.solve(E, Jj) @ Ai + Ji
+    Aij = Aj @ solve_D(Ai)
+    bij = Aj @ solve_D(bi + Ci @ etaj) + bj
+    Cij = Aj @ solve_D(Ci) @ Aj.T + Cj
+    etaij = Ai.T @ solve_E(etaj - Jj @ bi) + etai
+    Jij = Ai.T @ solve_E(Jj) @ Ai + Ji
 
     Cij = 0.5 * (Cij + Cij.T)
     Jij = 0.5 * (Jij + Jij.T)
diff --git a/src/smolgp/solvers/parallel/kalman.py b/src/smolgp/solvers/parallel/kalman.py
index 95f469c..7d607fe 100644
--- a/src/smolgp/solvers/parallel/kalman.py
+++ b/src/smolgp/solvers/parallel/kalman.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import filter_pair_solvers
+
 
 def ParallelKalmanFilter(kernel, X, y, noise, return_v_S=False):
     """
@@ -127,17 +129,13 @@ def _combine_per_pair(left, right):
     Ai, bi, Ci, etai, Ji = left
     Aj, bj, Cj, etaj, Jj = right
 
-    dim = Ai.shape[-1]
-    I = jnp.eye(dim)
-
-    D = I + Ci @ Jj
-    E = I + Jj @ Ci
+    solve_D, solve_E = filter_pair_solvers(Ci, Jj)
 
-    Aij = Aj @ jnp.linalg.solve(D, Ai)
-    bij = Aj @ jnp.linalg.solve(D, bi + Ci @ etaj) + bj
-    Cij = Aj @ jnp.linalg.solve(D, Ci) @ Aj.T + Cj
-    etaij = Ai.T @ jnp.linalg.solve(E, etaj - Jj @ bi) + etai
-    Jij = Ai.T @ jnp.linalg.solve(E, Jj) @ Ai + Ji
+    Aij = Aj @ solve_D(Ai)
+    bij = Aj @ solve_D(bi + Ci @ etaj) + bj
+    Cij = Aj @ solve_D(Ci) @ Aj.T + Cj
+    etaij = Ai.T @ solve_E(etaj - Jj @ bi) + etai
+    Jij = Ai.T @ solve_E(Jj) @ Ai + Ji
 
     Cij = 0.5 * (Cij + Cij.T)
     Jij = 0.5 * (Jij + Jij.T)
-- 
2.43.0


From a73af55192ec74801a488b9808b99a24fca52acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:41 +0000
Subject: [PATCH 34/34] fix: smoothing gains were inaccurate if the units of
 time were far from the timescale

Solve in terms of states scaled to unit variance.
---
 src/smolgp/helpers.py                 | 11 +++++++++++
 src/smolgp/solvers/parallel/solver.py |  7 ++-----
 src/smolgp/solvers/rts.py             |  6 +++---
 src/smolgp/solvers/solver.py          |  7 ++-----
 4 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/smolgp/helpers.py b/src/smolgp/helpers.py
index d0db2c9..b0c4fe0 100644
--- a/src/smolgp/helpers.py
+++ b/src/smolgp/helpers.py
@@ -32,6 +32,17 @@ def smoothing_gain(C: JAXArray, P: JAXArray) -> JAXArray:
     return G * scale[None, :]
 
 
+def scaled_gain(C: JAXArray, P: JAXArray) -> JAXArray:
+    """
+    The gain G = C P^-1, solved in terms of states scaled to unit variance because
+    they have different units (the process, its derivatives, other components)
+    """
+    var = jnp.diagonal(P)
+    scale = jax.lax.stop_gradient(jnp.sqrt(jnp.where(var > 0, var, 1.0)))
+    P = P / jnp.outer(scale, scale)
+    return jnp.linalg.solve(P.T, (C / scale).T).T / scale
+
+
 def filter_pair_solvers(C: JAXArray, J: JAXArray):
     """
     Functions x -> (I + C J)^-1 x and x -> (I + J C)^-1 x, to combine two elements of the
diff --git a/src/smolgp/solvers/parallel/solver.py b/src/smolgp/solvers/parallel/solver.py
index 0d7c81b..d1fc97c 100644
--- a/src/smolgp/solvers/parallel/solver.py
+++ b/src/smolgp/solvers/parallel/solver.py
@@ -10,6 +10,7 @@ from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
 from smolgp.kernels.base import StateSpaceModel
 
+from smolgp.helpers import scaled_gain
 from smolgp.solvers.parallel.kalman import ParallelKalmanFilter
 from smolgp.solvers.parallel.rts import ParallelRTSSmoother
 
@@ -186,11 +187,7 @@ class ParallelStateSpaceSolver(eqx.Module):
             A_k = A(0, dt)
 
             # Compute smoothing gain
-            # P_pred_next_inv = jnp.linalg.inv(P_pred_next)
-            # G_k = P_star_pred @ A_k.T @ P_pred_next_inv # smoothing gain
-            G_k = jnp.linalg.solve(
-                P_pred_next.T, (P_star_pred @ A_k.T).T
-            ).T  # more stable
+            G_k = scaled_gain(P_star_pred @ A_k.T, P_pred_next)
 
             # Update state and covariance
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
diff --git a/src/smolgp/solvers/rts.py b/src/smolgp/solvers/rts.py
index 17c3ffd..b01514d 100644
--- a/src/smolgp/solvers/rts.py
+++ b/src/smolgp/solvers/rts.py
@@ -3,6 +3,8 @@ from __future__ import annotations
 import jax
 import jax.numpy as jnp
 
+from smolgp.helpers import scaled_gain
+
 
 def RTSSmoother(kernel, X, kalman_results):
     """
@@ -63,9 +65,7 @@ def rts_smoother(A, t, m_filtered, P_filtered, m_predicted, P_predicted):
         A_k = A(0, Delta_k)
 
         # Compute smoothing gain
-        # P_pred_next_inv = jnp.linalg.inv(P_pred_next)
-        # G_k = P_k @ A_k.T @ P_pred_next_inv # smoothing gain
-        G_k = jnp.linalg.solve(P_pred_next.T, (P_k @ A_k.T).T).T  # more stable
+        G_k = scaled_gain(P_k @ A_k.T, P_pred_next)
 
         # Update state and covariance
         m_hat_k = m_k + G_k @ (m_hat_next - m_pred_next)
diff --git a/src/smolgp/solvers/solver.py b/src/smolgp/solvers/solver.py
index 1d1a3e5..3681680 100644
--- a/src/smolgp/solvers/solver.py
+++ b/src/smolgp/solvers/solver.py
@@ -9,6 +9,7 @@ from tinygp.helpers import JAXArray
 from tinygp.noise import Noise
 from tinygp.solvers.quasisep.solver import QuasisepSolver
 from smolgp.kernels.base import StateSpaceModel
+from smolgp.helpers import scaled_gain
 from smolgp.solvers.kalman import KalmanFilter
 from smolgp.solvers.rts import RTSSmoother
 
@@ -177,11 +178,7 @@ class StateSpaceSolver(eqx.Module):
             A_k = A(0, dt)
 
             # Compute smoothing gain
-            # P_pred_next_inv = jnp.linalg.inv(P_pred_next)
-            # G_k = P_star_pred @ A_k.T @ P_pred_next_inv # smoothing gain
-            G_k = jnp.linalg.solve(
-                P_pred_next.T, (P_star_pred @ A_k.T).T
-            ).T  # more stable
+            G_k = scaled_gain(P_star_pred @ A_k.T, P_pred_next)
 
             # Update state and covariance
             m_star_hat = m_star_pred + G_k @ (m_hat_next - m_pred_next)
-- 
2.43.0

