From 9a63dfb4822a8d54615b67c30cbf6e5b787571c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 01/43] fix: keep index configuration and name in Tensor.subs

---
 src/einsteinpy/symbolic/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 586b118..f3a7e32 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -234,7 +234,9 @@ class Tensor:
             Tensor with substituted values
 
         """
-        return Tensor(self.tensor().subs(*args))
+        return Tensor(
+            self.tensor().subs(*args), config=self.config, name=self.name
+        )
 
     def simplify(self, set_self=True):
         """
-- 
2.43.0


From 2cb76556cb9be91a6671951b7cb3b5092be062d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 02/43] fix: StressEnergyMomentumTensor.change_config returns
 its own class

---
 src/einsteinpy/symbolic/stress_energy_momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/stress_energy_momentum.py b/src/einsteinpy/symbolic/stress_energy_momentum.py
index 81a87de..b1eb724 100644
--- a/src/einsteinpy/symbolic/stress_energy_momentum.py
+++ b/src/einsteinpy/symbolic/stress_energy_momentum.py
@@ -92,7 +92,7 @@ class StressEnergyMomentumTensor(BaseRelativityTensor):
         if metric is None:
             raise Exception("Parent Metric not found, can't do configuration change")
         new_tensor = _change_config(self, metric, newconfig)
-        new_obj = EinsteinTensor(
+        new_obj = StressEnergyMomentumTensor(
             new_tensor,
             self.syms,
             config=newconfig,
-- 
2.43.0


From 5075d5fa102a01c6137836db30b1e6a7ce5e7bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 03/43] fix: DeSitter metric expands with time, not with x

---
 src/einsteinpy/symbolic/predefined/de_sitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/de_sitter.py b/src/einsteinpy/symbolic/predefined/de_sitter.py
index e8798bb..3d8cb9c 100644
--- a/src/einsteinpy/symbolic/predefined/de_sitter.py
+++ b/src/einsteinpy/symbolic/predefined/de_sitter.py
@@ -42,7 +42,7 @@ def DeSitter():
 
     """
     coords = symbols("t x y z")
-    t = coords[1]
+    t = coords[0]
     al = symbols("alpha")
     expr = exp(2 * t / al)
     metric = diag(-1, expr, expr, expr).tolist()
-- 
2.43.0


From c76a44cdb13a466cde546e8233da8934863f36ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 04/43] fix: tensor_product keeps the variables of both factors

A product dropped the second factor's variables, so the function returned by
tensor_lambdify() left them unbound.
---
 src/einsteinpy/symbolic/tensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index f3a7e32..3383a75 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -111,8 +111,8 @@ def tensor_product(tensor1, tensor2, i=None, j=None):
         syms=tensor1.syms,
         config=newconfig,
         parent_metric=tensor1.parent_metric,
-        variables=tensor1.variables,
-        functions=tensor1.functions,
+        variables=list(dict.fromkeys([*tensor1.variables, *tensor2.variables])),
+        functions=list(dict.fromkeys([*tensor1.functions, *tensor2.functions])),
     )
 
 
-- 
2.43.0


From 6a1f10a646aa4c6f1f3050f3ace2330c91094418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 05/43] fix: lorentz_transform uses the inverse matrix on
 covariant indices

With the forward matrix on lower indices, contractions of an upper with a
lower index were not invariant.
---
 src/einsteinpy/symbolic/tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 3383a75..fc6efce 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -439,12 +439,16 @@ class BaseRelativityTensor(Tensor):
 
         """
         tm = sympy.Array(transformation_matrix)
+        # covariant indices transform with the inverse matrix
+        tm_inv = tm
+        if "l" in self.config:
+            tm_inv = sympy.Array(simplify(sympy.Matrix(tm.tolist()).inv()).tolist())
         t = self.tensor()
         for i in range(self.order):
             if self.config[i] == "u":
                 t = simplify(tensorcontraction(tensorproduct(tm, t), (1, 2 + i)))
             else:
-                t = simplify(tensorcontraction(tensorproduct(tm, t), (0, 2 + i)))
+                t = simplify(tensorcontraction(tensorproduct(tm_inv, t), (0, 2 + i)))
             dest = list(range(len(t.shape)))
             dest.remove(0)
             dest.insert(i, 0)
-- 
2.43.0


From 20c9126806c0ad6f33f3108f09e1ca9cd64f5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 06/43] fix: lorentz_transform records the symbols of the
 transformation

Otherwise tensor_lambdify() of the transformed tensor leaves them unbound.
---
 src/einsteinpy/symbolic/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index fc6efce..2397258 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -454,12 +454,13 @@ class BaseRelativityTensor(Tensor):
             dest.insert(i, 0)
             t = sympy.permutedims(t, dest)
 
+        new_variables = tm.free_symbols.difference(self.syms, self.variables)
         return BaseRelativityTensor(
             t,
             syms=self.syms,
             config=self.config,
             parent_metric=None,
-            variables=self.variables,
+            variables=[*self.variables, *sorted(new_variables, key=lambda v: v.name)],
             functions=self.functions,
             name=_change_name(self.name, context="__lt"),
         )
-- 
2.43.0


From afc4ecfce3ef4a40128892c1eed2af257c5ced4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:53 +0000
Subject: [PATCH 07/43] fix: order of the Bessel functions in
 BesselGravitationalWave

sympy's besselj takes the order first; the metric was not a vacuum solution.
---
 .../symbolic/predefined/bessel_gravitational_wave.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
index 18f5b47..86a77ca 100644
--- a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
+++ b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
@@ -24,14 +24,14 @@ def BesselGravitationalWave(C=symbols("C")):
     t, rho, ph, z = coords
 
     # Useful helper functions, these wrap the Bessel functions that are used. C is some constant here
-    U = C * besselj(rho, 0) * cos(t)
+    U = C * besselj(0, rho) * cos(t)
     K = (
         (1 / 2)
         * (C**2)
         * rho
         * (
-            (rho * ((besselj(rho, 0) ** 2) + (besselj(rho, 1) ** 2)))
-            - (2 * besselj(rho, 0) * besselj(rho, 1) * (cos(t) ** 2))
+            (rho * ((besselj(0, rho) ** 2) + (besselj(1, rho) ** 2)))
+            - (2 * besselj(0, rho) * besselj(1, rho) * (cos(t) ** 2))
         )
     )
 
-- 
2.43.0


From 2896da8ede541cdd599192b0c34711fbfd0c727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 08/43] fix: AlcubierreWarp distance from the bubble centre
 uses y**2 + z**2

---
 src/einsteinpy/symbolic/predefined/alcubierre_warp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
index 9a63dd2..a52a190 100644
--- a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
+++ b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
@@ -40,7 +40,7 @@ def AlcubierreWarp(
     """
     coords = symbols("t x y z")
     t, x, y, z = coords
-    r_s = sqrt((x - x_s) ** 2 + y + z)
+    r_s = sqrt((x - x_s) ** 2 + y**2 + z**2)
     f = (tanh(sigma * (r_s + R)) - tanh(sigma * (r_s - R))) / (2 * tanh(sigma * R))
 
     v2 = v**2
-- 
2.43.0


From 3bf8aadd9fd0c2a9436e64a8e88ed6a32d8d2358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 09/43] fix: KerrNewman metric and its derivatives depend on
 the charge

Delta was computed without Q, so the metric was Kerr for every charge.
---
 src/einsteinpy/metric/kerrnewman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 69d2c88..3fc17f6 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -134,9 +134,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         g_cov_bl = np.zeros(shape=(4, 4), dtype=float)
 
@@ -175,9 +175,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         dgdx = np.zeros(shape=(4, 4, 4), dtype=float)
 
-- 
2.43.0


From cb9e8bcb593e17c6d943d441277dcab59845e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 10/43] fix: KerrNewman electromagnetic field keeps the sign of
 the charge

---
 src/einsteinpy/metric/kerrnewman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 3fc17f6..196044f 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -431,7 +431,7 @@ class KerrNewman(BaseMetric):
 
         alpha = super().alpha(M, a)
         # Geometrized Charge
-        r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
+        r_Q = Q * np.sqrt(_G * _Cc) / _c**2
         rho2 = super().rho(r, th, M, a) ** 2
 
         A = np.zeros((4,), dtype=float)
@@ -483,7 +483,7 @@ class KerrNewman(BaseMetric):
         M, a, Q = self.M.value, self.a.value, self.Q.value
 
         alpha = super().alpha(M, a)
-        r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
+        r_Q = Q * np.sqrt(_G * _Cc) / _c**2
         rho2 = super().rho(r, th, M, a) ** 2
         # Partial derivatives of rho2
         drho2_dr = 2 * r
-- 
2.43.0


From 32d5b0f224347ad8e75c15dc65234e2759216fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 11/43] fix: Lorentz force in KerrNewman lowers the velocity
 with the metric

The force is F^{mu nu} u_nu; contracting in the other order does not preserve
the norm of the 4-velocity.
---
 src/einsteinpy/metric/kerrnewman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 196044f..c6669ff 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -405,7 +405,7 @@ class KerrNewman(BaseMetric):
             + chl[3, 2, 3] * vec[6] * vec[7]
         )
 
-        vals[4:] -= self.q.value * (F_contra @ vec[4:] @ g_cov)
+        vals[4:] -= self.q.value * (F_contra @ (g_cov @ vec[4:]))
 
         return vals
 
-- 
2.43.0


From 1b6359eaad2f382ba3d3851c4c09120e8880547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 12/43] fix: metrics accept mass, spin and charge in any
 compatible unit

Units were stripped without conversion to SI, so a mass in solar masses was
read as that many kilograms.
---
 src/einsteinpy/metric/base_metric.py |  3 ++-
 src/einsteinpy/metric/kerr.py        |  4 ++--
 src/einsteinpy/metric/kerrnewman.py  | 10 +++++-----
 src/einsteinpy/units.py              |  2 +-
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 7a36242..fe4ad10 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -289,7 +289,8 @@ class BaseMetric:
             coordinate system, the metric object has been instantiated with
 
         """
-        system, M, a, Q = self.coords.system, self.M.value, self.a.value, self.Q.value
+        system = self.coords.system
+        M, a, Q = primitive(self.M, self.a, self.Q)
 
         r_s = 2 * M * _G / _c**2
         alpha = BaseMetric.alpha(M, a)
diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index e13592a..cd9c38c 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -125,7 +125,7 @@ class Kerr(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        r_s, M, a = self.sch_rad, self.M.value, self.a.value
+        r_s, M, a = self.sch_rad, self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
 
@@ -166,7 +166,7 @@ class Kerr(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        r_s, M, a = self.sch_rad, self.M.value, self.a.value
+        r_s, M, a = self.sch_rad, self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
 
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index c6669ff..bcb6721 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -134,7 +134,7 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
         alpha = super().alpha(M, a)
         rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
@@ -175,7 +175,7 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
         alpha = super().alpha(M, a)
         rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
@@ -405,7 +405,7 @@ class KerrNewman(BaseMetric):
             + chl[3, 2, 3] * vec[6] * vec[7]
         )
 
-        vals[4:] -= self.q.value * (F_contra @ (g_cov @ vec[4:]))
+        vals[4:] -= self.q.si.value * (F_contra @ (g_cov @ vec[4:]))
 
         return vals
 
@@ -427,7 +427,7 @@ class KerrNewman(BaseMetric):
 
         """
         _, r, th, _ = x_vec
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         alpha = super().alpha(M, a)
         # Geometrized Charge
@@ -480,7 +480,7 @@ class KerrNewman(BaseMetric):
 
         """
         _, r, th, _ = x_vec
-        M, a, Q = self.M.value, self.a.value, self.Q.value
+        M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         alpha = super().alpha(M, a)
         r_Q = Q * np.sqrt(_G * _Cc) / _c**2
diff --git a/src/einsteinpy/units.py b/src/einsteinpy/units.py
index 1780568..39f5992 100644
--- a/src/einsteinpy/units.py
+++ b/src/einsteinpy/units.py
@@ -24,7 +24,7 @@ def primitive(*args):
     primitive_args = []
     for item in args:
         if isinstance(item, u.Quantity):
-            primitive_args.append(item.value)
+            primitive_args.append(item.si.value)
         else:
             primitive_args.append(item)
 
-- 
2.43.0


From 38626587d86c6272d1e4df7932cdc8a6f5d09a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 13/43] fix: azimuthal velocity of Cartesian to Boyer-Lindquist
 conversion at x = 0

---
 src/einsteinpy/coordinates/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index dca3dd3..d903607 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -77,7 +77,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
         )
     )
     v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))
-    v_p = (1 / (1 + np.square(y / x))) * ((v_y * x - v_x * y) / (x**2))
+    v_p = (v_y * x - v_x * y) / (x**2 + y**2)
 
     return t, r, theta, phi, v_r, v_th, v_p
 
-- 
2.43.0


From ed5c392103d1d23b8c077378bc73eaa6fe1f0564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 14/43] fix: polar angle of Cartesian to Boyer-Lindquist
 conversion near the axis

Rounding could push z / r beyond 1, which made the angle NaN.
---
 src/einsteinpy/coordinates/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index d903607..b98f3ff 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -66,7 +66,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
     """
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arccos(z / r)
+    theta = np.arctan2(np.hypot(x, y) / np.sqrt(r**2 + alpha**2), z / r)
     phi = np.arctan2(y, x)
     dw_dt = 2 * (x * v_x + y * v_y + z * v_z)
     v_r = (1 / (2 * r)) * (
@@ -76,7 +76,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
             / (2 * np.sqrt((w**2) + (4 * (alpha**2) * (z**2))))
         )
     )
-    v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))
+    v_th = (-1 / np.sin(theta)) * ((v_z * r - v_r * z) / (r**2))
     v_p = (v_y * x - v_x * y) / (x**2 + y**2)
 
     return t, r, theta, phi, v_r, v_th, v_p
@@ -91,7 +91,7 @@ def cartesian_to_bl_novel(t, x, y, z, alpha):
     """
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arccos(z / r)
+    theta = np.arctan2(np.hypot(x, y) / np.sqrt(r**2 + alpha**2), z / r)
     phi = np.arctan2(y, x)
 
     return t, r, theta, phi
-- 
2.43.0


From 117e31e859ac2585f70a958494b1df88565825a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:11 +0000
Subject: [PATCH 15/43] fix: name the offending coordinate system in the
 Boyer-Lindquist velocity error

---
 src/einsteinpy/coordinates/differential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/coordinates/differential.py b/src/einsteinpy/coordinates/differential.py
index 3736f56..3a9dfd0 100644
--- a/src/einsteinpy/coordinates/differential.py
+++ b/src/einsteinpy/coordinates/differential.py
@@ -539,7 +539,7 @@ class BoyerLindquistDifferential(BoyerLindquistConversion):
         g = args[0]
         if self.system != g.coords.system:
             raise CoordinateError(
-                "Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
+                f"Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
                 " other than Boyer-Lindquist Coordinates."
             )
 
-- 
2.43.0


From 6eca2fd9fbea1f1cb7144f594a5313f8c711a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:31 +0000
Subject: [PATCH 16/43] fix: order 6 and 8 geodesic integrators use the
 coefficients of each level

The nested lower-order steps used the outer order's coefficients, which left
the composition second-order accurate.
---
 src/einsteinpy/integrators/fantasy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/integrators/fantasy.py b/src/einsteinpy/integrators/fantasy.py
index 042d003..8f66aed 100644
--- a/src/einsteinpy/integrators/fantasy.py
+++ b/src/einsteinpy/integrators/fantasy.py
@@ -207,7 +207,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(4)
         step1 = self._ord_2(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_2(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_2(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -228,7 +228,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(6)
         step1 = self._ord_4(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_4(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_4(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -249,7 +249,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(8)
         step1 = self._ord_6(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_6(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-- 
2.43.0


From 20bd62a6b2e00883a29aad38488ab4709e11120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 17/43] fix: RK4naive integrates towards t_bound and stops
 there

The direction was always 0, so the bound was never enforced and integration
to an earlier time went the wrong way.
---
 src/einsteinpy/integrators/runge_kutta.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index 331fa77..e436c3c 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -32,7 +32,7 @@ class RK4naive:
         self.t_bound = t_bound
         self.step_size = stepsize
         self._fun = fun
-        self.direction = 1 * (self.t_bound >= t0) - 1 * (not self.t_bound < t0)
+        self.direction = 1 * (self.t_bound >= t0) - 1 * (self.t_bound < t0)
 
     def step(self):
         """
@@ -43,16 +43,14 @@ class RK4naive:
         ):
             warnings.warn("Out of bounds set by t_bound. ", RuntimeWarning)
             return
+        # Step towards t_bound, without going past it
+        h = self.direction * min(abs(self.step_size), abs(self.t_bound - self.t))
         k0 = self._fun(self.t, self.y)
-        k1 = self._fun(
-            self.t + (self.step_size / 2.0), self.y + (self.step_size / 2.0) * k0
-        )
-        k2 = self._fun(
-            self.t + (self.step_size / 2.0), self.y + (self.step_size / 2.0) * k1
-        )
-        k3 = self._fun(self.t + self.step_size, self.y + (self.step_size) * k2)
-        self.y = self.y + ((self.step_size / 6.0) * (k0 + 2 * k1 + 2 * k2 + k3))
-        self.t = self.t + self.step_size
+        k1 = self._fun(self.t + (h / 2.0), self.y + (h / 2.0) * k0)
+        k2 = self._fun(self.t + (h / 2.0), self.y + (h / 2.0) * k1)
+        k3 = self._fun(self.t + h, self.y + h * k2)
+        self.y = self.y + ((h / 6.0) * (k0 + 2 * k1 + 2 * k2 + k3))
+        self.t = self.t + h
 
 
 class RK45(integrate.RK45):
-- 
2.43.0


From 13760132c76bb4499352fe060dfe30e44bf1514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 18/43] fix: initial 4-momentum is on shell for metrics with
 any off-diagonal terms

Only the t-phi component was considered, so user-supplied metrics with other
off-diagonal components started off the mass shell.
---
 src/einsteinpy/geodesic/utils.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/einsteinpy/geodesic/utils.py b/src/einsteinpy/geodesic/utils.py
index 5408211..3905f70 100644
--- a/src/einsteinpy/geodesic/utils.py
+++ b/src/einsteinpy/geodesic/utils.py
@@ -41,13 +41,8 @@ def _P(g, g_prms, q, p, time_like=True):
     P = np.array([0.0, *p])
 
     A = guu[0, 0]
-    B = 2 * guu[0, 3] * P[3]
-    C = (
-        guu[1, 1] * P[1] * P[1]
-        + guu[2, 2] * P[2] * P[2]
-        + guu[3, 3] * P[3] * P[3]
-        + int(time_like)
-    )
+    B = 2 * (guu[0, 1:] @ P[1:])
+    C = P[1:] @ guu[1:, 1:] @ P[1:] + int(time_like)
 
     P[0] = (-B + np.sqrt(B**2 - 4 * A * C)) / (2 * A)
 
-- 
2.43.0


From 2b99ba9e42e0d11d0d94b1600233b5b0158badcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 19/43] fix: radius of the ergosphere drawn by the geodesic
 plotters

The ergosphere is at 1 + sqrt(1 - a**2 cos(polar angle)**2).
---
 src/einsteinpy/plotting/geodesic/interactive.py | 4 ++--
 src/einsteinpy/plotting/geodesic/static.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index fef2ed7..3e70468 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -65,7 +65,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -120,7 +120,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 2de182e..d79366c 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -92,7 +92,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -144,7 +144,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
-- 
2.43.0


From ae08f8e44ba3f3b57185ac7a64a8f12e01575d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 20/43] fix: Shadow turning points for a mass that is not a
 whole number

---
 src/einsteinpy/rays/shadow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index f09adab..dd2755a 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -48,7 +48,7 @@ class Shadow:
         Returns the root of the equation for ``r_tp`` (turning points) for some impact parameter
         """
         # emath.sqrt is domain-agnostic and this is a complex equation
-        return r_tp / np.emath.sqrt(1 - (2 * int(self.mass.value) / r_tp)) - i
+        return r_tp / np.emath.sqrt(1 - (2 * self.mass.value / r_tp)) - i
 
     def _intensity_blue_sch(self, r, b):
         """
-- 
2.43.0


From 03c020d9082b3924e61e078a21e6aaaa4652c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 21/43] fix: plot2D rejects invalid coordinates before drawing
 anything

A rejected call used to leave a black hole drawn on the figure.
---
 src/einsteinpy/plotting/geodesic/interactive.py | 6 +++---
 src/einsteinpy/plotting/geodesic/static.py      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index 3e70468..376652d 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -247,9 +247,6 @@ class InteractiveGeodesicPlotter:
             If indices in ``coordinates`` do not take values from ``(1, 2, 3)``
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
-
         traj = geodesic.trajectory[1]
         A = coordinates[0]
         B = coordinates[1]
@@ -262,6 +259,9 @@ class InteractiveGeodesicPlotter:
                 """
             )
 
+        a = geodesic.metric_params[0]
+        self._draw_bh_2D(a, figsize)
+
         self.fig.add_trace(
             go.Scatter(
                 x=traj[:, A],
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index d79366c..b332cf3 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -243,9 +243,6 @@ class StaticGeodesicPlotter:
             If indices in ``coordinates`` do not take values from ``(1, 2, 3)``
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
-
         traj = geodesic.trajectory[1]
         A = coordinates[0]
         B = coordinates[1]
@@ -258,6 +255,9 @@ class StaticGeodesicPlotter:
                 """
             )
 
+        a = geodesic.metric_params[0]
+        self._draw_bh_2D(a, figsize)
+
         fontsize = max(figsize) + 3
         self.ax.set_xlabel(f"$X{coordinates[0]}\\:(GM/c^2)$", fontsize=fontsize)
         self.ax.set_ylabel(f"$X{coordinates[1]}\\:(GM/c^2)$", fontsize=fontsize)
-- 
2.43.0


From b0b28a8e7e67f1e1cc40cf26a40f78551f496d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 22/43] fix: angular part of the JanisNewmanWinicour metric has
 the units of the rest

---
 src/einsteinpy/symbolic/predefined/janis_newman_winicour.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
index 47adedc..b799b4d 100644
--- a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
+++ b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
@@ -30,7 +30,7 @@ def JanisNewmanWinicour(
     metric = diag(
         -1 * (alpha**gam),
         (alpha**-gam) / (c**2),
-        (r**2) * (alpha ** (-gam + 1)),
-        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2),
+        (r**2) * (alpha ** (-gam + 1)) / (c**2),
+        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2) / (c**2),
     ).tolist()
     return MetricTensor(metric, coords, "ll", name="JanisNewmanWinicourMetric")
-- 
2.43.0


From 671e69b566d589a36961c10a4d34f4d839568ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 23/43] fix: like charges repel in KerrNewman

With the velocity lowered by the metric, the Lorentz force q F^{mu nu} u_nu
enters the equation of motion with a plus sign.
---
 src/einsteinpy/metric/kerrnewman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index bcb6721..4c1baa2 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -405,7 +405,7 @@ class KerrNewman(BaseMetric):
             + chl[3, 2, 3] * vec[6] * vec[7]
         )
 
-        vals[4:] -= self.q.si.value * (F_contra @ (g_cov @ vec[4:]))
+        vals[4:] += self.q.si.value * (F_contra @ (g_cov @ vec[4:]))
 
         return vals
 
-- 
2.43.0


From 006bf906c1ff240ed9cfabac3384d4e7623a72aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 24/43] fix: radial derivative of g_phiphi in the Kerr metric

---
 src/einsteinpy/metric/kerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index cd9c38c..5dda051 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -182,7 +182,7 @@ class Kerr(BaseMetric):
             dgdx[1, 0, 0] = -tmp * _c**2
             dgdx[1, 1, 1] = -(dsdr - (sg * (dddr / dl))) / dl
             dgdx[1, 2, 2] = -dsdr
-            dgdx[1, 3, 3] = (-2 * r + ((alpha * np.sin(th)) ** 2) * tmp) * (
+            dgdx[1, 3, 3] = (-2 * r - ((alpha * np.sin(th)) ** 2) * tmp) * (
                 np.sin(th) ** 2
             )
             dgdx[1, 0, 3] = dgdx[1, 3, 0] = _c * alpha * (np.sin(th) ** 2) * tmp
-- 
2.43.0


From c2a24c7381ef0695a608a2d90d405ec65c2aaf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 25/43] fix: Shadow keeps every ray above the critical impact
 parameter

---
 src/einsteinpy/rays/shadow.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index dd2755a..8f2f414 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -25,7 +25,13 @@ class Shadow:
         self.z = list()
         self.bfin = list()
         for i in self.b:
-            root = newton(self._root_equation, 0.1, args=(i,))
+            # Only rays above the critical impact parameter have a turning point
+            if i <= self.b_crit.value:
+                continue
+            # Starting from r_tp = b, the iterates stay real and outside the photon sphere
+            root = newton(
+                self._root_equation, i, args=(i,), tol=1e-8 * self.mass.value
+            )
             if np.isreal(root):
                 self.bfin.append(i)
                 self.z.append([i, np.real(root)])
-- 
2.43.0


From 67e47a8911946b728c7e23ca29a1aaabe50196a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 26/43] fix: RK45 accepts a float as the initial value

---
 src/einsteinpy/integrators/runge_kutta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index e436c3c..41bd7a1 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -89,7 +89,7 @@ class RK45(integrate.RK45):
         super(RK45, self).__init__(
             fun=fun,
             t0=t0,
-            y0=y0,
+            y0=np.atleast_1d(y0),
             t_bound=self._t_bound,
             first_step=0.8 * stepsize,
             max_step=8.0 * stepsize,
-- 
2.43.0


From 3cd91d75c66151d1cf1cb2f70482bfff0a2af8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 27/43] fix: animation of a geodesic reaches its last point

---
 src/einsteinpy/plotting/geodesic/static.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index b332cf3..98c9353 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -354,8 +354,8 @@ class StaticGeodesicPlotter:
         (line,) = self.ax.plot(data[0, 0:1], data[1, 0:1], data[2, 0:1])
 
         def _update(num, data, line):
-            line.set_data(data[:2, :num])
-            line.set_3d_properties(data[2, :num])
+            line.set_data(data[:2, : num + 1])
+            line.set_3d_properties(data[2, : num + 1])
 
             return (line,)
 
-- 
2.43.0


From 7a1886dbfb704704bc85ae0b74848265322f8432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 28/43] fix: StaticGeodesicPlotter shows and saves its own
 figure

---
 src/einsteinpy/plotting/geodesic/static.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 98c9353..c570f6c 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -384,6 +384,7 @@ class StaticGeodesicPlotter:
         fontsize = max(figsize) + 1.5
         if self.ax.name == "3d":
             self.ax.view_init(azim=azim, elev=elev)
+        plt.figure(self.fig.number)
         plt.legend(prop={"size": fontsize})
 
         plt.show()
@@ -411,4 +412,6 @@ class StaticGeodesicPlotter:
         if self.ax.name != "3d" and name == "Geodesic.png":
             name = "Parametric.png"
 
+        # The current figure can belong to another plotter
+        plt.figure(self.fig.number)
         plt.savefig(name)
-- 
2.43.0


From 5e0a716d4ec20e01a06cbbebf49af20e699ea8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 29/43] fix: constants with the same symbol keep their own
 descriptive names

---
 src/einsteinpy/symbolic/constants.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/constants.py b/src/einsteinpy/symbolic/constants.py
index d704211..b05d678 100644
--- a/src/einsteinpy/symbolic/constants.py
+++ b/src/einsteinpy/symbolic/constants.py
@@ -23,7 +23,9 @@ class SymbolicConstant(Symbol):
 
         """
 
-        instance = super(SymbolicConstant, cls).__new__(cls, name, **assumptions)
+        # Symbols are cached by name, a cached instance is shared with other constants
+        cls._sanitize(assumptions, cls)
+        instance = Symbol.__xnew__(cls, name, **assumptions)
         instance._descriptive_name = descriptive_name
         return instance
 
-- 
2.43.0


From 47143b00f16519879d2c07074ced576647f93871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 30/43] fix: KerrNewman electromagnetic field is refused
 outside Boyer-Lindquist coordinates

---
 src/einsteinpy/metric/kerrnewman.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 4c1baa2..26550fd 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -425,7 +425,18 @@ class KerrNewman(BaseMetric):
             Covariant Electromagnetic 4-Potential
             Numpy array of shape (4,)
 
+        Raises
+        ------
+        CoordinateError
+            Raised, if the metric object has been instantiated with a
+            Coordinate System, other than Boyer-Lindquist Coordinates
+
         """
+        if self.coords.system != "BoyerLindquist":
+            raise CoordinateError(
+                "Electromagnetic Potential for Kerr-Newman Metric is available only in Boyer-Lindquist Coordinates."
+            )
+
         _, r, th, _ = x_vec
         M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
@@ -478,7 +489,18 @@ class KerrNewman(BaseMetric):
             Covariant Electromagnetic Tensor
             Numpy array of shape (4, 4)
 
+        Raises
+        ------
+        CoordinateError
+            Raised, if the metric object has been instantiated with a
+            Coordinate System, other than Boyer-Lindquist Coordinates
+
         """
+        if self.coords.system != "BoyerLindquist":
+            raise CoordinateError(
+                "Electromagnetic Tensor for Kerr-Newman Metric is available only in Boyer-Lindquist Coordinates."
+            )
+
         _, r, th, _ = x_vec
         M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
-- 
2.43.0


From 9b30cba899703c4ad22823858314a93fbb522865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 31/43] fix: f_vec does not round the accelerations of an
 integer state

---
 src/einsteinpy/metric/kerr.py          | 2 +-
 src/einsteinpy/metric/kerrnewman.py    | 2 +-
 src/einsteinpy/metric/schwarzschild.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index 5dda051..2cc0650 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -341,7 +341,7 @@ class Kerr(BaseMetric):
 
         """
         chl = self.christoffels(vec[:4])
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=np.shape(vec), dtype=float)
 
         vals[:4] = vec[4:]
 
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 26550fd..460301b 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -372,7 +372,7 @@ class KerrNewman(BaseMetric):
         F_contra = self.em_tensor_contravariant(vec[:4])
         g_cov = self.metric_covariant(vec[:4])
 
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=np.shape(vec), dtype=float)
 
         vals[:4] = vec[4:]
 
diff --git a/src/einsteinpy/metric/schwarzschild.py b/src/einsteinpy/metric/schwarzschild.py
index d8226df..88d64e3 100644
--- a/src/einsteinpy/metric/schwarzschild.py
+++ b/src/einsteinpy/metric/schwarzschild.py
@@ -208,7 +208,7 @@ class Schwarzschild(BaseMetric):
 
         """
         chl = self.christoffels(vec[:4])
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=np.shape(vec), dtype=float)
 
         vals[:4] = vec[4:]
         vals[4] = -2 * chl[0, 0, 1] * vec[4] * vec[5]
-- 
2.43.0


From 208400bc77f2bcbd5500aafdc2aec8164e6e920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:17 +0000
Subject: [PATCH 32/43] fix: metrics accept positions given as arrays of
 integers

---
 src/einsteinpy/metric/base_metric.py   | 4 ++--
 src/einsteinpy/metric/kerr.py          | 4 ++--
 src/einsteinpy/metric/kerrnewman.py    | 8 ++++----
 src/einsteinpy/metric/schwarzschild.py | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index fe4ad10..4e40226 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -148,7 +148,7 @@ class BaseMetric:
         """
         r, theta, M, a = primitive(r, theta, M, a)
         alpha = BaseMetric.alpha(M, a)
-        sigma = (r**2) + ((alpha * np.cos(theta)) ** 2)
+        sigma = ((1.0 * r) ** 2) + ((alpha * np.cos(theta)) ** 2)
         return sigma
 
     @staticmethod
@@ -181,7 +181,7 @@ class BaseMetric:
         alpha = BaseMetric.alpha(M, a)
         # Square of Geometrized Charge
         r_Q2 = (Q**2) * _G * _Cc / _c**4
-        delta = (r**2) - (r_s * r) + (alpha**2) + r_Q2
+        delta = ((1.0 * r) ** 2) - (r_s * r) + (alpha**2) + r_Q2
 
         return delta
 
diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index 2cc0650..a4b959b 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -124,7 +124,7 @@ class Kerr(BaseMetric):
             Numpy array of shape (4,4)
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         r_s, M, a = self.sch_rad, self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
@@ -165,7 +165,7 @@ class Kerr(BaseMetric):
             derivatives of metric w.r.t. t, r, theta & phi respectively
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         r_s, M, a = self.sch_rad, self.M.si.value, self.a.si.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 460301b..1fc12c0 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -133,7 +133,7 @@ class KerrNewman(BaseMetric):
             Numpy array of shape (4,4)
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
         alpha = super().alpha(M, a)
         rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
@@ -174,7 +174,7 @@ class KerrNewman(BaseMetric):
             derivatives of metric w.r.t. t, r, theta & phi respectively
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
         alpha = super().alpha(M, a)
         rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
@@ -437,7 +437,7 @@ class KerrNewman(BaseMetric):
                 "Electromagnetic Potential for Kerr-Newman Metric is available only in Boyer-Lindquist Coordinates."
             )
 
-        _, r, th, _ = x_vec
+        r, th = 1.0 * x_vec[1], x_vec[2]
         M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         alpha = super().alpha(M, a)
@@ -501,7 +501,7 @@ class KerrNewman(BaseMetric):
                 "Electromagnetic Tensor for Kerr-Newman Metric is available only in Boyer-Lindquist Coordinates."
             )
 
-        _, r, th, _ = x_vec
+        r, th = 1.0 * x_vec[1], x_vec[2]
         M, a, Q = self.M.si.value, self.a.si.value, self.Q.si.value
 
         alpha = super().alpha(M, a)
diff --git a/src/einsteinpy/metric/schwarzschild.py b/src/einsteinpy/metric/schwarzschild.py
index 88d64e3..110e411 100644
--- a/src/einsteinpy/metric/schwarzschild.py
+++ b/src/einsteinpy/metric/schwarzschild.py
@@ -77,7 +77,7 @@ class Schwarzschild(BaseMetric):
             Numpy array of shape (4,4)
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         r_s = self.sch_rad
         g_cov = np.zeros(shape=(4, 4), dtype=float)
 
@@ -137,7 +137,7 @@ class Schwarzschild(BaseMetric):
             Numpy array of shape (4,4,4)
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         r_s = self.sch_rad
         chl = np.zeros(shape=(4, 4, 4), dtype=float)
 
-- 
2.43.0


From f7454f85bd665bf70de06da4dbabfb361a29edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 33/43] fix: every dimension of a tensor must match the number
 of coordinates

---
 src/einsteinpy/symbolic/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 2397258..10948e6 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -334,7 +334,7 @@ class BaseRelativityTensor(Tensor):
         """
         super(BaseRelativityTensor, self).__init__(arr=arr, config=config, name=name)
 
-        if len(self.arr.shape) != 0 and self.arr.shape[0] != len(syms):
+        if any(dim != len(syms) for dim in self.arr.shape):
             raise ValueError("invalid shape of argument arr for syms: {}".format(syms))
 
         # Cannot implement the check that parent metric belongs to the class MetricTensor
-- 
2.43.0


From 452161e6021d552111481f1835e937c25f0971e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:40 +0000
Subject: [PATCH 34/43] fix: accept callable metrics without a __name__
 (functools.partial, instances) in Geodesic

---
 src/einsteinpy/geodesic/geodesic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/geodesic/geodesic.py b/src/einsteinpy/geodesic/geodesic.py
index d15c9b9..d7bc964 100644
--- a/src/einsteinpy/geodesic/geodesic.py
+++ b/src/einsteinpy/geodesic/geodesic.py
@@ -105,7 +105,7 @@ class Geodesic:
                     \n1. Schwarzschild\n2. Kerr\n3. KerrNewman\n4. Any user-supplied callable metric function"
                 )
 
-            self.metric_name = metric.__name__
+            self.metric_name = getattr(metric, "__name__", type(metric).__name__)
             self.metric = metric
         else:
             self.metric_name = metric
-- 
2.43.0


From 180a20992a371337638035a686a9620a25f189b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:16 +0000
Subject: [PATCH 35/43] fix: predefined metrics accept numpy floats as
 parameters

---
 src/einsteinpy/symbolic/predefined/barriola_vilenkin.py | 3 ++-
 src/einsteinpy/symbolic/predefined/bertotti_kasner.py   | 3 ++-
 src/einsteinpy/symbolic/predefined/minkowski.py         | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/barriola_vilenkin.py b/src/einsteinpy/symbolic/predefined/barriola_vilenkin.py
index 2ff2640..6f6e3d2 100644
--- a/src/einsteinpy/symbolic/predefined/barriola_vilenkin.py
+++ b/src/einsteinpy/symbolic/predefined/barriola_vilenkin.py
@@ -1,4 +1,4 @@
-from sympy import diag, sin, symbols
+from sympy import diag, sin, symbols, sympify
 
 from einsteinpy.symbolic import constants
 from einsteinpy.symbolic.metric import MetricTensor
@@ -20,6 +20,7 @@ def BarriolaVilekin(c=constants.c, k=symbols("k")):
         Defaults to ``k``.
     """
     coords = symbols("t r theta phi")
+    c, k = sympify(c), sympify(k)
     t, r, th, ph = coords
     # define the metric
     metric = diag(
diff --git a/src/einsteinpy/symbolic/predefined/bertotti_kasner.py b/src/einsteinpy/symbolic/predefined/bertotti_kasner.py
index 27edaca..96c95a4 100644
--- a/src/einsteinpy/symbolic/predefined/bertotti_kasner.py
+++ b/src/einsteinpy/symbolic/predefined/bertotti_kasner.py
@@ -1,4 +1,4 @@
-from sympy import diag, exp, sin, sqrt, symbols
+from sympy import diag, exp, sin, sqrt, symbols, sympify
 
 from einsteinpy.symbolic import constants
 from einsteinpy.symbolic.metric import MetricTensor
@@ -19,6 +19,7 @@ def BertottiKasner(c=constants.c, k=symbols("k"), lambd=symbols("l")):
         Defaults to ``l``.
     """
     coords = symbols("t r theta phi")
+    c, lambd = sympify(c), sympify(lambd)
     t, r, th, ph = coords
     # define the metric
     metric = diag(
diff --git a/src/einsteinpy/symbolic/predefined/minkowski.py b/src/einsteinpy/symbolic/predefined/minkowski.py
index 8172d0d..9777130 100644
--- a/src/einsteinpy/symbolic/predefined/minkowski.py
+++ b/src/einsteinpy/symbolic/predefined/minkowski.py
@@ -1,4 +1,4 @@
-from sympy import diag, sin, symbols
+from sympy import diag, sin, symbols, sympify
 
 from einsteinpy.symbolic import constants
 from einsteinpy.symbolic.metric import MetricTensor
@@ -16,6 +16,7 @@ def MinkowskiCartesian(c=constants.c):
 
     """
     coords = symbols("t x y z")
+    c = sympify(c)
     metric = diag(-1, 1 / (c**2), 1 / (c**2), 1 / (c**2)).tolist()
     return MetricTensor(metric, coords, "ll", name="MinkowskiMetric")
 
@@ -35,6 +36,7 @@ def MinkowskiPolar(c=constants.c):
 
     """
     coords = symbols("t r theta phi")
+    c = sympify(c)
     t, r, th, ph = coords
     c2 = c**2
     metric = diag(-1, 1 / c2, (r**2) / c2, (r**2 * sin(th) ** 2) / c2).tolist()
-- 
2.43.0


From f2b0b2558ff45751643da5dff5d4c02bb574fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:08 +0000
Subject: [PATCH 36/43] fix: color of StaticGeodesicPlotter.animate had no
 effect

---
 src/einsteinpy/plotting/geodesic/static.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index c570f6c..47f6d21 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -351,7 +351,9 @@ class StaticGeodesicPlotter:
         self.ax.set_zlim3d([z_min - margin_z, z_max + margin_z])
 
         data = traj[1][:, 1:4].T
-        (line,) = self.ax.plot(data[0, 0:1], data[1, 0:1], data[2, 0:1])
+        (line,) = self.ax.plot(
+            data[0, 0:1], data[1, 0:1], data[2, 0:1], "--", color=color
+        )
 
         def _update(num, data, line):
             line.set_data(data[:2, : num + 1])
-- 
2.43.0


From 4b7f92758a2b17f563f87f238b5449f694a9ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 37/43] fix: derivative of x**0 at x = 0 raised
 ZeroDivisionError

---
 src/einsteinpy/utils/dual.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/einsteinpy/utils/dual.py b/src/einsteinpy/utils/dual.py
index b136e79..3ac919f 100644
--- a/src/einsteinpy/utils/dual.py
+++ b/src/einsteinpy/utils/dual.py
@@ -104,6 +104,9 @@ class DualNumber:
         return DualNumber(-self.val, -self.deriv)
 
     def __pow__(self, power):
+        if power == 0:
+            # Constant, including at 0, where the power rule is 0 * 0**-1
+            return DualNumber(self.val**power, 0.0)
         return DualNumber(
             self.val**power, self.deriv * power * self.val ** (power - 1)
         )
-- 
2.43.0


From 7f762788c69a03f2a1a7b558131261a63f23c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 38/43] fix: simplifying an array of a thousand entries
 exceeded the recursion limit

---
 src/einsteinpy/symbolic/helpers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/einsteinpy/symbolic/helpers.py b/src/einsteinpy/symbolic/helpers.py
index cd21b89..3e8e61c 100644
--- a/src/einsteinpy/symbolic/helpers.py
+++ b/src/einsteinpy/symbolic/helpers.py
@@ -11,11 +11,13 @@ def raise_warning(WarningType, message):
 
 def _flatten_list(seq):
     # flatten an arbitarily nested list
-    if not seq:
-        return []
-    if not isinstance(seq[0], list):
-        return [seq[0]] + _flatten_list(seq[1:])
-    return _flatten_list(seq[0]) + _flatten_list(seq[1:])
+    flattened_list = []
+    for item in seq:
+        if isinstance(item, list):
+            flattened_list.extend(_flatten_list(item))
+        else:
+            flattened_list.append(item)
+    return flattened_list
 
 
 def simplify_sympy_array(arr):
-- 
2.43.0


From e5629952b488d99b59838b2d52d0b981a57e372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:10 +0000
Subject: [PATCH 39/43] fix: integer coordinates overflowed in the compiled
 coordinate conversions

---
 src/einsteinpy/coordinates/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index b98f3ff..f2edcb2 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -21,6 +21,8 @@ def cartesian_to_spherical(t, x, y, z, v_x, v_y, v_z):
     This function should eventually result in Coordinate Transformation Graph!
 
     """
+    # In compiled code, the squares of integers may overflow
+    x, y, z = 1.0 * x, 1.0 * y, 1.0 * z
     hxy = np.hypot(x, y)
     r = np.hypot(hxy, z)
     theta = np.arctan2(hxy, z)
@@ -64,6 +66,8 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
     This function should eventually result in Coordinate Transformation Graph!
 
     """
+    # In compiled code, the squares of integers may overflow
+    x, y, z = 1.0 * x, 1.0 * y, 1.0 * z
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
     theta = np.arctan2(np.hypot(x, y) / np.sqrt(r**2 + alpha**2), z / r)
@@ -89,6 +93,8 @@ def cartesian_to_bl_novel(t, x, y, z, alpha):
     This function should eventually result in Coordinate Transformation Graph!
 
     """
+    # In compiled code, the squares of integers may overflow
+    x, y, z = 1.0 * x, 1.0 * y, 1.0 * z
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
     theta = np.arctan2(np.hypot(x, y) / np.sqrt(r**2 + alpha**2), z / r)
@@ -159,6 +165,8 @@ def bl_to_cartesian(t, r, th, p, alpha, v_r, v_th, v_p):
     This function should eventually result in Coordinate Transformation Graph!
 
     """
+    # In compiled code, the squares of integers may overflow
+    r = 1.0 * r
     xa = np.sqrt(r**2 + alpha**2)
     sin_norm = xa * np.sin(th)
     x = sin_norm * np.cos(p)
@@ -186,6 +194,8 @@ def bl_to_cartesian_novel(t, r, th, p, alpha):
     This function should eventually result in Coordinate Transformation Graph!
 
     """
+    # In compiled code, the squares of integers may overflow
+    r = 1.0 * r
     xa = np.sqrt(r**2 + alpha**2)
     sin_norm = xa * np.sin(th)
     x = sin_norm * np.cos(p)
-- 
2.43.0


From 443466c7d80acb3005d6aad0d47e9ed140404cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:00 +0000
Subject: [PATCH 40/43] fix: Cartesian to Boyer-Lindquist conversion lost all
 digits inside the ring radius

---
 src/einsteinpy/coordinates/utils.py | 41 ++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index f2edcb2..1ed413e 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -27,7 +27,7 @@ def cartesian_to_spherical(t, x, y, z, v_x, v_y, v_z):
     r = np.hypot(hxy, z)
     theta = np.arctan2(hxy, z)
     phi = np.arctan2(y, x)
-    n1 = x**2 + y**2
+    n1 = hxy**2
     n2 = n1 + z**2
     v_r = (x * v_x + y * v_y + z * v_z) / np.sqrt(n2)
     v_th = (z * (x * v_x + y * v_y) - n1 * v_z) / (n2 * np.sqrt(n1))
@@ -68,20 +68,23 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
     """
     # In compiled code, the squares of integers may overflow
     x, y, z = 1.0 * x, 1.0 * y, 1.0 * z
+    hxy = np.hypot(x, y)
     w = (x**2 + y**2 + z**2) - (alpha**2)
-    r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arctan2(np.hypot(x, y) / np.sqrt(r**2 + alpha**2), z / r)
+    sigma = np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))
+    # r and alpha * abs(cos(theta)) are the roots of 0.5 * (sigma +- w). The
+    # smaller one follows from their product, as the difference may cancel
+    root = np.sqrt(0.5 * (np.abs(w) + sigma))
+    r = 1.0 * np.where(w < 0, np.abs(alpha * z) / root, root)
+    cos_num = 1.0 * np.where(w <= 0, np.copysign(root, z), z)
+    cos_den = 1.0 * np.where(w <= 0, np.abs(alpha), root)
+    sin_th = hxy / np.sqrt(r**2 + alpha**2)
+    theta = np.arctan2(sin_th * cos_den, cos_num)
     phi = np.arctan2(y, x)
-    dw_dt = 2 * (x * v_x + y * v_y + z * v_z)
-    v_r = (1 / (2 * r)) * (
-        (dw_dt / 2)
-        + (
-            (w * dw_dt + 4 * (alpha**2) * z * v_z)
-            / (2 * np.sqrt((w**2) + (4 * (alpha**2) * (z**2))))
-        )
-    )
-    v_th = (-1 / np.sin(theta)) * ((v_z * r - v_r * z) / (r**2))
-    v_p = (v_y * x - v_x * y) / (x**2 + y**2)
+    cos_th = cos_num / cos_den
+    v_hxy = x * v_x + y * v_y
+    v_r = (r * (v_hxy + z * v_z) + (alpha**2) * cos_th * v_z) / sigma
+    v_th = (cos_th * v_hxy - r * (sin_th**2) * v_z) / (sigma * sin_th)
+    v_p = (v_y * x - v_x * y) / (hxy**2)
 
     return t, r, theta, phi, v_r, v_th, v_p
 
@@ -95,9 +98,17 @@ def cartesian_to_bl_novel(t, x, y, z, alpha):
     """
     # In compiled code, the squares of integers may overflow
     x, y, z = 1.0 * x, 1.0 * y, 1.0 * z
+    hxy = np.hypot(x, y)
     w = (x**2 + y**2 + z**2) - (alpha**2)
-    r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arctan2(np.hypot(x, y) / np.sqrt(r**2 + alpha**2), z / r)
+    sigma = np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))
+    # r and alpha * abs(cos(theta)) are the roots of 0.5 * (sigma +- w). The
+    # smaller one follows from their product, as the difference may cancel
+    root = np.sqrt(0.5 * (np.abs(w) + sigma))
+    r = 1.0 * np.where(w < 0, np.abs(alpha * z) / root, root)
+    cos_num = 1.0 * np.where(w <= 0, np.copysign(root, z), z)
+    cos_den = 1.0 * np.where(w <= 0, np.abs(alpha), root)
+    sin_th = hxy / np.sqrt(r**2 + alpha**2)
+    theta = np.arctan2(sin_th * cos_den, cos_num)
     phi = np.arctan2(y, x)
 
     return t, r, theta, phi
-- 
2.43.0


From 00f5ed190c783d09ed76cda0233ced37dac147d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:14 +0000
Subject: [PATCH 41/43] fix: compiled conversions raised ZeroDivisionError on
 the rotation axis, where interpreted ones do not

---
 src/einsteinpy/coordinates/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index 1ed413e..83450cc 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -14,7 +14,7 @@ def cartesian_to_spherical_fast(
     return cartesian_to_spherical_novel(t, x, y, z)
 
 
-@jit
+@jit(error_model="numpy")
 def cartesian_to_spherical(t, x, y, z, v_x, v_y, v_z):
     """
     Utility function (jitted) to convert cartesian to spherical.
@@ -59,7 +59,7 @@ def cartesian_to_bl_fast(
     return cartesian_to_bl_novel(t, x, y, z, alpha)
 
 
-@jit
+@jit(error_model="numpy")
 def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
     """
     Utility function (jitted) to convert cartesian to boyer lindquist.
@@ -89,7 +89,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
     return t, r, theta, phi, v_r, v_th, v_p
 
 
-@jit
+@jit(error_model="numpy")
 def cartesian_to_bl_novel(t, x, y, z, alpha):
     """
     Utility function (jitted) to convert cartesian to boyer lindquist.
@@ -169,7 +169,7 @@ def bl_to_cartesian_fast(
     return bl_to_cartesian_novel(t, r, th, p, alpha)
 
 
-@jit
+@jit(error_model="numpy")
 def bl_to_cartesian(t, r, th, p, alpha, v_r, v_th, v_p):
     """
     Utility function (jitted) to convert bl to cartesian.
@@ -242,7 +242,7 @@ def lorentz_factor(v1, v2, v3):
     return gamma
 
 
-@jit
+@jit(error_model="numpy")
 def v0(g_cov_mat, v1, v2, v3):
     """
     Utility function to return Timelike component (v0) of 4-Velocity
-- 
2.43.0


From 0ede91c9ceee95cff66aacb1f9a911c1c536e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:58 +0000
Subject: [PATCH 42/43] fix: copies and pickles of symbolic constants lost
 their description

---
 src/einsteinpy/symbolic/constants.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/einsteinpy/symbolic/constants.py b/src/einsteinpy/symbolic/constants.py
index b05d678..26957ba 100644
--- a/src/einsteinpy/symbolic/constants.py
+++ b/src/einsteinpy/symbolic/constants.py
@@ -29,6 +29,11 @@ class SymbolicConstant(Symbol):
         instance._descriptive_name = descriptive_name
         return instance
 
+    def __getnewargs_ex__(self):
+        # Copies and pickles keep the extended name
+        args, kwargs = super().__getnewargs_ex__()
+        return (*args, self.descriptive_name), kwargs
+
     @property
     def descriptive_name(self):
         """
-- 
2.43.0


From aa18d04d70f6582033d35ad24e7de991f7674cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:58 +0000
Subject: [PATCH 43/43] fix: transformation matrices could not be copied or
 pickled

---
 src/einsteinpy/symbolic/helpers.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/einsteinpy/symbolic/helpers.py b/src/einsteinpy/symbolic/helpers.py
index 3e8e61c..4b3fc6f 100644
--- a/src/einsteinpy/symbolic/helpers.py
+++ b/src/einsteinpy/symbolic/helpers.py
@@ -135,6 +135,17 @@ class TransformationMatrix(ImmutableDenseNDimArray):
 
         return obj
 
+    def __reduce_ex__(self, protocol):
+        # sympy rebuilds arrays from their entries and shape alone
+        return type(self), (
+            self.tolist(),
+            self.old_coords,
+            self.new_coords,
+            None,
+            self.old2new,
+            self.new2old,
+        )
+
     @classmethod
     def from_new2old(cls, old_coords, new_coords, new2old, **kwargs):
         """
-- 
2.43.0

