From 45a66311b231e3848ae08fd3f31adbeed11266da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 01/23] fix: superlink end friction (bc_method 'b') must be a
 head loss: divide by g*A and oppose the upstream head

---
 pipedream_solver/nsuperlink.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 107355e..aed8b1e 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -2323,6 +2323,7 @@ def kappa_uk(Q_uk, dx_uk, A_uk, C_uk, R_uk, n_uk, Sf_method_uk, dt, g=9.81):
     for n in range(k):
         t_1[n] = friction_slope(Q_uk[n], dx_uk[n], A_uk[n], R_uk[n],
                                 n_uk[n], Sf_method_uk[n], g)
+    t_1 = - t_1 / g / A_uk
     t_2 = - C_uk * np.abs(Q_uk) / 2 / g / A_uk**2
     return t_0 + t_1 + t_2
 
@@ -2338,6 +2339,7 @@ def kappa_dk(Q_dk, dx_dk, A_dk, C_dk, R_dk, n_dk, Sf_method_dk, dt, g=9.81):
     for n in range(k):
         t_1[n] = friction_slope(Q_dk[n], dx_dk[n], A_dk[n], R_dk[n],
                                 n_dk[n], Sf_method_dk[n], g)
+    t_1 = t_1 / g / A_dk
     t_2 = C_dk * np.abs(Q_dk) / 2 / g / A_dk**2
     return t_0 + t_1 + t_2
 
-- 
2.43.0


From d3dc290be0cb817bf6bfc8511acf15e7d12b7ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 02/23] fix: closed circular or elliptical orifice (opening of
 zero height) has zero area, not a division by zero

---
 pipedream_solver/geometry.py  | 4 ++++
 pipedream_solver/ngeometry.py | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index c5bd306..93bac87 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -46,6 +46,8 @@ class Circular():
         phi[phi > 2] = 2
         theta = np.arccos(1 - phi)
         A = r**2 * (theta - np.cos(theta) * np.sin(theta))
+        # Opening with no height (e.g. closed orifice) has no area
+        A[~(d > 0)] = 0.
         return A
 
     @classmethod
@@ -631,6 +633,8 @@ class Elliptical():
         A_a = a * b * (np.pi / 2 + theta)
         A_b = a * b * np.cos(theta) * np.sin(theta)
         A = A_a + A_b
+        # Opening with no height (e.g. closed orifice) has no area
+        A[~(y_max > 0)] = 0.
         return A
 
     @classmethod
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index 84ee754..acab110 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -34,6 +34,9 @@ def Circular_A_ik(h_Ik, h_Ip1k, g1):
         Diameter of channel (meters)
     """
     d = g1
+    # Opening with no height (e.g. closed orifice) has no area
+    if not d > 0:
+        return 0.
     y = (h_Ik + h_Ip1k) / 2
     if y < 0:
         y = 0
@@ -675,6 +678,9 @@ def Elliptical_A_ik(h_Ik, h_Ip1k, g1, g2):
         Full width of channel (meters)
     """
     y_max = g1
+    # Opening with no height (e.g. closed orifice) has no area
+    if not y_max > 0:
+        return 0.
     b = g1 / 2
     a = g2 / 2
     y = (h_Ik + h_Ip1k) / 2
-- 
2.43.0


From 6706142c44c22b197ab27b176762f34e22463ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 03/23] fix: top width of an elliptical section is
 2*a*cos(theta), the derivative of its area

---
 pipedream_solver/geometry.py  | 3 +--
 pipedream_solver/ngeometry.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index 93bac87..eb8d80b 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -706,8 +706,7 @@ class Elliptical():
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
         theta = np.arcsin((y - b) / b)
-        B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                        + b**2 * np.sin(theta)**2)
+        B = 2 * a * np.cos(theta)
         return B
 
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index acab110..b6f5aae 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -740,8 +740,7 @@ def Elliptical_B_ik(h_Ik, h_Ip1k, g1, g2):
     if y > y_max:
         y = y_max
     theta = np.arcsin((y - b) / b)
-    B = 2 * np.cos(theta) * np.sqrt(a**2 * np.cos(theta)**2
-                                    + b**2 * np.sin(theta)**2)
+    B = 2 * a * np.cos(theta)
     return B
 
 
-- 
2.43.0


From 8f330f918de609b2f40ddae04f483eadaf102d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:59 +0000
Subject: [PATCH 04/23] fix: parabolic section area, perimeter and top width
 describe the same parabola

---
 pipedream_solver/geometry.py  | 6 +++++-
 pipedream_solver/ngeometry.py | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/geometry.py b/pipedream_solver/geometry.py
index eb8d80b..c10aaa9 100644
--- a/pipedream_solver/geometry.py
+++ b/pipedream_solver/geometry.py
@@ -535,7 +535,9 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
         y[y > y_max] = y_max[y > y_max]
-        A = 2 * b * y / 3
+        A = 2 * b * np.sqrt(y / y_max) * y / 3
+        # Opening with no height (e.g. closed orifice) has no area
+        A[~(y_max > 0)] = 0.
         return A
 
     @classmethod
@@ -559,6 +561,7 @@ class Parabolic():
         y = (h_Ik + h_Ip1k) / 2
         y[y <= 0] = eps
         y[y > y_max] = y_max[y > y_max]
+        b = b * np.sqrt(y / y_max)
         x = 4 * y / b
         Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
         return Pe
@@ -600,6 +603,7 @@ class Parabolic():
         b = g2
         y = (h_Ik + h_Ip1k) / 2
         y[y < 0] = 0
+        y[y > y_max] = y_max[y > y_max]
         B = b * np.sqrt(y / y_max)
         return B
 
diff --git a/pipedream_solver/ngeometry.py b/pipedream_solver/ngeometry.py
index b6f5aae..a97b2b3 100644
--- a/pipedream_solver/ngeometry.py
+++ b/pipedream_solver/ngeometry.py
@@ -584,7 +584,10 @@ def Parabolic_A_ik(h_Ik, h_Ip1k, g1, g2):
         y = 0
     if y > y_max:
         y = y_max
-    A = 2 * b * y / 3
+    # Opening with no height (e.g. closed orifice) has no area
+    if not y_max > 0:
+        return 0.
+    A = 2 * b * np.sqrt(y / y_max) * y / 3
     return A
 
 @njit(float64(float64, float64, float64, float64),
@@ -611,6 +614,7 @@ def Parabolic_Pe_ik(h_Ik, h_Ip1k, g1, g2):
         y = eps
     if y > y_max:
         y = y_max
+    b = b * np.sqrt(y / y_max)
     x = 4 * y / b
     Pe = (b / 2) * (np.sqrt(1 + x**2) + (1 / x) * np.log(x + np.sqrt(1 + x**2)))
     return Pe
@@ -657,6 +661,8 @@ def Parabolic_B_ik(h_Ik, h_Ip1k, g1, g2):
     y = (h_Ik + h_Ip1k) / 2
     if y < 0:
         y = 0
+    if y > y_max:
+        y = y_max
     B = b * np.sqrt(y / y_max)
     return B
 
-- 
2.43.0


From 055c0cd31498c99ec11dcb90b2ffe198248c51e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 05/23] fix: compute the wetted perimeter at the ends of
 elliptical superlinks

---
 pipedream_solver/nsuperlink.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index aed8b1e..17b8d0a 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -571,6 +571,10 @@ class nSuperLink(SuperLink):
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
         # Compute hydraulic geometry for regular geometries
+        # NOTE: Handle case for elliptical perimeter first
+        handle_elliptical_boundary_perimeter(_Pe_uk, _h_Ik, H_j, _z_inv_uk, _theta_uk,
+                                             _g1_ik, _g2_ik, _geom_codes,
+                                             _i_1k, _I_1k, _J_uk)
         numba_boundary_geometry(_A_uk, _Pe_uk, _R_uk, _B_uk, _h_Ik, H_j, _z_inv_uk, _theta_uk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
                                 _geom_codes, _i_1k, _I_1k, _J_uk)
@@ -623,6 +627,10 @@ class nSuperLink(SuperLink):
         _transect_inds = self._transect_inds
         _transect_lens = self._transect_lens
         # Compute hydraulic geometry for regular geometries
+        # NOTE: Handle case for elliptical perimeter first
+        handle_elliptical_boundary_perimeter(_Pe_dk, _h_Ik, H_j, _z_inv_dk, _theta_dk,
+                                             _g1_ik, _g2_ik, _geom_codes,
+                                             _i_nk, _I_Np1k, _J_dk)
         numba_boundary_geometry(_A_dk, _Pe_dk, _R_dk, _B_dk, _h_Ik, H_j, _z_inv_dk, _theta_dk,
                                 _g1_ik, _g2_ik, _g3_ik, _g4_ik, _g5_ik, _g6_ik, _g7_ik,
                                 _geom_codes, _i_nk, _I_Np1k, _J_dk)
@@ -1695,6 +1703,15 @@ def handle_elliptical_perimeter(_Pe_ik, _ellipse_ix, _Ik, _Ip1k, _h_Ik, _g1_ik,
                                                             _g1_ik[_ik_g],
                                                             _g2_ik[_ik_g])
 
+def handle_elliptical_boundary_perimeter(_Pe_bk, _h_Ik, _H_j, _z_inv_bk, _theta_bk,
+                                         _g1_ik, _g2_ik, _geom_codes, _i_bk, _I_bk, _J_bk):
+    k = np.flatnonzero(_geom_codes[_i_bk] == pipedream_solver.geometry.geom_code['elliptical'])
+    if (k.size > 0):
+        i = _i_bk[k]
+        h_b = _theta_bk[k] * (_H_j[_J_bk[k]] - _z_inv_bk[k])
+        _Pe_bk[k] = pipedream_solver.geometry.Elliptical.Pe_ik(_h_Ik[_I_bk[k]], h_b,
+                                                               _g1_ik[i], _g2_ik[i])
+
 @njit(int64(float64[:], float64[:], float64[:], float64[:], float64[:],
             float64[:], float64[:], float64[:], float64[:], float64[:], float64[:], float64[:],
             int64[:], int64[:], int64[:]),
-- 
2.43.0


From 1897e28d2827874c41e26eb38fdaff17aa1da57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 06/23] fix: bandwidth of the superjunction system must cover
 every connected pair, not stop at the first empty diagonal

---
 pipedream_solver/superlink.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 2abcd7a..c173c71 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -952,8 +952,6 @@ class SuperLink():
         for k in range(1, len(At)):
             if np.diag(At, k=k).any():
                 bandwidth = k
-            else:
-                break
         self.bandwidth = bandwidth
 
     def _to_banded(self):
-- 
2.43.0


From 61a82a73166ef50cd53cc841c06f3e8bea662ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 07/23] fix: step() without dt uses the model's default time
 step instead of raising

---
 pipedream_solver/superlink.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index c173c71..7b50450 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -4117,6 +4117,8 @@ class SuperLink():
         """
         if banded is None:
             banded = self.banded
+        if dt is None:
+            dt = self._dt
         self._setup_step(H_bc=H_bc, Q_in=Q_in, Q_0Ik=Q_0Ik, u_o=u_o, u_w=u_w, u_p=u_p, dt=dt,
                          first_time=first_time, implicit=implicit, banded=banded,
                          first_iter=first_iter)
-- 
2.43.0


From c3e6aa83cfc35d001ad458c7cf40d9e78584a526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 08/23] fix: stored volume of a tabular storage is the integral
 of area over depth (arguments were swapped; cumtrapz no longer exists)

---
 pipedream_solver/nsuperlink.py | 2 +-
 pipedream_solver/storage.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 17b8d0a..00574a0 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -450,7 +450,7 @@ class nSuperLink(SuperLink):
             for name, storage in storages.items():
                 A = storage['A']
                 h = storage['h']
-                V = scipy.integrate.cumtrapz(h, A, initial=0.)
+                V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
diff --git a/pipedream_solver/storage.py b/pipedream_solver/storage.py
index 44cd05d..157e008 100644
--- a/pipedream_solver/storage.py
+++ b/pipedream_solver/storage.py
@@ -62,7 +62,7 @@ class Tabular():
     def __init__(self, h, A):
         self.h = np.asarray(h)
         self.A = np.asarray(A)
-        self.V = scipy.integrate.cumtrapz(h, A, initial=0.)
+        self.V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
         self.hmax = self.h.max()
         self.hmin = self.h.min()
         self.Amax = self.A.max()
-- 
2.43.0


From 53c20d17ed1a34aa0537c79fd0315dafe6d818c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 09/23] fix: offsets of tabular storages follow the order their
 tables are stored in

---
 pipedream_solver/nsuperlink.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index 00574a0..a927e0c 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -440,13 +440,11 @@ class nSuperLink(SuperLink):
             storage_name_to_ind = pd.Series(np.arange(unique_storage_names.size),
                                             index=unique_storage_names)
             sj_to_storage_ind = _storage_table.dropna().map(storage_name_to_ind)
-            _storage_inds = []
             _storage_lens = []
             _storage_As = []
             _storage_Vs = []
             _storage_hs = []
             order = []
-            ix = 0
             for name, storage in storages.items():
                 A = storage['A']
                 h = storage['h']
@@ -454,16 +452,14 @@ class nSuperLink(SuperLink):
                 _storage_As.append(A)
                 _storage_Vs.append(V)
                 _storage_hs.append(h)
-                _storage_inds.append(ix)
                 order.append(storage_name_to_ind[name])
-                ix += len(h)
                 _storage_lens.append(len(h))
             order = np.argsort(order)
             _storage_hs = np.concatenate([_storage_hs[i] for i in order])
             _storage_As = np.concatenate([_storage_As[i] for i in order])
             _storage_Vs = np.concatenate([_storage_Vs[i] for i in order])
-            _storage_inds = np.asarray(_storage_inds)[order]
             _storage_lens = np.asarray(_storage_lens)[order]
+            _storage_inds = np.cumsum(_storage_lens) - _storage_lens
             _storage_js = sj_to_storage_ind.index.values
             _storage_codes = sj_to_storage_ind.values
         # Export instance variables
-- 
2.43.0


From 38bf60628e67742a2e522a8217bd9e24042d831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 10/23] fix: bed slope of the downstream end of a superlink
 depends on its own length

---
 pipedream_solver/superlink.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 7b50450..15123a4 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -730,7 +730,7 @@ class SuperLink():
         self._R_dk = np.copy(self._R_ik[self._i_nk])
         # End slopes
         cond_uk = (self._dx_uk > 0.)
-        cond_dk = (self._dx_uk > 0.)
+        cond_dk = (self._dx_dk > 0.)
         _S_o_uk = np.zeros(self.NK, dtype=np.float64)
         _S_o_dk = np.zeros(self.NK, dtype=np.float64)
         _S_o_uk[cond_uk] = (self._z_inv_uk - self._z_inv_Ik[self._I_1k])[cond_uk] / self._dx_uk[cond_uk]
-- 
2.43.0


From b4f570709d03ab678ff3307ea02e192fc3182af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 11/23] fix: saved states hold the end indicators the next step
 starts from

---
 pipedream_solver/superlink.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 15123a4..f911864 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3912,6 +3912,9 @@ class SuperLink():
         self.states['Q_uk'] = np.copy(self.Q_uk)
         self.states['Q_dk'] = np.copy(self.Q_dk)
         self.states['x_Ik'] = np.copy(self.x_Ik)
+        # Indicator of submerged superlink ends, which the next step starts from
+        self.states['_theta_uk'] = np.copy(self._theta_uk)
+        self.states['_theta_dk'] = np.copy(self._theta_dk)
         if self.n_o:
             self.states['Q_o'] = np.copy(self.Q_o)
             # TODO: Need to add orifice area here
-- 
2.43.0


From 8a018cff44e011b56aac9e3d29500963c585aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 12/23] fix: repositioned junctions are measured from the start
 of their own superlink

---
 pipedream_solver/nsuperlink.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index a927e0c..cd400da 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3183,13 +3183,13 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             _dx_i = _dx_ik[_i_1:_i_end]
             # Move junction if downstream head is within range
             move_junction = (_H_d > _z_inv_Np1) & (_H_d < _z_inv_1)
+            _x0 = _x_I[0]
             if move_junction:
                 z_m = _H_d
-                _x0 = _x_I[_I_1]
                 x_m = (_H_d - _b0[k]) / _m[k] + _x0
             else:
                 z_m = _zc[k]
-                x_m = _xc[k]
+                x_m = _xc[k] + _x0
             # Determine new x-position of junction
             c = np.searchsorted(_x_I, x_m)
             cm1 = c - 1
-- 
2.43.0


From 395f3dfddde81256170926408b1193155852035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 13/23] fix: a link split by a junction moving upstream keeps
 its flow

---
 pipedream_solver/nsuperlink.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index cd400da..bd34d50 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -3218,7 +3218,8 @@ def numba_reposition_junctions(_x_Ik, _z_inv_Ik, _h_Ik, _dx_ik, _Q_ik, _H_dk,
             # If position has shifted interpolate flow
             if shifted:
                 ix = np.arange(nlinks)
-                ix[pos_prev] = pos_next
+                # When moving upstream, the link that is split comes before the new position
+                ix[pos_prev] = pos_next if (pos_next > pos_prev) else pos_next - 1
                 ix.sort()
                 _Q_i = _Q_ik[_i_1:_i_end]
                 _Q_i[pos_prev - 1] = (1 - r) * _Q_i[pos_prev - 1] + r * _Q_i[pos_prev]
-- 
2.43.0


From 51d7bf14bb1b449f5794c297c3deebafa32fdece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 14/23] fix: saved states hold the layout of repositioned
 junctions

---
 pipedream_solver/superlink.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index f911864..9b8ea61 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -3915,6 +3915,12 @@ class SuperLink():
         # Indicator of submerged superlink ends, which the next step starts from
         self.states['_theta_uk'] = np.copy(self._theta_uk)
         self.states['_theta_dk'] = np.copy(self._theta_dk)
+        # Layout of junctions that may have been repositioned
+        if self.mobile_elements:
+            self.states['_dx_ik'] = np.copy(self._dx_ik)
+            self.states['_z_inv_Ik'] = np.copy(self._z_inv_Ik)
+            self.states['_elem_pos'] = np.copy(self._elem_pos)
+            self.states['_fixed'] = np.copy(self._fixed)
         if self.n_o:
             self.states['Q_o'] = np.copy(self.Q_o)
             # TODO: Need to add orifice area here
-- 
2.43.0


From 5dabbbfb101afc625fce282446128eb1e840d5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 15/23] fix: water quality step() without dt uses the duration
 of the last hydraulic step instead of raising

---
 pipedream_solver/nquality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 0818254..83dbac4 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -977,9 +977,9 @@ class QualityBuilder():
         --------
         None
         """
-        self.import_hydraulic_states(_dt=dt)
         if dt is None:
             dt = self._dt
+        self.import_hydraulic_states(_dt=dt)
         if Q_0j is None:
             Q_0j = self.hydraulics._Q_in
         if Q_0Ik is None:
-- 
2.43.0


From 07f849a86807a5cbeff54cea071109371c6ca0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 16/23] fix: end areas of water quality superlinks use the
 diameter of their own end links, not of the k-th link of the network

---
 pipedream_solver/nquality.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 83dbac4..96a8cef 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -276,7 +276,8 @@ class QualityBuilder():
                _I_Np1k, _J_uk, _J_dk, self._Q_uk_next, self._B_uk, self._dx_uk, self._h_Ik_next, self._h_Ik_prev,_dt, 
                self.hydraulics._geom_codes, self.hydraulics._g1_ik, self._H_j_next, self._z_inv_j, self._H_j_prev, self._Q_dk_next, self._B_dk, self._dx_dk,
                self._Q_uk_up_next, self._Q_uk_dn_next, self._Q_dk_up_next, self._Q_dk_dn_next,
-               self._A_uk_next, self._A_dk_next, self._A_uk_prev, self._A_dk_prev)
+               self._A_uk_next, self._A_dk_next, self._A_uk_prev, self._A_dk_prev,
+               self._i_1k, self._i_nk)
         
     @property
     def c_j(self):
@@ -1666,7 +1667,7 @@ def geometry_WQ1(Ix_ik, _geom_codes, _g1_ik, _h_Ik_next, _Ik, _Ip1k, _B_ik):
 def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk, 
                  _h_Ik_next, _h_Ik_prev, _dt, _geom_codes, _g1_ik, _H_j_next, _z_inv_j, _H_j_prev, _Q_dk_next,
                  _B_dk, _dx_dk, _Q_uk_up_next, _Q_uk_dn_next, _Q_dk_up_next, _Q_dk_dn_next,
-                 _A_uk_next, _A_dk_next, _A_uk_prev, _A_dk_prev):
+                 _A_uk_next, _A_dk_next, _A_uk_prev, _A_dk_prev, _i_1k, _i_nk):
     
     n = len(_I_1k)
     for k in range(n):
@@ -1676,7 +1677,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
                                 *(_h_Ik_next[_I_1k[k]] - _h_Ik_prev[_I_1k[k]])/_dt)
         # Calculate the cross-sectional area of upstream boundary links
         if _geom_codes[0] ==1:
-            d = _g1_ik[k]
+            d = _g1_ik[_i_1k[k]]
             y = 0.5*(_H_j_next[_J_uk[k]] - _z_inv_j[_J_uk[k]] + _h_Ik_next[_I_1k[k]])
             if y < 0:
                 y = 0.0
@@ -1717,7 +1718,7 @@ def geometry_WQ2(_I_1k, _I_Np1k, _J_uk, _J_dk, _Q_uk_next, _B_uk, _dx_uk,
         
         # Calculate the cross-sectional area of downstream boundary links
         if _geom_codes[0] ==1:
-            d = _g1_ik[k]
+            d = _g1_ik[_i_nk[k]]
             y = 0.5*(_H_j_next[_J_dk[k]] - _z_inv_j[_J_dk[k]] + _h_Ik_next[_I_Np1k[k]])
             if y < 0:
                 y = 0.0
-- 
2.43.0


From 96f84539480f5d6d957dbadfcab8b9551bec4553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 17/23] fix: concentrations from the recurrence pass their
 arguments in the order of the callee

---
 pipedream_solver/nquality.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pipedream_solver/nquality.py b/pipedream_solver/nquality.py
index 96a8cef..4026f86 100644
--- a/pipedream_solver/nquality.py
+++ b/pipedream_solver/nquality.py
@@ -942,12 +942,10 @@ class QualityBuilder():
         _c_1k = _c_Ik[_I_1k]
         _c_Np1k = _c_Ik[_I_Np1k]
         # Compute internal flow estimates in both directions
-        c_ik_b = c_i_b(_X_Ik[~_is_end], _c_Ik[~_is_end],
-                       _Y_Ik[~_is_end], _Z_Ik[~_is_end],
-                       np.repeat(_c_Np1k, nk))
-        c_ik_f = c_i_f(_U_Ik[~_is_end], _c_Ik[~_is_start],
-                       _V_Ik[~_is_end], _W_Ik[~_is_end],
-                       np.repeat(_c_1k, nk))
+        c_ik_b = c_i_b(_c_Ik[~_is_end], np.repeat(_c_Np1k, nk),
+                       _X_Ik[~_is_end], _Y_Ik[~_is_end], _Z_Ik[~_is_end])
+        c_ik_f = c_i_f(_c_Ik[~_is_start], np.repeat(_c_1k, nk),
+                       _U_Ik[~_is_end], _V_Ik[~_is_end], _W_Ik[~_is_end])
         return c_ik_b, c_ik_f
 
     def step(self, dt=None, c_bc=None, c_0j=None, Q_0j=None, c_0Ik=None,
-- 
2.43.0


From ba68b77553ba6614c3143be84597fe83e959b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:21 +0000
Subject: [PATCH 18/23] fix: properties of superlink ends change sides when the
 nominal direction is reversed

---
 pipedream_solver/superlink.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipedream_solver/superlink.py b/pipedream_solver/superlink.py
index 9b8ea61..d6301c1 100644
--- a/pipedream_solver/superlink.py
+++ b/pipedream_solver/superlink.py
@@ -308,6 +308,12 @@ class SuperLink():
                 if cond:
                     superlinks.loc[k, 'sj_0'] = sj_1
                     superlinks.loc[k, 'sj_1'] = sj_0
+                    # Properties of the two ends change sides with them
+                    for uk, dk in (('in_offset', 'out_offset'), ('dx_uk', 'dx_dk'), ('C_uk', 'C_dk')):
+                        if (uk in superlinks.columns) and (dk in superlinks.columns):
+                            end_0 = superlinks.loc[k, uk]
+                            superlinks.loc[k, uk] = superlinks.loc[k, dk]
+                            superlinks.loc[k, dk] = end_0
         # Save copied input tables to class instance
         self.superjunctions = superjunctions
         self.superlinks = superlinks
-- 
2.43.0


From 97648c92e0250ede57625d9cdc2c467f1745da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 19/23] fix: nGreenAmpt leaves saturation when the infiltration
 capacity exceeds the available rainfall

---
 pipedream_solver/ninfiltration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/ninfiltration.py b/pipedream_solver/ninfiltration.py
index 908b2cf..01f2ab2 100644
--- a/pipedream_solver/ninfiltration.py
+++ b/pipedream_solver/ninfiltration.py
@@ -154,7 +154,8 @@ class nGreenAmpt(GreenAmpt):
         dts = np.full(n, dt)
         F_2 = run_green_ampt_newton(F_2, F, F, dts, Ks, theta_d, psi_f, ia)
         dF = F_2 - F
-        cond = (dF > ia * dt)
+        # NOTE: F_2 is bounded by the available rainfall, so compare infiltration capacity instead
+        cond = (self.integrated_green_ampt(F + ia * dt, F, dt, Ks, theta_d, psi_f) > 0)
         if cond.any():
             dF[cond] = ia[cond] * dt
             # Set current surface layer to unsaturated
-- 
2.43.0


From f40379318cdb0f05a4fb18db35fbe1753b44e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 20/23] fix: cumulative infiltration stays non-negative during
 recovery

---
 pipedream_solver/infiltration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pipedream_solver/infiltration.py b/pipedream_solver/infiltration.py
index 2b3272a..d573b3e 100644
--- a/pipedream_solver/infiltration.py
+++ b/pipedream_solver/infiltration.py
@@ -142,6 +142,7 @@ class GreenAmpt():
         theta_du += d_theta
         theta_du[:] = np.minimum(np.maximum(theta_du, 0), theta_dmax)
         F -= d_theta * Lu
+        F[:] = np.maximum(F, 0)
         # If min recovery time has expired, mark beginning of new rainfall event
         cond = (T <= 0)
         if cond.any():
-- 
2.43.0


From 98422886d86510681824b8c54c71950b0fa6a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 21/23] fix: scale truncation errors by magnitudes, so that
 errors and heads of either sign count

Errors of opposite sign cancelled in the 1-norm, negative ones were not counted by the 0-norm, and heads
near -1e-3 made the scaled error infinite.
---
 pipedream_solver/simulation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index a0af8b1..c9943c6 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -326,9 +326,8 @@ class Simulation():
             rtol = self.rtol
         current_state = self.model.H_j
         previous_state = self.model.states['H_j']
-        # TODO: This should probably be absolute value
-        max_state = np.maximum(current_state, previous_state)
-        scaled_err = err / (atol + max_state * rtol)
+        max_state = np.maximum(np.abs(current_state), np.abs(previous_state))
+        scaled_err = np.abs(err) / (atol + max_state * rtol)
         return scaled_err
 
     def _normed_error(self, scaled_err, norm=2):
-- 
2.43.0


From 54ba43fa6fa51cf533c1195a5deb897f86fe5ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 22/23] fix: keep tolerance, norm and filter options when a
 step is retried

---
 pipedream_solver/simulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipedream_solver/simulation.py b/pipedream_solver/simulation.py
index c9943c6..66510c7 100644
--- a/pipedream_solver/simulation.py
+++ b/pipedream_solver/simulation.py
@@ -568,7 +568,8 @@ class Simulation():
                 self.dts.popleft()
                 self.errs.popleft()
                 self.load_state(initial_state)
-                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, **kwargs)
+                self.step(dt=dt, subdivisions=subdivisions, retries=retries-1, tol=tol,
+                          norm=norm, coeffs=coeffs, safety_factor=safety_factor, **kwargs)
         assert np.isfinite(self.model.H_j).all()
         self._iter_count += 1
 
-- 
2.43.0


From ebe810756e7dfa372677fcb5036514c9a92e85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 23/23] fix: only tabular superjunctions take a storage table,
 and tables that nothing uses are allowed

---
 pipedream_solver/nsuperlink.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pipedream_solver/nsuperlink.py b/pipedream_solver/nsuperlink.py
index bd34d50..7ba9cc3 100644
--- a/pipedream_solver/nsuperlink.py
+++ b/pipedream_solver/nsuperlink.py
@@ -433,19 +433,20 @@ class nSuperLink(SuperLink):
         # All entries must either be function or tabular
         assert (_tabular.sum() + _functional.sum()) == _storage_type.shape[0]
         # Configure tabular storages
-        if storages:
+        if storages and _tabular.any():
             _tabular_storages = _storage_table[_tabular]
             _storage_indices = pd.Series(_tabular_storages.index, _tabular_storages.values)
             unique_storage_names = np.unique(_storage_indices.index.values)
             storage_name_to_ind = pd.Series(np.arange(unique_storage_names.size),
                                             index=unique_storage_names)
-            sj_to_storage_ind = _storage_table.dropna().map(storage_name_to_ind)
+            sj_to_storage_ind = _tabular_storages.map(storage_name_to_ind)
             _storage_lens = []
             _storage_As = []
             _storage_Vs = []
             _storage_hs = []
             order = []
-            for name, storage in storages.items():
+            for name in unique_storage_names:
+                storage = storages[name]
                 A = storage['A']
                 h = storage['h']
                 V = scipy.integrate.cumulative_trapezoid(A, h, initial=0.)
-- 
2.43.0

