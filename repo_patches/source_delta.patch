From 467a75852c85af3f9dcfecb6a5975eb8ef5543e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 01/30] fix: conversions no longer modify their input arrays

kep_to_cart negated the caller's semi-major axis for hyperbolic orbits (so a
second call on the same array returned NaN) and converted the angles in place
through radians; cart_to_kep temporarily reshaped the caller's array.
---
 pyorb/kepler.py | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 0e297d2..b4c486b 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -376,12 +376,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
 
     if len(cart.shape) < 2:
         input_is_vector = True
-        try:
-            cart.shape = (6, 1)
-        except ValueError as e:
-            print(f'Error {e} while trying to cast vector into single column.')
-            print(f'Input array shape: {cart.shape}')
-            raise
+        cart = cart.reshape(6, 1)
     else:
         input_is_vector = False
 
@@ -541,7 +536,6 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
         o[2:, :] = np.degrees(o[2:, :])
 
     if input_is_vector:
-        cart.shape = (6,)
         o.shape = (6,)
 
     return o
@@ -1719,15 +1713,13 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
 
     if len(kep.shape) < 2:
         input_is_vector = True
-        try:
-            kep.shape = (6, 1)
-        except ValueError as e:
-            print(f'Error {e} while trying to cast vector into single column.')
-            print(f'Input array shape: {kep.shape}')
-            raise
+        kep = kep.reshape(6, 1)
     else:
         input_is_vector = False
 
+    # work on a copy: the elements are modified below
+    kep = kep.copy()
+
     if not isinstance(mu, np.ndarray):
         mu = np.full((kep.shape[1],), mu, dtype=np.float64)
 
@@ -1780,9 +1772,5 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
 
     if input_is_vector:
         x.shape = (6,)
-        kep.shape = (6,)
-
-    if degrees:
-        kep[2:, ...] = np.degrees(kep[2:, ...])
 
     return x
-- 
2.43.0


From 434c69e9019e01e678746066b13aca306709ae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 02/30] fix: eccentric anomaly of open orbits is not periodic

true_to_eccentric wrapped the parabolic and hyperbolic anomaly into [0, 2pi),
so every incoming leg (and every far outgoing point) mapped to an unrelated
point of the orbit, and so did true_to_mean.
---
 pyorb/kepler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index b4c486b..75c7c86 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -659,6 +659,8 @@ def true_to_eccentric(nu, e, degrees=False):
         E[eli] = 2.0*np.arctan(
             np.sqrt((1.0 - e[eli])/(1.0 + e[eli]))*np.tan(_nu[eli]*0.5)
         )
+        # only closed orbits are periodic in the eccentric anomaly
+        E[eli] = np.mod(E[eli] + 2.*np.pi, 2.*np.pi)
     else:
         if e > 1:
             E = 2.0*np.arctanh(np.sqrt((e - 1.0)/(e + 1.0))*np.tan(_nu*0.5))
@@ -666,8 +668,7 @@ def true_to_eccentric(nu, e, degrees=False):
             E = np.tan(_nu*0.5)
         else:
             E = 2.0*np.arctan(np.sqrt((1.0 - e)/(1.0 + e))*np.tan(_nu*0.5))
-
-    E = np.mod(E + 2.*np.pi, 2.*np.pi)
+            E = np.mod(E + 2.*np.pi, 2.*np.pi)
 
     if degrees:
         E = np.degrees(E)
-- 
2.43.0


From 652f29a2cffd5ad9f4c2388f460bb0993ac889fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 03/30] fix: hyperbolic Kepler solver accepts negative mean
 anomaly

The logarithmic starter was NaN for M < 0 so the part of a hyperbolic
orbit before periapsis could not be solved for.
---
 pyorb/kepler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 75c7c86..510eafb 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1139,7 +1139,8 @@ def _get_hyperbolic_kepler_guess(M, e):
         equation. II,” Celestial Mechanics, vol. 31, pp. 317–328, Nov. 1983,
         doi: 10.1007/BF01844230.
     '''
-    E0 = np.log(2*M/e + 1.8)
+    # Kepler's equation is odd in M
+    E0 = np.sign(M)*np.log(2*np.abs(M)/e + 1.8)
     return E0
 
 
-- 
2.43.0


From 88487431d05085201ecb9eaf0f4907d475ba7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 04/30] fix: anomaly conversions give NaN for undefined
 eccentricity

Entries with NaN eccentricity were left as uninitialised memory in the
array branches while the scalar branches return NaN.
---
 pyorb/kepler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 510eafb..d568adb 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -647,7 +647,7 @@ def true_to_eccentric(nu, e, degrees=False):
         if _nu.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        E = np.empty(_nu.shape, dtype=_nu.dtype)
+        E = np.full(_nu.shape, np.nan, dtype=_nu.dtype)
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -707,7 +707,7 @@ def eccentric_to_true(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        nu = np.empty(_E.shape, dtype=_E.dtype)
+        nu = np.full(_E.shape, np.nan, dtype=_E.dtype)
         hyp = e > 1
         per = e == 1
         eli = e < 1
@@ -766,7 +766,7 @@ def eccentric_to_mean(E, e, degrees=False):
         if _E.shape != e.shape:
             raise TypeError('Input dimensions does not agree')
 
-        M = np.empty(_E.shape, dtype=_E.dtype)
+        M = np.full(_E.shape, np.nan, dtype=_E.dtype)
         hyp = e > 1
         per = e == 1
         eli = e < 1
-- 
2.43.0


From 195d114b27b4cd4c2c8d5b1ff478501756f78d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 05/30] fix: Barker's equation solved accurately before
 periapsis

For negative mean anomaly A + sqrt(A**2 + 1) cancels catastrophically.
---
 pyorb/kepler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index d568adb..a052b57 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1309,9 +1309,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
                 E_calc, it_num = laguerre_solve_kepler(
                     E0, Mc, ec, **solver_options)
             elif ec == 1:
-                A = 3.0/2.0*Mc
+                A = 3.0/2.0*np.abs(Mc)
                 B = np.cbrt(A + np.sqrt(A**2 + 1))
-                E_calc = B - 1.0/B
+                E_calc = np.sign(Mc)*(B - 1.0/B)
             else:
                 E0 = _get_kepler_guess(Mc, ec)
                 E_calc, it_num = laguerre_solve_kepler(
@@ -1327,9 +1327,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             E0 = _get_hyperbolic_kepler_guess(_M, e)
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
         elif e == 1:
-            A = 3.0/2.0*_M
+            A = 3.0/2.0*np.abs(_M)
             B = np.cbrt(A + np.sqrt(A**2 + 1))
-            E = B - 1.0/B
+            E = np.sign(_M)*(B - 1.0/B)
         else:
             E0 = _get_kepler_guess(_M, e)
             E, it_num = laguerre_solve_kepler(E0, _M, e, **solver_options)
-- 
2.43.0


From a5722cb56188594c32f8d910e8bf5372b30172e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 06/30] fix: integer arrays are not truncated by the
 conversions

Results were stored in arrays of the input's data type, so integer input
gave results truncated to integers.
---
 pyorb/kepler.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index a052b57..369168c 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -147,6 +147,15 @@ considered not inclined
 """
 
 
+def _as_float(values):
+    '''Convert integer arrays to double precision, so that results computed
+    with the data type of the input are not truncated.
+    '''
+    if isinstance(values, np.ndarray) and values.dtype.kind in 'iub':
+        return values.astype(np.float64)
+    return values
+
+
 def cart_to_equi(cart, mu=GM_sol, degrees=False):
     '''Converts set of Cartesian state vectors to set of Equinoctial orbital
     elements.
@@ -254,6 +263,7 @@ def kep_to_equi(kep, degrees=False):
         :math:`q`, :math:`\\lambda_0`, and columns correspond to different
         objects.  If input is in degrees, :math:`\\lambda_0` is in degrees.
     '''
+    kep = _as_float(kep)
     _circ = 360.0 if degrees else _2pi
     om_bar = kep[K_om, ...] + kep[K_OM, ...]
     OM = kep[K_OM, ...]
@@ -303,6 +313,7 @@ def equi_to_kep(equi, degrees=False):
 
     '''
 
+    equi = _as_float(equi)
     _circ = 360.0 if degrees else _2pi
     kep = np.empty(equi.shape, dtype=equi.dtype)
 
@@ -373,6 +384,7 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
         raise ValueError(
             f'Input data must have at least 6 variables along axis 0:\
              input shape is {cart.shape}')
+    cart = _as_float(cart)
 
     if len(cart.shape) < 2:
         input_is_vector = True
@@ -634,6 +646,8 @@ def true_to_eccentric(nu, e, degrees=False):
         Eccentric anomaly.
 
     '''
+    nu = _as_float(nu)
+    e = _as_float(e)
     if degrees:
         _nu = np.radians(nu)
     else:
@@ -694,6 +708,8 @@ def eccentric_to_true(E, e, degrees=False):
         True anomaly.
 
     '''
+    E = _as_float(E)
+    e = _as_float(e)
     if degrees:
         _E = np.radians(E)
     else:
@@ -753,6 +769,8 @@ def eccentric_to_mean(E, e, degrees=False):
         Mean anomaly.
 
     '''
+    E = _as_float(E)
+    e = _as_float(e)
     if degrees:
         _E = np.radians(E)
     else:
@@ -805,6 +823,8 @@ def true_to_mean(nu, e, degrees=False):
         Mean anomaly.
 
     '''
+    nu = _as_float(nu)
+    e = _as_float(e)
     if degrees:
         _nu = np.radians(nu)
     else:
@@ -1206,6 +1226,8 @@ def kepler_guess(M, e):
         doi: 10.1007/BF01844230.
     '''
 
+    M = _as_float(M)
+    e = _as_float(e)
     if isinstance(M, np.ndarray) or isinstance(e, np.ndarray):
         if not isinstance(M, np.ndarray):
             M = np.ones(e.shape, dtype=e.dtype)*M
@@ -1277,6 +1299,8 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
     if solver_options is None:
         solver_options = {}
 
+    M = _as_float(M)
+    e = _as_float(e)
     if degrees:
         _M = np.radians(M)
     else:
@@ -1361,6 +1385,8 @@ def mean_to_true(M, e, solver_options=None, degrees=False):
         True anomaly.
 
     '''
+    M = _as_float(M)
+    e = _as_float(e)
     if degrees:
         _M = np.radians(M)
     else:
@@ -1712,6 +1738,7 @@ def kep_to_cart(kep, mu=GM_sol, degrees=False):
     if kep.shape[0] != 6:
         raise ValueError(f'Input data must have at least 6 variables \
             along axis 0: input shape is {kep.shape}')
+    kep = _as_float(kep)
 
     if len(kep.shape) < 2:
         input_is_vector = True
-- 
2.43.0


From 1ebfa85ab80cd69020614d189b315a8acb085a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 07/30] fix: Stumpff functions accept scalars and integers and
 are accurate near zero

Floats raised TypeError, integer arrays were truncated, and c2 and c3
cancelled catastrophically for small arguments.
---
 pyorb/kepler.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 369168c..998d178 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1506,7 +1506,8 @@ def stumpff0(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c0 = np.empty_like(x)
+    x = _as_float(np.asarray(x))
+    c0 = np.full_like(x, np.nan)
     inds = x > 0
     c0[inds] = np.cos(np.sqrt(x[inds]))
 
@@ -1514,7 +1515,7 @@ def stumpff0(x):
 
     inds = x < 0
     c0[inds] = np.cosh(np.sqrt(-x[inds]))
-    return c0
+    return c0[()]
 
 
 def stumpff1(x):
@@ -1534,7 +1535,8 @@ def stumpff1(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c1 = np.empty_like(x)
+    x = _as_float(np.asarray(x))
+    c1 = np.full_like(x, np.nan)
     inds = x > 0
     c1[inds] = np.sin(np.sqrt(x[inds]))/np.sqrt(x[inds])
 
@@ -1542,7 +1544,7 @@ def stumpff1(x):
 
     inds = x < 0
     c1[inds] = np.sinh(np.sqrt(-x[inds]))/np.sqrt(-x[inds])
-    return c1
+    return c1[()]
 
 
 def stumpff2(x):
@@ -1562,15 +1564,17 @@ def stumpff2(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c2 = np.empty_like(x)
+    x = _as_float(np.asarray(x))
+    c2 = np.full_like(x, np.nan)
     inds = x > 0
-    c2[inds] = (1 - np.cos(np.sqrt(x[inds])))/x[inds]
+    # half angle form: 1 - cos cancels for small arguments
+    c2[inds] = 2*np.sin(np.sqrt(x[inds])/2)**2/x[inds]
 
     c2[x == 0] = 0.5
 
     inds = x < 0
-    c2[inds] = (1 - np.cosh(np.sqrt(-x[inds])))/x[inds]
-    return c2
+    c2[inds] = -2*np.sinh(np.sqrt(-x[inds])/2)**2/x[inds]
+    return c2[()]
 
 
 def stumpff3(x):
@@ -1590,7 +1594,8 @@ def stumpff3(x):
         (Second Edition) (Hardback) [J.M.A. Danby - 1992]
 
     '''
-    c3 = np.empty_like(x)
+    x = _as_float(np.asarray(x))
+    c3 = np.full_like(x, np.nan)
     inds = x > 0
     xsq = np.sqrt(x[inds])
     c3[inds] = (xsq - np.sin(xsq))/(xsq*x[inds])
@@ -1600,7 +1605,16 @@ def stumpff3(x):
     inds = x < 0
     xsq = np.sqrt(-x[inds])
     c3[inds] = (xsq - np.sinh(xsq))/(xsq*x[inds])
-    return c3
+
+    # the closed forms cancel for small arguments: use the series
+    inds = np.abs(x) < 1
+    xs = x[inds]
+    term = np.full_like(xs, 1/6)
+    c3[inds] = term
+    for j in range(1, 10):
+        term = -term*xs/((2*j + 2)*(2*j + 3))
+        c3[inds] += term
+    return c3[()]
 
 
 def stumpff(x):
-- 
2.43.0


From 787b48a7f069ec795ddf11f499d4c1e77b3b2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 08/30] fix: kep_equivalent compares eccentricity and the
 planar periapsis longitude

Orbits of different eccentricity, and planar orbits with different
direction of periapsis, were declared equivalent, planar orbits that only
differ in the split between node and periapsis were not, and the answer
depended on the order of the arguments.
---
 pyorb/kepler.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 998d178..42f6651 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -560,28 +560,42 @@ def kep_equivalent(kep1, kep2):
 
     if len(kep1.shape) > 1 or len(kep2.shape) > 1:
         raise ValueError('Only vector inputs for now')
-    if np.allclose(kep1, kep2):
+
+    def _close(x, y):
+        # np.isclose is not symmetric in its arguments
+        return np.all(np.isclose(x, y)) or np.all(np.isclose(y, x))
+
+    if _close(kep1, kep2):
         return True
 
-    if not np.isclose(kep1[K_a], kep2[K_a]):
+    if not _close(kep1[K_a], kep2[K_a]):
         return False
+    if not _close(kep1[K_e], kep2[K_e]):
+        return False
+
+    # if both inclinations are (near) zero, then only the sum of Omega and
+    # omega matters
+    if kep1[K_i] <= i_lim and kep2[K_i] <= i_lim:
+        kep1, kep2 = kep1.copy(), kep2.copy()
+        kep1[K_om] += kep1[K_OM]
+        kep2[K_om] += kep2[K_OM]
 
     # if eccentricity is (near) zero, then only the sum of omega and nu matter
     if kep1[K_e] < e_lim and kep2[K_e] < e_lim:
-        if not np.isclose(kep1[K_om] + kep1[K_nu], kep2[K_om] + kep2[K_nu]):
+        if not _close(kep1[K_om] + kep1[K_nu], kep2[K_om] + kep2[K_nu]):
             return False
     else:  # otherwise, they must match up individually
         if (
-            not np.isclose(kep1[K_om], kep2[K_om])
-            or not np.isclose(kep1[K_nu], kep2[K_nu])
+            not _close(kep1[K_om], kep2[K_om])
+            or not _close(kep1[K_nu], kep2[K_nu])
         ):
             return False
 
     # if inclination is non-zero, then Omega matters
     if kep1[K_i] > i_lim or kep2[K_i] > i_lim:
         if (
-            not np.isclose(kep1[K_i], kep2[K_i])
-            or not np.isclose(kep1[K_OM], kep2[K_OM])
+            not _close(kep1[K_i], kep2[K_i])
+            or not _close(kep1[K_OM], kep2[K_OM])
         ):
             return False
     # Otherwise, we should be good
-- 
2.43.0


From eb78d593096b2dbcf3764d0ed4e36014efc4147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 09/30] fix: angle_units accepts declared arguments by keyword
 or omitted

---
 pyorb/unit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyorb/unit.py b/pyorb/unit.py
index 23f5833..12a0a26 100644
--- a/pyorb/unit.py
+++ b/pyorb/unit.py
@@ -80,7 +80,9 @@ def angle_units(in_arg_inds, in_arg_keys, out_arg_inds, degrees=False):
             args = list(args)
             if in_arg_inds is not None:
                 for ind in in_arg_inds:
-                    args[ind] = np.radians(args[ind])
+                    # arguments not given by position are in kwargs
+                    if ind < len(args):
+                        args[ind] = np.radians(args[ind])
             if in_arg_keys is not None:
                 for key in in_arg_keys:
                     if key in kwargs:
-- 
2.43.0


From 261d644f04febdbe7be0c55738bb9764828cce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 10/30] fix: parabolic states give parabolic elements

The semi-major axis of a parabolic state was a huge number of either sign
(or infinite) determined by rounding, and the eccentricity almost never
exactly one, so the elements did not describe the orbit. Return e = 1 and
the periapsis distance, as expected by kep_to_cart.
---
 pyorb/kepler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 42f6651..1b026f5 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -543,6 +543,15 @@ def cart_to_kep(cart, mu=GM_sol, degrees=False):
     tmp_ind2_ = np.logical_and(tmp_ind_, r[1, :] >= 0.0)
     o[5, tmp_ind2_] = 2.0*np.pi - o[5, tmp_ind2_]
 
+    # ## PARABOLIC ORBITS ###
+    # no semi-major axis: the first element is the periapsis distance
+    par = np.logical_and(
+        np.abs(o[1, :] - 1) < e_lim,
+        np.abs(epsilon) < e_lim*mu/rn,
+    )
+    o[0, par] = (hn**2/(2*mu))[par]
+    o[1, par] = 1
+
     # # OUTPUT FORMATTING ##
     if degrees:
         o[2:, :] = np.degrees(o[2:, :])
-- 
2.43.0


From 00d94aefb8f7659718da074ade4317a198f47d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 11/30] fix: calc_eccentric_anomaly stores the selected orbits
 only

For mean anomaly type the storage of all orbits was replaced by an array
of the size of the selection.
---
 pyorb/orbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a735a50..e0be05e 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -885,7 +885,7 @@ class Orbit:
         :code:`self._eccentric_anomaly`.
         '''
         if self.type == 'mean':
-            self._eccentric_anomaly = functions.mean_to_eccentric(
+            self._eccentric_anomaly[inds] = functions.mean_to_eccentric(
                 self.anom[inds],
                 self.e[inds],
                 solver_options = self.solver_options,
-- 
2.43.0


From 308e485c6ac6e56c842ec54b669cad85088654cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 12/30] fix: period setter takes the value to set

Assigning the period or the mean motion raised TypeError.
---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index e0be05e..f9611b1 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1047,11 +1047,11 @@ class Orbit:
         return functions.orbital_period(self.a, self.G*(self.M0 + self.m))
 
     @period.setter
-    def period(self):
+    def period(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self.a = functions.semi_major_axis(
-            self.period,
+            value,
             self.G*(self.M0 + self.m),
         )
         if self.direct_update:
-- 
2.43.0


From 72ffdc679091f2f57fffed3609c708cfbb44c479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 13/30] fix: iterations over the same orbits are independent

The position of the iteration was stored in the instance, so nested
iterations ended each other.
---
 pyorb/orbit.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index f9611b1..c015187 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -202,15 +202,11 @@ class Orbit:
         return self.num
 
     def __iter__(self):
-        self.__it = 0
-        return self
-
-    def __next__(self):
-        if self.__it < self.num:
-            self.__it += 1
-            return self[self.__it-1]
-        else:
-            raise StopIteration
+        # every iteration has its own position
+        it = 0
+        while it < self.num:
+            it += 1
+            yield self[it-1]
 
     @property
     def type(self):
-- 
2.43.0


From afe6a41b1e43ab629c323a80e45bb629278c58e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 14/30] fix: propagation of parabolic and hyperbolic orbits

The mean anomaly of open orbits is not periodic, and the mean motion of a
parabola is sqrt(mu/(2 q^3)) in Barker's equation as used by the anomaly
conversions.
---
 pyorb/orbit.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index c015187..1cabd4e 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -234,8 +234,11 @@ class Orbit:
             wrap_ = 360.0
         else:
             wrap_ = 2*np.pi
-        self.mean_anomaly = np.mod(
-            self.mean_anomaly + self.mean_motion*dt, wrap_)
+        mean_anomaly = self.mean_anomaly + self.mean_motion*dt
+        # only closed orbits are periodic
+        closed = self.e < 1
+        mean_anomaly[closed] = np.mod(mean_anomaly[closed], wrap_)
+        self.mean_anomaly = mean_anomaly
         if self.direct_update:
             self.calculate_cartesian()
 
@@ -820,7 +823,10 @@ class Orbit:
         else:
             norm_ = np.pi*2.0
 
-        return norm_/self.period
+        n = norm_/self.period
+        # Barker's equation, with the periapsis distance as first element
+        n[self.e == 1] /= np.sqrt(2)
+        return n
 
     @mean_motion.setter
     def mean_motion(self, value):
@@ -830,7 +836,7 @@ class Orbit:
             norm_ = 360.0
         else:
             norm_ = np.pi*2.0
-        self.period = norm_/value
+        self.period = norm_/(value*np.where(self.e == 1, np.sqrt(2), 1))
 
         if self.direct_update:
             self.calculate_cartesian()
-- 
2.43.0


From beb5e55cbdc1c8e2a676c68647b58be83b7601fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 15/30] fix: changing the anomaly type does not move the orbit

The converted anomaly was assigned, and with direct_update the Cartesian
elements recalculated from it, before the type was changed.
---
 pyorb/orbit.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 1cabd4e..e38a1ab 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -218,12 +218,17 @@ class Orbit:
         if val not in Orbit.ANOMALY:
             raise ValueError(f'Anomaly type "{val}" not recognized')
         if self.__type != val:
+            if self.kepler_read_only:
+                raise AttributeError('Cannot update read only Kepler elements')
             if val == 'true':
-                self.anom = self.true_anomaly
+                anom = self.true_anomaly
             elif val == 'eccentric':
-                self.anom = self.eccentric_anomaly
+                anom = self.eccentric_anomaly
             elif val == 'mean':
-                self.anom = self.mean_anomaly
+                anom = self.mean_anomaly
+            # only the variable used to describe the position changes, not the
+            # position: there is nothing to recalculate
+            self._kep[5, :] = anom
             self.__type = val
 
     def propagate(self, dt):
-- 
2.43.0


From cef62f91a9b48ac37ccaf448fa6b6cd88b16282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 16/30] fix: equinoctial setter assigns all elements as one
 change

It wrote five of the elements before checking if they are read only, and
in updating on access mode these were overwritten again by a pending
conversion.
---
 pyorb/orbit.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index e38a1ab..67dba55 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1039,12 +1039,24 @@ class Orbit:
 
     @equinoctial.setter
     def equinoctial(self, vals):
+        if self.kepler_read_only:
+            raise AttributeError('Cannot update read only Kepler elements')
         elems = functions.equi_to_kep(vals, degrees=self.degrees)
-        tmp_elms = elems[:5, ...]
-        if len(tmp_elms.shape) == 1:
-            tmp_elms.shape = (5, 1)
-        self._kep[:5, ...] = tmp_elms
-        self.mean_anomaly = elems[5, ...]
+        if self.type == 'true':
+            elems[5, ...] = functions.mean_to_true(
+                elems[5, ...],
+                elems[1, ...],
+                solver_options = self.solver_options,
+                degrees = self.degrees,
+            )
+        elif self.type == 'eccentric':
+            elems[5, ...] = functions.mean_to_eccentric(
+                elems[5, ...],
+                elems[1, ...],
+                solver_options = self.solver_options,
+                degrees = self.degrees,
+            )
+        self.kepler = elems
 
     @property
     def period(self):
-- 
2.43.0


From cb66a50556c076886eec5439e4424c97f083b993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 17/30] fix: speed and periapsis of parabolic and hyperbolic
 orbits

The formulas only held for ellipses, and the speed additionally used the
ellipse equation with the hyperbolic or parabolic anomaly.
---
 pyorb/orbit.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 67dba55..a378939 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -1022,7 +1022,10 @@ class Orbit:
 
     @property
     def periapsis(self):
-        return (1.0 - self.e)*self.a
+        e, a = self.e, self.a
+        # hyperbolas have positive semi-major axis, parabolas are described by
+        # the periapsis distance
+        return np.where(e == 1, a, np.abs(1.0 - e)*a)
 
     @property
     def mean_longitude(self):
@@ -1101,13 +1104,25 @@ class Orbit:
         '''Orbital speed (from kepler)
         '''
         self._kep_check()
+        mu = self.G*(self.M0 + self.m)
+        e, a = self.e, self.a
+        # the equations are for negative semi-major axis of hyperbolas
+        a[e > 1] *= -1
+        h = np.where(
+            e == 1,
+            functions.parabolic_total_angular_momentum(np.abs(a), mu),
+            functions.orbit_total_angular_momentum(a, e, mu),
+        )
+        # and infinite semi-major axis of parabolas
+        a[e == 1] = np.inf
         return functions.orbital_speed(
-            functions.elliptic_radius(
-                self.eccentric_anomaly,
-                self.a,
-                self.e,
+            functions.orbital_distance(
+                h,
+                mu,
+                e,
+                self.true_anomaly,
                 degrees=self.degrees,
             ),
-            self.a,
-            self.G*(self.M0 + self.m),
+            a,
+            mu,
         )
-- 
2.43.0


From dd87a21f8f76b9a5a24b8d8b89a915a666c39653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 18/30] fix: track pending conversions per change

With updating on access:
- setting one component did not first apply a pending conversion, which
  then overwrote the new value or combined it with outdated components,
- an explicit recalculation used outdated elements,
- a conversion that raised was nevertheless marked as done.
Also, changes pending when direct_update was switched on were lost.
---
 pyorb/orbit.py | 150 +++++++++++++++++++++++++++++--------------------
 1 file changed, 89 insertions(+), 61 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index a378939..c327b9f 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -149,14 +149,16 @@ class Orbit:
         return str_
 
     def _cart_check(self):
-        if self.auto_update and not self.direct_update:
-            self.calculate_cartesian(
+        # with direct_update there can be changes pending from before it was
+        # switched on
+        if self.auto_update or self.direct_update:
+            self._calculate_cartesian(
                 np.logical_not(self.__cart_calculated),
             )
 
     def _kep_check(self):
-        if self.auto_update and not self.direct_update:
-            self.calculate_kepler(
+        if self.auto_update or self.direct_update:
+            self._calculate_kepler(
                 np.logical_not(self.__kep_calculated),
             )
 
@@ -378,22 +380,20 @@ class Orbit:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
             self._cart[:, inds] = kwargs['cartesian']
+            self.__cart_calculated[inds] = True
+            self.__kep_calculated[inds] = False
             if self.direct_update:
                 self.calculate_kepler()
-            else:
-                self.__cart_calculated[inds] = True
-                self.__kep_calculated[inds] = False
             return
 
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
             self._kep[:, inds] = kwargs['kepler']
+            self.__kep_calculated[inds] = True
+            self.__cart_calculated[inds] = False
             if self.direct_update:
                 self.calculate_cartesian()
-            else:
-                self.__kep_calculated[inds] = True
-                self.__cart_calculated[inds] = False
             return
 
         for ind, key in enumerate(Orbit.CARTESIAN):
@@ -413,6 +413,12 @@ class Orbit:
                         Keplerian elements simultaneously.')
                 kep_updated = True
 
+        # the elements that are not given keep their current value
+        if cart_updated:
+            self._cart_check()
+        if kep_updated:
+            self._kep_check()
+
         if 'm' in kwargs:
             if self.direct_update:
                 raise ValueError('Cannot set "m" and direct update, \
@@ -424,21 +430,19 @@ class Orbit:
                 if key in kwargs:
                     self._cart[ind, inds] = kwargs[key]
 
+            self.__kep_calculated[inds] = False
+            self.__cart_calculated[inds] = True
             if self.direct_update:
                 self.calculate_kepler()
-            else:
-                self.__kep_calculated[inds] = False
-                self.__cart_calculated[inds] = True
         if kep_updated:
             for ind, key in enumerate(Orbit.KEPLER):
                 if key in kwargs:
                     self._kep[ind, inds] = kwargs[key]
 
+            self.__cart_calculated[inds] = False
+            self.__kep_calculated[inds] = True
             if self.direct_update:
                 self.calculate_cartesian()
-            else:
-                self.__cart_calculated[inds] = False
-                self.__kep_calculated[inds] = True
 
     def calculate_cartesian(self, inds=slice(None, None, None)):
         '''Calculates Cartesian elements based on Keplerian elements
@@ -447,6 +451,11 @@ class Orbit:
             calculate, defaults to all
         :return: None
         '''
+        # changes of the Cartesian elements may still be pending
+        self._kep_check()
+        self._calculate_cartesian(inds)
+
+    def _calculate_cartesian(self, inds):
         do_inds = np.full((self.num,), False, dtype=np.bool_)
         do_inds[inds] = True
         do_inds[inds] = np.logical_not(
@@ -455,7 +464,6 @@ class Orbit:
         if np.sum(do_inds) == 0:
             return
 
-        self.__cart_calculated[do_inds] = True
         if self.type == 'true':
             kep_tmp = self._kep[:, do_inds]
         else:
@@ -468,6 +476,8 @@ class Orbit:
             mu=self.G*(self.M0 + self.m[do_inds]),
             degrees=self.degrees,
         )
+        self.__cart_calculated[do_inds] = True
+        self.__kep_calculated[do_inds] = True
 
     def calculate_kepler(self, inds=slice(None, None, None)):
         '''Calculates Keplerian elements based on Cartesian elements
@@ -476,6 +486,11 @@ class Orbit:
             calculate, defaults to all
         :return: None
         '''
+        # changes of the Keplerian elements may still be pending
+        self._cart_check()
+        self._calculate_kepler(inds)
+
+    def _calculate_kepler(self, inds):
         do_inds = np.full((self.num,), False, dtype=np.bool_)
         do_inds[inds] = True
         do_inds[inds] = np.logical_not(
@@ -484,26 +499,29 @@ class Orbit:
         if np.sum(do_inds) == 0:
             return
 
-        self.__kep_calculated[do_inds] = True
-        self._kep[:, do_inds] = functions.cart_to_kep(
+        kep_tmp = functions.cart_to_kep(
             self._cart[:, do_inds],
             mu = self.G*(self.M0 + self.m[do_inds]),
             degrees = self.degrees,
         )
 
         if self.type == 'eccentric':
-            self._kep[5, do_inds] = functions.true_to_eccentric(
-                self._kep[5, do_inds],
-                self.e[do_inds],
+            kep_tmp[5, :] = functions.true_to_eccentric(
+                kep_tmp[5, :],
+                kep_tmp[1, :],
                 degrees = self.degrees,
             )
         elif self.type == 'mean':
-            self._kep[5, do_inds] = functions.true_to_mean(
-                self._kep[5, do_inds],
-                self.e[do_inds],
+            kep_tmp[5, :] = functions.true_to_mean(
+                kep_tmp[5, :],
+                kep_tmp[1, :],
                 degrees = self.degrees,
             )
 
+        self._kep[:, do_inds] = kep_tmp
+        self.__kep_calculated[do_inds] = True
+        self.__cart_calculated[do_inds] = True
+
     @property
     def num(self):
         '''Number of orbits
@@ -525,13 +543,13 @@ class Orbit:
     def r(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[:3, :] = value
 
+        self.__cart_calculated[:] = True
+        self.__kep_calculated[:] = False
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def v(self):
@@ -544,13 +562,13 @@ class Orbit:
     def v(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3:, :] = value
 
+        self.__cart_calculated[:] = True
+        self.__kep_calculated[:] = False
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def cartesian(self):
@@ -571,11 +589,10 @@ class Orbit:
         else:
             self._cart[:, :] = value
 
+        self.__cart_calculated[:] = True
+        self.__kep_calculated[:] = False
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
-            self.__cart_calculated[:] = True
 
     @property
     def x(self):
@@ -588,12 +605,13 @@ class Orbit:
     def x(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[0, :] = value
 
+        self.__cart_calculated[:] = True
+        self.__kep_calculated[:] = False
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def y(self):
@@ -606,12 +624,13 @@ class Orbit:
     def y(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[1, :] = value
 
+        self.__cart_calculated[:] = True
+        self.__kep_calculated[:] = False
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def z(self):
@@ -624,12 +643,13 @@ class Orbit:
     def z(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[2, :] = value
 
+        self.__cart_calculated[:] = True
+        self.__kep_calculated[:] = False
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def vx(self):
@@ -642,12 +662,13 @@ class Orbit:
     def vx(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[3, :] = value
 
+        self.__cart_calculated[:] = True
+        self.__kep_calculated[:] = False
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def vy(self):
@@ -660,12 +681,13 @@ class Orbit:
     def vy(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[4, :] = value
 
+        self.__cart_calculated[:] = True
+        self.__kep_calculated[:] = False
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def vz(self):
@@ -678,12 +700,13 @@ class Orbit:
     def vz(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        self._cart_check()
         self._cart[5, :] = value
 
+        self.__cart_calculated[:] = True
+        self.__kep_calculated[:] = False
         if self.direct_update:
             self.calculate_kepler()
-        else:
-            self.__kep_calculated[:] = False
 
     @property
     def kepler(self):
@@ -704,11 +727,10 @@ class Orbit:
         else:
             self._kep[:, :] = value
 
+        self.__kep_calculated[:] = True
+        self.__cart_calculated[:] = False
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
-            self.__kep_calculated[:] = True
 
     @property
     def a(self):
@@ -721,12 +743,13 @@ class Orbit:
     def a(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[0, :] = value
 
+        self.__kep_calculated[:] = True
+        self.__cart_calculated[:] = False
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def e(self):
@@ -739,12 +762,13 @@ class Orbit:
     def e(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[1, :] = value
 
+        self.__kep_calculated[:] = True
+        self.__cart_calculated[:] = False
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def i(self):
@@ -757,12 +781,13 @@ class Orbit:
     def i(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[2, :] = value
 
+        self.__kep_calculated[:] = True
+        self.__cart_calculated[:] = False
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def omega(self):
@@ -775,12 +800,13 @@ class Orbit:
     def omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[3, :] = value
 
+        self.__kep_calculated[:] = True
+        self.__cart_calculated[:] = False
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def Omega(self):
@@ -793,12 +819,13 @@ class Orbit:
     def Omega(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[4, :] = value
 
+        self.__kep_calculated[:] = True
+        self.__cart_calculated[:] = False
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def anom(self):
@@ -812,12 +839,13 @@ class Orbit:
     def anom(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        self._kep_check()
         self._kep[5, :] = value
 
+        self.__kep_calculated[:] = True
+        self.__cart_calculated[:] = False
         if self.direct_update:
             self.calculate_cartesian()
-        else:
-            self.__cart_calculated[:] = False
 
     @property
     def mean_motion(self):
-- 
2.43.0


From c0508485a1b5750576debf7936176a65522907d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 19/30] fix: update only recalculates the updated orbits

Updating a selection in direct_update mode also recalculated the elements
of all other orbits, which e.g. changes their representation.
---
 pyorb/orbit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index c327b9f..65a4b6e 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -383,7 +383,7 @@ class Orbit:
             self.__cart_calculated[inds] = True
             self.__kep_calculated[inds] = False
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
             return
 
         if 'kepler' in kwargs:
@@ -393,7 +393,7 @@ class Orbit:
             self.__kep_calculated[inds] = True
             self.__cart_calculated[inds] = False
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
             return
 
         for ind, key in enumerate(Orbit.CARTESIAN):
@@ -433,7 +433,7 @@ class Orbit:
             self.__kep_calculated[inds] = False
             self.__cart_calculated[inds] = True
             if self.direct_update:
-                self.calculate_kepler()
+                self.calculate_kepler(inds)
         if kep_updated:
             for ind, key in enumerate(Orbit.KEPLER):
                 if key in kwargs:
@@ -442,7 +442,7 @@ class Orbit:
             self.__cart_calculated[inds] = False
             self.__kep_calculated[inds] = True
             if self.direct_update:
-                self.calculate_cartesian()
+                self.calculate_cartesian(inds)
 
     def calculate_cartesian(self, inds=slice(None, None, None)):
         '''Calculates Cartesian elements based on Keplerian elements
-- 
2.43.0


From 5be3a293ac98f1519ca22a821245ba9c2798a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 20/30] fix: copies and slices keep pending conversions

In updating on access mode a copy of an orbit with a pending conversion
reported outdated elements.
---
 pyorb/orbit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 65a4b6e..fe84380 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -193,6 +193,9 @@ class Orbit:
 
         tmp_orb._cart = self._cart[:, inds].copy()
         tmp_orb._kep = self._kep[:, inds].copy()
+        # pending conversions are pending in the copy
+        tmp_orb.__cart_calculated[:] = self.__cart_calculated[inds]
+        tmp_orb.__kep_calculated[:] = self.__kep_calculated[inds]
 
         if len(tmp_orb._cart.shape) == 1:
             tmp_orb._cart.shape = (6, 1)
-- 
2.43.0


From ab8c6c1484f83401f654fe6cd77c59da793a9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 21/30] fix: a refused add or update leaves the orbits
 unchanged

Values assigned before the unusable one, and blank orbits, were kept.
---
 pyorb/orbit.py | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index fe84380..ae6f4f1 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -283,6 +283,7 @@ class Orbit:
 
         '''
         inds = slice(self.num, self.num + num, None)
+        stored = self.__dict__.copy()
 
         self.m = np.append(
             self.m,
@@ -325,11 +326,16 @@ class Orbit:
             axis=0,
         )
 
-        if 'm' in kwargs:
-            self.m[inds] = kwargs['m']
-            del kwargs['m']
+        try:
+            if 'm' in kwargs:
+                self.m[inds] = kwargs['m']
+                del kwargs['m']
 
-        self.update(inds = inds, **kwargs)
+            self.update(inds = inds, **kwargs)
+        except Exception:
+            # refused: do not leave blank orbits behind
+            self.__dict__.update(stored)
+            raise
 
     def allocate(self, num):
         '''Changes the current allocation of orbits to a fixed number.
@@ -422,26 +428,35 @@ class Orbit:
         if kep_updated:
             self._kep_check()
 
+        # work on copies: nothing is updated if any of the values is unusable
+        m = self.m.copy()
+        cart = self._cart.copy()
+        kep = self._kep.copy()
+
         if 'm' in kwargs:
             if self.direct_update:
                 raise ValueError('Cannot set "m" and direct update, \
                     set "m" via property and manually call calculate.')
-            self.m[inds] = kwargs['m']
+            m[inds] = kwargs['m']
 
-        if cart_updated:
-            for ind, key in enumerate(Orbit.CARTESIAN):
-                if key in kwargs:
-                    self._cart[ind, inds] = kwargs[key]
+        for ind, key in enumerate(Orbit.CARTESIAN):
+            if key in kwargs:
+                cart[ind, inds] = kwargs[key]
 
+        for ind, key in enumerate(Orbit.KEPLER):
+            if key in kwargs:
+                kep[ind, inds] = kwargs[key]
+
+        self.m = m
+        self._cart = cart
+        self._kep = kep
+
+        if cart_updated:
             self.__kep_calculated[inds] = False
             self.__cart_calculated[inds] = True
             if self.direct_update:
                 self.calculate_kepler(inds)
         if kep_updated:
-            for ind, key in enumerate(Orbit.KEPLER):
-                if key in kwargs:
-                    self._kep[ind, inds] = kwargs[key]
-
             self.__cart_calculated[inds] = False
             self.__kep_calculated[inds] = True
             if self.direct_update:
-- 
2.43.0


From a7226831c39386dc98db3928c1ac2f1c7dd125a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 22/30] fix: vectors of elements are accepted and mean the same
 everywhere

A single state vector was applied to every orbit by assigning an array to
the cartesian or kepler property, but refused, or for certain numbers of
orbits spread over the orbits instead of the elements, by update, the
constructor, r and v, and for lists.
---
 pyorb/orbit.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index ae6f4f1..8c5092b 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -388,7 +388,10 @@ class Orbit:
             if self.cartesian_read_only:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
-            self._cart[:, inds] = kwargs['cartesian']
+            value = np.asarray(kwargs['cartesian'])
+            if value.ndim == 1 and self._cart[:, inds].ndim > 1:
+                value = value[:, None]
+            self._cart[:, inds] = value
             self.__cart_calculated[inds] = True
             self.__kep_calculated[inds] = False
             if self.direct_update:
@@ -398,7 +401,10 @@ class Orbit:
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
-            self._kep[:, inds] = kwargs['kepler']
+            value = np.asarray(kwargs['kepler'])
+            if value.ndim == 1 and self._kep[:, inds].ndim > 1:
+                value = value[:, None]
+            self._kep[:, inds] = value
             self.__kep_calculated[inds] = True
             self.__cart_calculated[inds] = False
             if self.direct_update:
@@ -561,6 +567,9 @@ class Orbit:
     def r(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        value = np.asarray(value)
+        if value.ndim == 1:
+            value = value[:, None]
         self._cart_check()
         self._cart[:3, :] = value
 
@@ -580,6 +589,9 @@ class Orbit:
     def v(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        value = np.asarray(value)
+        if value.ndim == 1:
+            value = value[:, None]
         self._cart_check()
         self._cart[3:, :] = value
 
@@ -599,6 +611,8 @@ class Orbit:
     def cartesian(self, value):
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
+        if isinstance(value, (list, tuple)):
+            value = np.array(value)
         if isinstance(value, np.ndarray):
             if len(value.shape) == 1:
                 self._cart[:, :] = value[:, None]
@@ -737,6 +751,8 @@ class Orbit:
     def kepler(self, value):
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
+        if isinstance(value, (list, tuple)):
+            value = np.array(value)
         if isinstance(value, np.ndarray):
             if len(value.shape) == 1:
                 self._kep[:, :] = value[:, None]
-- 
2.43.0


From 9ceda8ab50584c349c8eb5e08abf990ea9a0a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:13 +0000
Subject: [PATCH 23/30] fix: kepler_guess accepts empty arrays

---
 pyorb/kepler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 1b026f5..d6b49dd 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1262,6 +1262,8 @@ def kepler_guess(M, e):
         E0 = np.empty(M.shape, dtype=M.dtype)
 
         out_it = E0.size
+        if out_it == 0:
+            return E0
         Mit = np.nditer(M)
         eit = np.nditer(e)
         Eit = np.nditer(E0, op_flags=['readwrite'])
-- 
2.43.0


From 782ddc1777627e4d074e6601ca108395990e3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 24/30] fix: values that are not numbers are refused before any
 is stored

---
 pyorb/orbit.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 8c5092b..99bb23f 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -388,7 +388,7 @@ class Orbit:
             if self.cartesian_read_only:
                 raise AttributeError('Cannot update read only \
                     Cartesian elements')
-            value = np.asarray(kwargs['cartesian'])
+            value = np.asarray(kwargs['cartesian'], dtype=self.dtype)
             if value.ndim == 1 and self._cart[:, inds].ndim > 1:
                 value = value[:, None]
             self._cart[:, inds] = value
@@ -401,7 +401,7 @@ class Orbit:
         if 'kepler' in kwargs:
             if self.kepler_read_only:
                 raise AttributeError('Cannot update read only Kepler elements')
-            value = np.asarray(kwargs['kepler'])
+            value = np.asarray(kwargs['kepler'], dtype=self.dtype)
             if value.ndim == 1 and self._kep[:, inds].ndim > 1:
                 value = value[:, None]
             self._kep[:, inds] = value
@@ -571,7 +571,7 @@ class Orbit:
         if value.ndim == 1:
             value = value[:, None]
         self._cart_check()
-        self._cart[:3, :] = value
+        self._cart[:3, :] = np.asarray(value, dtype=self.dtype)
 
         self.__cart_calculated[:] = True
         self.__kep_calculated[:] = False
@@ -593,7 +593,7 @@ class Orbit:
         if value.ndim == 1:
             value = value[:, None]
         self._cart_check()
-        self._cart[3:, :] = value
+        self._cart[3:, :] = np.asarray(value, dtype=self.dtype)
 
         self.__cart_calculated[:] = True
         self.__kep_calculated[:] = False
@@ -614,6 +614,8 @@ class Orbit:
         if isinstance(value, (list, tuple)):
             value = np.array(value)
         if isinstance(value, np.ndarray):
+            # values that are not numbers are refused before any is stored
+            value = np.asarray(value, dtype=self.dtype)
             if len(value.shape) == 1:
                 self._cart[:, :] = value[:, None]
             else:
@@ -638,7 +640,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[0, :] = value
+        self._cart[0, :] = np.asarray(value, dtype=self.dtype)
 
         self.__cart_calculated[:] = True
         self.__kep_calculated[:] = False
@@ -657,7 +659,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[1, :] = value
+        self._cart[1, :] = np.asarray(value, dtype=self.dtype)
 
         self.__cart_calculated[:] = True
         self.__kep_calculated[:] = False
@@ -676,7 +678,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[2, :] = value
+        self._cart[2, :] = np.asarray(value, dtype=self.dtype)
 
         self.__cart_calculated[:] = True
         self.__kep_calculated[:] = False
@@ -695,7 +697,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[3, :] = value
+        self._cart[3, :] = np.asarray(value, dtype=self.dtype)
 
         self.__cart_calculated[:] = True
         self.__kep_calculated[:] = False
@@ -714,7 +716,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[4, :] = value
+        self._cart[4, :] = np.asarray(value, dtype=self.dtype)
 
         self.__cart_calculated[:] = True
         self.__kep_calculated[:] = False
@@ -733,7 +735,7 @@ class Orbit:
         if self.cartesian_read_only:
             raise AttributeError('Cannot update read only Cartesian elements')
         self._cart_check()
-        self._cart[5, :] = value
+        self._cart[5, :] = np.asarray(value, dtype=self.dtype)
 
         self.__cart_calculated[:] = True
         self.__kep_calculated[:] = False
@@ -754,6 +756,8 @@ class Orbit:
         if isinstance(value, (list, tuple)):
             value = np.array(value)
         if isinstance(value, np.ndarray):
+            # values that are not numbers are refused before any is stored
+            value = np.asarray(value, dtype=self.dtype)
             if len(value.shape) == 1:
                 self._kep[:, :] = value[:, None]
             else:
@@ -778,7 +782,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[0, :] = value
+        self._kep[0, :] = np.asarray(value, dtype=self.dtype)
 
         self.__kep_calculated[:] = True
         self.__cart_calculated[:] = False
@@ -797,7 +801,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[1, :] = value
+        self._kep[1, :] = np.asarray(value, dtype=self.dtype)
 
         self.__kep_calculated[:] = True
         self.__cart_calculated[:] = False
@@ -816,7 +820,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[2, :] = value
+        self._kep[2, :] = np.asarray(value, dtype=self.dtype)
 
         self.__kep_calculated[:] = True
         self.__cart_calculated[:] = False
@@ -835,7 +839,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[3, :] = value
+        self._kep[3, :] = np.asarray(value, dtype=self.dtype)
 
         self.__kep_calculated[:] = True
         self.__cart_calculated[:] = False
@@ -854,7 +858,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[4, :] = value
+        self._kep[4, :] = np.asarray(value, dtype=self.dtype)
 
         self.__kep_calculated[:] = True
         self.__cart_calculated[:] = False
@@ -874,7 +878,7 @@ class Orbit:
         if self.kepler_read_only:
             raise AttributeError('Cannot update read only Kepler elements')
         self._kep_check()
-        self._kep[5, :] = value
+        self._kep[5, :] = np.asarray(value, dtype=self.dtype)
 
         self.__kep_calculated[:] = True
         self.__cart_calculated[:] = False
-- 
2.43.0


From 5b0db3641c5b8f6a531c5af677a1ed7b9701d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 25/30] fix: Kepler's equation solved for the right element in
 any memory layout

---
 pyorb/kepler.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index d6b49dd..c062f90 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -1264,9 +1264,9 @@ def kepler_guess(M, e):
         out_it = E0.size
         if out_it == 0:
             return E0
-        Mit = np.nditer(M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E0, op_flags=['readwrite'])
+        Mit = np.nditer(M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E0, order='C', op_flags=['readwrite'])
 
         for it in range(out_it):
             Mc = next(Mit)
@@ -1344,9 +1344,9 @@ def mean_to_eccentric(M, e, solver_options=None, degrees=False):
             return E
 
         out_it = E.size
-        Mit = np.nditer(_M)
-        eit = np.nditer(e)
-        Eit = np.nditer(E, op_flags=['readwrite'])
+        Mit = np.nditer(_M, order='C')
+        eit = np.nditer(e, order='C')
+        Eit = np.nditer(E, order='C', op_flags=['readwrite'])
 
         for it in range(out_it):
             Mc = next(Mit)
-- 
2.43.0


From 7738689d348da0d0e74abb3ffda3914b9691348b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:06 +0000
Subject: [PATCH 26/30] fix: printing an orbit shows its current elements

---
 pyorb/orbit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/orbit.py b/pyorb/orbit.py
index 99bb23f..f3c0fec 100644
--- a/pyorb/orbit.py
+++ b/pyorb/orbit.py
@@ -140,8 +140,8 @@ class Orbit:
                 f'{kkey:<5}: {kval:<.4e}   {ckey:<2}: {cval:<.4e}'
                 for kval, kkey, cval, ckey in
                 zip(
-                    self._kep[:, 0], Orbit.KEPLER,
-                    self._cart[:, 0], Orbit.CARTESIAN
+                    self.kepler[:, 0], Orbit.KEPLER,
+                    self.cartesian[:, 0], Orbit.CARTESIAN
                 )
             ])
         else:
-- 
2.43.0


From 3276e134a7d00af4eabccc88c10d42fee95d17f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:22 +0000
Subject: [PATCH 27/30] fix: whole-number arguments do not overflow in angular
 momentum and distance

---
 pyorb/kepler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index c062f90..96b7ffe 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -629,7 +629,7 @@ def orbit_total_angular_momentum(a, e, mu):
         Total angular momentum.
 
     '''
-    return np.sqrt(mu*a*(1 - e**2))
+    return np.sqrt(1.0*mu*a*(1 - e**2))
 
 
 def parabolic_total_angular_momentum(q, mu):
@@ -648,7 +648,7 @@ def parabolic_total_angular_momentum(q, mu):
         Total angular momentum.
 
     '''
-    return np.sqrt(mu*2*q)
+    return np.sqrt(mu*2.0*q)
 
 
 def true_to_eccentric(nu, e, degrees=False):
@@ -890,7 +890,7 @@ def orbital_distance(h, mu, e, nu, degrees=False):
     else:
         _nu = nu
 
-    return h**2/(mu*(1 + e*np.cos(_nu)))
+    return h**2.0/(mu*(1 + e*np.cos(_nu)))
 
 
 def elliptic_radius(E, a, e, degrees=False):
-- 
2.43.0


From d007ec3de5f810bd187099cfffc94d2faa7bad98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 28/30] fix: kep_equivalent compares sizes independently of the
 unit of length

---
 pyorb/kepler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 96b7ffe..96444d1 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -570,15 +570,19 @@ def kep_equivalent(kep1, kep2):
     if len(kep1.shape) > 1 or len(kep2.shape) > 1:
         raise ValueError('Only vector inputs for now')
 
-    def _close(x, y):
+    def _close(x, y, atol=1e-8):
         # np.isclose is not symmetric in its arguments
-        return np.all(np.isclose(x, y)) or np.all(np.isclose(y, x))
+        return (
+            np.all(np.isclose(x, y, atol=atol))
+            or np.all(np.isclose(y, x, atol=atol))
+        )
 
+    # sizes agree relative to each other whatever the unit of length
+    if not _close(kep1[K_a], kep2[K_a], atol=0):
+        return False
     if _close(kep1, kep2):
         return True
 
-    if not _close(kep1[K_a], kep2[K_a]):
-        return False
     if not _close(kep1[K_e], kep2[K_e]):
         return False
 
-- 
2.43.0


From e4aadf074f931bc1e9c972f75687d4409db0b49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 29/30] fix: kep_equivalent does not take negative inclinations
 for planar orbits

---
 pyorb/kepler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 96444d1..679013e 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -588,7 +588,7 @@ def kep_equivalent(kep1, kep2):
 
     # if both inclinations are (near) zero, then only the sum of Omega and
     # omega matters
-    if kep1[K_i] <= i_lim and kep2[K_i] <= i_lim:
+    if abs(kep1[K_i]) <= i_lim and abs(kep2[K_i]) <= i_lim:
         kep1, kep2 = kep1.copy(), kep2.copy()
         kep1[K_om] += kep1[K_OM]
         kep2[K_om] += kep2[K_OM]
@@ -605,7 +605,7 @@ def kep_equivalent(kep1, kep2):
             return False
 
     # if inclination is non-zero, then Omega matters
-    if kep1[K_i] > i_lim or kep2[K_i] > i_lim:
+    if abs(kep1[K_i]) > i_lim or abs(kep2[K_i]) > i_lim:
         if (
             not _close(kep1[K_i], kep2[K_i])
             or not _close(kep1[K_OM], kep2[K_OM])
-- 
2.43.0


From 73f161aec035c18fbbdbca69f6ae0ef7d59200b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:47 +0000
Subject: [PATCH 30/30] fix: kep_equivalent does not equate parabolas with
 nearly parabolic orbits

---
 pyorb/kepler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyorb/kepler.py b/pyorb/kepler.py
index 679013e..6b4d6b0 100644
--- a/pyorb/kepler.py
+++ b/pyorb/kepler.py
@@ -580,6 +580,9 @@ def kep_equivalent(kep1, kep2):
     # sizes agree relative to each other whatever the unit of length
     if not _close(kep1[K_a], kep2[K_a], atol=0):
         return False
+    # the first element of parabolas is not a semi-major axis
+    if (kep1[K_e] == 1) != (kep2[K_e] == 1):
+        return False
     if _close(kep1, kep2):
         return True
 
-- 
2.43.0

