From 3e81368e6afb65a0f1a6fbcae82cb204b8d0175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 01/28] fix: ETRS89 ellipsoid had the inverse flattening stored
 as flattening

---
 src/nvector/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index f3417b5..241bb15 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -38,7 +38,7 @@ ELLIPSOID = {
     16: Ellipsoid(a=6378135., f=1.0 / 298.26, name='WGS 72'),
     17: Ellipsoid(a=6378206.4, f=1.0 / 294.9786982138, name='Clarke 1866    (NAD27)'),
     18: Ellipsoid(a=6378137.0, f=1.0 / 298.257223563, name='GRS80 / WGS84  (NAD83)'),
-    19: Ellipsoid(a=6378137, f=298.257222101, name='ETRS89')
+    19: Ellipsoid(a=6378137, f=1.0 / 298.257222101, name='ETRS89')
 }
 ELLIPSOID_IX = {'airy1858': 1,
                 'airymodified': 2,
-- 
2.43.0


From 14ea0d5d5a655beb03076c0bc367c9f0ae518cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 02/28] fix: get_ellipsoid did not know the documented name
 ETRS89

---
 src/nvector/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 241bb15..0f39476 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -68,6 +68,7 @@ ELLIPSOID_IX = {'airy1858': 1,
                 'grs80': 18,
                 'wgs84': 18,
                 'nad83': 18,
+                'etrs89': 19,
                 }
 
 
-- 
2.43.0


From 88aeeda26f5fe32aff288d9bebd3acfd8281a27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:01 +0000
Subject: [PATCH 03/28] fix: pair vectors of positions column by column in the
 great circle functions

---
 src/nvector/core.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 9e14c76..4df203d 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -496,13 +496,18 @@ def intersect(path_a, path_b):
     # n_EC_E_tmp is one of two solutions, the other is -n_EC_E_tmp. Select
     # the one that is closet to n_EA1_E, by selecting sign from the dot
     # product between n_EC_E_tmp and n_EA1_E:
-    n_EC_E = np.sign(dot(n_EC_E_tmp.T, n_EA1_E)) * n_EC_E_tmp
+    n_EC_E = np.sign(_dot_columns(n_EC_E_tmp, n_EA1_E)) * n_EC_E_tmp
     if np.any(np.isnan(n_EC_E)):
         warnings.warn('Paths are Equal. Intersection point undefined. '
                       'NaN returned.')
     return n_EC_E
 
 
+def _dot_columns(a, b):
+    """Returns the dot products between the corresponding columns of a and b"""
+    return np.sum(np.multiply(a, b), axis=0)
+
+
 def great_circle_normal(n_EA_E, n_EB_E):
     """
     Returns the unit normal(s) to the great circle(s)
@@ -557,7 +562,7 @@ def cross_track_distance(path, n_EB_E, method='greatcircle', radius=6371009.0):
 
     """
     c_E = great_circle_normal(path[0], path[1])
-    sin_theta = -np.dot(c_E.T, n_EB_E).ravel()
+    sin_theta = -_dot_columns(c_E, n_EB_E).ravel()
     if method[0].lower() == 'e':
         return _euclidean_cross_track_distance(sin_theta, radius)
     return _great_circle_cross_track_distance(sin_theta, radius)
@@ -671,7 +676,7 @@ def closest_point_on_great_circle(path, n_EB_E):
 
     c2 = cross(n_EB_E, c_E, axis=0)
     n_EC_E = unit(cross(c_E, c2, axis=0))
-    return n_EC_E * np.sign(dot(n_EC_E.T, n_EB_E))
+    return n_EC_E * np.sign(_dot_columns(n_EC_E, n_EB_E))
 
 
 @use_docstring(_examples.get_examples_no_header([5], OO=False))
@@ -698,7 +703,7 @@ def great_circle_distance(n_EA_E, n_EB_E, radius=6371009.0):
 
     """
     sin_theta = norm(np.cross(n_EA_E, n_EB_E, axis=0), axis=0)
-    cos_theta = dot(n_EA_E.T, n_EB_E)
+    cos_theta = _dot_columns(n_EA_E, n_EB_E)
     theta = np.arctan2(sin_theta, cos_theta).ravel()
     s_AB = theta * radius
 
-- 
2.43.0


From 132fa0ec6cfc63527483bfdb7eb76472b47a71fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 04/28] fix: intersect returned a zero vector when both
 solutions are equally close

---
 src/nvector/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 4df203d..681369d 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -496,7 +496,8 @@ def intersect(path_a, path_b):
     # n_EC_E_tmp is one of two solutions, the other is -n_EC_E_tmp. Select
     # the one that is closet to n_EA1_E, by selecting sign from the dot
     # product between n_EC_E_tmp and n_EA1_E:
-    n_EC_E = np.sign(_dot_columns(n_EC_E_tmp, n_EA1_E)) * n_EC_E_tmp
+    # (If both are equally close, sign(0) must not be used.)
+    n_EC_E = np.where(_dot_columns(n_EC_E_tmp, n_EA1_E) < 0, -1, 1) * n_EC_E_tmp
     if np.any(np.isnan(n_EC_E)):
         warnings.warn('Paths are Equal. Intersection point undefined. '
                       'NaN returned.')
-- 
2.43.0


From 6797e24b7a93b6af0ca70c92a7b81730dccc34bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 05/28] fix: closest_point_on_great_circle returned a zero
 vector for the pole of the path

---
 src/nvector/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 681369d..f240300 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -676,8 +676,10 @@ def closest_point_on_great_circle(path, n_EB_E):
     c_E = great_circle_normal(n_EA1_E, n_EA2_E)
 
     c2 = cross(n_EB_E, c_E, axis=0)
-    n_EC_E = unit(cross(c_E, c2, axis=0))
-    return n_EC_E * np.sign(_dot_columns(n_EC_E, n_EB_E))
+    n_EC_E = cross(c_E, c2, axis=0)
+    # If B is at the pole of the great circle all its points are equally close: select A1
+    n_EC_E = np.where(norm(n_EC_E, axis=0) == 0, n_EA1_E, n_EC_E)
+    return unit(n_EC_E)
 
 
 @use_docstring(_examples.get_examples_no_header([5], OO=False))
-- 
2.43.0


From f0d43cb274ba381fd18417be9c8c369eb445995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 06/28] fix: cross_track_distance was NaN or inaccurate near
 the pole of the path

---
 src/nvector/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index f240300..331b9b1 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -526,8 +526,10 @@ def _euclidean_cross_track_distance(sin_theta, radius=1):
     return sin_theta * radius
 
 
-def _great_circle_cross_track_distance(sin_theta, radius=1):
-    return np.arcsin(sin_theta) * radius
+def _great_circle_cross_track_distance(sin_theta, cos_theta, radius=1):
+    return np.arctan2(sin_theta, cos_theta) * radius
+    # ill conditioned for angles near pi/2 and NaN if rounding makes abs(sin_theta) > 1:
+    # return np.arcsin(sin_theta) * radius
     # ill conditioned for small angles:
     # return (np.arccos(-sin_theta) - np.pi / 2) * radius
 
@@ -566,7 +568,8 @@ def cross_track_distance(path, n_EB_E, method='greatcircle', radius=6371009.0):
     sin_theta = -_dot_columns(c_E, n_EB_E).ravel()
     if method[0].lower() == 'e':
         return _euclidean_cross_track_distance(sin_theta, radius)
-    return _great_circle_cross_track_distance(sin_theta, radius)
+    cos_theta = norm(cross(c_E, n_EB_E, axis=0), axis=0).ravel()
+    return _great_circle_cross_track_distance(sin_theta, cos_theta, radius)
 
 
 @use_docstring(_examples.get_examples_no_header([10], OO=False))
-- 
2.43.0


From 903adffb5d27cf6227f912a9010e031d93c02fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 07/28] fix: on_great_circle_path accepted points on the far
 side of paths longer than 120 degrees

---
 src/nvector/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 331b9b1..372f6a0 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -650,7 +650,10 @@ def on_great_circle_path(path, n_EB_E, radius=6371009.0, atol=1e-8):
     scale = norm(n_EA2_E - n_EA1_E, axis=0)
     ti1 = norm(n_EB_E - n_EA1_E, axis=0) / scale
     ti2 = norm(n_EB_E - n_EA2_E, axis=0) / scale
-    return (ti1 <= 1) & (ti2 <= 1) & on_great_circle(path, n_EB_E, radius, atol=atol)
+    # If the path is longer than 120 degrees the two tests on the distances to the endpoints
+    # also hold for points on the opposite side of the globe.
+    same_side = _dot_columns(n_EA1_E + n_EA2_E, n_EB_E) >= 0
+    return (ti1 <= 1) & (ti2 <= 1) & same_side & on_great_circle(path, n_EB_E, radius, atol=atol)
 
 
 @use_docstring(_examples.get_examples_no_header([10], OO=False))
-- 
2.43.0


From 1f85472e0c6edfc8c0f4a23fad155765cf9adc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 08/28] fix: great circle displace ignored the orientation of
 the axes of the E frame

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index b32072f..8b1f30a 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -293,7 +293,8 @@ class GeoPoint(_Common):
         radius = e_a.length
         distance_rad = distance / radius
         azimuth_rad = azimuth if not degrees else rad(azimuth)
-        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad)
+        normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad,
+                                                      R_Ee=self.frame.R_Ee)
         point_b = Nvector(normal_b, self.z, self.frame).to_geo_point()
         azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - np.pi)
         if degrees:
-- 
2.43.0


From 5c521f6143deac07716614c2f9a912e507476009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 09/28] fix: destination from the poles was not a unit vector
 or not consistent with n_E2R_EN

---
 src/nvector/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 372f6a0..8224282 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -822,7 +822,10 @@ def n_EA_E_distance_and_azimuth2n_EB_E(n_EA_E, distance_rad, azimuth, R_Ee=None)
     if R_Ee is None:
         R_Ee = E_rotation()
     # Step1: Find unit vectors for north and east:
-    k_east_E = unit(cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0))
+    k_east_E = cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0)
+    # East is not defined at the poles: select the same direction as n_E2R_EN.
+    on_poles = norm(k_east_E, axis=0) == 0
+    k_east_E = unit(np.where(on_poles, dot(R_Ee.T, [[0], [1], [0]]), k_east_E))
     k_north_E = cross(n_EA_E, k_east_E, axis=0)
 
     # Step2: Find the initial direction vector d_E:
-- 
2.43.0


From 7d2cff127cc729dcc2200f40b668217b44cc9ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 10/28] fix: nthroot of zero divided by zero

---
 src/nvector/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 0f39476..8eb4912 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -410,8 +410,9 @@ def nthroot(x, n):
 
     """
     y = x**(1. / n)
+    y1 = np.where(x != 0, y, 1)  # avoid division by zero
     return np.where((x != 0) & (_EPS * np.abs(x) < 1),
-                    y - (y**n - x) / (n * y**(n - 1)), y)
+                    y - (y**n - x) / (n * y1**(n - 1)), y)
 
 
 def get_ellipsoid(name):
-- 
2.43.0


From afb5debf69397296e73101da86a9957c4ee80c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 11/28] fix: Nvector.interpolate failed if the depth is a
 scalar

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 8b1f30a..03ea249 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -527,7 +527,8 @@ class Nvector(_Common):
         >>> h = plt.plot(lon, lat, 'o', loni, lati, '-')
         >>> plt.show()
         """
-        vectors = np.vstack((self.normal, self.z))
+        z = np.broadcast_to(self.z, (1, self.normal.shape[1]))
+        vectors = np.vstack((self.normal, z))
         vectors_i = _interp_vectors(t_i, t, vectors, kind, window_length, polyorder, mode, cval)
         normal = unit(vectors_i[:3], norm_zero_vector=np.nan)
         return Nvector(normal, z=vectors_i[3], frame=self.frame)
-- 
2.43.0


From 8007d00e2a19b899d6852fc208236aebb274bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 12/28] fix: R2xyz and R2zyx returned angles of another
 rotation when y is +/-90 degrees

---
 src/nvector/rotation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index 5c963d7..e58efec 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -123,7 +123,10 @@ def R2xyz(R_AB):
     xyz2R, R2zyx, xyz2R
     """
     z = arctan2(-R_AB[0, 1, ...], R_AB[0, 0, ...])  # atan2: [-pi pi]
-    x = arctan2(-R_AB[1, 2, ...], R_AB[2, 2, ...])
+    # x is found after undoing the rotation z, because x and z are not
+    # separately determined by R_AB when y is close to +/-pi/2
+    x = arctan2(R_AB[2, 0, ...] * sin(z) + R_AB[2, 1, ...] * cos(z),
+                R_AB[1, 0, ...] * sin(z) + R_AB[1, 1, ...] * cos(z))
 
     sin_y = R_AB[0, 2, ...]
 
-- 
2.43.0


From 7e961e38b9347164dc03aaeb78078b79341a7a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 13/28] fix: on_path(method='ellipsoid') failed for azimuths on
 each side of +/-180 degrees

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 03ea249..bc4a4b0 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -980,7 +980,8 @@ class GeoPath(object):
         return (isclose(z, point_c.z, rtol=rtol, atol=atol)
                 & (isclose(distance_ac, 0, atol=atol)
                    | ((distance_ab >= distance_ac)
-                      & isclose(azimuth_ac, azimuth_ab, rtol=rtol, atol=atol))))
+                      & isclose(azimuth_ab + _base_angle(azimuth_ac - azimuth_ab), azimuth_ab,
+                                rtol=rtol, atol=atol))))
 
     def on_great_circle(self, point, atol=1e-8):
         """Returns True if point is on the great circle within a tolerance."""
-- 
2.43.0


From b77e20de7c6e106a8dd5e5867250987a80c70912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:52 +0000
Subject: [PATCH 14/28] fix: comparing positions of different shapes raised
 ValueError

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index bc4a4b0..99a8262 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -142,7 +142,7 @@ class _Common(object):
     def __eq__(self, other):
         try:
             return self is other or self._is_equal_to(other, rtol=1e-12, atol=1e-14)
-        except AttributeError:
+        except (AttributeError, ValueError):  # other type or shapes that cannot be broadcast
             return False
 
     def __ne__(self, other):
-- 
2.43.0


From b903d516bc030ca36036a5b4a941aa299ac99696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 15/28] fix: FrameN and FrameL compared equal to FrameB, but
 not the other way around

---
 src/nvector/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 99a8262..8dd83c2 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1432,7 +1432,8 @@ class FrameN(_LocalFrame):
         return n_E2R_EN(nvector.normal, nvector.frame.R_Ee)
 
     def _is_equal_to(self, other, rtol=1e-12, atol=1e-14):
-        return (allclose(self.R_EN, other.R_EN, rtol=rtol, atol=atol)
+        return (isinstance(other, FrameN)
+                and allclose(self.R_EN, other.R_EN, rtol=rtol, atol=atol)
                 and self.nvector == other.nvector)
 
 
-- 
2.43.0


From 9fc45e504f91be348d15a936fe2917cf21b86434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 16/28] fix: FrameE ignored a or f if only one of them was
 given

---
 src/nvector/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 8dd83c2..8174610 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1209,7 +1209,9 @@ class FrameE(_Common):
 
     def __init__(self, a=None, f=None, name='WGS84', axes='e'):
         if a is None or f is None:
-            a, f, _full_name = get_ellipsoid(name)
+            default = get_ellipsoid(name)
+            a = default.a if a is None else a
+            f = default.f if f is None else f
         self.a = a
         self.f = f
         self.name = name
-- 
2.43.0


From 3dadf9ac26a2c99f85414efed389b92f89b7b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 17/28] fix: great circle displace returned wrong azimuth at b
 for zero, negative or long distances

---
 src/nvector/objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 8174610..9774f33 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -296,7 +296,11 @@ class GeoPoint(_Common):
         normal_b = n_EA_E_distance_and_azimuth2n_EB_E(n_a.normal, distance_rad, azimuth_rad,
                                                       R_Ee=self.frame.R_Ee)
         point_b = Nvector(normal_b, self.z, self.frame).to_geo_point()
-        azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - np.pi)
+        # The direction from b to a is opposite to the direction of travel,
+        # except if the shortest way back to a is to continue straight ahead:
+        ahead = np.sin(distance_rad) < 0
+        azimuth_b = _base_angle(delta_N(point_b, e_a).azimuth - np.where(ahead, 0, np.pi))
+        azimuth_b = np.where(distance_rad == 0, _base_angle(azimuth_rad), azimuth_b)[()]
         if degrees:
             return point_b, deg(azimuth_b)
         return point_b, azimuth_b
-- 
2.43.0


From b2c288b3a745b4cc47d20130522b5cab87a56d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 18/28] fix: destination near the poles was not a unit vector
 for rotated axes of E

---
 src/nvector/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index 8224282..ca679bf 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -822,7 +822,9 @@ def n_EA_E_distance_and_azimuth2n_EB_E(n_EA_E, distance_rad, azimuth, R_Ee=None)
     if R_Ee is None:
         R_Ee = E_rotation()
     # Step1: Find unit vectors for north and east:
-    k_east_E = cross(dot(R_Ee.T, [[1], [0], [0]]), n_EA_E, axis=0)
+    # (rotated so that x -> north pole before the cross product: otherwise rounding errors in
+    # the rotated north pole makes k_east_E not perpendicular to n_EA_E close to the poles)
+    k_east_E = dot(R_Ee.T, cross([[1], [0], [0]], dot(R_Ee, n_EA_E), axis=0))
     # East is not defined at the poles: select the same direction as n_E2R_EN.
     on_poles = norm(k_east_E, axis=0) == 0
     k_east_E = unit(np.where(on_poles, dot(R_Ee.T, [[0], [1], [0]]), k_east_E))
-- 
2.43.0


From bcbbd959547b1557e51a80d5d17e58b078021b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 19/28] fix: track_distance with given radius returned only the
 distance of the first path

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 9774f33..2d45dd5 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -940,7 +940,7 @@ class GeoPath(object):
 
         distance_fun = euclidean_distance if method[:2] == "eu" else great_circle_distance
         distance = distance_fun(normal_a, normal_b, radius)
-        if np.ndim(radius) == 0:
+        if np.ndim(radius) == 0 and self.point_a.scalar and self.point_b.scalar:
             return distance[0]  # scalar track distance
         return distance
 
-- 
2.43.0


From de2c8be89996b0f227d24a3bd2667ab18585a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 20/28] fix: closest_point_on_path chose an endpoint on large
 spheres and high above the Earth

---
 src/nvector/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 2d45dd5..f9ed99a 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1149,7 +1149,9 @@ class GeoPath(object):
 
     def _closest_point_on_path(self, point):
         point_c = self._closest_point_on_great_circle(point)
-        if self.on_path(point_c):
+        # point_c is on the great circle by construction: its rounding error must be judged on the
+        # unit sphere, because it exceeds atol metres on large spheres and high above the Earth.
+        if self._on_great_circle_path(point_c, radius=1.0):
             return point_c.to_geo_point()
         n0 = point.to_nvector().normal
         n1, n2 = self.nvector_normals()
-- 
2.43.0


From 129ef51e75f7a289a482558d5adbbd97513c13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 21/28] fix: vectors decomposed in several local frames claimed
 to be scalar

A single vector converted to or from a local frame at n positions gave n vectors
flagged as scalar, so length, azimuth and elevation returned only the first one.
---
 src/nvector/objects.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index f9ed99a..c108b45 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -661,7 +661,8 @@ class Pvector(_Common):
         p_AB_N = self.pvector
         # p_AB_E = np.dot(n_frame.R_EN, p_AB_N)
         p_AB_E = mdot(n_frame.R_EN, p_AB_N[:, None, ...]).reshape(3, -1)
-        return ECEFvector(p_AB_E, frame=n_frame.nvector.frame, scalar=self.scalar)
+        scalar = self.scalar and p_AB_E.shape[1] == 1
+        return ECEFvector(p_AB_E, frame=n_frame.nvector.frame, scalar=scalar)
 
     def to_nvector(self):
         """
@@ -775,8 +776,9 @@ class ECEFvector(Pvector):
         """
         _check_frames(self, frame.nvector)
         p_AB_E = self.pvector
-        p_AB_N = mdot(np.swapaxes(frame.R_EN, 1, 0), p_AB_E[:, None, ...])
-        return Pvector(p_AB_N.reshape(3, -1), frame=frame, scalar=self.scalar)
+        p_AB_N = mdot(np.swapaxes(frame.R_EN, 1, 0), p_AB_E[:, None, ...]).reshape(3, -1)
+        scalar = self.scalar and p_AB_N.shape[1] == 1
+        return Pvector(p_AB_N, frame=frame, scalar=scalar)
 
     def to_ecef_vector(self):
         return self
-- 
2.43.0


From 2330245db4e8e74f360f9f4478d0d21e85d4458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 22/28] fix: vectors of one position gave scalar results
 together with a scalar path

cross_track_distance, on_path and closest_point_on_great_circle returned scalars for a
point that is a vector of one element, unlike for all other lengths.
---
 src/nvector/objects.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index c108b45..3561926 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -885,6 +885,11 @@ class GeoPath(object):
         nvector_a, nvector_b = self.nvectors()
         return nvector_a.normal, nvector_b.normal
 
+    @property
+    def _scalar(self):
+        """True if both endpoints are scalar points"""
+        return self.point_a.scalar and self.point_b.scalar
+
     def _get_average_radius(self):
         p_E1_E, p_E2_E = self.ecef_vectors()
         radius = (p_E1_E.length + p_E2_E.length) / 2
@@ -917,7 +922,7 @@ class GeoPath(object):
         path = self.nvector_normals()
         n_c = point.to_nvector().normal
         distance = cross_track_distance(path, n_c, method=method, radius=radius)
-        if np.ndim(radius) == 0 and distance.size == 1:
+        if np.ndim(radius) == 0 and self._scalar and point.scalar:
             return distance[0]  # scalar cross track distance
         return distance
 
@@ -942,7 +947,7 @@ class GeoPath(object):
 
         distance_fun = euclidean_distance if method[:2] == "eu" else great_circle_distance
         distance = distance_fun(normal_a, normal_b, radius)
-        if np.ndim(radius) == 0 and self.point_a.scalar and self.point_b.scalar:
+        if np.ndim(radius) == 0 and self._scalar:
             return distance[0]  # scalar track distance
         return distance
 
@@ -1005,7 +1010,7 @@ class GeoPath(object):
         n_c = point.to_nvector()
         same_z = isclose(n_c.z, (n_a.z + n_b.z) * 0.5, rtol=rtol, atol=atol)
         result = on_great_circle_path(path, n_c.normal, radius, atol=atol) & same_z
-        if np.ndim(radius) == 0 and result.size == 1:
+        if np.ndim(radius) == 0 and self._scalar and point.scalar:
             return result[0]  # scalar outout
         return result
 
@@ -1064,7 +1069,7 @@ class GeoPath(object):
         point_c = point.to_nvector()
         point_a, point_b = self.nvectors()
         path = (point_a.normal, point_b.normal)
-        z = (point_a.z + point_b.z) * 0.5
+        z, _z_c = np.broadcast_arrays((point_a.z + point_b.z) * 0.5, point_c.z)
         normal_d = closest_point_on_great_circle(path, point_c.normal)
         return point_c.frame.Nvector(normal_d, z)
 
-- 
2.43.0


From 8036d12645d885f635003440e9119a7293692452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 23/28] fix: get_ellipsoid did not know four of the names its
 documentation lists

'International (Hayford)/European Datum (ED50)', 'NWL-9D (WGS 66)',
'Clarke 1866 (NAD27)' and 'GRS80 / WGS84 (NAD83)' raised KeyError.
---
 src/nvector/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nvector/util.py b/src/nvector/util.py
index 8eb4912..31b0a1c 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -55,19 +55,23 @@ ELLIPSOID_IX = {'airy1858': 1,
                 'international': 11,
                 'hayford': 11,
                 'ed50': 11,
+                'international(hayford)/europeandatum(ed50)': 11,
                 'krassovsky': 12,
                 'krassovsky1938': 12,
                 'nwl-9d': 13,
                 'wgs66': 13,
+                'nwl-9d(wgs66)': 13,
                 'southamerican1969': 14,
                 'sad69': 14,
                 'sovietgeod.system1985': 15,
                 'wgs72': 16,
                 'clarke1866': 17,
                 'nad27': 17,
+                'clarke1866(nad27)': 17,
                 'grs80': 18,
                 'wgs84': 18,
                 'nad83': 18,
+                'grs80/wgs84(nad83)': 18,
                 'etrs89': 19,
                 }
 
-- 
2.43.0


From 96be3ddb32bbeafc026719af8ff0229f9d47ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:21 +0000
Subject: [PATCH 24/28] fix: E_rotation handed out the library's own rotation
 matrices

Changing the returned array (or FrameE.R_Ee) in place changed the axes of every
frame and every later conversion in the process.
---
 src/nvector/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index e58efec..ed8b689 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -80,7 +80,7 @@ def E_rotation(axes='e'):
     The Journal of Navigation, Volume 63, Issue 03, pp 395-417, July 2010.
     <www.navlab.net/Publications/A_Nonsingular_Horizontal_Position_Representation.pdf>`_
     """
-    return E_ROTATION_MATRIX[axes]
+    return E_ROTATION_MATRIX[axes].copy()
 
 
 def R2xyz(R_AB):
-- 
2.43.0


From a77c1f83105c224fa62d7b8b9cb737960f8039e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 25/28] fix: closest_point_on_path returned end point B for a
 missing (NaN) position

---
 src/nvector/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 3561926..a418a3b 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1165,6 +1165,8 @@ class GeoPath(object):
         radius = self._get_average_radius()
         d1 = great_circle_distance(n1, n0, radius)
         d2 = great_circle_distance(n2, n0, radius)
+        if np.any(np.isnan(d1 + d2)):  # a missing position is not closest to any end point
+            return point_c.frame.Nvector(point_c.normal * np.nan, point_c.z).to_geo_point()
         if d1 < d2:
             return self.point_a.to_geo_point()
         return self.point_b.to_geo_point()
-- 
2.43.0


From 9b9f210429a4718dbbdca04b26000ec7d05ba34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:56 +0000
Subject: [PATCH 26/28] fix: invalid escape sequence in a docstring (import
 failed with warnings turned into errors)

---
 src/nvector/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index a418a3b..08a3ae7 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -82,7 +82,7 @@ diff_positions = np.deprecate(delta_E, old_name='diff_positions', new_name='delt
 
 
 def _base_angle(angle_rad):
-    """Returns angle so it is between $-\pi$ and $\pi$"""
+    r"""Returns angle so it is between $-\pi$ and $\pi$"""
     return np.mod(angle_rad + np.pi, 2*np.pi) - np.pi
 
 
-- 
2.43.0


From c6e0e09db0ae7516adaa36781b92f9e93bb6d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:45 +0000
Subject: [PATCH 27/28] fix: interpolating a track at a missing (NaN) time gave
 the last sample for kind='nearest'

---
 src/nvector/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nvector/core.py b/src/nvector/core.py
index ca679bf..8882ff5 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -363,6 +363,7 @@ def _interp_vectors(t_i, t, nvectors, kind, window_length, polyorder, mode, cval
         normals = nvectors
 
     normal_i = interp1d(t, normals, axis=1, kind=kind, bounds_error=False)(t_i)
+    normal_i[:, np.isnan(t_i)] = np.nan  # some kinds select the last sample for missing times
     return normal_i.reshape(nvectors.shape[0], -1)
 
 
-- 
2.43.0


From 0abc148ccc72b50800acdb7908681fd4b619cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:09 +0000
Subject: [PATCH 28/28] fix: importing nvector failed when Python strips
 docstrings (python -OO)

---
 src/nvector/_info.py    | 15 ++++++++-------
 src/nvector/core.py     |  9 +++++----
 src/nvector/objects.py  |  9 +++++----
 src/nvector/rotation.py |  9 +++++----
 src/nvector/util.py     |  9 +++++----
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/nvector/_info.py b/src/nvector/_info.py
index 4a5131f..b3af827 100644
--- a/src/nvector/_info.py
+++ b/src/nvector/_info.py
@@ -5,17 +5,18 @@ from nvector import (_intro,
                      _acknowledgements,
                      _images)
 
-__doc__ = (  # @ReservedAssignment
-    """Introduction to nvector
+if _intro.__doc__:  # None when run with python -OO
+    __doc__ = (  # @ReservedAssignment
+        """Introduction to nvector
 =======================
 """ + _intro.__doc__  # @UndefinedVariable @ReservedAssignment
-    + _documentation.__doc__  # @UndefinedVariable
-    + _installation.__doc__  # @UndefinedVariable
-    + _examples_object_oriented.__doc__
-    + """Acknowledgements
+        + _documentation.__doc__  # @UndefinedVariable
+        + _installation.__doc__  # @UndefinedVariable
+        + _examples_object_oriented.__doc__
+        + """Acknowledgements
 ================
 """ + _acknowledgements.__doc__  # @UndefinedVariable
-    + _images.__doc__)  # @UndefinedVariable
+        + _images.__doc__)  # @UndefinedVariable
 
 
 if __name__ == '__main__':
diff --git a/src/nvector/core.py b/src/nvector/core.py
index 8882ff5..1b9c7a0 100644
--- a/src/nvector/core.py
+++ b/src/nvector/core.py
@@ -868,10 +868,11 @@ def mean_horizontal_position(n_EB_E):
 
 
 _odict = globals()
-__doc__ = (__doc__  # @ReservedAssignment
-           + _make_summary(dict((n, _odict[n]) for n in __all__))
-           + 'License\n-------\n'
-           + _license.__doc__)
+if __doc__:  # None when run with python -OO
+    __doc__ = (__doc__  # @ReservedAssignment
+               + _make_summary(dict((n, _odict[n]) for n in __all__))
+               + 'License\n-------\n'
+               + _license.__doc__)
 
 
 if __name__ == "__main__":
diff --git a/src/nvector/objects.py b/src/nvector/objects.py
index 08a3ae7..f36458b 100644
--- a/src/nvector/objects.py
+++ b/src/nvector/objects.py
@@ -1570,10 +1570,11 @@ def _default_frame(frame):
 
 
 _ODICT = globals()
-__doc__ = (__doc__  # @ReservedAssignment
-           + _make_summary(dict((n, _ODICT[n]) for n in __all__))
-           + 'License\n-------\n'
-           + _license.__doc__)
+if __doc__:  # None when run with python -OO
+    __doc__ = (__doc__  # @ReservedAssignment
+               + _make_summary(dict((n, _ODICT[n]) for n in __all__))
+               + 'License\n-------\n'
+               + _license.__doc__)
 
 
 if __name__ == "__main__":
diff --git a/src/nvector/rotation.py b/src/nvector/rotation.py
index ed8b689..203afc0 100644
--- a/src/nvector/rotation.py
+++ b/src/nvector/rotation.py
@@ -514,10 +514,11 @@ def n_E_and_wa2R_EL(n_E, wander_azimuth, R_Ee=None):
 
 
 _odict = globals()
-__doc__ = (__doc__  # @ReservedAssignment
-           + _make_summary(dict((n, _odict[n]) for n in __all__))
-           + 'License\n-------\n'
-           + _license.__doc__)
+if __doc__:  # None when run with python -OO
+    __doc__ = (__doc__  # @ReservedAssignment
+               + _make_summary(dict((n, _odict[n]) for n in __all__))
+               + 'License\n-------\n'
+               + _license.__doc__)
 
 
 if __name__ == "__main__":
diff --git a/src/nvector/util.py b/src/nvector/util.py
index 31b0a1c..4cd8661 100644
--- a/src/nvector/util.py
+++ b/src/nvector/util.py
@@ -517,10 +517,11 @@ def unit(vector, norm_zero_vector=1):
 
 
 _odict = globals()
-__doc__ = (__doc__  # @ReservedAssignment
-           + _make_summary(dict((n, _odict[n]) for n in __all__))
-           + 'License\n-------\n'
-           + _license.__doc__)
+if __doc__:  # None when run with python -OO
+    __doc__ = (__doc__  # @ReservedAssignment
+               + _make_summary(dict((n, _odict[n]) for n in __all__))
+               + 'License\n-------\n'
+               + _license.__doc__)
 
 
 if __name__ == "__main__":
-- 
2.43.0

