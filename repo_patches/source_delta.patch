From 346a0879cf2f38c16e6954ca0c5573fffc4b03ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:44 +0000
Subject: [PATCH 01/33] fix: make /= work in place on angles and vectors
 (__idiv__ is never called in Python 3)

---
 src/pyrusgeom/angle_deg.py | 2 +-
 src/pyrusgeom/vector_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index cc1f687..0338e58 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -264,7 +264,7 @@ class AngleDeg:
         self.normal()
         return self
 
-    def __idiv__(self, other: Union[float, int]) -> AngleDeg:
+    def __itruediv__(self, other: Union[float, int]) -> AngleDeg:
         """operator /=
 
         Args:
diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 45ccb98..4b68e01 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -575,7 +575,7 @@ class Vector2D:
         self._y *= other
         return self
 
-    def __idiv__(self, other: Union[int, float]) -> Vector2D:
+    def __itruediv__(self, other: Union[int, float]) -> Vector2D:
         self._x /= other
         self._y /= other
         return self
-- 
2.43.0


From f74572ba3efcf7ea6d6ba3d5e21872ec0fb62a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:44 +0000
Subject: [PATCH 02/33] fix: compare angles as directions, so that +180 and
 -180 are the same direction

---
 src/pyrusgeom/angle_deg.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index 0338e58..979860a 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -176,8 +176,8 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = angle.degree() - self.degree()
-        return (0.0 < diff < 180.0) or diff < -180.0
+        diff = AngleDeg(angle.degree() - self.degree()).degree()
+        return 0.0 < diff < 180.0
 
     def is_right_of(self, angle: Union[AngleDeg, float, int]) -> bool:
         """check if this AngleDeg is right of [angle]
@@ -190,8 +190,8 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = self.degree() - angle.degree()
-        return (0.0 < diff < 180.0) or diff < -180.0
+        diff = AngleDeg(self.degree() - angle.degree()).degree()
+        return 0.0 < diff < 180.0
 
     def is_left_equal_of(self, angle: Union[AngleDeg, float, int]) -> bool:
         """check if this AngleDeg is left or equal of [angle]
@@ -204,8 +204,8 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = angle.degree() - self._degree
-        return 0.0 <= diff < 180.0 or diff < -180.0
+        diff = AngleDeg(angle.degree() - self.degree()).degree()
+        return 0.0 <= diff < 180.0
 
     def is_right_equal_of(self, angle: Union[AngleDeg, float, int]) -> bool:
         """check if this AngleDeg is right or equal of [angle]
@@ -218,8 +218,8 @@ class AngleDeg:
         """
         if not isinstance(angle, AngleDeg):
             angle = AngleDeg(angle)
-        diff = self.degree() - angle.degree()
-        return (0.0 <= diff < 180.0) or diff < -180.0
+        diff = AngleDeg(self.degree() - angle.degree()).degree()
+        return 0.0 <= diff < 180.0
 
     def __iadd__(self, other: Union[AngleDeg, float, int]) -> AngleDeg:
         """operator +=
@@ -368,7 +368,7 @@ class AngleDeg:
         """
         if isinstance(other, AngleDeg):
             other = other.degree()
-        return math.fabs(self._degree - other) < EPSILON
+        return AngleDeg(self._degree - other).abs() < EPSILON
 
     def cos(self) -> float:
         """calculate cosine
-- 
2.43.0


From f9bf05aeab4520a5ad2bcef6ac572ab45b5ea7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:44 +0000
Subject: [PATCH 03/33] fix: bisect of two angles exactly half a turn apart

---
 src/pyrusgeom/angle_deg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyrusgeom/angle_deg.py b/src/pyrusgeom/angle_deg.py
index 979860a..3892f44 100644
--- a/src/pyrusgeom/angle_deg.py
+++ b/src/pyrusgeom/angle_deg.py
@@ -531,10 +531,9 @@ class AngleDeg:
         """
         result = AngleDeg(left)
         rel = AngleDeg(AngleDeg(right) - result)
-        diff = result.degree() - AngleDeg(right).degree()
         half_deg = rel.degree() * 0.5
         result += half_deg
-        if (0.0 < diff < 180.0) or diff < -180.0:
+        if rel.degree() < 0.0:
             return result
         return result + 180.0
 
-- 
2.43.0


From 8f738e49396774b92df183093d1d401e667ed041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 04/33] fix: copying a vector keeps its validity

---
 src/pyrusgeom/vector_2d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyrusgeom/vector_2d.py b/src/pyrusgeom/vector_2d.py
index 4b68e01..b24c643 100644
--- a/src/pyrusgeom/vector_2d.py
+++ b/src/pyrusgeom/vector_2d.py
@@ -55,6 +55,7 @@ class Vector2D:
             elif len(args) == 1 and isinstance(args[0], Vector2D):
                 self._x = args[0].x()
                 self._y = args[0].y()
+                self._is_valid = args[0].is_valid()
             elif len(args) == 0:
                 self._x = 0
                 self._y = 0
@@ -110,7 +111,7 @@ class Vector2D:
         Returns:
            Vector2D: Copy of this Vector 2D
         """
-        return Vector2D(self._x, self._y)
+        return Vector2D(self)
 
     def get_copy(self) -> Vector2D:
         """returns copy of this Vector2D
-- 
2.43.0


From acff577f82156e1008ba4df4fcbfd897f53d7b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 05/33] fix: Line2D equality compares the lines, not the raw
 constant terms

---
 src/pyrusgeom/line_2d.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/line_2d.py b/src/pyrusgeom/line_2d.py
index c11557f..53d9463 100644
--- a/src/pyrusgeom/line_2d.py
+++ b/src/pyrusgeom/line_2d.py
@@ -291,8 +291,9 @@ class Line2D:
         Returns:
             bool: true if equal or difference is less than EPSILON. else false
         """
-        return (math.fabs(self._a * other.b() - other.a() * self._b)
-                < EPSILON and self._c == other.c())
+        return (math.fabs(self._a * other.b() - other.a() * self._b) < EPSILON
+                and math.fabs(self._a * other.c() - other.a() * self._c) < EPSILON
+                and math.fabs(self._b * other.c() - other.b() * self._c) < EPSILON)
 
     def __repr__(self) -> str:
         """represent Line2D as a string
-- 
2.43.0


From d615bda6ed29217d35dfcf29df6ffc35ca0f876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 06/33] fix: a ray's own origin is in the direction of the ray
 whatever the direction

---
 src/pyrusgeom/ray_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyrusgeom/ray_2d.py b/src/pyrusgeom/ray_2d.py
index 535ad4c..949f97c 100644
--- a/src/pyrusgeom/ray_2d.py
+++ b/src/pyrusgeom/ray_2d.py
@@ -104,6 +104,8 @@ class Ray2D:
         Returns:
             bool: true if it is on the direction. else false.
         """
+        if self._origin.equals_weakly(point):
+            return True
         return ((point - self._origin).th() - self._direction).abs() < thr
 
     def intersection(self, other: Union[Line2D, Ray2D]) -> Vector2D:
-- 
2.43.0


From 7705f497efa51c1092d810dc2b540fa4d5b21ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 07/33] fix: Segment2D.nearest_point and projection return
 copies, not the internal end points

---
 src/pyrusgeom/segment_2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index d37bf8a..4213a6d 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -284,7 +284,7 @@ class Segment2D:
         length = direction.r()
 
         if length < EPSILON:
-            return self._origin
+            return Vector2D(self._origin)
 
         direction /= length  # normalize
 
@@ -450,15 +450,15 @@ class Segment2D:
         len_square = vec_tmp.r2()
 
         if len_square == 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         inner_product = vec_tmp.inner_product((point - self._origin))
 
         if inner_product <= 0.0:
-            return self._origin
+            return Vector2D(self._origin)
 
         if inner_product >= len_square:
-            return self._terminal
+            return Vector2D(self._terminal)
 
         return self._origin + vec_tmp * inner_product / len_square
 
-- 
2.43.0


From c0502a5a224d08851ba782523dd3287407671020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 08/33] fix: a zero-length segment contains only its own point

---
 src/pyrusgeom/segment_2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 4213a6d..3219f61 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -519,6 +519,8 @@ class Segment2D:
         Returns:
             float: True if point is on this segment. else False.
         """
+        if self._origin == self._terminal:
+            return self._origin == point
         return Triangle2D.double_signed_area_st(self._origin, self._terminal, point) == 0.0 \
             and self.check_intersects_on_line(point)
 
-- 
2.43.0


From c836c3aeed82c6fedf7915a21ca2ec8aa9e9e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 09/33] fix: Sector2D drops its inner radius

---
 src/pyrusgeom/sector_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index b8b8679..0bb73b6 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -44,7 +44,7 @@ class Sector2D(Region2D):
         super().__init__()
 
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
@@ -62,7 +62,7 @@ class Sector2D(Region2D):
             end (Union[AngleDeg, float]): end angle(turn clockwise)
         """
         self._center = Vector2D(center)
-        self._min_r = min(0.0, min_r)
+        self._min_r = max(0.0, min_r)
         self._max_r = max(min_r, max_r)
         self._start = AngleDeg(start)
         self._end = AngleDeg(end)
-- 
2.43.0


From 69a0250fe7be4551f24ffa878f906c8456451a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 10/33] fix: Sector2D.radius_max returns the inner radius

---
 src/pyrusgeom/sector_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/sector_2d.py b/src/pyrusgeom/sector_2d.py
index 0bb73b6..6cd1c6b 100644
--- a/src/pyrusgeom/sector_2d.py
+++ b/src/pyrusgeom/sector_2d.py
@@ -97,7 +97,7 @@ class Sector2D(Region2D):
         Returns:
             float: the big side radius
         """
-        return self._min_r
+        return self._max_r
 
     def angle_left_start(self) -> AngleDeg:
         """get the left start angle copy
-- 
2.43.0


From d91ac3e5ec34f6dac57f942f2e56957d5015fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 11/33] fix: Matrix2D * Matrix2D must not modify its left
 operand

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 478ff06..3ba35b3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -343,7 +343,7 @@ class Matrix2D:
         if isinstance(other, Vector2D):
             return self.transform(other)
         if isinstance(other, Matrix2D):
-            mat_tmp = self
+            mat_tmp = Matrix2D(self._m11, self._m12, self._m21, self._m22, self._dx, self._dy)
             return mat_tmp.__imul__(other)
         return self
 
-- 
2.43.0


From a10196b955370cee72715ea5864cf17884d12e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 12/33] fix: Matrix2D equality compares dx with dx

---
 src/pyrusgeom/matrix_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/matrix_2d.py b/src/pyrusgeom/matrix_2d.py
index 3ba35b3..dd569f3 100644
--- a/src/pyrusgeom/matrix_2d.py
+++ b/src/pyrusgeom/matrix_2d.py
@@ -362,7 +362,7 @@ class Matrix2D:
 
         return self._m11 == other.m11() and self._m12 == other.m12() and\
             self._m21 == other.m21() and self._m22 == other.m22() and\
-            self._dx == other.dytf() and self._dy == other.dytf()
+            self._dx == other.dxtf() and self._dy == other.dytf()
 
 
     def __repr__(self):
-- 
2.43.0


From 63f7652b16358ecba25187c8d3c314f773612a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 13/33] fix: wind_effect ignores the wind (polar2vector returns
 a new vector)

---
 src/pyrusgeom/soccer_math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyrusgeom/soccer_math.py b/src/pyrusgeom/soccer_math.py
index 7acf000..3338dae 100644
--- a/src/pyrusgeom/soccer_math.py
+++ b/src/pyrusgeom/soccer_math.py
@@ -384,8 +384,7 @@ def wind_effect(speed: float, weight: float,
     Returns:
         Vector2D: wind effect acceleration
     """
-    wind_vec = Vector2D()
-    wind_vec.polar2vector(wind_force, wind_dir)
+    wind_vec = Vector2D.polar2vector(wind_force, wind_dir)
 
     if wind_error:
         wind_error.assign(speed * wind_vec.x() * wind_rand
-- 
2.43.0


From 7d0c537562cd2dfd57789cca2ee11fed03fcab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 14/33] fix: Triangle2D.is_valid is never true

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index a78f218..e581640 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -105,7 +105,7 @@ class Triangle2D(Region2D):
             bool: True if triangle is valid. else False.
         """
         return (self._a.is_valid() and self._b.is_valid() and self._c.is_valid() and
-                self._a != self._b and self._b != self._c and self._a != self._a)
+                self._a != self._b and self._b != self._c and self._c != self._a)
 
     def a(self) -> Vector2D:
         """get 1st point copy
-- 
2.43.0


From d86b247747186b230dcff38d4d175fd624f6a9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:46 +0000
Subject: [PATCH 15/33] fix: Triangle2D centroid raises (Vector2D.add returns
 None)

---
 src/pyrusgeom/triangle_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index e581640..0635d23 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -384,7 +384,7 @@ class Triangle2D(Region2D):
         Returns:
             Vector2D: coordinates of gravity center
         """
-        return Vector2D(v_a).add(v_b).add(v_c) / 3.0
+        return (v_a + v_b + v_c) / 3.0
 
     @staticmethod
     def tri_incenter(v_a: Vector2D, v_b: Vector2D, v_c: Vector2D) -> Vector2D:
-- 
2.43.0


From 29ffa2acdd7b54c6c77c551e3b62b6f8625b2acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 16/33] fix: Triangle2D.intersection raises or misses points
 for most operands

---
 src/pyrusgeom/triangle_2d.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 0635d23..50ac800 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -15,7 +15,6 @@ from pyrusgeom.ray_2d import Ray2D
 from pyrusgeom.vector_2d import Vector2D
 from pyrusgeom.angle_deg import AngleDeg
 from pyrusgeom.line_2d import Line2D
-from pyrusgeom.math_values import EPSILON
 
 
 class Triangle2D(Region2D):
@@ -270,32 +269,27 @@ class Triangle2D(Region2D):
         param segment considered line segment.
         return number of intersection + sol 1 + sol 2
         """
+        from pyrusgeom.segment_2d import Segment2D
         if isinstance(other, Line2D):
             n_sol = 0
             t_sol = [Vector2D(), Vector2D()]
-            from pyrusgeom.segment_2d import Segment2D
-            t_sol[n_sol] = Segment2D(self._a, self._b).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
+            for edge in (Segment2D(self._a, self._b),
+                         Segment2D(self._b, self._c),
+                         Segment2D(self._c, self._a)):
+                sol = edge.intersection(other)
+                if not sol.is_valid() or n_sol == 2:
+                    continue
+                if n_sol == 1 and sol.equals_weakly(t_sol[0]):  # same vertex
+                    continue
+                t_sol[n_sol] = sol
                 n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._b, self._c).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            t_sol[n_sol] = Segment2D(self._c, self._a).intersection(other)
-            if n_sol < 2 and t_sol[n_sol].is_valid():
-                n_sol += 1
-
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
             sol_list = [n_sol, t_sol[0], t_sol[1]]
 
             return sol_list
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
 
-            if n_sol[0] > 1 and not other.in_right_dir(n_sol[1], 1.0):
+            if n_sol[0] > 1 and not other.in_right_dir(n_sol[2], 1.0):
                 n_sol[0] -= 1
 
             if n_sol[0] > 0 and not other.in_right_dir(n_sol[1], 1.0):
@@ -310,7 +304,7 @@ class Triangle2D(Region2D):
             if n_sol[0] > 1 and not other.contains(n_sol[2]):
                 n_sol[0] -= 1
 
-            if n_sol > 0 and not other.contains(n_sol[1]):
+            if n_sol[0] > 0 and not other.contains(n_sol[1]):
                 n_sol[1] = n_sol[2]
                 n_sol[0] -= 1
 
-- 
2.43.0


From 7b3678444ccc7eee7926779b8490441afe6cecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 17/33] fix: Rect2D built or assigned from two corners is
 always empty

---
 src/pyrusgeom/rect_2d.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index b631ea4..c2b66ec 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -90,12 +90,7 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-                self._is_valid = True
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
-                self._is_valid = True
+            self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
@@ -158,10 +153,6 @@ class Rect2D(Region2D):
 
             if bottom_right.y() - top_left.y() < 0.0:
                 self._top_left.set_y(bottom_right.y())
-                self._size = Size2D()
-            else:
-                self._top_left = Vector2D()
-                self._size = Size2D()
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
             self._size = args[1]
-- 
2.43.0


From 37ba2cbbf0c8a352a88bac4cb9c720e3f24e4072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 18/33] fix: Rect2D.assign with four numbers takes the length
 from the left coordinate

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index c2b66ec..77b1ddb 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -138,7 +138,7 @@ class Rect2D(Region2D):
 
         if len(args) == 4:
             self._top_left.assign(args[0], args[1])
-            self._size.assign(args[0], args[3])
+            self._size.assign(args[2], args[3])
         elif len(args) == 3:
             self._top_left = Vector2D(args[0])
             self._size.assign(args[1], args[2])
-- 
2.43.0


From 4560bf975bb89582cde36f4b4e60dc8c247b0ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 19/33] fix: Rect2D copies the Size2D it is given

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 77b1ddb..9b2cd7a 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -93,7 +93,7 @@ class Rect2D(Region2D):
             self._is_valid = True
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
             self._is_valid = True
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
@@ -155,7 +155,7 @@ class Rect2D(Region2D):
                 self._top_left.set_y(bottom_right.y())
         elif len(args) == 2:
             self._top_left = Vector2D(args[0])
-            self._size = args[1]
+            self._size = Size2D(args[1].length(), args[1].width())
         elif len(args) == 1 and isinstance(args[0], Rect2D):
             self._top_left = args[0].top_left()
             self._size = args[0].size()
-- 
2.43.0


From 566d49b6fc1ffdccc974b6de09d8afd34d540bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 20/33] fix: Rect2D.contains_almost raises

---
 src/pyrusgeom/rect_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 9b2cd7a..f2f0c40 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -526,8 +526,8 @@ class Rect2D(Region2D):
         Returns:
             bool: True if it almost contains it. else False.
         """
-        return self.left() - error_thr <= point.x <= self.right() + error_thr and \
-            self.top() - error_thr <= point.y <= self.bottom() + error_thr
+        return self.left() - error_thr <= point.x() <= self.right() + error_thr and \
+            self.top() - error_thr <= point.y() <= self.bottom() + error_thr
 
     def left(self) -> float:
         """get the left x coordinate of this rectangle.
-- 
2.43.0


From f83cd90331c156912828378cba8b5fefdc100e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 21/33] fix: Rect2D.intersected and united overwrite the
 receiver and compute wrong rectangles

---
 src/pyrusgeom/rect_2d.py | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index f2f0c40..1cfcadf 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -764,9 +764,8 @@ class Rect2D(Region2D):
         Returns:
             [Rect2D]: rectangle instance
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
         left = max(self.left(), other.left())
         top = max(self.top(), other.top())
@@ -774,13 +773,9 @@ class Rect2D(Region2D):
         length = min(self.bottom(), other.bottom()) - top
 
         if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, width, length)
 
     def united(self, other:Rect2D) -> Rect2D:
         """get the united rectangle of self rectangle and the other rectangle.
@@ -791,23 +786,15 @@ class Rect2D(Region2D):
         Returns:
             Rect2D: rectangle instance.
         """
-        if not self.is_valid or not other.is_valid():
-            self._top_left.assign(0.0, 0.0)
-        self._size.assign(0.0, 0.0)
-
-        left = max(self.left(), other.left())
-        top = max(self.top(), other.top())
-        width = min(self.right(), other.right()) - left
-        length = min(self.bottom(), other.bottom()) - top
+        if not self.is_valid() or not other.is_valid():
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
 
-        if width <= 0.0 or length <= 0.0:
-            self._top_left.assign(0.0, 0.0)
-            self._size.assign(0.0, 0.0)
+        left = min(self.left(), other.left())
+        top = min(self.top(), other.top())
+        width = max(self.right(), other.right()) - left
+        length = max(self.bottom(), other.bottom()) - top
 
-        self._top_left.assign(left, top)
-        self._size.assign(width, length)
-
-        return self
+        return Rect2D(left, top, width, length)
 
     @staticmethod
     def from_center(*args)->Rect2D:
-- 
2.43.0


From 5accbfa6095628d94568ddecbb167d503695090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 22/33] fix: Rect2D.from_center with a centre point raises

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 1cfcadf..dc5da35 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -822,7 +822,7 @@ class Rect2D(Region2D):
         if len(args) == 4:
             return Rect2D(args[0] - args[2] * 0.5, args[1] - args[3] * 0.5, args[2], args[3])
         if len(args) == 3:
-            return Rect2D(args[0] - args[1] * 0.5, args[0] - args[2] * 0.5, args[1], args[2])
+            return Rect2D(args[0].x() - args[1] * 0.5, args[0].y() - args[2] * 0.5, args[1], args[2])
         raise Exception("Input must be 4 float or one vector and two float")
 
     def __repr__(self) -> str:
-- 
2.43.0


From 080dd3be524c7b14473854229b2cbd22a9bde752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 23/33] fix: Rect2D.intersection loses the second point of a
 line through a corner

---
 src/pyrusgeom/rect_2d.py | 44 ++++++++++++----------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index dc5da35..069e445 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -14,7 +14,6 @@
 """
 from __future__ import annotations
 from typing import Union
-import math
 
 from pyrusgeom.size_2d import Size2D
 from pyrusgeom.segment_2d import Segment2D
@@ -22,7 +21,7 @@ from pyrusgeom.region_2d import Region2D
 from pyrusgeom.ray_2d import Ray2D
 from pyrusgeom.vector_2d import Vector2D
 from pyrusgeom.line_2d import Line2D
-from pyrusgeom.math_values import EPSILON
+from pyrusgeom.math_values import CALC_ERROR
 
 
 class Rect2D(Region2D):
@@ -704,35 +703,18 @@ class Rect2D(Region2D):
             list[Vector2D]: intersection Points
         """
         if isinstance(other, Line2D):
-            n_sol = 0
-            t_sol = [Vector2D(0, 0), Vector2D(0, 0)]
-            left_x = self.left()
-            right_x = self.right()
-            top_y = self.top()
-            bottom_y = self.bottom()
-            t_sol[n_sol] = self.left_edge().intersection(other) # n_sol 0
-            if t_sol[n_sol].is_valid() and top_y <= t_sol[n_sol].y() <= bottom_y:
-                n_sol += 1
-            t_sol[n_sol] = self.right_edge().intersection(other) # n_sol 0 1
-            if n_sol < 2 and t_sol[n_sol].is_valid() and top_y <= t_sol[n_sol].y() <= bottom_y:
-                n_sol += 1
-            if n_sol < 2:
-                t_sol[n_sol] = self.top_edge().intersection(other) # n_sol 0-1 2
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
-                    n_sol += 1
-            if n_sol < 2:
-                t_sol[n_sol] = self.bottom_edge().intersection(other) # n_sol 0-2 3
-                if (t_sol[n_sol]).is_valid() and left_x <= t_sol[n_sol].x() <= right_x:
-                    n_sol += 1
-            if n_sol == 2 and math.fabs(t_sol[0].x() - t_sol[1].x()) < EPSILON and math.fabs(
-                    t_sol[0].y() - t_sol[1].y()) < EPSILON:
-                n_sol = 1
-            if n_sol == 0:
-                sol_list = []
-            elif n_sol == 1:
-                sol_list = [t_sol[0]]
-            else:
-                sol_list = [t_sol[0], t_sol[1]]
+            sol_list = []
+            left_x = self.left() - CALC_ERROR
+            right_x = self.right() + CALC_ERROR
+            top_y = self.top() - CALC_ERROR
+            bottom_y = self.bottom() + CALC_ERROR
+            for edge in (self.left_edge(), self.right_edge(),
+                         self.top_edge(), self.bottom_edge()):
+                sol = edge.intersection(other)
+                if (len(sol_list) < 2 and sol.is_valid() and
+                        left_x <= sol.x() <= right_x and top_y <= sol.y() <= bottom_y and
+                        not any(sol.equals_weakly(prev) for prev in sol_list)):
+                    sol_list.append(sol)
             return sol_list
         if isinstance(other, Ray2D):
             n_sol = self.intersection(other.line())
-- 
2.43.0


From 9c475c94f847292a1604c3909fde462f987fddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 24/33] fix: bounding box of a polygon without vertices raises

---
 src/pyrusgeom/polygon_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 66d4b9b..7c9c427 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -201,7 +201,7 @@ class Polygon2D(Region2D):
             bounding box of this polygon
         """
         if len(self._vertices) == 0:
-            return Rect2D()
+            return Rect2D(0.0, 0.0, 0.0, 0.0)
         x_min = float("inf")
         x_max = - float("inf")
         y_min = float("inf")
-- 
2.43.0


From 7fc67f6a2e31807d9d18a2926bbda01ffc4a91d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 25/33] fix: Polygon2D.contains treats border points
 differently from edge to edge

---
 src/pyrusgeom/polygon_2d.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index 7c9c427..dae7ef5 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -258,11 +258,8 @@ class Polygon2D(Region2D):
             p_0 = self._vertices[i]
             p_1 = self._vertices[p1_index]
 
-            if not allow_on_segment and Segment2D(p_0, p_1).on_segment(point):
-                return False
-
-            if allow_on_segment and point == p_0:
-                return True
+            if Segment2D(p_0, p_1).on_segment(point):
+                return allow_on_segment
 
             if line.exist_intersection(Segment2D(p_0, p_1)):
                 if p_0.y() == point.y() or p_1.y() == point.y():
-- 
2.43.0


From a88538d6dd02ddb7e6e03d1c96517274e9cfcb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 26/33] fix: ConvexHull keeps (and clears, and reorders) the
 list of its caller

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 9c5fd3d..0820d3a 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -137,7 +137,7 @@ class ConvexHull:
             point_list: array of input points
 
         """
-        self._input_points = point_list
+        self._input_points = point_list.copy()
         self._vertices = []
         self._edges = []
 
-- 
2.43.0


From 20570f6df2d1094a016b1c99ecb1de452f54c6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 27/33] fix: wrapping method stops early when points are
 collinear

---
 src/pyrusgeom/convex_hull.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 0820d3a..6d3291e 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -344,7 +344,7 @@ class ConvexHull:
                     candidate = i
 
                 elif (area < EPSILON and
-                        current_point.dist2(point_first) > current_point.dist2(point_second)):
+                        current_point.dist2(point_first) < current_point.dist2(point_second)):
                     candidate = i
             current_index = candidate
             current_point = self._input_points[current_index]
-- 
2.43.0


From b767bcd0c2442bdf82949a2df879e22a9abd2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 28/33] fix: wrapping method omits the first edge of the hull

---
 src/pyrusgeom/convex_hull.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 6d3291e..30080f1 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -353,10 +353,9 @@ class ConvexHull:
 
             if current_index == min_index:
                 break
-        for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
+        for i in range(len(self._vertices) - 1):
+            self._edges.append(
+                Segment2D(self._vertices[i], self._vertices[i + 1]))
 
         self._vertices.pop()
 
-- 
2.43.0


From 073ff1eba6d5218b273e04f4f12c9d15bdfa60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:43 +0000
Subject: [PATCH 29/33] fix: Graham scan sorts around the origin and destroys
 the input points

---
 src/pyrusgeom/convex_hull.py | 38 +++++++++++++++---------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 30080f1..4b186f1 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -87,6 +87,10 @@ def angle_sort_predicate(lhs: Vector2D, rhs: Vector2D, base: Vector2D = Vector2D
     Returns:
         bool: if counter clockwise return 1. else -1
     """
+    if lhs == base:
+        return -1
+    if rhs == base:
+        return 1
     area = Triangle2D.double_signed_area_st(base, lhs, rhs)
 
     if area < 0.0:
@@ -372,28 +376,18 @@ class ConvexHull:
 
         self.sort_points_angle_from(min_index)
 
-        self._vertices = self._input_points
-
-        top = 1
-        for i in range(2, point_size):
-            while not is_clockwise(self._vertices[top - 1],
-                self._vertices[top], self._input_points[i]):
-                top -= 1
+        for point in self._input_points + self._input_points[:1]:
+            while len(self._vertices) > 1 and not is_clockwise(
+                    self._vertices[-2], self._vertices[-1], point):
+                self._vertices.pop()
 
-            top += 1
-            tmp = self._vertices[top]
-            self._vertices[top] = self._vertices[i]
-            self._vertices[i] = tmp
+            self._vertices.append(point)
 
-        top += 1
-
-        del self._vertices[top:len(self._vertices)]
+        for i in range(len(self._vertices) - 1):
+            self._edges.append(
+                Segment2D(self._vertices[i], self._vertices[i + 1]))
 
-        for i in range(len(self._vertices)):
-            if self._vertices[i] != self._vertices[-1]:
-                self._edges.append(
-                    Segment2D(self._vertices[i], self._vertices[i + 1]))
-        self._edges.append(Segment2D(self._vertices[0], self._vertices[-1]))
+        self._vertices.pop()
 
     def get_min_point_index(self) -> int:
         """get the index of minimum coordinate point
@@ -420,7 +414,7 @@ class ConvexHull:
         return min_index
 
     def sort_points_angle_from(self, index):
-        """sort points by anlge from base(0,0)
+        """sort points by anlge from base(the point at index)
         """
         if len(self._input_points) <= index:
             return
@@ -429,8 +423,8 @@ class ConvexHull:
         self._input_points[0] = self._input_points[index]
         self._input_points[index] = tmp
 
-        # base is (0,0)
-        self._input_points.sort(key=functools.cmp_to_key(angle_sort_predicate))
+        base = self._input_points[0]
+        self._input_points.sort(key=lambda point: AngleSortPredicate(point, base))
 
     def to_polygon(self) -> Polygon2D:
         """create and get the convex hull polygon
-- 
2.43.0


From 25e30eada820e269a2aa800b5670f92b47649116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:02 +0000
Subject: [PATCH 30/33] fix: clipping drops the rest of the polygon after an
 edge too short to cut

---
 src/pyrusgeom/polygon_2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/polygon_2d.py b/src/pyrusgeom/polygon_2d.py
index dae7ef5..5cbdd45 100644
--- a/src/pyrusgeom/polygon_2d.py
+++ b/src/pyrusgeom/polygon_2d.py
@@ -445,14 +445,14 @@ class Polygon2D(Region2D):
                     cuted = line.intersection(Line2D(p_0, p_1))
 
                     if not cuted.is_valid():
-                        return new_points
+                        cuted = p_0
                     new_points.append(cuted)
             else:
                 if in_rectangle[index_1]:
                     cuted = line.intersection(Line2D(p_0, p_1))
 
                     if not cuted.is_valid():
-                        return new_points
+                        cuted = p_1
 
                     new_points.append(cuted)
                     new_points.append(p_1)
-- 
2.43.0


From 4d4d31aba9469a3dc40d3441bb0b6e2d569d2414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:20 +0000
Subject: [PATCH 31/33] fix: to_str of circles, segments and triangles returns
 nothing

---
 src/pyrusgeom/circle_2d.py   | 3 ++-
 src/pyrusgeom/segment_2d.py  | 3 ++-
 src/pyrusgeom/triangle_2d.py | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyrusgeom/circle_2d.py b/src/pyrusgeom/circle_2d.py
index 43fd684..a92dc0b 100644
--- a/src/pyrusgeom/circle_2d.py
+++ b/src/pyrusgeom/circle_2d.py
@@ -298,7 +298,7 @@ class Circle2D:
         """
         return f"({self._center} , {self._radius})"
 
-    def to_str(self, ostr: str) -> None:
+    def to_str(self, ostr: str) -> str:
         """add circle to the ostr
 
         Args:
@@ -306,6 +306,7 @@ class Circle2D:
         """
         ostr += f'(circle {round(self.center().x(), 3)} \
             {round(self.center().y(), 3)} {round(self.radius(), 3)})'
+        return ostr
 
 
 def quadratic_f(qf_a: float, qf_b: float, qf_c: float) -> list[float]:
diff --git a/src/pyrusgeom/segment_2d.py b/src/pyrusgeom/segment_2d.py
index 3219f61..08c8278 100644
--- a/src/pyrusgeom/segment_2d.py
+++ b/src/pyrusgeom/segment_2d.py
@@ -544,7 +544,7 @@ class Segment2D:
         """
         return f"[{self._origin},{self._terminal}]"
 
-    def to_str(self, ostr: str) -> None:
+    def to_str(self, ostr: str) -> str:
         """add segment to the ostr
 
         Args:
@@ -552,3 +552,4 @@ class Segment2D:
         """
         ostr += f' (line {round(self.origin().x(), 3)} {round(self.origin().y(), 3)} \
             {round(self.terminal().x(), 3)} {round(self.terminal().y(), 3)})'
+        return ostr
diff --git a/src/pyrusgeom/triangle_2d.py b/src/pyrusgeom/triangle_2d.py
index 50ac800..72171ed 100644
--- a/src/pyrusgeom/triangle_2d.py
+++ b/src/pyrusgeom/triangle_2d.py
@@ -506,3 +506,4 @@ class Triangle2D(Region2D):
         """
         ostr += f'(tri {round(self.a().x(), 3)} {round(self.a().y(), 3)} {round(self.b().x(), 3)} \
         {round(self.b().y(), 3)} {round(self.c().x(), 3)} {round(self.c().y(), 3)})'
+        return ostr
-- 
2.43.0


From d9522d267db06395842e7542a1d5dac1395367ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:20 +0000
Subject: [PATCH 32/33] fix: Rect2D.to_str prints a stray f before the right
 side

---
 src/pyrusgeom/rect_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyrusgeom/rect_2d.py b/src/pyrusgeom/rect_2d.py
index 069e445..cf9b49d 100644
--- a/src/pyrusgeom/rect_2d.py
+++ b/src/pyrusgeom/rect_2d.py
@@ -822,5 +822,5 @@ class Rect2D(Region2D):
             ostr (str): str to add to it
         """
         ostr += f'(rect {round(self.left(), 3)} {round(self.top(), 3)} \
-            f{round(self.right(), 3)} {round(self.bottom(), 3)})'
+            {round(self.right(), 3)} {round(self.bottom(), 3)})'
         return ostr
-- 
2.43.0


From 3bc12c6303eb4ba440990d00ef8c7d33babf0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:42 +0000
Subject: [PATCH 33/33] fix: adding a hull's own point list to it terminates

---
 src/pyrusgeom/convex_hull.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyrusgeom/convex_hull.py b/src/pyrusgeom/convex_hull.py
index 4b186f1..89dc506 100644
--- a/src/pyrusgeom/convex_hull.py
+++ b/src/pyrusgeom/convex_hull.py
@@ -171,8 +171,7 @@ class ConvexHull:
         Args:
             points(list) : points to add
         """
-        for point in points:
-            self._input_points.append(point)
+        self._input_points.extend(points)
 
     def compute(self, m_type: MethodType = MethodType.WRAPPING_METHOD) -> None:
         """generate convex hull by specified method
-- 
2.43.0

