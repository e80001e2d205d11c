From 9f186ae63d28873e45b4e97bea435a0564b1e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 1/9] fix: round() must return a new array instead of rounding
 the receiver in place

---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index f9aae04..a06391b 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -122,7 +122,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         Point([1.  , 2.  , 3.53])
 
         """
-        return np.around(self, decimals=decimals, out=self)
+        return np.around(self, decimals=decimals)
 
 
 class _BaseArray1D(_BaseArray):
-- 
2.43.0


From b7f3cfb1a5ea0658705bb034170ab92ff824cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 2/9] fix: derive dimension from the array so that it survives
 pickling and in-place reshaping

---
 src/skspatial/objects/_base_array.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index a06391b..bf9c13d 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -136,8 +136,10 @@ class _BaseArray1D(_BaseArray):
 
         return super().__new__(cls, array_like)
 
-    def __array_finalize__(self, _):
-        self.dimension = self.size
+    @property
+    def dimension(self):
+        """Return the dimension (length) of the array."""
+        return self.size
 
     def set_dimension(self: Array1D, dim: int) -> Array1D:
         """
@@ -195,11 +197,13 @@ class _BaseArray2D(_BaseArray):
 
         return super().__new__(cls, array)
 
-    def __array_finalize__(self, _):
+    @property
+    def dimension(self):
+        """Return the dimension (width) of the array."""
         try:
-            self.dimension = self.shape[1]
+            return self.shape[1]
         except IndexError:
-            self.dimension = None
+            return None
 
     def set_dimension(self: Array2D, dim: int) -> Array2D:
         """
-- 
2.43.0


From 5d5f0a5f51fafb43b0e978dd94a298ee15fac6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 3/9] fix: convert a 1D array once, so that the values checked
 are the values stored

The input was read four times (ndim, size, isfinite, asarray). A source that
changes or fails in between could leave a Point or Vector holding values that
were never checked. With NumPy 1 a Point or Vector input also made isfinite()
recurse through __array_wrap__ down to the recursion limit on every call; the
RecursionError was swallowed there.
---
 src/skspatial/objects/_base_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index bf9c13d..ce1911b 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -129,12 +129,12 @@ class _BaseArray1D(_BaseArray):
     """Private base class for spatial objects based on a single 1D NumPy array."""
 
     def __new__(cls, array_like):
-        array = np.array(array_like)
+        array = np.asarray(array_like)
 
         if array.ndim != 1:
             raise ValueError("The array must be 1D.")
 
-        return super().__new__(cls, array_like)
+        return super().__new__(cls, array)
 
     @property
     def dimension(self):
-- 
2.43.0


From 0f80e7a31555e7af6f5a69c2e04b8239dffe5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:27 +0000
Subject: [PATCH 4/9] fix: do not swallow MemoryError and other unrelated
 errors when wrapping NumPy results

---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index ce1911b..bc6e902 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -50,7 +50,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
 
         try:
             return type(self)(array)
-        except Exception:
+        except (TypeError, ValueError):
             return array
 
     def to_array(self) -> np.ndarray:
-- 
2.43.0


From 7dd9ee6ff883022ae42fd9d8dc4d30342fc62ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 5/9] fix: set the dimension of LineSegment so that its plotter
 works

---
 src/skspatial/objects/line_segment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 749e4ea..11d8c6e 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -57,6 +57,8 @@ class LineSegment(_BaseSpatial):
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
+        self.dimension = self.point_a.dimension
+
     def __repr__(self) -> str:
         repr_point_a = np.array_repr(self.point_a)
         repr_point_b = np.array_repr(self.point_b)
-- 
2.43.0


From 07cd42bba2bb02b0ef6901d792a09848d0d6704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 6/9] fix: round() of an integer array must not share memory
 with the array

---
 src/skspatial/objects/_base_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index bc6e902..25027dc 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -122,7 +122,7 @@ class _BaseArray(np.ndarray, _BaseSpatial):
         Point([1.  , 2.  , 3.53])
 
         """
-        return np.around(self, decimals=decimals)
+        return np.around(self.copy(), decimals=decimals)
 
 
 class _BaseArray1D(_BaseArray):
-- 
2.43.0


From 3e10c3374e646b3cf31505934b0a6fa9ab74f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 7/9] fix: the projection of a parallel line must not share
 memory with the line

---
 src/skspatial/objects/plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skspatial/objects/plane.py b/src/skspatial/objects/plane.py
index 812c3b0..78db41a 100644
--- a/src/skspatial/objects/plane.py
+++ b/src/skspatial/objects/plane.py
@@ -375,7 +375,7 @@ class Plane(_BaseLinePlane, _ToPointsMixin):
         point_projected = self.project_point(line.point)
 
         if self.normal.is_perpendicular(line.vector, **kwargs):
-            return Line(point_projected, line.vector)
+            return Line(point_projected, line.vector.copy())
 
         vector_projected = self.project_vector(line.vector)
 
-- 
2.43.0


From a9f99d4ed288346c7a5cbc312330d2caec470797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:34 +0000
Subject: [PATCH 8/9] fix: reject line segments whose endpoints have different
 dimensions

---
 src/skspatial/objects/line_segment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skspatial/objects/line_segment.py b/src/skspatial/objects/line_segment.py
index 11d8c6e..d016015 100644
--- a/src/skspatial/objects/line_segment.py
+++ b/src/skspatial/objects/line_segment.py
@@ -32,6 +32,7 @@ class LineSegment(_BaseSpatial):
     Raises
     ------
     ValueError
+        If the two endpoints have different dimensions.
         If the two endpoints are equal.
 
     Examples
@@ -54,6 +55,9 @@ class LineSegment(_BaseSpatial):
         self.point_a = Point(point_a)
         self.point_b = Point(point_b)
 
+        if self.point_a.dimension != self.point_b.dimension:
+            raise ValueError("The endpoints must have the same dimension.")
+
         if self.point_a.is_close(self.point_b):
             raise ValueError("The endpoints must not be equal.")
 
-- 
2.43.0


From f961964642aa74ec2d7a9552fecc9272a1d1ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:53 +0000
Subject: [PATCH 9/9] fix: is_equal answered False when converting the other
 array failed

np.array_equal treats every exception of the conversion as inequality, so a
MemoryError (or an interrupting exception) became the answer False, and
project_point of a circle or sphere went on with it. Only objects that cannot
be converted to an array are unequal now.
---
 src/skspatial/objects/_base_array.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/skspatial/objects/_base_array.py b/src/skspatial/objects/_base_array.py
index 25027dc..cd89387 100644
--- a/src/skspatial/objects/_base_array.py
+++ b/src/skspatial/objects/_base_array.py
@@ -103,7 +103,13 @@ class _BaseArray(np.ndarray, _BaseSpatial):
             True if the arrays are equal; false otherwise.
 
         """
-        return np.array_equal(self, other)
+        try:
+            array = np.asarray(other)
+        except (TypeError, ValueError):
+            # The other object cannot be converted to an array.
+            return False
+
+        return np.array_equal(self, array)
 
     def round(self, decimals: int = 0):  # type: ignore[override]
         """
-- 
2.43.0

