From 748b6777fc4bc8b172ecc3d44339005fadc095ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:19 +0000
Subject: [PATCH 01/19] fix: assigning an orientation no longer normalises the
 caller's array in place

---
 geoana/em/base.py            | 2 +-
 geoana/em/fdem/wholespace.py | 2 +-
 geoana/em/tdem/wholespace.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index 4a5792b..2bcd8d2 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -219,7 +219,7 @@ class BaseDipole:
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index 851156e..d2430e5 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -998,7 +998,7 @@ class HarmonicPlaneWave(BaseFDEM):
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 8a56ba2..94115ca 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -675,7 +675,7 @@ class TransientPlaneWave(BaseTDEM):
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
-- 
2.43.0


From c5ee50c10b77dd34c2cb8761e83f9142d819a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:30 +0000
Subject: [PATCH 02/19] fix: array-valued parameters are copied on assignment
 instead of aliasing the caller's array

---
 geoana/earthquake/oksar.py    | 16 ++++++++--------
 geoana/em/base.py             |  4 ++--
 geoana/em/fdem/base.py        |  2 +-
 geoana/em/static/freespace.py |  2 +-
 geoana/em/tdem/base.py        |  2 +-
 geoana/gravity.py             |  2 +-
 geoana/shapes.py              |  4 ++--
 7 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 109d92e..327355f 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -104,7 +104,7 @@ class EarthquakeInterferogram:
     @data.setter
     def data(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("Location must be a array_like of float")
 
@@ -145,7 +145,7 @@ class EarthquakeInterferogram:
     @location.setter
     def location(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "Location must be array_like of float"
@@ -219,7 +219,7 @@ class EarthquakeInterferogram:
     @pixel_size.setter
     def pixel_size(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("pixel_size must be array_like of float")
         var = np.squeeze(var)
@@ -243,7 +243,7 @@ class EarthquakeInterferogram:
     @ref.setter
     def ref(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "ref must be a array_like of float"
@@ -958,7 +958,7 @@ class Oksar:
     @O.setter
     def O(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("O must be array_like of float")
         var = np.squeeze(var)
@@ -981,7 +981,7 @@ class Oksar:
     @U.setter
     def U(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "U must be a array_like of float"
@@ -1006,7 +1006,7 @@ class Oksar:
     @V.setter
     def V(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("V must be array_like of float")
         var = np.squeeze(var)
@@ -1030,7 +1030,7 @@ class Oksar:
     @center.setter
     def center(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("center must be array_like of float")
         var = np.squeeze(var)
diff --git a/geoana/em/base.py b/geoana/em/base.py
index 2bcd8d2..cfe4463 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -171,7 +171,7 @@ class BaseDipole:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
         vec = np.squeeze(vec)
@@ -475,7 +475,7 @@ class BaseLineCurrent:
     def nodes(self, xyz):
 
         try:
-            xyz = np.asarray(xyz, dtype=np.float64)
+            xyz = np.array(xyz, dtype=np.float64)
         except:
             raise TypeError(f"nodes must be array_like, got {type(xyz)}")
         xyz = np.atleast_2d(xyz)
diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 8c575f7..9f197ca 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -207,7 +207,7 @@ class BaseFDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"frequencies are not a valid type")
         # Enforce positivity and dimensions
diff --git a/geoana/em/static/freespace.py b/geoana/em/static/freespace.py
index 810efea..f9d8dec 100644
--- a/geoana/em/static/freespace.py
+++ b/geoana/em/static/freespace.py
@@ -50,7 +50,7 @@ class MagneticPrism(BasePrism):
     @magnetization.setter
     def magnetization(self, vec):
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/em/tdem/base.py b/geoana/em/tdem/base.py
index e5b918b..998132e 100644
--- a/geoana/em/tdem/base.py
+++ b/geoana/em/tdem/base.py
@@ -165,7 +165,7 @@ class BaseTDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"times are not a valid type")
 
diff --git a/geoana/gravity.py b/geoana/gravity.py
index 5441f5b..7f27586 100644
--- a/geoana/gravity.py
+++ b/geoana/gravity.py
@@ -87,7 +87,7 @@ class PointMass:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/shapes.py b/geoana/shapes.py
index 0fda9ec..f761617 100644
--- a/geoana/shapes.py
+++ b/geoana/shapes.py
@@ -57,7 +57,7 @@ class BasePrism:
     def min_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
@@ -84,7 +84,7 @@ class BasePrism:
     def max_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
-- 
2.43.0


From c2735c231faf77f5083dfbc87dca5bcf153f21af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:30 +0000
Subject: [PATCH 03/19] fix: moving a point current replaces its node instead
 of writing into the shared node array

---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 5c6058b..efbcf6f 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1122,7 +1122,7 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
             raise ValueError(
                 f"location must be array_like with shape (3,), got {len(vec)}"
             )
-        self.nodes[0] = vec
+        self.nodes = vec
 
     def potential(self, xyz):
         """Electric potential for a point current in a wholespace.
-- 
2.43.0


From a2a355491c8491c8df5fa3ef573e4c8992beb18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:46 +0000
Subject: [PATCH 04/19] fix: half-space point sources keep one copy of each
 parameter, so a failed assignment cannot tear it

---
 geoana/em/static/halfspace.py | 51 ++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/geoana/em/static/halfspace.py b/geoana/em/static/halfspace.py
index 859fb43..058819a 100644
--- a/geoana/em/static/halfspace.py
+++ b/geoana/em/static/halfspace.py
@@ -28,17 +28,26 @@ class PointCurrentHalfSpace:
 
     def __init__(self, rho, current=1.0, location=None):
 
-        _primary = PointCurrentWholeSpace(rho, current=1.0, location=None)
-        _image = PointCurrentWholeSpace(rho, current=1.0, location=None)
-        self._primary = _primary
-        self._image = _image
-
         self.current = current
         self.rho = rho
         if location is None:
             location = np.r_[0, 0, 0]
         self.location = location
 
+    # The whole space sources are derived from the parameters when they are needed,
+    # so that there is no second copy of a parameter that could get out of step.
+    @property
+    def _primary(self):
+        return PointCurrentWholeSpace(
+            self.rho, current=self.current, location=self.location
+        )
+
+    @property
+    def _image(self):
+        return PointCurrentWholeSpace(
+            self.rho, current=self.current, location=self.location * np.r_[1, 1, -1]
+        )
+
     @property
     def current(self):
         """Current in the point current in Amps.
@@ -59,8 +68,6 @@ class PointCurrentHalfSpace:
             raise TypeError(f"current must be a number, got {type(value)}")
 
         self._current = value
-        self._primary.current = value
-        self._image.current = value
 
     @property
     def rho(self):
@@ -85,8 +92,6 @@ class PointCurrentHalfSpace:
             raise ValueError("current must be greater than 0")
 
         self._rho = value
-        self._primary.rho = value
-        self._image.rho = value
 
     @property
     def location(self):
@@ -118,11 +123,6 @@ class PointCurrentHalfSpace:
             )
 
         self._location = vec
-        self._primary.location = vec
-
-        vec = np.copy(vec)
-        vec[-1] *= -1
-        self._image.location = vec
 
     def potential(self, xyz):
         """Electric potential for a point current in a halfspace.
@@ -342,11 +342,6 @@ class DipoleHalfSpace:
 
     def __init__(self, rho, location_a=None, location_b=None, current=1.0):
 
-        _a = PointCurrentHalfSpace(rho, current=1.0, location=location_a)
-        _b = PointCurrentHalfSpace(rho, current=1.0, location=location_b)
-        self._a = _a
-        self._b = _b
-
         self.current = current
         self.rho = rho
         if location_a is None:
@@ -356,6 +351,18 @@ class DipoleHalfSpace:
             location_b = np.r_[1, 0, 0]
         self.location_b = location_b
 
+    @property
+    def _a(self):
+        return PointCurrentHalfSpace(
+            self.rho, current=self.current, location=self.location_a
+        )
+
+    @property
+    def _b(self):
+        return PointCurrentHalfSpace(
+            self.rho, current=self.current, location=self.location_b
+        )
+
     @property
     def current(self):
         """Current in the dipole in Amps.
@@ -376,8 +383,6 @@ class DipoleHalfSpace:
             raise TypeError(f"current must be a number, got {type(value)}")
 
         self._current = value
-        self._a.current = value
-        self._b.current = value
 
     @property
     def rho(self):
@@ -402,8 +407,6 @@ class DipoleHalfSpace:
             raise ValueError("current must be greater than 0")
 
         self._rho = value
-        self._a.rho = value
-        self._b.rho = value
 
     @property
     def location_a(self):
@@ -435,7 +438,6 @@ class DipoleHalfSpace:
             )
 
         self._location_a = vec
-        self._a.location = vec
 
     @property
     def location_b(self):
@@ -467,7 +469,6 @@ class DipoleHalfSpace:
             )
 
         self._location_b = vec
-        self._b.location = vec
 
     def potential(self, xyz_m, xyz_n=None):
         """Electric potential for a dipole in a halfspace.
-- 
2.43.0


From 6752b0857b1130f5c3b1547a507355e30b8a02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:56 +0000
Subject: [PATCH 05/19] fix: reject (3, k) arrays for parameters that must be a
 single vector

---
 geoana/em/static/halfspace.py  | 12 ++++++------
 geoana/em/static/sphere.py     | 16 ++++++++--------
 geoana/em/static/wholespace.py |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/geoana/em/static/halfspace.py b/geoana/em/static/halfspace.py
index 058819a..0e58605 100644
--- a/geoana/em/static/halfspace.py
+++ b/geoana/em/static/halfspace.py
@@ -112,9 +112,9 @@ class PointCurrentHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -427,9 +427,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -458,9 +458,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index 1e2182a..5dfbcfd 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -113,9 +113,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -139,9 +139,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
@@ -624,9 +624,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -650,9 +650,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index efbcf6f..7b5164f 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1118,9 +1118,9 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
         self.nodes = vec
 
-- 
2.43.0


From 85cee8f464e1525343210520f0ae91ac91c1a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:17 +0000
Subject: [PATCH 06/19] fix: plane waves reject unknown orientation strings
 instead of storing them

---
 geoana/em/fdem/wholespace.py | 2 ++
 geoana/em/tdem/wholespace.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index d2430e5..dacfc3e 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -980,6 +980,8 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.asarray(var, dtype=float)
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 94115ca..c2b6797 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -657,6 +657,8 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.asarray(var, dtype=float)
-- 
2.43.0


From 80ed427222a1686bd0d1fda6575cb8129bf05383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:17 +0000
Subject: [PATCH 07/19] fix: half-space magnetic dipoles check the source
 height on every assignment, not only at construction

---
 geoana/em/base.py           | 5 +++++
 geoana/em/fdem/halfspace.py | 5 ++++-
 geoana/em/fdem/layered.py   | 5 ++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index cfe4463..968d813 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -180,8 +180,13 @@ class BaseDipole:
                 f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
+        self._check_location(vec)
         self._location = vec
 
+    def _check_location(self, vec):
+        # Overridden by sources that restrict where they can be placed.
+        pass
+
     @property
     def orientation(self):
         """Orientation of the dipole as a normalized vector
diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index dce8a39..9c4e8df 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -17,7 +17,10 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         self._check_is_valid_location()
 
     def _check_is_valid_location(self):
-        if self.location[2] != 0.0:
+        self._check_location(self.location)
+
+    def _check_location(self, vec):
+        if vec[2] != 0.0:
             raise ValueError("Source must be at the surface of the earth (i.e. z=0.0)")
 
 
diff --git a/geoana/em/fdem/layered.py b/geoana/em/fdem/layered.py
index 3cf84ba..5e7b905 100644
--- a/geoana/em/fdem/layered.py
+++ b/geoana/em/fdem/layered.py
@@ -49,7 +49,10 @@ class MagneticDipoleLayeredHalfSpace(BaseFDEM, BaseMagneticDipole):
         self._check_is_valid_location()
 
     def _check_is_valid_location(self):
-        if self.location[2] < 0.0:
+        self._check_location(self.location)
+
+    def _check_location(self, vec):
+        if vec[2] < 0.0:
             raise ValueError("Source must be above the surface of the earth (i.e. z >= 0.0)")
 
     @property
-- 
2.43.0


From 21172eb51f876b21aeb1849ec6b49478d7defb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:17 +0000
Subject: [PATCH 08/19] fix: Oksar.V, event_date and local_rigidity read back
 what was assigned

---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 327355f..7439c4b 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -399,7 +399,7 @@ class EarthquakeInterferogram:
         except:
             raise TypeError("local_rigidity must be a float")
 
-        self._rigidity = var
+        self._local_rigidity = var
 
     @property
     def processed_by(self):
@@ -645,7 +645,7 @@ class EarthquakeInterferogram:
         datetime.datetime
             The date and time
         """
-        return self._processed_date
+        return self._event_date
 
     @event_date.setter
     def event_date(self, date_time):
@@ -1001,7 +1001,7 @@ class Oksar:
             V direction of the simulation domain
 
         """
-        return self._location
+        return self._V
 
     @V.setter
     def V(self, var):
-- 
2.43.0


From 8d0009d42550c42cc739eb00f11c54271d958ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:38 +0000
Subject: [PATCH 09/19] fix: plot2Ddata no longer removes vmin and vmax from
 the caller's contourOpts

---
 geoana/plotting_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 4307747..0d6d84f 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -111,6 +111,9 @@ def plot2Ddata(
 
     """
 
+    # vmin and vmax are taken out below: leave the caller's dictionary alone
+    contourOpts = dict(contourOpts)
+
     # Error checking and set vmin, vmax
     vlimits = [None, None]
 
-- 
2.43.0


From 1949ca7f6f4c31ead85ccf70b5426f955da59312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:38 +0000
Subject: [PATCH 10/19] fix: plot2Ddata draws levels for vector data and saves
 the figure of the axes it drew on

---
 geoana/plotting_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 0d6d84f..39c19f6 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -139,7 +139,7 @@ def plot2Ddata(
 
     # create a figure if it doesn't exist
     if ax is None:
-        fig = plt.figure()
+        plt.figure()
         ax = plt.subplot(111)
 
     # interpolate data to grid locations
@@ -233,7 +233,7 @@ def plot2Ddata(
 
         if level:
             levelOpts = {"levels": levels, "zorder": 3, **levelOpts}
-            CS = ax.contour(X, Y, DATA, levels=levels, zorder=3, **levelOpts)
+            CS = ax.contour(X, Y, DATA, **levelOpts)
 
     if shade:
 
@@ -272,8 +272,8 @@ def plot2Ddata(
         ax.plot(xyz[:, 0], xyz[:, 1], "k.", ms=2)
     ax.set_aspect("equal", adjustable="box")
     if figname:
-        plt.axis("off")
-        fig.savefig(figname, dpi=200)
+        ax.axis("off")
+        ax.figure.savefig(figname, dpi=200)
     if level:
         return cont, ax, CS
     else:
-- 
2.43.0


From e32acfdf297ba0478620f280d5cabc5ace2c155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:38 +0000
Subject: [PATCH 11/19] fix: earthquake example() raises on a failed, stalled
 or truncated download instead of using it as data

---
 geoana/earthquake/oksar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 7439c4b..333b35a 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1623,8 +1623,10 @@ def example():
 
     import requests
     dinar_file = requests.get(
-        'https://storage.googleapis.com/simpeg/geoana/dinar.r4'
+        'https://storage.googleapis.com/simpeg/geoana/dinar.r4',
+        timeout=60,
     )
+    dinar_file.raise_for_status()
 
     # data = np.fromstring(dinar_file.content, np.float32)
 
@@ -1668,6 +1670,8 @@ def example():
     location = [706216.0606, 4269238.9999]
     location_UTM_zone = 35
     shape = (1024, 1024)
+    if data.size != shape[0] * shape[1]:
+        raise IOError(f"incomplete download, got {data.size} of {shape} values")
     pixel_size = [80., 80.]
     ref= [741140., 4230327.]
     ref_incidence = 23
-- 
2.43.0


From 687e8147c25bf111394dbcd3c12914c10257fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:52 +0000
Subject: [PATCH 12/19] fix: rTE_gradient raises MemoryError when its work
 arrays cannot be allocated instead of aborting

---
 geoana/kernels/_extensions/_rTE.cpp | 2 +-
 geoana/kernels/_extensions/_rTE.h   | 2 +-
 geoana/kernels/_extensions/rTE.pyx  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/kernels/_extensions/_rTE.cpp b/geoana/kernels/_extensions/_rTE.cpp
index e3d77f2..26e0d2a 100644
--- a/geoana/kernels/_extensions/_rTE.cpp
+++ b/geoana/kernels/_extensions/_rTE.cpp
@@ -61,7 +61,7 @@ void funcs::rTEgrad(
     size_t n_frequency,
     size_t n_filter,
     size_t n_layers
-) noexcept(true){
+){
     double mu_0 = 4.0E-7*M_PI;
     complex_t j(0.0, 1.0);
 
diff --git a/geoana/kernels/_extensions/_rTE.h b/geoana/kernels/_extensions/_rTE.h
index 3211f44..597cc66 100644
--- a/geoana/kernels/_extensions/_rTE.h
+++ b/geoana/kernels/_extensions/_rTE.h
@@ -33,7 +33,7 @@ namespace funcs {
         size_t n_frequency,
         size_t n_filter,
         size_t n_layers
-    ) noexcept(true);
+    );
 }
 
 #endif
diff --git a/geoana/kernels/_extensions/rTE.pyx b/geoana/kernels/_extensions/rTE.pyx
index 5024aca..00f1629 100644
--- a/geoana/kernels/_extensions/rTE.pyx
+++ b/geoana/kernels/_extensions/rTE.pyx
@@ -38,7 +38,7 @@ cdef extern from "_rTE.h" namespace "funcs":
         SIZE_t n_frequency,
         SIZE_t n_filter,
         SIZE_t n_layers
-    ) noexcept nogil
+    ) except + nogil
 
 def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
     """Compute reflection coefficients for Transverse Electric (TE) mode.
-- 
2.43.0


From 30fede6aae1dda0e28ba340e8bb59343175b4af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:56 +0000
Subject: [PATCH 13/19] fix: compiled rTE kernels accept read-only arrays like
 the numpy versions do

---
 geoana/kernels/_extensions/rTE.pyx | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/geoana/kernels/_extensions/rTE.pyx b/geoana/kernels/_extensions/rTE.pyx
index 00f1629..3acd8c0 100644
--- a/geoana/kernels/_extensions/rTE.pyx
+++ b/geoana/kernels/_extensions/rTE.pyx
@@ -89,11 +89,11 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
         )
 
     cdef:
-        REAL_t[:] f = frequencies
-        REAL_t[:] lam = lamb
-        COMPLEX_t[:, :] sig = sigma
-        COMPLEX_t[:, :] c_mu = mu
-        REAL_t[:] hs = thicknesses
+        const REAL_t[:] f = frequencies
+        const REAL_t[:] lam = lamb
+        const COMPLEX_t[:, :] sig = sigma
+        const COMPLEX_t[:, :] c_mu = mu
+        const REAL_t[:] hs = thicknesses
 
     cdef:
         SIZE_t n_frequency, n_filter, n_layers
@@ -112,10 +112,10 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
         complex_t *mu_p = <complex_t *> &c_mu[0, 0]
         REAL_t *h_p = NULL
     if n_layers > 1:
-        h_p = &hs[0]
+        h_p = <REAL_t *> &hs[0]
 
     with nogil:
-        rTE(out_p, &f[0], &lam[0], sig_p, mu_p, h_p,
+        rTE(out_p, <REAL_t *> &f[0], <REAL_t *> &lam[0], sig_p, mu_p, h_p,
             n_frequency, n_filter, n_layers)
 
     return np.array(out)
@@ -174,11 +174,11 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
         )
 
     cdef:
-        REAL_t[:] f = frequencies
-        REAL_t[:] lam = lamb
-        COMPLEX_t[:, :] sig = sigma
-        COMPLEX_t[:, :] c_mu = mu
-        REAL_t[:] hs = thicknesses
+        const REAL_t[:] f = frequencies
+        const REAL_t[:] lam = lamb
+        const COMPLEX_t[:, :] sig = sigma
+        const COMPLEX_t[:, :] c_mu = mu
+        const REAL_t[:] hs = thicknesses
 
     cdef:
         SIZE_t n_frequency, n_filter, n_layers
@@ -201,11 +201,11 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
         complex_t *gh_p = NULL
         REAL_t *h_p = NULL
     if n_layers > 1:
-        h_p = &hs[0]
+        h_p = <REAL_t *> &hs[0]
         gh_p = <complex_t *> &gh[0, 0, 0]
 
     with nogil:
-        rTEgrad(gsig_p, gmu_p, gh_p, &f[0], &lam[0], sig_p, mu_p, h_p,
+        rTEgrad(gsig_p, gmu_p, gh_p, <REAL_t *> &f[0], <REAL_t *> &lam[0], sig_p, mu_p, h_p,
             n_frequency, n_filter, n_layers)
 
     return np.array(gsig), np.array(gh), np.array(gmu)
-- 
2.43.0


From acd85ded67c3eaecf9da5d149f24b451893a2365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:49 +0000
Subject: [PATCH 14/19] fix: layered sigma_hat returns its own array, not a
 view of the stored conductivity

---
 geoana/em/fdem/layered.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/fdem/layered.py b/geoana/em/fdem/layered.py
index 5e7b905..9a76aea 100644
--- a/geoana/em/fdem/layered.py
+++ b/geoana/em/fdem/layered.py
@@ -282,7 +282,7 @@ class MagneticDipoleLayeredHalfSpace(BaseFDEM, BaseMagneticDipole):
         return sigma_hat(
             self.frequency[:, None], sigma, epsilon,
             quasistatic=self.quasistatic
-        ).T
+        ).T.copy()
 
     @property
     def wavenumber(self):
-- 
2.43.0


From 435b2ca7f1b426d970959094d97ba080c6baa6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:03 +0000
Subject: [PATCH 15/19] fix: reject the zero vector as an orientation instead
 of storing nan

---
 geoana/em/base.py            | 5 ++++-
 geoana/em/fdem/wholespace.py | 5 ++++-
 geoana/em/tdem/wholespace.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index 968d813..7f77acf 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -224,7 +224,10 @@ class BaseDipole:
                 )
 
             # Normalize the orientation
-            var = var / np.linalg.norm(var)
+            norm = np.linalg.norm(var)
+            if norm == 0.0:
+                raise ValueError("orientation must not be the zero vector")
+            var = var / norm
 
         self._orientation = var
 
diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index dacfc3e..59939bb 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -1000,7 +1000,10 @@ class HarmonicPlaneWave(BaseFDEM):
                 )
 
             # Normalize the orientation
-            var = var / np.linalg.norm(var)
+            norm = np.linalg.norm(var)
+            if norm == 0.0:
+                raise ValueError("orientation must not be the zero vector")
+            var = var / norm
 
         self._orientation = var
 
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index c2b6797..39f4e68 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -677,7 +677,10 @@ class TransientPlaneWave(BaseTDEM):
                 )
 
             # Normalize the orientation
-            var = var / np.linalg.norm(var)
+            norm = np.linalg.norm(var)
+            if norm == 0.0:
+                raise ValueError("orientation must not be the zero vector")
+            var = var / norm
 
         self._orientation = var
 
-- 
2.43.0


From 64982aaf53e0723e45ce962cb3c39dbe9ee49049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:22 +0000
Subject: [PATCH 16/19] fix: PointCurrentWholeSpace rejects zero resistivity
 given as a numpy scalar instead of storing infinite conductivity

---
 geoana/em/static/wholespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 7b5164f..864ae59 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1097,7 +1097,8 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
     def __init__(self, rho, current=1.0, location=None):
         if location is None:
             location = np.r_[0, 0, 0]
-        super().__init__(sigma=1/rho, nodes=location, current=current)
+        super().__init__(nodes=location, current=current)
+        self.rho = rho
 
     @property
     def location(self):
-- 
2.43.0


From 41b2f2b4ffd5ff3c4906ba3dd224d08628b085ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:44 +0000
Subject: [PATCH 17/19] fix: PointCurrentWholeSpace constructor checks the
 location like its setter does

---
 geoana/em/static/wholespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 864ae59..4bcca75 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1097,7 +1097,8 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
     def __init__(self, rho, current=1.0, location=None):
         if location is None:
             location = np.r_[0, 0, 0]
-        super().__init__(nodes=location, current=current)
+        super().__init__(nodes=np.r_[0, 0, 0], current=current)
+        self.location = location
         self.rho = rho
 
     @property
-- 
2.43.0


From c87bafa69206e5053fa2d8aa1fadb4e13502c7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:40 +0000
Subject: [PATCH 18/19] fix: compiled reflection kernels use the same mu_0 as
 the rest of the package

---
 geoana/kernels/_extensions/_rTE.cpp |  8 ++++----
 geoana/kernels/_extensions/_rTE.h   |  6 ++++--
 geoana/kernels/_extensions/rTE.pyx  | 13 +++++++++----
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/geoana/kernels/_extensions/_rTE.cpp b/geoana/kernels/_extensions/_rTE.cpp
index 26e0d2a..e672e81 100644
--- a/geoana/kernels/_extensions/_rTE.cpp
+++ b/geoana/kernels/_extensions/_rTE.cpp
@@ -13,9 +13,9 @@ void funcs::rTE(
     double * h,
     size_t n_frequency,
     size_t n_filter,
-    size_t n_layers
+    size_t n_layers,
+    double mu_0
 ) noexcept(true){
-    double mu_0 = 4.0E-7*M_PI;
     complex_t j(0.0, 1.0);
 
     complex_t k2, u, Yh, Y, tanhuh, Y0;
@@ -60,9 +60,9 @@ void funcs::rTEgrad(
     double * h,
     size_t n_frequency,
     size_t n_filter,
-    size_t n_layers
+    size_t n_layers,
+    double mu_0
 ){
-    double mu_0 = 4.0E-7*M_PI;
     complex_t j(0.0, 1.0);
 
     //complex_t k2, u, Yh, Y, tanhuh, Y0;
diff --git a/geoana/kernels/_extensions/_rTE.h b/geoana/kernels/_extensions/_rTE.h
index 597cc66..894862a 100644
--- a/geoana/kernels/_extensions/_rTE.h
+++ b/geoana/kernels/_extensions/_rTE.h
@@ -18,7 +18,8 @@ namespace funcs {
         double *depths,
         size_t n_frequency,
         size_t n_filter,
-        size_t n_layers
+        size_t n_layers,
+        double mu_0
     ) noexcept(true);
 
     void rTEgrad(
@@ -32,7 +33,8 @@ namespace funcs {
         double * h,
         size_t n_frequency,
         size_t n_filter,
-        size_t n_layers
+        size_t n_layers,
+        double mu_0
     );
 }
 
diff --git a/geoana/kernels/_extensions/rTE.pyx b/geoana/kernels/_extensions/rTE.pyx
index 3acd8c0..8b64cbd 100644
--- a/geoana/kernels/_extensions/rTE.pyx
+++ b/geoana/kernels/_extensions/rTE.pyx
@@ -5,6 +5,7 @@
 import numpy as np
 cimport numpy as np
 cimport cython
+from scipy.constants import mu_0
 from libcpp.complex cimport complex, sqrt, exp
 from libcpp cimport bool
 
@@ -23,7 +24,8 @@ cdef extern from "_rTE.h" namespace "funcs":
         double *thicks,
         SIZE_t n_frequency,
         SIZE_t n_filter,
-        SIZE_t n_layers
+        SIZE_t n_layers,
+        double mu_0
         ) noexcept nogil
 
     void rTEgrad(
@@ -37,7 +39,8 @@ cdef extern from "_rTE.h" namespace "funcs":
         double * h,
         SIZE_t n_frequency,
         SIZE_t n_filter,
-        SIZE_t n_layers
+        SIZE_t n_layers,
+        double mu_0
     ) except + nogil
 
 def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
@@ -97,6 +100,7 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
 
     cdef:
         SIZE_t n_frequency, n_filter, n_layers
+        double c_mu_0 = mu_0
 
 
     n_frequency = f.shape[0]
@@ -116,7 +120,7 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
 
     with nogil:
         rTE(out_p, <REAL_t *> &f[0], <REAL_t *> &lam[0], sig_p, mu_p, h_p,
-            n_frequency, n_filter, n_layers)
+            n_frequency, n_filter, n_layers, c_mu_0)
 
     return np.array(out)
 
@@ -182,6 +186,7 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
 
     cdef:
         SIZE_t n_frequency, n_filter, n_layers
+        double c_mu_0 = mu_0
 
 
     n_frequency = f.shape[0]
@@ -206,6 +211,6 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
 
     with nogil:
         rTEgrad(gsig_p, gmu_p, gh_p, <REAL_t *> &f[0], <REAL_t *> &lam[0], sig_p, mu_p, h_p,
-            n_frequency, n_filter, n_layers)
+            n_frequency, n_filter, n_layers, c_mu_0)
 
     return np.array(gsig), np.array(gh), np.array(gmu)
-- 
2.43.0


From 46347d41572a428e017fde03726fd266fdc36e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:52 +0000
Subject: [PATCH 19/19] fix: draw the interferogram and displacement colour
 bars on the figure of the given axes

---
 geoana/earthquake/oksar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 333b35a..df2a8f7 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -734,7 +734,7 @@ class EarthquakeInterferogram:
         ))
         ax.set_ylabel('Northing, m')
 
-        cb = plt.colorbar(out, ax=ax)
+        cb = ax.figure.colorbar(out, ax=ax)
         cb.set_label('Displacement, m')
 
         return out
@@ -1609,7 +1609,7 @@ class Oksar:
         ax.set_xlabel('Easting, m')
         ax.set_ylabel('Northing, m')
 
-        cb = plt.colorbar(out[0], ax=ax)
+        cb = ax.figure.colorbar(out[0], ax=ax)
         cb.set_label('Displacement, m')
 
         if eq is not None:
-- 
2.43.0

