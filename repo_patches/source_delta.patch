From 1430d192ce21ba3de088094ac8ecbe912ac1292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 01/39] fix: negative integer index of a RayVector selects
 exactly one ray

---
 batoid/rayVector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index c639ee4..87c08b9 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1318,7 +1318,7 @@ class RayVector:
          self._failed, self.coordSys) = args
 
     def __getitem__(self, idx):
-        if isinstance(idx, int):
+        if isinstance(idx, Integral):
             if idx >= 0:
                 if idx >= self._rv.t.size:
                     msg = "index {} is out of bounds for axis 0 with size {}"
@@ -1330,7 +1330,7 @@ class RayVector:
                     msg = "index {} is out of bounds for axis 0 with size {}"
                     msg = msg.format(idx, self._rv.t.size)
                     raise IndexError(msg)
-                idx = slice(self._rv.t.size+idx, self._rv.t.size-idx+1)
+                idx = slice(self._rv.t.size+idx, self._rv.t.size+idx+1)
 
         self._syncToHost()
         return RayVector._directInit(
-- 
2.43.0


From 5dcfe5b3a401fbda1aa1dfb8fe3672f3576e9170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 02/39] fix: Optic keeps the skip argument it is given

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 3b63277..d8da8dd 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -41,7 +41,7 @@ class Optic:
         self.coordSys = coordSys
         self.inMedium = inMedium
         self.outMedium = outMedium
-        self.skip = False
+        self.skip = skip
         kwargs.pop('itemDict', None)
         self.__dict__.update(**kwargs)
 
-- 
2.43.0


From 9432febe62306bdd70358d4b241b3e06b3cbf010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 03/39] fix: traceSplit of a skipped optic returns lists of
 rays

---
 batoid/optic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index d8da8dd..2d4df50 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -504,9 +504,9 @@ class Interface(Optic):
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
         refracted, reflected = self.rSplit(rv, reverse=reverse)
 
         # For now, apply obscuration equally forwards and backwards
@@ -1225,9 +1225,9 @@ class CompoundOptic(Optic):
             print(strtemplate.format(s, self.name, np.sum(rv.flux), len(rv)))
         if self.skip:
             if reverse:
-                return None, rv
+                return [], [rv]
             else:
-                return rv, None
+                return [rv], []
 
         if not reverse:
             workQueue = [(rv, "forward", 0)]
@@ -1259,7 +1259,7 @@ class CompoundOptic(Optic):
                         rr.vignetted[w], rr.failed[w],
                         rr.coordSys
                     )
-                    rList[i].path = rr.path
+                    rList[i].path = getattr(rr, 'path', [])
 
             for rr in rForward:
                 if len(rr) > 0:
-- 
2.43.0


From 4a69130106c83187ca53600bede1e2451c9a0a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 04/39] fix: interfaces keep their coatings through
 perturbations

---
 batoid/optic.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 2d4df50..85e0dff 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -761,13 +761,13 @@ class RefractiveInterface(Interface):
     Rays will interact with this surface by refracting through it.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        kwargs.setdefault('reverseCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
+        ))
+        Interface.__init__(self, *args, **kwargs)
 
     def interact(self, rv, reverse=False):
         if reverse:
@@ -799,13 +799,13 @@ class Mirror(Interface):
     Rays will interact with this surface by reflecting off of it.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        kwargs.setdefault('reverseCoating', SimpleCoating(
             reflectivity=1.0, transmissivity=0.0
-        )
+        ))
+        Interface.__init__(self, *args, **kwargs)
 
     def interact(self, rv, reverse=False):
         # reflect is independent of reverse
@@ -827,11 +827,11 @@ class Detector(Interface):
     stop with this `Interface`.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = None
+        ))
+        kwargs.setdefault('reverseCoating', None)
+        Interface.__init__(self, *args, **kwargs)
 
     def rSplit(self, rv, reverse=False):
         assert reverse == False
@@ -848,13 +848,13 @@ class Baffle(Interface):
     the vignetting calculation will still be applied at this `Interface`.
     """
     def __init__(self, *args, **kwargs):
-        Interface.__init__(self, *args, **kwargs)
-        self.forwardCoating = SimpleCoating(
+        kwargs.setdefault('forwardCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
-        self.reverseCoating = SimpleCoating(
+        ))
+        kwargs.setdefault('reverseCoating', SimpleCoating(
             reflectivity=0.0, transmissivity=1.0
-        )
+        ))
+        Interface.__init__(self, *args, **kwargs)
 
     def rSplit(self, rv, reverse=False):
         return self.surface.intersect(rv, self.coordSys), None
-- 
2.43.0


From 39b61097b8ea9ee82b8772115af760de20b8fbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 05/39] fix: perturbing a subitem is not confused by a sibling
 whose name is a prefix

---
 batoid/optic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 85e0dff..f53edbe 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1437,7 +1437,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withGlobalShift(shift))
                 else:
@@ -1600,7 +1600,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withLocalRotation(
                         rot, rotCenter, coordSys
@@ -1648,7 +1648,7 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         del newDict['items']
         for i, item in enumerate(self.items):
-            if name.startswith(item.name):
+            if name == item.name or name.startswith(item.name+'.'):
                 if name == item.name:
                     newItems.append(item.withSurface(surface))
                 else:
-- 
2.43.0


From 3d642585d7b6759916eaaf9e7cde1431f726253e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 06/39] fix: local rotation of an Interface rotates its stop
 surface along with it

---
 batoid/optic.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index f53edbe..b6b796d 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -681,8 +681,12 @@ class Interface(Optic):
             rot, rotCenter, coordSys
         )
         if 'stopSurface' in newDict:
-            newDict['stopSurface'] = newDict['stopSurface'].withLocalRotation(
-                rot, rotCenter, coordSys
+            # The stop surface undergoes the same rigid rotation as self.
+            newDict['stopSurface'] = (
+                newDict['stopSurface'].withGlobalRotation(
+                    self.coordSys.rot@rot@self.coordSys.rot.T,
+                    rotCenter, coordSys
+                )
             )
         del newDict['surface']
         ret.__init__(
-- 
2.43.0


From 97497bff143b6df0808266bb7716c371a44b2c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 07/39] fix: asSpokes stores fluxes as floats

---
 batoid/rayVector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 87c08b9..e2590fd 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -820,6 +820,8 @@ class RayVector:
         """Map rays backwards to their source position."""
         if isinstance(flux, Real):
             flux = np.full(len(x), float(flux))
+        else:
+            flux = np.ascontiguousarray(flux, dtype=float)
         if source is None:
             vv = np.array(dirCos, dtype=float, copy=True)
             vv /= n*np.sqrt(np.dot(vv, vv))
-- 
2.43.0


From 4f9401ed34a4042f875caf965a1bb99d02f893c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 08/39] fix: ObscPolygon.containsGrid agrees with contains

---
 batoid/obscuration.py |  2 ++
 src/obscuration.cpp   | 13 ++++++-------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 895fa27..680066a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -290,6 +290,8 @@ class ObscPolygon(Obscuration):
         return f"ObscPolygon({self.xs!r}, {self.ys!r})"
 
     def containsGrid(self, xgrid, ygrid):
+        xgrid = np.ascontiguousarray(xgrid, dtype=float)
+        ygrid = np.ascontiguousarray(ygrid, dtype=float)
         nx = len(xgrid)
         ny = len(ygrid)
         out = np.empty((ny, nx), dtype=bool)
diff --git a/src/obscuration.cpp b/src/obscuration.cpp
index 20cc015..36703cc 100644
--- a/src/obscuration.cpp
+++ b/src/obscuration.cpp
@@ -261,7 +261,7 @@ namespace batoid {
             // Loop through edges to find all relevant x intercepts
             double x1 = _xp[0];  // first point of segment
             double y1 = _yp[0];
-            for (int k=0; k<_size; k++) {
+            for (int k=1; k<=_size; k++) {
                 double x2 = _xp[k % _size];  // second point of segment
                 double y2 = _yp[k % _size];
                 if ((y > std::min(y1, y2)) && (y <= std::max(y1, y2)))
@@ -275,13 +275,12 @@ namespace batoid {
             bool contained = false;
             auto xptr = xinters.begin();
             for (int i=0; i<nx; i++) {
-                if (xptr != xinters.end()) {
-                    if (xgrid[i] > *xptr) {
-                        contained = !contained;
-                        xptr++;
-                    }
+                // May pass more than one intercept between grid points
+                while (xptr != xinters.end() && xgrid[i] > *xptr) {
+                    contained = !contained;
+                    xptr++;
                 }
-                out[j*ny+i] = contained;
+                out[j*nx+i] = contained;
             }
         }
     }
-- 
2.43.0


From fae9024c061fb42711d4d49a52987fec60bd3441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 09/39] fix: comparing polygons with different vertex counts
 does not raise

---
 batoid/obscuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 680066a..9a3403a 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -268,8 +268,8 @@ class ObscPolygon(Obscuration):
     def __eq__(self, rhs):
         if type(rhs) == type(self):
             return (
-                np.all(self.xs == rhs.xs)
-                and np.all(self.ys == rhs.ys)
+                np.array_equal(self.xs, rhs.xs)
+                and np.array_equal(self.ys, rhs.ys)
             )
         return False
 
-- 
2.43.0


From 418ddadadadb22469b2a4f63051248e3a79d2a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 10/39] fix: ray vectors of different lengths are never equal

---
 src/dualView.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dualView.cpp b/src/dualView.cpp
index 5084d0a..0b9db60 100644
--- a/src/dualView.cpp
+++ b/src/dualView.cpp
@@ -47,6 +47,8 @@ namespace batoid {
 
     template<typename T>
     bool DualView<T>::operator==(const DualView<T>& rhs) const {
+        if (size != rhs.size)
+            return false;
         // If both DualViews are currently synced to Device, do the comparison there.
         // Otherwise, copy to host and do comparison there.
         bool result{true};
-- 
2.43.0


From bd6fd2e928883ae3bbbef0654e2f8530b97dd40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 11/39] fix: TableMedium at its last wavelength and with
 integer tables

---
 batoid/medium.py | 4 ++--
 src/medium.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/medium.py b/batoid/medium.py
index fff1e26..73373db 100644
--- a/batoid/medium.py
+++ b/batoid/medium.py
@@ -69,8 +69,8 @@ class TableMedium(Medium):
         Refractive indices.
     """
     def __init__(self, wavelengths, ns):
-        self.wavelengths = np.array(wavelengths)
-        self.ns = np.array(ns)
+        self.wavelengths = np.array(wavelengths, dtype=float)
+        self.ns = np.array(ns, dtype=float)
         self._medium = _batoid.CPPTableMedium(
             self.wavelengths.ctypes.data,
             self.ns.ctypes.data,
diff --git a/src/medium.cpp b/src/medium.cpp
index 77330aa..36c730b 100644
--- a/src/medium.cpp
+++ b/src/medium.cpp
@@ -93,7 +93,7 @@ namespace batoid {
             if (wavelength > _args[_size-1])
                 return NAN;
             int upperIdx;
-            for(upperIdx=1; upperIdx<_size; upperIdx++) {
+            for(upperIdx=1; upperIdx<_size-1; upperIdx++) {
                 if (wavelength < _args[upperIdx])
                     break;
             }
-- 
2.43.0


From ded9ce89859a142a58993f9c488ed3ccfd42c266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 12/39] fix: Asphere with integer coefficients

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 1f15f40..55ad2ad 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -393,7 +393,7 @@ class Asphere(Surface):
             padded_coefs = np.concatenate([np.zeros(imin-1), coefs])
         else:
             padded_coefs = coefs
-        self._padded_coefs = np.ascontiguousarray(padded_coefs)
+        self._padded_coefs = np.array(padded_coefs, dtype=float)
         self._surface = _batoid.CPPAsphere(
             R, conic, self._padded_coefs.ctypes.data, len(self._padded_coefs)
         )
-- 
2.43.0


From 088f2eda27ae99b006ff315488dab2f473bf7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 13/39] fix: equal Bicubic surfaces have equal hashes

---
 batoid/surface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 55ad2ad..908e8ce 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -611,7 +611,7 @@ class Bicubic(Surface):
         return hash((
             "Bicubic", tuple(self.xs), tuple(self.ys), tuple(self.zs.ravel()),
             tuple(self.dzdxs.ravel()), tuple(self.dzdys.ravel()),
-            tuple(self.d2zdxdys.ravel()), self.nanpolicy
+            tuple(self.d2zdxdys.ravel()), self.nanpolicy.upper()
         ))
 
     def __setstate__(self, args):
-- 
2.43.0


From 6a649cb4232cdd14baaf8ebe0597691ea2107204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 14/39] fix: Quadric intersection of rays on the surface and of
 conic=-1

---
 src/quadric.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/quadric.cpp b/src/quadric.cpp
index d04e43f..25260f4 100644
--- a/src/quadric.cpp
+++ b/src/quadric.cpp
@@ -43,25 +43,21 @@ namespace batoid {
         double vx, double vy, double vz,
         double& dt, int niter
     ) const {
-        double z0term = z-_Rcp1;
-        double vrr0 = vx*x + vy*y;
-
-        double a = vz*vz + (vx*vx+vy*vy)*_cp1inv;
-        double b = 2*(vz*z0term + vrr0*_cp1inv);
-        double c = z0term*z0term - _RRcp1cp1 + (x*x + y*y)*_cp1inv;
+        // Roots of x^2 + y^2 - 2 R z + (1 + conic) z^2 = 0 along the ray.
+        double a = vx*vx + vy*vy + _cp1*vz*vz;
+        double b = 2*(vx*x + vy*y + _cp1*vz*z - _R*vz);
+        double c = x*x + y*y + _cp1*z*z - 2*_R*z;
 
         double discriminant = b*b - 4*a*c;
 
         if (discriminant < 0)
             return false;
 
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        // Neither root is obtained from the other, since either may be zero (ray
+        // already on the surface) or infinite (a == 0).
+        double q = (b > 0) ? -b - sqrt(discriminant) : -b + sqrt(discriminant);
+        double dt1 = q / (2*a);
+        double dt2 = (q != 0.0) ? 2*c / q : dt1;
 
         // New strategy, just always pick smaller abs(z).
         double z1 = z + vz*dt1;
-- 
2.43.0


From 2625dd5abdfc302d1dc670c6789a75410a56b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 15/39] fix: traceSplit through an OPDScreen

---
 batoid/optic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index b6b796d..1e97881 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -927,7 +927,7 @@ class OPDScreen(Interface):
 
     def rSplit(self, rv, reverse=False):
         # Can only go forward for now.
-        return self.surface.interact(rv), None
+        return self.interact(rv, reverse=reverse), None
 
 
 class CompoundOptic(Optic):
-- 
2.43.0


From 69673fe697bd2eba32862a3b66e4440a2364062f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 16/39] fix: insert or remove an optic at any depth, whatever
 its siblings are called

---
 batoid/optic.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 1e97881..27edde6 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1711,9 +1711,15 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
-        for i, it in enumerate(self.items):
-            if self._names[it.name] == self._names[before]:
+        # before is fully qualified, so clip off leading token
+        before = before[len(self.name)+1:]
+        if not before:
+            raise ValueError("Cannot insert before {}".format(self.name))
+        for it in self.items:
+            if before == it.name:
                 newItems.append(item)
+            elif before.startswith(it.name+'.'):
+                it = it.withInsertedOptic(before, item)
             newItems.append(it)
         return self.__class__(
             newItems,
@@ -1740,9 +1746,16 @@ class CompoundOptic(Optic):
         newDict = dict(self.__dict__)
         for k in ['items', 'itemDict', '_names', 'R_inner', 'R_outer']:
             newDict.pop(k, None)
+        # item is fully qualified, so clip off leading token
+        item = item[len(self.name)+1:]
+        if not item:
+            raise ValueError("Cannot remove {}".format(self.name))
         for it in self.items:
-            if self._names[it.name] != self._names[item]:
-                newItems.append(it)
+            if item == it.name:
+                continue
+            if item.startswith(it.name+'.'):
+                it = it.withRemovedOptic(item)
+            newItems.append(it)
         return self.__class__(
             newItems,
             **newDict
@@ -1761,8 +1774,9 @@ class Lens(CompoundOptic):
     """
     def __init__(self, items, **kwargs):
         CompoundOptic.__init__(self, items, **kwargs)
-        assert len(items) == 2
-        assert items[0].outMedium == items[1].inMedium
+        # May be left with a single surface by withRemovedOptic.
+        assert len(items) in [1, 2]
+        assert items[0].outMedium == items[-1].inMedium or len(items) == 1
 
     def draw2d(self, ax, **kwargs):
         """Specialized draw2d for `Lens` instances.
-- 
2.43.0


From 73a6810c076becbb5fa6e8ace0b83c5dba79aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 17/39] fix: launching rays along the x axis

---
 batoid/rayVector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index e2590fd..8661b71 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -827,6 +827,8 @@ class RayVector:
             vv /= n*np.sqrt(np.dot(vv, vv))
             zhat = -n*vv
             xhat = np.cross(np.array([1.0, 0.0, 0.0]), zhat)
+            if not np.any(xhat):  # zhat is along x
+                xhat = np.array([0.0, 1.0, 0.0])
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
             origin = zhat*backDist
-- 
2.43.0


From 14f9ea058e3567fce065ec58450f16ff2c40a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:30 +0000
Subject: [PATCH 18/39] fix: rays ascending through an OPD screen are deflected
 by +grad(OPD), as documented

---
 src/batoid.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/batoid.cpp b/src/batoid.cpp
index 2627e2c..6ee2658 100644
--- a/src/batoid.cpp
+++ b/src/batoid.cpp
@@ -800,15 +800,11 @@ namespace batoid {
                     // printf("dPd1 = %.18f\n", dPd1);
                     // printf("dPd2 = %.18f\n", dPd2);
 
-                    if (cos3 < 0) {
-                        cos1 += dPd1;
-                        cos2 += dPd2;
-                        cos3 = -std::sqrt(1 - cos1*cos1 - cos2*cos2);
-                    } else {
-                        cos1 -= dPd1;
-                        cos2 -= dPd2;
-                        cos3 = std::sqrt(1 - cos1*cos1 - cos2*cos2);
-                    }
+                    // A wavefront delayed by P turns towards +grad(P), whichever
+                    // way it crosses the screen.
+                    cos1 += dPd1;
+                    cos2 += dPd2;
+                    cos3 = std::copysign(std::sqrt(1 - cos1*cos1 - cos2*cos2), cos3);
 
                     // printf("cos1 = %.18f\n", cos1);
                     // printf("cos2 = %.18f\n", cos2);
-- 
2.43.0


From cbc1a13cb78ad36b0960b55b83409ff6f5da292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 19/39] fix: Obscuration.obscure returns the rays, as
 documented

---
 batoid/obscuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index 9a3403a..b3e7d72 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -39,7 +39,7 @@ class Obscuration:
         out : `RayVector`
             Returned object will have appropriate elements marked as vignetted.
         """
-        obscure(self, rv)
+        return obscure(self, rv)
 
     def __ne__(self, rhs):
         return not (self == rhs)
-- 
2.43.0


From 74de8cdc242dc06dc4dc0e846cdd81e0f3138cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 20/39] fix: Asphere keeps its own copy of its coefficients

---
 batoid/surface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/surface.py b/batoid/surface.py
index 908e8ce..8082fe5 100644
--- a/batoid/surface.py
+++ b/batoid/surface.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 from numbers import Integral, Real
 
 import numpy as np
@@ -378,7 +379,7 @@ class Asphere(Surface):
     def __init__(self, R, conic, coefs, imin=2):
         self.R = R
         self.conic = conic
-        self.coefs = coefs
+        self.coefs = copy(coefs)
         self.imin = imin
 
         if not isinstance(imin, Integral):
-- 
2.43.0


From 18b0c9ec21b582ffe27cf37c58fc5fed5e04561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 21/39] fix: ObscPolygon keeps its own copy of its vertices

---
 batoid/obscuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/obscuration.py b/batoid/obscuration.py
index b3e7d72..bc7c98f 100644
--- a/batoid/obscuration.py
+++ b/batoid/obscuration.py
@@ -257,8 +257,8 @@ class ObscPolygon(Obscuration):
     """
 
     def __init__(self, xs, ys):
-        self.xs = np.ascontiguousarray(xs, dtype=float)
-        self.ys = np.ascontiguousarray(ys, dtype=float)
+        self.xs = np.array(xs, dtype=float, order="C")
+        self.ys = np.array(ys, dtype=float, order="C")
         self._obsc = _batoid.CPPObscPolygon(
             self.xs.ctypes.data,
             self.ys.ctypes.data,
-- 
2.43.0


From 2501397da7e6da75420fbc87c0441db973faa2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 22/39] fix: field projections keep the shape of one-element
 arrays

---
 batoid/utils.py | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/batoid/utils.py b/batoid/utils.py
index 7d9b94b..69c2300 100644
--- a/batoid/utils.py
+++ b/batoid/utils.py
@@ -91,11 +91,8 @@ def postelToDirCos(u, v):
     """
     rho = np.sqrt(u*u + v*v)
     wZero = (rho == 0.0)
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     srho = np.sin(rho)
     with np.errstate(invalid='ignore'):
         alpha = u/rho*srho
@@ -130,11 +127,8 @@ def dirCosToPostel(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     rho = np.arccos(-gamma)
     srho = np.sin(rho)
     with np.errstate(invalid='ignore'):
@@ -223,11 +217,8 @@ def stereographicToDirCos(u, v):
     """
     rho = np.sqrt(u*u + v*v)
     wZero = (rho == 0.0)
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     theta = 2*np.arctan(rho/2)
     stheta = np.sin(theta)
     with np.errstate(invalid='ignore'):
@@ -261,11 +252,8 @@ def dirCosToStereographic(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     theta = np.arccos(-gamma)
     rho = 2*np.tan(theta/2)
     stheta = np.sin(theta)
@@ -351,11 +339,8 @@ def lambertToDirCos(u, v):
     """
     rhosqr = u*u + v*v
     wZero = rhosqr == 0.0
-    try:
-        if wZero:
-            return 0.0, 0.0, -1.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0, -1.0
     rho = np.sqrt(rhosqr)
     gamma = (2-rhosqr)/2
     r = np.sqrt(1-gamma*gamma)
@@ -390,11 +375,8 @@ def dirCosToLambert(alpha, beta, gamma):
     orientation is such that vx (vy) is positive when u (v) is positive.
     """
     wZero = (gamma == -1)
-    try:
-        if wZero:
-            return 0.0, 0.0
-    except ValueError:
-        pass
+    if np.ndim(wZero) == 0 and wZero:
+        return 0.0, 0.0
     rho = np.sqrt(2+2*gamma)
     norm = np.sqrt(1-gamma*gamma)
     with np.errstate(invalid='ignore'):
-- 
2.43.0


From e47eb1ab58cc4f6fd896cb5d622d058f1c725054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 23/39] fix: asGrid infers dy from a vector dx by a 90 degree
 rotation, as documented

---
 batoid/rayVector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 8661b71..1feea68 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -371,7 +371,10 @@ class RayVector:
         if nx is not None and ny is None:
             ny = nx
         if dx is not None and dy is None:
-            dy = dx
+            if isinstance(dx, Real):
+                dy = dx
+            else:
+                dy = np.dot(np.array([[0, -1], [1, 0]]), dx)
         if lx is not None and ly is None:
             if isinstance(lx, Real):
                 ly = lx
-- 
2.43.0


From b3ac996076b678ff15e88b217d785654a6104677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 24/39] fix: asGrid with two rays per side keeps the requested
 separation dx

---
 batoid/rayVector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 1feea68..13ec084 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -384,12 +384,13 @@ class RayVector:
         # We need lx, ly, nx, ny for below, so construct these from other
         # arguments if they're not already available.
         if nx is not None and dx is not None:
+            # With n == 2 the two rays are half of the length apart.
             if (nx%2) == 0:
-                lx = dx*(nx-2)
+                lx = dx*(nx-2 if nx > 2 else 2)
             else:
                 lx = dx*(nx-1)
             if (ny%2) == 0:
-                ly = dy*(ny-2)
+                ly = dy*(ny-2 if ny > 2 else 2)
             else:
                 ly = dy*(ny-1)
         elif lx is not None and dx is not None:
-- 
2.43.0


From 7df398987b2b2510846c7c130e93677a032169a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 25/39] fix: asSpokes accepts every documented combination of
 spokes and rings

---
 batoid/rayVector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 13ec084..6ceb786 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -791,13 +791,14 @@ class RayVector:
             elif spacing == 'GQ':
                 if spokes is None:
                     spokes = 2*rings+1
+                nspokes = spokes if isinstance(spokes, Integral) else len(spokes)
                 Li, w = np.polynomial.legendre.leggauss(rings)
                 eps = inner/outer
                 area = np.pi*(1-eps**2)
                 rings = np.sqrt(eps**2 + (1+Li)*(1-eps**2)/2)*outer
-                flux = w*area/(2*spokes)
-            if isinstance(spokes, Integral):
-                spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
+                flux = w*area/(2*nspokes)
+        if isinstance(spokes, Integral):
+            spokes = np.linspace(0, 2*np.pi, spokes, endpoint=False)
         rings, spokes = np.meshgrid(rings, spokes)
         flux = np.broadcast_to(flux, rings.shape)
         rings = rings.ravel()
-- 
2.43.0


From df15780604e30cb4a5d76faf776d2d121fc0e486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 26/39] fix: fromStop does not overwrite the caller's
 coordinates

---
 batoid/rayVector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 6ceb786..5b2601e 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -976,8 +976,10 @@ class RayVector:
         if wavelength is None:
             raise ValueError("Missing wavelength keyword")
 
-        x = np.atleast_1d(x).astype(float, copy=False)
-        y = np.atleast_1d(y).astype(float, copy=False)
+        # The rays own their coordinates, which are transformed in place below.
+        x, y = np.broadcast_arrays(np.atleast_1d(x), np.atleast_1d(y))
+        x = np.array(x, dtype=float, order='C')
+        y = np.array(y, dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
         applyForwardTransformArrays(transform, x, y, z)
-- 
2.43.0


From 7d5233559dfd1fa1ac6d7bd6cba8b6452186d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 27/39] fix: fromFieldAngles does not overwrite the caller's
 field angles

---
 batoid/rayVector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 5b2601e..c578cae 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -1071,9 +1071,9 @@ class RayVector:
 
         vx, vy, vz = fieldToDirCos(theta_x, theta_y, projection=projection)
         n = medium.getN(wavelength)
-        vx /= n
-        vy /= n
-        vz /= n
+        vx = vx/n
+        vy = vy/n
+        vz = vz/n
 
         z = stopSurface.surface.sag(x, y)
         x = np.full_like(vx, x)
-- 
2.43.0


From f21892523f3f9576a85e2bbe71736419c36c63e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 28/39] fix: launched rays start backDist from the vertex of
 the stop surface, as documented

---
 batoid/rayVector.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index c578cae..22594fa 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -438,13 +438,14 @@ class RayVector:
         del xx, yy, stack
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
+        vertex = cls._vertex(stopSurface.surface, transform)
         applyForwardTransformArrays(transform, x, y, z)
         w = np.empty_like(x)
         w.fill(wavelength)
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys, vertex
         )
 
     @classmethod
@@ -637,13 +638,14 @@ class RayVector:
         del rr, th
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
+        vertex = cls._vertex(stopSurface.surface, transform)
         applyForwardTransformArrays(transform, x, y, z)
         w = np.empty_like(x)
         w.fill(wavelength)
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys, vertex
         )
 
     @classmethod
@@ -810,17 +812,27 @@ class RayVector:
         del rings, spokes
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
+        vertex = cls._vertex(stopSurface.surface, transform)
         applyForwardTransformArrays(transform, x, y, z)
         w = np.empty_like(x)
         w.fill(wavelength)
         n = medium.getN(wavelength)
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys, vertex
+        )
+
+    @staticmethod
+    def _vertex(surface, transform):
+        """Transformed point (0, 0, z(0, 0)) of surface."""
+        z = surface.sag(0.0, 0.0)
+        # A surface that does not extend to its vertex is measured from z=0.
+        return transform.applyForwardArray(
+            0.0, 0.0, z if np.isfinite(z) else 0.0
         )
 
     @classmethod
     def _finish(
-        cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+        cls, backDist, source, dirCos, n, x, y, z, w, flux, coordSys, vertex
     ):
         """Map rays backwards to their source position."""
         if isinstance(flux, Real):
@@ -836,7 +848,7 @@ class RayVector:
                 xhat = np.array([0.0, 1.0, 0.0])
             xhat /= np.sqrt(np.dot(xhat, xhat))
             yhat = np.cross(xhat, zhat)
-            origin = zhat*backDist
+            origin = zhat*backDist + vertex
             rot = np.stack([xhat, yhat, zhat]).T
             _batoid.finishParallel(
                 origin, rot.ravel(), vv,
@@ -982,6 +994,7 @@ class RayVector:
         y = np.array(y, dtype=float, order='C')
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
+        vertex = cls._vertex(stopSurface.surface, transform)
         applyForwardTransformArrays(transform, x, y, z)
 
         w = np.empty_like(x)
@@ -989,7 +1002,7 @@ class RayVector:
         n = medium.getN(wavelength)
 
         return cls._finish(
-            backDist, source, dirCos, n, x, y, z, w, flux, coordSys
+            backDist, source, dirCos, n, x, y, z, w, flux, coordSys, vertex
         )
 
     @classmethod
-- 
2.43.0


From 7ee7e7643dad2694c6191fb8e3174c29a36c80ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 29/39] fix: asGrid sides given as vectors are the primitive
 vectors of the grid

---
 batoid/rayVector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/batoid/rayVector.py b/batoid/rayVector.py
index 22594fa..5c7d381 100644
--- a/batoid/rayVector.py
+++ b/batoid/rayVector.py
@@ -433,8 +433,9 @@ class RayVector:
             xx = xx.ravel()
             yy = yy.ravel()
         stack = np.stack([xx, yy])
-        x = np.dot(lx, stack)
-        y = np.dot(ly, stack)
+        # lx and ly are the vectors along the two sides of the grid.
+        x = np.dot((lx[0], ly[0]), stack)
+        y = np.dot((lx[1], ly[1]), stack)
         del xx, yy, stack
         z = stopSurface.surface.sag(x, y)
         transform = CoordTransform(stopSurface.coordSys, coordSys)
-- 
2.43.0


From be2d20f958a73604568322bf2448aeb23843c543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 30/39] fix: parsing a description does not consume it

---
 batoid/parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/batoid/parse.py b/batoid/parse.py
index 6e0c039..a78c911 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -4,6 +4,8 @@ import numpy as np
 
 
 def parse_obscuration(config):
+    # Do not consume the caller's dict; it may be referenced again.
+    config = dict(**config)
     typ = config.pop('type')
     if typ in [
         'ObscCircle', 'ObscAnnulus', 'ObscRay', 'ObscRectangle', 'ObscPolygon'
@@ -26,6 +28,8 @@ def parse_obscuration(config):
 
 
 def parse_surface(config):
+    # Do not consume the caller's dict; it may be referenced again.
+    config = dict(**config)
     typ = config.pop('type')
     if typ == 'Sum':
         items = [parse_surface(c) for c in config['items']]
@@ -96,6 +100,8 @@ def parse_optic(config,
     @param inMedium  default in Medium, often set by optic parent
     @param outMedium default out Medium, often set by optic parent
     """
+    # Do not consume the caller's dict; it may be referenced again.
+    config = dict(**config)
     if 'obscuration' in config:
         obscuration = parse_obscuration(config.pop('obscuration'))
     else:
-- 
2.43.0


From e2e95a8414a3b7928288083d57cabcda69b171e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 31/39] fix: a parsed Interface keeps its obscuration and media

---
 batoid/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/parse.py b/batoid/parse.py
index a78c911..249bd4d 100644
--- a/batoid/parse.py
+++ b/batoid/parse.py
@@ -214,7 +214,8 @@ def parse_optic(config,
         surface = parse_surface(config.pop('surface'))
         return batoid.optic.Interface(
             surface, name=name,
-            coordSys=coordSys,
+            coordSys=coordSys, obscuration=obscuration,
+            inMedium=inMedium, outMedium=outMedium,
             **kwargs
         )
     else:
-- 
2.43.0


From 673f7f5040cbad39fe7ab9f9ffe3914277c25d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:58 +0000
Subject: [PATCH 32/39] fix: PFS.yaml's exponents are numbers to a YAML parser

---
 batoid/data/PFS/PFS.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/data/PFS/PFS.yaml b/batoid/data/PFS/PFS.yaml
index 8b499d6..6df43ed 100644
--- a/batoid/data/PFS/PFS.yaml
+++ b/batoid/data/PFS/PFS.yaml
@@ -152,7 +152,7 @@ opticalSystem:
             type: Asphere
             R: -0.8160784449707
             conic: 0.0
-            coefs: [15.794016512640001, 1.096767066453e5, -5.9917366145880001e7, 1.119542606394e10]
+            coefs: [15.794016512640001, 1.096767066453e+5, -5.9917366145880001e+7, 1.119542606394e+10]
           obscuration:
             type: ClearCircle
             radius: 0.045264242758568948
-- 
2.43.0


From ce2648455e13249e2c52c65fa9f0a0b791d34934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 33/39] fix: lattice vectors of a sheared PSF lattice are
 reciprocal to the pupil's

---
 batoid/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 06f2d2c..6a36d70 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -7,8 +7,8 @@ from .utils import bilinear_fit, fieldToDirCos
 
 def _reciprocalLatticeVectors(a1, a2, N):
     norm = 2*np.pi/(a1[0]*a2[1] - a1[1]*a2[0])/N
-    b1 = norm*np.array([a2[1], a2[0]])
-    b2 = norm*np.array([a1[1], a1[0]])
+    b1 = norm*np.array([a2[1], -a2[0]])
+    b2 = norm*np.array([-a1[1], a1[0]])
     return b1, b2
 
 
-- 
2.43.0


From 9dedb090086898e66608492081fd6abb71666c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 34/39] fix: fftPSF with an odd number of rays per side

---
 batoid/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 6a36d70..92fc6cd 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -458,7 +458,7 @@ def fftPSF(
     pad_size = nx*pad_factor
     expwf = np.zeros((pad_size, pad_size), dtype=np.complex128)
     start = pad_size//2-nx//2
-    stop = pad_size//2+nx//2
+    stop = start+nx
     expwf[start:stop, start:stop][~wfarr.mask] = \
         np.exp(2j*np.pi*wfarr[~wfarr.mask])
     psf = np.abs(np.fft.fftshift(np.fft.fft2(expwf)))**2
-- 
2.43.0


From d1137fbb4d05ea4791d5a3fab5fba2b11cf4611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:13 +0000
Subject: [PATCH 35/39] fix: zernikeGQ traces the chief ray of a rotated optic
 in the optic's own frame

---
 batoid/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batoid/analysis.py b/batoid/analysis.py
index 92fc6cd..e12896c 100644
--- a/batoid/analysis.py
+++ b/batoid/analysis.py
@@ -675,7 +675,8 @@ def zernikeGQ(
             backDist=optic.backDist, wavelength=wavelength,
             dirCos=dirCos,
             medium=optic.inMedium,
-            stopSurface=optic.stopSurface
+            stopSurface=optic.stopSurface,
+            coordSys=optic.coordSys
         )
         optic.trace(chiefRay)
         point = chiefRay.r[0]
-- 
2.43.0


From 3e78252835bb17aa512b96b95f5faef518663bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 36/39] fix: Sphere and Paraboloid intersection of rays
 starting exactly on the surface

---
 src/paraboloid.cpp | 12 +++++-------
 src/sphere.cpp     | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/paraboloid.cpp b/src/paraboloid.cpp
index d282c95..3933733 100644
--- a/src/paraboloid.cpp
+++ b/src/paraboloid.cpp
@@ -43,7 +43,6 @@ namespace batoid {
         double a = (vx*vx + vy*vy)*_2Rinv;
         double b = (x*vx + y*vy)*_Rinv - vz;
         double c = (x*x + y*y)*_2Rinv - z;
-        double dt1;
 
         if (a == 0) {
             // Ray is heading straight at optic axis.
@@ -56,12 +55,11 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        // Neither root is obtained from the other, since either may be zero (ray
+        // starting on the paraboloid).
+        double q = (b > 0) ? -b - sqrt(discriminant) : -b + sqrt(discriminant);
+        double dt1 = q / (2*a);
+        double dt2 = (q != 0.0) ? 2*c / q : dt1;
 
         // If vz down and paraboloid concave up, then pick greatest time;
         // I.e., intersection closest to the origin.
diff --git a/src/sphere.cpp b/src/sphere.cpp
index d0f505f..dd0df00 100644
--- a/src/sphere.cpp
+++ b/src/sphere.cpp
@@ -53,13 +53,11 @@ namespace batoid {
         if (discriminant < 0)
             return false;
 
-        double dt1;
-        if (b > 0) {
-            dt1 = (-b - sqrt(discriminant)) / (2*a);
-        } else {
-            dt1 = 2*c / (-b + sqrt(discriminant));
-        }
-        double dt2 = c / (a*dt1);
+        // Neither root is obtained from the other, since either may be zero (ray
+        // starting on the sphere).
+        double q = (b > 0) ? -b - sqrt(discriminant) : -b + sqrt(discriminant);
+        double dt1 = q / (2*a);
+        double dt2 = (q != 0.0) ? 2*c / q : dt1;
 
         // If vz < 0, R > 0, want greatest time.
         dt = (vz*_R < 0) ? std::max(dt1, dt2) : std::min(dt1, dt2);
-- 
2.43.0


From 145393b88823b3b8c5ff815a637598d79d403db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 37/39] fix: get3dmesh of a system containing an interface
 without a radius

---
 batoid/optic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 27edde6..1452012 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1298,10 +1298,15 @@ class CompoundOptic(Optic):
         ys = []
         zs = []
         for item in self.items:
-            x, y, z = item.get3dmesh()
+            mesh = item.get3dmesh()
+            if mesh is None:  # Item has no outline to draw.
+                continue
+            x, y, z = mesh
             xs.append(x)
             ys.append(y)
             zs.append(z)
+        if not xs:
+            return
         return np.hstack(xs), np.hstack(ys), np.hstack(zs)
 
     def draw2d(self, ax, **kwargs):
-- 
2.43.0


From 427806c358c34ba89ae14ac1248cecd0d65930c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:56 +0000
Subject: [PATCH 38/39] fix: draw2d accepts the documented list of types to
 draw

---
 batoid/optic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/batoid/optic.py b/batoid/optic.py
index 1452012..1b3a62d 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1328,6 +1328,8 @@ class CompoundOptic(Optic):
             Default: None means to draw all types.
         """
         only = kwargs.pop('only', None)
+        if isinstance(only, list):  # issubclass wants a tuple
+            only = tuple(only)
         for item in self.items:
             item_class = item.__class__
             if issubclass(item_class, CompoundOptic):
-- 
2.43.0


From 50bdf7adb691af05a1b29b20d793988dce9341ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:48 +0000
Subject: [PATCH 39/39] fix: repr of a CompoundOptic without items

---
 batoid/optic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/batoid/optic.py b/batoid/optic.py
index 1b3a62d..be5492f 100644
--- a/batoid/optic.py
+++ b/batoid/optic.py
@@ -1355,9 +1355,8 @@ class CompoundOptic(Optic):
 
     def __repr__(self):
         out = "{!s}([".format(self.__class__.__name__)
-        for item in self.items[:-1]:
-            out += "{!r}, ".format(item)
-        out += "{!r}]".format(self.items[-1])
+        out += ", ".join(repr(item) for item in self.items)
+        out += "]"
         out += Optic._repr_helper(self)
         out += ")"
         return out
-- 
2.43.0

