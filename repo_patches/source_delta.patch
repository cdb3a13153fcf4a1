From 7b62737eb40c0ee7c5837983c575538a82ec59a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:29 +0000
Subject: [PATCH 01/97] fix: compare bounding boxes by their edges, not by hash

---
 coral/bbox.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 4478869..722e279 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -57,7 +57,10 @@ class BBox:
         return hash((self.x0, self.y0, self.x1, self.y1))
 
     def __eq__(self, other):
-        return hash(self) == hash(other)
+        if not isinstance(other, BBox):
+            return NotImplemented
+        return ((self.x0, self.y0, self.x1, self.y1) ==
+                (other.x0, other.y0, other.x1, other.y1))
 
     def __lt__(self, other):
         return self.area() < other.area()
-- 
2.43.0


From 975ca9acc7be8ead8c5f150d507145814705da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:29 +0000
Subject: [PATCH 02/97] fix: keep boxes of horizontal and vertical lines in
 unions

---
 coral/bbox.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/bbox.py b/coral/bbox.py
index 722e279..41cf015 100644
--- a/coral/bbox.py
+++ b/coral/bbox.py
@@ -68,9 +68,13 @@ class BBox:
     def __bool__(self):
         return bool(self.area())
 
+    def _isnull(self):
+        # A box with only one extent (e.g. of an horizontal line) is not null.
+        return self.x0 == self.x1 and self.y0 == self.y1
+
     def __or__(self, other):
-        if not self: return other
-        if not other: return self
+        if not other and (other is None or other._isnull()): return self
+        if self._isnull(): return other
         x0 = min(self.x0, other.x0)
         y0 = min(self.y0, other.y0)
         x1 = max(self.x1, other.x1)
-- 
2.43.0


From aae5db68dbe3fe2ff71b97874e23311650f49d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 03/97] fix: simplify open paths of zero or one point

---
 coral/coord.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index cca69f2..1395742 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -248,9 +248,13 @@ def sqr_fit(s, m):
 
 def open_no_slit(s, k):
     b = Buffer(k)
-    p = next(s)
+    p = next(s, None)
+    if p is None:
+        return
     yield p
-    q = next(s)
+    q = next(s, None)
+    if q is None:
+        return
     for r in s:
         if r == q:
             continue
-- 
2.43.0


From 2244c3ab6f5b31e188f1ac8a12ae61cfbe5559f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 04/97] fix: keep the corner where a removed slit leaves the
 path

---
 coral/coord.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 1395742..bab96b1 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -255,15 +255,21 @@ def open_no_slit(s, k):
     q = next(s, None)
     if q is None:
         return
+    last = p
     for r in s:
         if r == q:
             continue
         if not collinear(p, q, r):
             if not b.isempty() and q == b.peek():
+                # A slit ends here; q may still be a corner without it.
                 b.pop()
+                o = last if b.isempty() else b.peek()
+                if not collinear(o, q, r):
+                    b.push(q)
             else:
                 if b.isfull():
-                    yield b.shift()
+                    last = b.shift()
+                    yield last
                 b.push(q)
         p, q = q, r
     while not b.isempty():
-- 
2.43.0


From 909b3e975f240fa544d9914c3e256184e874960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:50 +0000
Subject: [PATCH 05/97] fix: yield the corners of a simplified ring in order

---
 coral/coord.py | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index bab96b1..ecb8636 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -277,38 +277,52 @@ def open_no_slit(s, k):
     yield q
 
 def closed_no_slit(s, k):
+    # b1 holds the latest corners and b2 the earliest ones (after the first
+    # point), so that slits can be removed across the seam of the ring. What
+    # comes in between is yielded first: the ring is rotated, not reordered.
     b1 = Buffer(k)
     b2 = Buffer(k)
-    p = next(s)
-    yield p
-    q = next(s)
+    p = next(s, None)
+    if p is None:
+        return
+    first = last = p
+    q = next(s, first)
     for r in s:
         if r == q:
             continue
         if not collinear(p, q, r):
             if not b1.isempty() and q == b1.peek():
+                # A slit ends here; q may still be a corner without it.
                 b1.pop()
+                o = last if b1.isempty() else b1.peek()
+                if not collinear(o, q, r):
+                    b1.push(q)
             else:
                 if b1.isfull():
-                    t = b1.shift()
+                    last = b1.shift()
                     if b2.isfull():
-                        yield t
+                        yield last
                     else:
-                        b2.push(t)
+                        b2.push(last)
                 b1.push(q)
         p, q = q, r
-    while not (b1.isempty() or b2.isempty()):
-        p = b1.pop()
-        q = b2.shift()
-        if p != q:
-            break
+    if q == first:
+        seam = [q]
+        while not (b1.isempty() or b2.isempty()):
+            p = b1.pop()
+            q = b2.shift()
+            if p != q:
+                seam = [p] + seam + [q]
+                break
+            seam = [p]
+    else:
+        seam = [q, first]
     while not b1.isempty():
         yield b1.shift()
-    yield p
-    yield q
+    for p in seam:
+        yield p
     while not b2.isempty():
         yield b2.shift()
-    yield r
 
 def simplify(xys, scl, closed=False, k=8):
     s = sqr_fit(xys, scl)
-- 
2.43.0


From 37f678af1041e7d61f71cbd6b2b5922b875783de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:37 +0000
Subject: [PATCH 06/97] fix: oblique Mercator beyond 90 degrees of its origin

---
 coral/proj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 0164943..1537c18 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -198,7 +198,7 @@ class ObliqMercator(Proj):
         a = s * math.sin(lat) - c * math.cos(lat) * math.sin(lon - self.lon0)
         v = math.tan(lat) * c + s * math.sin(lon - self.lon0)
         h = math.cos(lon - self.lon0)
-        x = self.r * math.atan(v / h)
+        x = self.r * math.atan2(v, h)
         y = self.r * math.atanh(a)
         return x, y
 
@@ -208,7 +208,7 @@ class ObliqMercator(Proj):
         lat = math.asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
         v = s * math.sin(xr) - c * math.sinh(yr)
         h = math.cos(xr)
-        lon = self.lon0 + math.atan(v / h)
+        lon = self.lon0 + math.atan2(v, h)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 7baf50451a638cc1dc754b3ba8a1e78804d5e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:37 +0000
Subject: [PATCH 07/97] fix: choose the right quadrant in azimuthal inverse
 projections

---
 coral/proj.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 1537c18..3d102c3 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -279,17 +279,16 @@ class Stereographic(Proj):
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -327,17 +326,16 @@ class AzimuthalEquidistant(Proj):
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
@@ -370,17 +368,16 @@ class AzimuthalEqualArea(Proj):
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-        # FIXME: In the formulas below, should it be atan or atan2?
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
-            lon = self.lon0 + math.atan(x/(-y))
+            lon = self.lon0 + math.atan2(x, -y)
         elif self.lat0 == -math.pi / 2:
             # South Polar Aspect.
-            lon = self.lon0 + math.atan(x/y)
+            lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
-            lon = self.lon0 + math.atan(x * sinc / den)
+            lon = self.lon0 + math.atan2(x * sinc, den)
         lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
-- 
2.43.0


From d74339a47317729852f98fd028f3dabc2834d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:37 +0000
Subject: [PATCH 08/97] fix: invert the center of azimuthal projections

---
 coral/proj.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/coral/proj.py b/coral/proj.py
index 3d102c3..7700e84 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -276,6 +276,9 @@ class Stereographic(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            # The center itself, where the formulas below are undefined.
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
@@ -323,6 +326,9 @@ class AzimuthalEquidistant(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            # The center itself, where the formulas below are undefined.
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
@@ -365,6 +371,9 @@ class AzimuthalEqualArea(Proj):
 
     def rect2geo(self, x, y):
         p = math.sqrt(x*x + y*y)
+        if p == 0:
+            # The center itself, where the formulas below are undefined.
+            return math.degrees(self.lon0), math.degrees(self.lat0)
         c = 2 * math.asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
-- 
2.43.0


From e83655d1c0fd00273cca2c296afa59f678b5cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:37 +0000
Subject: [PATCH 09/97] fix: azimuthal equidistant projection of the center,
 however given

---
 coral/proj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 7700e84..b51c1d8 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -309,15 +309,15 @@ class AzimuthalEquidistant(Proj):
 
     def geo2rect(self, lon, lat):
         lon, lat = math.radians(lon), math.radians(lat)
-        if (lon, lat) == (self.lon0, self.lat0):
-            # This shortcut avoid division by zero on the k formula below.
-            return 0, 0
         coslat = math.cos(lat)
         sinlat = math.sin(lat)
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
-        c = math.acos(cosc)
+        c = math.acos(min(max(cosc, -1), 1))
+        if c == 0:
+            # This shortcut avoid division by zero on the k formula below.
+            return 0, 0
         k = c / math.sin(c)
         x = y = self.r * k
         x *= coslat * sinlon
-- 
2.43.0


From 58cc2ffc53a737ba2c5147fb5488bf6f1ad9b056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:57 +0000
Subject: [PATCH 10/97] fix: tolerate rounding errors in projections, and
 equidistant centers

---
 coral/proj.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index b51c1d8..629ba4b 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -33,6 +33,10 @@ def corangle(a):
         a -= 2 * math.pi
     return a
 
+def asin(v):
+    "Arc sine of a value that may exceed [-1, 1] due to rounding errors."
+    return math.asin(min(max(v, -1), 1))
+
 class ProjectionError(Exception): pass
 
 # See http://www.epsg-registry.org/ for datums.
@@ -179,7 +183,7 @@ class TransMercator(Proj):
     def rect2geo(self, x, y):
         d = y / self.r + self.lat0
         lon = self.lon0 + math.atan2(math.sinh(x / self.r), math.cos(d))
-        lat = math.asin(math.sin(d) / math.cosh(x / self.r))
+        lat = asin(math.sin(d) / math.cosh(x / self.r))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -205,7 +209,7 @@ class ObliqMercator(Proj):
     def rect2geo(self, x, y):
         c, s = math.cos(self.lat0), math.sin(self.lat0)
         xr, yr = x / self.r, y / self.r
-        lat = math.asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
+        lat = asin(s * math.tanh(yr) + c * math.sin(xr) / math.cosh(yr))
         v = s * math.sin(xr) - c * math.sinh(yr)
         h = math.cos(xr)
         lon = self.lon0 + math.atan2(v, h)
@@ -243,11 +247,11 @@ class EckertIV(Proj):
         return x, y
 
     def rect2geo(self, x, y):
-        theta = math.asin(y / (self.CY * self.r))
+        theta = asin(y / (self.CY * self.r))
         costheta = math.cos(theta)
         sintheta = math.sin(theta)
         lon = self.lon0 + x / (self.CX * self.r * (1 + costheta))
-        lat = math.asin((theta + sintheta * costheta + 2 * sintheta) / self.C)
+        lat = asin((theta + sintheta * costheta + 2 * sintheta) / self.C)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -292,7 +296,7 @@ class Stereographic(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        lat = asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -315,10 +319,8 @@ class AzimuthalEquidistant(Proj):
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
         c = math.acos(min(max(cosc, -1), 1))
-        if c == 0:
-            # This shortcut avoid division by zero on the k formula below.
-            return 0, 0
-        k = c / math.sin(c)
+        # The limit at the center avoids a division by zero.
+        k = c / math.sin(c) if c else 1
         x = y = self.r * k
         x *= coslat * sinlon
         y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
@@ -342,7 +344,7 @@ class AzimuthalEquidistant(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        lat = asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -374,7 +376,7 @@ class AzimuthalEqualArea(Proj):
         if p == 0:
             # The center itself, where the formulas below are undefined.
             return math.degrees(self.lon0), math.degrees(self.lat0)
-        c = 2 * math.asin(p / (2 * self.r))
+        c = 2 * asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
         if self.lat0 == math.pi / 2:
@@ -387,7 +389,7 @@ class AzimuthalEqualArea(Proj):
             # Any other Oblique Aspect.
             den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = math.asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        lat = asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -410,7 +412,7 @@ class ConicEqualArea(CProj):
     def geo2rect(self, lon, lat):
         lon, lat = math.radians(lon), math.radians(lat)
         sinlat = math.sin(lat)
-        p = self.r * math.sqrt(self.c - 2 * self.n * sinlat) / self.n
+        p = self.r * math.sqrt(max(self.c - 2 * self.n * sinlat, 0)) / self.n
         t = self.n * lon
         x = p * math.sin(t)
         y = self.p0 - p * math.cos(t)
@@ -426,7 +428,7 @@ class ConicEqualArea(CProj):
         t = math.atan2(x, p0 - y)
         lon = t / self.n
         pnr = p * self.n / self.r
-        lat = math.asin((self.c - pnr*pnr) / (2 * self.n))
+        lat = asin((self.c - pnr*pnr) / (2 * self.n))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 14173067ce3f1dbca183a578dee6015c3c4cdc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:33 +0000
Subject: [PATCH 11/97] fix: leave the caller's list of gradient stops alone

---
 coral/gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/gradient.py b/coral/gradient.py
index 2979ae8..dd12d52 100644
--- a/coral/gradient.py
+++ b/coral/gradient.py
@@ -23,7 +23,7 @@ import bisect
 class Gradient:
 
     def __init__(self, points):
-        points.sort(key=lambda p: p[0])
+        points = sorted(points, key=lambda p: p[0])
         if points[0][0] > 0:
             points.insert(0, (0, points[0][1]))
         if points[-1][0] < 1:
-- 
2.43.0


From 7885e3da68f0fd4322b9dadf7d2152ae3988ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:16 +0000
Subject: [PATCH 12/97] fix: let geocentroid converge when the centroid is at a
 pole

---
 coral/coord.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index ecb8636..9214059 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -213,7 +213,8 @@ def geocentroid(region, bb=None, epsilon=None):
         cx /= sw
         cy /= sw
         c1 = prj.rect2geo(cx, cy)
-        if abs(c1[0] - c0[0]) <= epsilon and abs(c1[1] - c0[1]) <= epsilon:
+        # Compare on the plane, for longitudes mean nothing at the poles.
+        if math.hypot(cx, cy) <= prj.r * math.radians(epsilon):
             break
         c0 = c1
     return c1
-- 
2.43.0


From 2109f0c48c92a892832cc3432161cab7289fa88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:16 +0000
Subject: [PATCH 13/97] fix: find centroids of regions across the antimeridian

---
 coral/coord.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 9214059..1493edc 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -28,7 +28,7 @@ Spherical Geometry and Polyline simplification.
 import math
 import itertools
 
-from . import bbox, proj
+from . import proj
 
 corangle = proj.corangle
 
@@ -183,12 +183,21 @@ def midpoint(lon1, lat1, lon2, lat2):
 
 def geocentroid(region, bb=None, epsilon=None):
     # region is a list of polygons in geographic coordinates.
-    if bb is None:
-        for poly in region:
-            bb = bbox.BBox(poly) | bb
     if epsilon is None:
         epsilon = 1e-10
-    c0 = bb.center()
+    if bb is None:
+        # Start at the mean direction of all vertices: the center of their
+        # bounding box is antipodal to regions across the antimeridian.
+        x = y = z = 0
+        for lon, lat in itertools.chain.from_iterable(region):
+            lon, lat = math.radians(lon), math.radians(lat)
+            x += math.cos(lat) * math.cos(lon)
+            y += math.cos(lat) * math.sin(lon)
+            z += math.sin(lat)
+        lat = math.atan2(z, math.hypot(x, y))
+        c0 = math.degrees(math.atan2(y, x)), math.degrees(lat)
+    else:
+        c0 = bb.center()
     while True:
         prj = proj.AzimuthalEqualArea(c0)
         cw = []
-- 
2.43.0


From 33da216dbf805a03617b399a8766bb34b7bef371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:52 +0000
Subject: [PATCH 14/97] fix: longitude of destinations that start at a pole

---
 coral/coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 1493edc..73c9238 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -157,7 +157,7 @@ def destination(lon, lat, bear, dist, R=None):
     costc = math.cos(tc)
     sintc = math.sin(tc)
     lat = math.asin(sinlat*cosd + coslat*sind*costc)
-    dlon = math.atan2(sintc*sind*coslat, cosd - sinlat*math.sin(lat))
+    dlon = math.atan2(sintc*sind, coslat*cosd - sinlat*sind*costc)
     lon = corangle(rlon - dlon)
     lon, lat = math.degrees(lon), math.degrees(lat)
     return lon, lat
-- 
2.43.0


From 327c3aec61dbc74fa10ef4aba71cbeadbed51754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:52 +0000
Subject: [PATCH 15/97] fix: accurate latitudes near the poles in azimuthal
 inverse projections

---
 coral/proj.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 629ba4b..30f12b5 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -286,6 +286,7 @@ class Stereographic(Proj):
         c = 2 * math.atan(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
+        den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
             lon = self.lon0 + math.atan2(x, -y)
@@ -294,9 +295,9 @@ class Stereographic(Proj):
             lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
-            den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        num = p * self.sinlat0 * cosc + y * self.coslat0 * sinc
+        lat = math.atan2(num, math.hypot(den, x * sinc))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -334,6 +335,7 @@ class AzimuthalEquidistant(Proj):
         c = p / self.r
         cosc = math.cos(c)
         sinc = math.sin(c)
+        den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
             lon = self.lon0 + math.atan2(x, -y)
@@ -342,9 +344,9 @@ class AzimuthalEquidistant(Proj):
             lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
-            den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        num = p * self.sinlat0 * cosc + y * self.coslat0 * sinc
+        lat = math.atan2(num, math.hypot(den, x * sinc))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
@@ -379,6 +381,7 @@ class AzimuthalEqualArea(Proj):
         c = 2 * asin(p / (2 * self.r))
         cosc = math.cos(c)
         sinc = math.sin(c)
+        den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
         if self.lat0 == math.pi / 2:
             # North Polar Aspect.
             lon = self.lon0 + math.atan2(x, -y)
@@ -387,9 +390,9 @@ class AzimuthalEqualArea(Proj):
             lon = self.lon0 + math.atan2(x, y)
         else:
             # Any other Oblique Aspect.
-            den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
             lon = self.lon0 + math.atan2(x * sinc, den)
-        lat = asin(cosc * self.sinlat0 + y * sinc * self.coslat0 / p)
+        num = p * self.sinlat0 * cosc + y * self.coslat0 * sinc
+        lat = math.atan2(num, math.hypot(den, x * sinc))
         lon, lat = math.degrees(lon), math.degrees(lat)
         return lon, lat
 
-- 
2.43.0


From 369252cc8ea3c0db2cf4340eb007317bf356bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:29 +0000
Subject: [PATCH 16/97] fix: encode and decode integer fields

---
 coral/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/grid.py b/coral/grid.py
index 6c4bfe2..de4d573 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -41,6 +41,7 @@ class IVar:
             self.size = 8
         else:
             raise ValueError
+        self.fmt = '>' + SIZE_FORMAT[self.size]
         self.span = SIZE_SPAN[self.size]
         if nullable:
             self.span -= 1
-- 
2.43.0


From c4ce608f80fa55dc8865116ee0924133b0b006e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:29 +0000
Subject: [PATCH 17/97] fix: keep the largest value and null within the field
 size

---
 coral/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/grid.py b/coral/grid.py
index de4d573..9fb7649 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -42,7 +42,7 @@ class IVar:
         else:
             raise ValueError
         self.fmt = '>' + SIZE_FORMAT[self.size]
-        self.span = SIZE_SPAN[self.size]
+        self.span = SIZE_SPAN[self.size] - 1
         if nullable:
             self.span -= 1
         self.nullable = nullable
@@ -87,7 +87,7 @@ class FVar:
         self.maxv = maxv
         self.size = size
         self.delta = maxv - minv
-        self.span = SIZE_SPAN[size]
+        self.span = SIZE_SPAN[size] - 1
         if nullable:
             self.span -= 1
         self.nullable = nullable
-- 
2.43.0


From 61964f4bc9573cc443809b15c5d645dc1a45488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:29 +0000
Subject: [PATCH 18/97] fix: import collections in rg

---
 coral/rg.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/rg.py b/coral/rg.py
index 3ab2857..01be947 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -81,6 +81,7 @@ Note that the method Reader.read() takes an ID optionally. If one doesn't
 #   s.seek(offset, io.SEEK_END) seeks from the end of the stream
 import io
 import struct
+import collections
 
 from .grid import IVar, FVar, SVar, GRow
 
-- 
2.43.0


From bb89715ae4d15102110e38312e2bb47daf78b631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:29 +0000
Subject: [PATCH 19/97] fix: read back ids with blanks and entities without
 segments

---
 coral/rg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index 01be947..59e25ae 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -135,9 +135,9 @@ def _readindex(path):
     with open(path, "r") as md:
         n = int(md.readline())
         for i in range(n):
-            eid, ensegs = md.readline().split(" ")
+            eid, ensegs = md.readline().rsplit(" ", 1)
             ensegs = int(ensegs)
-            elens = [int(s) for s in md.readline().split(" ")]
+            elens = [int(s) for s in md.readline().split()]
             index.append((eid, elens))
     return index
 
-- 
2.43.0


From 9ebf174006c8079db977f70fc01d749ef6c25604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 20/97] fix: write no rows of a refused RangeGrid entity

---
 coral/rg.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index 59e25ae..ec46406 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -183,13 +183,15 @@ class Writer:
         if id_ is None:
             id_ = len(self.index)
         lens = []
+        data = []
         for rows in segs:
             length = 0
             for r in rows:
-                data = self.row.encode(*r)
-                rg.write(data)
+                data.append(self.row.encode(*r))
                 length += 1
             lens.append(length)
+        # Nothing is written unless the whole entity can be encoded.
+        rg.write(b''.join(data))
         self.index.append((id_, lens))
 
     def close(self):
-- 
2.43.0


From e4f1d6dd65f02c42168fda0f1c390a686c5b9c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 21/97] fix: detect truncated RangeGrid files

---
 coral/rg.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/coral/rg.py b/coral/rg.py
index ec46406..da0a6cf 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -130,14 +130,26 @@ def _writeindex(path, index):
             md.write("{} {}\n".format(eid, len(elens)))
             md.write(" ".join(str(length) for length in elens) + '\n')
 
+def _read(f, n):
+    data = f.read(n)
+    if len(data) != n:
+        raise EOFError("unexpected end of file")
+    return data
+
+def _readline(f):
+    line = f.readline()
+    if not line.endswith("\n"):
+        raise EOFError("unexpected end of file")
+    return line
+
 def _readindex(path):
     index = []
     with open(path, "r") as md:
-        n = int(md.readline())
+        n = int(_readline(md))
         for i in range(n):
-            eid, ensegs = md.readline().rsplit(" ", 1)
+            eid, ensegs = _readline(md).rsplit(" ", 1)
             ensegs = int(ensegs)
-            elens = [int(s) for s in md.readline().split()]
+            elens = [int(s) for s in _readline(md).split()]
             index.append((eid, elens))
     return index
 
@@ -224,10 +236,10 @@ class Reader:
         fields = [None] * ncols
         for i in range(ncols):
             bs = b''
-            b = rg.read(1)
+            b = _read(rg, 1)
             while b != b'\x00':
                 bs += b
-                b = rg.read(1)
+                b = _read(rg, 1)
             name = bs.decode("ascii")
             tp = ord(rg.read(1))
             if tp == INTEGER:
@@ -267,7 +279,7 @@ class Reader:
             rg.seek(self.datapos + offset)
         segs = []
         for nrows in self.index[self.idx][1]:
-            rows = [self.nt(*self.row.decode(rg.read(self.row.size))) for i in range(nrows)]
+            rows = [self.nt(*self.row.decode(_read(rg, self.row.size))) for i in range(nrows)]
             segs.append(rows)
         self.idx += 1
         return segs
-- 
2.43.0


From a6e4869a46a7f4ee20cc197abbb3f1dc52fc2eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 22/97] fix: never pair new RangeGrid data with an old index

---
 coral/rg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/coral/rg.py b/coral/rg.py
index da0a6cf..e0a99ff 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -80,6 +80,7 @@ Note that the method Reader.read() takes an ID optionally. If one doesn't
 #   s.seek(offset, io.SEEK_CUR) seeks from current position
 #   s.seek(offset, io.SEEK_END) seeks from the end of the stream
 import io
+import os
 import struct
 import collections
 
@@ -157,6 +158,9 @@ class Writer:
 
     def __init__(self, path, row):
         self.path = path
+        # An index of older data must never be paired with the new data.
+        if os.path.exists(self.path + ".md"):
+            os.remove(self.path + ".md")
         self.rg = open(self.path + ".rg", "wb")
         assert self.rg.seekable()
         self.row = row
-- 
2.43.0


From a8eff63a1a406c8322db3aa161930e3e3073bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:10 +0000
Subject: [PATCH 23/97] fix: endless loop on latitudes over 90 in pf

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index 7e301ac..c3e2553 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -172,7 +172,7 @@ class Writer:
                 while lat < -90:
                     lat += 180
                 while lat > 90:
-                    lat += 180
+                    lat -= 180
                 parts[i][j] = (lon, lat)
         nparts = len(parts)
         for i in range(nparts):
-- 
2.43.0


From 35684b555fbd29ec9c199a144ee7479421e60b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:10 +0000
Subject: [PATCH 24/97] fix: keep polygons of a single point in P files

---
 coral/pf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index c3e2553..73c486f 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -177,7 +177,7 @@ class Writer:
         nparts = len(parts)
         for i in range(nparts):
             part = parts[i]
-            if part[0] == part[-1]:
+            if part[0] == part[-1] and len(part) > 1:
                 part = part[:-1]
                 parts[i] = part
         self.names.append(name)
-- 
2.43.0


From fedeb1594ac9000c29977d5c209b1ebbeb903471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:10 +0000
Subject: [PATCH 25/97] fix: keep nothing of refused entities in P files

---
 coral/pf.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/coral/pf.py b/coral/pf.py
index 73c486f..940a4e5 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -161,6 +161,7 @@ class Writer:
         self.fmt, self.umax = getfmt(size)
 
     def write(self, name, polygons):
+        name.encode("ascii")
         # Do not repeat first point at the end.
         parts = [[None] * len(polygon) for polygon in polygons]
         for i, polygon in enumerate(polygons):
@@ -180,16 +181,8 @@ class Writer:
             if part[0] == part[-1] and len(part) > 1:
                 part = part[:-1]
                 parts[i] = part
-        self.names.append(name)
-        bb = None
-        partlen = []
-        for part in parts:
-            if bb is None:
-                bb = bbox.BBox(part)
-            else:
-                bb |= bbox.BBox(part)
-            partlen.append(len(part))
-        self.partlens.append(partlen)
+        bb = bbox.BBox(point for part in parts for point in part)
+        partlen = [len(part) for part in parts]
         x0 = math.floor((bb.x0 + 180) * UMAX2 / 360)
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
@@ -197,11 +190,13 @@ class Writer:
         if any(not 0 <= v <= UMAX2 for v in (x0, x1, y0, y1)):
             print(bb)
             print((x0, x1, y0, y1))
-        self.bboxes.append((x0, x1, y0, y1))
+        box = x0, x1, y0, y1
         x0 = x0 * 360 / UMAX2 - 180
         x1 = x1 * 360 / UMAX2 - 180
         y0 = y0 * 180 / UMAX2 - 90
         y1 = y1 * 180 / UMAX2 - 90
+        errs = []
+        buffers = []
         for part in parts:
             for point in part:
                 lon1, lat1 = point
@@ -211,8 +206,14 @@ class Writer:
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
                 err = coord.haversine(lon1, lat1, lon2, lat2)
-                self.errs.append(err)
-                self.buffers.append(data)
+                errs.append(err)
+                buffers.append(data)
+        # Nothing is kept of an entity that can not be written.
+        self.names.append(name)
+        self.partlens.append(partlen)
+        self.bboxes.append(box)
+        self.errs += errs
+        self.buffers += buffers
 
     def close(self):
         with open(self.path, "wb") as pf:
-- 
2.43.0


From 961f726b0b4f92d0ca7d3924a9419ad26469953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:10 +0000
Subject: [PATCH 26/97] fix: write P file entities without width or height

---
 coral/pf.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 940a4e5..09cb922 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -187,6 +187,17 @@ class Writer:
         x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)
         y0 = math.floor((bb.y0 + 90) * UMAX2 / 180)
         y1 = math.ceil((bb.y1 + 90) * UMAX2 / 180)
+        # Avoid degenerate boxes.
+        if x0 == x1:
+            if x1 < UMAX2:
+                x1 += 1
+            else:
+                x0 -= 1
+        if y0 == y1:
+            if y1 < UMAX2:
+                y1 += 1
+            else:
+                y0 -= 1
         if any(not 0 <= v <= UMAX2 for v in (x0, x1, y0, y1)):
             print(bb)
             print((x0, x1, y0, y1))
-- 
2.43.0


From 62267c81cacaf372dc0cf95a1447327d2e32c0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:10 +0000
Subject: [PATCH 27/97] fix: clamp P file codes to their range

---
 coral/pf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 09cb922..cdc2920 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -213,6 +213,9 @@ class Writer:
                 lon1, lat1 = point
                 ulon = round((lon1 - x0) * self.umax / (x1 - x0))
                 ulat = round((lat1 - y0) * self.umax / (y1 - y0))
+                # Rounding errors may exceed the box.
+                ulon = min(max(ulon, 0), self.umax)
+                ulat = min(max(ulat, 0), self.umax)
                 data = struct.pack(self.fmt, ulon, ulat)
                 lon2 = x0 + ulon * (x1 - x0) / self.umax
                 lat2 = y0 + ulat * (y1 - y0) / self.umax
-- 
2.43.0


From 376d8361ffd01fbf1ec60ecab0ea044656dbfc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:10 +0000
Subject: [PATCH 28/97] fix: endless loop on truncated P files

---
 coral/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index cdc2920..9e21960 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -116,6 +116,8 @@ def readascii(f):
     bs = b""
     b = f.read(1)
     while b != b'\x00':
+        if not b:
+            raise EOFError("unexpected end of file")
         bs += b
         b = f.read(1)
     return bs.decode("ascii")
-- 
2.43.0


From 1e14b637d64cc75a2cc0ca604519a8e5451254d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:05 +0000
Subject: [PATCH 29/97] fix: decode blank, date and logical attributes

---
 coral/shapefile.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index c789f89..f62def2 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -506,7 +506,7 @@ class Reader:
             if name == 'DeletionFlag':
                 continue
             elif not value.strip():
-                record.append(value)
+                record.append('')
                 continue
             elif typ == "N":
                 value = value.replace(self.b('\0'), self.b('')).strip()
@@ -515,16 +515,20 @@ class Reader:
                 elif deci:
                     value = float(value)
                 else:
-                    value = int(value)
-            elif typ == self.b('D'):
+                    try:
+                        value = int(value)
+                    except ValueError:
+                        value = float(value)
+            elif typ == 'D':
                 try:
                     y, m, d = int(value[:4]), int(value[4:6]), int(value[6:8])
                     value = [y, m, d]
-                except:
-                    value = value.strip()
-            elif typ == self.b('L'):
-                value = (value in self.b('YyTt') and self.b('T')) or \
-                                        (value in self.b('NnFf') and self.b('F')) or self.b('?')
+                except ValueError:
+                    value = self.u(value).strip()
+            elif typ == 'L':
+                value = self.u(value).strip()
+                value = (value in 'YyTt' and 'T') or \
+                                        (value in 'NnFf' and 'F') or '?'
             else:
                 value = self.u(value)
                 value = value.strip()
-- 
2.43.0


From 4526b130a05f57fa017b521ae0dca96f7f9b7b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:05 +0000
Subject: [PATCH 30/97] fix: pair shapes with their own records, and read empty
 tables

---
 coral/shapefile.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index f62def2..e82ad3d 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -486,7 +486,7 @@ class Reader:
 
     def __recordFmt(self):
         """Calculates the size of a .shp geometry record."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         fmt = ''.join(['%ds' % fieldinfo[2] for fieldinfo in self.fields])
         fmtSize = calcsize(fmt)
@@ -538,7 +538,7 @@ class Reader:
     def record(self, i=0):
         """Returns a specific dbf record based on the supplied index."""
         f = self.__getFileObj(self.dbf)
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         i = self.__restrictIndex(i)
         recSize = self.__recordFmt()[1]
@@ -548,21 +548,20 @@ class Reader:
 
     def records(self):
         """Returns all records in a dbf file."""
-        if not self.numRecords:
-            self.__dbfHeader()
-        records = []
+        return [r for r in self.__allRecords() if r is not None]
+
+    def __allRecords(self):
+        """Returns all records in a dbf file, None for deleted ones."""
         f = self.__getFileObj(self.dbf)
+        if self.numRecords is None:
+            self.__dbfHeader()
         f.seek(self.__dbfHeaderLength())
-        for i in range(self.numRecords):
-            r = self.__record()
-            if r:
-                records.append(r)
-        return records
+        return [self.__record() for i in xrange(self.numRecords)]
 
     def iterRecords(self):
         """Serves up records in a dbf file as an iterator.
         Useful for large shapefiles or dbf files."""
-        if not self.numRecords:
+        if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
         f.seek(self.__dbfHeaderLength())
@@ -580,9 +579,9 @@ class Reader:
     def shapeRecords(self):
         """Returns a list of combination geometry/attribute records for
         all records in a shapefile."""
-        shapeRecords = []
         return [_ShapeRecord(shape=rec[0], record=rec[1]) \
-                                for rec in zip(self.shapes(), self.records())]
+                                for rec in zip(self.shapes(), self.__allRecords())
+                                if rec[1] is not None]
 
 class Writer:
     """Provides write support for ESRI Shapefiles."""
-- 
2.43.0


From 8cafc52029540e15571d64b54509d9e1082398b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:05 +0000
Subject: [PATCH 31/97] fix: iterate shapes and records independently of other
 reads

---
 coral/shapefile.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index e82ad3d..b1678ca 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -446,9 +446,13 @@ class Reader:
         shp = self.__getFileObj(self.shp)
         shp.seek(0,2)
         self.shpLength = shp.tell()
-        shp.seek(100)
-        while shp.tell() < self.shpLength:
-            yield self.__shape()    
+        position = 100
+        while position < self.shpLength:
+            # The position may have been changed by other reads
+            shp.seek(position)
+            shape = self.__shape()
+            position = shp.tell()
+            yield shape
 
     def __dbfHeaderLength(self):
         """Retrieves the header length of a dbf file header."""
@@ -564,10 +568,12 @@ class Reader:
         if self.numRecords is None:
             self.__dbfHeader()
         f = self.__getFileObj(self.dbf)
-        f.seek(self.__dbfHeaderLength())
+        recSize = self.__recordFmt()[1]
         for i in xrange(self.numRecords):
+            # The position may have been changed by other reads
+            f.seek(self.__dbfHeaderLength() + i * recSize)
             r = self.__record()
-            if r:
+            if r is not None:
                 yield r
 
     def shapeRecord(self, i=0):
-- 
2.43.0


From 792208c98ae207ebb6ff84bc35f36f20251b4327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:06 +0000
Subject: [PATCH 32/97] fix: shapefile indices, negative or without shx file

---
 coral/shapefile.py | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index b1678ca..b0242e2 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -303,15 +303,12 @@ class Reader:
             self.load()
         return f
 
-    def __restrictIndex(self, i):
+    def __restrictIndex(self, i, count):
         """Provides list-like handling of a record index with a clearer
         error message if the index is out of bounds."""
-        if self.numRecords:
-            rmax = self.numRecords - 1
-            if abs(i) > rmax:
-                raise IndexError("Shape or Record index out of range.")
-            if i < 0: i = range(self.numRecords)[i]
-        return i
+        if not -count <= i < count:
+            raise IndexError("Shape or Record index out of range.")
+        return i + count if i < 0 else i
 
     def __shpHeader(self):
         """Reads the header information from a .shp or .shx file."""
@@ -391,13 +388,20 @@ class Reader:
         f.seek(next)
         return record
 
-    def __shapeIndex(self, i=None):
+    def __shapeIndex(self, i):
         """Returns the offset in a .shp file for a shape based on information
-        in the .shx index file."""
+        in the .shx index file, or in the .shp file if there is none."""
         shx = self.shx
-        if not shx:
-            return None
-        if not self._offsets:
+        if not shx and not self._offsets:
+            shp = self.shp
+            shp.seek(0,2)
+            length = shp.tell()
+            position = 100
+            while position < length:
+                self._offsets.append(position)
+                shp.seek(position + 4)
+                position += 8 + 2 * unpack(">i", shp.read(4))[0]
+        if shx and not self._offsets:
             # File length (16-bit word * 2 = bytes) - header length
             shx.seek(24)
             shxRecordLength = (unpack(">i", shx.read(4))[0] * 2) - 100
@@ -408,21 +412,13 @@ class Reader:
                 # Offsets are 16-bit words just like the file length
                 self._offsets.append(unpack(">i", shx.read(4))[0] * 2)
                 shx.seek(shx.tell() + 4)
-        if not i == None:
-            return self._offsets[i]
+        return self._offsets[self.__restrictIndex(i, len(self._offsets))]
 
     def shape(self, i=0):
         """Returns a shape object for a shape in the the geometry
         record file."""
         shp = self.__getFileObj(self.shp)
-        i = self.__restrictIndex(i)
-        offset = self.__shapeIndex(i)
-        if not offset:
-            # Shx index not available so iterate the full list.
-            for j,k in enumerate(self.iterShapes()):
-                if j == i:
-                    return k
-        shp.seek(offset)
+        shp.seek(self.__shapeIndex(i))
         return self.__shape()
 
     def shapes(self):
@@ -544,7 +540,7 @@ class Reader:
         f = self.__getFileObj(self.dbf)
         if self.numRecords is None:
             self.__dbfHeader()
-        i = self.__restrictIndex(i)
+        i = self.__restrictIndex(i, self.numRecords)
         recSize = self.__recordFmt()[1]
         f.seek(0)
         f.seek(self.__dbfHeaderLength() + (i * recSize))
@@ -579,7 +575,8 @@ class Reader:
     def shapeRecord(self, i=0):
         """Returns a combination geometry and attribute record for the
         supplied record index."""
-        i = self.__restrictIndex(i)
+        self.__getFileObj(self.dbf)
+        i = self.__restrictIndex(i, self.numRecords)
         return _ShapeRecord(shape=self.shape(i), record=self.record(i))
 
     def shapeRecords(self):
-- 
2.43.0


From a0ec4c0e4aa46d7d592a3c138fc6f95d43aa4e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:06 +0000
Subject: [PATCH 33/97] fix: open shapefiles that lack one of their files

---
 coral/shapefile.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index b0242e2..212d2a0 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -275,23 +275,25 @@ class Reader:
         if shapefile:
             (shapeName, ext) = os.path.splitext(shapefile)
             self.shapeName = shapeName
-            try:
-                self.shp = open("%s.shp" % shapeName, "rb")
-            except IOError:
-                raise ShapefileException("Unable to open %s.shp" % shapeName)
-            try:
-                self.shx = open("%s.shx" % shapeName, "rb")
-            except IOError:
-                raise ShapefileException("Unable to open %s.shx" % shapeName)
-            try:
-                self.dbf = open("%s.dbf" % shapeName, "rb")
-            except IOError:
-                raise ShapefileException("Unable to open %s.dbf" % shapeName)
+            self.shp, self.shx, self.dbf = map(self.__open, ("shp", "shx", "dbf"))
+            if not self.shp and not self.dbf:
+                raise ShapefileException("Unable to open %s.shp or %s.dbf" % (shapeName, shapeName))
+            self._offsets = []
+            self.numRecords = None
+            self.fields = []
+            self.__dbfHdrLength = 0
         if self.shp:
             self.__shpHeader()
         if self.dbf:
             self.__dbfHeader()
 
+    def __open(self, ext):
+        """Opens one of the three files, if it is there."""
+        try:
+            return open("%s.%s" % (self.shapeName, ext), "rb")
+        except IOError:
+            return None
+
     def __getFileObj(self, f):
         """Checks to see if the requested shapefile file object is
         available. If not a ShapefileException is raised."""
-- 
2.43.0


From 3d677649c3eb25fc6625bebc219e08a72c9f61f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:33 +0000
Subject: [PATCH 34/97] fix: read measures whenever a shape has them

---
 coral/shapefile.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 212d2a0..ae0dfc0 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -353,20 +353,20 @@ class Reader:
         if shapeType in (3,5,8,13,15,23,25,31):
             nPoints = unpack("<i", f.read(4))[0]
         # Read parts
-        if nParts:
+        if nParts is not None:
             record.parts = _Array('i', unpack("<%si" % nParts, f.read(nParts * 4)))
         # Read part types for Multipatch - 31
         if shapeType == 31:
             record.partTypes = _Array('i', unpack("<%si" % nParts, f.read(nParts * 4)))
         # Read points - produces a list of [x,y] values
-        if nPoints:
+        if nPoints is not None:
             record.points = [_Array('d', unpack("<2d", f.read(16))) for p in range(nPoints)]
         # Read z extremes and values
         if shapeType in (13,15,18,31):
             (zmin, zmax) = unpack("<2d", f.read(16))
             record.z = _Array('d', unpack("<%sd" % nPoints, f.read(nPoints * 8)))
-        # Read m extremes and values if header m values do not equal 0.0
-        if shapeType in (13,15,18,23,25,28,31) and not 0.0 in self.measure:
+        # Read m extremes and values, which are optional
+        if shapeType in (13,15,18,23,25,28,31) and next - f.tell() >= 16 + 8 * nPoints:
             (mmin, mmax) = unpack("<2d", f.read(16))
             # Measure values less than -10e38 are nodata values according to the spec
             record.m = []
@@ -382,7 +382,7 @@ class Reader:
         if shapeType == 11:
             record.z = unpack("<d", f.read(8))
         # Read a single M value
-        if shapeType in (11,21):
+        if shapeType in (11,21) and next - f.tell() >= 8:
             record.m = unpack("<d", f.read(8))
         # Seek to the end of this record as defined by the record header because
         # the shapefile spec doesn't require the actual content to meet the header
-- 
2.43.0


From d07fe7eed79610e2d390611f1c3cdd89b6a09523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:33 +0000
Subject: [PATCH 35/97] fix: write attributes of the exact field size, in their
 own column

---
 coral/shapefile.py | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index ae0dfc0..15ff7d9 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -769,9 +769,7 @@ class Writer:
         year, month, day = time.localtime()[:3]
         year -= 1900
         # Remove deletion flag placeholder from fields
-        for field in self.fields:
-            if field[0].startswith("Deletion"):
-                self.fields.remove(field)
+        self.fields = [field for field in self.fields if field[0] != 'DeletionFlag']
         numRecs = len(self.records)
         numFields = len(self.fields)
         headerLength = numFields * 32 + 33
@@ -782,7 +780,7 @@ class Writer:
         # Field descriptors
         for field in self.fields:
             name, fieldType, size, decimal = field
-            name = self.b(name)
+            name = self.__truncate(name, 10)
             name = name.replace(self.b(' '), self.b('_'))
             name = name.ljust(11).replace(self.b(' '), self.b('\x00'))
             fieldType = self.b(fieldType)
@@ -915,21 +913,28 @@ class Writer:
         """Writes the dbf records."""
         f = self.__getFileObj(self.dbf)
         for record in self.records:
-            if not self.fields[0][0].startswith("Deletion"):
-                f.write(self.b(' ')) # deletion flag
+            f.write(self.b(' ')) # deletion flag
             for (fieldName, fieldType, size, dec), value in zip(self.fields, record):
                 fieldType = fieldType.upper()
                 size = int(size)
-                if fieldType.upper() == "N":
-                    value = str(value).rjust(size)
+                if value is None:
+                    value = ''
+                if fieldType == "N":
+                    value = self.b(str(value)).rjust(size)
                 elif fieldType == 'L':
-                    value = str(value)[0].upper()
+                    value = self.b(str(value)[:1].upper()).ljust(size)
+                elif fieldType == 'D' and isinstance(value, (list, tuple)):
+                    # as returned by the reader
+                    value = self.b('%04d%02d%02d' % tuple(value)).ljust(size)
                 else:
-                    value = str(value)[:size].ljust(size)
+                    value = self.__truncate(str(value), size).ljust(size)
                 assert len(value) == size
-                value = self.b(value)
                 f.write(value)
 
+    def __truncate(self, text, size):
+        """Encodes a text, without the characters that exceed the size."""
+        return self.b(self.b(text)[:size].decode(self.encoding, 'ignore'))
+
     def null(self):
         """Creates a null shape."""
         self._shapes.append(_Shape(NULL))
@@ -990,19 +995,17 @@ class Writer:
         field/value pairs only fields matching the already registered fields
         will be added."""
         record = []
-        fieldCount = len(self.fields)
         # Compensate for deletion flag
-        if self.fields[0][0].startswith("Deletion"): fieldCount -= 1
+        fields = [field for field in self.fields if field[0] != 'DeletionFlag']
         if recordList:
-            [record.append(recordList[i]) for i in range(fieldCount)]
+            [record.append(recordList[i]) for i in range(len(fields))]
         elif recordDict:
-            for field in self.fields:
-                if field[0] in recordDict:
-                    val = recordDict[field[0]]
-                    if val is None:
-                        record.append("")
-                    else:
-                        record.append(val)
+            for field in fields:
+                val = recordDict.get(field[0])
+                if val is None:
+                    record.append("")
+                else:
+                    record.append(val)
         if record:
             self.records.append(record)
 
-- 
2.43.0


From 4459ea50839b6262b7ba2d03aefed37575981ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:53 +0000
Subject: [PATCH 36/97] fix: leave the caller's parts and other writers' part
 types alone

---
 coral/shapefile.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 15ff7d9..05cb9f5 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -945,41 +945,32 @@ class Writer:
         pointShape.points.append([x, y, z, m])
         self._shapes.append(pointShape)
 
-    def line(self, parts=[], shapeType=POLYLINE):
+    def line(self, parts=(), shapeType=POLYLINE):
         """Creates a line shape. This method is just a convienience method
         which wraps 'poly()'.
         """
-        self.poly(parts, shapeType, [])
+        self.poly(parts, shapeType)
 
-    def poly(self, parts=[], shapeType=POLYGON, partTypes=[]):
+    def poly(self, parts=(), shapeType=POLYGON, partTypes=()):
         """Creates a shape that has multiple collections of points (parts)
         including lines, polygons, and even multipoint shapes. If no shape type
         is specified it defaults to 'polygon'. If no part types are specified
-        (which they normally won't be) then all parts default to the shape type.
+        (which they normally won't be) then all parts of a multipatch are rings.
         """
         polyShape = _Shape(shapeType)
         polyShape.parts = []
         polyShape.points = []
-        # Make sure polygons are closed
-        if shapeType in (5,15,25,31):
-            for part in parts:
-                    if part[0] != part[-1]:
-                        part.append(part[0])
-        for part in parts:
+        if shapeType == 31:
+            polyShape.partTypes = list(partTypes) or [POLYGON] * len(parts)
+        for i, part in enumerate(parts):
             polyShape.parts.append(len(polyShape.points))
-            for point in part:
-                # Ensure point is list
-                if not isinstance(point, list):
-                    point = list(point)
-                # Make sure point has z and m values
-                while len(point) < 4:
-                    point.append(0)
-                polyShape.points.append(point)
-        if polyShape.shapeType == 31:
-            if not partTypes:
-                for part in parts:
-                    partTypes.append(polyShape.shapeType)
-            polyShape.partTypes = partTypes
+            # Copy the points, with z and m values
+            points = [list(point) + [0] * (4 - len(point)) for point in part]
+            # Make sure polygons are closed (but not triangle strips and fans)
+            if shapeType in (5,15,25) or shapeType == 31 and polyShape.partTypes[i] > 1:
+                if points and points[0] != points[-1]:
+                    points.append(list(points[0]))
+            polyShape.points.extend(points)
         self._shapes.append(polyShape)
 
     def field(self, name, fieldType="C", size="50", decimal=0):
-- 
2.43.0


From 621ad43ba4614c54953639c3776936846d6621fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:46 +0000
Subject: [PATCH 37/97] fix: write elevations and measures of all shapes

---
 coral/shapefile.py | 85 ++++++++++++++++++----------------------------
 1 file changed, 33 insertions(+), 52 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 05cb9f5..a0678bf 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -694,25 +694,28 @@ class Writer:
             y.extend(py)
         return [min(x), min(y), max(x), max(y)]
 
-    def __zbox(self, shapes, shapeTypes=[]):
-        z = []
-        for s in shapes:
-            try:
-                for p in s.points:
-                    z.append(p[2])
-            except IndexError:
-                pass
-        if not z: z.append(0)
+    def __z(self, shape):
+        """Returns the elevations of the points of a shape, which are either
+        kept apart (in shapes from a reader) or in the points."""
+        if hasattr(shape, 'z'):
+            return list(shape.z)
+        return [p[2] if len(p) > 2 else 0 for p in shape.points]
+
+    def __m(self, shape):
+        """Returns the measures of the points of a shape, like __z."""
+        if hasattr(shape, 'm'):
+            m = shape.m
+        else:
+            m = [p[3] if len(p) > 3 else 0 for p in shape.points]
+        # None is no data
+        return [-10e38 if v is None else v for v in m]
+
+    def __zbox(self, shapes):
+        z = [v for s in shapes for v in self.__z(s)] or [0]
         return [min(z), max(z)]
 
-    def __mbox(self, shapes, shapeTypes=[]):
-        m = [0]
-        for s in shapes:
-            try:
-                for p in s.points:
-                    m.append(p[3])
-            except IndexError:
-                pass
+    def __mbox(self, shapes):
+        m = [v for s in shapes for v in self.__m(s) if v > -10e38] or [0]
         return [min(m), max(m)]
 
     def bbox(self):
@@ -752,10 +755,9 @@ class Writer:
                 raise ShapefileException("Failed to write shapefile bounding box. Floats required.")
         else:
             f.write(pack("<4d", 0,0,0,0))
-        # Elevation
-        z = self.zbox()
-        # Measure
-        m = self.mbox()
+        # Elevation and measure (zero in files that have none)
+        z = self.zbox() if self.shapeType in (11,13,15,18,31) else (0, 0)
+        m = self.mbox() if self.shapeType in (11,13,15,18,21,23,25,28,31) else (0, 0)
         try:
             f.write(pack("<4d", z[0], z[1], m[0], m[1]))
         except error:
@@ -840,8 +842,7 @@ class Writer:
                 except error:
                     raise ShapefileException("Failed to write elevation extremes for record %s. Expected floats." % recNum)
                 try:
-                    #[f.write(pack("<d", p[2])) for p in s.points]
-                    f.write(pack("<%sd" % len(s.z), *s.z))
+                    [f.write(pack("<d", z)) for z in self.__z(s)]
                 except error:
                     raise ShapefileException("Failed to write elevation values for record %s. Expected floats." % recNum)
             # Write m extremes and values
@@ -851,7 +852,7 @@ class Writer:
                 except error:
                     raise ShapefileException("Failed to write measure extremes for record %s. Expected floats" % recNum)
                 try:
-                    [f.write(pack("<d", p[3])) for p in s.points]
+                    [f.write(pack("<d", m)) for m in self.__m(s)]
                 except error:
                     raise ShapefileException("Failed to write measure values for record %s. Expected floats" % recNum)
             # Write a single point
@@ -862,36 +863,16 @@ class Writer:
                     raise ShapefileException("Failed to write point for record %s. Expected floats." % recNum)
             # Write a single Z value
             if s.shapeType == 11:
-                if hasattr(s, "z"):
-                    try:
-                        if not s.z:
-                            s.z = (0,)    
-                        f.write(pack("<d", s.z[0]))
-                    except error:
-                        raise ShapefileException("Failed to write elevation value for record %s. Expected floats." % recNum)
-                else:
-                    try:
-                        if len(s.points[0])<3:
-                            s.points[0].append(0)
-                        f.write(pack("<d", s.points[0][2]))
-                    except error:
-                        raise ShapefileException("Failed to write elevation value for record %s. Expected floats." % recNum)
+                try:
+                    f.write(pack("<d", *self.__z(s)))
+                except error:
+                    raise ShapefileException("Failed to write elevation value for record %s. Expected floats." % recNum)
             # Write a single M value
             if s.shapeType in (11,21):
-                if hasattr(s, "m"):
-                    try:
-                        if not s.m:
-                            s.m = (0,) 
-                        f.write(pack("<1d", s.m[0]))
-                    except error:
-                        raise ShapefileException("Failed to write measure value for record %s. Expected floats." % recNum)    
-                else:                                
-                    try:
-                        if len(s.points[0])<4:
-                            s.points[0].append(0)
-                        f.write(pack("<1d", s.points[0][3]))
-                    except error:
-                        raise ShapefileException("Failed to write measure value for record %s. Expected floats." % recNum)
+                try:
+                    f.write(pack("<d", *self.__m(s)))
+                except error:
+                    raise ShapefileException("Failed to write measure value for record %s. Expected floats." % recNum)
             # Finalize record length as 16-bit words
             finish = f.tell()
             length = (finish - start) // 2
-- 
2.43.0


From c1b78d31e02f3284fa7bcef9e8b30858052c417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:46 +0000
Subject: [PATCH 38/97] fix: write null shapes among others, and files without
 shapes

---
 coral/shapefile.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a0678bf..2817320 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -682,16 +682,9 @@ class Writer:
         size //= 2
         return size
 
-    def __bbox(self, shapes, shapeTypes=[]):
-        x = []
-        y = []
-        for s in shapes:
-            shapeType = self.shapeType
-            if shapeTypes:
-                shapeType = shapeTypes[shapes.index(s)]
-            px, py = list(zip(*s.points))[:2]
-            x.extend(px)
-            y.extend(py)
+    def __bbox(self, shapes):
+        x = [p[0] for s in shapes for p in s.points] or [0]
+        y = [p[1] for s in shapes for p in s.points] or [0]
         return [min(x), min(y), max(x), max(y)]
 
     def __z(self, shape):
@@ -804,7 +797,7 @@ class Writer:
             recNum += 1
             start = f.tell()
             # Shape Type
-            if self.shapeType != 31:
+            if self.shapeType != 31 and s.shapeType != NULL:
                 s.shapeType = self.shapeType
             f.write(pack("<i", s.shapeType))
             # All shape types capable of having a bounding box
@@ -922,7 +915,7 @@ class Writer:
 
     def point(self, x, y, z=0, m=0):
         """Creates a point shape."""
-        pointShape = _Shape(self.shapeType)
+        pointShape = _Shape(self.shapeType or POINT)
         pointShape.points.append([x, y, z, m])
         self._shapes.append(pointShape)
 
@@ -988,12 +981,21 @@ class Writer:
         """Return the current list of shapes."""
         return self._shapes
 
+    def __setShapeType(self):
+        """Derives the shape type of the file from the first shape that is
+        not null, if it was not given."""
+        if not self.shapeType:
+            self.shapeType = NULL
+            for s in self._shapes:
+                if s.shapeType != NULL:
+                    self.shapeType = s.shapeType
+                    break
+
     def saveShp(self, target):
         """Save an shp file."""
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shp'
-        if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+        self.__setShapeType()
         self.shp = self.__getFileObj(target)
         self.__shapefileHeader(self.shp, headerType='shp')
         self.__shpRecords()
@@ -1002,8 +1004,7 @@ class Writer:
         """Save an shx file."""
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shx'
-        if not self.shapeType:
-            self.shapeType = self._shapes[0].shapeType
+        self.__setShapeType()
         self.shx = self.__getFileObj(target)
         self.__shapefileHeader(self.shx, headerType='shx')
         self.__shxRecords()
-- 
2.43.0


From 17bf85f014af6a5bcb2a36b0c2745d0076f128eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:46 +0000
Subject: [PATCH 39/97] fix: file lengths and index of shapefiles, also when
 saved again

---
 coral/shapefile.py | 66 +++++++---------------------------------------
 1 file changed, 9 insertions(+), 57 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 2817320..dc5d6aa 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -625,62 +625,8 @@ class Writer:
 
     def __shpFileLength(self):
         """Calculates the file length of the shp file."""
-        # Start with header length
-        size = 100
-        # Calculate size of all shapes
-        for s in self._shapes:
-            # Add in record header and shape type fields
-            size += 12
-            # nParts and nPoints do not apply to all shapes
-            #if self.shapeType not in (0,1):
-            #       nParts = len(s.parts)
-            #       nPoints = len(s.points)
-            if hasattr(s,'parts'):
-                nParts = len(s.parts)
-            if hasattr(s,'points'):
-                nPoints = len(s.points)
-            # All shape types capable of having a bounding box
-            if self.shapeType in (3,5,8,13,15,18,23,25,28,31):
-                size += 32
-            # Shape types with parts
-            if self.shapeType in (3,5,13,15,23,25,31):
-                # Parts count
-                size += 4
-                # Parts index array
-                size += nParts * 4
-            # Shape types with points
-            if self.shapeType in (3,5,8,13,15,23,25,31):
-                # Points count
-                size += 4
-                # Points array
-                size += 16 * nPoints
-            # Calc size of part types for Multipatch (31)
-            if self.shapeType == 31:
-                size += nParts * 4
-            # Calc z extremes and values
-            if self.shapeType in (13,15,18,31):
-                # z extremes
-                size += 16
-                # z array
-                size += 8 * nPoints
-            # Calc m extremes and values
-            if self.shapeType in (23,25,31):
-                # m extremes
-                size += 16
-                # m array
-                size += 8 * nPoints
-            # Calc a single point
-            if self.shapeType in (1,11,21):
-                size += 16
-            # Calc a single Z value
-            if self.shapeType == 11:
-                size += 8
-            # Calc a single M value
-            if self.shapeType in (11,21):
-                size += 8
-        # Calculate size as 16-bit words
-        size //= 2
-        return size
+        # Header length and record headers, in 16-bit words
+        return 50 + sum(4 + length for length in self._lengths)
 
     def __bbox(self, shapes):
         x = [p[0] for s in shapes for p in s.points] or [0]
@@ -789,6 +735,8 @@ class Writer:
         """Write the shp records"""
         f = self.__getFileObj(self.shp)
         f.seek(100)
+        self._offsets = []
+        self._lengths = []
         recNum = 1
         for s in self._shapes:
             self._offsets.append(f.tell())
@@ -997,8 +945,10 @@ class Writer:
             target = os.path.splitext(target)[0] + '.shp'
         self.__setShapeType()
         self.shp = self.__getFileObj(target)
-        self.__shapefileHeader(self.shp, headerType='shp')
+        # The header needs the record lengths
         self.__shpRecords()
+        self.shp.truncate()
+        self.__shapefileHeader(self.shp, headerType='shp')
 
     def saveShx(self, target):
         """Save an shx file."""
@@ -1008,6 +958,7 @@ class Writer:
         self.shx = self.__getFileObj(target)
         self.__shapefileHeader(self.shx, headerType='shx')
         self.__shxRecords()
+        self.shx.truncate()
 
     def saveDbf(self, target):
         """Save a dbf file."""
@@ -1016,6 +967,7 @@ class Writer:
         self.dbf = self.__getFileObj(target)
         self.__dbfHeader()
         self.__dbfRecords()
+        self.dbf.truncate()
 
     def save(self, target=None, shp=None, shx=None, dbf=None):
         """Save the shapefile data to three files or
-- 
2.43.0


From 4753ccf21c96fc084ee665849820e4dc81488b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:14 +0000
Subject: [PATCH 40/97] fix: keep shapes and records together in the editor

---
 coral/shapefile.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index dc5d6aa..a4da93a 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -1009,9 +1009,10 @@ class Editor(Writer):
             if os.path.isfile("%s.shp" % base):
                 r = Reader(base)
                 Writer.__init__(self, r.shapeType)
-                self._shapes = r.shapes()
+                shapeRecords = r.shapeRecords()
+                self._shapes = [sr.shape for sr in shapeRecords]
                 self.fields = r.fields
-                self.records = r.records()
+                self.records = [sr.record for sr in shapeRecords]
 
     def select(self, expr):
         """Select one or more shapes (to be implemented)"""
@@ -1022,16 +1023,21 @@ class Editor(Writer):
         """Deletes the specified part of any shape by specifying a shape
         number, part number, or point number."""
         # shape, part, point
-        if shape and part and point:
+        if shape is not None and part and point:
             del self._shapes[shape][part][point]
         # shape, part
-        elif shape and part and not point:
+        elif shape is not None and part and not point:
             del self._shapes[shape][part]
         # shape
-        elif shape and not part and not point:
+        elif shape is not None and not part and not point:
+            count = len(self._shapes)
             del self._shapes[shape]
+            # with its record
+            shape = range(count)[shape]
+            if shape < len(self.records):
+                del self.records[shape]
         # point
-        elif not shape and not part and point:
+        elif shape is None and not part and point:
             for s in self._shapes:
                 if s.shapeType == 1:
                     del self._shapes[point]
@@ -1039,11 +1045,11 @@ class Editor(Writer):
                     for part in s.parts:
                         del s[part][point]
         # part, point
-        elif not shape and part and point:
+        elif shape is None and part and point:
             for s in self._shapes:
                 del s[part][point]
         # part
-        elif not shape and part and not point:
+        elif shape is None and part and not point:
             for s in self._shapes:
                 del s[part]
 
@@ -1090,9 +1096,13 @@ class Editor(Writer):
             shape, part, point = addr
             self._shapes[shape][part][point] = [x, y, z, m]
         else:
-            Writer.point(self, x, y, z, m)
+            Writer.point(self, x, y, z or 0, m or 0)
+
+    def save(self, *args, **kwargs):
+        """Saves the shapefile, see Writer.save."""
         if self.autoBalance:
             self.balance()
+        return Writer.save(self, *args, **kwargs)
 
     def validate(self):
         """An optional method to try and validate the shapefile
@@ -1101,13 +1111,13 @@ class Editor(Writer):
         pass
 
     def balance(self):
-        """Adds a corresponding empty attribute or null geometry record depending
+        """Adds corresponding empty attribute or null geometry records depending
         on which type of record was created to make sure all three files
         are in synch."""
-        if len(self.records) > len(self._shapes):
+        while len(self.records) > len(self._shapes):
             self.null()
-        elif len(self.records) < len(self._shapes):
-            self.record()
+        while len(self.records) < len(self._shapes):
+            self.records.append([""] * len([f for f in self.fields if f[0] != 'DeletionFlag']))
 
     def __fieldNorm(self, fieldName):
         """Normalizes a dbf field name to fit within the spec and the
-- 
2.43.0


From 60322c680188f610bb3bb2dc5bb62618dbfdede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:29 +0000
Subject: [PATCH 41/97] fix: flush the files of a saved shapefile

---
 coral/shapefile.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a4da93a..fae4b49 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -949,6 +949,7 @@ class Writer:
         self.__shpRecords()
         self.shp.truncate()
         self.__shapefileHeader(self.shp, headerType='shp')
+        self.shp.flush()
 
     def saveShx(self, target):
         """Save an shx file."""
@@ -959,6 +960,7 @@ class Writer:
         self.__shapefileHeader(self.shx, headerType='shx')
         self.__shxRecords()
         self.shx.truncate()
+        self.shx.flush()
 
     def saveDbf(self, target):
         """Save a dbf file."""
@@ -968,6 +970,7 @@ class Writer:
         self.__dbfHeader()
         self.__dbfRecords()
         self.dbf.truncate()
+        self.dbf.flush()
 
     def save(self, target=None, shp=None, shx=None, dbf=None):
         """Save the shapefile data to three files or
-- 
2.43.0


From becc8d98156fa56094f672b6d22937b7c7309f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:15 +0000
Subject: [PATCH 42/97] fix: read and write the points of multipoints with
 elevation or measure

---
 coral/shapefile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index fae4b49..4cef880 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -350,7 +350,7 @@ class Reader:
         if shapeType in (3,5,13,15,23,25,31):
             nParts = unpack("<i", f.read(4))[0]
         # Shape types with points
-        if shapeType in (3,5,8,13,15,23,25,31):
+        if shapeType in (3,5,8,13,15,18,23,25,28,31):
             nPoints = unpack("<i", f.read(4))[0]
         # Read parts
         if nParts is not None:
@@ -759,7 +759,7 @@ class Writer:
                 # Number of parts
                 f.write(pack("<i", len(s.parts)))
             # Shape types with multiple points per record
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 # Number of points
                 f.write(pack("<i", len(s.points)))
             # Write part indexes
@@ -771,7 +771,7 @@ class Writer:
                 for pt in s.partTypes:
                     f.write(pack("<i", pt))
             # Write points for multiple-point records
-            if s.shapeType in (3,5,8,13,15,23,25,31):
+            if s.shapeType in (3,5,8,13,15,18,23,25,28,31):
                 try:
                     [f.write(pack("<2d", *p[:2])) for p in s.points]
                 except error:
-- 
2.43.0


From e3d81bdf8c2b2964e3016f3b2bfec4ff1774e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:27 +0000
Subject: [PATCH 43/97] fix: area of rings whose points have elevations

---
 coral/shapefile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 4cef880..11eead9 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -106,7 +106,7 @@ def signed_area(coords):
     algorithm at http://www.cgafaq.info/wiki/Polygon_Area. A value >= 0
     indicates a counter-clockwise oriented ring.
     """
-    xs, ys = map(list, zip(*coords))
+    xs, ys = map(list, list(zip(*coords))[:2])
     xs.append(xs[1])
     ys.append(ys[1])
     return sum(xs[i]*(ys[i+1]-ys[i-1]) for i in range(1, len(coords)))/2.0
-- 
2.43.0


From 0263d2585d7075eea83a464ae01b231cdd1d85b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:14 +0000
Subject: [PATCH 44/97] fix: background of black-and-white canvases

---
 coral/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 41423ef..6012df4 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -179,7 +179,7 @@ class BWCanvas(BaseCanvas):
         self.bgcolor = bgcolor
         nw = math.ceil(width/8) # bytes/row
         n = nw * height
-        self.data = array('B', (bgcolor for i in range(n)))
+        self.data = array('B', (0xff if bgcolor else 0 for i in range(n)))
         self.bits_per_row = nw * 8
 
     def __getitem__(self, key):
-- 
2.43.0


From e2bbe41e9495476f434919ccd8bdd030f1e824cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:14 +0000
Subject: [PATCH 45/97] fix: fill polygons of any direction, touching or
 overlapping

---
 coral/raster.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 6012df4..c4dac63 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -64,18 +64,14 @@ class BaseCanvas:
         "Fill polygons previously scanned with `scanpolygon()`."
 
         for y, marks in enumerate(scans):
-            heapq.heappush(marks, (self.width, False))
-            x1, d1 = heapq.heappop(marks)
-            x0, d0 = 0, not d1
-            while x1 < self.width:
-                if not d0:
-                    while x0 < x1:
-                        self[x0, y] = color
-                        x0 += 1
-                else:
-                    x0 = x1
-                d0 = d1
-                x1, d1 = heapq.heappop(marks)
+            x0, winding = 0, 0
+            while marks:
+                x1, down = heapq.heappop(marks)
+                if winding:
+                    for x in range(max(x0, 0), min(x1, self.width)):
+                        self[x, y] = color
+                x0 = x1
+                winding += 1 if down else -1
 
     def line(self, start, end, color):
         "Draw line using Bresenham's algorithm."
-- 
2.43.0


From c5ed6bfe406c41685da08b7ca2766d90ddaa9972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:14 +0000
Subject: [PATCH 46/97] fix: anti-aliased lines of gray level, zero length or
 at the border

---
 coral/raster.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index c4dac63..7bb911d 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -104,6 +104,14 @@ class BaseCanvas:
         ipart   = int
         fpart   = lambda x: math.modf(x)[0]
         rfpart  = lambda x: 1 - math.modf(x)[0]
+        if not isinstance(color, tuple):
+            color = color,
+
+        def plot(x, y, alpha):
+            # Pixels without coverage may be off the canvas.
+            if alpha:
+                self[x, y] = color + (alpha,)
+
         x0, y0 = start
         x1, y1 = end
         steep = abs(y1 - y0) > abs(x1 - x0)
@@ -113,7 +121,7 @@ class BaseCanvas:
             (x0, y0), (x1, y1) = (x1, y1), (x0, y0)
         dx = x1 - x0
         dy = y1 - y0
-        gradient = dy / dx
+        gradient = dy / dx if dx else 0
 
         # Line start.
         xend = nearest(x0)
@@ -124,11 +132,11 @@ class BaseCanvas:
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
         if steep:
-            self[ypxl1  , xpxl1] = color + (alpha1,)
-            self[ypxl1+1, xpxl1] = color + (alpha2,)
+            plot(ypxl1, xpxl1, alpha1)
+            plot(ypxl1+1, xpxl1, alpha2)
         else:
-            self[xpxl1, ypxl1  ] = color + (alpha1,)
-            self[xpxl1, ypxl1+1] = color + (alpha2,)
+            plot(xpxl1, ypxl1, alpha1)
+            plot(xpxl1, ypxl1+1, alpha2)
         intery = yend + gradient
 
         # Line end.
@@ -140,22 +148,22 @@ class BaseCanvas:
         alpha1 = rfpart(yend) * xgap
         alpha2 =  fpart(yend) * xgap
         if steep:
-            self[ypxl2  , xpxl2] = color + (alpha1,)
-            self[ypxl2+1, xpxl2] = color + (alpha2,)
+            plot(ypxl2, xpxl2, alpha1)
+            plot(ypxl2+1, xpxl2, alpha2)
         else:
-            self[xpxl2, ypxl2  ] = color + (alpha1,)
-            self[xpxl2, ypxl2+1] = color + (alpha2,)
+            plot(xpxl2, ypxl2, alpha1)
+            plot(xpxl2, ypxl2+1, alpha2)
 
         # Internal points.
         for x in range(xpxl1+1, xpxl2):
             alpha1 = rfpart(intery)
             alpha2 =  fpart(intery)
             if steep:
-                self[ipart(intery)  , x] = color + (alpha1,)
-                self[ipart(intery)+1, x] = color + (alpha2,)
+                plot(ipart(intery), x, alpha1)
+                plot(ipart(intery)+1, x, alpha2)
             else:
-                self[x, ipart(intery)  ] = color + (alpha1,)
-                self[x, ipart(intery)+1] = color + (alpha2,)
+                plot(x, ipart(intery), alpha1)
+                plot(x, ipart(intery)+1, alpha2)
             intery += gradient
 
     def strokepolygon(self, points, color, aa=None):
-- 
2.43.0


From 935678f0c4e653753477c9c5ef04a9ca4c5a6930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 47/97] fix: ink of figures after other inks, fills and
 backgrounds

---
 coral/vector.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index aadeb81..d596fe1 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -80,11 +80,6 @@ class Canvas:
         self.lines = []
         self.bbox = bbox.BBox()
         self.state = PSDEFAULTS.copy()
-        if bgcolor is not None:
-            if isinstance(bgcolor, tuple):
-                self.state['color'] = bgcolor
-            else:
-                self.state['gray'] = bgcolor
         self.deps = set()
 
     def copy(self):
@@ -104,6 +99,7 @@ class Canvas:
         line = "{} v".format(v)
         self.lines.append(line)
         self.state['gray'] = v
+        self.state['color'] = None
 
     def setcolor(self, r, g, b):
         if self.state['color'] == (r, g, b):
@@ -111,6 +107,7 @@ class Canvas:
         line = "{} {} {} rgb".format(r, g, b)
         self.lines.append(line)
         self.state['color'] = (r, g, b)
+        self.state['gray'] = None
 
     def setink(self, ink):
         if isinstance(ink, tuple):
@@ -144,11 +141,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))
@@ -194,11 +193,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox((x0, y0), (x1, y1))
@@ -217,11 +218,13 @@ class Canvas:
         if fill is not None:
             if stroke is not None:
                 self.lines.append("gs")
+                state = self.state.copy()
             self.setink(fill)
             self.lines.append("f")
         if stroke is not None:
             if fill is not None:
                 self.lines.append("gr")
+                self.state = state
             self.setink(stroke)
             self.lines.append("s")
         self.bbox |= bbox.BBox(points)
@@ -284,6 +287,7 @@ class Canvas:
             if key in self.deps:
                 pre.append(DEFS[key])
         if self.bgcolor is not None:
+            pre.append("gs")
             fmt = "np {} {} m {} {} l {} {} l {} {} l cp"
             line = fmt.format(x0, y0, x1, y0, x1, y1, x0, y1)
             pre.append(line)
@@ -292,6 +296,7 @@ class Canvas:
             else:
                 line = "{} v f".format(self.bgcolor)
             pre.append(line)
+            pre.append("gr")
         if size is not None:
             line = "{} {} translate".format(size / 2, size / 2)
             pre.append(line)
-- 
2.43.0


From 16ed91f666b3ab6140531df4776cad84d631e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 48/97] fix: remember dash patterns, not the caller's list

---
 coral/vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index d596fe1..2246ecb 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -33,7 +33,7 @@ PSDEFAULTS = dict(
   color = (0, 0, 0),
   gray = 0,
   width = 1,
-  dash = ([], 0),
+  dash = ((), 0),
 )
 
 COMMONDEF = """
@@ -126,6 +126,7 @@ class Canvas:
         self.state['width'] = w
 
     def setdash(self, pattern, offset=0):
+        pattern = tuple(pattern)
         if self.state['dash'] == (pattern, offset):
             return
         psarray = "[{}]".format(" ".join(map(str, pattern)))
-- 
2.43.0


From 17b9aa1c1faeb94526fa1e4f6e9222e8349fb30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 49/97] fix: start a new path for circles and texts

---
 coral/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 2246ecb..0329f85 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -137,6 +137,7 @@ class Canvas:
     def addcircle(self, center, radius, fill=None, stroke=None):
         x, y = center
         r = radius
+        self.lines.append("np")
         line = "{} {} {} 0 360 arc cp".format(x, y, r)
         self.lines.append(line)
         if fill is not None:
@@ -234,6 +235,7 @@ class Canvas:
         assert anchor in "c t tr r br b bl l tl".split()
         key = "s" + anchor
         x, y = pos
+        self.lines.append("np")
         fmt = "({}) {} /{} {} {} {}"
         line = fmt.format(text, size, font, x, y, key)
         self.lines.append(line)
-- 
2.43.0


From ecf4a5b1ec2eef69d6b17304541ae4ac32bd671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 50/97] fix: escape special characters in texts

---
 coral/vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/vector.py b/coral/vector.py
index 0329f85..14ccd32 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -235,6 +235,8 @@ class Canvas:
         assert anchor in "c t tr r br b bl l tl".split()
         key = "s" + anchor
         x, y = pos
+        for special in "\\()":
+            text = text.replace(special, "\\" + special)
         self.lines.append("np")
         fmt = "({}) {} /{} {} {} {}"
         line = fmt.format(text, size, font, x, y, key)
-- 
2.43.0


From 37aab08fd63f0b0430a9b2c7a980dbaa077e4d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:04 +0000
Subject: [PATCH 51/97] fix: leave nothing on the stack after rounded polygons

---
 coral/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index 14ccd32..b917a2f 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -214,7 +214,7 @@ class Canvas:
         line = "{} {} m".format(*startend)
         self.lines.append(line)
         for (x1, y1), (x2, y2) in zip(poly[1:], poly[2:] + poly[:1]):
-            line = "{} {} {} {} {} arcto".format(x1, y1, x2, y2, radius)
+            line = "{} {} {} {} {} arct".format(x1, y1, x2, y2, radius)
             self.lines.append(line)
         self.lines.append("cp")
         if fill is not None:
-- 
2.43.0


From 48b9a121c5464c172a68c2fdf58f8229bda0c670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:27 +0000
Subject: [PATCH 52/97] fix: save drawings without extent

---
 coral/vector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index b917a2f..0d294f4 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -276,6 +276,9 @@ class Canvas:
 
     def save(self, path, size=None, margin=0):
         bb = self.bbox
+        if bb.x0 > bb.x1:
+            # Nothing with an extent was drawn.
+            bb = bbox.BBox((0, 0), (0, 0))
         pre = []
         pre.append("%!PS-Adobe-3.0 EPSF-3.0")
         if size is None:
@@ -305,7 +308,7 @@ class Canvas:
         if size is not None:
             line = "{} {} translate".format(size / 2, size / 2)
             pre.append(line)
-            scl = (size - margin) / max(bb.width(), bb.height())
+            scl = (size - margin) / (max(bb.width(), bb.height()) or 1)
             line = "{} {} scale".format(scl, scl)
             pre.append(line)
             cx, cy = bb.center()
-- 
2.43.0


From 7acca36acff99f799d969ef4407df9b91e47bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:27 +0000
Subject: [PATCH 53/97] fix: leave the boxes of animated canvases alone

---
 coral/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/vector.py b/coral/vector.py
index 0d294f4..50dd6e3 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -346,6 +346,7 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
         bb = bb.scale(1.05)
         paths = []
         for i, canvas in tqdm.tqdm(enumerate(frames), total=n, desc="anim"):
+            canvas = canvas.copy()
             canvas.bbox = bb
             path = fmt.format(i)
             canvas.export(path, *args, **kwargs)
-- 
2.43.0


From b4028dbfdbadead87ed5a539eb4fa32a05c0e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:27 +0000
Subject: [PATCH 54/97] fix: animations in files with special characters in
 their name

---
 coral/vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/vector.py b/coral/vector.py
index 50dd6e3..1e9a920 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -20,6 +20,7 @@
 
 import os
 import inspect
+import shlex
 import subprocess
 import tempfile
 from functools import reduce
@@ -352,6 +353,6 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
             canvas.export(path, *args, **kwargs)
             paths.append(path)
         paths = " ".join(paths)
-        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, gifpath)
+        cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, shlex.quote(gifpath))
         status = subprocess.call(cmd, shell=True)
     return status
-- 
2.43.0


From b40262c030cd0bd65e14a11ded8880f0c84fe4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:35 +0000
Subject: [PATCH 55/97] fix: remove a needless case, the empty box is finite

---
 coral/vector.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index 1e9a920..b3f228a 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -277,9 +277,6 @@ class Canvas:
 
     def save(self, path, size=None, margin=0):
         bb = self.bbox
-        if bb.x0 > bb.x1:
-            # Nothing with an extent was drawn.
-            bb = bbox.BBox((0, 0), (0, 0))
         pre = []
         pre.append("%!PS-Adobe-3.0 EPSF-3.0")
         if size is None:
-- 
2.43.0


From 08088dc182a3579a7c0b9ad2299af80b3cd6c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:42 +0000
Subject: [PATCH 56/97] fix: load frames with ellipsoidal projections

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index b627079..94c331d 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -126,7 +126,7 @@ def load(path):
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-        e = Ellipsoid(*(m[k] for k in 'abef'))
+        e = proj.Ellipsoid(*(m[k] for k in 'abef'))
         prj = Proj(c, e)
     else:
         r = m['r']
-- 
2.43.0


From de81ad9771b8a65268fc524f9aafc75fbb79c483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:42 +0000
Subject: [PATCH 57/97] fix: save and load frames with conic projections

---
 coral/frame.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/coral/frame.py b/coral/frame.py
index 94c331d..e03d39f 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -62,12 +62,19 @@ class Frame:
                 "type": "sphere",
                 "r": self.projection.r
             }
-        rlon, rlat = self.projection.lon0, self.projection.lat0
-        lon, lat = math.degrees(rlon), math.degrees(rlat)
+        if issubclass(type(self.projection), proj.CProj):
+            # Conic projections have parallels instead of a center.
+            where = "parallels"
+            rlats = self.projection.lat1, self.projection.lat2
+            degs = tuple(math.degrees(rlat) for rlat in rlats)
+        else:
+            where = "center"
+            rlon, rlat = self.projection.lon0, self.projection.lat0
+            degs = math.degrees(rlon), math.degrees(rlat)
         d = {
             "projection": {
                 "type": type(self.projection).__name__,
-                "center": (lon, lat),
+                where: degs,
                 "orientation": 0.0,
                 "model": model
             },
@@ -122,7 +129,7 @@ def load(path):
     p = d['projection']
     Proj = getattr(proj, p['type'])
     pt = p['type']
-    c = p['center']
+    c = p['parallels'] if issubclass(Proj, proj.CProj) else p['center']
     m = p['model']
     mt = m['type']
     if mt == 'ellipsoid':
-- 
2.43.0


From 1f34705931538433d818d0f71e8cbdcdc9d6d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:42 +0000
Subject: [PATCH 58/97] fix: keep blanks at the end of cached names

---
 coral/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/frame.py b/coral/frame.py
index e03d39f..1b58d4f 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -118,7 +118,7 @@ class Frame:
         with open("{}.names".format(key), "r") as f:
             names = []
             for line in f:
-                names.append(line.rstrip())
+                names.append(line.rstrip("\n"))
         return names
 
 def load(path):
-- 
2.43.0


From 585923506a68541a3846c533adecc3baa5761359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:42 +0000
Subject: [PATCH 59/97] fix: cache names of entities with repeated names

---
 coral/frame.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/frame.py b/coral/frame.py
index 1b58d4f..0f3f0ce 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -103,8 +103,9 @@ class Frame:
 
     def cachenames(self, key, pff):
         lines = []
-        for name in tqdm.tqdm(pff.names):
-            for points in pff.get(name):
+        for i, name in enumerate(tqdm.tqdm(pff.names)):
+            # Names may be repeated, so that they do not identify an entity.
+            for points in pff.read(i):
                 xys = [self.projection.geo2rect(lon, lat) for lon, lat in points]
                 bb = bbox.BBox(xys)
                 if self.bounding.collide(bb):
-- 
2.43.0


From 5f5e0f05e52dd010a79b65e5de8d3feba2471c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:51 +0000
Subject: [PATCH 60/97] fix: report and clear the caches of max and min

---
 coral/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/stats.py b/coral/stats.py
index 4145aa7..6887a70 100644
--- a/coral/stats.py
+++ b/coral/stats.py
@@ -89,7 +89,7 @@ def gini_deaton(seq):
     g = (n + 1) / (n - 1) - 2 * s / (n * (n - 1) * u)
     return g
 
-memos = [sum, len, avg, var, std_dev, covar, corr, gini_kakwani, gini_deaton]
+memos = [max, min, sum, len, avg, var, std_dev, covar, corr, gini_kakwani, gini_deaton]
 
 CacheInfo = collections.namedtuple("CacheInfo", "hits, misses, maxsize, currsize")
 
-- 
2.43.0


From b0f580089260d981213301c3f8c0b77f7f040355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:51 +0000
Subject: [PATCH 61/97] fix: relative error of two empty strings

---
 coral/names.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/names.py b/coral/names.py
index c2f399e..998fb71 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -67,6 +67,8 @@ def damlev(s1, s2):
 
 def strerr(s1, s2):
     length = len(s1) + len(s2)
+    if length == 0:
+        return 0
     distance = damlev(s1, s2)
     return distance * 2 / length
 
-- 
2.43.0


From 7c574bacd071d90cc2fb8eb68f1223ed5714fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:51 +0000
Subject: [PATCH 62/97] fix: compute the Jaro similarity by its definition

---
 coral/names.py | 41 ++++++++++++++---------------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/coral/names.py b/coral/names.py
index 998fb71..815df5d 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -76,35 +76,22 @@ def strerr(s1, s2):
 def jaro(s1, s2):
     ls1 = len(s1)
     ls2 = len(s2)
-    if ls1 < ls2:
-        s1 += "*" * (ls2 - ls1)
-        length = ls2
-    elif ls2 < ls1:
-        s2 += "*" * (ls1 - ls2)
-        length = ls1
-    else:
-        length = ls1
-    m = 0
-    w = length // 2 - 1
-    p = []
-    for i in range(length):
-        if s1[i] == s2[i]:
-            m += 1
-        else:
-            i0, i1 = max(0, i-w), min(length, i+w+1)
-            f = s2.find(s1[i], i0, i1)
-            if f >= 0:
-                m += 1
-                p.append(f)
+    w = max(max(ls1, ls2) // 2 - 1, 0)
+    m1 = []
+    free = list(range(ls2))
+    used = []
+    for i, c in enumerate(s1):
+        for j in free:
+            if abs(i - j) <= w and s2[j] == c:
+                m1.append(c)
+                used.append(j)
+                free.remove(j)
+                break
+    m = len(m1)
     if m == 0:
         return 0
-    t = 0
-    x = 0
-    for f in p:
-        if f < x:
-            t += 1
-        else:
-            x = f
+    m2 = [s2[j] for j in sorted(used)]
+    t = sum(c1 != c2 for c1, c2 in zip(m1, m2)) / 2
     return (m / ls1 + m / ls2 + (m - t) / m) / 3
 
 # http://en.wikipedia.org/wiki/Jaro%E2%80%93Winkler_distance
-- 
2.43.0


From edc8f19bdaccb4a5a5df6b36b3ed919804fc2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:51 +0000
Subject: [PATCH 63/97] fix: undefined names in abbreviations

---
 coral/names.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index 815df5d..cda6cd4 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -19,6 +19,7 @@
 # THE SOFTWARE.
 
 import collections
+import itertools
 
 def ascii(s):
     src = "áàãâäéèẽêëíìĩîïóòõôöúùũûüç"
@@ -118,7 +119,7 @@ def mapping(keys, values):
     m.sort(key=lambda match: -match.score)
     return m
 
-def abbreviations(names, length):
+def abbreviations(names, length, extras=()):
     norm = lambda name: ascii(name.upper())
     inames = [(i, norm(name)) for i, name in enumerate(names)]
     inames.sort(key=len)
-- 
2.43.0


From 9a57507c796797d9e82e00b6f85d0199b7d1bac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:51 +0000
Subject: [PATCH 64/97] fix: unique abbreviations among names that fit

---
 coral/names.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/names.py b/coral/names.py
index cda6cd4..c81c5c4 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -122,7 +122,8 @@ def mapping(keys, values):
 def abbreviations(names, length, extras=()):
     norm = lambda name: ascii(name.upper())
     inames = [(i, norm(name)) for i, name in enumerate(names)]
-    inames.sort(key=len)
+    # Names that fit come first, so that they can be kept whole.
+    inames.sort(key=lambda iname: len(iname[1]))
     counter = collections.Counter()
     for i, name in inames:
         counter.update(set(name))
@@ -133,7 +134,7 @@ def abbreviations(names, length, extras=()):
         tname = name[:]
         for extra in extras:
             tname = tname.replace(" {} ".format(extra), " ")
-        if len(tname) <= length:
+        if len(tname) <= length and tname not in abbset:
             abb = tname
         else:
             ics = list(enumerate(tname))
-- 
2.43.0


From 5965acd58fd907b983b80359d7819bf770e9d655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:51 +0000
Subject: [PATCH 65/97] fix: abbreviate names that only exceed the length by
 their blanks

---
 coral/names.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index c81c5c4..0a3414d 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -147,7 +147,7 @@ def abbreviations(names, length, extras=()):
                 ic = (initi, tname[initi])
                 ics.remove(ic)
                 ics.insert(j, ic)
-            for comb in itertools.combinations(ics, length):
+            for comb in itertools.combinations(ics, min(length, len(ics))):
                 comb = list(comb)
                 comb.sort(key=lambda ic: ic[0])
                 abb = "".join(c for i, c in comb)
-- 
2.43.0


From 8a1120c72a5917c4e2b37e396af566b2065b4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:06 +0000
Subject: [PATCH 66/97] fix: keep values under their columns when reading
 selected keys

---
 coral/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 28b22f3..8c2fdf7 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -87,7 +87,7 @@ def readfile(path, keys=None, sep=',', comm='#'):
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-        indexes = [i for i in range(len(fkeys)) if fkeys[i] in keys]
+        indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
             line = line.split(comm)[0].strip()
-- 
2.43.0


From 32a2e37aba9593fc7b5282e69f8927dc84cd6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:06 +0000
Subject: [PATCH 67/97] fix: refuse tables without header instead of reading
 forever

---
 coral/table.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/coral/table.py b/coral/table.py
index 8c2fdf7..c3b7ea2 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -83,7 +83,10 @@ def readfile(path, keys=None, sep=',', comm='#'):
     with codecs.open(path, "r", "utf8") as f:
         line = ""
         while not line:
-            line = f.readline().split(comm)[0].strip()
+            line = f.readline()
+            if not line:
+                raise ValueError("missing header: {}".format(path))
+            line = line.split(comm)[0].strip()
         fkeys = line.split(sep)
         if keys is None:
             keys = fkeys
-- 
2.43.0


From 43683bf685314d95a61a8985b051ed8858bc907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:06 +0000
Subject: [PATCH 68/97] fix: read empty values at the end of blank separated
 rows

---
 coral/table.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/coral/table.py b/coral/table.py
index c3b7ea2..69ca327 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -93,10 +93,13 @@ def readfile(path, keys=None, sep=',', comm='#'):
         indexes = [fkeys.index(key) for key in keys]
         Row = collections.namedtuple("Row", keys)
         for line in f:
-            line = line.split(comm)[0].strip()
-            if not line:
+            line = line.split(comm)[0]
+            if not line.strip():
                 continue
+            # Blanks at the end may be separators.
             fvalues = line.split(sep)
+            fvalues[0] = fvalues[0].lstrip()
+            fvalues[-1] = fvalues[-1].rstrip()
             values = [fvalues[i] for i in indexes]
             table.append(Row(*values))
     return table
-- 
2.43.0


From a203e59faada50f70abc6dedb96bd1081d555b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:06 +0000
Subject: [PATCH 69/97] fix: order of columns of joined tables

---
 coral/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coral/table.py b/coral/table.py
index 69ca327..0b1569e 100644
--- a/coral/table.py
+++ b/coral/table.py
@@ -25,9 +25,9 @@ def join(t1, t2, pivots=None, keys=None):
     keys1 = t1[0]._fields
     keys2 = t2[0]._fields
     if pivots is None:
-        pivots = list(set(keys1) & set(keys2))
+        pivots = [key for key in keys1 if key in keys2]
     if keys is None:
-        keys = list(set(keys1) | set(keys2))
+        keys = keys1 + tuple(key for key in keys2 if key not in keys1)
     Row = collections.namedtuple("Row", keys)
     table = []
     for r1 in t1:
-- 
2.43.0


From 45b14bd015c1cb8d50e152e39938e9831306d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:26 +0000
Subject: [PATCH 70/97] fix: progress of iterables without length

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index 13ce086..eac33aa 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -39,7 +39,7 @@ def format_meter(n, total, elapsed):
     # n - number of finished iterations
     # total - total number of iterations, or None
     # elapsed - number of seconds passed since start
-    if n > total:
+    if total is not None and n > total:
         total = None
     
     elapsed_str = format_interval(elapsed)
-- 
2.43.0


From e4c674b5095a1b5b9e399780be27355a94df83fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:26 +0000
Subject: [PATCH 71/97] fix: delete the traces of a progress meter on its own
 stream

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index eac33aa..a8fabec 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -118,7 +118,7 @@ def tqdm(iterable, desc='', total=None, leave=True, file=sys.stderr,
     
     if not leave:
         sp.print_status('')
-        sys.stdout.write('\r')
+        file.write('\r')
     else:
         if last_print_n < n:
             cur_t = time.time()
-- 
2.43.0


From 44dfa93cf3e0e863662af1e196c10235a708bdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:26 +0000
Subject: [PATCH 72/97] fix: percentage of a progress meter, e.g. of 29 out of
 100

---
 coral/tqdm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/tqdm.py b/coral/tqdm.py
index a8fabec..4a4da24 100644
--- a/coral/tqdm.py
+++ b/coral/tqdm.py
@@ -52,7 +52,7 @@ def format_meter(n, total, elapsed):
         bar_length = int(frac*N_BARS)
         bar = '#'*bar_length + '-'*(N_BARS-bar_length)
         
-        percentage = '%3d%%' % (frac * 100)
+        percentage = '%3d%%' % (n * 100 / total)
         
         left_str = format_interval(elapsed / n * (total-n)) if n else '?'
         
-- 
2.43.0


From 4177b56bd230f94373f5af27b416bc2f67dc0e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:32 +0000
Subject: [PATCH 73/97] fix: mixed up drawings when exported at the same time

---
 coral/vector.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index b3f228a..5b3669f 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -319,13 +319,10 @@ class Canvas:
 
     def export(self, path, device='png256', *args, **kwargs):
         # useful devices: png{16,48,256,mono,gray,alpha}
-        pspath = "/tmp/tempeps.ps"
-        self.save(pspath, *args, **kwargs)
-        cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-        cmd += "-sDEVICE={} -sOutputFile='{}' {}".format(device, path, pspath)
-        ret = subprocess.call(cmd, shell=True)
-        os.remove(pspath)
-        return ret
+        # Other drawings may be exported at the same time.
+        with tempfile.NamedTemporaryFile(suffix=".ps") as f:
+            self.save(f.name, *args, **kwargs)
+            return export(f.name, path, device)
 
 def export(pspath, output, device='png256'):
     # useful devices: png{16,48,256,mono,gray,alpha}
-- 
2.43.0


From a2a733d18f922a4041f94278d4a5b9c21086a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:32 +0000
Subject: [PATCH 74/97] fix: export files with blanks or quotes in their paths

---
 coral/vector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/coral/vector.py b/coral/vector.py
index 5b3669f..80bb2f1 100644
--- a/coral/vector.py
+++ b/coral/vector.py
@@ -327,7 +327,8 @@ class Canvas:
 def export(pspath, output, device='png256'):
     # useful devices: png{16,48,256,mono,gray,alpha}
     cmd  = "gs -q -dNOPAUSE -dBATCH -dEPSCrop "
-    cmd += "-sDEVICE={} -sOutputFile={} {}".format(device, output, pspath)
+    cmd += "-sDEVICE={} -sOutputFile={} {}".format(
+        device, shlex.quote(output), shlex.quote(pspath))
     ret = subprocess.call(cmd, shell=True)
     return ret
 
@@ -346,7 +347,7 @@ def animation(gifpath, frames, delay=10, *args, **kwargs):
             path = fmt.format(i)
             canvas.export(path, *args, **kwargs)
             paths.append(path)
-        paths = " ".join(paths)
+        paths = " ".join(shlex.quote(path) for path in paths)
         cmd = "convert -delay {} -loop 0 {} {}".format(delay, paths, shlex.quote(gifpath))
         status = subprocess.call(cmd, shell=True)
     return status
-- 
2.43.0


From 70146dd36d198e7ece9f5719d999542b6d70b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 75/97] fix: a cut shapefile index must not be used in part
 after a failed read

---
 coral/shapefile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 11eead9..de950d3 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -399,10 +399,12 @@ class Reader:
             shp.seek(0,2)
             length = shp.tell()
             position = 100
+            offsets = []
             while position < length:
-                self._offsets.append(position)
+                offsets.append(position)
                 shp.seek(position + 4)
                 position += 8 + 2 * unpack(">i", shp.read(4))[0]
+            self._offsets = offsets
         if shx and not self._offsets:
             # File length (16-bit word * 2 = bytes) - header length
             shx.seek(24)
@@ -410,10 +412,12 @@ class Reader:
             numRecords = shxRecordLength // 8
             # Jump to the first record.
             shx.seek(100)
+            offsets = []
             for r in range(numRecords):
                 # Offsets are 16-bit words just like the file length
-                self._offsets.append(unpack(">i", shx.read(4))[0] * 2)
+                offsets.append(unpack(">i", shx.read(4))[0] * 2)
                 shx.seek(shx.tell() + 4)
+            self._offsets = offsets
         return self._offsets[self.__restrictIndex(i, len(self._offsets))]
 
     def shape(self, i=0):
-- 
2.43.0


From 70b6c4bcb38e2a3c48114d151c4c3471a161d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:59 +0000
Subject: [PATCH 76/97] fix: an interrupted save must not leave a shapefile
 that reads as other shapes

---
 coral/shapefile.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index de950d3..a42b201 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -31,6 +31,7 @@ Compatible with Python versions 2.4-3.x
 __version__ = "1.1.9"
 
 from struct import pack, unpack, calcsize, error
+import io
 import os
 import sys
 import time
@@ -948,11 +949,16 @@ class Writer:
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.shp'
         self.__setShapeType()
-        self.shp = self.__getFileObj(target)
-        # The header needs the record lengths
+        # The header needs the record lengths, and these are filled in later,
+        # so an interrupted save must not leave the file as it is until then
+        self.shp = io.BytesIO()
         self.__shpRecords()
-        self.shp.truncate()
         self.__shapefileHeader(self.shp, headerType='shp')
+        content = self.shp.getvalue()
+        self.shp = self.__getFileObj(target)
+        self.shp.seek(0)
+        self.shp.write(content)
+        self.shp.truncate()
         self.shp.flush()
 
     def saveShx(self, target):
-- 
2.43.0


From e044629e442881a268839b840900c93683ba3c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 77/97] fix: refuse names with a null character in P files

---
 coral/pf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/pf.py b/coral/pf.py
index 9e21960..39111cd 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -163,7 +163,9 @@ class Writer:
         self.fmt, self.umax = getfmt(size)
 
     def write(self, name, polygons):
-        name.encode("ascii")
+        if b'\x00' in name.encode("ascii"):
+            # The name ends there in the file.
+            raise ValueError("invalid name: {!r}".format(name))
         # Do not repeat first point at the end.
         parts = [[None] * len(polygon) for polygon in polygons]
         for i, polygon in enumerate(polygons):
-- 
2.43.0


From ff9c223deed949e78d07fefb7e0841444a82b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 78/97] fix: writing infinite or huge coordinates to a P file
 never ended

---
 coral/pf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coral/pf.py b/coral/pf.py
index 39111cd..5fbf8bc 100644
--- a/coral/pf.py
+++ b/coral/pf.py
@@ -170,6 +170,8 @@ class Writer:
         parts = [[None] * len(polygon) for polygon in polygons]
         for i, polygon in enumerate(polygons):
             for j, (lon, lat) in enumerate(polygon):
+                # The loops below never end for infinite or huge values.
+                lon, lat = math.fmod(lon, 360), math.fmod(lat, 180)
                 while lon < -180:
                     lon += 360
                 while lon > 180:
-- 
2.43.0


From 7ddd563ee32faf1183f959142967fd6eb04423ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 79/97] fix: refuse ids with line breaks in RangeGrid files

---
 coral/rg.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/rg.py b/coral/rg.py
index e0a99ff..877f464 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -198,6 +198,9 @@ class Writer:
         rg = self.rg
         if id_ is None:
             id_ = len(self.index)
+        # There is one line for each id in the index.
+        if "\n" in str(id_) or "\r" in str(id_):
+            raise ValueError("invalid id: {!r}".format(id_))
         lens = []
         data = []
         for rows in segs:
-- 
2.43.0


From f30ce1618fee38426760ca36b26d24324f2165f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 80/97] fix: polygons reaching over the top of a canvas were
 filled at its bottom

---
 coral/raster.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 7bb911d..6723c24 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -48,14 +48,15 @@ class BaseCanvas:
                 # consider all segments going downwards to align triggers.
                 (x0, y0), (x1, y1) = (x1, y1), (x0, y0)
             if x0 == x1:
-                while y0 < y1:
-                    heapq.heappush(scans[y0], (x0, down))
-                    y0 += 1
+                for y in range(max(y0, 0), min(y1, self.height)):
+                    heapq.heappush(scans[y], (x0, down))
             else:
                 sx = x0 < x1 and 1 or -1
                 slope = abs((y1 - y0) / (x1 - x0))
                 while y0 < y1:
-                    heapq.heappush(scans[y0], (round(x0), down))
+                    # Rows off the canvas are not filled.
+                    if 0 <= y0 < self.height:
+                        heapq.heappush(scans[y0], (round(x0), down))
                     y0 += 1
                     x0 += sx / slope
         return scans
-- 
2.43.0


From 021009665d6dd33b3de1df8578b1727ec791c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 81/97] fix: RangeGrid files with column names that are no
 identifiers could not be read

---
 coral/rg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 877f464..6904071 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -268,7 +268,7 @@ class Reader:
             else:
                 raise TypeError
         self.row = GRow(*fields)
-        self.nt = collections.namedtuple("Row", (field.name for field in fields))
+        self.nt = collections.namedtuple("Row", (field.name for field in fields), rename=True)
         self.datapos = rg.tell()
 
     def read(self, id_=None):
-- 
2.43.0


From 0f1d5ff4a7cb40f847927942a045c702121524e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:23 +0000
Subject: [PATCH 82/97] fix: refuse column names with a null character in
 RangeGrid files

---
 coral/rg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 6904071..4cf8bff 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -177,7 +177,11 @@ class Writer:
         # Skip nrows for now; see close() method.
         rg.seek(4, io.SEEK_CUR)
         for field in self.row.fields:
-            rg.write(field.name.encode("ascii"))
+            name = field.name.encode("ascii")
+            if b'\x00' in name:
+                # The name ends there in the file.
+                raise ValueError("invalid name: {!r}".format(field.name))
+            rg.write(name)
             rg.write(b'\x00')
             if isinstance(field, IVar):
                 rg.write(b'\x00')
-- 
2.43.0


From d35f0ab470e96bef1d979b5df3ffaf5493cec04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:05 +0000
Subject: [PATCH 83/97] fix: rows with more values than columns lost them
 silently

---
 coral/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/coral/grid.py b/coral/grid.py
index 9fb7649..122238e 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -161,6 +161,7 @@ class GRow:
         return len(self.fields)
 
     def encode(self, *values):
+        assert len(values) == len(self.fields)
         data = b''.join(f.encode(v) for (f, v) in zip(self.fields, values))
         assert len(data) == self.size
         return data
-- 
2.43.0


From f44bb09fa6f81e134ed57553a61df4816dcde4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 84/97] fix: lines that leave a canvas came in again on its
 other side

---
 coral/raster.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/coral/raster.py b/coral/raster.py
index 6723c24..2bd708e 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -31,6 +31,9 @@ nearest = lambda x: int(x + math.copysign(0.5, x))
 
 class BaseCanvas:
 
+    def haspixel(self, x, y):
+        return 0 <= x < self.width and 0 <= y < self.height
+
     def scanpolygon(self, points, scans=None):
         """Create perimeter marks for scanlines, used to fill polygons.
         This can be called for multiple polygons, passing intermediate
@@ -85,7 +88,8 @@ class BaseCanvas:
         sy = y0 < y1 and 1 or -1
         err = dx - dy
         while True:
-            self[x0, y0] = color
+            if self.haspixel(x0, y0):
+                self[x0, y0] = color
             if (x0, y0) == (x1, y1):
                 break
             e2 = 2 * err
@@ -93,7 +97,8 @@ class BaseCanvas:
                 err -= dy
                 x0 += sx
             if (x0, y0) == (x1, y1):
-                self[x0, y0] = color
+                if self.haspixel(x0, y0):
+                    self[x0, y0] = color
                 break
             if e2 < dx:
                 err += dx
@@ -102,15 +107,14 @@ class BaseCanvas:
     def aaline(self, start, end, color):
         "Draw anti-aliased line using Xiaolin Wu's algorithm."
 
-        ipart   = int
-        fpart   = lambda x: math.modf(x)[0]
-        rfpart  = lambda x: 1 - math.modf(x)[0]
+        ipart   = math.floor
+        fpart   = lambda x: x - math.floor(x)
+        rfpart  = lambda x: 1 - fpart(x)
         if not isinstance(color, tuple):
             color = color,
 
         def plot(x, y, alpha):
-            # Pixels without coverage may be off the canvas.
-            if alpha:
+            if alpha and self.haspixel(x, y):
                 self[x, y] = color + (alpha,)
 
         x0, y0 = start
-- 
2.43.0


From ca37a4e85ac7f6e9f17954959c85404d21b28695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 85/97] fix: anti-aliased lines ending between pixels covered
 the uncovered part of the last one

---
 coral/raster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/raster.py b/coral/raster.py
index 2bd708e..ef84c5b 100644
--- a/coral/raster.py
+++ b/coral/raster.py
@@ -147,7 +147,7 @@ class BaseCanvas:
         # Line end.
         xend = nearest(x1)
         yend = y1 + gradient * (xend - x1)
-        xgap = rfpart(x1 + 0.5)
+        xgap = fpart(x1 + 0.5)
         xpxl2 = xend
         ypxl2 = ipart(yend)
         alpha1 = rfpart(yend) * xgap
-- 
2.43.0


From e87497b6533ded97d90d86ae28f3a4f8b9e358f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 86/97] fix: the distance between many antipodal points could
 not be computed

Rounding errors take the haversine beyond 1 there: haversine(-180, -82, 0, 82)
raised ValueError.
---
 coral/coord.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 73c9238..3198920 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -120,7 +120,8 @@ def haversine(lon1, lat1, lon2, lat2, R=None):
     a1 = math.sin(dLat / 2) * math.sin(dLat / 2)
     a2 = math.sin(dLon / 2) * math.sin(dLon / 2) * math.cos(lat1) * math.cos(lat2)
     a = a1 + a2
-    c = 2 * math.atan2(math.sqrt(a), math.sqrt(1 - a))
+    # At antipodal points a may exceed 1 due to rounding errors.
+    c = 2 * math.atan2(math.sqrt(a), math.sqrt(max(1 - a, 0)))
     d = R * c
     return d
 
-- 
2.43.0


From 0ec1ade6e6762813d4643596e9a138bf613fc169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 87/97] fix: destinations at the poles could not be computed
 from many places

Rounding errors take the sine of the latitude beyond 1 there: ValueError.
---
 coral/coord.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/coord.py b/coral/coord.py
index 3198920..3244822 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -157,7 +157,7 @@ def destination(lon, lat, bear, dist, R=None):
     sind = math.sin(d)
     costc = math.cos(tc)
     sintc = math.sin(tc)
-    lat = math.asin(sinlat*cosd + coslat*sind*costc)
+    lat = proj.asin(sinlat*cosd + coslat*sind*costc)
     dlon = math.atan2(sintc*sind, coslat*cosd - sinlat*sind*costc)
     lon = corangle(rlon - dlon)
     lon, lat = math.degrees(lon), math.degrees(lat)
-- 
2.43.0


From 2e764005037fc0955f2010ebc609a7edea0a2c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 88/97] fix: regions with a part that has no area had no
 centroid

A polygon of two vertices, or with all vertices in a line of the map, raised
ZeroDivisionError although it adds nothing to the region.
---
 coral/coord.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/coral/coord.py b/coral/coord.py
index 3244822..f239ef8 100644
--- a/coral/coord.py
+++ b/coral/coord.py
@@ -211,17 +211,15 @@ def geocentroid(region, bb=None, epsilon=None):
                 cx += (x0 + x1) * f
                 cy += (y0 + y1) * f
                 sa += f
-            d = 3 * sa
-            cx /= d
-            cy /= d
             cw.append(((cx, cy), sa))
         cx = cy = sw = 0
+        # Moments are not divided yet, for some polygon may have no area.
         for (x, y), w in cw:
-            cx += x * w
-            cy += y * w
+            cx += x
+            cy += y
             sw += w
-        cx /= sw
-        cy /= sw
+        cx /= 3 * sw
+        cy /= 3 * sw
         c1 = prj.rect2geo(cx, cy)
         # Compare on the plane, for longitudes mean nothing at the poles.
         if math.hypot(cx, cy) <= prj.r * math.radians(epsilon):
-- 
2.43.0


From 742be70a5e3f147f61d780f599ef60e25590d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 89/97] fix: names with line breaks were cached as other names

The cache has one name per line, so "a\nb" was loaded as two names.
---
 coral/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/frame.py b/coral/frame.py
index 0f3f0ce..c44cdc1 100644
--- a/coral/frame.py
+++ b/coral/frame.py
@@ -109,6 +109,9 @@ class Frame:
                 xys = [self.projection.geo2rect(lon, lat) for lon, lat in points]
                 bb = bbox.BBox(xys)
                 if self.bounding.collide(bb):
+                    # The cache holds one name per line.
+                    if "\n" in name or "\r" in name:
+                        raise ValueError("Name with a line break: {!r}.".format(name))
                     lines.append(name + "\n")
                     break
         with open("{}.names".format(key), "w") as f:
-- 
2.43.0


From bd35c61057cf1b107125abbf2be5755a1c61df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:10 +0000
Subject: [PATCH 90/97] fix: asking for a scale that is not implemented raised
 TypeError

NotImplemented cannot be called.
---
 coral/proj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index 30f12b5..dda20ae 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -256,7 +256,7 @@ class EckertIV(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Eckert IV")
+        raise NotImplementedError("scale is not implemented for Eckert IV")
 
 class Stereographic(Proj):
     "Stereographic Projection for the Spherical Earth."
@@ -302,7 +302,7 @@ class Stereographic(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Stereographic")
+        raise NotImplementedError("scale is not implemented for Stereographic")
 
 class AzimuthalEquidistant(Proj):
     "Azimuthal Equidistant Projection for the Spherical Earth."
@@ -351,7 +351,7 @@ class AzimuthalEquidistant(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Azimuthal Equidistant")
+        raise NotImplementedError("scale is not implemented for Azimuthal Equidistant")
 
 class AzimuthalEqualArea(Proj):
     "Lambert Azimuthal Equal-Area Projection for the Spherical Earth."
@@ -397,7 +397,7 @@ class AzimuthalEqualArea(Proj):
         return lon, lat
 
     def scale(self, lon, lat):
-        raise NotImplemented("scale is not implemented for Azimuthal Equal-Area")
+        raise NotImplementedError("scale is not implemented for Azimuthal Equal-Area")
 
 class ConicEqualArea(CProj):
     "Albers Equal-Area Conic Projection for the Spherical Earth."
-- 
2.43.0


From 1745d5e1768138fbd775b0f91aa724cc60e33399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:08 +0000
Subject: [PATCH 91/97] fix: a word to leave out of abbreviations counted when
 repeated

In "ROSA DE DE LIMA" only the first "DE" was left out.
---
 coral/names.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coral/names.py b/coral/names.py
index 0a3414d..c226505 100644
--- a/coral/names.py
+++ b/coral/names.py
@@ -133,7 +133,9 @@ def abbreviations(names, length, extras=()):
     for i, name in inames:
         tname = name[:]
         for extra in extras:
-            tname = tname.replace(" {} ".format(extra), " ")
+            # Words that follow each other share a blank.
+            while " {} ".format(extra) in tname:
+                tname = tname.replace(" {} ".format(extra), " ")
         if len(tname) <= length and tname not in abbset:
             abb = tname
         else:
-- 
2.43.0


From 1234a93f57cd1d26142e1ed88bfdcefaa6126c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:01 +0000
Subject: [PATCH 92/97] fix: a text ending in zero bytes lost them in a
 RangeGrid field

---
 coral/grid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coral/grid.py b/coral/grid.py
index 122238e..9551e7d 100644
--- a/coral/grid.py
+++ b/coral/grid.py
@@ -143,6 +143,9 @@ class SVar:
             return b'\xff' * self.size
         data = value.encode("utf8")
         assert len(data) <= self.size
+        if data.endswith(b'\x00'):
+            # Zeros at the end are taken for padding.
+            raise ValueError("invalid value: {!r}".format(value))
         return data.ljust(self.size, b'\x00')
 
     def decode(self, data):
-- 
2.43.0


From d10d914509af63bf8f55319f68772e6bcae77abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:32 +0000
Subject: [PATCH 93/97] fix: azimuthal maps of points near the antipode

---
 coral/proj.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/coral/proj.py b/coral/proj.py
index dda20ae..dd2d8e5 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -319,12 +319,14 @@ class AzimuthalEquidistant(Proj):
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
         cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
-        c = math.acos(min(max(cosc, -1), 1))
+        x = coslat * sinlon
+        y = self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
+        # The cosine alone says little about points near the antipode.
+        sinc = math.hypot(x, y)
         # The limit at the center avoids a division by zero.
-        k = c / math.sin(c) if c else 1
-        x = y = self.r * k
-        x *= coslat * sinlon
-        y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
+        k = math.atan2(sinc, cosc) / sinc if sinc else 1
+        x *= self.r * k
+        y *= self.r * k
         return x, y
 
     def rect2geo(self, x, y):
@@ -367,10 +369,16 @@ class AzimuthalEqualArea(Proj):
         sinlat = math.sin(lat)
         coslon = math.cos(lon - self.lon0)
         sinlon = math.sin(lon - self.lon0)
-        k = math.sqrt(2 / (1 + self.sinlat0 * sinlat + self.coslat0 * coslat * coslon))
-        x = y = self.r * k
-        x *= coslat * sinlon
-        y *= self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
+        cosc = self.sinlat0 * sinlat + self.coslat0 * coslat * coslon
+        x = coslat * sinlon
+        y = self.coslat0 * sinlat - self.sinlat0 * coslat * coslon
+        if cosc > 0:
+            k = math.sqrt(2 / (1 + cosc))
+        else:
+            # The same, without the cancellation near the antipode.
+            k = math.sqrt(2 * (1 - cosc)) / math.hypot(x, y)
+        x *= self.r * k
+        y *= self.r * k
         return x, y
 
     def rect2geo(self, x, y):
-- 
2.43.0


From bd8a7d98bb812ebcfbd9826c58e5cb534dd9729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:40 +0000
Subject: [PATCH 94/97] fix: conic projection of longitudes beyond the
 antimeridian

---
 coral/proj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coral/proj.py b/coral/proj.py
index dd2d8e5..096b93a 100644
--- a/coral/proj.py
+++ b/coral/proj.py
@@ -424,7 +424,7 @@ class ConicEqualArea(CProj):
         lon, lat = math.radians(lon), math.radians(lat)
         sinlat = math.sin(lat)
         p = self.r * math.sqrt(max(self.c - 2 * self.n * sinlat, 0)) / self.n
-        t = self.n * lon
+        t = self.n * corangle(lon)
         x = p * math.sin(t)
         y = self.p0 - p * math.cos(t)
         return x, y
-- 
2.43.0


From 3a8f8a43973c02ff1c81f3a44f472f40d978f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:39 +0000
Subject: [PATCH 95/97] fix: a shapefile that could not be written is not left
 open

---
 coral/shapefile.py | 46 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index a42b201..37ece01 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -628,6 +628,16 @@ class Writer:
                 os.makedirs(pth)
             return open(f, "wb")
 
+    def __abandon(self, f, target):
+        """Closes a file that could not be written, unless it is the caller's.
+        Left open, it would write what it still holds when it is dropped, over
+        whatever is there by then."""
+        if f is not target:
+            try:
+                f.close()
+            except OSError:
+                pass
+
     def __shpFileLength(self):
         """Calculates the file length of the shp file."""
         # Header length and record headers, in 16-bit words
@@ -956,10 +966,14 @@ class Writer:
         self.__shapefileHeader(self.shp, headerType='shp')
         content = self.shp.getvalue()
         self.shp = self.__getFileObj(target)
-        self.shp.seek(0)
-        self.shp.write(content)
-        self.shp.truncate()
-        self.shp.flush()
+        try:
+            self.shp.seek(0)
+            self.shp.write(content)
+            self.shp.truncate()
+            self.shp.flush()
+        except:
+            self.__abandon(self.shp, target)
+            raise
 
     def saveShx(self, target):
         """Save an shx file."""
@@ -967,20 +981,28 @@ class Writer:
             target = os.path.splitext(target)[0] + '.shx'
         self.__setShapeType()
         self.shx = self.__getFileObj(target)
-        self.__shapefileHeader(self.shx, headerType='shx')
-        self.__shxRecords()
-        self.shx.truncate()
-        self.shx.flush()
+        try:
+            self.__shapefileHeader(self.shx, headerType='shx')
+            self.__shxRecords()
+            self.shx.truncate()
+            self.shx.flush()
+        except:
+            self.__abandon(self.shx, target)
+            raise
 
     def saveDbf(self, target):
         """Save a dbf file."""
         if not hasattr(target, "write"):
             target = os.path.splitext(target)[0] + '.dbf'
         self.dbf = self.__getFileObj(target)
-        self.__dbfHeader()
-        self.__dbfRecords()
-        self.dbf.truncate()
-        self.dbf.flush()
+        try:
+            self.__dbfHeader()
+            self.__dbfRecords()
+            self.dbf.truncate()
+            self.dbf.flush()
+        except:
+            self.__abandon(self.dbf, target)
+            raise
 
     def save(self, target=None, shp=None, shx=None, dbf=None):
         """Save the shapefile data to three files or
-- 
2.43.0


From 3c2b66cb56909265b14ae8eb317fe5c49e2caec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:39 +0000
Subject: [PATCH 96/97] fix: RangeGrid entities after one that found no room

---
 coral/rg.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/coral/rg.py b/coral/rg.py
index 4cf8bff..e1daa54 100644
--- a/coral/rg.py
+++ b/coral/rg.py
@@ -197,6 +197,7 @@ class Writer:
             if isinstance(field, (IVar, FVar)):
                 writesvlv(rg, field.minv)
                 writesvlv(rg, field.maxv)
+        self.endpos = rg.tell()
 
     def write(self, segs, id_=None):
         rg = self.rg
@@ -214,7 +215,12 @@ class Writer:
                 length += 1
             lens.append(length)
         # Nothing is written unless the whole entity can be encoded.
-        rg.write(b''.join(data))
+        data = b''.join(data)
+        if rg.tell() != self.endpos:
+            # There was no room for an entity, but for a part of it.
+            rg.seek(self.endpos)
+        rg.write(data)
+        self.endpos += len(data)
         self.index.append((id_, lens))
 
     def close(self):
-- 
2.43.0


From 367e0c6542ec416fa3b6fd798549703971e53886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:25 +0000
Subject: [PATCH 97/97] fix: geometry interface of lines and polygons without
 any parts

---
 coral/shapefile.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coral/shapefile.py b/coral/shapefile.py
index 37ece01..f537eee 100644
--- a/coral/shapefile.py
+++ b/coral/shapefile.py
@@ -139,7 +139,7 @@ class _Shape:
             'coordinates': tuple([tuple(p) for p in self.points])
             }
         elif self.shapeType in [POLYLINE, POLYLINEM, POLYLINEZ]:
-            if len(self.parts) == 1:
+            if len(self.parts) <= 1:
                 return {
                 'type': 'LineString',
                 'coordinates': tuple([tuple(p) for p in self.points])
@@ -161,7 +161,12 @@ class _Shape:
                 'coordinates': tuple(coordinates)
                 }
         elif self.shapeType in [POLYGON, POLYGONM, POLYGONZ]:
-            if len(self.parts) == 1:
+            if len(self.parts) == 0:
+                return {
+                'type': 'Polygon',
+                'coordinates': ()
+                }
+            elif len(self.parts) == 1:
                 return {
                 'type': 'Polygon',
                 'coordinates': (tuple([tuple(p) for p in self.points]),)
-- 
2.43.0

