From 4f13ba56e845e007cb7b6943266627ec4efcc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 01/28] fix: geodetic2eci passes delta_ut1, xp, yp on to
 ecef2eci

---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 587f0df..138725b 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -549,7 +549,7 @@ def geodetic2eci(
 
     x, y, z = geodetic2ecef(lat, lon, alt, ell, deg)
 
-    return ecef2eci(x, y, z, t)
+    return ecef2eci(x, y, z, t, delta_ut1=delta_ut1, xp=xp, yp=yp)
 
 
 def enu2ecef(
-- 
2.43.0


From 30c12d16a80d020b27530d30eaf0899ffe71c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 02/28] fix: lookAtSpheroid uses the given ellipsoid for its
 geodetic/ECEF conversions

---
 src/pymap3d/los.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/los.py b/src/pymap3d/los.py
index f03abee..7eeeb54 100644
--- a/src/pymap3d/los.py
+++ b/src/pymap3d/los.py
@@ -76,7 +76,7 @@ def lookAtSpheroid(
     # fixed 1 km slant range
 
     u, v, w = enu2uvw(e, n, u, lat0, lon0, deg=deg)
-    x, y, z = geodetic2ecef(lat0, lon0, h0, deg=deg)
+    x, y, z = geodetic2ecef(lat0, lon0, h0, ell, deg=deg)
 
     value = -(a**2) * b**2 * w * z - a**2 * c**2 * v * y - b**2 * c**2 * u * x
     radical = (
@@ -112,6 +112,6 @@ def lookAtSpheroid(
             d = nan
 
     # %% cartesian to ellipsodal
-    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, deg=deg)
+    lat, lon, _ = ecef2geodetic(x + d * u, y + d * v, z + d * w, ell, deg=deg)
 
     return lat, lon, d
-- 
2.43.0


From b8ae293e0b7fb94d5e398b063da37a718f8f2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 03/28] fix: enu2aer no longer writes into the caller's arrays

---
 src/pymap3d/enu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/enu.py b/src/pymap3d/enu.py
index ef78eaa..a185867 100644
--- a/src/pymap3d/enu.py
+++ b/src/pymap3d/enu.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from copy import copy
 from math import tau
 
 from ._typing import FloatLike
@@ -52,6 +53,8 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
     # 1 millimeter precision for singularity stability
 
     def _zero_trim_numpy(x, y, z) -> tuple:
+        # work on copies: the caller keeps its arrays
+        x, y, z = copy(x), copy(y), copy(z)
         x[abs(x) < 1e-3] = 0.0
         y[abs(y) < 1e-3] = 0.0
         z[abs(z) < 1e-3] = 0.0
-- 
2.43.0


From f10926d129442dfd2384c94f17269a200d77e757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 04/28] fix: vdist, vreckon with deg=False no longer write into
 the caller's latitudes

---
 src/pymap3d/vincenty.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index d975633..e73d153 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -105,6 +105,10 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         lon1 = radians(lon1)
         lat2 = radians(lat2)
         lon2 = radians(lon2)
+    else:
+        # the poles are nudged below: the caller keeps its arrays
+        lat1 = copy(lat1)
+        lat2 = copy(lat2)
 
     try:
         if (abs(lat1) > pi / 2).any() | (abs(lat2) > pi / 2).any():
@@ -341,6 +345,9 @@ def vreckon(
         lat1 = radians(lat1)  # intial latitude in radians
         lon1 = radians(lon1)  # intial longitude in radians
         azim = radians(azim)
+    else:
+        # the poles are nudged below: the caller keeps its arrays
+        lat1 = copy(lat1)
 
     try:
         if (abs(lat1) > pi / 2).any():
-- 
2.43.0


From 07fa570906fd4bb298137f64135915a424663143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 05/28] fix: vdist of arrays: a coincident pair no longer
 changes the other pairs

---
 src/pymap3d/vincenty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index e73d153..108fde3 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -171,7 +171,7 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
 
         try:
             with warnings.catch_warnings(record=True):
-                warnings.simplefilter("error")
+                warnings.simplefilter("ignore")
                 sinAlpha = cos(U1) * cos(U2) * sin(lamb) / sin(sigma)
 
                 alpha = asin(sinAlpha)
-- 
2.43.0


From d46c4623e575928fdca2917c27563dfdf7a314ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 06/28] fix: geodetic2conformal of an array containing 90
 degrees keeps the other elements

---
 src/pymap3d/latitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index 4a56c08..d20c4b4 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -367,7 +367,7 @@ def geodetic2conformal(geodetic_lat: FloatLike, ell: Ellipsoid | None = None, de
     #  compute conformal latitudes with correction for points at +90
     try:
         with warnings.catch_warnings(record=True):
-            warnings.simplefilter("error")
+            warnings.simplefilter("ignore")
             conformal_lat = 2 * atan(sqrt((f4 / f3) * ((f1 / f2) ** e))) - (pi / 2)
     except (ArithmeticError, RuntimeWarning):
         conformal_lat = pi / 2
-- 
2.43.0


From 29893c985fc8381684dac9fd248d7aef445e5b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 07/28] fix: eci2ecef_state, ecef2eci_state accept arrays of
 more than one state

---
 src/pymap3d/eci.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/eci.py b/src/pymap3d/eci.py
index 0eedb0b..a4e089f 100644
--- a/src/pymap3d/eci.py
+++ b/src/pymap3d/eci.py
@@ -451,15 +451,15 @@ def _apply_state_rotation(
     vel_out = numpy.empty((x.size, 3))
 
     for i in range(pos_in.shape[0]):
-        x, y, z, vx, vy, vz = _apply_state_rotation_scalar(
+        state = _apply_state_rotation_scalar(
             rotation,
             rotation_rate,
             *tuple(pos_in[i, :]),
             *tuple(vel_in[i, :]),
             inverse=inverse,
         )
-        pos_out[i, :] = (x, y, z)
-        vel_out[i, :] = (vx, vy, vz)
+        pos_out[i, :] = state[:3]
+        vel_out[i, :] = state[3:]
 
     return (
         pos_out[:, 0].reshape(x.shape),
-- 
2.43.0


From 225022fad7e33d3c4bf791e3cc8643c82944a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 08/28] fix: ecef2geodetic latitude keeps the shape of
 longitude and altitude

---
 src/pymap3d/ecef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/ecef.py b/src/pymap3d/ecef.py
index 138725b..7850836 100644
--- a/src/pymap3d/ecef.py
+++ b/src/pymap3d/ecef.py
@@ -203,7 +203,7 @@ def ecef2geodetic(
 
         lat, alt = _lat_alt_numpy(x, y, z, Beta)
 
-        lat = lat.squeeze()[()]
+        lat = lat[()]
 
         return lat, alt
 
-- 
2.43.0


From cfd37b8669663b78efa4192586bf71b7edd9db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 09/28] fix: loxodrome_inverse azimuth is in [0, 2 pi) for
 radians as it is for degrees

---
 src/pymap3d/lox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index bcecf54..024e6e6 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -171,8 +171,9 @@ def loxodrome_inverse(
         if i:
             dist = departure(lon2, lon1, lat1, ell, deg=False)
 
+    az12 = az12 % tau
     if deg:
-        az12 = degrees(az12) % 360.0
+        az12 = degrees(az12)
 
     try:
         return dist.squeeze()[()], az12.squeeze()[()]
-- 
2.43.0


From 4ebd4d760dd367a15219d42b7432e22428836351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 10/28] fix: loxodrome_inverse azimuth across the antimeridian
 agrees with its distance

---
 src/pymap3d/lox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 024e6e6..086389f 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -22,7 +22,7 @@ from .latitude import (
     geodetic2rectifying,
     rectifying2geodetic,
 )
-from .mathfun import atan2, cos, degrees, radians, sign, tan
+from .mathfun import atan2, cos, degrees, radians, sign, sin, tan
 from .utils import cart2sph, sph2cart
 
 __all__ = [
@@ -155,6 +155,8 @@ def loxodrome_inverse(
     # compute changes in isometric latitude and longitude between points
     disolat = geodetic2isometric(lat2, ell, False) - geodetic2isometric(lat1, ell, False)
     dlon = lon2 - lon1
+    # shorter way around
+    dlon = atan2(sin(dlon), cos(dlon))
 
     # compute azimuth
     az12 = atan2(dlon, disolat)
-- 
2.43.0


From a96e19a49c6fed8dad3fbc7a190dc6a9ac71f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 11/28] fix: nvector_cross_track_distance of a point at the
 pole of the path

---
 src/pymap3d/nvector.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/nvector.py b/src/pymap3d/nvector.py
index 800fb05..40c52ba 100644
--- a/src/pymap3d/nvector.py
+++ b/src/pymap3d/nvector.py
@@ -285,7 +285,10 @@ def nvector_cross_track_distance(
     cx, cy, cz = _norm3(cx, cy, cz)
 
     # Signed angular distance from the great circle
-    return radius * asin(_dot3(cx, cy, cz, np_1, np_2, np_3))
+    dx, dy, dz = _cross3(cx, cy, cz, np_1, np_2, np_3)
+    cross_mag = sqrt(dx * dx + dy * dy + dz * dz)
+
+    return radius * atan2(_dot3(cx, cy, cz, np_1, np_2, np_3), cross_mag)
 
 
 def nvector_intersection(
-- 
2.43.0


From 46fd0059cf6ecaeb84ce25dc5444a6af7ac7dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:51 +0000
Subject: [PATCH 12/28] fix: CLI passes a None default as None

---
 src/pymap3d/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 8a1c083..1cf2dd1 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -103,7 +103,7 @@ def _add_parameter_arg(parser: argparse.ArgumentParser, param: inspect.Parameter
         parser.add_argument(
             f"--{name.replace('_', '-')}",
             dest=dest,
-            default=str(default),
+            default=None if default is None else str(default),
             help=f"{name} (default: {default})",
         )
     else:
-- 
2.43.0


From 6b30f2921abcd2bc8bf38b48c9923a49d6cba1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 13/28] fix: azel2radec, radec2azel at the celestial poles and
 the zenith

---
 src/pymap3d/vallado.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index b397ac0..3eb6751 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -12,7 +12,7 @@ from datetime import datetime
 
 from ._typing import FloatLike
 
-from .mathfun import asin, atan2, cos, degrees, radians, sin
+from .mathfun import asin, atan2, cos, degrees, minimum, radians, sin
 from .sidereal import datetime2sidereal
 
 __all__ = ["azel2radec", "radec2azel"]
@@ -65,7 +65,9 @@ def azel2radec(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
     # %% Vallado "algorithm 28" p 268
-    dec = asin(sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az))
+    sin_dec = sin(el) * sin(lat) + cos(el) * cos(lat) * cos(az)
+    # rounding may leave [-1, 1]
+    dec = asin(-minimum(1.0, -minimum(1.0, sin_dec)))
 
     lha = atan2(
         -(sin(az) * cos(el)) / cos(dec),
@@ -128,7 +130,9 @@ def radec2azel(
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-    el = asin(sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha))
+    sin_el = sin(lat) * sin(dec) + cos(lat) * cos(dec) * cos(lha)
+    # rounding may leave [-1, 1]
+    el = asin(-minimum(1.0, -minimum(1.0, sin_el)))
     # %% combine Eq. 4-13 and 4-14 p. 268
     az = atan2(
         -sin(lha) * cos(dec) / cos(el),
-- 
2.43.0


From ad4ee493089658bed306d51aa0a7841dfff43245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 14/28] fix: geodesic_area of vertices in radians

---
 src/pymap3d/karney.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index dfe7e71..9bc0991 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -993,6 +993,11 @@ def geodesic_area(
     if n < 3:
         raise ValueError("Polygon must have at least 3 vertices")
 
+    if not deg:
+        # the turning angles are summed in degrees
+        lats = [math.degrees(lat) for lat in lats]
+        lons = [math.degrees(lon) for lon in lons]
+
     g = _get_geodesic(ell)
     perimeter = 0.0
     area_sum = 0.0
@@ -1002,7 +1007,7 @@ def geodesic_area(
     for i in range(n):
         j = (i + 1) % n
         dist_ij, azi1_ij, azi2_ij = geodesic_inverse(
-            lats[i], lons[i], lats[j], lons[j], ell=ell, deg=deg)
+            lats[i], lons[i], lats[j], lons[j], ell=ell)
         perimeter += dist_ij
         if i == 0:
             azi1_first = azi1_ij
-- 
2.43.0


From cb9ee0c59b51f0d57045be26c09174024f62fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:36 +0000
Subject: [PATCH 15/28] fix: sign of the second-order term of geoc2geod

---
 src/pymap3d/latitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/latitude.py b/src/pymap3d/latitude.py
index d20c4b4..c232952 100644
--- a/src/pymap3d/latitude.py
+++ b/src/pymap3d/latitude.py
@@ -90,7 +90,7 @@ def geoc2geod(
     geodetic_lat = (
         geocentric_lat
         + (sin(2 * geocentric_lat) / r) * ell.flattening
-        + ((1 / r**2 + 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
+        + ((1 / r**2 - 1 / (4 * r)) * sin(4 * geocentric_lat)) * ell.flattening**2
     )
 
     return degrees(geodetic_lat) if deg else geodetic_lat
-- 
2.43.0


From a51752f754005f87cb27d7fc978b42da095188be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 16/28] fix: JSON output of array results on the command line

---
 src/pymap3d/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 1cf2dd1..6e82e20 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -175,6 +175,9 @@ def _format_scalar(value: Any, precision: int | None) -> str:
 
 def _to_jsonable(value: Any) -> Any:
     """Convert results into JSON-serializable structures."""
+    if hasattr(value, "tolist"):
+        value = value.tolist()  # NumPy array or scalar
+
     match value:
         case tuple():
             return [_to_jsonable(v) for v in value]
-- 
2.43.0


From 0690dc49e7dbce528fdac83494ee0172371e3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 17/28] fix: text output of matrices and arrays at the
 requested precision on the command line

---
 src/pymap3d/__main__.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index 6e82e20..fe328d9 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -167,6 +167,12 @@ def _call_selected_function(
 
 
 def _format_scalar(value: Any, precision: int | None) -> str:
+    if hasattr(value, "tolist"):
+        value = value.tolist()  # NumPy array or scalar
+
+    if isinstance(value, (tuple, list)):
+        return "[" + " ".join(_format_scalar(x, precision) for x in value) + "]"
+
     if precision is not None and isinstance(value, float):
         return f"{value:.{precision}f}"
 
-- 
2.43.0


From d14871e2768340867ed9fadcde31d860c9a255b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:45 +0000
Subject: [PATCH 18/28] fix: run the command line on Python 3.9

---
 src/pymap3d/__main__.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/pymap3d/__main__.py b/src/pymap3d/__main__.py
index fe328d9..a875bfc 100644
--- a/src/pymap3d/__main__.py
+++ b/src/pymap3d/__main__.py
@@ -8,6 +8,8 @@ Example:
     python -m pymap3d geodetic2ecef 40.7128 -74.0060 10
 """
 
+from __future__ import annotations
+
 import argparse
 from datetime import datetime
 import inspect
@@ -184,13 +186,11 @@ def _to_jsonable(value: Any) -> Any:
     if hasattr(value, "tolist"):
         value = value.tolist()  # NumPy array or scalar
 
-    match value:
-        case tuple():
-            return [_to_jsonable(v) for v in value]
-        case list():
-            return [_to_jsonable(v) for v in value]
-        case datetime():
-            return value.isoformat()
+    if isinstance(value, (tuple, list)):
+        return [_to_jsonable(v) for v in value]
+
+    if isinstance(value, datetime):
+        return value.isoformat()
 
     return value
 
@@ -201,13 +201,9 @@ def _emit_result(result: Any, output_mode: str, precision: int | None) -> None:
         print(json.dumps(_to_jsonable(result)))
         return
 
-    match result:
-        case tuple():
-            print(" ".join(_format_scalar(x, precision) for x in result))
-            return
-        case list():
-            print(" ".join(_format_scalar(x, precision) for x in result))
-            return
+    if isinstance(result, (tuple, list)):
+        print(" ".join(_format_scalar(x, precision) for x in result))
+        return
 
     print(_format_scalar(result, precision))
 
-- 
2.43.0


From 9cbcc03710b4be0cc4f7e5499b6e63c0e08b139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:31 +0000
Subject: [PATCH 19/28] fix: bind mathfun.cbrt without NumPy

---
 src/pymap3d/mathfun.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pymap3d/mathfun.py b/src/pymap3d/mathfun.py
index f8df0ed..4dbbbd5 100644
--- a/src/pymap3d/mathfun.py
+++ b/src/pymap3d/mathfun.py
@@ -70,6 +70,10 @@ except ImportError:
     def power(x, y):  # type: ignore
         return pow(x, y)
 
+    def cbrt(x: float) -> float:  # type: ignore
+        """cube root, handles negative numbers"""
+        return copysign(pow(abs(x), 1.0 / 3.0), x)
+
     def sign(x) -> float:  # type: ignore
         """signum"""
         if x < 0:
-- 
2.43.0


From e3480fa5b9772f2cf1da2c04463c2ceabb5f3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:15 +0000
Subject: [PATCH 20/28] fix: enu2aer accepts scalars mixed with arrays

---
 src/pymap3d/enu.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/pymap3d/enu.py b/src/pymap3d/enu.py
index a185867..61830f5 100644
--- a/src/pymap3d/enu.py
+++ b/src/pymap3d/enu.py
@@ -52,22 +52,18 @@ def enu2aer(e: FloatLike, n: FloatLike, u: FloatLike, deg: bool = True) -> tuple
 
     # 1 millimeter precision for singularity stability
 
-    def _zero_trim_numpy(x, y, z) -> tuple:
-        # work on copies: the caller keeps its arrays
-        x, y, z = copy(x), copy(y), copy(z)
-        x[abs(x) < 1e-3] = 0.0
-        y[abs(y) < 1e-3] = 0.0
-        z[abs(z) < 1e-3] = 0.0
-        return x, y, z
-
-    def _zero_trim_scalar(*values: float, threshold: float = 1e-3) -> tuple[float, ...]:
-        """Trim small values (|x| < threshold) to zero."""
-        return tuple(0.0 if abs(v) < threshold else float(v) for v in values)
-
-    try:
-        e, n, u = _zero_trim_numpy(e, n, u)
-    except TypeError:
-        e, n, u = _zero_trim_scalar(float(e), float(n), float(u))
+    def _zero_trim(value, threshold: float = 1e-3):
+        """Trim small values (|value| < threshold) to zero."""
+        try:
+            # work on a copy: the caller keeps its array
+            value = copy(value)
+            value[abs(value) < threshold] = 0.0
+            return value
+        except TypeError:
+            return 0.0 if abs(value) < threshold else float(value)
+
+    # one by one, so that scalars and arrays can be mixed
+    e, n, u = _zero_trim(e), _zero_trim(n), _zero_trim(u)
 
     r = hypot(e, n)
     slantRange = hypot(r, u)
-- 
2.43.0


From 6330222d1313d7813f61c2d62afcdd55b7d16c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 21/28] fix: polar motion turned Earth-fixed coordinates the
 wrong way

xp and yp are the coordinates of the pole in the terrestrial frame: the matrix
from true Earth-fixed to ITRF-like ECEF is R1(-yp) R2(-xp) (IERS Conventions, the
transpose of W = R2(xp) R1(yp); erfa.pom00). The signs were those of W.
---
 src/pymap3d/earth_orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/earth_orientation.py b/src/pymap3d/earth_orientation.py
index e649409..2d48d3d 100644
--- a/src/pymap3d/earth_orientation.py
+++ b/src/pymap3d/earth_orientation.py
@@ -282,7 +282,7 @@ def polar_motion_matrix(xp_arcsec: float = 0.0, yp_arcsec: float = 0.0):
 
     xp = xp_arcsec * ARCSEC2RAD
     yp = yp_arcsec * ARCSEC2RAD
-    return matmul3(rotation_y(xp), rotation_x(yp))
+    return matmul3(rotation_x(-yp), rotation_y(-xp))
 
 
 def eci_to_ecef_matrix(
-- 
2.43.0


From 0cb3766737cac9725ec3dd0fff15b720e292f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 22/28] fix: str2dt of datetime64 in nanoseconds or days did
 not return datetime

---
 src/pymap3d/timeconv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/timeconv.py b/src/pymap3d/timeconv.py
index 4f5e710..15bfef8 100644
--- a/src/pymap3d/timeconv.py
+++ b/src/pymap3d/timeconv.py
@@ -29,4 +29,5 @@ def str2dt(time: DatetimeLike):
     elif isinstance(time, str):
         return datetime.fromisoformat(time)
     else:
-        return time.astype(datetime)
+        # datetime64 of other than microseconds may become datetime.date or int
+        return time.astype("datetime64[us]").astype(datetime)
-- 
2.43.0


From 3da77b82ba96520b61ff56278d48754e0d90dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:37 +0000
Subject: [PATCH 23/28] fix: str2dt rejected the lists of strings it documents

---
 src/pymap3d/timeconv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/timeconv.py b/src/pymap3d/timeconv.py
index 15bfef8..049c1d9 100644
--- a/src/pymap3d/timeconv.py
+++ b/src/pymap3d/timeconv.py
@@ -16,18 +16,20 @@ def str2dt(time: DatetimeLike):
     Parameters
     ----------
 
-    time : str or datetime.datetime or numpy.datetime64
+    time : str or datetime.datetime or numpy.datetime64, or list or tuple of them
 
     Results
     -------
 
-    t : datetime.datetime or numpy.datetime64
+    t : datetime.datetime, or list or array of datetime.datetime
     """
 
     if isinstance(time, datetime):
         return time
     elif isinstance(time, str):
         return datetime.fromisoformat(time)
+    elif isinstance(time, (tuple, list)):
+        return [str2dt(t) for t in time]
     else:
         # datetime64 of other than microseconds may become datetime.date or int
         return time.astype("datetime64[us]").astype(datetime)
-- 
2.43.0


From cf97e2363cfcbdf5b348bee344bdf2129fdb7b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:08 +0000
Subject: [PATCH 24/28] fix: azel2radec and radec2azel at the poles and the
 zenith

---
 src/pymap3d/vallado.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index 3eb6751..2ac8e8a 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -69,9 +69,10 @@ def azel2radec(
     # rounding may leave [-1, 1]
     dec = asin(-minimum(1.0, -minimum(1.0, sin_dec)))
 
+    # no division by cos(lat) or cos(dec), which vanish at the poles
     lha = atan2(
-        -(sin(az) * cos(el)) / cos(dec),
-        (sin(el) - sin(lat) * sin(dec)) / (cos(dec) * cos(lat)),
+        -sin(az) * cos(el),
+        sin(el) * cos(lat) - cos(el) * sin(lat) * cos(az),
     )
 
     lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
@@ -134,9 +135,10 @@ def radec2azel(
     # rounding may leave [-1, 1]
     el = asin(-minimum(1.0, -minimum(1.0, sin_el)))
     # %% combine Eq. 4-13 and 4-14 p. 268
+    # no division by cos(lat) or cos(el), which vanish at the poles and the zenith
     az = atan2(
-        -sin(lha) * cos(dec) / cos(el),
-        (sin(dec) - sin(el) * sin(lat)) / (cos(el) * cos(lat)),
+        -sin(lha) * cos(dec),
+        sin(dec) * cos(lat) - cos(dec) * sin(lat) * cos(lha),
     )
 
     return degrees(az) % 360.0, degrees(el)
-- 
2.43.0


From 5e9b3216e3d66b6c945579c8704764a7b27e6007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:32 +0000
Subject: [PATCH 25/28] fix: force_non_astropy in azel2radec and radec2azel
 also declines Astropy's sidereal time

---
 src/pymap3d/vallado.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymap3d/vallado.py b/src/pymap3d/vallado.py
index 2ac8e8a..b7ad9c2 100644
--- a/src/pymap3d/vallado.py
+++ b/src/pymap3d/vallado.py
@@ -75,7 +75,7 @@ def azel2radec(
         sin(el) * cos(lat) - cos(el) * sin(lat) * cos(az),
     )
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # lon, ra in RADIANS
+    lst = datetime2sidereal(time, lon, force_non_astropy=True, delta_ut1=delta_ut1)  # lon, ra in RADIANS
 
     """ by definition right ascension [0, 360) degrees """
     return degrees(lst - lha) % 360, degrees(dec)
@@ -127,7 +127,7 @@ def radec2azel(
     lat = radians(lat_deg)
     lon = radians(lon_deg)
 
-    lst = datetime2sidereal(time, lon, delta_ut1=delta_ut1)  # RADIANS
+    lst = datetime2sidereal(time, lon, force_non_astropy=True, delta_ut1=delta_ut1)  # RADIANS
     # %% Eq. 4-11 p. 267 LOCAL HOUR ANGLE
     lha = lst - ra
     # %% #Eq. 4-12 p. 267
-- 
2.43.0


From 6c2069794eb4fdaecbd84f5cd909df20a2931fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:57 +0000
Subject: [PATCH 26/28] fix: loxodrome_direct magnified series truncation near
 courses due east or west

---
 src/pymap3d/lox.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymap3d/lox.py b/src/pymap3d/lox.py
index 086389f..ee984b8 100644
--- a/src/pymap3d/lox.py
+++ b/src/pymap3d/lox.py
@@ -248,7 +248,8 @@ def loxodrome_direct(
     # transform to geodetic latitude
 
     newiso = geodetic2isometric(lat2, ell, False)
-    iso = geodetic2isometric(lat1, ell, False)
+    # the start goes through the same series, so its truncation error is not magnified by tan(a12)
+    iso = geodetic2isometric(rectifying2geodetic(reclat, ell, False), ell, False)
 
     # stability near singularities
     i = abs(cos(a12)) < COS_EPS
-- 
2.43.0


From 6f32f9a83518cbd39e55f8b79e7ed6e1b8075ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:45 +0000
Subject: [PATCH 27/28] fix: vdist in radians accepts a Python float for one
 end point and arrays for the other

---
 src/pymap3d/vincenty.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pymap3d/vincenty.py b/src/pymap3d/vincenty.py
index 108fde3..b5719a7 100644
--- a/src/pymap3d/vincenty.py
+++ b/src/pymap3d/vincenty.py
@@ -110,11 +110,13 @@ def vdist(lat1, lon1, lat2, lon2, ell: Ellipsoid | None = None, deg: bool = True
         lat1 = copy(lat1)
         lat2 = copy(lat2)
 
-    try:
-        if (abs(lat1) > pi / 2).any() | (abs(lat2) > pi / 2).any():
-            raise ValueError("Input latitudes must be in [-90, 90] degrees.")
-    except AttributeError:
-        if abs(lat1) > pi / 2 or abs(lat2) > pi / 2:
+    for lat in (lat1, lat2):  # one may be an array and the other a Python float
+        bad = abs(lat) > pi / 2
+        try:
+            bad = bad.any()
+        except AttributeError:
+            pass
+        if bad:
             raise ValueError("Input latitudes must be in [-90, 90] degrees.")
     # %% correct for errors at exact poles by adjusting 0.6 millimeters:
     try:
-- 
2.43.0


From 3a9532ec8fc487ab39eaf4fb5ed71250d60a8c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:51 +0000
Subject: [PATCH 28/28] fix: karney moved the poles by 9.5 cm (_tiny was
 sqrt(epsilon), not sqrt(smallest normal double))

---
 src/pymap3d/karney.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymap3d/karney.py b/src/pymap3d/karney.py
index 9bc0991..81b6686 100644
--- a/src/pymap3d/karney.py
+++ b/src/pymap3d/karney.py
@@ -23,7 +23,7 @@ from .mathfun import copysign, fmod, hypot, isnan, sqrt
 __all__ = ["geodesic_direct", "geodesic_inverse", "geodesic_line", "geodesic_area"]
 
 # --- Constants ---
-_tiny = sqrt(2.220446049250313e-16)
+_tiny = sqrt(2.2250738585072014e-308)
 _tol0 = 2.220446049250313e-16
 _tol1 = 200 * _tol0
 _tol2 = sqrt(_tol0)
-- 
2.43.0

