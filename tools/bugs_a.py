WGS="from pymap3d.ellipsoid import Ellipsoid\n"
BUGS=[
dict(id="s01-los-radian-tilt", property="C01", edits=[("los.py","el = tilt - 90.0 if deg else tilt - pi / 2","el = tilt - 90.0 if deg else tilt - 1.5708")],
 demo='''
from math import radians, degrees
import pymap3d.los as los
a = los.lookAtSpheroid(42.0, -82.0, 400e3, 30.0, 55.0)
b = los.lookAtSpheroid(radians(42.0), radians(-82.0), 400e3, radians(30.0), radians(55.0), deg=False)
assert abs(a[2] - b[2]) < 1e-3, (a, b)
''', needs="deg=False together with an oblique look direction", breaks="radian calls see a tilt 3.7e-6 rad off the degree call"),
dict(id="s02-lox-departure-ell", property="C02", edits=[("lox.py","departure(lon2, lon1, lat1, ell, deg=False)","departure(lon2, lon1, lat1, deg=False)"),("lox.py","departure(lon2[i], lon1[i], lat1[i], ell, deg=False)","departure(lon2[i], lon1[i], lat1[i], deg=False)")],
 demo='''
from pymap3d.ellipsoid import Ellipsoid
from pymap3d import lox
m = Ellipsoid.from_name("mars")
d, az = lox.loxodrome_inverse(30, 0, 30, 10, m)
assert abs(d - lox.departure(0, 10, 30, m)) < 1e-3, d
''', needs="a course due east or west on an ellipsoid other than WGS84", breaks="the due-east branch uses WGS84 instead of the given ellipsoid"),
dict(id="s03-nwu-frame-bodyv", property="C03", edits=[("frames.py","""        local2body = _nwu2body_rotation(yaw, pitch, roll, sequence=sequence, deg=deg)
        ecef2local = _ecef2nwu_rotation(lat0, lon0, deg=deg)""","""        local2body = _sez2body_rotation(yaw, pitch, roll, sequence=sequence, deg=deg)
        ecef2local = _ecef2nwu_rotation(lat0, lon0, deg=deg)""")],
 demo='''
import pymap3d as p
a = p.ecef2bodyv(1.0, 2.0, 3.0, 10, 20, 30, 40, 50, frame="nwu")
b = p.ecef2bodyv(1.0, 2.0, 3.0, 10, 20, 30, 40, 50, frame="ned")
assert max(abs(x - y) for x, y in zip(a, b)) < 1e-12, (a, b)
''', needs="the vector form with frame='nwu'", breaks="body axes for frame nwu are turned by 90 degrees"),
dict(id="s04-aer2eci-yp", py="/opt/venv-stdlib/bin/python", property="C04", edits=[("aer.py","    return ecef2eci(x, y, z, t, delta_ut1=delta_ut1, xp=xp, yp=yp)","    return ecef2eci(x, y, z, t, delta_ut1=delta_ut1, xp=xp, yp=xp)")],
 demo='''
import pymap3d as p
from datetime import datetime
t = datetime(2020, 1, 1)
o = dict(delta_ut1=0.1, xp=0.1, yp=0.3)
a = p.aer2eci(10, 20, 1e6, 30, 40, 100, t, **o)
b = p.ecef2eci(*p.aer2ecef(10, 20, 1e6, 30, 40, 100), t, **o)
assert max(abs(x - y) for x, y in zip(a, b)) < 1e-3, (a, b)
''', needs="polar motion with different xp and yp through the composite", breaks="aer2eci hands xp on as yp"),
dict(id="s05-body2geodetic-sez", property="C04", edits=[("body.py","return sez2geodetic(s, e, z, lat0, lon0, h0, ell, deg=deg)","return sez2geodetic(s, e, z, lat0, lon0, h0, deg=deg)")],
 demo='''
import pymap3d as p
m = p.Ellipsoid.from_name("mars")
a = p.body2geodetic(1.0, 2.0, 3.0, 10, 20, 30, 40, 50, 60, ell=m, frame="sez")
b = p.body2geodetic(1.0, 2.0, 3.0, 10, 20, 30, 40, 50, 60, ell=m, frame="enu")
assert max(abs(x - y) for x, y in zip(a, b)) < 1e-6, (a, b)
''', needs="frame='sez' and an ellipsoid other than WGS84", breaks="the ellipsoid is dropped on one frame of one composite"),
dict(id="s06-pole-snap", property="C06", edits=[("ecef.py","lim_pi2 = pi / 2 - finfo(Beta.dtype).eps","lim_pi2 = pi / 2 - 1e-6")],
 demo='''
import numpy as np
import pymap3d as p
x, y, z = p.geodetic2ecef(89.99997, 30.0, 100.0)
lat, lon, h = p.ecef2geodetic(np.array([x]), np.array([y]), np.array([z]))
assert abs(lat - 89.99997) < 1e-8, lat
''', needs="array input within six metres of the polar axis", breaks="latitude snaps to the pole within six metres of it"),
dict(id="s07-conformal-series", property="C07", edits=[("latitude.py","29 * e**6 / 240","29 * e**6 / 210")],
 demo='''
import pymap3d.latitude as l
from pymap3d import Ellipsoid
m = Ellipsoid.from_name("mars")
for x in (10, 30, 50, 80):
    y = l.conformal2geodetic(l.geodetic2conformal(x, m), m)
    assert abs(x - y) < 1e-8, (x, y)
''', needs="an ellipsoid or tolerance at which the sixth-order term shows", breaks="wrong coefficient of e^6 sin 4x in the conformal latitude's inverse series"),
dict(id="s08-geocentric-depth", property="C05", edits=[("latitude.py","geodetic_lat = atan(tan(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + alt_m))))","geodetic_lat = atan(tan(geocentric_lat) / (1 - ell.eccentricity**2 * (r / (r + abs(alt_m)))))")],
 demo='''
import pymap3d.latitude as l
for h in (-20000.0, -300000.0):
    c = l.geodetic2geocentric(40.0, h)
    assert abs(l.geocentric2geodetic(c, h) - 40.0) < 2e-4, h
''', needs="a point below the surface", breaks="depth is taken for height on the way back"),
dict(id="s09-matvec-numpy", property="C05", edits=[("frames.py","""_ENU2NWU = (""","""_ENU2NWU = (""")],
 demo='''
''', needs="", breaks=""),
]
BUGS=[b for b in BUGS if b["breaks"]]
