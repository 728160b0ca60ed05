STD="/opt/venv-stdlib/bin/python"
BUGS=[
dict(id="s09-leap-instant", property="C15", py=STD, edits=[("earth_orientation.py","        if utc >= effective:","        if utc > effective:")],
 demo='''
from datetime import datetime
from pymap3d.earth_orientation import leap_seconds, utc_to_tt
assert leap_seconds(datetime(2017, 1, 1)) == 37
d = (utc_to_tt(datetime(2017, 1, 1)) - utc_to_tt(datetime(2016, 12, 31))).total_seconds()
assert abs(d - 86401) < 1e-6, d
''', needs="the very instant at which a leap second takes effect", breaks="TAI-UTC is one second late at the effective instant"),
dict(id="s10-state-rate-yp", property="C14", py=STD, edits=[("earth_orientation.py","    c_plus = eci_to_ecef_matrix(time + dt, delta_ut1=delta_ut1, xp=xp, yp=yp)\n    c_minus = eci_to_ecef_matrix(time - dt, delta_ut1=delta_ut1, xp=xp, yp=yp)","    c_plus = eci_to_ecef_matrix(time + dt, delta_ut1=delta_ut1, xp=xp)\n    c_minus = eci_to_ecef_matrix(time - dt, delta_ut1=delta_ut1, xp=xp)")],
 demo='''
from datetime import datetime, timedelta
import pymap3d as p
t = datetime(2020, 5, 6, 7, 8, 9)
o = dict(xp=0.0, yp=200.0)
x = (4e7, 1e7, 2e7)
s = p.eci2ecef_state(*x, 0.0, 0.0, 0.0, t, **o)
h = timedelta(seconds=0.5)
a = p.eci2ecef(*x, t + h, **o)
b = p.eci2ecef(*x, t - h, **o)
assert max(abs((i - j) - v) for i, j, v in zip(a, b, s[3:])) < 1e-2, s
''', needs="velocities together with polar motion yp", breaks="the rate matrix ignores yp"),
dict(id="s11-azel-force-ut1", property="C24", edits=[("azelradec.py","""        return vazel2radec(
            az_deg, el_deg, lat_deg, lon_deg, time, delta_ut1=delta_ut1
        )""","""        return vazel2radec(
            az_deg, el_deg, lat_deg, lon_deg, time
        )""")],
 demo='''
from datetime import datetime
import pymap3d as p
a = p.azel2radec(10, 20, 30, 40, datetime(2020, 1, 1), force_non_astropy=True)
b = p.azel2radec(10, 20, 30, 40, datetime(2020, 1, 1), force_non_astropy=True, delta_ut1=100.0)
assert abs(abs(a[0] - b[0]) - 100 * 15 / 3600) < 0.01, (a, b)
''', needs="delta_ut1 together with declining Astropy", breaks="UT1-UTC is ignored in one direction"),
dict(id="s12-nvector-antipode", property="C20", py=STD, edits=[("nvector.py","        i1, i2, i3 = -i1, -i2, -i3","        i1, i2, i3 = -i1, i2, -i3")],
 demo='''
import pymap3d as p
from pymap3d import nvector as n
def v(la, lo):
    return n.geodetic2nvector(la, lo)
A, B, C, D = v(10, 20), v(30, 50), v(35, 20), v(5, 45)
i = n.nvector_intersection(*A, *B, *C, *D)
j = n.nvector_intersection(*B, *A, *C, *D)
assert max(abs(a - b) for a, b in zip(i, j)) < 1e-9, (i, j)
''', needs="paths whose cross products point at the antipode", breaks="the antipode flip leaves one component"),
dict(id="s13-vreckon-any", property="C12", edits=[("vincenty.py","        if (rng < 0.0).any():","        if (rng < 0.0).all():")],
 demo='''
import numpy as np
from pymap3d.vincenty import vreckon
try:
    vreckon(np.array([1.0, 2.0]), np.array([1.0, 2.0]), np.array([1.0, -5.0]), np.array([3.0, 4.0]))
except ValueError:
    pass
else:
    raise SystemExit("negative range accepted")
''', needs="an array in which only some ranges are negative", breaks="mixed arrays are no longer rejected"),
dict(id="s14-direct-flat", property="C08", py=STD, edits=[("karney.py","            sig12 -= serr / sqrt(1.0 + k2 * ssig2 ** 2)","            sig12 -= serr / sqrt(1.0 + k2 * ssig1 ** 2) * 0.5")],
 demo='''
import pymap3d as p
from pymap3d.karney import geodesic_direct, geodesic_inverse
m = p.Ellipsoid(6.4e6, 6.4e6 * 0.75)
la, lo, _ = geodesic_direct(20, 30, 40, 8e6, m)
d, az, _ = geodesic_inverse(20, 30, la, lo, m)
assert abs(d - 8e6) < 0.1, d
''', needs="an ellipsoid flatter than 0.01", breaks="the refinement of the direct solution for flat ellipsoids is halved"),
dict(id="s15-los-behind", property="C26", edits=[("los.py","        d[d < 0] = nan","        d[d < -1e8] = nan")],
 demo='''
import numpy as np
from pymap3d.los import lookAtSpheroid
a = np.array([179.0, 10.0])
la, lo, d = lookAtSpheroid(np.array([10., 10.]), np.array([20., 20.]), np.array([1e5, 1e5]), np.array([30., 30.]), a)
assert not (d < 0).any(), d
''', needs="array input looking away from the Earth from up", breaks="hits behind the observer are returned"),
dict(id="s16-lox-west-mixed", property="C25", edits=[("lox.py","        dlon[i] = sign(pi - a12[i]) * rng[i] / rcurve.parallel(lat1[i], ell, False)","        dlon[i] = sign(pi - a12[i]) * rng[i] / rcurve.parallel(lat1[i], None, False)")],
 demo='''
import numpy as np
import pymap3d as p
from pymap3d.lox import loxodrome_direct
m = p.Ellipsoid.from_name("mars")
la, lo = loxodrome_direct(np.array([10.0, 20.0]), 0.0, np.array([1e5, 1e5]), np.array([90.0, 89.9999]), m)
la2, lo2 = loxodrome_direct(10.0, 0.0, 1e5, 89.9999, m)
assert abs(lo[0] - lo2) < 1e-3, (lo, lo2)
''', needs="arrays with a due east course on a foreign ellipsoid", breaks="the parallel's radius is the WGS84 one"),
dict(id="s17-cli-precision0", property="C17", py=STD, edits=[("__main__.py","        default=None,\n        help=\"Decimal places","        default=3,\n        help=\"Decimal places")],
 demo='''
import subprocess, sys
r = subprocess.run([sys.executable, "-m", "pymap3d", "geodetic2ecef", "10", "20", "30"], capture_output=True, text=True)
assert r.returncode == 0, r.stderr
import pymap3d as p
assert [float(x) for x in r.stdout.split()] == [float(x) for x in p.geodetic2ecef(10, 20, 30)], r.stdout
''', needs="the text output without --precision", breaks="results are rounded to a millimetre unless asked otherwise"),
dict(id="s18-euler-mid", property="C23", edits=[("rsphere.py","    latmid = lat1 + (lat2 - lat1) / 2  # compute the midpoint","    latmid = (abs(lat1) + abs(lat2)) / 2  # compute the midpoint")],
 demo='''
from pymap3d import rsphere, rcurve
r = rsphere.euler(-40, 0, 50, 0)
assert abs(r - rcurve.meridian(5)) < 1, r
''', needs="end points in different hemispheres", breaks="the midpoint latitude is taken of absolute latitudes"),
dict(id="s19-ra-range", property="C16", py=STD, edits=[("vallado.py","    return degrees(lst - lha) % 360, degrees(dec)","    return degrees(lst - lha), degrees(dec)")],
 demo="""
from datetime import datetime
import pymap3d as p
for h in range(24):
    ra, dec = p.azel2radec(200.0, 20.0, 30.0, 40.0, datetime(2020, 1, 1, h), force_non_astropy=True)
    assert 0 <= ra < 360, ra
""", needs="directions whose hour angle exceeds the sidereal time", breaks="right ascension leaves [0, 360)"),
dict(id="s20-departure-turns", property="C22", py=STD, edits=[("lox.py","    dlon = (lon2 - lon1) % (2 * pi)","    dlon = abs(lon2 - lon1)")],
 demo="""
from pymap3d.lox import departure
assert abs(departure(-190, 190, 30) - departure(170, 190, 30)) < 1e-3
""", needs="longitudes more than a full turn apart", breaks="departure is no longer periodic in the longitudes"),
dict(id="s21-eci-2d", property="C09", edits=[("eci.py","    vin = numpy.column_stack((x.ravel(), y.ravel(), z.ravel()))","    vin = numpy.column_stack((x.T.ravel(), y.T.ravel(), z.T.ravel()))")],
 demo="""
import numpy as np
from datetime import datetime
import pymap3d as p
r = np.random.default_rng(0)
x, y, z = r.normal(size=(3, 2, 3)) * 7e6
t = datetime(2020, 1, 1)
a = p.eci2ecef(x, y, z, t, True)[0]
b = p.eci2ecef(x[0, 1], y[0, 1], z[0, 1], t, True)[0]
assert abs(a[0, 1] - b) < 1e-3, (a, b)
""", needs="two-dimensional arrays", breaks="elements of two-dimensional arrays come out in transposed order"),
dict(id="s22-vdist-lon-inplace", property="C10", edits=[("vincenty.py","    lon1 = lon1 % (2 * pi)\n","    lon1 %= 2 * pi\n")],
 demo="""
import numpy as np
from pymap3d.vincenty import vdist
lon = np.array([-1.0, 2.0])
vdist(np.array([0.1, 0.2]), lon, np.array([0.3, 0.4]), np.array([0.5, 0.6]), deg=False)
assert lon[0] == -1.0, lon
""", needs="radian calls with arrays of western longitudes", breaks="the caller's longitudes are overwritten"),
dict(id="s23-state-stdlib", property="C11", py=STD, edits=[("eci.py","            rotation, rotation_rate, x, y, z, vx, vy, vz, inverse=inverse\n","            rotation, rotation_rate, x, y, z, vx, vy, vz, inverse=False\n")],
 demo="""
from datetime import datetime
import pymap3d as p
t = datetime(2020, 1, 1)
s = (7e6, 1e6, 2e6, 10.0, 20.0, 30.0)
q = p.eci2ecef_state(*p.ecef2eci_state(*s, t), t)
assert max(abs(a - b) for a, b in zip(s, q)) < 1e-3, q
""", needs="state vectors without NumPy", breaks="without NumPy the inverse state transformation is the forward one"),
dict(id="s24-plessis", property="C13", py=STD, edits=[("ellipsoid.py",'"b": 6355862.9333}','"b": 6355836.9333}')],
 demo="""
import pymap3d as p
e = p.Ellipsoid.from_name("plessis")
assert abs(1 / e.flattening - 308.64) < 0.05, 1 / e.flattening
""", needs="the plessis model", breaks="two digits of an axis are exchanged"),
]
