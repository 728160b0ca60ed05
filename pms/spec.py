"""Reference semantics, written from the textbook definitions, as value numbers.

Angles are in radians here.  Nothing in this file is derived from the analysed source.
"""

from __future__ import annotations

from fractions import Fraction as F

from . import expr as E
from .session import D2R

H = F(1, 2)
MM = F(1, 1000)


def rad(x):
    return E.mul(x, D2R)


def deg(x):
    return E.div(E.scale(x, 180), E.PI)


def axes(name="E"):
    a, f = E.sym(f"{name}.a", pos=True), E.sym(f"{name}.f", pos=True, lt=1)
    return a, f, E.mul(a, E.sub(E.ONE, f))


def e2_of(f):
    return E.mul(f, E.sub(E.q(2), f))


# ------------------------------------------------------------------ linear algebra
def matvec(m, v):
    return [E.add(*[E.mul(m[i][j], v[j]) for j in range(3)]) for i in range(3)]


def matmul(a, b):
    return [[E.add(*[E.mul(a[i][k], b[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]


def transpose(m):
    return [[m[j][i] for j in range(3)] for i in range(3)]


IDENT = [[E.ONE if i == j else E.ZERO for j in range(3)] for i in range(3)]


def m_of(*rows):
    return [[E.q(x) for x in r] for r in rows]


def enu_rows(lat, lon):
    """rows: east, north, up unit vectors in ECEF"""
    sp, cp, sl, cl = E.sin(lat), E.cos(lat), E.sin(lon), E.cos(lon)
    return [
        [E.neg(sl), cl, E.ZERO],
        [E.neg(E.mul(sp, cl)), E.neg(E.mul(sp, sl)), cp],
        [E.mul(cp, cl), E.mul(cp, sl), sp],
    ]


# frame axes in terms of (east, north, up)
AXES = {
    "enu": m_of((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    "ned": m_of((0, 1, 0), (1, 0, 0), (0, 0, -1)),
    "sez": m_of((0, -1, 0), (1, 0, 0), (0, 0, 1)),
    "nwu": m_of((0, 1, 0), (-1, 0, 0), (0, 0, 1)),
}


def frame_rows(fr, lat, lon):
    return matmul(AXES[fr], enu_rows(lat, lon))


def body_rows(yaw, pitch, roll):
    """rows: body x, y, z axes in NED, Tait-Bryan z-y-x"""
    sy, cy, sp, cp, sr, cr = E.sin(yaw), E.cos(yaw), E.sin(pitch), E.cos(pitch), E.sin(roll), E.cos(roll)
    m = E.mul
    return [
        [m(cp, cy), m(cp, sy), E.neg(sp)],
        [E.sub(m(sr, sp, cy), m(cr, sy)), E.add(m(sr, sp, sy), m(cr, cy)), m(sr, cp)],
        [E.add(m(cr, sp, cy), m(sr, sy)), E.sub(m(cr, sp, sy), m(sr, cy)), m(cr, cp)],
    ]


def frame2body(fr, yaw, pitch, roll):
    # local -> ned -> body
    ned_from = matmul(AXES["ned"], transpose(AXES[fr]))
    return matmul(body_rows(yaw, pitch, roll), ned_from)


# ------------------------------------------------------------------ spherical / polar
def trim(x):
    return E.ite(E.cmp("<", E.sub(E.abs_(x), E.q(MM)), E.ZERO), E.ZERO, x)


def enu2aer(e, n, u):
    e, n, u = trim(e), trim(n), trim(u)
    r = E.hypot(e, n)
    return wrap_tau(E.atan2(e, n)), E.atan2(u, r), E.hypot(e, n, u)


def aer2enu(az, el, r):
    return [E.mul(r, E.cos(el), E.sin(az)), E.mul(r, E.cos(el), E.cos(az)), E.mul(r, E.sin(el))]


def wrap_tau(x):
    return E.mul(E.scale(E.PI, 2), E.frac(E.div(x, E.scale(E.PI, 2))))


def wrap(x, m):
    m = E.q(m) if not isinstance(m, E.N) else m
    return E.mul(m, E.frac(E.div(x, m)))


def wrap_pm(x, m):
    """into [-m/2, m/2)"""
    return E.sub(wrap(E.add(x, E.q(F(m, 2))), m), E.q(F(m, 2)))


# ------------------------------------------------------------------ ellipsoid geometry
def transverse(lat, a, f):
    s = E.sin(lat)
    return E.div(a, E.sqrt(E.sub(E.ONE, E.mul(e2_of(f), s, s))))


def meridional(lat, a, f):
    s = E.sin(lat)
    w = E.sub(E.ONE, E.mul(e2_of(f), s, s))
    return E.mul(a, E.sub(E.ONE, e2_of(f)), E.power(w, F(-3, 2)))


def geodetic2ecef(lat, lon, h, a, f):
    N = transverse(lat, a, f)
    g = E.sub(E.ONE, f)
    c = E.mul(E.add(N, h), E.cos(lat))
    return [
        E.mul(c, E.cos(lon)), E.mul(c, E.sin(lon)),
        E.mul(E.add(E.mul(N, g, g), h), E.sin(lat)),
    ]


def geocentric_radius(lat, a, f):
    x = geodetic2ecef(lat, E.ZERO, E.ZERO, a, f)
    return E.hypot(x[0], x[2])


def haversine(t):
    return E.scale(E.sub(E.ONE, E.cos(t)), H)


def ang_sep(lat0, lon0, lat1, lon1):
    dl = E.sub(lon1, lon0)
    m = E.mul
    x = E.sub(m(E.cos(lat0), E.sin(lat1)), m(E.sin(lat0), E.cos(lat1), E.cos(dl)))
    y = m(E.cos(lat1), E.sin(dl))
    z = E.add(m(E.sin(lat0), E.sin(lat1)), m(E.cos(lat0), E.cos(lat1), E.cos(dl)))
    return E.atan2(E.hypot(x, y), z)


# ------------------------------------------------------------------ small vectors
def dot(a, b):
    return E.add(*[E.mul(x, y) for x, y in zip(a, b)])


def cross(a, b):
    return [E.sub(E.mul(a[(i + 1) % 3], b[(i + 2) % 3]), E.mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]


def unit(a):
    r = E.sqrt(dot(a, a))
    return [E.div(x, r) for x in a]
