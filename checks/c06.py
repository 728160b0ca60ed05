"""C06: geodetic, ECEF and geocentric spherical coordinates on the ellipsoid."""

from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.common import MODE_NAME, R2D, Chain, dom, modes_of, nodes, symbols, tol
from pms.domain import Domain

RULE = (
    "geodetic2ecef and geodetic2spherical equal the normal-vector closed form; ecef2geodetic inverts it exactly on the "
    "surface, the equator, the axis and for spheres, has the ellipsoid's symmetries, and is nowhere separated from the inverse by more "
    "than the accuracy of its closed-form approximation"
)
EXPLAIN = (
    "Value numbers of geodetic2ecef, geodetic2spherical and ecef2geodetic for symbolic ellipsoids, in three representations "
    "and both angle units; special points are substituted symbolically (whole curves and surfaces at once)."
)

def call(s, key, vals, ell, deg):
    sig = SIGS[key]
    out = s.call(key, vals, ell=ell, deg=deg)
    if out.definite:
        raise ValueError(f"always raises {out.definite}")
    r = []
    for (n, role), x in nodes(out, sig):
        r.append(E.mul(x, R2D) if role == "a" and deg is False else x)
    return r


def check(ck):
    for key, f in (("ecef.geodetic2ecef", fwd), ("spherical.geodetic2spherical", sph), ("ecef.ecef2geodetic", inv), ("spherical.spherical2geodetic", sphinv)):
        where = ck.where(key)
        for mode in modes_of(key):
            for deg in (True, False):
                n = f"{key}/{mode}/{'deg' if deg else 'rad'}"
                ck.guarded(n, lambda: f(ck, key, mode, deg, where, n), where)


def fwd(ck, key, mode, deg, where, name):
    s = ck.sess(mode)
    v = symbols(SIGS[key])
    a, f, b = S.axes()
    d = dom(ck, SIGS[key], "E")
    got = call(s, key, v, "E", deg)
    ref = S.geodetic2ecef(S.rad(v.lat), S.rad(v.lon), v.alt, a, f)
    for n, g, w in zip("xyz", got, ref):
        ck.eq(f"{name}/{n}", g, w, d, where, f"{n} is not the point at that height on the normal ({MODE_NAME[mode]})", ab=tol("l"))
    # consequences stated geometrically
    p0 = call(s, key, {**v, "alt": E.ZERO}, "E", deg)
    q = E.add(E.div(E.add(E.mul(p0[0], p0[0]), E.mul(p0[1], p0[1])), E.mul(a, a)), E.div(E.mul(p0[2], p0[2]), E.mul(b, b)))
    ck.eq(f"{name}/surface", q, E.ONE, d, where, "height 0 is not on the ellipsoid")
    up = S.enu_rows(S.rad(v.lat), S.rad(v.lon))[2]
    for n, g, g0, u in zip("xyz", got, p0, up):
        ck.eq(f"{name}/normal {n}", E.sub(g, g0), E.mul(v.alt, u), d, where, "height is not along the outward normal", ab=tol("l"))


def sph(ck, key, mode, deg, where, name):
    s = ck.sess(mode)
    v = symbols(SIGS[key])
    a, f, b = S.axes()
    d = dom(ck, SIGS[key], "E")
    lat, lon, r = call(s, key, v, "E", deg)
    x, y, z = S.geodetic2ecef(S.rad(v.lat), S.rad(v.lon), v.alt, a, f)
    R = S.geodetic2ecef(S.rad(v.lat), E.ZERO, v.alt, a, f)
    ck.eq(f"{name}/radius", E.mul(r, r), E.add(E.mul(R[0], R[0]), E.mul(R[2], R[2])), d, where, f"radius is not the distance from the centre ({MODE_NAME[mode]})", rel=1e-10)
    ck.eq(f"{name}/lat", E.mul(r, E.sin(S.rad(lat))), z, d, where, f"latitude is not geocentric ({MODE_NAME[mode]})", ab=tol("l"))
    ck.eq(f"{name}/lon", lon, v.lon, d, where, f"longitude changed ({MODE_NAME[mode]})", ab=tol("a"))


def sphinv(ck, key, mode, deg, where, name):
    """spherical -> geodetic, by way of ECEF"""
    s = ck.sess(mode)
    v = symbols(SIGS[key])
    a, f, b = S.axes()
    lat, lon, h = call(s, key, v, "E", deg)
    keep = lambda p: p["radius"] > p["E.a"] * 0.95  # noqa: E731
    d = dom(ck, SIGS[key], "E", keep=keep)
    d.roles["radius"] = "a"
    ck.eq(f"{name}/lon", lon, v.lon, d, where, f"longitude changed ({MODE_NAME[mode]})", ab=tol("a"))
    x, y, z = S.geodetic2ecef(S.rad(lat), E.ZERO, h, a, f)
    ck.eq(f"{name}/z", z, E.mul(v.radius, E.sin(S.rad(v.lat))), d, where, f"not the same point ({MODE_NAME[mode]})", ab=1e-5, prove=False, fast=True, n=12)
    ck.eq(f"{name}/rho", x, E.mul(v.radius, E.cos(S.rad(v.lat))), d, where, f"not the same point ({MODE_NAME[mode]})", ab=1e-5, prove=False, fast=True, n=12)


def inv(ck, key, mode, deg, where, name):
    s = ck.sess(mode)
    v = symbols(SIGS[key])
    a, f, b = S.axes()
    d = dom(ck, SIGS[key], "E")
    note = f"({MODE_NAME[mode]})"
    g = call(s, key, v, "E", deg)
    ck.eq(f"{name}/lon", g[1], E.mul(E.atan2(v.y, v.x), R2D), d, where, f"longitude is not atan2(y, x) {note}", ab=tol("a"))
    o = dict(gen=True, n=16, fast=True)
    sq = lambda x: E.power(x, 2)  # noqa: E731
    # mirror images
    m = call(s, key, {**v, "z": E.neg(v.z)}, "E", deg)
    ck.eq(f"{name}/mirror lat", m[0], E.neg(g[0]), d, where, f"latitude is not odd in z {note}", ab=tol("a"), **o)
    ck.eq(f"{name}/mirror alt", m[2], g[2], d, where, f"height is not even in z {note}", ab=tol("l"), **o)
    # only the distance from the axis matters
    rho, t = E.sym("rho", pos=True), E.sym("turn")
    r0 = call(s, key, {**v, "x": rho, "y": E.ZERO}, "E", deg)
    r1 = call(s, key, {**v, "x": E.mul(rho, E.cos(S.rad(t))), "y": E.mul(rho, E.sin(S.rad(t)))}, "E", deg)
    dt = Domain({"rho": "R", "z": "h", "turn": "L", "E.a": "a", "E.f": "f"}, seed=ck.seed)
    for i, n in ((0, "lat"), (2, "alt")):
        ck.eq(f"{name}/turn {n}", r1[i], r0[i], dt, where, f"{n} changes when the point is turned about the axis {note}", ab=tol("l"), **o)
    def signed(w, X, Y, Z):
        """the height w, written with its sign decided by the ellipsoid's equation"""
        q = E.sub(E.add(E.div(E.add(sq(X), sq(Y)), sq(a)), E.div(sq(Z), sq(b))), E.ONE)
        return E.ite(E.cmp("<", q, E.ZERO), E.neg(E.abs_(w)), E.abs_(w))

    ck.eq(f"{name}/sign", g[2], signed(g[2], v.x, v.y, v.z), d, where, f"height is negative exactly inside the ellipsoid {note}", ab=tol("l"), **o)
    # equator
    q = call(s, key, {**v, "z": E.ZERO}, "E", deg)
    de = Domain({"x": "c", "y": "c", "z": "c", "E.a": "a", "E.f": "f"}, seed=ck.seed, keep=lambda p: p["x"] ** 2 + p["y"] ** 2 > (p["E.a"] * p["E.f"] * 2) ** 2)
    ck.eq(f"{name}/equator lat", q[0], E.ZERO, de, where, f"latitude on the equator {note}", ab=tol("a"), **o)
    w = E.sub(E.hypot(v.x, v.y), a)
    ck.eq(f"{name}/equator height", sq(q[2]), sq(w), de, where, f"magnitude of the height on the equator {note}", ab=tol("l"), **o)
    # axis
    zp = E.sym("zp", pos=True)
    da = Domain({"zp": "R", "E.a": "a", "E.f": "f"}, seed=ck.seed, keep=lambda w: w["zp"] > 1000)
    for sg, zz in ((1, zp), (-1, E.neg(zp))):
        p = call(s, key, {"x": E.ZERO, "y": E.ZERO, "z": zz}, "E", deg)
        w = E.sub(zp, b)
        ck.eq(f"{name}/axis{sg} lat", p[0], E.q(90 * sg), da, where, f"latitude on the polar axis {note}", ab=tol("a"), **o)
        ck.eq(f"{name}/axis{sg} height", sq(p[2]), sq(w), da, where, f"magnitude of the height on the polar axis {note}", ab=tol("l"), **o)
        # surface, parametrised by the parametric latitude
    be, lo = E.sym("beta", latdeg=True), E.sym("lo")
    cb, sb = E.cos(S.rad(be)), E.sin(S.rad(be))
    pt = {"x": E.mul(a, cb, E.cos(S.rad(lo))), "y": E.mul(a, cb, E.sin(S.rad(lo))), "z": E.mul(b, sb)}
    p = call(s, key, pt, "E", deg)
    dn = Domain({"beta": "P", "lo": "L", "E.a": "a", "E.f": "f"}, seed=ck.seed, keep=lambda w: abs(w["beta"]) < 89)
    ref = E.mul(E.fn("atan", E.div(E.mul(a, E.tan(S.rad(be))), b)), R2D)
    ck.eq(f"{name}/surface lat", p[0], ref, dn, where, f"latitude of a point on the surface {note}", ab=tol("a"), **o)
    ck.eq(f"{name}/surface alt", sq(p[2]), E.ZERO, dn, where, f"height of a point on the surface {note}", ab=1e-10, **o)
    dp = Domain({"beta": "N", "lo": "L", "E.a": "a", "E.f": "f"}, seed=ck.seed)
    ck.eq(f"{name}/surface lat near the poles", p[0], ref, dp, where, f"latitude of a point on the surface close to a pole {note}", ab=1e-8, prove=False, n=24, fast=True)
    # sphere
    c = call(s, key, v, (a, E.ZERO), deg)
    dsp = Domain({"x": "c", "y": "c", "z": "c", "E.a": "a"}, seed=ck.seed)
    ck.eq(f"{name}/sphere lat", E.tan(S.rad(c[0])), E.div(v.z, E.hypot(v.x, v.y)), dsp, where, f"latitude on a sphere {note}", ab=tol("a"), **o)
    w = E.sub(E.hypot(v.x, v.y, v.z), a)
    ck.eq(f"{name}/sphere height", sq(c[2]), sq(w), dsp, where, f"magnitude of the height above a sphere {note}", ab=tol("l"), **o)
    # everywhere: the point comes back
    la, h = E.sym("lat", latdeg=True), E.sym("h")
    P = S.geodetic2ecef(S.rad(la), S.rad(lo), h, a, f)
    back = call(s, key, dict(zip("xyz", P)), "E", deg)
    dg = Domain({"lat": "P", "lo": "L", "h": "h", "E.a": "a", "E.f": "g"}, seed=ck.seed, keep=lambda w: w["E.a"] > 10**6 and -w["E.a"] / 50 < w["h"] < w["E.a"] / 20)
    if mode == "np0" and ck.tier == "quick":
        return
    ck.eq(f"{name}/back lat", back[0], la, dg, where, f"latitude does not come back {note}", ab=BACK[0], prove=False, n=24, fast=True)
    ck.eq(f"{name}/back alt", back[2], h, dg, where, f"height does not come back {note}", ab=BACK[1], prove=False, n=16, fast=True)
    dp = Domain({"lat": "N", "lo": "L", "h": "h", "E.a": "a", "E.f": "g"}, seed=ck.seed, keep=dg.keep)
    ck.eq(f"{name}/back lat near the poles", back[0], la, dp, where, f"latitude close to a pole does not come back {note}", ab=1e-8, prove=False, n=24, fast=True)


BACK = (3e-6, 0.02)  # degrees, metres: well above the method's error for flattenings up to 1/200
