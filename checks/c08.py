"""C08: the geodesic solvers."""

import multiprocessing
import os
import random
import time
from fractions import Fraction as F

import mpmath
from mpmath import mp, mpf

from pms import expr as E
from pms import geod as G
from pms import spec as S
from pms.api import ANGLES, SIGS
from pms.common import MODE_NAME, modes_of, nodes, opaque, symbols
from pms.equal import FUEL, Eval, Iv, ipt
from pms.interp import Interp
from pms.session import Missing
from pms.values import Arr, Ref, Sc, Unsupported

RULE = (
    "series helpers of karney.py = truncated expansions of the integrals they stand for, re-derived in exact rational arithmetic; distance = length of the shortest geodesic, "
    "the direct problem from (point 1, azimuth 1, distance) ends at point 2 with azimuth 2, vdist and vreckon = Vincenty's nested series; geodesic_line and track2 step along the "
    "geodesic at equal distances; perimeter = sum of the inverse distances; on a sphere all are great circles"
)
EXPLAIN = (
    "Helpers and compositions are value-numbered with symbolic arguments and compared by normal forms; the value numbers of the whole solvers (loops included) are evaluated "
    "in interval arithmetic at special and ordinary configurations on ellipsoids between the sphere and flattening 1/5 and must not be disjoint from reference solutions."
)
LINE, AREA, TRACK = "karney.geodesic_line", "karney.geodesic_area", "vincenty.track2"
INV, DIR, VD, VR = "karney.geodesic_inverse", "karney.geodesic_direct", "vincenty.vdist", "vincenty.vreckon"
ANGLE = ANGLES + "aA"
FLATS = [F(0), F(1, 298), F(1, 50), F(1, 10), F(1, 5)]


def check(ck):
    ck.guarded("series", lambda: series(ck), ck.where("karney._Geodesic"))
    for mode in ("py", "np0"):
        ck.guarded(f"karney.geodesic_line/{mode}", lambda: line(ck, mode), ck.where("karney.geodesic_line"))
        ck.guarded(f"karney.geodesic_area/{mode}", lambda: area(ck, mode), ck.where("karney.geodesic_area"))
    ck.guarded("vincenty.track2", lambda: track2(ck), ck.where("vincenty.track2"))
    solvers(ck)


# ---------------------------------------------------------------- series
def poly(t, eps, n):
    return E.add(*[E.mul(E.q(c), E.power(eps, i), E.power(n, j)) for (i, j), c in t.items()])


def geodesic(ck):
    s = ck.sess("py")
    st = s.I.base.clone()
    ell = s.ellipsoid(st, "E")
    st.pend = []
    s.I.events, s.I.stack = [], [("pymap3d.karney", "<entry>", 0)]
    g = s.I.call(s.get("karney._Geodesic"), [ell], {}, st)
    return s, st, g


def helper(ck, name, f, where):
    """run f(); a helper that is gone or has another form is no violation: the solvers are decided by their values"""
    try:
        f()
    except (Missing, Unsupported, KeyError, AttributeError, ValueError, TypeError, IndexError) as e:
        ck.record(name, "unknown", f"helper not recognised: {e}", where)


def series(ck):
    s, st, g = geodesic(ck)
    t = G.tables()
    eps = E.sym("eps")
    f = E.sym("E.f", pos=True, lt=1)
    n = E.div(f, E.sub(E.q(2), f))
    I = s.I

    def same(name, got, want, where):
        from pms.equal import prove_eq

        FUEL.start(3_000_000, 20)
        try:
            ok = got is want or prove_eq(got, want, 3)
        finally:
            FUEL.start(1 << 60, 1e9)
        ck.record(name, "proved" if ok else "unknown", "" if ok else "another expression than the expansion", where, how="normal forms equal" if ok else "")

    def filled(fn, args, size):
        """a helper that fills a list it is given"""
        x = st.clone()
        x.pend = []
        I.events, I.stack = [], [("pymap3d.karney", "<entry>", 0)]
        lst = I.newlist(x, [Sc(E.ZERO, "py", "float") for _ in range(size)])
        I.call(fn, [*args, lst], {}, x)
        return [v.node for v in x.heap[lst.oid]]

    def plain(fn, args):
        x = st.clone()
        x.pend = []
        I.events, I.stack = [], [("pymap3d.karney", "<entry>", 0)]
        return I.call(fn, args, {}, x).node

    def method(name):
        return I.getattr_(g, name, st)

    e = Sc(eps, "py", "float")

    def a1():
        got = plain(s.get("karney._A1m1f"), [e])
        same("series/A1", got, E.sub(E.div(poly(t["A1"], eps, n), E.sub(E.ONE, eps)), E.ONE), ck.where("karney._A1m1f"))

    def c(name, tab, fn, size):
        got = filled(fn(), [e], size)
        for l, tt in t[tab].items():
            same(f"series/{tab}[{l}]", got[l], poly(tt, eps, n), ck.where(name))

    def a3():
        same("series/A3", plain(method("_A3f"), [e]), poly(t["A3"], eps, n), ck.where("karney._Geodesic._A3f"))

    def clenshaw():
        x = E.sym("x")
        for m in (5, 6):
            cs = [E.sym(f"c{i}") for i in range(m + 1)]
            y = st.clone()
            y.pend = []
            I.events, I.stack = [], [("pymap3d.karney", "<entry>", 0)]
            lst = I.newlist(y, [Sc(k, "py", "float") for k in cs])
            for sinp in (True,):
                a = [Sc(E.TRUE if sinp else E.FALSE, "py", "bool"), Sc(E.sin(x), "py", "float"), Sc(E.cos(x), "py", "float"), lst, Sc(E.q(m), "py", "int")]
                got = I.call(s.get("karney._SinCosSeries"), a, {}, y).node
                want = E.add(*[E.mul(cs[k], E.sin(E.scale(x, 2 * k))) for k in range(1, m + 1)])
                same(f"series/sum of {m} sines", got, want, ck.where("karney._SinCosSeries"))

    helper(ck, "series/A1", a1, ck.where("karney._A1m1f"))
    helper(ck, "series/C1", lambda: c("karney._C1f", "C1", lambda: s.get("karney._C1f"), 7), ck.where("karney._C1f"))
    helper(ck, "series/C1p", lambda: c("karney._C1pf", "C1p", lambda: s.get("karney._C1pf"), 7), ck.where("karney._C1pf"))
    helper(ck, "series/A3", a3, ck.where("karney._Geodesic._A3f"))
    helper(ck, "series/C3", lambda: c("karney._Geodesic._C3f", "C3", lambda: method("_C3f"), 6), ck.where("karney._Geodesic._C3f"))
    helper(ck, "series/sum", clenshaw, ck.where("karney._SinCosSeries"))


# ---------------------------------------------------------------- compositions
STUB = opaque(INV, DIR, VD, VR)


def fl(n):
    return Sc(n, "py", "float")


def flag(deg):
    return Sc(E.TRUE if deg else E.FALSE, "py", "bool")


def un(key, out, *args, deg=True):
    """the unknown function that stands for a solver"""
    a, f, b = S.axes()
    return E.fn(f"{key}.{out}", *args, a, b, E.TRUE if deg else E.FALSE)


def line(ck, mode):
    where = ck.where("karney.geodesic_line")
    s = ck.sess(mode, overrides=STUB)
    v = [E.sym(k) for k in ("lat1", "lon1", "lat2", "lon2")]
    for deg in (True, False):
        for npts in (1, 2, 3, 5):
            n = f"karney.geodesic_line/{mode}/{'deg' if deg else 'rad'}/{npts} points"
            st = s.I.base.clone()
            ell = s.ellipsoid(st, "E")
            o = s.run("karney.geodesic_line", [fl(x) for x in v], {"ell": ell, "npts": Sc(E.q(npts), "py", "int"), "deg": flag(deg)}, st)
            if o.definite:
                ck.fact(n, False, f"every call raises {o.definite}", where)
                continue
            dist, az = un(INV, "dist", *v, deg=deg), un(INV, "az1", *v, deg=deg)
            want = []
            for nm in ("lat2", "lon2"):
                for i in range(npts):
                    d = E.scale(dist, F(i, npts - 1)) if npts > 1 else E.ZERO
                    want.append(un(DIR, nm, v[0], v[1], az, d, deg=deg))
            alike(ck, n, o.leaves, want, where, "point i is not the point at distance i/(n-1) of the whole along the geodesic")


def alike(ck, n, got, want, where, what):
    """equal for every solver, else evaluated with pseudo-random solvers: separated means the calls differ"""
    if len(got) != len(want):
        ck.record(n, "unknown", f"{len(got)} results, not {len(want)}", where)
        return
    from pms.equal import prove_eq

    for i, (g, w) in enumerate(zip(got, want)):
        FUEL.start(3_000_000, 10)
        try:
            ok = g is w or prove_eq(g, w, 3)
        finally:
            FUEL.start(1 << 60, 1e9)
        ck.record(f"{n}/{i}", "proved" if ok else "unknown", "" if ok else what, where, how="normal forms equal, for any solver" if ok else "")


def area(ck, mode):
    where = ck.where("karney.geodesic_area")
    s = ck.sess(mode, overrides=STUB)
    for deg in (True, False):
        for m in (3, 4):
            st = s.I.base.clone()
            ell = s.ellipsoid(st, "E")
            la, lo = ([E.sym(f"{w}{i}") for i in range(m)] for w in ("lat", "lon"))
            k = E.ONE if deg else S.deg(E.ONE)
            o = s.run("karney.geodesic_area", [tuple(fl(x) for x in la), tuple(fl(x) for x in lo)], {"ell": ell, "deg": flag(deg)}, st)
            n = f"karney.geodesic_area/{mode}/{'deg' if deg else 'rad'}/{m} vertices/perimeter"
            if o.definite:
                ck.fact(n, False, f"every call raises {o.definite}", where)
                continue
            want = E.add(*[un(INV, "dist", *[E.mul(k, x) for x in (la[i], lo[i], la[(i + 1) % m], lo[(i + 1) % m])]) for i in range(m)])
            want_r = E.add(*[un(INV, "dist", la[i], lo[i], la[(i + 1) % m], lo[(i + 1) % m], deg=False) for i in range(m)])
            got = o.leaves[1]
            ok = got is want or got is want_r
            alike(ck, n, [got], [got if ok else want], where, "the perimeter is not the sum of the lengths of the sides")
    # an octant of a sphere, counter-clockwise: one eighth of 4 pi a^2
    if mode != "py":
        return
    s = ck.sess(mode)
    st = s.I.base.clone()
    ell = s.ellipsoid(st, "E", f=E.ZERO)
    o = s.run("karney.geodesic_area", [tuple(fl(E.q(x)) for x in (0, 0, 90)), tuple(fl(E.q(x)) for x in (0, 90, 0))], {"ell": ell}, st)
    a = E.sym("E.a", pos=True)
    FUEL.start(1 << 60, 60)
    got = Eval({a: ipt(1)})(o.leaves[0])
    FUEL.start(1 << 60, 1e9)
    n = "karney.geodesic_area/area"
    want = mp.pi / 2
    if not isinstance(got, Iv):
        ck.record(n, "unknown", "not evaluated", where)
    elif got.lo - mpf("1e-6") <= want <= got.hi + mpf("1e-6"):
        ck.record(n, "unknown", "", where, how="not separated from the area of an octant")
    else:
        ck.record(n, "refuted", "the area of a counter-clockwise octant of the unit sphere is not pi/2", where, {"got": str(got)}, "interval evaluation separates the two")


def track2(ck):
    key = "vincenty.track2"
    where = ck.where(key)
    s = ck.sess("np0", overrides=STUB)
    v = [E.sym(k) for k in ("lat1", "lon1", "lat2", "lon2")]
    for deg in (True, False):
        for npts in (2, 3, 4):
            n = f"{key}/{'deg' if deg else 'rad'}/{npts} points"
            o = s.call(key, dict(zip(("lat1", "lon1", "lat2", "lon2"), v)), ell="E", deg=deg, extra={"npts": Sc(E.q(npts), "py", "int")})
            if o.definite:
                ck.fact(n, False, f"every call raises {o.definite}", where)
                continue
            r = [S.rad(x) for x in v]
            back = S.deg if deg else (lambda x: x)
            if npts == 2:
                ends = v if deg else r
                alike(ck, n, o.leaves, [ends[0], ends[2], ends[1], ends[3]], where, "the two points are not the end points")
                continue
            d, z = (x for x, _ in SIGS[VD].outs)
            dist, az = un(VD, d, *r, deg=False), un(VD, z, *r, deg=False)
            want = []
            for nm, _ in SIGS[VR].outs:
                if o.kinds and isinstance(o.kinds[0], Arr):
                    want.append(back(un(VR, nm, r[0], r[1], E.mul(dist, E.sym("linspace.i"), E.q(F(1, npts - 1))), az, deg=False)))
                else:
                    want += [back(un(VR, nm, r[0], r[1], E.scale(dist, F(i, npts - 1)), az, deg=False)) for i in range(npts)]
            alike(ck, n, o.leaves, want, where, "point i is not the point at distance i/(n-1) of the whole")


# ---------------------------------------------------------------- whole solvers
def pts_inverse(rng, k, vin=False):
    """(category, lat1, lon1, lat2, lon2), degrees"""
    u = lambda a, b: F(rng.randint(int(a * 4096), int(b * 4096)), 4096)  # noqa: E731
    out = []
    for i in range(k):
        out.append(("ordinary", u(-89, 89), u(-180, 180), u(-89, 89), u(-180, 180)))
    for i in range(max(2, k // 6)):
        la, lo = u(-80, 80), u(-180, 180)
        out += [
            ("near", la, lo, la + u(-1, 1) / 64, lo + u(-1, 1) / 64),
            ("meridian", la, lo, u(-89, 89), lo),
            ("equator", F(0), lo, F(0), lo + u(1, 150)),
            ("wrapped", la, lo + 360, u(-80, 80), u(-180, 180) - 360),
            ("parallel", la, lo, la, lo + u(1, 60)),
            ("mirrored", la, lo, -la, lo + u(1, 100)),
            ("one end on the equator", F(0), lo, u(-80, 80), lo + u(-90, 90)),
        ]
        if not vin:
            out += [
                ("over the pole", la, lo, u(-80, 80), lo + 180),
                ("nearly antipodal", la, lo, -la + u(-1, 1) / 4, lo + 180 + u(-1, 1) / 4),
                ("both on the equator, nearly antipodal", F(0), lo, F(0), lo + 180 - u(0, 1) * 40),
                ("over the pole, nearly antipodal", la, lo, -la + u(-1, 1) * 20, lo + 180),
                ("nearly antipodal on the equator", F(0), lo, u(-1, 1) / 16, lo + 180 - u(0, 1) / 4),
                ("polar", rng.choice([F(90), F(-90)]), lo, u(-89, 89), u(-180, 180)),
            ]
    if vin:
        out += [("coincident", F(30), F(40), F(30), F(40)), ("polar", F(90), F(0), F(10), F(20)), ("polar", F(10), F(20), F(-90), F(0)), ("polar", F(-90), F(10), F(45), F(100))]
        return out
    for la1, la2, dl in [
        (0, 90, 0), (90, 0, 0), (0, -90, 50), (-90, 0, 10), (-90, 90, 0), (90, -90, 77), (90, 90, 180), (90, 90, 0), (-90, -90, 90), (45, 90, 45), (-90, -45, 30),
        (0, 0, 180), (0, 0, 179), (0, 0, 0), (0, 0, 90), (30, 30, 0), (30, -30, 180), (30, 30, 180), (-30, 30, 180), (0, 45, 180), (45, 0, 90), (-45, 45, 90), (45, 45, 90),
    ]:
        out.append(("special", F(la1), F(10), F(la2), F(10 + dl)))
    return out


def pts_direct(rng, k, a=F(6378137)):
    u = lambda x, y: F(rng.randint(int(x * 4096), int(y * 4096)), 4096)  # noqa: E731
    r = lambda x, y: F(rng.randint(int(x * a), int(y * a)))  # noqa: E731
    out = []
    for i in range(k):
        out.append(("ordinary", u(-89, 89), u(-180, 180), u(-180, 180), r(0, 3)))
    for i in range(max(2, k // 6)):
        out += [
            ("short", u(-89, 89), u(-180, 180), u(-180, 180), F(rng.randint(0, 2000))),
            ("long", u(-80, 80), u(-180, 180), u(-180, 180), r(3, 12)),
            ("from the equator", F(0), u(-180, 180), u(-180, 180), r(0, 3)),
            ("along the equator", F(0), u(-180, 180), rng.choice([F(90), F(-90)]), r(0, 3)),
            ("meridian", u(-80, 80), u(-180, 180), rng.choice([F(0), F(180), F(-180)]), r(0, 3)),
            ("due east or west", u(-80, 80), u(-180, 180), rng.choice([F(90), F(-90)]), r(0, 3)),
            ("wrapped", u(-80, 80), u(-180, 180) + 360, u(180, 360), r(0, 3)),
            ("polar", rng.choice([F(90), F(-90)]), u(-180, 180), u(-180, 180), r(0, 3)),
        ]
    out += [("no distance", F(30), F(40), F(50), F(0)), ("no distance", F(0), F(40), F(90), F(0))]
    return out


def place(lat, lon, a, f):
    s, c = G.beta_of(lat, f)
    return a * c * mp.cos(lon), a * c * mp.sin(lon), a * (1 - f) * s


def gap(p, q, a, f):
    return mp.sqrt(mp.fsum((x - y) ** 2 for x, y in zip(place(*p, a, f), place(*q, a, f))))


def R(x):
    return mp.mpf(x.numerator) / x.denominator * mp.pi / 180 if isinstance(x, F) else x * mp.pi / 180


def mid(v):
    return (v.lo + v.hi) / 2


def sharp(x, w="1e-8"):
    return isinstance(x, Iv) and x.hi - x.lo < mpf(w)


def judge_inverse(p, a, f, got):
    """None, "skip" when nothing can be compared, or (result, what is wrong)"""
    dist, az1, az2 = got
    la1, lo1, la2, lo2 = map(R, p)
    if not isinstance(dist, Iv):
        return "skip"
    want = G.inverse(a, f, la1, lo1, la2, lo2)
    if dist.lo - want > mpf("2e-6") or want - dist.hi > mpf("2e-6"):
        return "dist", f"distance {mp.nstr(mid(dist), 17)}, the shortest geodesic has {mp.nstr(want, 17)}"
    if not sharp(dist):
        return "skip"
    d = mid(dist)
    if sharp(az1):
        la, lo, z2, *_ = G.direct(a, f, la1, lo1, R(mid(az1)), d)
        e = gap((la, lo), (la2, lo2), a, f)
        if e > mpf("2e-5"):
            return "az1", f"azimuth {mp.nstr(mid(az1), 17)} at point 1 leads {mp.nstr(e, 5)} m past point 2"
    if sharp(az2) and d > 1 and abs(p[2]) != 90:
        la, lo, z1, *_ = G.direct(a, f, la2, lo2, R(mid(az2)), -d)
        e = gap((la, lo), (la1, lo1), a, f)
        if e > mpf("2e-5"):
            return "az2", f"azimuth {mp.nstr(mid(az2), 17)} at point 2 leads back {mp.nstr(e, 5)} m past point 1"
    return None


def judge_direct(p, a, f, got):
    la, lo, z2, *_ = G.direct(a, f, R(p[0]), R(p[1]), R(p[2]), mpf(p[3].numerator) / p[3].denominator)
    if not sharp(got[0]) or not sharp(got[1]):
        e = mp.degrees(la) - mid(got[0]) if sharp(got[0]) else 0
        return ("end point", f"latitude {mp.nstr(mid(got[0]), 15)}, expected {mp.nstr(mp.degrees(la), 15)}") if abs(e) > mpf("1e-9") else "skip"
    lat, lon = R(mid(got[0])), R(mid(got[1]))
    e = gap((la, lo), (lat, lon), a, f)
    if e > mpf("2e-6"):
        return "end point", f"({mp.nstr(mid(got[0]), 15)}, {mp.nstr(mid(got[1]), 15)}) is {mp.nstr(e, 5)} m from the end point of the geodesic"
    if not sharp(got[2]):
        return None
    # the azimuth turns with the longitude at a pole: weigh it by the distance from the axis
    az = R(mid(got[2]))
    e = abs(mp.sin((az - z2) / 2)) * 2 * mp.cos(lat)
    if e > mpf("1e-11") or (abs(mp.cos(lat)) > mpf("0.1") and mp.cos(az - z2) < 0):
        return "az2", f"azimuth {mp.nstr(mid(got[2]), 15)} at the end point, expected {mp.nstr(mp.degrees(z2), 15)}"
    return None


def judge_vdist(p, a, f, got):
    la1, lo1, la2, lo2 = map(R, p)
    pole = abs(p[0]) == 90 or abs(p[2]) == 90
    w = sphere(a, la1, lo1, la2, lo2) if f == 0 else G.vinverse(a, f, la1, lo1, la2, lo2)
    if w is None or not (sharp(got[0]) or sharp(got[1])):
        return "skip"
    d, z = w
    tol = mpf("5e-3") if pole else mpf("1e-4")
    if sharp(got[0]) and abs(mid(got[0]) - d) > tol:
        return "dist", f"distance {mp.nstr(mid(got[0]), 15)}, Vincenty's series give {mp.nstr(d, 15)}"
    if sharp(got[1]) and z is not None and d > 1 and abs(p[0]) != 90:
        e = abs(mp.sin((R(mid(got[1])) - z) / 2)) * 2 * a * mp.sin(min(d / a, mpf(1)))
        if e > max(tol, mpf("1e-3")):
            return "az", f"azimuth {mp.nstr(mid(got[1]), 15)}, Vincenty's series give {mp.nstr(mp.degrees(z) % 360, 15)}"
    return None


def judge_along(vin):
    """the points of a line of n points, latitudes then longitudes"""

    def judge(p, a, f, got):
        la1, lo1, la2, lo2 = map(R, p)
        n = len(got) // 2
        if vin:
            w = G.vinverse(a, f, la1, lo1, la2, lo2)
            if w is None:
                return "skip"
            d, z = w
        else:
            d = G.inverse(a, f, la1, lo1, la2, lo2)
            z = None
        seen = False
        for i in range(n):
            if not (sharp(got[i]) and sharp(got[n + i])):
                continue
            seen = True
            q = R(mid(got[i])), R(mid(got[n + i]))
            if vin:
                e = gap(G.vdirect(a, f, la1, lo1, d * i / (n - 1), z), q, a, f)
            else:  # on the geodesic, at i / (n-1) of its length from both ends
                e = max(abs(G.inverse(a, f, la1, lo1, *q) - d * i / (n - 1)), abs(G.inverse(a, f, *q, la2, lo2) - d * (n - 1 - i) / (n - 1)))
            if e > mpf("1e-3"):
                return f"point {i}", f"point {i} of {n} is {mp.nstr(e, 5)} m from its place on the line"
        return None if seen else "skip"

    return judge


def judge_perimeter(p, a, f, got):
    if not sharp(got[0]):
        return "skip"
    q = [(R(p[i]), R(p[i + 1])) for i in range(0, len(p), 2)]
    want = mp.fsum(G.inverse(a, f, *x, *y) for x, y in zip(q, q[1:] + q[:1]))
    if abs(mid(got[0]) - want) > mpf("1e-5"):
        return "perimeter", f"perimeter {mp.nstr(mid(got[0]), 15)}, the sides have {mp.nstr(want, 15)}"
    return None


def sphere(a, la1, lo1, la2, lo2):
    L = lo2 - lo1
    x = mp.cos(la1) * mp.sin(la2) - mp.sin(la1) * mp.cos(la2) * mp.cos(L)
    y = mp.cos(la2) * mp.sin(L)
    s = mp.atan2(mp.hypot(x, y), mp.sin(la1) * mp.sin(la2) + mp.cos(la1) * mp.cos(la2) * mp.cos(L))
    if s > mpf("2.8"):
        return None
    return a * s, mp.atan2(y, x)


def judge_vreckon(p, a, f, got):
    if not (sharp(got[0]) and sharp(got[1])):
        return "skip"
    s = mpf(p[3].numerator) / p[3].denominator
    la, lo = G.vdirect(a, f, R(p[0]), R(p[1]), s, R(p[2]))
    e = gap((la, lo), (R(mid(got[0])), R(mid(got[1]))), a, f)
    # poles are moved by 0.6 mm
    if e > (mpf("5e-3") if abs(p[0]) == 90 else mpf("1e-4")):
        return "end point", f"({mp.nstr(mid(got[0]), 15)}, {mp.nstr(mid(got[1]), 15)}) is {mp.nstr(e, 5)} m from the end point by Vincenty's series"
    return None


JOBS = {}


def work(i):
    """one configuration: all distinct value numbers of the solver"""
    key, cat, p, f, roots, judge, limit = JOBS[i]
    if time.time() > limit:
        return i, None
    a = F(6378137)
    if key in (VR, DIR):
        p_of = dict(zip(("lat1", "lon1", "azim", "rng") if key == VR else ("lat1", "lon1", "azi1", "dist"), p))
    elif key == AREA:
        p_of = {f"{w}{i // 2}": x for i, (w, x) in enumerate(zip(("lat", "lon") * len(p), p))}
    else:
        p_of = dict(zip(("lat1", "lon1", "lat2", "lon2"), p))
    box = {E.sym("E.a", pos=True): ipt(a), E.sym("E.f", pos=True, lt=1): ipt(f)}
    res = []
    for tag, leaves in roots:
        for n in leaves:
            for y in E.free(n):
                if y.a[0] in p_of:
                    box[y] = ipt(p_of[y.a[0]])
        FUEL.start(1 << 60, 120)
        ev = Eval(box)
        try:
            got = [ev(n) for n in leaves]
            r = judge(p, mpf(a.numerator), mpf(f.numerator) / f.denominator, got)
        except (ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.libhyper.NoConvergence):
            r = "skip"
        res.append((tag, r))
    return i, res


def whole(ck, key, rng, quick):
    """geodesic_line, geodesic_area and track2 with the solvers in place"""
    s = ck.sess("np0" if key == TRACK else "py")
    n = 4
    for deg in (True, False):
        st = s.I.base.clone()
        ell = s.ellipsoid(st, "E")
        ang = (lambda x: x) if deg else S.rad
        kw = {"ell": ell, "deg": flag(deg)}
        if key == AREA:
            pts = [tuple(fl(ang(E.sym(f"{w}{i}"))) for i in range(3)) for w in ("lat", "lon")]
        else:
            pts = [fl(ang(E.sym(k))) for k in ("lat1", "lon1", "lat2", "lon2")]
            kw["npts"] = Sc(E.q(n), "py", "int")
        o = s.run(key, pts, kw, st)
        if o.definite:
            continue
        if key == AREA:
            leaves, judge = o.leaves[1:], judge_perimeter
        else:
            leaves = o.leaves if deg else [S.deg(x) for x in o.leaves]
            judge = judge_along(key == TRACK)
            if key == TRACK and isinstance(o.kinds[0], Arr):
                i = E.sym("linspace.i")
                leaves = [E.subst(x, {i: E.q(k)}) for x in leaves for k in range(n)]
            if len(leaves) != 2 * n:
                ck.record(f"{key}/points", "refuted" if all(not isinstance(k, Arr) for k in o.kinds) else "unknown", f"{len(leaves)} coordinates for {n} points", ck.where(key))
                continue
        for k in range(3 if quick else 12):
            u = lambda x, y: F(rng.randint(int(x * 4096), int(y * 4096)), 4096)  # noqa: E731
            p = [F(0), F(90), F(0), F(0), F(90), F(0)] if k == 0 else [u(-80, 80), u(-180, 180), u(-80, 80), u(-180, 180), u(-80, 80), u(-180, 180)]
            if key != AREA:
                p = [F(10), F(20), F(-30), F(50)] if k == 0 else p[:4]
            JOBS[len(JOBS)] = (key, "any", p, FLATS[1 + k % 4], [(f"{'deg' if deg else 'rad'}", leaves)], judge, ck.t0 + ck.limit * 0.9)


def solvers(ck):
    quick = ck.tier == "quick"
    rng = random.Random(ck.seed)
    judge = {INV: judge_inverse, DIR: judge_direct, VD: judge_vdist, VR: judge_vreckon}
    count = {INV: 8 if quick else 60, DIR: 14 if quick else 150, VD: 14 if quick else 100, VR: 14 if quick else 150}
    roots, groups = {}, {}
    for key in (INV, DIR, VD, VR):
        where = ck.where(key)

        def build(key=key, where=where):
            seen = {}
            for f0 in (True, False):
                for mode in modes_of(key):
                    for deg in (True, False):
                        s = ck.sess(mode)
                        kw = {"ell": (E.sym("E.a", pos=True), E.ZERO)} if f0 else {"ell": "E"}
                        o = s.call(key, symbols(SIGS[key]), deg=deg, **kw)
                        tag = f"{mode}/{'deg' if deg else 'rad'}"
                        if o.definite:
                            ck.fact(f"{key}/{tag}", False, f"every call raises {o.definite}", where)
                            continue
                        ls = [n if deg or r not in ANGLE else S.deg(n) for (_, r), n in nodes(o, SIGS[key])]
                        seen.setdefault((f0, tuple(ls)), []).append(tag)
            roots[key] = {f0: [("+".join(t), ls) for (g, ls), t in seen.items() if g == f0] for f0 in (True, False)}

        ck.guarded(f"{key}/value number", build, where)
        if key not in roots:
            continue
        for f in FLATS:
            k = count[key] if f else max(4, count[key] // 2)
            ps = pts_inverse(rng, k, key == VD) if key in (INV, VD) else pts_direct(rng, k)
            rs = roots[key][f == 0]
            for i, (cat, *p) in enumerate(ps):
                # radian and array forms are the same algorithm: each is sampled
                sel = rs if not quick or i % 4 == 0 else rs[:1] if i % 2 else rs[-1:]
                JOBS[len(JOBS)] = (key, cat, p, f, sel, judge[key], ck.t0 + ck.limit * 0.9)
    for key in (LINE, AREA, TRACK):
        ck.guarded(f"{key}/value number", lambda: whole(ck, key, rng, quick), ck.where(key))
    order = list(JOBS)
    random.Random(5).shuffle(order)
    done = {}
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for i, r in pool.imap_unordered(work, order, chunksize=4):
            done[i] = r
    for i in sorted(done):
        key, cat, p, f, *_ = JOBS[i]
        for tag, r in done[i] or [("", "skip")]:
            g = groups.setdefault((key, cat, tag), [0, 0, []])
            if r == "skip":
                g[1] += 1
            elif r is None:
                g[0] += 1
            else:
                g[2].append((p, f, r))
    for (key, cat, tag), (ok, skip, bad) in sorted(groups.items()):
        if not tag:
            continue
        n = f"{key}/{tag}/{cat}"
        where = ck.where(key)
        if bad:
            p, f, (what, why) = bad[0]
            names = ("lat1", "lon1", "azimuth", "distance") if key in (DIR, VR) else ("lat1", "lon1", "lat2", "lon2", "lat3", "lon3")
            wit = {"inputs": {**{k: str(float(x)) for k, x in zip(names, p)}, "flattening": str(f)}, "result": what, "cases": len(bad)}
            if ck.wants(n):
                ck.record(n, "refuted", why, where, wit, "interval evaluation separates the two")
        elif ck.wants(n):
            ck.record(n, "unknown", "", where, how=f"not separated on {ok} configurations ({skip} not evaluable), no proof")
