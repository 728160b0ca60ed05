"""C25: rhumb lines, meridian arcs, departures and the geographic mean."""

from fractions import Fraction as F

from checks.c07 import psi, refs
from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.common import MODE_NAME, R2D, dom, modes_of, nodes, symbols, tol
from pms.domain import Domain
from pms.values import Sc

RULE = (
    "rhumb azimuth = atan2(longitude difference the short way, isometric latitude difference), length = meridian arc / |cos azimuth| or departure when the "
    "azimuth is within 1e-9 of east or west; end point: rectifying latitude moved by range * cos(azimuth), longitude by tan(azimuth) times the isometric "
    "difference; meridian arc = rectifying radius times the difference of rectifying latitudes and near the integral of the meridional radius; "
    "departure = parallel radius times the shorter difference; mean = direction of the summed authalic unit vectors"
)
EXPLAIN = (
    "The functions of lox.py are interpreted in three representations and both angle units and their value numbers compared with the definitions; the branch of "
    "east-west courses is taken both by exact substitution and by end points a fraction of an arc second off the parallel; arcs, symmetries, additivity "
    "and the inverse of the direct problem are compared too."
)
H = F(1, 2)
TAU = E.scale(E.PI, 2)
NODES = None


def check(ck):
    jobs = {
        "lox.meridian_dist": dist, "lox.meridian_arc": arc, "lox.departure": departure, "lox.loxodrome_inverse": inverse,
        "lox.loxodrome_direct": direct, "lox.meanm": mean,
    }
    for key, f in jobs.items():
        where = ck.where(key)
        for mode in modes_of(key):
            if key == "lox.meanm" and mode != "arr":
                continue
            for deg in (True, False):
                n = f"{key}/{mode}/{'deg' if deg else 'rad'}"
                ck.guarded(n, lambda: f(ck, key, mode, deg, n, where), where)


# ---------------------------------------------------------------- definitions
def mu(lat, a, f):
    return refs(a, f)["geodetic2rectifying"](lat, None)


def radius(a, f):
    """radius of the rectifying sphere"""
    b = E.mul(a, E.sub(E.ONE, f))
    s = E.scale(E.add(E.power(a, F(3, 2)), E.power(b, F(3, 2))), H)
    return E.power(s, F(2, 3))


def meridian(la1, la2, a, f):
    return E.mul(radius(a, f), E.abs_(E.sub(mu(la2, a, f), mu(la1, a, f))))


def quadrature(la1, la2, a, f, n=12):
    """integral of the meridional radius by Gauss and Legendre's rule"""
    global NODES
    if NODES is None:
        import mpmath

        mpmath.mp.dps, old = 40, mpmath.mp.dps
        xs = sorted(mpmath.polyroots(mpmath.taylor(lambda x: mpmath.legendre(n, x), 0, n)[::-1], maxsteps=400, extraprec=400))
        NODES = []
        for x in xs:
            d = n / (x * x - 1) * (x * mpmath.legendre(n, x) - mpmath.legendre(n - 1, x))
            NODES.append((E.q(str(mpmath.nstr(x, 30))), E.q(str(mpmath.nstr(2 / ((1 - x * x) * d * d), 30)))))
        mpmath.mp.dps = old
    mid, half = E.scale(E.add(la1, la2), H), E.scale(E.sub(la2, la1), H)
    return E.abs_(E.mul(half, E.add(*[E.mul(w, S.meridional(E.add(mid, E.mul(half, x)), a, f)) for x, w in NODES])))


def shorter(lo1, lo2):
    return E.atan2(E.sin(E.sub(lo2, lo1)), E.cos(E.sub(lo2, lo1)))


def par(la, a, f):
    return E.mul(E.cos(la), S.transverse(la, a, f))


def along(lo1, lo2, la, a, f):
    return E.mul(par(la, a, f), E.abs_(shorter(lo1, lo2)))


def circle(x):
    return S.wrap_tau(x)


# ---------------------------------------------------------------- helpers
def full(mode, deg):
    """the comparisons with a tolerance are made for two of the six ways of calling (C01 and C11 relate the others)"""
    return (mode, deg) in (("py", True), ("arr", False))


def run(ck, key, mode, deg, vals=None, ell="E", **kw):
    s = ck.sess(mode)
    o = s.call(key, vals, ell=ell, deg=deg, **kw)
    if o.definite:
        raise ValueError(f"always raises {o.definite}")
    return [E.mul(x, R2D) if r in "aL" and deg is False else x for (_, r), x in nodes(o, SIGS[key])]


def unless_refuted(ck, n, where, note):
    if not any(i["item"].startswith(n) for i in ck.items):
        ck.record(n, "unknown", f"jumps near courses due east or west {note}", where, how="not separated for deviations of 1e-2 to 1e-11 degrees, no proof")


# ---------------------------------------------------------------- arcs and departures
def dist(ck, key, mode, deg, n, where):
    (g,) = run(ck, key, mode, deg)
    a, f, _ = S.axes()
    la = S.rad(E.sym("lat", latdeg=True))
    ck.eq(f"{n}/definition", g, meridian(E.ZERO, la, a, f), dom(ck, SIGS[key], "E"), where, f"not the meridian arc from the equator ({MODE_NAME[mode]})", ab=tol("l"))


def small(d):
    """small flattening: what the fourth-order series is meant for"""
    return Domain({k: ("g" if r == "f" else r) for k, r in d.roles.items()}, seed=d.seed, keep=d.keep)


def arc(ck, key, mode, deg, n, where):
    sig = SIGS[key]
    v = symbols(sig)
    a, f, _ = S.axes()
    la1, la2 = S.rad(v.lat1), S.rad(v.lat2)
    d = dom(ck, sig, "E")
    (g,) = run(ck, key, mode, deg)
    note = f"({MODE_NAME[mode]})"
    ck.eq(f"{n}/definition", g, meridian(la1, la2, a, f), d, where, f"not rectifying radius times difference of rectifying latitudes {note}", ab=tol("l"))
    if not full(mode, deg):
        return
    ck.eq(f"{n}/integral", g, quadrature(la1, la2, a, f), small(d), where, f"far from the integral of the meridional radius {note}", ab=1e-2, rel=1e-8, prove=False)
    (w,) = run(ck, key, mode, deg, {"lat1": v.lat2, "lat2": v.lat1})
    ck.eq(f"{n}/symmetric", w, g, d, where, f"not symmetric {note}", ab=tol("l"))
    (w,) = run(ck, key, mode, deg, {"lat1": E.neg(v.lat1), "lat2": E.neg(v.lat2)})
    ck.eq(f"{n}/mirrored", w, g, d, where, f"not the same in the other hemisphere {note}", ab=tol("l"))
    x = E.sym("lat3", latdeg=True)
    (p,) = run(ck, key, mode, deg, {"lat1": v.lat1, "lat2": x})
    (q,) = run(ck, key, mode, deg, {"lat1": x, "lat2": v.lat2})
    d3 = Domain({**d.roles, "lat3": "P"}, seed=ck.seed, keep=lambda w: w["lat1"] <= w["lat3"] <= w["lat2"])
    ck.eq(f"{n}/additive", E.add(p, q), g, d3, where, f"arcs of two parts do not add up to the whole {note}", ab=tol("l"), prove=False)
    (z,) = run(ck, key, mode, deg, {"lat1": v.lat1, "lat2": v.lat1})
    ck.eq(f"{n}/zero", z, E.ZERO, d, where, f"not zero between equal latitudes {note}", ab=tol("l"))


def departure(ck, key, mode, deg, n, where):
    sig = SIGS[key]
    v = symbols(sig)
    a, f, _ = S.axes()
    la, lo1, lo2 = S.rad(v.lat), S.rad(v.lon1), S.rad(v.lon2)
    d = dom(ck, sig, "E")
    (g,) = run(ck, key, mode, deg)
    note = f"({MODE_NAME[mode]})"
    t = circle(E.sub(lo2, lo1))
    ck.eq(f"{n}/definition", g, E.mul(par(la, a, f), E.minmax("min", t, E.sub(TAU, t))), d, where, f"not parallel radius times the shorter longitude difference {note}", ab=tol("l"))
    if not full(mode, deg):
        return
    (w,) = run(ck, key, mode, deg, {"lon1": v.lon2, "lon2": v.lon1, "lat": v.lat})
    ck.eq(f"{n}/symmetric", w, g, d, where, f"not symmetric in the meridians {note}", ab=tol("l"))
    (w,) = run(ck, key, mode, deg, {"lon1": E.neg(v.lon1), "lon2": E.neg(v.lon2), "lat": E.neg(v.lat)})
    ck.eq(f"{n}/mirrored", w, g, d, where, f"not the same mirrored {note}", ab=tol("l"))
    (w,) = run(ck, key, mode, deg, {"lon1": v.lon1, "lon2": E.add(v.lon2, E.q(360)), "lat": v.lat})
    ck.eq(f"{n}/turned", w, g, d, where, f"depends on whole turns of longitude {note}", ab=tol("l"))
    (z,) = run(ck, key, mode, deg, {"lon1": v.lon1, "lon2": E.add(v.lon1, E.q(180)), "lat": v.lat})
    ck.eq(f"{n}/opposite", z, E.mul(E.PI, par(la, a, f)), d, where, f"not half the parallel between opposite meridians {note}", ab=tol("l"))
    (z,) = run(ck, key, mode, deg, {"lon1": v.lon1, "lon2": v.lon1, "lat": v.lat})
    ck.eq(f"{n}/zero", z, E.ZERO, d, where, f"not zero on one meridian {note}", ab=tol("l"))


# ---------------------------------------------------------------- rhumb lines
def inverse(ck, key, mode, deg, n, where):
    sig = SIGS[key]
    v = symbols(sig)
    a, f, _ = S.axes()
    la1, la2, lo1, lo2 = (S.rad(v[k]) for k in ("lat1", "lat2", "lon1", "lon2"))
    note = f"({MODE_NAME[mode]})"
    d = dom(ck, sig, "E", keep=lambda w: max(abs(w["lat1"]), abs(w["lat2"])) < F(8999, 100))
    s, az = run(ck, key, mode, deg)

    def want(l1, l2, g1, g2):
        t = E.atan2(shorter(g1, g2), E.sub(psi(l2, f), psi(l1, f)))
        c = E.abs_(E.cos(t))
        m = E.div(meridian(l1, l2, a, f), c)
        return E.ite(E.cmp("<", E.sub(c, E.q("0.000000001")), E.ZERO), along(g1, g2, l1, a, f), m), E.mul(circle(t), R2D), m

    ws, wa, ws0 = want(la1, la2, lo1, lo2)
    apart = Domain(d.roles, seed=ck.seed, keep=lambda w: d.keep(w) and abs(w["lat1"] - w["lat2"]) > F(1, 1000) and abs((w["lon2"] - w["lon1"]) % 360 - 180) > F(1, 1000))
    ck.eq(f"{n}/azimuth", az, wa, apart, where, f"azimuth is not atan2(longitude difference, isometric difference) {note}", ab=tol("a"), gen=True)
    ck.eq(f"{n}/length", s, ws, apart, where, f"length is not the meridian arc over the cosine of azimuth {note}", ab=1e-4, gen=True, fast=True)
    if not full(mode, deg):
        return
    # exactly along a parallel, and exactly along a meridian
    x, y = run(ck, key, mode, deg, {**v, "lat2": v.lat1})
    dd = Domain({k: r for k, r in d.roles.items() if k != "lat2"}, seed=ck.seed, keep=lambda w: abs(w["lat1"]) < 89 and F(1, 100) < (w["lon2"] - w["lon1"]) % 360 and abs((w["lon2"] - w["lon1"]) % 360 - 180) > F(1, 1000))
    ck.eq(f"{n}/parallel/length", x, along(lo1, lo2, la1, a, f), dd, where, f"not the departure along a parallel {note}", ab=1e-5)
    dl = E.sub(lo2, lo1)
    ck.eq(f"{n}/parallel/azimuth", y, E.ite(E.cmp("<", E.neg(E.sin(dl)), E.ZERO), E.q(90), E.q(270)), dd, where, f"not due east or west along a parallel {note}", ab=tol("a"))
    x, y = run(ck, key, mode, deg, {**v, "lon2": v.lon1})
    dd = Domain({k: r for k, r in d.roles.items() if k != "lon2"}, seed=ck.seed, keep=lambda w: abs(w["lat1"]) < 89 and abs(w["lat2"]) < 89 and abs(w["lat1"] - w["lat2"]) > F(1, 1000))
    ck.eq(f"{n}/meridian/length", x, meridian(la1, la2, a, f), dd, where, f"not the meridian arc along a meridian {note}", ab=1e-4)
    ck.eq(f"{n}/meridian/azimuth", y, E.ite(E.cmp("<", E.sub(la1, la2), E.ZERO), E.ZERO, E.q(180)), dd, where, f"not due north or south along a meridian {note}", ab=tol("a"))
    for k in ("lat2", "lat1"):  # to and from the poles
        for sg in (90, -90):
            x, y = run(ck, key, mode, deg, {**v, k: E.q(sg)})
            p = S.rad(E.q(sg))
            l1, l2 = (p, la2) if k == "lat1" else (la1, p)
            dd = Domain({q: r for q, r in d.roles.items() if q != k}, seed=ck.seed, keep=lambda w: all(abs(w[q]) < 89 for q in ("lat1", "lat2") if q in w))
            ck.eq(f"{n}/pole/{k}={sg}/length", x, meridian(l1, l2, a, f), dd, where, f"not the meridian arc to the pole {note}", ab=1e-4)
            ck.eq(f"{n}/pole/{k}={sg}/azimuth", E.cos(S.rad(y)), E.ONE if (sg > 0) == (k == "lat2") else E.q(-1), dd, where, f"not due north or south to the pole {note}", ab=tol("a"))
    # a hair off the parallel: the course changes over to the departure without a jump
    for k in range(2, 11):
        e = F(1, 10**k)
        x, _ = run(ck, key, mode, deg, {**v, "lat2": E.add(v.lat1, E.q(e))})
        dd = Domain({q: r for q, r in d.roles.items() if q != "lat2"}, seed=ck.seed + k, keep=lambda w: abs(w["lat1"]) < 70 and abs((w["lon2"] - w["lon1"]) % 360 - 180) > 1)
        ref = want(la1, S.rad(E.add(v.lat1, E.q(e))), lo1, lo2)[2]
        ck.eq(f"{n}/near the parallel/1e-{k}", x, ref, small(dd), where, f"jumps near courses due east or west {note}", ab=0.05, prove=False, n=16, fast=True, record=False)
    unless_refuted(ck, f"{n}/near the parallel", where, note)
    # other way round
    x, y = run(ck, key, mode, deg, {"lat1": v.lat2, "lon1": v.lon2, "lat2": v.lat1, "lon2": v.lon1})
    ck.eq(f"{n}/reversed/length", x, s, apart, where, f"length differs the other way round {note}", ab=1e-3, prove=False, n=20, fast=True)
    ck.eq(f"{n}/reversed/azimuth", E.cos(S.rad(E.sub(y, az))), E.q(-1), apart, where, f"azimuth of the way back is not opposite {note}", ab=tol("a"), prove=False, n=20, fast=True)
    x, y = run(ck, key, mode, deg, {**v, "lon2": E.add(v.lon2, E.q(360))})
    ck.eq(f"{n}/turned/length", x, s, apart, where, f"length depends on whole turns of longitude {note}", ab=1e-4)
    ck.eq(f"{n}/turned/azimuth", y, az, apart, where, f"azimuth depends on whole turns of longitude {note}", ab=tol("a"))


def direct(ck, key, mode, deg, n, where):
    sig = SIGS[key]
    v = symbols(sig)
    a, f, _ = S.axes()
    la1, lo1, az = S.rad(v.lat1), S.rad(v.lon1), S.rad(v.a12)
    note = f"({MODE_NAME[mode]})"
    # ranges that end before the pole
    inside = lambda w: abs(w["lat1"]) < 70 and w["rng"] * 100 < 12 * w["E.a"]  # noqa: E731
    d = dom(ck, sig, "E", keep=inside)
    la2, lo2 = run(ck, key, mode, deg)
    R = refs(a, f)
    wl = R["rectifying2geodetic"](E.add(mu(la1, a, f), E.mul(E.div(v.rng, radius(a, f)), E.cos(az))), None)
    ck.eq(f"{n}/latitude", la2, E.mul(wl, R2D), d, where, f"latitude of the end is not the rectifying latitude moved by range times cosine {note}", ab=tol("a"))
    start = R["rectifying2geodetic"](mu(la1, a, f), None)  # lat1 but for the truncation of the series
    wo = E.add(v.lon1, E.mul(E.tan(az), E.sub(psi(wl, f), psi(start, f)), R2D))
    off = Domain(small(d).roles, seed=ck.seed, keep=lambda w: inside(w) and abs(w["a12"] % 180 - 90) > F(1, 10))
    ck.eq(f"{n}/longitude", lo2, wo, off, where, f"longitude of the end is not moved by tan(azimuth) times the isometric difference {note}", ab=1e-8, gen=True)
    if not full(mode, deg):
        return
    for z in (90, 270, -90, 450):
        x, y = run(ck, key, mode, deg, {**v, "a12": E.q(z)})
        dd = Domain({q: r for q, r in d.roles.items() if q != "a12"}, seed=ck.seed, keep=inside)
        sg = 1 if z % 360 == 90 else -1
        ck.eq(f"{n}/a12={z}/latitude", x, v.lat1, small(dd), where, f"latitude changes along a parallel {note}", ab=2e-7, prove=False, n=20)
        ck.eq(f"{n}/a12={z}/longitude", y, E.add(v.lon1, E.mul(E.scale(E.div(v.rng, par(la1, a, f)), sg), R2D)), dd, where, f"longitude along a parallel is not range over parallel radius {note}", ab=1e-8)
    for k in range(4, 12):  # a hair off the parallel
        e = F(1, 10**k)
        for c in (90, 270):
            x, y = run(ck, key, mode, deg, {**v, "a12": E.q(c + e)})
            dd = Domain({q: r for q, r in d.roles.items() if q not in ("a12",)}, seed=ck.seed + k, keep=inside)
            sg = 1 if c == 90 else -1
            # same end as due east or west, to first order in the deviation
            ck.eq(f"{n}/near the parallel/{c}+1e-{k}", y, E.add(v.lon1, E.mul(E.scale(E.div(v.rng, par(la1, a, f)), sg), R2D)), small(dd), where, f"jumps near courses due east or west {note}", ab=float(e) + 3e-5, prove=False, n=12, fast=True, record=False)
    unless_refuted(ck, f"{n}/near the parallel", where, note)
    for z, sg in ((0, 1), (180, -1), (360, 1)):
        x, y = run(ck, key, mode, deg, {**v, "a12": E.q(z)})
        dd = Domain({q: r for q, r in d.roles.items() if q != "a12"}, seed=ck.seed, keep=inside)
        ck.eq(f"{n}/a12={z}/longitude", y, v.lon1, dd, where, f"longitude changes along a meridian {note}", ab=tol("a"))
        ck.eq(f"{n}/a12={z}/arc", E.mul(radius(a, f), E.abs_(E.sub(mu(S.rad(x), a, f), mu(la1, a, f)))), v.rng, small(dd), where, f"arc to the end point is not the range {note}", ab=2e-2, prove=False, n=20)
    x, y = run(ck, key, mode, deg, {**v, "rng": E.ZERO})
    dd = Domain({q: r for q, r in d.roles.items() if q != "rng"}, seed=ck.seed, keep=lambda w: abs(w["lat1"]) < 70 and abs(w["a12"] % 180 - 90) > 1)
    ck.eq(f"{n}/no range/latitude", x, v.lat1, small(dd), where, f"moves although the range is zero {note}", ab=2e-7, prove=False, n=20)
    ck.eq(f"{n}/no range/longitude", y, v.lon1, small(dd), where, f"moves although the range is zero {note}", ab=2e-5, prove=False, n=20)
    # the inverse problem gives range and azimuth back
    s = ck.sess(mode)
    k2 = "lox.loxodrome_inverse"
    o = s.call(k2, {"lat1": v.lat1, "lon1": v.lon1, "lat2": la2, "lon2": lo2}, deg=True, npy={"lat2", "lon2"} if mode == "np0" else set())
    if o.definite:
        return ck.fact(f"{n}/back", False, f"{k2} raises {o.definite}", where)
    far = Domain(small(d).roles, seed=ck.seed, keep=lambda w: abs(w["lat1"]) < 60 and w["rng"] * 100 < 8 * w["E.a"] and w["rng"] > 1000 and abs(w["a12"] % 180 - 90) > 1)
    ck.eq(f"{n}/back/length", o.leaves[0], v.rng, far, where, f"loxodrome_inverse does not give the range back {note}", ab=0.02, rel=1e-7, prove=False, n=20, fast=True)
    ck.eq(f"{n}/back/azimuth", E.sin(S.rad(E.scale(E.sub(o.leaves[1], v.a12), H))), E.ZERO, far, where, f"loxodrome_inverse does not give the azimuth back {note}", ab=1e-6, prove=False, n=20, fast=True)


# ---------------------------------------------------------------- mean
def mean(ck, key, mode, deg, n, where):
    sig = SIGS[key]
    v = symbols(sig)
    a, f, _ = S.axes()
    s = ck.sess(mode)
    o = s.call(key, deg=deg)
    if o.definite:
        return ck.fact(n, False, f"always raises {o.definite}", where)
    la, lo = (E.mul(x, R2D) if deg is False else x for x in o.leaves)
    R = refs(a, f)
    b = R["geodetic2authalic"](S.rad(v.lat), None)
    lon = S.rad(v.lon)
    tot = [E.fn("total", t) for t in (E.mul(E.cos(b), E.cos(lon)), E.mul(E.cos(b), E.sin(lon)), E.sin(b))]
    d = dom(ck, sig, "E")
    note = f"({MODE_NAME[mode]})"
    from pms.common import pair

    g = [pair(t, ["lat", "lon"]) for t in (la, lo)]
    x, y, z = [pair(t, ["lat", "lon"]) for t in tot]
    d = Domain({**d.roles, "lat'": "P", "lon'": "L"}, seed=ck.seed, keep=lambda w: abs(w["lat"]) + abs(w["lat'"]) < 170)
    want = R["authalic2geodetic"](E.atan2(z, E.hypot(x, y)), None)
    ck.eq(f"{n}/latitude", g[0], E.mul(want, R2D), d, where, f"not the latitude of the mean direction on the authalic sphere {note}", ab=tol("a"))
    ck.eq(f"{n}/longitude", g[1], E.mul(E.atan2(y, x), R2D), d, where, f"not the longitude of the mean direction {note}", ab=tol("a"))
