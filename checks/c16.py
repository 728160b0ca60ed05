"""C16: documented ranges, and formulas inside their domains."""

from fractions import Fraction as F

import mpmath
from mpmath import mp, mpf

from pms import expr as E
from pms.api import SCALAR_ONLY, SIGS
from pms.common import Domain, flat_roles, nodes, roles_of
from pms import spec as S
from pms.equal import FUEL, Eval, Iv
from pms.ranges import R, below_one, positive, within
from pms.values import Arr, Opq, Sc

RULE = (
    "every result's value number lies in its documented interval over the whole input domain (interval analysis with branch conditions), and every argument of a square root, "
    "logarithm or inverse function lies in that function's domain; an inverse sine or cosine of an unclamped sum whose exact values reach the end of the domain is refused"
)
EXPLAIN = (
    "Ranges are inferred from value numbers over boxes covering the documented inputs (any longitude, azimuth and position, flattening up to 1/10); a result or argument that "
    "certainly leaves its interval at a point of the domain is a violation."
)
WIDE = {
    "P": (-90, 90), "Q": (-400, 400), "L": (-1000, 1000), "Z": (-1000, 1000), "V": (-90, 90), "T": (0, 180), "A": (-20, 20), "h": (-20000, 10**9),
    "m": (-(10**9), 10**9), "r": (0, 10**9), "R": (10**5, 10**10), "v": (-(10**6), 10**6), "k": (0, 1), "s": (-10, 10), "f": (0, F(1, 10)),
    "a": (10**5, 10**8), "c": (-(10**9), 10**9), "n": (-1, 1), "1": (-1, 1),
}
# 360 is not attained by the azimuths, right ascensions and longitudes that are reduced by a modulo
TURN = (0, 360, True)
HALF = (-90, 90, False)
ROUND = (-180, 180, False)
NONNEG = (0, None, False)
LON_ROUND = {
    "aer.aer2geodetic", "ecef.ecef2geodetic", "ecef.eci2geodetic", "enu.enu2geodetic", "ned.ned2geodetic", "nwu.nwu2geodetic", "sez.sez2geodetic",
    "body.body2geodetic", "dca.dca2geodetic", "los.lookAtSpheroid", "nvector.nvector2geodetic",
}
LON_TURN = {"vincenty.vreckon"}
# results that carry the sign or the length of what is given
NOT = {
    "dca2geodetic h", "lat latitude",
}


def documented(sig, name, role):
    key = sig.key
    if role in "aA" and name == "az":
        return ROUND if key.startswith("utils.") else TURN
    if key.startswith("karney."):
        return {"az1": ROUND, "az2": ROUND, "lat2": HALF, "lon2": ROUND, "dist": NONNEG}.get(name)
    if name in ("el", "dec"):
        return HALF
    if name == "ra":
        return TURN
    if name == "sep":
        return (0, 180, False)
    if name == "tsr":
        return TURN
    if name == "theta":
        return ROUND
    if name == "lat" and role == "a" and key not in ("lox.meanm", "lox.loxodrome_direct"):  # a rhumb line ends at the pole: see C25
        return HALF
    if name == "lon" and role == "a":
        return ROUND if key in LON_ROUND else TURN if key in LON_TURN else None
    if role == "l" and name in ("srange", "rho", "dist"):
        return NONNEG
    if key == "spherical.geodetic2spherical" and name == "r":
        return NONNEG
    if key == "utils.cart2sph" and name == "r":
        return NONNEG
    if key in ("rcurve.geocentric_radius", "rcurve.parallel", "rcurve.meridian", "rcurve.transverse", "rsphere.eqavol", "rsphere.authalic", "rsphere.rectifying", "rsphere.euler"):
        return NONNEG
    if key in ("vincenty.vdist", "lox.loxodrome_inverse", "lox.meridian_dist", "lox.meridian_arc", "lox.departure", "nvector.nvector_distance", "los.lookAtSpheroid") and name == "d":
        return NONNEG
    return None


PUBLIC = {k.split(".")[-1] for k in SIGS}
SKIP = {
    "lox.meanm", "vincenty.track2", "rsphere.curve", "rsphere.triaxial", "rsphere.biaxial"}


def check(ck):
    for key, sig in SIGS.items():
        if key in SKIP:
            continue
        modes = [("py", True), ("py", False)][: 1 if key.startswith("karney") else 2] if ck.tier == "quick" and key in SCALAR_ONLY else [("py", True), ("arr", False if sig.has("deg") else True)] if ck.tier == "quick" else [(m, d) for m in ("py", "np0", "arr") for d in (True, False)]
        for mode, deg in modes:
            if mode == "arr" and key in SCALAR_ONLY or not sig.has("deg") and not deg:
                continue
            ck.guarded(f"{key}/{mode}/{'deg' if deg else 'rad'}", lambda: one(ck, key, sig, mode, deg), ck.where(key))


def box_of(roles):
    out = {}
    for n, r in roles.items():
        lo, hi = WIDE[r]
        info = {}
        out[n] = R(mpf(F(lo).numerator) / F(lo).denominator, mpf(F(hi).numerator) / F(hi).denominator)
        del info
    return out


def symbols_of(*ns):
    return {m.a[0]: m for m in E.walk(*ns) if m.op == "sym"}


def one(ck, key, sig, mode, deg):
    from checks.c14 import JD, MATS

    s = ck.sess(mode, overrides={**MATS, **JD})
    t = Opq(E.ofn("epochtime", E.sym("U")), "time")
    vals = {p.name: (t if p.role == "t" else None) for p in sig.pars if p.role in ("t", "s")}
    if key in ("spherical.spherical2geodetic", "latitude.geoc2geod"):
        vals["radius" if key.startswith("s") else "geocentric_distance"] = E.mul(E.sym("E.a", pos=True), E.add(E.q(F(1, 2)), E.sym("rr", pos=True)))  # outside the core, where latitude is undefined
    o = s.call(key, vals, ell="E" if sig.has("ell") else None, deg=deg if sig.has("deg") else None)
    where = ck.where(key)
    n0 = f"{key}/{mode}/{'deg' if deg else 'rad'}"
    if o.definite:
        ck.fact(n0, None, f"raises {o.definite}", where)
        return
    roles = {**roles_of(sig, *(["E"] if sig.has("ell") else [])), "U": "U", "rr": "k"}
    dom = Domain({k: r for k, r in roles.items()}, seed=ck.seed)
    wide = box_of({k: r for k, r in roles.items() if k != "U"})
    for (name, role), x in nodes(o, sig):
        d = documented(sig, name, role)
        if d is None:
            continue
        lo, hi, strict = d
        scale = 1 if (deg and role == "a") or role == "l" else mp.pi / 180
        if role == "a" and not sig.has("deg"):
            scale = 1
        lo = mpf(lo) * scale if lo is not None else mpf("-inf")
        hi = mpf(hi) * scale if hi is not None else mpf("inf")
        ranged(ck, f"{n0}/{name}", x, lo, hi, strict, wide, dom, where)
    seen = set()
    for ev in o.events:
        if ev.kind == "domain":
            inner = ev.where.split(" in ")[-1]
            if inner in PUBLIC and inner != key.split(".")[-1]:
                continue  # an obligation of that function, for all of its own inputs
            arg, assume = ev.node
            k = (ev.detail, arg)
            if k in seen:
                continue
            seen.add(k)
            domain(ck, f"{n0}/{ev.detail} in {ev.where.split(' in ')[-1]} #{len(seen)}", ev.detail, arg, assume, wide, dom, ev.where)


def sum_in(n):
    """the sum of several terms that is the argument, perhaps within clamps"""
    while n.op == "fn" and n.a[0] in ("min", "max") or n.op == "lin" and len(n.a[1]) == 1 and not n.a[0]:
        if n.op == "lin":
            n = n.a[1][0][0]
            continue
        ks = [k for k in n.a[1:] if k.op != "q"]
        if len(ks) != 1:
            return None
        n = ks[0]
    return n if n.op == "lin" and sum(m.op != "q" for m, _ in n.a[1]) >= 2 else None


def points(dom, count):
    yield from dom.boxes(count)
    gs = dom.groups("n")
    if len(gs) > 1:  # equal and opposite unit vectors
        for k, v in enumerate(dom.points(6)):
            for i, x in enumerate(gs[0]):
                v[gs[1][i]] = v[x] * (-1) ** k
            yield dom.box(v)


def at_points(ck, dom, n, assume, test, count, also=None):
    """a point of the domain where test(value) holds"""
    for box in points(dom, count):
        ev = Eval(box)
        try:
            if any(ev(c) is not t for c, t in assume):
                continue
            v = ev(n)
        except (ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.libhyper.NoConvergence):
            continue
        if isinstance(v, Iv) and not mpmath.isnan(v.lo) and test(v) and (also is None or also(ev, v)):
            return {"inputs": {str(k.a[0]): str(w.mid)[:24] for k, w in box.items()}, "value": str(v)}
    return None


def ranged(ck, name, x, lo, hi, strict, wide, dom, where):
    if not ck.wants(name):
        return
    FUEL.start(10**9, 2 if ck.tier == "quick" else 5)
    tol = mpf(10) ** -9
    scale = max(abs(lo) if mpmath.isfinite(lo) else 0, abs(hi) if mpmath.isfinite(hi) else 0, 1)
    bad = at_points(ck, dom, x, (), lambda v: v.hi < lo - tol * scale or v.lo > hi + tol * scale, 12)
    if not bad:
        syms = symbols_of(x)
        box = {syms[k]: v for k, v in wide.items() if k in syms}
        w = mpf(10) ** -20 * scale
        if lo == 0 and mpmath.isinf(hi) and positive(x):
            FUEL.start(1 << 60, 1e9)
            ck.record(name, "proved", "", where, how="sign of the value number")
            return
        if within(x, lo - (0 if mpmath.isinf(lo) else w if lo else mpf(10) ** -12), hi if strict else hi + w, box, [m for m in box if str(m.a[0]) not in ("E.a",)], 200 if ck.tier == "quick" else 600, strict):
            ck.record(name, "proved", "", where, how="interval analysis over the whole input domain")
            return
        bad = at_points(ck, dom, x, (), lambda v: v.hi < lo - tol * scale or v.lo > hi + tol * scale, ck.nbox * 3)
    FUEL.start(1 << 60, 1e9)
    iv = f"[{mpmath.nstr(lo, 8)}, {mpmath.nstr(hi, 8)}{')' if strict else ']'}"
    if bad:
        ck.record(name, "refuted", f"leaves its documented interval {iv}", where, bad, "interval evaluation at a point")
    else:
        ck.record(name, "unknown", f"not shown to stay in {iv}", where)


def _half(*terms):
    return E.mul(S.rad(E.add(*terms)), E.q(F(1, 2)))


def _haversine():
    """1 - hav = cos(dlat/2)^2 cos(dlon/2)^2 + sin((lat0+lat1)/2)^2 sin(dlon/2)^2"""
    p, q = E.sym("lat0", latdeg=True), E.sym("lat1", latdeg=True)
    dl, dp, sp = _half(E.sym("lon0"), E.neg(E.sym("lon1"))), _half(p, E.neg(q)), _half(p, q)
    sq = lambda f, x: E.power(f(x), F(2))  # noqa: E731
    return E.add(E.mul(sq(E.cos, dp), sq(E.cos, dl)), E.mul(sq(E.sin, sp), sq(E.sin, dl)))


CERT = [_haversine()]
LIMITS = {"asin": (-1, 1), "acos": (-1, 1), "sqrt": (0, None), "log": (0, None), "atanh": (-1, 1)}


def domain(ck, name, fn, n, assume, wide, dom, where):
    if not ck.wants(name):
        return
    FUEL.start(10**9, 2 if ck.tier == "quick" else 5)
    lo, hi = LIMITS[fn]
    lo, hi = mpf(lo), mpf("inf") if hi is None else mpf(hi)
    syms = symbols_of(n)
    free = [m for m in syms.values() if str(m.a[0]) not in wide and str(m.a[0]) != "U"]
    tol = mpf(10) ** -9
    out = lambda v: v.hi < lo - tol or v.lo > hi + tol  # noqa: E731
    bad = None if free else at_points(ck, dom, n, assume, out, 12)
    if not bad:
        box = {syms[k]: v for k, v in wide.items() if k in syms}
        open_ = fn in ("log", "atanh")
        ok = positive(n) if fn == "sqrt" else below_one(n, CERT) if fn in ("asin", "acos") else False
        ok = ok or within(n, lo + (mpf(10) ** -12 if open_ else 0), hi - (mpf(10) ** -12 if open_ and hi < 2 else 0), box, [m for m in box if str(m.a[0]) != "E.a"], 200 if ck.tier == "quick" else 600, assume=assume)
        if ok:
            FUEL.start(1 << 60, 1e9)
            ck.record(name, "proved", "", where, how="interval analysis of the argument over the whole input domain")
            return
        if not free:
            bad = at_points(ck, dom, n, assume, out, ck.nbox * 3)
    edge = None
    if not bad and fn in ("asin", "acos") and not free:
        m = sum_in(n)
        if m is not None:
            w = mpf(10) ** -16
            # the sum one rounding error further out, where its exact value is at the end of the domain
            off = E.sub(E.rewrite(n, lambda k, _: E.mul(m, E.q(F(1) + F(1, 10**9))) if k is m else None), n)
            edge = at_points(ck, dom, n, assume, lambda v: abs(abs(v.mid) - 1) < w and v.rad < w, ck.nbox * 10, lambda ev, v: abs(v.mid + ev(off).mid) > 1 + mpf(10) ** -12)
    FUEL.start(1 << 60, 1e9)
    if bad:
        ck.record(name, "refuted", f"the argument of {fn} leaves its domain", where, bad, "interval evaluation at a point")
    elif edge:
        ck.record(name, "refuted", f"the argument of {fn} is a sum that reaches the end of its domain and is not clamped: rounding takes it outside", where, edge, "interval evaluation at a point")
    else:
        ck.record(name, "unknown", f"argument of {fn} not shown to stay in its domain", where)
