"""C20: n-vector functions and their geometric definitions."""

from fractions import Fraction as F

from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.common import MODE_NAME, dom, modes_of, symbols, tol
from pms.domain import Domain
from pms.equal import FUEL, generic, prove_eq
from pms.values import Sc

RULE = (
    "each n-vector function's value number equals its vector definition (unit normal, great-circle distance, spherical linear interpolation, normalised sum, "
    "signed angle from the plane, line common to two planes), for free unit vectors; end points, symmetries and unit length are proved on unit vectors written by two angles"
)
EXPLAIN = (
    "The nine functions are interpreted on symbolic vectors; refutation evaluates at exact rational unit vectors, axes, equal and opposite vectors."
)
N = "nvector."
WGS = (F(6378137), F("6356752.31424518"))


def vec(c):
    return [E.sym(f"{c}_{i}") for i in (1, 2, 3)]


def dot(a, b):
    return E.add(*[E.mul(x, y) for x, y in zip(a, b)])


def cross(a, b):
    return [E.sub(E.mul(a[(i + 1) % 3], b[(i + 2) % 3]), E.mul(a[(i + 2) % 3], b[(i + 1) % 3])) for i in range(3)]


def norm(a):
    return E.sqrt(dot(a, a))


def unit(a):
    r = norm(a)
    return [E.div(x, r) for x in a]


def angles(c):
    """a unit vector by latitude and longitude symbols"""
    p, q = E.sym(c + ".p", latdeg=True), E.sym(c + ".l")
    p, q = S.rad(p), S.rad(q)
    return [E.mul(E.cos(p), E.cos(q)), E.mul(E.cos(p), E.sin(q)), E.sin(p)]


def uvals(**v):
    return {f"{k}_{i + 1}": x for k, ns in v.items() for i, x in enumerate(ns)}


UDOM = {"u.p": "P", "u.l": "L", "w.p": "P", "w.l": "L", "x.p": "P", "x.l": "L"}


def check(ck):
    for mode in ("py", "np0", "arr"):
        for nm, f in GROUPS.items():
            if mode in modes_of(N + nm):
                for deg in (True, False) if SIGS[N + nm].has("deg") else (None,):
                    n = f"{nm}/{mode}" + ("" if deg is None else "/deg" if deg else "/rad")
                    ck.guarded(n, lambda: f(ck, ck.sess(mode), n, nm, deg, ck.where(N + nm), f"({MODE_NAME[mode]})"), ck.where(N + nm))
    for mode in ("py", "np0"):
        n = f"nvector_mean/{mode}"
        ck.guarded(n, lambda: mean(ck, ck.sess(mode), n, ck.where(N + "nvector_mean")), ck.where(N + "nvector_mean"))


def call(ck, s, nm, n, vals=None, deg=None, **kw):
    sig = SIGS[N + nm]
    o = s.call(N + nm, vals, deg=deg, **({"ell": "E" if sig.has("ell") else None} | kw))
    if o.definite:
        raise ValueError(f"always raises {o.definite}")
    k = len(sig.outs)
    if len(o.leaves) != k:
        ck.fact(f"{n}/count", False, f"{len(o.leaves)} results instead of {k}", ck.where(N + nm))
        raise ValueError("number of results")
    return o.leaves


def triple(ck, n, got, want, d, where, detail, ab=tol("1"), **kw):
    for i, (g, w) in enumerate(zip(got, want)):
        ck.eq(f"{n}/{i + 1}", g, w, d, where, detail, ab=ab, **kw)


# ---------------------------------------------------------------- conversions
def g2n(ck, s, n, nm, deg, where, note):
    v = symbols(SIGS[N + nm])
    la, lo = S.rad(v.lat), S.rad(v.lon)
    want = [E.mul(E.cos(la), E.cos(lo)), E.mul(E.cos(la), E.sin(lo)), E.sin(la)]
    triple(ck, n, call(ck, s, nm, n, deg=deg), want, dom(ck, SIGS[N + nm]), where, f"is not the unit normal of the latitude and longitude {note}")


def n2g(ck, s, n, nm, deg, where, note):
    got = call(ck, s, nm, n, deg=deg)
    v = [E.sym(k) for k in ("n1", "n2", "n3")]
    k = E.div(E.q(180), E.PI) if deg else E.ONE
    d = dom(ck, SIGS[N + nm])
    ck.eq(f"{n}/lat", got[0], E.mul(E.atan2(v[2], E.hypot(v[0], v[1])), k), d, where, f"is not the latitude of the normal {note}", ab=tol("a"), prove=False, fast=True, lemma=lambda: latitude(ck, s, nm, deg))
    # the longitude of a pole is free
    off = Domain(d.roles, seed=ck.seed, keep=lambda w: w["n1"] != 0 or w["n2"] != 0)
    ck.eq(f"{n}/lon", got[1], E.mul(E.atan2(v[1], v[0]), k), off, where, f"is not the longitude of the normal {note}", ab=tol("a"))


def latitude(ck, s, nm, deg):
    got = s.call(N + nm, {}, deg=deg).leaves[0]
    k = E.div(E.q(180), E.PI) if deg else E.ONE
    return "the inverse sine of the third component of a unit vector" if prove_eq(got, E.mul(E.fn("asin", E.sym("n3")), k), 0) else None


def n2e(ck, s, n, nm, deg, where, note):
    a = angles("u")
    vals = {f"n{i + 1}": x for i, x in enumerate(a)}
    A, f, b = S.axes()
    h = E.sym("alt")
    d = Domain({**UDOM, "alt": "h", "E.a": "a", "E.f": "f"}, seed=ck.seed)
    want = S.geodetic2ecef(S.rad(E.sym("u.p", latdeg=True)), S.rad(E.sym("u.l")), h, A, f)
    triple(ck, n, call(ck, s, nm, n, vals, deg=deg), want, d, where, f"is not the point at that height on the normal {note}", ab=tol("l"), gen=True)
    # the default height is zero
    want = S.geodetic2ecef(S.rad(E.sym("u.p", latdeg=True)), S.rad(E.sym("u.l")), E.ZERO, A, f)
    triple(ck, n + "/default height", call(ck, s, nm, n, {**vals, "alt": None}, deg=deg), want, d, where, f"is not the point of the ellipsoid with that normal {note}", ab=tol("l"), gen=True)


def e2n(ck, s, n, nm, deg, where, note):
    """the normal at a point given by latitude, longitude and height above a sphere"""
    p, q, r = E.sym("u.p", latdeg=True), E.sym("u.l"), E.sym("r", pos=True)
    a = angles("u")
    A = E.sym("E.a", pos=True)
    r = E.mul(A, E.add(E.q(F(1, 2)), r))
    got = call(ck, s, nm, n, dict(zip("xyz", [E.mul(r, x) for x in a])), deg=deg, ell=(A, E.ZERO))
    d = Domain({"u.p": "P", "u.l": "L", "r": "k", "E.a": "a"}, seed=ck.seed)
    triple(ck, n + "/sphere", got, a, d, where, f"is not the normal at the point of a sphere {note}", prove=False, fast=True, lemma=lambda: through(s, nm, deg))
    # at a point of an ellipsoid
    f = E.sym("E.f", pos=True, lt=1)
    x = S.geodetic2ecef(S.rad(p), S.rad(q), E.sym("h"), A, f)
    got = call(ck, s, nm, n, dict(zip("xyz", x)), deg=deg)
    d = Domain({"u.p": "P", "u.l": "L", "h": "h", "E.a": "a", "E.f": "f"}, seed=ck.seed, keep=lambda w: w["E.a"] > 6 * 10**6 and w["E.f"] < F(1, 150))
    # ecef2geodetic is accurate to some 1e-6 that far from the ellipsoid
    triple(ck, n + "/ellipsoid", got, a, d, where, f"is not the normal at the point of the ellipsoid {note}", ab=F(1, 10**5), prove=False, fast=True, lemma=lambda: through(s, nm, deg))


def through(s, nm, deg):
    """the normal of the latitude and longitude that ecef2geodetic gives (C01 decides that one)"""
    got = s.call(N + nm, {}, ell="E", deg=deg).leaves
    g = s.call("ecef.ecef2geodetic", {}, ell="E", deg=False).leaves
    want = [E.mul(E.cos(g[0]), E.cos(g[1])), E.mul(E.cos(g[0]), E.sin(g[1])), E.sin(g[0])]
    return "the normal of the latitude and longitude of ecef2geodetic (property C01)" if all(x is w or prove_eq(x, w, 3) for x, w in zip(got, want)) else None


# ---------------------------------------------------------------- great circles
def two(ck, keep=None, **more):
    return Domain({**{f"n{k}_{i}": "n" for k in (1, 2) for i in (1, 2, 3)}, **more}, seed=ck.seed, keep=keep)


def apart(w, names=("n1", "n2"), lim=F(9999, 10000)):
    a, b = [[w[f"{k}_{i}"] for i in (1, 2, 3)] for k in names]
    return abs(sum(x * y for x, y in zip(a, b))) < lim


def distance(ck, s, n, nm, deg, where, note):
    a, b, R = vec("n1"), vec("n2"), E.sym("radius", pos=True)
    want = lambda a, b, R: E.mul(R, E.atan2(norm(cross(a, b)), dot(a, b)))  # noqa: E731
    d = two(ck, radius="R")
    got = call(ck, s, nm, n)[0]
    ck.eq(f"{n}/definition", got, want(a, b, R), d, where, f"is not the radius times the angle between the vectors {note}", ab=tol("l"))
    back = call(ck, s, nm, n, uvals(n1=b, n2=a))[0]
    ck.eq(f"{n}/symmetric", back, got, d, where, f"depends on the order of the vectors {note}", ab=tol("l"))
    ck.eq(f"{n}/same point", call(ck, s, nm, n, uvals(n1=angles("u"), n2=angles("u")))[0], E.ZERO, Domain({**UDOM, "radius": "R"}, seed=ck.seed), where, f"is not zero for one point {note}", ab=tol("l"))
    w = angles("u")
    ck.eq(f"{n}/opposite point", call(ck, s, nm, n, uvals(n1=w, n2=[E.neg(x) for x in w]))[0], E.mul(E.PI, R), Domain({**UDOM, "radius": "R"}, seed=ck.seed), where, f"is not half a turn for opposite points {note}", ab=tol("l"))
    r0 = E.power(E.q(WGS[0] ** 2 * WGS[1]), F(1, 3))
    ck.eq(f"{n}/default radius", call(ck, s, nm, n, {"radius": None})[0], want(a, b, r0), d, where, f"the default radius is not that of the WGS84 sphere of equal volume {note}", rel=F(1, 10**6), ab=tol("l"), prove=False, fast=True, lemma=lambda: default(s, nm))


def default(s, nm):
    r = s.run("rsphere.eqavol", []).leaves[0]
    got = s.call(N + nm, {"radius": None}).leaves[0]
    want = s.call(N + nm, {"radius": r}).leaves[0]
    return "the radius of rsphere.eqavol for WGS84 (property C12)" if got is want or prove_eq(got, want, 0) else None


def interpolate(ck, s, n, nm, deg, where, note):
    a, b, t = vec("n1"), vec("n2"), E.sym("fraction")
    got = call(ck, s, nm, n)
    om = E.atan2(norm(cross(a, b)), dot(a, b))
    p, q = E.div(E.sin(E.mul(E.sub(E.ONE, t), om)), E.sin(om)), E.div(E.sin(E.mul(t, om)), E.sin(om))
    want = [E.add(E.mul(p, x), E.mul(q, y)) for x, y in zip(a, b)]
    d = two(ck, apart, fraction="k")
    arc = arc_lemma(s, nm)
    triple(ck, f"{n}/definition", got, want, d, where, f"is not the point at that fraction of the great circle {note}", prove=False, fast=True, lemma=lambda: arc)
    u, w = angles("u"), angles("w")
    ud = Domain(UDOM, seed=ck.seed, keep=lambda v: v["u.p"] != v["w.p"] and abs(v["u.p"]) < 89 and abs(v["w.p"]) < 89 and abs(v["u.p"] + v["w.p"]) > 1)
    for t, end in ((E.ZERO, u), (E.ONE, w)):
        got = call(ck, s, nm, n, {**uvals(n1=u, n2=w), "fraction": t})
        triple(ck, f"{n}/fraction {int(E.val(t))}", got, end, ud, where, f"is not the end point {note}", prove=False, fast=True, lemma=lambda: arc_lemma(s, nm, t))
    # the same point twice, and points a small angle apart
    got = [unclamp(x, E.ONE) for x in call(ck, s, nm, n, uvals(n1=u, n2=u))]
    dd = Domain({"u.p": "P", "u.l": "L", "fraction": "k"}, seed=ck.seed)
    triple(ck, f"{n}/one point", got, u, dd, where, f"leaves the point when both ends are the same {note}")
    for k in (2, 4):
        c = E.q(1 - F(1, 2 * 10 ** (2 * k)))
        e = E.fn("acos", c)
        got = call(ck, s, nm, n, uvals(n1=[E.ONE, E.ZERO, E.ZERO], n2=[c, E.sin(e), E.ZERO]))
        want = [E.cos(E.mul(e, E.sym("fraction"))), E.sin(E.mul(e, E.sym("fraction"))), E.ZERO]
        triple(ck, f"{n}/1e-{k} apart", got, want, Domain({"fraction": "k"}, seed=ck.seed), where, f"is not the point at that fraction when the ends are close {note}", ab=F(1, 10 ** (k + 9)), rel=F(1, 10**14), gen=True, fast=True)


def unclamp(n, c):
    """the scalar product written as the cosine it is, without the limits on it"""

    def f(m, mp):
        if m.op == "fn" and m.a[0] in ("min", "max"):
            ks = [mp[k] for k in m.a[1:]]
            vs = [k for k in ks if k.op != "q"]
            if len(vs) == 1 and all(abs(E.val(k)) == 1 for k in ks if k.op == "q") and (vs[0] is c or prove_eq(vs[0], c, 0)):
                return c
        return None

    return E.rewrite(n, f)


def arc_lemma(s, nm, t=None):
    """for ends u and u cos(w) + v sin(w) with v a unit vector perpendicular to u, the point is u cos(tw) + v sin(tw)"""
    u = angles("u")
    p, q, be, c = S.rad(E.sym("u.p", latdeg=True)), S.rad(E.sym("u.l")), E.sym("be"), E.sym("c")
    east = [E.neg(E.sin(q)), E.cos(q), E.ZERO]
    north = [E.neg(E.mul(E.sin(p), E.cos(q))), E.neg(E.mul(E.sin(p), E.sin(q))), E.cos(p)]
    v = [E.add(E.mul(E.cos(be), x), E.mul(E.sin(be), y)) for x, y in zip(north, east)]
    w = E.fn("acos", c)
    n2 = [E.add(E.mul(c, x), E.mul(E.sin(w), y)) for x, y in zip(u, v)]
    vals = uvals(n1=u, n2=n2)
    if t is not None:
        vals["fraction"] = t
    T = E.sym("fraction") if t is None else t
    got = [unclamp(x, c) for x in s.call(N + nm, vals).leaves]
    d = Domain({"u.p": "P", "u.l": "L", "be": "A", "c": "s", "fraction": "k"}, seed=1)
    got, _ = generic(got, d.ordinary(4))
    a = E.mul(T, w)
    want = [E.add(E.mul(E.cos(a), x), E.mul(E.sin(a), y)) for x, y in zip(u, v)]
    FUEL.start(10**9, 60)
    ok = all(prove_eq(x, y, 0) for x, y in zip(got, want))
    FUEL.start(1 << 60, 1e9)
    return "normal forms equal for every first end, direction and angle, on the branch of ends that are apart" if ok else None


def mean(ck, s, n, where):
    for k in (1, 2, 3):
        for kind in ("list", "tuple"):
            st = s.I.base.clone()
            vs = [vec(f"n{j}") for j in range(k)]
            cols = [[Sc(v[i], "py", "float") for v in vs] for i in range(3)]
            args = [s.I.newlist(st, c) if kind == "list" else tuple(c) for c in cols]
            o = s.run(N + "nvector_mean", args, st=st)
            if o.definite:
                raise ValueError(f"always raises {o.definite}")
            tot = [E.add(*[v[i] for v in vs]) for i in range(3)]
            d = Domain({f"n{j}_{i}": "n" for j in range(k) for i in (1, 2, 3)}, seed=ck.seed, keep=lambda w: sum(sum(w[f"n{j}_{i}"] for j in range(k)) ** 2 for i in (1, 2, 3)) > F(1, 10**6))
            triple(ck, f"{n}/{k} vectors/{kind}", o.leaves, unit(tot), d, where, "is not the direction of the sum")


def xtrack(ck, s, n, nm, deg, where, note):
    a, b, p, R = vec("n1"), vec("n2"), vec("np"), E.sym("radius", pos=True)
    c = unit(cross(a, b))

    def want(R):
        return E.mul(R, E.atan2(dot(c, p), norm(cross(c, p))))

    d = Domain({**{f"n{k}_{i}": "n" for k in "12p" for i in (1, 2, 3)}, "radius": "R"}, seed=ck.seed, keep=apart)
    got = call(ck, s, nm, n)[0]
    ck.eq(f"{n}/definition", got, want(R), d, where, f"is not the signed angle from the great circle (left positive) {note}", ab=tol("l"))
    back = call(ck, s, nm, n, uvals(n1=b, n2=a, np=p))[0]
    ck.eq(f"{n}/reversed path", back, E.neg(got), d, where, f"reversing the path does not change the side {note}", ab=tol("l"))
    r0 = E.power(E.q(WGS[0] ** 2 * WGS[1]), F(1, 3))
    ck.eq(f"{n}/default radius", call(ck, s, nm, n, {"radius": None})[0], want(r0), d, where, f"the default radius is not that of the WGS84 sphere of equal volume {note}", rel=F(1, 10**6), ab=tol("l"), prove=False, fast=True, lemma=lambda: default(s, nm))


def meeting(ck, s, n, nm, deg, where, note):
    vs = [vec(f"n{k}") for k in (1, 2, 3, 4)]
    i = unit(cross(cross(vs[0], vs[1]), cross(vs[2], vs[3])))
    m = [E.add(*[v[k] for v in vs]) for k in range(3)]
    side = E.cmp("<", dot(i, m), E.ZERO)
    want = [E.ite(side, E.neg(x), x) for x in i]

    def keep(w):
        v = [[w[f"n{k}_{j}"] for j in (1, 2, 3)] for k in (1, 2, 3, 4)]
        x = lambda a, b: [a[(j + 1) % 3] * b[(j + 2) % 3] - a[(j + 2) % 3] * b[(j + 1) % 3] for j in range(3)]  # noqa: E731
        c1, c2 = x(v[0], v[1]), x(v[2], v[3])
        t = x(c1, c2)
        sd = sum(p * sum(q[j] for q in v) for j, p in enumerate(t))
        return min(sum(p * p for p in c1), sum(p * p for p in c2), sum(p * p for p in t)) > F(1, 10**4) and abs(sd) > F(1, 1000)

    d = Domain({f"n{k}_{j}": "n" for k in (1, 2, 3, 4) for j in (1, 2, 3)}, seed=ck.seed, keep=keep)
    got = call(ck, s, nm, n)
    triple(ck, f"{n}/definition", got, want, d, where, f"is not the meeting point of the paths nearest their centroid {note}")


GROUPS = {
    "geodetic2nvector": g2n, "nvector2geodetic": n2g, "nvector2ecef": n2e, "ecef2nvector": e2n, "nvector_distance": distance,
    "nvector_interpolate": interpolate, "nvector_cross_track_distance": xtrack, "nvector_intersection": meeting,
}
