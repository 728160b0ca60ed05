"""C26: line of sight to the ellipsoid."""

from fractions import Fraction as F

from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.common import MODE_NAME, Chain, dom, modes_of, nodes, symbols, tol
from pms.domain import Domain

RULE = (
    "slant range equals the smaller root of the quadratic of the ray and the ellipsoid (NaN where it has none or it is behind the observer); the "
    "point is ecef2geodetic of observer + range * direction; with the range as a symbol satisfying the quadratic the point satisfies the ellipsoid's equation"
)
EXPLAIN = (
    "lookAtSpheroid is interpreted on symbolic observer, azimuth, tilt and ellipsoid in three representations and both angle units; "
    "range, point and NaN conditions are compared with the reference built from geodetic2ecef and the ENU axes of pms/spec.py."
)
KEY = "los.lookAtSpheroid"


def reference(v, a, f):
    b = E.mul(a, E.sub(E.ONE, f))
    la, lo, az, ti = (S.rad(v[k]) for k in ("lat0", "lon0", "az", "tilt"))
    P = S.geodetic2ecef(la, lo, v.h0, a, f)
    rows = S.enu_rows(la, lo)
    enu = [E.mul(E.sin(ti), E.sin(az)), E.mul(E.sin(ti), E.cos(az)), E.neg(E.cos(ti))]
    U = [E.add(*[E.mul(rows[i][k], enu[i]) for i in range(3)]) for k in range(3)]
    return (P, U, *quadratic(P, U, a, f))


def quadratic(P, U, a, f):
    """of |P + d U| on the ellipsoid: A, B, C, discriminant, smaller root"""
    b = E.mul(a, E.sub(E.ONE, f))
    q = lambda x, y: E.add(E.div(E.add(E.mul(x[0], y[0]), E.mul(x[1], y[1])), E.mul(a, a)), E.div(E.mul(x[2], y[2]), E.mul(b, b)))  # noqa: E731
    A, B, C = q(U, U), q(P, U), E.sub(q(P, P), E.ONE)
    disc = E.sub(E.mul(B, B), E.mul(A, C))
    d = E.div(E.neg(E.add(B, E.sqrt(disc))), A)
    return A, B, C, disc, d


def check(ck):
    where = ck.where(KEY)
    for mode in modes_of(KEY):
        for deg in (True, False):
            n = f"{mode}/{'deg' if deg else 'rad'}"
            ck.guarded(n, lambda: one(ck, mode, deg, where, n), where)


def one(ck, mode, deg, where, n):
    s = ck.sess(mode)
    sig = SIGS[KEY]
    v = symbols(sig)
    a, f, b = S.axes()
    note = f"({MODE_NAME[mode]})"
    P, U, A, B, C, disc, d = reference(v, a, f)
    dm = Domain({**dom(ck, sig, "E").roles}, seed=ck.seed, keep=lambda w: w["h0"] >= 0 and w["E.a"] > 10**6)
    lat, lon, rng = Chain(s, deg, "E", {})(KEY, *[v[p.name] for p in sig.pars if p.name in v])
    ref = E.ite(E.cmp("<", disc, E.ZERO), E.NAN, E.ite(E.cmp("<", d, E.ZERO), E.NAN, d))
    hit = Domain(dm.roles, seed=ck.seed, keep=lambda w: dm.keep(w) and w["tilt"] < 40 and w["h0"] > 0)
    ck.eq(f"range/{n}", rng, ref, hit, where, f"not the distance to the first intersection {note}", ab=1e-5, prove=False, fast=True, lemma=lambda: range_lemma(ck, mode, deg))
    # whether there is an intersection: a number or NaN
    wide = Domain({**dm.roles, "tilt": "Z"}, seed=ck.seed, keep=dm.keep)
    w2 = E.or_(E.cmp("<", disc, E.ZERO), E.cmp("<", d, E.ZERO))
    ck.eq(f"hit or miss/{n}", E.bfn("isnan", rng), w2, wide, where, f"a ray that misses gets a point, or one that hits gets NaN {note}", prove=False, fast=True, n=60)
    # the point: at that range along the ray
    c = Chain(s, deg, "E", {})
    pt = [E.add(p, E.mul(rng, u)) for p, u in zip(P, U)]
    la, lo, al = c("ecef.ecef2geodetic", *pt)
    ck.eq(f"lat/{n}", lat, la, hit, where, f"latitude is not that of the point at that range on the ray {note}", ab=tol("a") * 10, gen=True, fast=True, n=12, prove=False)
    ck.eq(f"lon/{n}", lon, E.mul(E.atan2(pt[1], pt[0]), E.div(E.q(180), E.PI)), hit, where, f"longitude is not that of the point at that range on the ray {note}", ab=tol("a") * 10, gen=True, fast=True)
    # the point lies on the ellipsoid, whichever root is taken
    t = E.sym("t")
    w = [E.add(p, E.mul(t, u)) for p, u in zip(P, U)]
    q = E.sub(E.add(E.div(E.add(E.mul(w[0], w[0]), E.mul(w[1], w[1])), E.mul(a, a)), E.div(E.mul(w[2], w[2]), E.mul(b, b))), E.ONE)
    ck.eq(f"quadratic/{n}", q, E.add(E.mul(A, t, t), E.scale(E.mul(B, t), 2), C), Domain({**dm.roles, "t": "r"}, seed=ck.seed), where, "reference quadratic")


def stubs():
    """observer position and direction as free symbols, returned only when asked for the right observer and direction"""
    from pms.equal import prove_eq
    from pms.values import Builtin, Func, Ref, Sc, Unsupported

    sy = {k: E.sym(k) for k in ("X", "Y", "Z", "e", "n", "up", "U", "V", "W")}

    def node(st, x):
        if hasattr(x, "mem"):
            return st.heap[x.mem].node
        return x.node if hasattr(x, "node") else E.q(x)

    def make(names, want, outs):
        def f(I, args, kw, st):
            d = dict(zip(names, args))
            d.update(kw)
            dg = d.get("deg", True)
            dg = dg.node is E.TRUE if isinstance(dg, Sc) else bool(dg)
            for k, (w, ang) in want.items():
                g = node(st, d[k])
                if ang and not dg:
                    g = E.mul(g, E.div(E.q(180), E.PI))
                if g is not w and not prove_eq(g, w, 0):
                    raise Unsupported(f"stub called with another {k}")
            if "ell" in names:
                e = d.get("ell")
                if not isinstance(e, Ref) or st.heap[e.oid]["semimajor_axis"].node is not E.sym("E.a", pos=True):
                    raise Unsupported("stub called with another ellipsoid")
            arr = any(hasattr(x, "mem") for x in d.values())
            return tuple(I.newarr(st, sy[o]) if arr else Sc(sy[o], "np" if I.cfg.numpy else "py", "float") for o in outs)

        return lambda I, st, v: Builtin(v.name, f) if isinstance(v, Func) else v

    la, lo, h, az, ti = E.sym("lat0", latdeg=True), E.sym("lon0"), E.sym("h0"), E.sym("az"), E.sym("tilt")
    return {
        ("pymap3d.ecef", "geodetic2ecef"): make(("lat", "lon", "alt", "ell", "deg"), {"lat": (la, 1), "lon": (lo, 1), "alt": (h, 0)}, "XYZ"),
        ("pymap3d.enu", "aer2enu"): make(("az", "el", "srange", "deg"), {"az": (az, 1), "el": (E.sub(ti, E.q(90)), 1), "srange": (E.ONE, 0)}, ("e", "n", "up")),
        ("pymap3d.ecef", "enu2uvw"): make(
            ("east", "north", "up", "lat0", "lon0", "deg"),
            {"east": (sy["e"], 0), "north": (sy["n"], 0), "up": (sy["up"], 0), "lat0": (la, 1), "lon0": (lo, 1)}, "UVW"),
    }


ST = stubs()


def range_lemma(ck, mode, deg):
    """the range as a function of a free observer position and a free direction"""
    from pms.equal import generic, prove_eq

    s = ck.sess(mode, overrides=ST)
    out = s.call(KEY, {}, ell="E", deg=deg)
    d = out.leaves[2]
    a, f, b = S.axes()
    P, U = [E.sym(k) for k in "XYZ"], [E.sym(k) for k in "UVW"]
    if any(m.op == "sym" and m.a[0] not in ("X", "Y", "Z", "U", "V", "W", "E.a", "E.f") for m in E.free(d)):
        return None
    A, B, C, disc, ref = quadratic(P, U, a, f)

    def keep(w):
        x, u = [w[k] for k in "XYZ"], [w[k] for k in "UVW"]
        r2 = sum(t * t for t in x)
        dot = sum(p * q for p, q in zip(x, u))
        return r2 > (F(11, 10) * w["E.a"]) ** 2 and dot < 0 and r2 - dot * dot < (F(7, 10) * w["E.a"]) ** 2

    dm = Domain({**{k: "c" for k in "XYZ"}, **{k: "n" for k in "UVW"}, "E.a": "a", "E.f": "f"}, seed=1, keep=keep)
    boxes = dm.ordinary(3)
    if not boxes:
        return None
    (g,), _ = generic([d], boxes)
    if prove_eq(g, ref, 7):
        return "normal forms equal for a free observer position and direction, on the branch of rays that hit"
    return None
