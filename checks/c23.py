"""C23: radii of curvature and mean radii."""

from fractions import Fraction as F

from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.common import MODE_NAME, Chain, dom, modes_of, nodes, symbols, tol
from pms.domain import Domain

RULE = "the value number of each radius equals its published definition for all latitudes, azimuths and ellipsoids, and on a sphere equals the sphere's radius"
EXPLAIN = (
    "Every function of rcurve.py and rsphere.py is interpreted on symbolic latitudes and ellipsoid in three representations and both "
    "angle units; results are compared with the closed forms of pms/spec.py, and interpreted again with zero flattening."
)


def mean_radii(a, f):
    b = E.mul(a, E.sub(E.ONE, f))
    e = E.sqrt(S.e2_of(f))
    h = F(1, 2)
    lg = E.fn("log", E.div(E.add(E.ONE, e), E.sub(E.ONE, e)))
    return {
        ("rsphere.eqavol", None): E.mul(a, E.add(E.ONE, E.scale(f, F(-1, 3)), E.scale(E.mul(f, f), F(-1, 9)))),
        ("rsphere.authalic", None): E.sqrt(E.mul(E.scale(E.mul(a, a), h), E.add(E.ONE, E.mul(E.div(E.sub(E.ONE, E.mul(e, e)), E.scale(e, 2)), lg)))),
        ("rsphere.rectifying", None): E.power(E.scale(E.add(E.power(a, F(3, 2)), E.power(b, F(3, 2))), h), F(2, 3)),
        ("rsphere.triaxial", "mean"): E.scale(E.add(E.scale(a, 2), b), F(1, 3)),
        ("rsphere.triaxial", "norm"): E.power(E.mul(a, a, b), F(1, 3)),
        ("rsphere.biaxial", "mean"): E.scale(E.add(a, b), h),
        ("rsphere.biaxial", "norm"): E.sqrt(E.mul(a, b)),
    }


# published exact quantities the mean radii approximate: (value, relative accuracy for flattenings up to 1/200)
def exact(a, f):
    b = E.mul(a, E.sub(E.ONE, f))
    return {"rsphere.eqavol": (E.power(E.mul(a, a, b), F(1, 3)), 2e-8)}


def check(ck):
    a, f, b = S.axes()
    d = Domain({"E.a": "a", "E.f": "f"}, seed=ck.seed)
    dg = Domain({"E.a": "a", "E.f": "g"}, seed=ck.seed)
    for (key, method), ref in mean_radii(a, f).items():
        where = ck.where(key)
        for mode in ("py", "np0"):
            n = f"{key}{'/' + method if method else ''}/{mode}"
            ck.guarded(n, lambda: radius(ck, key, method, ref, mode, d, dg, where, n), where)
    for key in ("rcurve.geocentric_radius", "rcurve.parallel", "rcurve.meridian", "rcurve.transverse", "rsphere.curve", "rsphere.euler"):
        where = ck.where(key)
        for mode in modes_of(key):
            for deg in (True, False):
                for method in ("mean", "norm", None) if key == "rsphere.curve" else (None,):
                    n = f"{key}{'/' + method if method else ''}/{mode}/{'deg' if deg else 'rad'}"
                    ck.guarded(n, lambda: curve(ck, key, method, mode, deg, where, n), where)


def radius(ck, key, method, ref, mode, d, dg, where, n):
    s = ck.sess(mode)
    a, f, b = S.axes()
    ex = {"method": method} if method else {}
    ((_, g),) = nodes(s.call(key, {}, ell="E", extra=ex), SIGS[key])
    ck.eq(f"{n}/definition", g, ref, Domain(d.roles, seed=ck.seed, keep=lambda w: w["E.f"] > 0), where, f"not the definition ({MODE_NAME[mode]})", ab=tol("l"), gen=True)
    if key in exact(a, f):
        w, rel = exact(a, f)[key]
        ck.eq(f"{n}/exact", g, w, dg, where, f"too far from the exact radius ({MODE_NAME[mode]})", rel=rel, ab=1e-3, prove=False)
    if method == "mean":  # the documented default
        ((_, o),) = nodes(s.call(key, {}, ell="E"), SIGS[key])
        ck.eq(f"{n}/default", o, ref, d, where, "the default method is not 'mean'", ab=tol("l"))
    ((_, z),) = nodes(s.call(key, {}, ell=(a, E.ZERO), extra=ex), SIGS[key])
    ck.eq(f"{n}/sphere", z, a, Domain({"E.a": "a"}, seed=ck.seed), where, f"not the radius of a sphere ({MODE_NAME[mode]})", ab=tol("l"))


def curve(ck, key, method, mode, deg, where, n):
    s = ck.sess(mode)
    sig = SIGS[key]
    a, f, b = S.axes()
    v = symbols(sig)
    d = dom(ck, sig, "E")
    ex = {"method": method} if method else {}
    ((_, g),) = nodes(s.call(key, v, ell="E", deg=deg, extra=ex), sig)
    if key == "rsphere.euler":
        euler(ck, s, v, g, d, where, n, deg, mode)
        return
    x = S.rad(next(iter(v.values())))
    rho, nu = S.meridional(x, a, f), S.transverse(x, a, f)
    ref = {
        "rcurve.geocentric_radius": lambda: S.geocentric_radius(x, a, f), "rcurve.parallel": lambda: E.mul(nu, E.cos(x)),
        "rcurve.meridian": lambda: rho, "rcurve.transverse": lambda: nu,
        "rsphere.curve": lambda: E.sqrt(E.mul(rho, nu)) if method == "norm" else E.scale(E.add(rho, nu), F(1, 2)),
    }[key]()
    if key == "rcurve.geocentric_radius":
        ck.eq(f"{n}/definition", E.mul(g, g), E.mul(ref, ref), d, where, f"not the distance of the surface point from the centre ({MODE_NAME[mode]})")
    else:
        ck.eq(f"{n}/definition", g, ref, d, where, f"not the definition ({MODE_NAME[mode]})", ab=tol("l"))
    ((_, z),) = nodes(s.call(key, v, ell=(a, E.ZERO), deg=deg, extra=ex), sig)
    w = E.mul(a, E.cos(x)) if key == "rcurve.parallel" else a
    ck.eq(f"{n}/sphere", z, w, Domain({k: r for k, r in d.roles.items() if k != "E.f"}, seed=ck.seed), where, f"not the radius of a sphere ({MODE_NAME[mode]})", ab=tol("l"))


def vdist_override():
    """stand-in for the geodesic solver: the azimuth is a function of the end points (degrees) and the ellipsoid"""
    from pms.session import D2R
    from pms.values import Builtin, Func, Ref, Sc

    def f(I, args, kw, st):
        d = dict(zip(("lat1", "lon1", "lat2", "lon2", "ell", "deg"), args))
        d.update(kw)
        deg = d.get("deg", True)
        deg = deg.node is E.TRUE if isinstance(deg, Sc) else deg
        pts = []
        for k in ("lat1", "lon1", "lat2", "lon2"):
            x = st.heap[d[k].mem].node if hasattr(d[k], "mem") else d[k].node
            pts.append(x if deg else E.mul(x, R2D))
        ell = d.get("ell")
        tag = "E" if isinstance(ell, Ref) and st.heap[ell.oid]["semimajor_axis"].node is E.sym("E.a", pos=True) else "other"
        want = [E.sym("lat1", latdeg=True), E.sym("lon1"), E.sym("lat2", latdeg=True), E.sym("lon2")]
        same = tag == "E" and all(p is w for p, w in zip(pts, want))
        az = E.sym("az") if same else E.add(E.sym("az"), E.sym("elsewhere"))
        out = az if deg else E.mul(az, D2R)
        mk = (lambda n: I.newarr(st, n)) if any(hasattr(d[k], "mem") for k in ("lat1", "lon1")) else (lambda n: Sc(n, "np" if I.cfg.numpy else "py", "float"))
        return (mk(E.sym("dist", pos=True)), mk(out))

    return {("pymap3d.vincenty", "vdist"): lambda I, st, v: Builtin("vdist", f) if isinstance(v, Func) else v}


VD = vdist_override()


def euler(ck, s, v, g, d, where, n, deg, mode):
    """Euler's formula in the azimuth of the geodesic: for whatever azimuth the solver gives, and with the solver of this source"""
    a, f, b = S.axes()
    mid = S.rad(E.scale(E.add(v.lat1, v.lat2), F(1, 2)))
    rho, nu = S.meridional(mid, a, f), S.transverse(mid, a, f)

    def ref(az):
        sa, ca = E.sin(S.rad(az)), E.cos(S.rad(az))
        return E.div(E.ONE, E.add(E.div(E.mul(ca, ca), rho), E.div(E.mul(sa, sa), nu)))

    note = f"not Euler's radius at the mid latitude in the azimuth of the geodesic ({MODE_NAME[mode]})"
    s2 = ck.sess(mode, overrides=VD)
    ((_, g2),) = nodes(s2.call("rsphere.euler", v, ell="E", deg=deg), SIGS["rsphere.euler"])
    d2 = Domain({**d.roles, "az": "Z", "elsewhere": "Z"}, seed=ck.seed)
    ck.eq(f"{n}/definition", g2, ref(E.sym("az")), d2, where, note, ab=tol("l"))
    c = Chain(s, True, "E", {})
    dist, az = c("vincenty.vdist", v.lat1, v.lon1, v.lat2, v.lon2)
    if deg:
        ck.eq(f"{n}/with the solver", g, ref(az), d, where, note, ab=tol("l"), prove=False, fast=True, n=4)
