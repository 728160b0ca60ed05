"""C04: every point transform is the composition of the primitive steps, with every argument passed on."""

from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.common import MODE_NAME, Chain, dom, modes_of, nodes, symbols, tol

RULE = (
    "value number of the composite function equals the value number obtained by feeding the outputs of "
    "the primitives (geodetic2ecef, ecef2geodetic, ECEF/ECI, ENU rotation, AER, axis permutation) into "
    "each other with the observer, ellipsoid, angle unit, time and Earth-orientation arguments unchanged"
)
EXPLAIN = (
    "One obligation per composite function, result, angle unit and representation (Python floats with and "
    "without NumPy, arrays). Both sides are value numbers of the current source; equality holds for all "
    "inputs. Dropping or swapping an argument anywhere on the call path changes the value number."
)

PERM = {  # frame components from (e, n, u), and back
    "ned": (lambda e, n, u: (n, e, E.neg(u)), lambda n, e, d: (e, n, E.neg(d))),
    "sez": (lambda e, n, u: (E.neg(n), e, u), lambda s, e, z: (e, E.neg(s), z)),
    "nwu": (lambda e, n, u: (n, E.neg(e), u), lambda n, w, u: (E.neg(w), n, u)),
    "enu": (lambda e, n, u: (e, n, u), lambda e, n, u: (e, n, u)),
}


def laws():
    L = {}

    def law(key, *ells):
        def deco(f):
            L[key] = f
            return f

        return deco

    L["aer.ecef2aer"] = lambda c, v: c("enu.enu2aer", *c("ecef.ecef2enu", v.x, v.y, v.z, v.lat0, v.lon0, v.h0))
    L["aer.geodetic2aer"] = lambda c, v: c("enu.enu2aer", *c("enu.geodetic2enu", v.lat, v.lon, v.h, v.lat0, v.lon0, v.h0))
    L["aer.aer2ecef"] = lambda c, v: c("ecef.enu2ecef", *c("enu.aer2enu", v.az, v.el, v.srange), v.lat0, v.lon0, v.alt0)
    L["aer.aer2geodetic"] = lambda c, v: c("ecef.ecef2geodetic", *c("aer.aer2ecef", v.az, v.el, v.srange, v.lat0, v.lon0, v.h0))
    L["aer.eci2aer"] = lambda c, v: c("aer.ecef2aer", *c("eci.eci2ecef", v.x, v.y, v.z, v.t), v.lat0, v.lon0, v.h0)
    L["aer.aer2eci"] = lambda c, v: c("eci.ecef2eci", *c("aer.aer2ecef", v.az, v.el, v.srange, v.lat0, v.lon0, v.h0), v.t)
    L["ecef.eci2geodetic"] = lambda c, v: c("ecef.ecef2geodetic", *c("eci.eci2ecef", v.x, v.y, v.z, v.t))
    L["ecef.geodetic2eci"] = lambda c, v: c("eci.ecef2eci", *c("ecef.geodetic2ecef", v.lat, v.lon, v.alt), v.t)

    def minus(p, q):
        return [E.sub(x, y) for x, y in zip(p, q)]

    def plus(p, q):
        return [E.add(x, y) for x, y in zip(p, q)]

    L["ecef.ecef2enu"] = lambda c, v: c(
        "ecef.uvw2enu", *minus((v.x, v.y, v.z), c("ecef.geodetic2ecef", v.lat0, v.lon0, v.h0)), v.lat0, v.lon0)
    L["ecef.enu2ecef"] = lambda c, v: plus(
        c("ecef.geodetic2ecef", v.lat0, v.lon0, v.h0), c("ecef.enu2uvw", v.e1, v.n1, v.u1, v.lat0, v.lon0))
    L["enu.geodetic2enu"] = lambda c, v: c(
        "ecef.ecef2enu", *c("ecef.geodetic2ecef", v.lat, v.lon, v.h), v.lat0, v.lon0, v.h0)
    L["enu.enu2geodetic"] = lambda c, v: c(
        "ecef.ecef2geodetic", *c("ecef.enu2ecef", v.e, v.n, v.u, v.lat0, v.lon0, v.h0))

    names = {"ned": "ned", "sez": "sez", "nwu": "nwu"}

    def frame(fr):
        to, back = PERM[fr]
        cs = list(names[fr])
        L[f"{fr}.aer2{fr}"] = lambda c, v: to(*c("enu.aer2enu", v.az, v.elev, v.slantRange))
        L[f"{fr}.{fr}2aer"] = lambda c, v: c("enu.enu2aer", *back(*[v[k] for k in cs]))
        L[f"{fr}.{fr}2geodetic"] = lambda c, v: c("enu.enu2geodetic", *back(*[v[k] for k in cs]), v.lat0, v.lon0, v.h0)
        L[f"{fr}.{fr}2ecef"] = lambda c, v: c("ecef.enu2ecef", *back(*[v[k] for k in cs]), v.lat0, v.lon0, v.h0)
        L[f"{fr}.ecef2{fr}"] = lambda c, v: to(*c("ecef.ecef2enu", v.x, v.y, v.z, v.lat0, v.lon0, v.h0))
        L[f"{fr}.geodetic2{fr}"] = lambda c, v: to(*c("enu.geodetic2enu", v.lat, v.lon, v.h, v.lat0, v.lon0, v.h0))

    for fr in names:
        frame(fr)
    L["dca.ecef2dca"] = lambda c, v: c("dca.enu2dca", *c("ecef.ecef2enu", v.x, v.y, v.z, v.lat0, v.lon0, v.h0), v.heading)
    L["dca.dca2ecef"] = lambda c, v: c("ecef.enu2ecef", *c("dca.dca2enu", v.dr, v.cr, v.above, v.heading), v.lat0, v.lon0, v.h0)
    L["dca.geodetic2dca"] = lambda c, v: c("dca.enu2dca", *c("enu.geodetic2enu", v.lat, v.lon, v.h, v.lat0, v.lon0, v.h0), v.heading)
    L["dca.dca2geodetic"] = lambda c, v: c("enu.enu2geodetic", *c("dca.dca2enu", v.dr, v.cr, v.above, v.heading), v.lat0, v.lon0, v.h0)
    L["dca.aer2dca"] = lambda c, v: c("dca.enu2dca", *c("enu.aer2enu", v.az, v.el, v.srange), v.heading)
    L["dca.dca2aer"] = lambda c, v: c("enu.enu2aer", *c("dca.dca2enu", v.dr, v.cr, v.above, v.heading))
    L["nvector.ecef2nvector"] = lambda c, v: c("nvector.geodetic2nvector", *c("ecef.ecef2geodetic", v.x, v.y, v.z)[:2])
    L["nvector.nvector2ecef"] = lambda c, v: c("ecef.geodetic2ecef", *c("nvector.nvector2geodetic", v.n1, v.n2, v.n3), v.alt)
    return L


def body_laws():
    """per frame"""
    L = {}
    for fr in PERM:
        pt = {"enu": "ecef"}.get(fr, fr)

        def mk(fr=fr, pt=pt):
            M = {}
            M["body.ecef2body"] = lambda c, v: c(
                f"body.{fr}2body", *c(f"{pt}.ecef2{fr}", v.x, v.y, v.z, v.lat0, v.lon0, v.h0), v.yaw, v.pitch, v.roll)
            M["body.body2ecef"] = lambda c, v: c(
                f"{pt}.{fr}2ecef", *c(f"body.body2{fr}", v.xb, v.yb, v.zb, v.yaw, v.pitch, v.roll), v.lat0, v.lon0, v.h0)
            M["body.geodetic2body"] = lambda c, v: c(
                f"body.{fr}2body", *c(f"{fr}.geodetic2{fr}", v.lat, v.lon, v.h, v.lat0, v.lon0, v.h0), v.yaw, v.pitch, v.roll)
            M["body.body2geodetic"] = lambda c, v: c(
                f"{fr}.{fr}2geodetic", *c(f"body.body2{fr}", v.xb, v.yb, v.zb, v.yaw, v.pitch, v.roll), v.lat0, v.lon0, v.h0)
            return M

        L[fr] = mk()
    return L


def check(ck):
    for key, f in laws().items():
        where = ck.where(key)
        for mode in modes_of(key):
            for deg in (True, False):
                if deg is False and not SIGS[key].has("deg"):
                    continue
                n = f"{key}/{mode}/{'deg' if deg else 'rad'}"
                ck.guarded(n, lambda: one(ck, key, f, mode, deg, where, {}, n), where)
    for fr, M in body_laws().items():
        for key, f in M.items():
            where = ck.where(key)
            for mode in modes_of(key):
                for deg in (True, False):
                    n = f"{key}/{fr}/{mode}/{'deg' if deg else 'rad'}"
                    ck.guarded(n, lambda: one(ck, key, f, mode, deg, where, {"frame": fr}, n), where)


def one(ck, key, f, mode, deg, where, extra, name):
    sig = SIGS[key]
    s = ck.sess(mode)
    v = symbols(sig)
    kw = {p.name: v[p.name] for p in sig.pars if p.kwonly and p.role == "s"}
    ell = "E" if sig.has("ell") else None
    out = s.call(key, ell=ell, deg=deg if sig.has("deg") else None, extra=extra)
    if out.definite:
        ck.fact(f"{name}/defined", False, f"always raises {out.definite}", where)
        return
    want = f(Chain(s, deg, ell, kw), v)
    d = dom(ck, sig, *(("E",) if ell else ()))
    for ((n, r), g), w in zip(nodes(out, sig), want):
        g = S.deg(g) if r == "a" and deg is False else g
        ck.eq(f"{name}/{n}", g, w, d, where, f"{n} is not the composition of the primitive steps ({MODE_NAME[mode]})", ab=tol(r))
