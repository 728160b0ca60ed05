"""C05: paired conversions undo each other."""

from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.common import MODE_NAME, ROT, ROTSYMS, Chain, V, dom, modes_of, symbols, tol
from pms.equal import assume

RULE = (
    "feeding the value numbers of one direction into the other gives value numbers equal to the starting symbols "
    "(angles: equal sine and cosine)"
)
EXPLAIN = (
    "For each pair of conversions offered in both directions in closed form, one obligation per component, angle unit, "
    "frame and representation: the composition, built from the current source of both functions, reduces to the "
    "starting coordinates for all inputs in the pair's one-to-one domain."
)
XYZ = {"enu": "e n u", "ned": "n e d", "sez": "s e z", "nwu": "n w u"}


def pairs():
    """(name, forward key, backward call) -> list of (what, role, got, want)"""
    L = []

    def add(key, back, fwd_args=None, what=None, extra=None, aer=None, ang=()):
        L.append((key, back, extra or {}, aer, ang))

    obs = ("lat0", "lon0", "h0")
    # vectors and points of the local frames
    add("ecef.uvw2enu", lambda c, v, o: c("ecef.enu2uvw", *o, v.lat0, v.lon0))
    add("ecef.enu2uvw", lambda c, v, o: c("ecef.uvw2enu", *o, v.lat0, v.lon0))
    add("enu.enu2ecefv", lambda c, v, o: c("ecef.ecef2enuv", *o, v.lat0, v.lon0))
    add("ecef.ecef2enuv", lambda c, v, o: c("enu.enu2ecefv", *o, v.lat0, v.lon0))
    for fr in ("sez", "nwu"):
        add(f"{fr}.{fr}2ecefv", lambda c, v, o, fr=fr: c(f"{fr}.ecef2{fr}v", *o, v.lat0, v.lon0))
        add(f"{fr}.ecef2{fr}v", lambda c, v, o, fr=fr: c(f"{fr}.{fr}2ecefv", *o, v.lat0, v.lon0))
    for fr in XYZ:
        m = "ecef" if fr == "enu" else fr
        add(f"{m}.{fr}2ecef", lambda c, v, o, fr=fr, m=m: c(f"{m}.ecef2{fr}", *o, v.lat0, v.lon0, v.h0))
        add(f"{m}.ecef2{fr}", lambda c, v, o, fr=fr, m=m: c(f"{m}.{fr}2ecef", *o, v.lat0, v.lon0, v.h0))
        ypr = lambda v: (v.yaw, v.pitch, v.roll)  # noqa: E731
        add(f"body.{fr}2body", lambda c, v, o, fr=fr, a=ypr: c(f"body.body2{fr}", *o, *a(v)))
        add(f"body.body2{fr}", lambda c, v, o, fr=fr, a=ypr: c(f"body.{fr}2body", *o, *a(v)))
        ex = {"frame": fr}
        add("body.ecef2bodyv", lambda c, v, o, a=ypr: c("body.body2ecefv", *o, v.lat0, v.lon0, *a(v)), extra=ex)
        add("body.body2ecefv", lambda c, v, o, a=ypr: c("body.ecef2bodyv", *o, v.lat0, v.lon0, *a(v)), extra=ex)
        add("body.ecef2body", lambda c, v, o, a=ypr: c("body.body2ecef", *o, v.lat0, v.lon0, v.h0, *a(v)), extra=ex)
        add("body.body2ecef", lambda c, v, o, a=ypr: c("body.ecef2body", *o, v.lat0, v.lon0, v.h0, *a(v)), extra=ex)
    add("dca.enu2dca", lambda c, v, o: c("dca.dca2enu", *o, v.heading))
    add("dca.dca2enu", lambda c, v, o: c("dca.enu2dca", *o, v.heading))
    add("dca.ned2dca", lambda c, v, o: c("dca.dca2ned", *o, v.heading))
    add("dca.dca2ned", lambda c, v, o: c("dca.ned2dca", *o, v.heading))
    add("dca.ecef2dca", lambda c, v, o: c("dca.dca2ecef", *o, v.lat0, v.lon0, v.h0, v.heading))
    add("dca.dca2ecef", lambda c, v, o: c("dca.ecef2dca", *o, v.lat0, v.lon0, v.h0, v.heading))
    # azimuth, elevation, range
    for m, fr in (("enu", "enu"), ("ned", "ned"), ("sez", "sez"), ("nwu", "nwu")):
        add(f"{m}.{fr}2aer", lambda c, v, o, m=m, fr=fr: c(f"{m}.aer2{fr}", *o), aer="in")
        add(f"{m}.aer2{fr}", lambda c, v, o, m=m, fr=fr: c(f"{m}.{fr}2aer", *o), aer="out", ang=(0, 1))
    add("dca.dca2aer", lambda c, v, o: c("dca.aer2dca", *o, v.heading), aer="dca")
    add("dca.aer2dca", lambda c, v, o: c("dca.dca2aer", *o, v.heading), aer="out", ang=(0, 1))
    add("aer.ecef2aer", lambda c, v, o: c("aer.aer2ecef", *o, v.lat0, v.lon0, v.h0), aer="ecef")
    add("aer.aer2ecef", lambda c, v, o: c("aer.ecef2aer", *o, v.lat0, v.lon0, v.alt0), aer="out", ang=(0, 1))
    # time-dependent
    add("eci.eci2ecef", lambda c, v, o: c("eci.ecef2eci", *o, v.time))
    add("eci.ecef2eci", lambda c, v, o: c("eci.eci2ecef", *o, v.time))
    add("eci.eci2ecef_state", lambda c, v, o: c("eci.ecef2eci_state", *o, v.time))
    add("eci.ecef2eci_state", lambda c, v, o: c("eci.eci2ecef_state", *o, v.time))
    # angles on the sphere
    add("nvector.geodetic2nvector", lambda c, v, o: c("nvector.nvector2geodetic", *o), ang=(0, 1))
    add("nvector.nvector2geodetic", lambda c, v, o: c("nvector.geodetic2nvector", *o), aer="unit")
    add("utils.pol2cart", lambda c, v, o: c("utils.cart2pol", *o), ang=(0,))
    add("utils.cart2pol", lambda c, v, o: c("utils.pol2cart", *o))
    add("utils.sph2cart", lambda c, v, o: c("utils.cart2sph", *o), ang=(0, 1))
    add("utils.cart2sph", lambda c, v, o: c("utils.sph2cart", *o))
    # latitudes in closed form
    add("latitude.geodetic2parametric", lambda c, v, o: c("latitude.parametric2geodetic", *o), ang=(0,))
    add("latitude.parametric2geodetic", lambda c, v, o: c("latitude.geodetic2parametric", *o), ang=(0,))
    add("latitude.geodetic2geocentric", lambda c, v, o: c("latitude.geocentric2geodetic", *o, E.ZERO), aer="h0", ang=(0,))
    add("latitude.geocentric2geodetic", lambda c, v, o: c("latitude.geodetic2geocentric", *o, E.ZERO), aer="h0", ang=(0,))
    add("latitude.geodetic2geocentric", lambda c, v, o: c("latitude.geocentric2geodetic", *o, v.alt_m), {"h": "height"}, aer="approx", ang=(0,))
    add("latitude.geocentric2geodetic", lambda c, v, o: c("latitude.geodetic2geocentric", *o, v.alt_m), {"h": "height"}, aer="approx", ang=(0,))
    add("spherical.geodetic2spherical", lambda c, v, o: c("spherical.spherical2geodetic", *o), aer="series", ang=(0, 1))
    return L


def check(ck):
    for key, back, extra, aer, ang in pairs():
        where = ck.where(key)
        sig = SIGS[key]
        for mode in modes_of(key):
            for deg in (True, False):
                if not sig.has("deg") and not deg:
                    continue
                tag = "".join(f"/{x}" for x in extra.values())
                n = f"{key}{tag}/{mode}/{'deg' if deg else 'rad'}"
                ck.guarded(n, lambda: one(ck, key, back, extra, aer, ang, mode, deg, where, n), where)


def one(ck, key, back, extra, aer, ang, mode, deg, where, name):
    sig = SIGS[key]
    if sig.has("deg") is False:
        deg = None
    s = ck.sess(mode, overrides=ROT) if key.startswith("eci.") else ck.sess(mode)
    v = symbols(sig)
    kw = {p.name: v[p.name] for p in sig.pars if p.kwonly and p.role == "s"}
    if aer == "out":  # elevation: cos >= 0
        v = V({k: (E.sym(k, latdeg=True) if p == "V" else n) for (k, n), p in zip(v.items(), [p.role for p in sig.pars if p.name in v])})
    if key == "utils.sph2cart":
        v["el"] = S.rad(E.sym("el", latdeg=True))
    if aer == "h0":
        v["alt_m"] = E.ZERO
    ell = "E" if sig.has("ell") else None
    c = Chain(s, deg, ell, kw, extra)
    numeric = [v[p.name] for p in sig.pars if p.name in v and not p.kwonly]
    out = c(key, *numeric)
    res = back(c, v, out)
    roles = [p.role for p in sig.pars if p.name in v and not p.kwonly]
    names = [p.name for p in sig.pars if p.name in v and not p.kwonly]
    start = numeric
    keep, conds = None, []
    if aer in ("in", "dca", "ecef", "out"):
        # stay off the 1 mm dead zone of the azimuth computation
        if aer == "in":
            conds = [E.cmp("<", E.sub(E.abs_(x), E.q(S.MM)), E.ZERO) for x in start[:3]]
            keep = lambda p, nm=names[:3]: all(abs(p[k]) > 1 for k in nm)  # noqa: E731
        elif aer == "out":
            i = names.index(next(k for k, r in zip(names, roles) if r == "V"))
            keep = lambda p, a=names[i - 1], b=names[i], r=names[i + 1]: off(p, a, b, r)  # noqa: E731
        else:
            from pms.equal import base_conds

        conds = conds or [x for n in res for x in deadzone(n)]
        for x in conds:
            res = [assume(n, x, False) for n in res]
        if aer in ("dca", "ecef"):
            keep = lambda p: all(abs(x) > 1 for k, x in p.items() if k in names[:3])  # noqa: E731
    if aer == "unit":
        # the components of a unit vector
        lat, lon = E.sym("lat", latdeg=True), E.sym("lon")
        n3 = [E.mul(E.cos(S.rad(lat)), E.cos(S.rad(lon))), E.mul(E.cos(S.rad(lat)), E.sin(S.rad(lon))), E.sin(S.rad(lat))]
        start = n3
        out = c(key, *n3)
        res = back(c, v, out)
    d = dom(ck, sig, *(("E",) if ell else ()), keep=keep, **({"lat": "P", "lon": "L"} if aer == "unit" else {}))
    if key.startswith("eci."):
        d.roles.update(ROTSYMS)
    if key == "utils.sph2cart":
        d.roles["el"] = "P"
    if aer == "unit":
        for k in names:
            d.roles.pop(k)
    if aer == "approx":  # off the surface this pair is documented as approximate: a fifth of an arcsecond for small flattenings
        d = dom(ck, sig, keep=lambda w: w["E.a"] > 10**6 and abs(w["alt_m"]) < w["E.a"] / 20, **{"E.a": "a", "E.f": "g"})
        ck.eq(f"{name}/{names[0]}", res[0], start[0], d, where, f"latitude does not come back ({MODE_NAME[mode]})", ab=5e-5, prove=False, fast=True, n=24)
        return
    for i, (k, r, g, w) in enumerate(zip(names, roles, res, start)):
        if i in ang:
            a = (lambda x: x) if r == "A" else S.rad
            if aer == "series":
                ck.eq(f"{name}/{k}", E.cos(a(E.sub(g, w))), E.ONE, d, where, f"{k} does not come back ({MODE_NAME[mode]})", ab=1e-12, prove=False, n=8, fast=True)
                continue
            ck.eq(f"{name}/sin {k}", E.sin(a(g)), E.sin(a(w)), d, where, f"{k} does not come back ({MODE_NAME[mode]})")
            ck.eq(f"{name}/cos {k}", E.cos(a(g)), E.cos(a(w)), d, where, f"{k} does not come back ({MODE_NAME[mode]})")
        else:
            ck.eq(f"{name}/{k}", g, w, d, where, f"{k} does not come back ({MODE_NAME[mode]})", ab=tol("v" if r == "v" else "l"), **({"prove": False, "n": 8, "fast": True} if aer == "series" else {}))


def deadzone(n):
    """conditions |component| < 1 mm in a value number"""
    for m in E.walk(n):
        if m.op == "ite":
            for x in E.walk(m.a[0]):
                if x.op == "cmp" and x.a[0] == "<" and x.a[1].op == "lin" and x.a[1].a[0] == -S.MM:
                    yield x


def off(p, a, b, r):
    """azimuth, elevation, range whose components all exceed the dead zone"""
    from math import cos, radians, sin

    A, B, R = (float(p[k]) for k in (a, b, r))
    A, B = radians(A), radians(B)
    h = float(p.get("heading", 0))
    A2 = A - radians(h) if "heading" in p else A
    return all(abs(x) > 0.01 for x in (R * sin(B), R * cos(B) * sin(A), R * cos(B) * cos(A), R * cos(B) * sin(A2), R * cos(B) * cos(A2)))
