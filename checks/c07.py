"""C07: auxiliary latitudes."""

from fractions import Fraction as F

from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.common import MODE_NAME, R2D, dom, modes_of, nodes, symbols, tol
from pms.domain import Domain

RULE = (
    "each auxiliary latitude is value-number equal to its closed-form definition or to the published series, is odd, fixes the "
    "equator and the poles and reduces to the identity on a sphere; conversions offered both ways are not separated from inverse"
)
EXPLAIN = (
    "Every function of latitude.py is interpreted on symbolic latitude, height and ellipsoid (three representations, both "
    "angle units); the result is compared with definitions transcribed from the literature, and re-interpreted at -lat, 0, +-90 "
    "and on the sphere, where the required identities must hold for all remaining inputs."
)


def series(x, coefs):
    return E.add(x, *[E.mul(c, E.sin(E.scale(x, 2 * (i + 1)))) for i, c in enumerate(coefs)])


def poly(v, terms):
    return E.add(*[E.scale(E.power(v, n), F(c)) for n, c in terms])


def third(f):
    return E.div(f, E.sub(E.q(2), f))


def psi(lat, f):
    e = E.sqrt(S.e2_of(f))
    return E.sub(E.fn("asinh", E.tan(lat)), E.mul(e, E.fn("atanh", E.mul(e, E.sin(lat)))))


def q_auth(s, f):
    e2 = S.e2_of(f)
    e = E.sqrt(e2)
    return E.mul(E.sub(E.ONE, e2), E.add(E.div(s, E.sub(E.ONE, E.mul(e2, s, s))), E.div(E.fn("atanh", E.mul(e, s)), e)))


def refs(a, f):
    """function -> reference in radians of (latitude in radians, second argument)"""
    n, e2 = third(f), S.e2_of(f)
    p = poly
    one = E.ONE
    return {
        "geodetic2parametric": lambda x, h: E.fn("atan", E.mul(E.sub(one, f), E.tan(x))),
        "parametric2geodetic": lambda x, h: E.fn("atan", E.div(E.tan(x), E.sub(one, f))),
        "geodetic2geocentric": lambda x, h: E.fn(
            "atan", E.mul(E.sub(one, E.div(E.mul(e2, S.transverse(x, a, f)), E.add(S.transverse(x, a, f), h))), E.tan(x))
        ),
        "geoc2geod": lambda x, r: E.add(
            x, E.div(E.mul(a, f, E.sin(E.scale(x, 2))), r),
            E.mul(E.sub(E.div(E.mul(a, a), E.mul(r, r)), E.div(a, E.scale(r, 4))), f, f, E.sin(E.scale(x, 4))),
        ),
        "geodetic2isometric": lambda x, h: psi(x, f),
        "conformal2geodetic": lambda x, h: series(x, [
            p(e2, [(1, "1/2"), (2, "5/24"), (3, "1/12"), (4, "13/360")]),
            p(e2, [(2, "7/48"), (3, "29/240"), (4, "811/11520")]),
            p(e2, [(3, "7/120"), (4, "81/1120")]),
            p(e2, [(4, "4279/161280")]),
        ]),
        "geodetic2rectifying": lambda x, h: series(x, [
            p(n, [(1, "-3/2"), (3, "9/16")]), p(n, [(2, "15/16"), (4, "-15/32")]), p(n, [(3, "-35/48")]), p(n, [(4, "315/512")]),
        ]),
        "rectifying2geodetic": lambda x, h: series(x, [
            p(n, [(1, "3/2"), (3, "-27/32")]), p(n, [(2, "21/16"), (4, "-55/32")]), p(n, [(3, "151/96")]), p(n, [(4, "1097/512")]),
        ]),
        "geodetic2authalic": lambda x, h: series(x, [
            p(e2, [(1, "-1/3"), (2, "-31/180"), (3, "-59/560")]), p(e2, [(2, "17/360"), (3, "61/1260")]), p(e2, [(3, "-383/45360")]),
        ]),
        "authalic2geodetic": lambda x, h: series(x, [
            p(e2, [(1, "1/3"), (2, "31/180"), (3, "517/5040")]), p(e2, [(2, "23/360"), (3, "251/3780")]), p(e2, [(3, "761/45360")]),
        ]),
    }


NAMES = [
    "geoc2geod", "geodetic2geocentric", "geocentric2geodetic", "geodetic2isometric", "isometric2geodetic", "conformal2geodetic",
    "geodetic2conformal", "geodetic2rectifying", "rectifying2geodetic", "geodetic2authalic", "authalic2geodetic",
    "geodetic2parametric", "parametric2geodetic",
]
BACK = {
    "geodetic2isometric": "isometric2geodetic", "geodetic2conformal": "conformal2geodetic", "geodetic2rectifying": "rectifying2geodetic",
    "geodetic2authalic": "authalic2geodetic", "geodetic2geocentric": "geocentric2geodetic",
}


def check(ck):
    for fn in NAMES:
        key = f"latitude.{fn}"
        where = ck.where(key)
        for mode in modes_of(key):
            for deg in (True, False):
                n = f"{fn}/{mode}/{'deg' if deg else 'rad'}"
                ck.guarded(n, lambda: one(ck, fn, key, mode, deg, where, n), where)


def call(s, key, vals, ell, deg):
    out = s.call(key, vals, ell=ell, deg=deg)
    if out.definite:
        raise ValueError(f"always raises {out.definite}")
    (_, x), = nodes(out, SIGS[key])
    return E.mul(x, R2D) if deg is False else x


def one(ck, fn, key, mode, deg, where, name):
    s = ck.sess(mode)
    sig = SIGS[key]
    v = symbols(sig)
    a, f, b = S.axes()
    d = dom(ck, sig, "E")
    note = f"({MODE_NAME[mode]})"
    lat_name, *rest = list(v)
    lat = v[lat_name]
    h = v[rest[0]] if rest else E.ZERO
    x = S.rad(lat)
    g = call(s, key, v, "E", deg)
    near = lambda m: Domain({k: ("g" if r == "f" else r) for k, r in d.roles.items()}, seed=ck.seed, keep=lambda w: abs(w[lat_name]) < m)  # noqa: E731
    R = refs(a, f)
    d89 = Domain(d.roles, seed=ck.seed, keep=lambda w: abs(w[lat_name]) < F(8999, 100))
    if fn in R:
        o = {"gen": True} if fn == "geodetic2isometric" else {}
        ck.eq(f"{name}/definition", g, E.mul(R[fn](x, h), R2D), d89 if o else d, where, f"not the published definition {note}", ab=tol("a"), fast=bool(o), **o)
    elif fn == "geodetic2conformal":
        ck.eq(f"{name}/definition", E.sin(S.rad(g)), E.fn("tanh", psi(x, f)), d89, where, f"not the definition sin(chi) = tanh(psi) {note}", ab=1e-11, prove=False, n=20)
    elif fn == "geocentric2geodetic":
        g0 = call(s, key, {**v, rest[0]: E.ZERO}, "E", deg)
        e = E.sub(E.ONE, f)
        ck.eq(f"{name}/definition on the surface", g0, E.mul(E.fn("atan", E.div(E.tan(x), E.mul(e, e))), R2D), d, where, f"not the definition {note}", ab=tol("a"))
    elif fn == "isometric2geodetic":
        chi = E.sub(E.scale(E.fn("atan", E.fn("exp", S.rad(lat))), 2), E.scale(E.PI, F(1, 2)))
        ck.eq(f"{name}/definition", g, E.mul(R["conformal2geodetic"](chi, None), R2D), d, where, f"not the conformal series of gd(psi) {note}", ab=tol("a"))
    if fn == "geodetic2authalic":
        ck.eq(f"{name}/closed form", E.sin(S.rad(g)), E.div(q_auth(E.sin(x), f), q_auth(E.ONE, f)), near(91), where, f"far from the authalic latitude {note}", ab=3e-7, prove=False, n=20, fast=True)
    # odd in latitude
    m = call(s, key, {**v, lat_name: E.neg(lat)}, "E", deg)
    if fn == "geodetic2conformal":
        ck.eq(f"{name}/odd", E.sin(S.rad(m)), E.neg(E.sin(S.rad(g))), d89, where, f"not odd {note}", ab=1e-11, gen=True)
    elif fn == "isometric2geodetic":
        ck.eq(f"{name}/odd", m, E.neg(g), d, where, f"not odd {note}", ab=tol("a"), prove=False)
    else:
        ck.eq(f"{name}/odd", m, E.neg(g), d, where, f"not odd {note}", ab=tol("a"))
    # equator and poles
    z = call(s, key, {**v, lat_name: E.ZERO}, "E", deg)
    ck.eq(f"{name}/equator", z, E.ZERO, d, where, f"equator is not fixed {note}", ab=tol("a"))
    if fn != "isometric2geodetic":
        for sg in (1, -1):
            z = call(s, key, {**v, lat_name: E.q(90 * sg)}, "E", deg)
            w = E.INF if fn == "geodetic2isometric" else E.q(90)
            ck.eq(f"{name}/pole{sg}", z, E.neg(w) if sg < 0 else w, d, where, f"pole {note}", ab=tol("a"))
    # sphere
    o = call(s, key, v, (a, E.ZERO), deg)
    dsp = Domain({k: r for k, r in d.roles.items() if k != "E.f"}, seed=ck.seed, keep=lambda w: abs(w[lat_name]) < F(8999, 100))
    if fn == "geodetic2isometric":
        ck.eq(f"{name}/sphere", o, E.mul(E.fn("asinh", E.tan(x)), R2D), dsp, where, f"on a sphere {note}", ab=tol("a"), gen=True)
    elif fn == "isometric2geodetic":
        ck.eq(f"{name}/sphere", o, E.mul(E.sub(E.scale(E.fn("atan", E.fn("exp", x)), 2), E.scale(E.PI, F(1, 2))), R2D), dsp, where, f"on a sphere {note}", ab=tol("a"))
    elif fn == "geodetic2conformal":
        ck.eq(f"{name}/sphere", E.sin(S.rad(o)), E.sin(x), dsp, where, f"not the identity on a sphere {note}", ab=1e-11, gen=True)
    elif fn in ("geodetic2geocentric", "geocentric2geodetic", "geodetic2parametric", "parametric2geodetic"):
        ck.eq(f"{name}/sphere", E.tan(S.rad(o)), E.tan(x), dsp, where, f"not the identity on a sphere {note}", ab=tol("a"))
    else:
        ck.eq(f"{name}/sphere", o, lat, dsp, where, f"not the identity on a sphere {note}", ab=tol("a"))
    # there and back
    if fn in BACK:
        k2 = f"latitude.{BACK[fn]}"
        p = [q.name for q in SIGS[k2].pars][0]
        vals = {p: g}
        if fn == "geodetic2geocentric":
            vals["alt_m"] = h
        npy = {p} if s.mode == "np0" else set()
        r = s.call(k2, vals, ell="E", deg=True, npy=npy).leaves[0]
        ck.eq(f"{name}/back", r, lat, near(89), where, f"{BACK[fn]} does not undo it {note}", ab=2e-5, prove=False, n=20, fast=True)
