"""C24: sky directions and angular separations."""

from fractions import Fraction as F

from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.common import MODE_NAME, dom, modes_of, symbols, tol
from pms.domain import Domain
from pms.equal import prove_eq
from pms.values import Opq, Sc

RULE = (
    "declination and elevation equal the inverse sine, hour angle and azimuth the arctangent, of the other direction's unit vector turned by the latitude; right ascension is "
    "sidereal time of that place and time minus hour angle; no quotient vanishes at the poles, the zenith or the celestial poles; separation equals the angle between unit vectors"
)
EXPLAIN = (
    "The conversions are interpreted with a symbolic instant, place and direction and compared, with the local sidereal time taken from datetime2sidereal; "
    "latitudes, elevations and declinations of exactly 90 degrees are also substituted before the interpretation."
)
R2D = E.div(E.q(180), E.PI)
TURN = E.q(360)


def check(ck):
    for key in ("vallado.azel2radec", "vallado.radec2azel", "azelradec.azel2radec", "azelradec.radec2azel"):
        for mode in ("py", "np0", "arr"):
            n = f"{key}/{mode}"
            ck.guarded(n, lambda: sky(ck, key, mode, n), ck.where(key))
        ck.guarded(f"{key}/astropy declined", lambda: sky(ck, key, "np0", f"{key}/astropy declined", True), ck.where(key))
        ck.guarded(f"{key}/refuses", lambda: outside(ck, key), ck.where(key))
    for key in ("haversine.anglesep_meeus", "haversine.anglesep"):
        for mode in modes_of(key):
            for deg in (True, False):
                n = f"{key}/{mode}/{'deg' if deg else 'rad'}"
                ck.guarded(n, lambda: separation(ck, key, mode, deg, n), ck.where(key))
    for mode in ("py", "np0", "arr"):
        ck.guarded(f"haversine.haversine/{mode}", lambda: hav(ck, mode), ck.where("haversine.haversine"))


# ---------------------------------------------------------------- horizontal and equatorial
CASES = [{}, {"lat_deg": 90}, {"lat_deg": -90}, {"V": 90}, {"V": -90}, {"lat_deg": 90, "V": 90}, {"A": 0}, {"A": 180}]


def sky(ck, key, mode, n, declined=False):
    s = ck.sess(mode, **({"astropy": True} if declined else {}))
    sig = SIGS[key]
    where = ck.where(key)
    a2r = key.endswith("azel2radec")
    first, second = [p.name for p in sig.pars][:2]
    U = E.sym("U")
    t = Opq(E.ofn("epochtime", U), "time")
    for case in CASES:
        v = symbols(sig)
        v["time"] = t
        fixed = {}
        for k, x in case.items():
            nm = {"A": first, "V": second}.get(k, k)
            v[nm] = E.q(x)
            fixed[nm] = x
        m = n + "".join(f"/{ {'A': first, 'V': second}.get(k, k) }={x}" for k, x in case.items())
        kw = {"force_non_astropy": Sc(E.TRUE, "py", "bool")} if declined and key.startswith("azel") else {}
        o = s.call(key, v, scalar=("lat_deg", "lon_deg"), kw=kw)
        if o.definite:
            ck.fact(m, False, f"always raises {o.definite}", where)
            continue
        if len(o.leaves) != 2:
            ck.fact(m, False, f"{len(o.leaves)} results instead of 2", where)
            continue
        lst = s.run("sidereal.datetime2sidereal", [t, Sc(S.rad(v.lon_deg), "py", "float")], {"delta_ut1": Sc(v.delta_ut1, "py", "float")} | ({"force_non_astropy": Sc(E.TRUE, "py", "bool")} if declined else {})).leaves[0]
        la = S.rad(v.lat_deg)
        A, V = S.rad(v[first]), S.rad(v[second])
        if not a2r:
            A = E.sub(lst, A)  # hour angle
        y = E.neg(E.mul(E.sin(A), E.cos(V)))
        x = E.sub(E.mul(E.sin(V), E.cos(la)), E.mul(E.cos(V), E.sin(la), E.cos(A)))
        z = E.add(E.mul(E.sin(V), E.sin(la)), E.mul(E.cos(V), E.cos(la), E.cos(A)))
        ang = E.atan2(y, x)
        want = E.mod(E.mul(E.sub(lst, ang) if a2r else ang, R2D), TURN)
        up = E.mul(E.fn("asin", z), R2D)
        roles = {**dom(ck, sig).roles, "U": "U"}
        d = Domain(roles, seed=ck.seed, fix=fixed)
        note = f"({MODE_NAME[mode]}{', NumPy and Astropy loaded but declined' if declined else ''})"
        what = ("right ascension", "declination") if a2r else ("azimuth", "elevation")
        ck.eq(f"{m}/{what[1]}", unclamped(o.leaves[1]), up, d, where, f"is not the {what[1]} of the direction {note}", ab=tol("a"))
        if not overhead(case, a2r):  # no azimuth at the zenith
            ck.eq(f"{m}/{what[0]}", unclamped(o.leaves[0]), want, d, where, f"is not the {what[0]} of the direction {note}", ab=tol("a"))


def overhead(case, a2r):
    return abs(case.get("V", 0)) == 90 and abs(case.get("lat_deg", 0)) == 90


def outside(ck, key):
    """latitudes beyond the poles are refused, others are not"""
    s = ck.sess("py")
    where = ck.where(key)
    x = E.sym("lat_deg")
    o = s.call(key, {"lat_deg": x, "time": Opq(E.ofn("epochtime", E.sym("U")), "time")})
    g = E.or_(*[c for c, e in o.raises if e.name == "ValueError"]) if o.raises else E.FALSE
    d = Domain({**dom(ck, SIGS[key]).roles, "lat_deg": "p"}, seed=ck.seed)
    ck.eq(f"{key}/refuses", g, E.cmp("<", E.q(90), E.abs_(x)), d, where, "does not refuse exactly the latitudes beyond the poles", fast=True)


def unclamped(n):
    """limits at one and minus one on a sine do not change it"""

    def f(m, mp):
        if m.op == "fn" and m.a[0] in ("min", "max"):
            ks = [mp[k] for k in m.a[1:]]
            vs = [k for k in ks if k.op != "q"]
            if len(vs) == 1 and all(abs(E.val(k)) == 1 for k in ks if k.op == "q") and sine(vs[0]):
                return vs[0]
        return None

    return E.rewrite(n, f)


def sine(n):
    """sin a sin b + cos a cos b cos c: at most one in size"""
    sg = E.neg(n) if n.op == "lin" and len(n.a[1]) == 1 else n
    return n.op == "lin" and all(abs(k) == 1 for _, k in n.a[1]) and not n.a[0] and len(n.a[1]) <= 2 or n.op in ("fn", "mul") or sg is not n and sine(sg)


# ---------------------------------------------------------------- separation
def separation(ck, key, mode, deg, n):
    s = ck.sess(mode)
    sig = SIGS[key]
    where = ck.where(key)
    o = s.call(key, {}, deg=deg)
    if o.definite:
        return ck.fact(n, False, f"always raises {o.definite}", where)
    v = symbols(sig)
    p, q, dl = S.rad(v.lat0), S.rad(v.lat1), S.rad(E.sub(v.lon0, v.lon1))
    dot = E.add(E.mul(E.sin(p), E.sin(q)), E.mul(E.cos(p), E.cos(q), E.cos(dl)))
    k = R2D if deg else E.ONE
    want = E.mul(E.q(2), E.fn("asin", E.sqrt(E.mul(E.sub(E.ONE, dot), E.q(F(1, 2))))), k)
    u, w = S.enu_rows(p, S.rad(v.lon0))[2], S.enu_rows(q, S.rad(v.lon1))[2]
    c = [E.sub(E.mul(u[(i + 1) % 3], w[(i + 2) % 3]), E.mul(u[(i + 2) % 3], w[(i + 1) % 3])) for i in range(3)]
    ref = E.mul(E.atan2(E.hypot(*c), E.add(*[E.mul(a, b) for a, b in zip(u, w)])), k)
    got = o.leaves[0]
    ck.eq(n, got, ref, dom(ck, sig), where, f"is not the angle between the directions ({MODE_NAME[mode]})", ab=tol("a"), prove=False, fast=True,
          lemma=lambda: "the inverse haversine of half of one minus the scalar product" if prove_eq(got, want, 0) else None)


def hav(ck, mode):
    s = ck.sess(mode)
    where = ck.where("haversine.haversine")
    st = s.I.base.clone()
    t = E.sym("theta")
    o = s.run("haversine.haversine", [s.num(st, t)], st=st)
    ck.eq(f"haversine.haversine/{mode}", o.leaves[0], E.mul(E.sub(E.ONE, E.cos(t)), E.q(F(1, 2))), Domain({"theta": "A"}, seed=ck.seed), where, "is not half of one minus the cosine")
