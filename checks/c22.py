"""C22: rotations about the axis, full turns and mirror images."""

from fractions import Fraction

from pms import expr as E
from pms.api import ANGLES, FLAGS, SIGS
from pms.common import Domain, roles_of, symbols, tol
from pms.equal import FUEL
from pms.equal import FUEL, prove_eq
from pms.session import D2R, Missing
from pms.values import Sc, Unsupported

RULE = (
    "with f the value number of a result and T a turn of all longitudes, a full turn of one angle, a north-south or an east-west mirror image, f(T inputs) "
    "equals T f(inputs)"
)
EXPLAIN = (
    "Every parameter and result is one of: latitude, longitude, azimuth, Earth-fixed component, east/north/up component, body or track component, invariant. "
    "The function is interpreted on symbols and again on transformed symbols; both value numbers are compared, angles through sine and cosine."
)
SKIP = {
    "eci.eci2ecef", "eci.ecef2eci", "eci.eci2ecef_state", "eci.ecef2eci_state", "aer.eci2aer", "aer.aer2eci", "ecef.eci2geodetic", "ecef.geodetic2eci",
    "lox.meanm",
}
GEN = ("ecef.ecef2geodetic", "lox.", "latitude.", "utils.", "vallado.", "azelradec", "spherical.", "nvector.")
HEAVY = ("karney.", "vincenty.", "rsphere.euler")
TARGET = {
    "ecef": "XYW", "ecefv": "XYW", "uvw": "XYW", "nvector": "XYW", "enu": "enu", "enuv": "enu", "ned": "nei", "nedv": "nei", "sez": "sei", "sezv": "sei",
    "nwu": "nwi", "nwuv": "nwi", "body": "ifi", "bodyv": "ifi", "dca": "ifi", "aer": "zii", "geodetic": "pli", "spherical": "pli",
}
OUT = {
    "haversine.anglesep": "i", "haversine.anglesep_meeus": "i", "karney.geodesic_inverse": "izz", "karney.geodesic_direct": "plz",
    "los.lookAtSpheroid": "pli", "lox.meridian_dist": None, "lox.meridian_arc": None, "lox.loxodrome_inverse": "iz", "lox.loxodrome_direct": "pl",
    "lox.departure": "i", "nvector.nvector_distance": "i", "nvector.nvector_interpolate": "XYW", "nvector.nvector_cross_track_distance": "f",
    "nvector.nvector_intersection": None, "vincenty.vdist": "iz", "vincenty.vreckon": "pl", "vallado.azel2radec": "rp", "azelradec.azel2radec": "rp",
    "vallado.radec2azel": "zi", "azelradec.radec2azel": "zi", "sidereal.datetime2sidereal": "q", "nvector.nvector2geodetic": "pl",
    "utils.cart2sph": "qpi", "utils.sph2cart": "XYW", "utils.cart2pol": "qi", "utils.pol2cart": "XY",
}
FLIPS = {"rot": "", "ns": "pWnsfo", "ew": "lYewfo"}


def code(key, p):
    """what a parameter is"""
    n, r, mod = p.name, p.role, key.split(".")[0]
    if key in ("utils.sph2cart", "utils.pol2cart", "utils.cart2sph", "utils.cart2pol"):
        return {"az": "q", "theta": "q", "el": "p", "r": "i", "rho": "i", "x": "X", "y": "Y", "z": "W"}[n]
    if key.startswith("sidereal"):
        return "q" if r == "A" else "i"
    if n == "ra_deg":
        return "r"
    if n == "dec_deg":
        return "p"
    if r in "PQ":
        return "p"
    if r == "L":
        return "l"
    if r == "Z":
        return "o" if n == "roll" else "z"
    if r == "c":
        return {"x": "X", "y": "Y", "z": "W"}[n]
    if r == "n":
        return "XYW"[int(n[-1]) - 1]
    if r == "m":
        f = key.split(".")[1]
        if f in ("ecef2enuv", "uvw2enu"):
            return {"u": "X", "v": "Y", "w": "W"}[n]
        if n in ("x", "y", "z") and f.startswith("ecef2"):
            return {"x": "X", "y": "Y", "z": "W"}[n]
        if n in ("cr", "yb"):
            return "f"
        k = {"e": "e", "east": "e", "e1": "e", "n": "n", "north": "n", "n1": "n", "s": "s"}.get(n)
        if n == "w":
            return "w"
        return k or "i"
    del mod
    return "i"


def outs(key):
    if key in OUT:
        return OUT[key]
    f = key.split(".")[1]
    if key.startswith("latitude") or f == "geoc2geod":
        return "p"
    if key.startswith(("rcurve", "rsphere")):
        return "i"
    if f.endswith("_matrix"):
        return None
    return TARGET.get(f.split("2")[-1])


def move(op, c, n, delta):
    """the transformed value (degrees) of a parameter or result other than Earth-fixed components under a turn"""
    if op == "rot":
        return E.add(n, delta) if c in "lqr" else n
    if c == "z":
        return E.sub(E.q(180), n) if op == "ns" else E.neg(n)
    return E.neg(n) if c in FLIPS[op] else n


def triples(cs):
    """positions of Earth-fixed components belonging together"""
    xs = [i for i, c in enumerate(cs) if c == "X"]
    return [(i, i + 1) for i in xs]


def transformed(op, codes, vals, delta, rad=False):
    d = E.mul(delta, D2R)
    new = [move(op, c, v, d if rad and c in "qlr" else delta) for c, v in zip(codes, vals)]
    if op == "rot":
        for i, j in triples(codes):
            c, s = E.cos(d), E.sin(d)
            new[i] = E.sub(E.mul(c, vals[i]), E.mul(s, vals[j]))
            new[j] = E.add(E.mul(s, vals[i]), E.mul(c, vals[j]))
    return new


def check(ck):
    for key in SIGS:
        if key in SKIP:
            continue
        sig = SIGS[key]
        oc = outs(key)
        if oc is None or not sig.numeric:
            continue
        where = ck.where(key)
        for op in ("rot", "ns", "ew"):
            if op == "ew" and ("radec" in key or key.startswith("sidereal")) or op == "ns" and key.startswith("sidereal"):
                continue
            if op == "rot" and not any(code(key, p) in "XlqrY" for p in sig.numeric):
                continue
            if key.startswith("utils") and op != "rot" and not key.endswith(("sph", "sph2cart")):
                continue
            if key.startswith("utils") and op == "ew":
                continue
            n = f"{key}/{NAME[op]}"
            ck.guarded(n, lambda: one(ck, key, sig, oc, op, where, n), where)
        ck.guarded(f"{key}/turns", lambda: turns(ck, key, sig, oc, where, f"{key}/turns"), where)


NAME = {"rot": "turned", "ns": "mirrored north-south", "ew": "mirrored east-west"}


def even(*keys):
    """ecef2geodetic as a function of the distance from the axis; what C22 shows for it is used for those built on it"""
    from pms.values import Arr, Builtin, Func

    def f(I, args, kw, st):
        d = dict(zip(("x", "y", "z", "ell", "deg"), args))
        d.update(kw)
        x, y, z = (d[k] for k in "xyz")
        if not all(isinstance(v, Sc) for v in (x, y, z)):
            raise Unsupported("arrays")
        ell = d.get("ell")
        h = st.heap[ell.oid] if ell is not None else None
        deg = d.get("deg")
        if deg is not None and deg.node not in (E.TRUE, E.FALSE):
            raise Unsupported("unit not known")
        dg = deg is None or deg.node is E.TRUE
        ax = [h["semimajor_axis"].node, h["semiminor_axis"].node] if h else []
        rho = E.add(E.mul(x.node, x.node), E.mul(y.node, y.node))
        zz = E.mul(z.node, z.node)
        # odd in z
        lat = E.mul(z.node, E.fn("LAT", rho, zz, *ax))
        alt = E.fn("ALT", rho, zz, *ax)
        lon = E.atan2(y.node, x.node)
        k = "np" if I.cfg.numpy else "py"
        out = [lat, lon]
        if dg:
            out = [E.div(lat, D2R), E.div(lon, D2R)]
        return tuple(Sc(v, k, "float") for v in (*out, alt))

    return {("pymap3d.ecef", "ecef2geodetic"): lambda I, st, v: Builtin(v.name, f) if isinstance(v, Func) else v}


EVEN = even()


def domain(ck, sig, key, ell, **more):
    roles = {**roles_of(sig, *(["E"] if ell else [])), **more}
    lats = [p.name for p in sig.numeric if p.role == "P"]
    lons = [p.name for p in sig.numeric if p.role == "L"]
    cs = [[n for n, r in roles.items() if r == k] for k in "cn"]
    loc = [p.name for p in sig.numeric if p.role == "m"]
    els = [p.name for p in sig.numeric if p.role == "V"]

    def keep(v):
        # poles, the axis, the zenith and coincident or opposite points have no longitude or azimuth
        if any(abs(v[x]) > 89 for x in lats) or any(abs(v[x]) > 89 for x in els):
            return False
        for c in cs:
            for i in range(0, len(c), 3):
                x, y, z = (v[k] for k in c[i : i + 3])
                if x * x + y * y <= abs(z) / 10**4 * abs(z) / 10**4:
                    return False
        if loc and sum(abs(v[x]) for x in loc) < 1 or len(loc) >= 3 and abs(v[loc[0]]) + abs(v[loc[1]]) < 1 or len(loc) >= 3 and abs(v[loc[1]]) + abs(v[loc[2]]) < 1:
            return False
        if len(lats) == 2 and len(lons) == 2:
            a = (v[lons[0]] - v[lons[1]]) % 180
            if min(a, 180 - a) < 1 or abs(v[lats[0]]) < 1 and abs(v[lats[1]]) < 1:
                return False
        if "tilt" in v and v["tilt"] < 1:
            return False
        if "radius" in v and v["radius"] <= 0 or "rho" in v and v["rho"] <= 0 or "r" in v and v["r"] <= 0 or any(v[k] <= 0 for k in ("srange", "slantRange", "rng") if k in v):
            return False
        if len(cs[1]) >= 6:
            p, q = [v[k] for k in cs[1][:3]], [v[k] for k in cs[1][3:6]]
            if abs(sum(a * b for a, b in zip(p, q))) > 0.99:
                return False
        return True

    return Domain(roles, seed=ck.seed, keep=keep)


def call(s, key, sig, names, vals, ell):
    v = symbols(sig)
    v.update(zip(names, vals))
    return s.call(key, v, ell=ell, deg=True if sig.has("deg") else None)


def same(ck, n, key, oc, a, b, d, where, detail, lemma=None, heavy=False):
    """a: value numbers expected, b: those found"""
    for i, c in enumerate(oc):
        x, y = a[i], b[i]
        if lemma:
            FUEL.start(1_000_000, 3)
            try:
                how = lemma(i)
            except (Unsupported, Missing, ValueError, AttributeError, KeyError, TypeError):
                how = None
            finally:
                FUEL.start(1 << 60, 1e9)
            if how:
                ck.fact(f"{n}/{i}", True, detail, where, how=how)
                continue
        kw = dict(fast=heavy, prove=not heavy, secs=8, gen=key.startswith(GEN), **(dict(n=6) if heavy and ck.tier == "quick" else {}))
        if c in "lzrq":
            if c != "q":
                x, y = E.mul(x, D2R), E.mul(y, D2R)
            if heavy:
                ck.eq(f"{n}/{i}", E.sin(E.scale(E.sub(y, x), Fraction(1, 2))), E.ZERO, d, where, detail, ab=tol("1"), **kw)
                continue
            ck.eq(f"{n}/{i} cos", E.cos(y), E.cos(x), d, where, detail, ab=tol("1"), **kw)
            ck.eq(f"{n}/{i} sin", E.sin(y), E.sin(x), d, where, detail, ab=tol("1"), **kw)
        else:
            role = dict(p="a", f="l", i="l", X="l", Y="l", W="l").get(c, "l")
            if key.startswith("nvector"):
                role = "l" if key.endswith(("distance", "ecef")) else "1"
            ck.eq(f"{n}/{i}", y, x, d, where, detail, ab=tol(role), rel=10**-8, **kw)


def one(ck, key, sig, oc, op, where, n):
    ell = "E" if sig.has("ell") else None
    s = ck.sess("py")
    pars = [p for p in sig.numeric if p.role not in "ts"]
    names = [p.name for p in pars]
    codes = [code(key, p) for p in pars]
    v = symbols(sig)
    delta = E.sym("turn")
    rad = key.startswith(("utils", "sidereal"))
    here = [v[k] for k in names]
    there = transformed(op, codes, here, delta, rad)

    def both(s):
        o = call(s, key, sig, names, here, ell)
        if o.definite:
            raise ValueError(f"always raises {o.definite}")
        t = call(s, key, sig, names, there, ell)
        if t.definite:
            raise ValueError(f"always raises {t.definite}")
        return transformed(op, oc, o.leaves, delta, rad), t.leaves

    a, b = both(s)
    if len(a) != len(oc):
        raise ValueError(f"{len(a)} results instead of {len(oc)}")
    got = {}

    def lemma(i):
        if key == "ecef.ecef2geodetic" or key.startswith(HEAVY):
            return None
        if not got:
            got["v"] = both(ck.sess("py", overrides=EVEN))
        x, y = got["v"][0][i], got["v"][1][i]
        if oc[i] in "lzrq":
            if oc[i] != "q":
                x, y = E.mul(x, D2R), E.mul(y, D2R)
            ok = prove_eq(E.cos(x), E.cos(y), 5) and prove_eq(E.sin(x), E.sin(y), 5)
        else:
            ok = prove_eq(x, y, 5)
        return ok and "normal forms equal given the same for ecef2geodetic"

    d = domain(ck, sig, key, ell, **({"turn": "L"} if op == "rot" else {}))
    same(ck, n, key, oc, a, b, d, where, f"not the image of the result when the input is {NAME[op]}", lemma, key.startswith(HEAVY))


def turns(ck, key, sig, oc, where, n):
    """a full turn more or less in one longitude or azimuth"""
    ell = "E" if sig.has("ell") else None
    s = ck.sess("py")
    pars = [p for p in sig.numeric if p.role not in "ts"]
    names = [p.name for p in pars]
    v = symbols(sig)
    o = call(s, key, sig, names, [v[k] for k in names], ell)
    if o.definite:
        raise ValueError(f"always raises {o.definite}")
    for p in pars:
        if code(key, p) not in "lzoqr":
            continue
        for k in (1, -1):
            turn = E.q(360 * k) if p.role != "A" else E.mul(E.q(2 * k), E.PI)
            t = call(s, key, sig, names, [E.add(v[x], turn) if x == p.name else v[x] for x in names], ell)
            if t.definite:
                raise ValueError(f"always raises {t.definite}")
            d = domain(ck, sig, key, ell)
            same(ck, f"{n} {p.name} {k:+d}", key, oc, o.leaves, t.leaves, d, where, f"{'adding' if k > 0 else 'subtracting'} a full turn to {p.name} changes the result", None, key.startswith(HEAVY))
