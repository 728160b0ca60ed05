"""C21: lengths scale."""

from fractions import Fraction as F

from mpmath import mpf

from pms import expr as E
from pms.api import SIGS
from pms.common import MODE_NAME, dom, modes_of, nodes, opaque, symbols
from pms.dims import ANY, Dims, closeness, split
from pms.values import Sc

RULE = (
    "in the value number of every result all terms of a sum, all branches of a choice, both arguments of an arctangent and both sides of a comparison carry one power of length, "
    "transcendental functions none, and the result the power its meaning demands; where that typing fails, values for the inputs and the inputs in another unit are separated by intervals"
)
EXPLAIN = (
    "Every public function is interpreted on symbols with a symbolic ellipsoid (also as default ellipsoid); lengths are given dimension 1, angles, instants and components of unit vectors 0, "
    "and dimensions are inferred over the value numbers of the results, loop variables by iteration."
)
LENGTH = {"c": 1, "h": 1, "m": 1, "r": 1, "R": 1, "v": 1}
RESULT = {"l": 1, "v": 1}
K = F(1000)
SPECIAL = {
    "equator": {"lat1": E.ZERO, "lat2": E.ZERO},
    "meridian": {"lon1": E.q(20), "lon2": E.q(20)},
    "pole to pole": {"lat1": E.q(-90), "lat2": E.q(90)},
}
NUMPY_ONLY = {"vincenty.track2", "lox.meanm"}
A, FL = E.sym("E.a", pos=True), E.sym("E.f", pos=True, lt=1)


def given(sig):
    d = {p.name: F(LENGTH.get(p.role, 0)) for p in sig.pars}
    d["E.a"] = F(1)
    return d


def check(ck):
    for key in SIGS:
        sig = SIGS[key]
        where = ck.where(key)
        for mode in modes_of(key):
            if key == "vincenty.track2" or (key in NUMPY_ONLY and mode != "arr"):
                continue
            for deg in (True, False) if sig.has("deg") else (None,):
                for ell in ("E", None) if sig.has("ell") else (None,):
                    n = f"{key}/{mode}" + ("/rad" if deg is False else "") + ("/default ellipsoid" if sig.has("ell") and ell is None else "")
                    ck.guarded(n, lambda: one(ck, key, mode, deg, ell, n), where)


    for mode in ("py", "np0"):
        for what, at in SPECIAL.items():
            for key in ("karney.geodesic_inverse", "vincenty.vdist"):
                ck.guarded(f"{key}/{mode}/{what}", lambda: one(ck, key, mode, True, "E", f"{key}/{mode}/{what}", at), ck.where(key))
        ck.guarded(f"karney.geodesic_area/{mode}", lambda: area(ck, mode), ck.where("karney.geodesic_area"))
        ck.guarded(f"karney.geodesic_line/{mode}", lambda: line(ck, mode), ck.where("karney.geodesic_line"))
    ck.guarded("vincenty.track2", lambda: track2(ck), ck.where("vincenty.track2"))
    ck.guarded("ellipsoid", lambda: derived(ck), ck.where("ellipsoid.Ellipsoid.__init__"))


def signatures(*keys):
    d = {}
    for k in keys:
        sig = SIGS[k]
        want = []
        for p in sig.pars:
            want += [F(1), F(1)] if p.role == "ell" else [] if p.role == "deg" else [F(LENGTH.get(p.role, 0))]
        for nm, r in sig.outs:
            d[f"{k}.{nm}"] = (want, F(RESULT.get(r, 0)))
    return d


INNER = ("karney.geodesic_inverse", "karney.geodesic_direct", "vincenty.vdist", "vincenty.vreckon")
STUB = opaque(*INNER)


def typed(ck, n, node, dim, where, given_, what):
    Dims.sigs = signatures(*INNER)
    try:
        got, mix, tests = split(given_, node)
    finally:
        Dims.sigs = {}
    hard = [t for t in set(tests) if not closeness(t, given_)]
    if got in (ANY, dim) and not hard:
        ck.record(n, "proved", "", where, how="dimensions inferred over the value number, distance and azimuth typed by their signatures")
        return
    why = "; ".join(sorted({x for _, x in mix}))[:200] or f"length**{got}"
    if isinstance(got, F) and not hard:
        ck.record(n, "refuted", f"{what} is length**{got}, not length**{dim}", where, how="dimension inferred over the value number")
    else:
        ck.record(n, "unknown", f"not homogeneous: {why}", where)


def area(ck, mode):
    where = ck.where("karney.geodesic_area")
    s = ck.sess(mode, overrides=STUB)
    for deg in (True, False):
        for m in (3, 4):
            st = s.I.base.clone()
            ell = s.ellipsoid(st, "E")
            pts = [tuple(Sc(E.sym(f"{w}{i}"), "py", "float") for i in range(m)) for w in ("lat", "lon")]
            o = s.run("karney.geodesic_area", pts, {"ell": ell, "deg": Sc(E.TRUE if deg else E.FALSE, "py", "bool")}, st)
            for nm, g, dim in zip(("area", "perimeter"), o.leaves, (2, 1)):
                typed(ck, f"karney.geodesic_area/{mode}/{m} vertices{'' if deg else '/rad'}/{nm}", g, F(dim), where, {"E.a": F(1)}, f"the {nm}")


def line(ck, mode):
    where = ck.where("karney.geodesic_line")
    s = ck.sess(mode, overrides=STUB)
    for npts in (2, 3):
        st = s.I.base.clone()
        ell = s.ellipsoid(st, "E")
        a = [Sc(E.sym(k), "py", "float") for k in ("lat1", "lon1", "lat2", "lon2")]
        o = s.run("karney.geodesic_line", a, {"ell": ell, "npts": Sc(E.q(npts), "py", "int")}, st)
        for i, g in enumerate(o.leaves):
            typed(ck, f"karney.geodesic_line/{mode}/{npts} points/{i}", g, F(0), where, {"E.a": F(1)}, "a coordinate")


def track2(ck):
    where = ck.where("vincenty.track2")
    s = ck.sess("np0", overrides=STUB)
    sig = SIGS["vincenty.track2"]
    for npts in (2, 3, 4):
        o = s.call("vincenty.track2", symbols(sig), ell="E", deg=True, extra={"npts": Sc(E.q(npts), "py", "int")})
        if o.definite:
            ck.fact(f"vincenty.track2/{npts} points", False, f"always raises {o.definite}", where)
            continue
        for i, g in enumerate(o.leaves):
            typed(ck, f"vincenty.track2/{npts} points/{i}", g, F(0), where, {"E.a": F(1)}, "a coordinate")


DERIVED = {"semimajor_axis": 1, "semiminor_axis": 1, "flattening": 0, "thirdflattening": 0, "eccentricity": 0}


def derived(ck):
    where = ck.where("ellipsoid.Ellipsoid.__init__")
    s = ck.sess("py")
    st = s.I.base.clone()
    r = s.I.run(s.get("ellipsoid.Ellipsoid"), [Sc(E.sym("A", pos=True), "py", "float"), Sc(E.sym("B", pos=True), "py", "float")], {}, st)
    h = r.state.heap[r.value.oid]
    for k, dim in DERIVED.items():
        if isinstance(h.get(k), Sc):
            typed(ck, f"ellipsoid/{k}", h[k].node, F(dim), where, {"A": F(1), "B": F(1)}, k)


def one(ck, key, mode, deg, ell, n, at=None):
    sig = SIGS[key]
    where = ck.where(key)
    s = ck.sess(mode) if ell else ck.sess(mode, wgs=(A, FL))
    o = s.call(key, {**symbols(sig), **(at or {})}, ell=ell, deg=deg)
    if o.definite:
        ck.fact(n, False, f"every call raises {o.definite}", where)
        return
    scaled = None
    for i, ((nm, r), g) in enumerate(nodes(o, sig)):
        m = f"{n}/{nm}"
        if not ck.wants(m):
            continue
        dim = F(RESULT.get(r, 0))
        gv = given(sig)
        got, mix, tests = split(gv, g)
        hard = [t for t in set(tests) if not closeness(t, gv)]
        if got in (ANY, dim) and not hard:
            how = "dimensions inferred over the value number"
            ck.record(m, "proved", "", where, how=how if not tests else how + "; closeness tests with a tolerance of at most 1 mm allowed")
            continue
        if scaled is None:
            scaled = nodes(rescaled(ck, key, mode, deg, ell, at), sig)
        w = E.mul(scaled[i][1], E.power(E.q(K), -dim)) if dim else scaled[i][1]
        why = "; ".join(sorted({x for _, x in mix}))[:200] or f"length**{got}"
        # the tolerance is that of the documented closeness tests (a millimetre, a nanoradian)
        what = f"{nm} is not a length**{dim} ({why}): in kilometres it is another {nm} ({MODE_NAME[mode]})"
        ok = ck.eq(m, g, w, dom(ck, sig, "E"), where, what, rel=mpf(10) ** -7, ab=mpf("0.004") if dim else mpf(10) ** -6, prove=False, n=60, record=False)
        if ok == "unknown":
            how = f"not homogeneous: {why}; conditions that compare a length with a number: {len(hard)}; not separated"
            ck.record(m, "unknown", how, where)


def rescaled(ck, key, mode, deg, ell, at=None):
    """the same call with all lengths given in a unit K times smaller"""
    sig = SIGS[key]
    v = symbols(sig)
    for p in sig.pars:
        if LENGTH.get(p.role):
            v[p.name] = E.scale(v[p.name], K)
    v.update(at or {})
    ka = E.scale(A, K)
    if ell:
        return ck.sess(mode).call(key, v, ell=(ka, FL), deg=deg)
    return ck.sess(mode, wgs=(ka, FL)).call(key, v, ell=None, deg=deg)
