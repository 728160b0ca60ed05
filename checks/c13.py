"""C13: ellipsoid models and derived parameters."""

from fractions import Fraction as F

from checks.c12 import byname
from pms import expr as E
from pms.domain import Domain
from pms.interp import AbsRaise
from pms.values import Ref, Sc

RULE = (
    "the constructor's fields equal the definitions of flattening, third flattening and eccentricity in the two axes; every entry of the model "
    "table carries the published axes; from_name returns exactly the entry asked for"
)
EXPLAIN = (
    "Ellipsoid.__init__ is interpreted on symbolic axes; the model table is what the class body evaluates to abstractly, compared entry by entry with "
    "axes transcribed from the cited publications; from_name is interpreted for every name."
)
PUBLISHED = {
    "maupertuis": (6397300, 6363806.283), "plessis": (6376523, 6355862.9333), "everest1830": (6377299.365, 6356098.359),
    "everest1830m": (6377304.063, 6356103.039), "everest1967": (6377298.556, 6356097.55), "airy": (6377563.396, 6356256.909),
    "bessel": (6377397.155, 6356078.963), "clarke1866": (6378206.4, 6356583.8), "clarke1878": (6378190, 6356456),
    "clarke1860": (6378249.145, 6356514.87), "helmert": (6378200, 6356818.17), "hayford": (6378388, 6356911.946),
    "international1924": (6378388, 6356911.946), "krassovsky1940": (6378245, 6356863.019), "wgs66": (6378145, 6356759.769),
    "australian": (6378160, 6356774.719), "international1967": (6378157.5, 6356772.2), "grs67": (6378160, 6356774.516),
    "sa1969": (6378160, 6356774.719), "wgs72": (6378135, 6356750.52001609), "grs80": (6378137, 6356752.31414036),
    "wgs84": (6378137, 6356752.31424518), "wgs84_mean": (6371008.7714, 6371008.7714), "iers1989": (6378136, 6356751.302),
    "pz90.11": (6378136, 6356751.3618), "iers2003": (6378136.6, 6356751.9), "gsk2011": (6378136.5, 6356751.758),
    "mercury": (2440500, 2438300), "venus": (6051800, 6051800), "moon": (1738100, 1736000), "mars": (3396900, 3376097.80585952),
    "jupiter": (71492000, 66854000), "jupyter": (71492000, 66854000), "io": (1829700, 1815800), "saturn": (60268000, 54364301.5271271),
    "uranus": (25559000, 24973000), "neptune": (24764000, 24341000), "pluto": (1188000, 1188000),
}
# documented accuracy of the entry: metres
SLACK = {"jupiter": 1000, "jupyter": 1000}


def check(ck):
    for mode in ("py", "np0"):
        w = ck.where("ellipsoid.Ellipsoid.__init__")
        ck.guarded(f"constructor/{mode}", lambda: ctor(ck, mode, w), w)
    w = ck.where("ellipsoid.Ellipsoid")
    ck.guarded("models", lambda: table(ck, w), w)


def instance(s, args, kw, st):
    s.I.events, s.I.handlers, st.pend = [], [], []
    s.I.stack = [("pymap3d.ellipsoid", "<entry>", 0)]
    r = s.I.call(s.get("ellipsoid.Ellipsoid"), args, kw, st)
    st.pend = []
    return st.heap[r.oid]


def ctor(ck, mode, where):
    s = ck.sess(mode)
    A, B = E.sym("A", pos=True), E.sym("B", pos=True)
    sc = lambda n: Sc(n, "py", "float")  # noqa: E731
    dm = Domain({"A": "a", "B": "a"}, seed=ck.seed, keep=lambda v: v["A"] >= v["B"] > v["A"] * F(1, 2))
    d = instance(s, [sc(A), sc(B)], {}, s.I.base.clone())
    f = E.div(E.sub(A, B), A)
    want = {
        "semimajor_axis": A, "semiminor_axis": B, "flattening": f,
        "thirdflattening": E.div(E.sub(A, B), E.add(A, B)),
        "eccentricity": E.sqrt(E.sub(E.ONE, E.div(E.mul(B, B), E.mul(A, A)))),
    }
    for k, n in want.items():
        g = d.get(k)
        if not isinstance(g, Sc):
            ck.fact(f"constructor/{mode}/{k}", False, f"field {k} is {g!r}", where)
            continue
        ck.eq(f"constructor/{mode}/{k}", g.node, n, dm, where, f"{k} is not that of the two axes")
    # in the parametrisation by flattening
    F_ = E.sym("F", pos=True, lt=1)
    d = instance(s, [sc(A), sc(E.mul(A, E.sub(E.ONE, F_)))], {}, s.I.base.clone())
    dm = Domain({"A": "a", "F": "f"}, seed=ck.seed)
    for k, n in {"flattening": F_, "thirdflattening": E.div(F_, E.sub(E.q(2), F_)), "eccentricity": E.sqrt(E.mul(F_, E.sub(E.q(2), F_)))}.items():
        ck.eq(f"constructor/{mode}/{k} of b=a(1-f)", d[k].node, n, dm, where, f"{k} is not that of the two axes")
    # keywords and given values
    d = instance(s, [], {"semimajor_axis": sc(A), "semiminor_axis": sc(B), "name": "N", "model": "M", "flattening": sc(E.sym("x", pos=True)), "thirdflattening": sc(E.sym("y")), "eccentricity": sc(E.sym("z"))}, s.I.base.clone())
    for k, n in {"semimajor_axis": A, "semiminor_axis": B, "flattening": E.sym("x"), "thirdflattening": E.sym("y"), "eccentricity": E.sym("z")}.items():
        ck.fact(f"constructor/{mode}/given {k}", isinstance(d.get(k), Sc) and d[k].node is n, f"{k} given to the constructor is not kept: {d.get(k)!r}", where, how="value numbering")
    for k, v in {"name": "N", "model": "M"}.items():
        ck.fact(f"constructor/{mode}/given {k}", text(d.get(k)) == v, f"{k} given to the constructor is not kept: {d.get(k)!r}", where, how="value numbering")
    d = instance(s, [sc(E.q(7)), sc(E.q(6)), "N", "M"], {}, s.I.base.clone())
    for k, v in {"name": "N", "model": "M"}.items():
        ck.fact(f"constructor/{mode}/positional {k}", text(d.get(k)) == v, f"{k} given to the constructor is not kept: {d.get(k)!r}", where, how="value numbering")
    # zero given explicitly is kept
    d = instance(s, [sc(A), sc(B)], {"flattening": sc(E.ZERO)}, s.I.base.clone())
    ck.fact(f"constructor/{mode}/given flattening 0", d["flattening"].node is E.ZERO, "a flattening of 0 given to the constructor is replaced", where, how="value numbering")


def text(v):
    return v if isinstance(v, str) else getattr(getattr(v, "node", None), "a", [None])[0]


def number(v):
    n = getattr(v, "node", None)
    if n is not None:
        return E.val(n) if n.op == "q" else None
    return F(str(v)) if isinstance(v, (int, float)) else None


def table(ck, where):
    s = ck.sess("py")
    st = s.I.base
    cls = s.get("ellipsoid.Ellipsoid")
    models = st.heap[cls.find("models").oid]
    names = [k if isinstance(k, str) else text(k) for k in models]
    for k in PUBLISHED:
        ck.fact(f"models/{k} present", k in names, f"documented model {k!r} is missing", where, how="table lint")
    for k in names:
        e = st.heap[models[k].oid]
        a, b = number(e.get("a")), number(e.get("b"))
        label = text(e.get("name"))
        ck.fact(f"models/{k}/name", isinstance(label, str) and bool(label), f"model {k!r} has no name", where, how="table lint")
        if a is None or b is None:
            ck.fact(f"models/{k}/axes", None, f"axes of {k!r} are not constants", where)
            continue
        ck.fact(f"models/{k}/oblate", a >= b > a * F(4, 5), f"{k}: equatorial axis {float(a)} and polar axis {float(b)}", where, how="table lint")
        if k in PUBLISHED:
            pa, pb = (F(repr(x)) for x in PUBLISHED[k])
            tol = F(SLACK.get(k, F(1, 10**6)))
            ok = abs(a - pa) <= tol and abs(b - pb) <= tol
            n = f"models/{k}/published" if ok else f"models/{k}/published: {float(a)!r}, {float(b)!r}"
            ck.fact(n, ok, f"{k} has axes {float(a)}, {float(b)} m; published {float(pa)}, {float(pb)}", where, how="table lint against published axes")
        for mode in ("py", "np0"):
            ck.guarded(f"from_name/{k}/{mode}", lambda: lookup(ck, k, a, b, label, mode), where)
    for other in ("nosuch", "", "WGS84", "Wgs84", " wgs84", "wgs-84", "earth", "wgs", "jupite"):
        ck.fact(f"from_name/unknown {other!r}", byname(s, other) is not None, f"unknown name {other!r} is not rejected", ck.where("ellipsoid.Ellipsoid.from_name"), how="reachability of raise statements")


def lookup(ck, k, a, b, label, mode):
    s = ck.sess(mode)
    where = ck.where("ellipsoid.Ellipsoid.from_name")
    st = s.I.base.clone()
    s.I.events, s.I.handlers, st.pend = [], [], []
    s.I.stack = [("pymap3d.ellipsoid", "<entry>", 0)]
    cls = s.get("ellipsoid.Ellipsoid")
    try:
        r = s.I.call(s.I.getattr_(cls, "from_name", st), [k], {}, st)
    except AbsRaise as e:
        ck.fact(f"from_name/{k}/{mode}", False, f"from_name({k!r}) raises {e.exc}", where)
        return
    d = st.heap[r.oid]
    got = (number(d["semimajor_axis"]), number(d["semiminor_axis"]), text(d["name"]), text(d["model"]))
    ck.fact(f"from_name/{k}/{mode}", got == (a, b, label, k), f"from_name({k!r}) gives {tuple(map(str, got))}, the table {(str(a), str(b), label, k)}", where, how="value numbering")
    # after looking up another name first: same answer
    other = "mars" if k != "mars" else "venus"
    st = s.I.base.clone()
    s.I.call(s.I.getattr_(cls, "from_name", st), [other], {}, st)
    d = st.heap[s.I.call(s.I.getattr_(cls, "from_name", st), [k], {}, st).oid]
    got = (number(d["semimajor_axis"]), number(d["semiminor_axis"]), text(d["name"]), text(d["model"]))
    ck.fact(f"from_name/{k}/{mode}/after {other}", got == (a, b, label, k), f"after from_name({other!r}), from_name({k!r}) gives {tuple(map(str, got))}", where, how="value numbering")
