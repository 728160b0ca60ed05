"""C11: the same results with and without NumPy."""

from fractions import Fraction

from pms import expr as E
from pms.api import SIGS
from pms.common import ROT, ROTSYMS, Domain, dom, opaque, tol
from pms.session import Missing
from pms.values import Opq, Sc, Unsupported

RULE = (
    "every documented function that takes plain numbers, loaded without NumPy, reaches no name that only NumPy's import binds, returns results of the same "
    "number and value numbers as loaded with NumPy, and raises documented exceptions under the same path conditions"
)
EXPLAIN = (
    "The package is loaded twice in the abstract: names bound under 'try: import numpy' take their fallbacks in one of them.  Each function is interpreted on "
    "Python floats in both, and results and the guards of explicit raises are compared as functions of the inputs."
)
# documented to need NumPy
NUMPY_ONLY = {"vincenty.track2", "lox.meanm"}
ECI = {"aer.eci2aer", "aer.aer2eci", "ecef.eci2geodetic", "ecef.geodetic2eci"}


def check(ck):
    for key in SIGS:
        if key in NUMPY_ONLY:
            continue
        where = ck.where(key)
        for deg in (True, False) if SIGS[key].has("deg") else (None,):
            n = f"{key}/{'rad' if deg is False else 'deg'}"
            ck.guarded(n, lambda: same(ck, key, deg, where, n), where)
    for key, make in LISTS.items():
        for deg in (True, False) if key.startswith("karney") else (None,):
            n = f"{key}/{'rad' if deg is False else 'deg'}/list"
            ck.guarded(n, lambda: plain(ck, key, make, deg, n), ck.where(key))
    for key, make in TIMES.items():
        ck.guarded(key, lambda: plain(ck, key, make, None, key), ck.where(key))
    ck.guarded("mathfun", lambda: mathfun(ck))


def runs(ck, n, a, b, where):
    """neither configuration stops where the other goes on"""
    if bool(a.definite) != bool(b.definite):
        who, e = ("without", a.definite) if a.definite else ("with", b.definite)
        ck.fact(n + "/runs", False, f"{who} NumPy the call always raises {e}", where, how="reachability of raise statements and unbound names")
        return False
    if a.definite:
        raise ValueError(f"always raises {a.definite}")
    ea, eb = {str(x.name) for _, x in a.raises}, {str(x.name) for _, x in b.raises}
    ck.fact(n + "/exceptions", ea <= eb or None, f"raises {sorted(ea - eb)} only without NumPy", where, how="reachable raise statements of both configurations")
    ok = len(a.leaves) == len(b.leaves)
    ck.fact(n + "/shape", ok, f"{len(a.leaves)} results without NumPy, {len(b.leaves)} with it", where, how="shape of the abstract result")
    return ok


def same(ck, key, deg, where, n):
    sig = SIGS[key]
    ell = "E" if sig.has("ell") else None
    ov = ROT if key in ECI or key.startswith("eci.") else None
    ex = {}
    a = ck.sess("py", overrides=ov).call(key, ell=ell, deg=deg, extra=ex)
    b = ck.sess("np0", overrides=ov).call(key, ell=ell, deg=deg, extra=ex)
    if not runs(ck, n, a, b, where):
        return
    d = dom(ck, sig, *(["E"] if ell else []), **(ROTSYMS if ov else {}))
    outs = sig.outs if len(sig.outs) == len(a.leaves) else [("m", "1")] * len(a.leaves)
    ok = by_lemma(ck, key, deg, ell)
    for i, ((o, r), x, y) in enumerate(zip(outs, a.leaves, b.leaves)):
        if i in ok:
            ck.fact(f"{n}/{o}{i}", True, "", where, how="same value number with the primitive conversions as unknown functions")
            continue
        if x.sort != "r" or y.sort != "r":
            ck.fact(f"{n}/{o}{i}", x is y or None, "not a number", where, how="same value number")
            continue
        equal(ck, f"{n}/{o}{i}", x, y, d, where, "the result without NumPy differs from the one with NumPy", ab=tol(r), gen=True, fast=deg is False or key.startswith(HEAVY))
    guards(ck, n, a, b, d, where)


def plainly(n):
    """roots and signs written out, as the fallbacks do"""

    def f(x, mp):
        if x.op == "fn" and x.a[0] == "cbrt":
            return E.fn("copysign", E.power(E.abs_(mp[x.a[1]]), Fraction(1, 3)), mp[x.a[1]])
        if x.op == "fn" and x.a[0] == "sign":
            y = mp[x.a[1]]
            return E.ite(E.cmp("<", y, E.ZERO), E.q(-1), E.ite(E.cmp("<", E.ZERO, y), E.ONE, E.ZERO))
        return None

    return E.rewrite(n, f)


def equal(ck, n, x, y, d, where, detail, **kw):
    if x is not y:
        u, v = plainly(x), plainly(y)
        if u is v:
            return ck.fact(n, True, detail, where, how="same value number with roots and signs written out")
    return ck.eq(n, x, y, d, where, detail, **kw)


# what other functions are built from; each is compared on its own
BASE = ("ecef.ecef2geodetic", "ecef.geodetic2ecef", "vincenty.vdist")
HEAVY = ("vincenty.", "rsphere.euler")


def by_lemma(ck, key, deg, ell):
    """results that agree whatever functions the primitives are"""
    try:
        ov = {**opaque(*[k for k in BASE if k != key]), **ROT}
        a, b = (LEMMA.setdefault((m, key if key in BASE else ""), ov) for m in ("py", "np0"))
        a = ck.sess("py", overrides=a).call(key, ell=ell, deg=deg)
        b = ck.sess("np0", overrides=b).call(key, ell=ell, deg=deg)
        if a.definite or b.definite or len(a.leaves) != len(b.leaves):
            return ()
        return [i for i, (x, y) in enumerate(zip(a.leaves, b.leaves)) if x is y]
    except (Missing, Unsupported, KeyError, ValueError, TypeError, AttributeError):
        return ()


LEMMA = {}


def guards(ck, n, a, b, d, where):
    """explicit errors under the same conditions"""
    cond = lambda o: E.or_(*[g for g, _ in o.raises]) if o.raises else E.FALSE  # noqa: E731
    ga, gb = cond(a), cond(b)
    if ga is gb and ga is E.FALSE:
        return
    one = lambda g: E.ite(g, E.ONE, E.ZERO)  # noqa: E731
    equal(ck, f"{n}/raises", one(ga), one(gb), d, where, "raises for other inputs without NumPy", fast=True)


# ------------------------------------------------------------------ lists and times
def L(s, st, *xs):
    return s.I.alloc(st, "list", tuple(Sc(x, "py", "float") if isinstance(x, E.N) else x for x in xs))


def T(name="t"):
    return Opq(E.osym(name), "time")


LISTS = {
    "nvector.nvector_mean": lambda s, st: [L(s, st, *[E.sym(f"{c}{i}") for i in range(3)]) for c in "xyz"],
    "karney.geodesic_area": lambda s, st: [L(s, st, *[E.sym(f"{c}{i}") for i in range(4)]) for c in ("lat", "lon")],
    "sidereal.greenwichsrt": lambda s, st: [L(s, st, *[E.sym(f"jd{i}") for i in range(3)])],
}
SOLVER = opaque("karney.geodesic_inverse")
TIMES = {
    "sidereal.juliandate": lambda s, st: [T()],
    "sidereal.greenwichsrt": lambda s, st: [Sc(E.sym("jd"), "py", "float")],
    "timeconv.str2dt": lambda s, st: [T()],
    "earth_orientation.eci_to_ecef_matrix": lambda s, st: [T()],
    "earth_orientation.eci_to_ecef_matrix_rate": lambda s, st: [T()],
}


def plain(ck, key, make, deg, n):
    where = ck.where(key)
    outs = []
    for mode in ("py", "np0"):
        s = ck.sess(mode, overrides=SOLVER)
        st = s.I.base.clone()
        kw = {}
        if deg is not None:
            kw = {"ell": s.ellipsoid(st, "E"), "deg": Sc(E.TRUE if deg else E.FALSE, "py", "bool")}
        outs.append(s.run(key, make(s, st), kw, st))
    a, b = outs
    if not runs(ck, n, a, b, where):
        return
    names = {x.a[0] for o in outs for v in o.leaves for x in E.free(v) if x.op == "sym"}
    role = lambda x: "P" if x.startswith("lat") else "L" if x.startswith("lon") else "a" if x == "E.a" else "f" if x == "E.f" else "1" if x[0] in "xyz" else "m"  # noqa: E731
    d = Domain({x: role(x) for x in names}, seed=ck.seed)
    for i, (x, y) in enumerate(zip(a.leaves, b.leaves)):
        if x.sort != "r" or y.sort != "r":
            ck.fact(f"{n}/{i}", x is y or None, "not a number", where, how="same value number")
        else:
            equal(ck, f"{n}/{i}", x, y, d, where, "the result without NumPy differs from the one with NumPy", fast=True)


# ------------------------------------------------------------------ the fallbacks themselves
FALLBACK = {
    "cbrt": "m", "sign": "m", "power": "rk", "minimum": "mm", "cube_root": "m", "sqrt": "r", "sin": "A", "cos": "A", "tan": "A", "asin": "1", "acos": "1",
    "atan": "m", "atan2": "mm", "asinh": "m", "atanh": "k", "exp": "A", "log": "r", "hypot": "mm", "degrees": "A", "radians": "L", "copysign": "mm", "fmod": "mr",
}


def mathfun(ck):
    for f, roles in FALLBACK.items():
        n = f"mathfun.{f}"
        ck.guarded(n, lambda: fallback(ck, n, roles), ck.where("mathfun.cube_root"))
    n = "mathfun.linspace"
    ck.guarded(n, lambda: linspace(ck, n), ck.where("mathfun.cube_root"))


def fallback(ck, n, roles):
    where = ck.where("mathfun.cube_root")
    outs = []
    for mode in ("py", "np0"):
        s = ck.sess(mode)
        if n.endswith("cbrt") and not s.has(n):
            return
        outs.append(s.run(n, [Sc(E.sym(f"x{i}"), "py", "float") for i in range(len(roles))]))
    if not runs(ck, n, *outs, where):
        return
    keep = (lambda v: v["x1"] > 0) if n.endswith("fmod") else (lambda v: v["x0"] > 0) if n.endswith((".log", "power")) else (lambda v: v["x0"] < 1) if n.endswith("atanh") else None
    d = Domain({f"x{i}": r for i, r in enumerate(roles)}, seed=ck.seed, keep=keep)
    equal(ck, n, outs[0].leaves[0], outs[1].leaves[0], d, where, "the fallback used without NumPy differs from NumPy's function")


def linspace(ck, n):
    where = ck.where("mathfun.cube_root")
    for num in (2, 3, 5, 10):
        s = ck.sess("py")
        st = s.I.base.clone()
        o = s.run(n, [Sc(E.sym("x0"), "py", "float"), Sc(E.sym("x1"), "py", "float"), Sc(E.q(num), "py", "int")], {}, st)
        if not ck.fact(f"{n}/{num}/count", len(o.leaves) == num, f"{len(o.leaves)} values", where, how="shape of the abstract result"):
            continue
        d = Domain({"x0": "m", "x1": "m"}, seed=ck.seed)
        for i, x in enumerate(o.leaves):
            w = E.add(E.sym("x0"), E.mul(E.div(E.q(i), E.q(num - 1)), E.sub(E.sym("x1"), E.sym("x0"))))
            equal(ck, f"{n}/{num}/{i}", x, w, d, where, "evenly spaced values including both ends")
