"""C12: inputs outside the documented restrictions are rejected, others are not."""

from pms import expr as E
from pms.api import FLAGS, SIGS
from pms.common import MODE_NAME, modes_of, pair
from pms.domain import Domain
from pms.values import Opq, Ref, Sc, Unsupported

RULE = (
    "the path condition of the raise statements of every public function, as a boolean of the inputs (for arrays: of two elements), equals the "
    "documented restriction; option strings and counts: every permitted value is accepted and others end in a raise"
)
EXPLAIN = (
    "Every public function is interpreted on unrestricted symbols in three representations and both angle units; the disjunction of the "
    "guards under which it raises is compared with the condition in the documentation."
)
LAT = lambda *ps: ("lat", ps)  # noqa: E731
# documented restrictions: |latitude| <= 90 of these parameters, nonnegative these
TABLE = {
    "vallado.azel2radec": (["lat_deg"], []),
    "vallado.radec2azel": (["lat_deg"], []),
    "azelradec.azel2radec": (["lat_deg"], []),
    "azelradec.radec2azel": (["lat_deg"], []),
    "los.lookAtSpheroid": ([], ["h0"]),
    "lox.loxodrome_direct": (["lat1"], ["rng"]),
    "vincenty.vdist": (["lat1", "lat2"], []),
    "vincenty.vreckon": (["lat1"], ["rng"]),
    "rsphere.euler": (["lat1", "lat2"], []),
}
NUMPY_ONLY = {"vincenty.track2", "lox.meanm"}
GOOD = {"sequence": ["zyx"], "frame": ["ned", "enu", "sez", "nwu"], "method": ["mean", "norm"]}
BAD = {"sequence": ["xyz", "ZYX", "", "zxy", "zyxz"], "frame": ["NED", "", "body", "ecef", "ne"], "method": ["Mean", "", "median", "normal", "m"]}


def plain(sig):
    v = {}
    for p in sig.pars:
        if p.role == "t":
            v[p.name] = Opq(E.osym(p.name), "time")
        elif p.role not in FLAGS:
            v[p.name] = E.sym(p.name)
    return v


WIDE = {"P": "p", "r": "m", "h": "m", "T": "Z", "R": "m", "k": "m"}


def roles(sig, primes):
    d = {}
    for p in sig.pars:
        if p.role in FLAGS or p.role == "t":
            continue
        r = WIDE.get(p.role, p.role)
        d[p.name] = r
        if primes:
            d[p.name + "'"] = r
    d["E.a"], d["E.f"] = "a", "f"
    return d


def check(ck):
    for key in SIGS:
        if key in ("vincenty.track2",):
            continue
        sig = SIGS[key]
        where = ck.where(key)
        for mode in modes_of(key):
            if key in NUMPY_ONLY and mode != "arr":
                continue
            for deg in (True, False) if sig.has("deg") else (None,):
                n = f"{key}/{mode}/{'rad' if deg is False else 'deg'}"
                ck.guarded(n, lambda: guards(ck, key, sig, mode, deg, where, n), where)
            for opt in ("sequence", "frame", "method"):
                if sig.has(opt):
                    for val in GOOD[opt] + BAD[opt]:
                        n = f"{key}/{mode}/{opt}={val!r}"
                        ck.guarded(n, lambda: option(ck, key, sig, mode, opt, val, where, n), where)
    for mode in ("np0", "py"):
        ck.guarded(f"vincenty.track2/{mode}", lambda: track2(ck, mode), ck.where("vincenty.track2"))
        ck.guarded(f"karney.geodesic_area/{mode}", lambda: area(ck, mode), ck.where("karney.geodesic_area"))
        ck.guarded(f"ellipsoid/{mode}", lambda: ellipsoid(ck, mode), ck.where("ellipsoid.Ellipsoid.__init__"))


def condition(key, sig, deg, arr):
    lats, nonneg = TABLE.get(key, ([], []))
    cs = []
    for p in lats:
        cs.append(E.cmp("<", E.sub(E.q(90), E.abs_(E.sym(p))), E.ZERO))
    for p in nonneg:
        cs.append(E.cmp("<", E.sym(p), E.ZERO))
    c = E.or_(*cs) if cs else E.FALSE
    return E.bfn("any", c) if arr else c


def guards(ck, key, sig, mode, deg, where, n):
    s = ck.sess(mode)
    out = s.call(key, plain(sig), ell="E" if sig.has("ell") else None, deg=deg)
    if out.definite:
        ck.fact(n, False, f"every call raises {out.definite}", where, how="reachability of raise statements")
        return
    arr = mode == "arr"
    # uses of possibly unassigned locals on correlated branches are not raise statements
    out.raises = [(g, x) for g, x in out.raises if "<unbound>" not in str(x)]
    got = E.or_(*[g for g, _ in out.raises]) if out.raises else E.FALSE
    want = condition(key, sig, deg, arr)
    if arr:
        names = [p.name for p in sig.numeric if p.role not in ("t", "s")]
        got, want = pair(got, names), pair(want, names)
    what = "; ".join(sorted({str(x) for _, x in out.raises})) or "no raise statement is reachable"
    ck.eq(n, got, want, Domain(roles(sig, arr), seed=ck.seed, keep=None), where, f"raises for other inputs than documented ({MODE_NAME[mode]}): {what}", n=60)
    if key in TABLE:
        bad = [str(x) for _, x in out.raises if x.name not in ("ValueError",)]
        ck.fact(f"{n}/kind", not bad, f"rejects with another exception than ValueError: {bad}", where, how="exception types of reachable raises")


def option(ck, key, sig, mode, opt, val, where, n):
    s = ck.sess(mode)
    from pms.common import symbols

    ex = {opt: val}
    if opt != "sequence" and sig.has("sequence"):
        ex["sequence"] = "zyx"
    out = s.call(key, symbols(sig), ell="E" if sig.has("ell") else None, deg=True if sig.has("deg") else None, extra=ex)
    if val in GOOD[opt]:
        ck.fact(n, not out.definite and not out.raises, f"permitted value rejected: {out.definite or out.raises}", where, how="reachability of raise statements")
    else:
        ok = out.definite is not None and out.definite.name in ("ValueError", "KeyError")
        ck.fact(n, ok, f"{opt}={val!r} is not rejected ({out.definite})", where, how="reachability of raise statements")


def track2(ck, mode):
    where = ck.where("vincenty.track2")
    s = ck.sess(mode)
    sig = SIGS["vincenty.track2"]
    for npts in (-1, 0, 1, 2, 3, 100) if mode != "py" else (-1, 0, 1, 2):
        out = s.call("vincenty.track2", plain(sig), ell="E", deg=True, extra={"npts": Sc(E.q(npts), "py", "int")})
        n = f"vincenty.track2/{mode}/npts={npts}"
        if npts < 2:
            ck.fact(n, out.definite is not None and out.definite.name == "ValueError", f"npts={npts} is not rejected ({out.definite})", where, how="reachability of raise statements")
        elif npts == 2:
            ck.fact(n, out.definite is None and not out.raises, f"npts={npts} is rejected", where, how="reachability of raise statements")
        else:
            if out.definite:
                ck.fact(n, False, f"npts={npts} always raises {out.definite}", where)
                continue
            # latitudes out of range, antipodal end points (to within 1e-12 rad); the distance is nonnegative by C16
            got = E.or_(*[g for g, x in out.raises if "distance" not in str(x)])
            d = E.sub(E.PI, E.scale(E.fn("asin", E.sqrt(hav())), 2))
            want = E.or_(*[E.cmp("<", E.sub(E.q(90), E.abs_(E.sym(p))), E.ZERO) for p in ("lat1", "lat2")], E.cmp("<", E.abs_(d), E.q("0.000000000001")))
            ck.eq(n, got, want, Domain({"lat1": "p", "lat2": "p", "lon1": "L", "lon2": "L", "E.a": "a", "E.f": "f"}, seed=ck.seed), where, "raises for other inputs than antipodal points or latitudes out of range", n=60)


def hav():
    from pms import spec as S

    la1, lo1, la2, lo2 = (S.rad(E.sym(k)) for k in ("lat1", "lon1", "lat2", "lon2"))
    sq = lambda x: E.power(E.sin(E.scale(x, "1/2")), 2)  # noqa: E731
    return E.add(sq(E.sub(la1, la2)), E.mul(E.cos(la1), E.cos(la2), sq(E.sub(lo1, lo2))))


def solver_stub():
    from pms.values import Builtin, Func

    k = [0]

    def f(I, args, kw, st):
        k[0] += 1
        return tuple(Sc(E.sym(f"{n}{k[0]}"), "py", "float") for n in ("dist", "azi", "azj"))

    return {("pymap3d.karney", "geodesic_inverse"): lambda I, st, v: Builtin("geodesic_inverse", f) if isinstance(v, Func) else v}


STUB = solver_stub()


def area(ck, mode):
    where = ck.where("karney.geodesic_area")
    s = ck.sess(mode, overrides=STUB)
    for m in range(0, 7):
        st = s.I.base.clone()
        ell = s.ellipsoid(st, "E", E.q(6378137), E.div(E.ONE, E.q(298)))
        pts = [tuple(Sc(E.sym(f"{w}{i}"), "py", "float") for i in range(m)) for w in ("lat", "lon")]
        out = s.run("karney.geodesic_area", pts, {"ell": ell}, st)
        n = f"karney.geodesic_area/{mode}/{m} vertices"
        if m < 3:
            ck.fact(n, out.definite is not None and out.definite.name == "ValueError", f"{m} vertices are not rejected ({out.definite})", where, how="reachability of raise statements")
        else:
            ck.fact(n, not out.definite and not out.raises, f"{m} vertices are rejected: {out.definite or out.raises}", where, how="reachability of raise statements")


def ellipsoid(ck, mode):
    where = ck.where("ellipsoid.Ellipsoid.__init__")
    s = ck.sess(mode)
    st = s.I.base.clone()
    cls = s.get("ellipsoid.Ellipsoid")
    a, b = E.sym("A", pos=True), E.sym("B", pos=True)
    res = s.I.run(cls, [Sc(a, "py", "float"), Sc(b, "py", "float")], {}, st)
    got = E.or_(*[g for g, _ in res.raises])
    ck.eq(f"ellipsoid/{mode}/oblate", got, E.cmp("<", E.sub(a, b), E.ZERO), Domain({"A": "r", "B": "r"}, seed=ck.seed), where, "accepts or rejects other axes than documented (polar axis not above the equatorial one)", n=60)
    for name in ("nosuch", "", "WGS84", "wgs-84", "wgs85", "earth"):
        out = byname(s, name)
        ck.fact(f"ellipsoid/{mode}/from_name({name!r})", out is not None, "unknown name is not rejected", where, how="reachability of raise statements")


def byname(s, name):
    """exception of Ellipsoid.from_name(name), None when it returns"""
    st = s.I.base.clone()
    cls = s.get("ellipsoid.Ellipsoid")
    s.I.events = []
    s.I.stack = [("pymap3d.ellipsoid", "<entry>", 0)]
    s.I.handlers = []
    st.pend = []
    from pms.interp import AbsRaise

    try:
        m = s.I.getattr_(cls, "from_name", st)
        s.I.call(m, [name], {}, st)
    except AbsRaise as e:
        return e.exc
    return None
