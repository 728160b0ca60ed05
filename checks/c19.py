"""C19: Astropy is used only when imported and never when declined, and is given the caller's inputs."""

from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.common import dom, modes_of, nodes, symbols, tol
from pms.domain import Domain
from pms.values import Opq, Sc

RULE = (
    "with Astropy loaded and declined, or with no Astropy route, no Astropy name is called and value numbers equal those of a program without Astropy; "
    "on the Astropy route the value number is one Astropy transformation whose kind, frames, instants, place and components are the documented ones, "
    "returned in the documented unit and order"
)
EXPLAIN = (
    "Every public function is interpreted with Astropy importable and imported, once declined (where it can be) and once not; calls of Astropy names are recorded. "
    "Units, quantities, frames, times and places have a small model; transformations are unknown functions of all they were given, compared argument by argument."
)
NP = "np0"
DECLINE = (
    "eci.eci2ecef", "eci.ecef2eci", "eci.eci2ecef_state", "eci.ecef2eci_state", "azelradec.azel2radec", "azelradec.radec2azel",
    "haversine.anglesep", "sidereal.datetime2sidereal",
)
# functions that use Astropy through others
THROUGH = ("ecef.eci2geodetic", "ecef.geodetic2eci", "aer.eci2aer", "aer.aer2eci")


def check(ck):
    for key in SIGS:
        where = ck.where(key)
        for mode in modes_of(key):
            if mode == "py":
                continue
            if key in DECLINE:
                ck.guarded(f"{key}/{mode}/declined", lambda: same(ck, key, mode, True), where)
                ck.guarded(f"{key}/{mode}/used", lambda: used(ck, key, mode), where)
            elif key in THROUGH:
                ck.guarded(f"{key}/{mode}/used", lambda: through(ck, key, mode), where)
            else:
                ck.guarded(f"{key}/{mode}/no route", lambda: same(ck, key, mode, False), where)
    ck.guarded("sidereal.datetime2sidereal/list", lambda: times(ck), ck.where("sidereal.datetime2sidereal"))
    for key in DECLINE:
        ck.guarded(f"{key}/default", lambda: default(ck, key), ck.where(key))


def astro(o):
    return sorted({e.detail for e in o.events if e.kind == "astropy"})


FORCE = {"force_non_astropy": Sc(E.TRUE, "py", "bool")}


def same(ck, key, mode, decline):
    """no Astropy, and the numbers of a program without it"""
    sig = SIGS[key]
    where = ck.where(key)
    n = f"{key}/{mode}/{'declined' if decline else 'no route'}"
    if key == "vincenty.track2":
        return
    kw = FORCE if decline else {}
    ell = "E" if sig.has("ell") else None
    for deg in (True, False) if sig.has("deg") else (None,):
        m = n + ("" if deg is None else "/deg" if deg else "/rad")
        a = ck.sess(mode, astropy=True).call(key, symbols(sig), ell=ell, deg=deg, kw=kw)
        b = ck.sess(mode).call(key, symbols(sig), ell=ell, deg=deg, kw=kw)
        got = astro(a)
        if not ck.fact(f"{m}/calls", not got, f"calls {', '.join(got)} {'although declined' if decline else 'although it offers no Astropy route'}", where, how="reachable calls of Astropy names") == "proved":
            continue
        if a.definite or b.definite:
            ck.fact(f"{m}/raises", str(a.definite) == str(b.definite), f"raises {a.definite}, without Astropy {b.definite}", where)
            continue
        d = dom(ck, sig, "E")
        for ((nm, r), x), (_, y) in zip(nodes(a, sig), nodes(b, sig)):
            ck.eq(f"{m}/{nm}", x, y, d, where, f"{nm} differs from that of a program without Astropy", ab=tol(r), prove=False, fast=True)


# ---------------------------------------------------------------- the Astropy route
def spec(key, v, deg):
    """results as nodes over one unknown transformation (name, arguments) per result"""
    T = v["time"].node if "time" in v else None
    f = lambda name, *a: E.rfn("astro:" + name, *a)  # noqa: E731
    m = key.rpartition(".")[2]
    if m in ("eci2ecef", "ecef2eci"):
        s, d = ("GCRS", "ITRS") if m == "eci2ecef" else ("ITRS", "GCRS")
        return [f(f"{s}>{d}:{k}", v.x, v.y, v.z, T, T) for k in "xyz"]
    if m in ("eci2ecef_state", "ecef2eci_state"):
        s, d = ("GCRS", "ITRS") if m == "eci2ecef_state" else ("ITRS", "GCRS")
        a = (v.x, v.y, v.z, v.vx, v.vy, v.vz, T, T)
        return [f(f"{s}>{d} with velocity:{k}", *a) for k in ("x", "y", "z", "vx", "vy", "vz")]
    deg1 = lambda n: E.div(E.scale(n, 180), E.PI)  # noqa: E731
    if m == "azel2radec":
        a = [S.rad(v[k]) for k in ("az_deg", "el_deg")] + [T] + [S.rad(v.lon_deg), S.rad(v.lat_deg), E.ZERO]
        return [deg1(f(f"AltAz@geodetic>ICRS:{k}", *a)) for k in ("ra", "dec")]
    if m == "radec2azel":
        a = [S.rad(v[k]) for k in ("ra_deg", "dec_deg")] + [T] + [S.rad(v.lon_deg), S.rad(v.lat_deg), E.ZERO]
        return [deg1(f(f"ICRS>AltAz@geodetic:{k}", *a)) for k in ("az", "alt")]
    if m == "datetime2sidereal":
        return [f("sidereal time apparent", v.lon_radians, T)]
    if m == "anglesep":
        la0, lo0, la1, lo1 = (S.rad(v[k]) for k in ("lat0", "lon0", "lat1", "lon1"))
        return [E.mul(S.ang_sep(la0, lo0, la1, lo1), E.div(E.q(180), E.PI))]
    raise KeyError(key)


WHAT = {
    "eci": ("x", "y", "z", "the instant of the source frame", "the instant of the target frame"),
    "state": ("x", "y", "z", "vx", "vy", "vz", "the instant of the source frame", "the instant of the target frame"),
    "sky": ("first angle", "second angle", "the instant", "the observer's longitude", "the observer's latitude", "the observer's height"),
    "lst": ("longitude", "the instant"),
}


def used(ck, key, mode):
    sig = SIGS[key]
    where = ck.where(key)
    for deg in (True, False) if sig.has("deg") else (None,):
        n = f"{key}/{mode}/used" + ("" if deg is None else "/deg" if deg else "/rad")
        v = symbols(sig)
        o = ck.sess(mode, astropy=True).call(key, v, deg=deg)
        if o.definite:
            ck.fact(n, False, f"always raises {o.definite}", where)
            continue
        ck.fact(f"{n}/route", bool(astro(o)), "does not use Astropy although it is imported and not declined", where, how="reachable calls of Astropy names")
        if not astro(o):
            continue
        want = spec(key, v, deg)
        got = [E.mul(x, E.div(E.q(180), E.PI)) if r in "a" and deg is False else x for (_, r), x in nodes(o, sig)]
        d = Domain({k: ("P" if r == "P" else r) for k, r in dom(ck, sig).roles.items()}, seed=ck.seed)
        for (nm, r), g, w in zip(sig.outs, got, want):
            compare(ck, f"{n}/{nm}", g, w, d, where, nm, r, key)


def transformations(n):
    """outermost unknown transformations in a value number"""
    out = []

    def go(m):
        if m.op == "fn" and str(m.a[0]).startswith("astro:"):
            if m not in out:
                out.append(m)
            return
        for k in E.kids(m):
            go(k)

    go(n)
    return out


def compare(ck, n, g, w, d, where, nm, r, key):
    if g is w:
        ck.fact(n, True, where=where, how="same value number")
        return
    tg, tw = transformations(g), transformations(w)
    if not tw:
        ck.eq(n, g, w, d, where, f"{nm} is not the documented quantity", ab=tol("a"))
        return
    (tw,) = tw
    if len(tg) != 1:
        ck.fact(n, False if not tg else None, f"{nm} depends on {len(tg)} transformations instead of one", where)
        return
    (tg,) = tg
    if tg.a[0] != tw.a[0]:
        ck.fact(n, False, f"{nm} is {tg.a[0][6:]} instead of {tw.a[0][6:]}", where, how="transformation named by the source")
        return
    z = E.sym("astro")
    ck.eq(f"{n}/unit", E.subst(g, {tg: z}), E.subst(w, {tw: z}), Domain({**d.roles, "astro": "A"}, seed=ck.seed), where, f"{nm} is returned in another unit or changed after the transformation")
    names = WHAT["state" if "state" in key else "eci" if "eci." in key else "lst" if "sidereal" in key else "sky"]
    for k, a, b in zip(names, tg.a[1:], tw.a[1:]):
        if a is b:
            ck.fact(f"{n}/{k}", True, where=where, how="same value number")
        elif a.sort == "r" and b.sort == "r":
            ck.eq(f"{n}/{k}", a, b, d, where, f"{k} handed to Astropy is not the caller's")
        else:
            ck.fact(f"{n}/{k}", False, f"{k} handed to Astropy is {E.show(a, 4)[:120]}", where, how="argument named by the source")


def through(ck, key, mode):
    """functions without the option use the route of the conversion they call"""
    sig = SIGS[key]
    where = ck.where(key)
    n = f"{key}/{mode}/used"
    v = symbols(sig)
    o = ck.sess(mode, astropy=True).call(key, v, ell="E" if sig.has("ell") else None, deg=True)
    if o.definite:
        ck.fact(n, False, f"always raises {o.definite}", where)
        return
    seen, bad = set(), []
    kind = "GCRS>ITRS" if "eci2" in key else "ITRS>GCRS"
    T = v["t"].node
    for (nm, _), x in nodes(o, sig):
        for t in transformations(x):
            seen.add(t.a[0])
            if not t.a[0].startswith(f"astro:{kind}:"):
                bad.append(f"{nm} is {t.a[0][6:]}")
            if t.a[4] is not T or t.a[5] is not T:
                bad.append(f"{nm} is taken at another instant than the caller's")
    ck.fact(f"{n}/transformation", bool(seen) and not bad, "; ".join(bad) or "no transformation by Astropy", where, how="transformation and instants named by the source")


def times(ck):
    """lists of instants keep the choice"""
    where = ck.where("sidereal.datetime2sidereal")
    for force in (True, False):
        s = ck.sess(NP, astropy=True)
        st = s.I.base.clone()
        ts = [Opq(E.ofn("epochtime", E.sym(f"U{i}")), "time") for i in range(2)]
        lon = Sc(E.sym("lon_radians"), "py", "float")
        kw = {"delta_ut1": Sc(E.sym("delta_ut1"), "py", "float"), "force_non_astropy": Sc(E.TRUE if force else E.FALSE, "py", "bool")}
        o = s.run("sidereal.datetime2sidereal", [s.I.newlist(st, tuple(ts)), lon], kw, st)
        n = f"sidereal.datetime2sidereal/list/{'declined' if force else 'used'}"
        got = astro(o)
        ck.fact(f"{n}/calls", bool(got) != force, f"Astropy is {'used although declined' if force else 'not used'} for lists of instants", where, how="reachable calls of Astropy names")
        for i, t in enumerate(ts):
            one = s.run("sidereal.datetime2sidereal", [t, lon], kw)
            ck.fact(f"{n}/{i}", len(o.leaves) == 2 and o.leaves[i] is one.leaves[0] or None, "element of a list differs from the single instant", where, how="same value number")


def default(ck, key):
    """left out, the option means that Astropy is used when it is there"""
    where = ck.where(key)
    v = symbols(SIGS[key])
    s = ck.sess(NP, astropy=True)
    a = s.call(key, v, deg=True if SIGS[key].has("deg") else None)
    b = s.call(key, v, deg=True if SIGS[key].has("deg") else None, kw={"force_non_astropy": Sc(E.FALSE, "py", "bool")})
    ck.fact(f"{key}/default", all(x is y for x, y in zip(a.leaves, b.leaves)) and astro(a) == astro(b), "leaving force_non_astropy out is not the same as False", where, how="same value numbers")
