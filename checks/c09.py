"""C09: array calls compute, element by element, what scalar calls compute."""

from pms import expr as E
from pms.api import SCALAR_ONLY, SIGS
from pms.common import ROT, Domain, nodes, opaque, pair, roles_of, tol
from pms.equal import FUEL, PROVED, prove_eq
from pms.session import D2R, Missing
from pms.values import Arr, Sc, Unsupported

RULE = (
    "with arrays of one shape, the generic element of each result, whole-array reductions written out for a second element, is the same function of its own "
    "inputs as the scalar result and no function of the second element's; each result is an array of the inputs' shape; observers or targets given as scalars change nothing"
)
EXPLAIN = (
    "Every public function that takes arrays is interpreted on arrays abstracted to a generic element (whole-array reductions and boolean selections kept as "
    "operations), reductions are written out for two elements, and the result is compared with the analysis of a scalar call."
)
# whole-array reductions that are the function's meaning
REDUCES = {"lox.meanm"}
# documented to drop axes of length one
SQUEEZES = {
    "eci.eci2ecef", "eci.ecef2eci", "eci.eci2ecef_state", "eci.ecef2eci_state", "aer.eci2aer", "aer.aer2eci", "ecef.eci2geodetic",
    "ecef.geodetic2eci", "lox.loxodrome_inverse", "lox.loxodrome_direct",
}
# these demand arrays of one shape
SAME_SHAPE = SQUEEZES
# thresholds next to the singular points differ by design between the array and the scalar branch
SLIVERS = {"ecef.ecef2geodetic", "ecef.eci2geodetic", "spherical.spherical2geodetic"}
HEAVY = ("karney.", "vincenty.", "rsphere.euler")
OBS = {"lat0", "lon0", "h0", "alt0", "az", "heading", "yaw", "pitch", "roll"}


def check(ck):
    for key in SIGS:
        if key in SCALAR_ONLY or key in REDUCES:
            continue
        sig = SIGS[key]
        if not [p for p in sig.numeric if p.role not in "ts"]:
            continue
        where = ck.where(key)
        for deg in (True, False) if sig.has("deg") else (None,):
            u = "" if deg is None else "/deg" if deg else "/rad"
            names = [p.name for p in sig.numeric if p.role not in "ts"]
            obs = {n for n in names if n in OBS or n.endswith("0")}
            groups = {"all": (), }
            if obs and obs != set(names):
                groups["scalar observer"] = tuple(sorted(obs))
                groups["scalar points"] = tuple(sorted(set(names) - obs))
            half = names[: len(names) // 2]
            if key.startswith(("vincenty", "lox", "haversine", "rsphere", "spherical", "utils", "latitude")) and half and len(names) > 1:
                groups["first half scalar"] = tuple(half)
                groups["second half scalar"] = tuple(names[len(names) // 2 :])
            if deg is not False:
                n = f"{key}{u}/integers"
                ck.guarded(n, lambda: integers(ck, key, sig, deg, names, n, where), where)
            if key.startswith(HEAVY) and ck.tier == "quick":
                groups = {g: s for g, s in groups.items() if g == "all" or deg is False}
            for g, sc in groups.items():
                n = f"{key}{u}/{g}"
                ck.guarded(n, lambda: one(ck, key, sig, deg, names, sc, n, where), where)


LEMMA = {**opaque("ecef.ecef2geodetic", "ecef.geodetic2ecef"), **ROT}


def by_lemma(ck, key, sig, deg, sc, ell, vary):
    """results that agree even when the primitive conversions are unknown functions applied element by element"""
    if key in ("ecef.ecef2geodetic", "ecef.geodetic2ecef"):
        return ()
    try:
        a = ck.sess("arr", overrides=LEMMA).call(key, ell=ell, deg=deg, scalar=sc)
        b = ck.sess("np0", overrides=LEMMA).call(key, ell=ell, deg=deg)
        if a.definite or b.definite or len(a.leaves) != len(b.leaves):
            return ()
        ok = []
        for i, (x, y) in enumerate(zip(a.leaves, b.leaves)):
            x = pair(x, vary)
            FUEL.start(200_000, 3)
            if x is y or x.sort == "r" and prove_eq(x, y, 3):
                ok.append(i)
        return ok
    except (Missing, Unsupported, KeyError, ValueError, TypeError, AttributeError):
        return ()
    finally:
        FUEL.start(1 << 60, 1e9)


def one(ck, key, sig, deg, names, sc, n, where):
    ell = "E" if sig.has("ell") else None
    a = ck.sess("arr").call(key, ell=ell, deg=deg, scalar=sc)
    b = ck.sess("np0").call(key, ell=ell, deg=deg)
    if b.definite:
        raise ValueError(f"scalar call always raises {b.definite}")
    if a.definite:
        ck.fact(n + "/runs", False, f"array call always raises {a.definite}", where, how="reachability of raise statements")
        return
    if not sc:
        bad = sorted({str(e) for e in a.events if e.kind == "collapse"})
        ck.fact(n + "/collapse", not bad, "; ".join(bad), where, how="kinds of the values merged under whole-array conditions")
    bad = sorted({str(e) for e in a.events if e.kind == "permute"})
    ck.fact(n + "/order", not bad, "; ".join(bad), where, how="element orders of the abstract arrays that are combined")
    vary = [x for x in names if x not in sc]
    roles = roles_of(sig, *(["E"] if ell else []))
    d1 = Domain({**roles, **{x + "'": roles[x] for x in vary}}, seed=ck.seed)
    ga, gb = nodes(a, sig), nodes(b, sig)
    lem = None
    rough = key.startswith(HEAVY) and ck.tier == "quick" and (sc or deg is False)
    for i, (((nm, role), x), (_, y), k) in enumerate(zip(ga, gb, a.kinds)):
        if x.sort != "r" or rough:
            continue
        if role in "aL" and deg is False:
            x, y = E.div(x, D2R), E.div(y, D2R)
        t = tol(role)
        z = pair(x, vary)
        other = sorted(s.a[0] for s in E.free(z) if s.op == "sym" and s.a[0].endswith("'"))
        what = f"{nm}: an element of the result is not the scalar result"
        if other:
            what += f" (depends on {', '.join(other)} of another element)"
        if z is not y and lem is None:
            lem = by_lemma(ck, key, sig, deg, sc, ell, vary)
        if lem and i in lem and ck.wants(f"{n}/{nm}"):
            ck.record(f"{n}/{nm}", PROVED, what, where, how="normal forms equal with geodetic<->ECEF, checked on their own, as unknown functions")
        else:
            ck.eq(f"{n}/{nm}", z, y, d1, where, what, rel=t, ab=t, fast=key.startswith(HEAVY), gen=key in SLIVERS, prove=not key.startswith(HEAVY) or not other, n=8 if key.startswith(HEAVY) else 40 if other else None)
        if not sc and role != "1":
            bad = shape(k, key in SQUEEZES)
            ck.fact(f"{n}/{nm}/shape", not bad, f"{nm}: {bad}", where, how="shape of the abstract array")
    # exceptions: an element that would raise alone may make the call raise, nothing else may
    # (the conditions themselves are C12)


def integers(ck, key, sig, deg, names, n, where):
    """arrays of whole numbers are arrays of numbers"""
    ell = "E" if sig.has("ell") else None
    b = ck.sess("arr").call(key, ell=ell, deg=deg)
    if b.definite:
        raise ValueError(f"array call always raises {b.definite}")
    roles = roles_of(sig, *(["E"] if ell else []))
    # all of them, each one alone
    for sub in [names] + ([[x] for x in names] if len(names) > 1 and not key.startswith(HEAVY) else []):
        m = n if sub is names else f"{n} {sub[0]}"
        a = ck.sess("arr").call(key, ell=ell, deg=deg, ints=sub)
        if a.definite:
            ck.fact(m + "/runs", False, f"call with arrays of whole numbers always raises {a.definite}", where, how="reachability of raise statements")
            continue
        bad = {str(x) for _, x in a.raises} - {str(x) for _, x in b.raises}
        ck.fact(m + "/raises", not bad, f"raises only for whole numbers: {sorted(bad)}", where, how="reachability of raise statements")
        for ((nm, role), x), (_, y) in zip(nodes(a, sig), nodes(b, sig)):
            if x.sort != "r":
                continue
            t = tol(role)
            d1 = Domain(roles, seed=ck.seed, whole=sub)
            ck.eq(f"{m}/{nm}", x, y, d1, where, f"{nm}: arrays of whole numbers give other values", rel=t, ab=t, fast=True)


def shape(k, squeezes):
    if isinstance(k, Sc):
        return "a scalar is returned for arrays"
    if isinstance(k, Arr):
        if k.nd0:
            return "a zero-dimensional array is returned for arrays"
        if k.sel is not None:
            return "only selected elements are returned"
        if k.ms:
            return "the shape of the result is not that of the inputs"
        if k.shape != "S" and not (squeezes and k.shape == "S~"):
            return f"the result has shape {k.shape} instead of that of the inputs"
        return ""
    return ""
