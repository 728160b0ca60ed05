"""C10: no side effects, no history."""

from fractions import Fraction as F

from pms import expr as E
from pms.api import SIGS
from pms.common import MODE_NAME, dom, modes_of, nodes, symbols, tol
from pms.domain import Domain
from pms.values import Arr, Mem, Ref, Sc, Unsupported

RULE = (
    "no call stores into memory, lists or ellipsoids reachable from its arguments or into module state other than a cache keyed by all the stored value "
    "depends on, none prints, warns, or reads clock, randomness or environment; a call after calls with other ellipsoids has the value of a first call"
)
EXPLAIN = (
    "Every public function is interpreted on symbols; the abstract heap before and after is compared (caller's objects, module variables, objects created at "
    "import) and effect events are collected with their statement; then each is interpreted after calls with ellipsoids that share one parameter."
)
BAD = {
    "mutate-input": "writes into an array of the caller", "global-write": "writes module state", "global-mutation": "changes module state", "print": "prints",
    "warn": "warns", "io": "reads or writes outside the program", "nondeterminism": "is not deterministic",
}
# ellipsoids that share the equatorial axis, the flattening or the polar axis with the one asked for
ASKED = (F(6378137), F(1, 298))
OTHERS = {"same a": (F(6378137), F(1, 150)), "same f": (F(6378137) + 10, F(1, 298)), "same b": (F(6378137) * F(297, 298) * F(150, 149), F(1, 150))}


def check(ck):
    for key in SIGS:
        where = ck.where(key)
        for mode in modes_of(key):
            if mode == "py" and key in ("vincenty.track2", "lox.meanm"):
                continue
            for deg in (True, False) if SIGS[key].has("deg") else (None,):
                n = f"{key}/{mode}/{'rad' if deg is False else 'deg'}"
                ck.guarded(n, lambda: effects(ck, key, mode, deg, where, n), where)
                if SIGS[key].has("ell"):
                    ck.guarded(n + "/history", lambda: history(ck, key, mode, deg, where, n), where)
    for mode in ("py", "np0"):
        for key, f in LISTS.items():
            n = f"{key}/{mode}/list"
            ck.guarded(n, lambda: lists(ck, key, f, mode, n), ck.where(key))
        ck.guarded(f"from_name/{mode}", lambda: names(ck, mode), ck.where("ellipsoid.Ellipsoid.from_name"))


# ------------------------------------------------------------------ effects
def snapshot(s, st):
    """module variables and the objects made at import"""
    heap = {k: v for k, v in st.heap.items() if k in s.I.module_oids}
    mods = {m: dict(fr) for m, fr in st.mods.items()}
    return heap, mods


def difference(a, b, caches):
    out = []
    for k, v in a[0].items():
        if k in b[0] and b[0][k] is not v and b[0][k] != v and k not in caches:
            out.append(f"object {k} made at import time")
    for m, fr in a[1].items():
        for n, v in fr.items():
            w = b[1].get(m, {}).get(n)
            if w is not v and w != v:
                out.append(f"{m}.{n}")
        for n in b[1].get(m, {}):
            if n not in fr:
                out.append(f"{m}.{n}")
    return out


def effects(ck, key, mode, deg, where, n):
    s = ck.sess(mode)
    sig = SIGS[key]
    st = s.I.base.clone()
    before = snapshot(s, st)
    ell = s.ellipsoid(st, "E") if sig.has("ell") else None
    ex = {"npts": Sc(E.q(5), "py", "int")} if sig.has("npts") else {}
    fields = dict(st.heap[ell.oid]) if ell else {}
    out = s.call(key, symbols(sig), ell=ell, deg=deg, st=st, extra=ex)
    report(ck, n, s, out, before, where)
    end = out.res.state
    if ell:
        now = end.heap.get(ell.oid, {})
        bad = [k for k in set(fields) | set(now) if fields.get(k) != now.get(k)]
        ck.fact(f"{n}/ellipsoid", not bad, f"changes {bad} of the caller's ellipsoid", where, how="abstract heap before and after")
    if mode == "arr":
        bad = []
        for v in end.heap.values():
            if isinstance(v, Mem) and v.origin and len(v.origin) == 1:
                (o,) = v.origin
                p = next((p for p in sig.pars if p.name == o), None)
                if p is None:
                    continue
                from pms.session import D2R, symbol
                from pms.api import ANGLES

                w = symbol(p.name, p.role)
                if p.role in ANGLES and deg is False:
                    w = E.mul(w, D2R)
                if v.node is not w:
                    bad.append(o)
        ck.fact(f"{n}/arrays", not bad, f"leaves other values in the caller's {sorted(set(bad))}", where, how="abstract heap before and after")


def report(ck, n, s, out, before, where):
    bad, caches = [], set()
    for e in out.events:
        if e.kind in BAD:
            bad.append(f"{BAD[e.kind]}: {e}")
        if e.kind == "cache-store":
            p = keyed(s, e)
            if p:
                bad.append(f"{p}: {e}")
    stores = any(e.kind == "cache-store" for e in out.events)
    if out.res.state is not None:
        after = snapshot(s, out.res.state)
        if stores:  # which dictionaries: those whose old entries are all still there
            for k, v in before[0].items():
                w = after[0].get(k)
                if isinstance(v, dict) and isinstance(w, dict) and w != v and all(x in w and w[x] == y for x, y in v.items()):
                    caches.add(k)
        bad += [f"changes {d}" for d in difference(before, after, caches)]
    ck.fact(f"{n}/effects", not bad, "; ".join(bad)[:600], where, how="effect analysis on the abstract heap")


def deep(v, st, seen=None):
    """symbols a value depends on"""
    seen = seen if seen is not None else set()
    if isinstance(v, Sc):
        return {x for x in E.free(v.node) if x.op in ("sym", "osym", "bsym")}
    if isinstance(v, Arr):
        return set(E.free(st.heap[v.mem].node))
    if isinstance(v, (tuple, list)):
        return set().union(*[deep(x, st, seen) for x in v]) if v else set()
    if isinstance(v, Ref):
        if v.oid in seen:
            return set()
        seen.add(v.oid)
        c = st.heap.get(v.oid)
        if isinstance(c, dict):
            return set().union(*[deep(x, st, seen) for x in c.values()]) if c else set()
        if isinstance(c, (tuple, list)):
            return deep(tuple(c), st, seen)
        return set()
    if hasattr(v, "node") and isinstance(v.node, E.N):
        return set(E.free(v.node))
    if hasattr(v, "a") and hasattr(v, "b") and hasattr(v, "c"):
        return deep(v.a, st, seen) | deep(v.b, st, seen)
    return set()


def parts(k):
    if isinstance(k, (tuple, list)):
        return [x for y in k for x in parts(y)]
    return [k]


LOSSY = {"floor", "round", "trunc", "ceil", "int", "frac", "hash", "abs"}


def keyed(s, e):
    """'' when the key of a cache determines everything the stored value depends on"""
    k, v, st = e.node
    need = deep(v, st)
    known = set()
    comps = []
    for p in parts(k):
        nd = getattr(p, "node", None)
        if isinstance(nd, E.N):
            comps.append(nd)
        elif isinstance(p, Ref):
            known |= deep(p, st)
    for _ in range(4):
        for c in comps:
            if any(x.op in ("fn", "ofn") and str(x.a[0]) in LOSSY or x.op in ("abs", "cmp", "ite") for x in E.walk(c)):
                continue
            un = {x for x in E.free(c) if x.op in ("sym", "osym")} - known
            if len(un) == 1:
                known |= un
    miss = need - known
    return f"caches a value that also depends on {sorted(x.a[0] for x in miss)} not in its key" if miss else ""


# ------------------------------------------------------------------ history
def run(s, key, sig, deg, st, ell, ex):
    return s.call(key, symbols(sig), ell=ell, deg=deg, st=st, extra=ex)


HEAVY = ("karney.", "vincenty.", "rsphere.euler")


def history(ck, key, mode, deg, where, n):
    s = ck.sess(mode)
    sig = SIGS[key]
    ex = {"npts": Sc(E.q(5), "py", "int")} if sig.has("npts") else {}
    num = lambda p: tuple(E.q(x) for x in p)  # noqa: E731
    fresh = run(s, key, sig, deg, s.I.base.clone(), num(ASKED), ex)
    if fresh.definite:
        raise ValueError(f"always raises {fresh.definite}")
    st = s.I.base.clone()
    for o in OTHERS.values():
        r = run(s, key, sig, deg, st, num(o), ex)
        st = r.res.state
    if deg is not None:
        st = run(s, key, sig, not deg, st, num(ASKED), ex).res.state
    again = run(s, key, sig, deg, st, num(ASKED), ex)
    d = dom(ck, sig)
    for i, (g, w) in enumerate(zip(again.leaves, fresh.leaves)):
        if g.sort != "r":
            continue
        ck.eq(f"{n}/history {i}", g, w, d, where, f"the result after calls with other ellipsoids differs from that of a first call ({MODE_NAME[mode]})", fast=key.startswith(HEAVY), secs=5)
    ck.fact(f"{n}/history shape", len(again.leaves) == len(fresh.leaves), "another number of results", where, how="value numbering")


def names(ck, mode):
    """two look-ups of the same and of other names; the default ellipsoid after look-ups"""
    s = ck.sess(mode)
    where = ck.where("ellipsoid.resolve_ellipsoid")
    st = s.I.base.clone()
    first = s.I.run(s.get("ellipsoid.resolve_ellipsoid"), [None], {}, st)
    st = first.state
    a = dict(st.heap[first.value.oid])
    cls = s.get("ellipsoid.Ellipsoid")
    s.I.stack = [("pymap3d.ellipsoid", "<entry>", 0)]
    for k in ("mars", "grs80", "wgs84", "moon"):
        s.I.call(s.I.getattr_(cls, "from_name", st), [k], {}, st)
    r = s.I.call(s.get("ellipsoid.resolve_ellipsoid"), [None], {}, st)
    b = dict(st.heap[r.oid])
    bad = [k for k in a if a[k] != b.get(k)]
    ck.fact(f"from_name/{mode}/default", not bad, f"the default ellipsoid's {bad} change after look-ups of other names", where, how="value numbering after a history of calls")


# ------------------------------------------------------------------ lists
def L(s, st, *xs):
    return s.I.alloc(st, "list", tuple(Sc(x, "py", "float") if isinstance(x, E.N) else x for x in xs))


def solver_stub():
    from checks.c12 import STUB

    return STUB


LISTS = {
    "nvector.nvector_mean": lambda s, st: [L(s, st, *[E.sym(f"{c}{i}") for i in range(3)]) for c in "xyz"],
    "karney.geodesic_area": lambda s, st: [L(s, st, *[E.sym(f"{c}{i}") for i in range(4)]) for c in ("lat", "lon")],
    "sidereal.greenwichsrt": lambda s, st: [L(s, st, *[E.sym(f"jd{i}") for i in range(3)])],
}


def lists(ck, key, make, mode, n):
    where = ck.where(key)
    s = ck.sess(mode, overrides=solver_stub())
    for deg in (True, False) if key.startswith("karney") else (None,):
        st = s.I.base.clone()
        before = snapshot(s, st)
        args = make(s, st)
        held = [st.heap[a.oid] for a in args]
        kw = {"ell": s.ellipsoid(st, "E", E.q(ASKED[0]), E.q(ASKED[1]))} if key.startswith("karney") else {}
        if deg is not None:
            kw["deg"] = Sc(E.TRUE if deg else E.FALSE, "py", "bool")
        out = s.run(key, args, kw, st)
        m = n + ("" if deg is None else "/deg" if deg else "/rad")
        report(ck, m, s, out, before, where)
        end = out.res.state
        ck.fact(f"{m}/lists", all(end.heap[a.oid] == h for a, h in zip(args, held)), "changes a list of the caller", where, how="abstract heap before and after")
