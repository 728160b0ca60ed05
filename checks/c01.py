"""C01: degrees and radians are the same computation."""

from pms import expr as E
from pms.api import SIGS
from pms.common import MODE_NAME, R2D, dom, modes_of, nodes, tol

RULE = (
    "value number of f(angles*pi/180, deg=False) equals the value number of f(angles, deg=True), "
    "result angles multiplied by 180/pi; deg omitted equals deg=True; and all raise conditions agree"
)
EXPLAIN = (
    "Every public function with a `deg` switch is interpreted abstractly twice, on symbolic inputs, in "
    "each representation (Python floats without NumPy, Python floats with NumPy, NumPy arrays); each "
    "result is one obligation. Holds for all real inputs of the documented kinds."
)


def raise_conds(out):
    d = {}
    for g, x in out.raises:
        d[x.name] = E.or_(d.get(x.name, E.FALSE), g)
    return d


def check(ck):
    for key, sig in SIGS.items():
        if not sig.has("deg"):
            continue
        where = ck.where(key)
        for mode in modes_of(key):
            ck.guarded(f"{key}/{mode}", lambda: one(ck, key, sig, mode, where), where)


def one(ck, key, sig, mode, where):
    s = ck.sess(mode)
    a = s.call(key, deg=True)
    b = s.call(key, deg=False)
    c = s.call(key, deg=None)
    if a.definite or b.definite:
        if mode == "py" and a.definite and b.definite:
            return  # needs NumPy: C11
        ck.fact(f"{key}/{mode}/defined", bool(a.definite) == bool(b.definite), f"always raises: deg=True {a.definite}, deg=False {b.definite}", where)
        return
    ell = ("E",) if sig.has("ell") else ()
    d = dom(ck, sig, *ell)
    for ((n, r), x), (_, y), (_, z) in zip(nodes(a, sig), nodes(b, sig), nodes(c, sig)):
        u = E.mul(y, R2D) if r in "aL" else y
        ck.eq(f"{key}.{n}/{mode}/radians", u, x, d, where, f"{n} with deg=False is not the deg=True result ({MODE_NAME[mode]})", ab=tol(r))
        ck.eq(f"{key}.{n}/{mode}/default", z, x, d, where, f"{n} without deg is not the deg=True result", ab=tol(r))
    ra, rb = raise_conds(a), raise_conds(b)
    for nm in sorted(set(ra) | set(rb)):
        ck.eq(f"{key}/{mode}/raises {nm}", rb.get(nm, E.FALSE), ra.get(nm, E.FALSE), d, where, f"{nm} is raised for different inputs in radians and degrees")
