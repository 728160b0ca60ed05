"""C02: the ellipsoid argument is honoured, and omitting it means WGS84."""

from fractions import Fraction as F

from pms import expr as E
from pms.api import SIGS
from pms.common import MODE_NAME, dom, modes_of, nodes, tol
from pms.domain import Domain

RULE = (
    "value number of f(.., ell=None) equals that of f(.., ell=X) for X an explicit ellipsoid with the axes of the WGS84 "
    "table entry; the value number of f(.., ell=X) does not depend on the WGS84 table entry"
)
EXPLAIN = (
    "Every public function taking `ell` is interpreted with an explicit symbolic ellipsoid (a, f) and "
    "with the argument omitted, while the built-in WGS84 axes are themselves symbols; both results are "
    "value numbers and compared for all inputs. A default ellipsoid reaching a computation that was "
    "given an explicit one shows up as a dependence on the WGS84 symbols."
)


def wsyms():
    return E.sym("W.a", pos=True), E.sym("W.f", pos=True, lt=1)


def check(ck):
    ws = wsyms()
    for key, sig in SIGS.items():
        if not sig.has("ell"):
            continue
        where = ck.where(key)
        for mode in modes_of(key):
            ck.guarded(f"{key}/{mode}", lambda: one(ck, key, sig, mode, where, ws), where)


def variants(key):
    if key == "rsphere.curve" or key in ("rsphere.triaxial", "rsphere.biaxial"):
        return [{"method": "mean"}, {"method": "norm"}]
    if "body" in key and SIGS[key].has("frame"):
        return [{"frame": f} for f in ("ned", "enu", "sez", "nwu")]
    return [{}]


def one(ck, key, sig, mode, where, ws):
    s = ck.sess(mode, wgs=ws)
    for ex in variants(key):
        tag = "".join(f"/{v}" for v in ex.values())
        x = s.call(key, ell="E", extra=ex)
        y = s.call(key, ell=None, extra=ex)
        z = s.call(key, ell=ws, extra=ex)
        if x.definite or y.definite:
            if mode == "py" and x.definite and y.definite:
                continue
            ck.fact(f"{key}/{mode}{tag}/defined", bool(x.definite) == bool(y.definite), f"raises: {x.definite} / {y.definite}", where)
            continue
        d = dom(ck, sig, "E", "W")
        d1 = dom(ck, sig, "W")
        d2 = dom(ck, sig, "E", "W", "V")
        w2 = {ws[0]: E.sym("V.a", pos=True), ws[1]: E.sym("V.f", pos=True, lt=1)}
        for ((n, r), p), (_, o), (_, want) in zip(nodes(x, sig), nodes(y, sig), nodes(z, sig)):
            if set(E.free(p)) & set(ws):
                ck.eq(f"{key}.{n}/{mode}{tag}/leak", p, E.subst(p, w2), d2, where, f"{n} computed with an explicit ellipsoid depends on the default WGS84 ({MODE_NAME[mode]})", ab=tol(r))
            else:
                ck.fact(f"{key}.{n}/{mode}{tag}/leak", True, where=where, how="no WGS84 symbol in the value number")
            ck.eq(f"{key}.{n}/{mode}{tag}/default", o, want, d1, where, f"{n} with ell omitted is not the WGS84 result ({MODE_NAME[mode]})", ab=tol(r))
