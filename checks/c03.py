"""C03: local frames are the rotations their definition says."""

from pms import expr as E
from pms import spec as S
from pms.common import MODES, MODE_NAME, dom, nodes, tol
from pms.api import SIGS

RULE = (
    "each matrix entry / rotated component equals the textbook rotation (east-north-up basis at "
    "lat0, lon0; NED/SEZ/NWU axis permutations; z-y-x Tait-Bryan body axes; down-range/cross-range by "
    "heading); each matrix is orthonormal with determinant 1 and its reverse is its transpose"
)
EXPLAIN = (
    "Matrices and vector rotations of every local frame, interpreted on symbolic angles and components "
    "in each representation; equality with the reference rotation is proved on normal forms "
    "(trigonometric polynomials modulo sin^2+cos^2=1), so it holds for all angles."
)
P = {n: E.sym(n) for n in "x y z u v w e n d s xb yb zb dr cr above east north up heading yaw pitch roll lon0".split()}
P["lat0"] = E.sym("lat0", latdeg=True)


def rad(n):
    return S.rad(P[n])


def refs():
    r = {}
    lat, lon = rad("lat0"), rad("lon0")
    ypr = [rad(k) for k in ("yaw", "pitch", "roll")]
    for fr in S.AXES:
        m = S.frame_rows(fr, lat, lon)
        r[f"{fr}.ecef2{fr}_matrix"] = m
        r[f"{fr}.{fr}2ecef_matrix"] = S.transpose(m)
        b = S.frame2body(fr, *ypr)
        r[f"body.{fr}2body_matrix"] = b
        r[f"body.body2{fr}_matrix"] = S.transpose(b)
        names = {"enu": "e n u", "ned": "n e d", "sez": "s e z", "nwu": "n w u"}[fr].split()
        r[f"body.{fr}2body"] = S.matvec(b, [P[k] for k in names])
        r[f"body.body2{fr}"] = S.matvec(S.transpose(b), [P[k] for k in ("xb", "yb", "zb")])
        if fr != "enu":
            r[f"{fr}.ecef2{fr}v"] = S.matvec(m, [P[k] for k in "xyz"])
        if fr != "ned":
            r[f"{fr}.{fr}2ecefv"] = S.matvec(S.transpose(m), [P[k] for k in names])
    r["body.body_matrix"] = r["body.ned2body_matrix"]
    m = S.enu_rows(lat, lon)
    uvw = [P[k] for k in "uvw"]
    r["ecef.ecef2enuv"] = r["ecef.uvw2enu"] = S.matvec(m, uvw)
    r["ecef.enu2uvw"] = S.matvec(S.transpose(m), [P[k] for k in ("east", "north", "up")])
    h = rad("heading")
    s, c = E.sin(h), E.cos(h)
    d = [[s, c, E.ZERO], [E.neg(c), s, E.ZERO], [E.ZERO, E.ZERO, E.ONE]]  # enu -> dca
    nd = S.AXES["ned"]
    r["dca.enu2dca"] = S.matvec(d, [P[k] for k in "enu"])
    r["dca.ned2dca"] = S.matvec(S.matmul(d, S.transpose(nd)), [P[k] for k in "ned"])
    dca = [P[k] for k in ("dr", "cr", "above")]
    r["dca.dca2enu"] = S.matvec(S.transpose(d), dca)
    r["dca.dca2ned"] = S.matvec(S.matmul(nd, S.transpose(d)), dca)
    return r


def frame_refs(fr):
    """body <-> ECEF vectors, through the named frame"""
    lat, lon = rad("lat0"), rad("lon0")
    b = S.matmul(S.frame2body(fr, *[rad(k) for k in ("yaw", "pitch", "roll")]), S.frame_rows(fr, lat, lon))
    return {
        "body.ecef2bodyv": S.matvec(b, [P[k] for k in "xyz"]),
        "body.body2ecefv": S.matvec(S.transpose(b), [P[k] for k in ("xb", "yb", "zb")]),
    }


def flat(m):
    return [x for r in m for x in r] if isinstance(m[0], list) else list(m)


def check(ck):
    R = refs()
    for key, want in R.items():
        where = ck.where(key)
        for mode in MODES:
            ck.guarded(f"{key}/{mode}", lambda: one(ck, key, mode, want, where), where)
    for fr in S.AXES:
        for key, want in frame_refs(fr).items():
            where = ck.where(key)
            for mode in MODES:
                ck.guarded(f"{key}/{fr}/{mode}", lambda: one(ck, key, mode, want, where, fr), where)


def one(ck, key, mode, want, where, frame=None):
    sig = SIGS[key]
    out = ck.sess(mode).call(key, extra={"frame": frame} if frame else {})
    d = dom(ck, sig)
    tag = f"/{frame}" if frame else ""
    if out.definite:
        ck.fact(f"{key}{tag}/{mode}", False, f"always raises {out.definite}", where)
        return
    got = nodes(out, sig)
    for ((n, r), g), w in zip(got, flat(want)):
        ck.eq(f"{key}.{n}{tag}/{mode}", g, w, d, where, f"{n} is not the reference rotation ({MODE_NAME[mode]})", ab=tol(r))
    if key.endswith("_matrix"):
        m = [[got[3 * i + j][1] for j in range(3)] for i in range(3)]
        mt = S.matmul(m, S.transpose(m))
        for i in range(3):
            for j in range(i, 3):
                ck.eq(f"{key}/orthonormal{i}{j}/{mode}", mt[i][j], S.IDENT[i][j], d, where, "rows are not orthonormal")
        det = S.dot(m[0], S.cross(m[1], m[2]))
        ck.eq(f"{key}/det/{mode}", det, E.ONE, d, where, "not a proper rotation")
