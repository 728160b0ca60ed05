"""C14: the Earth's rotation, one matrix built from the published models."""

from fractions import Fraction as F

from pms import earth as R
from pms import expr as E
from pms import spec as S
from pms.api import SIGS
from pms.equal import prove_eq
from pms.common import Domain, roles_of
from pms.values import Builtin, Func, Opq, Sc, Unsupported

RULE = (
    "the matrix's nine value numbers equal those of polar motion x sidereal rotation x nutation x precession with the published polynomials, for every epoch and "
    "Earth-orientation input; its rate equals the difference quotient; every ECI function applies that matrix of its own time, delta_ut1, xp and yp, or its transpose"
)
EXPLAIN = (
    "The matrix functions are interpreted with a symbolic epoch (Julian dates as an affine function of it, justified by C15) and compared with reference "
    "rotations; the functions built on them are interpreted with matrices that are unknown functions of the four inputs, and compared with matrix algebra."
)
EOP = ("delta_ut1", "xp", "yp")


def jd_override():
    """juliandate as the affine function of the epoch that it is (C15)"""

    def f(I, args, kw, st):
        t = args[0] if args else kw["time"]
        if not isinstance(t, Opq) or t.kind != "time":
            raise Unsupported(f"juliandate of {t!r}")
        return Sc(R.jd(I.lib.instant(t.node)), "py", "float")

    return {("pymap3d.earth_orientation", "juliandate"): lambda I, st, v: Builtin(v.name, f) if isinstance(v, Func) else v}


JD = jd_override()


def utc(name="U"):
    """a UTC instant with a symbolic epoch"""
    return Opq(E.ofn("epochtime", E.sym(name)), "time")


def opaque_matrices():
    def args_of(I, args, kw):
        d = dict(zip(("time", "delta_ut1", "xp", "yp", "dt_seconds"), args))
        d.update(kw)
        t = d["time"]
        return [I.lib.instant(t.node)] + [d[k].node if isinstance(d.get(k), Sc) else E.q(F(d.get(k, 0))) for k in EOP]

    def make(name):
        def f(I, args, kw, st):
            a = args_of(I, args, kw)
            return tuple(tuple(Sc(E.fn(f"{name}{i}{j}", *a), "py", "float") for j in range(3)) for i in range(3))

        return lambda I, st, v: Builtin(v.name, f) if isinstance(v, Func) else v

    m = "pymap3d.earth_orientation"
    return {(m, "eci_to_ecef_matrix"): make("M"), (m, "eci_to_ecef_matrix_rate"): make("D")}


MATS = opaque_matrices()
MATRIX = {k: f for k, f in MATS.items() if k[1] == "eci_to_ecef_matrix"}
ROLES = {"U": "U", "delta_ut1": "s", "xp": "1", "yp": "1"}


def check(ck):
    for f, ref in PARTS.items():
        ck.guarded(f, lambda: part(ck, f, ref), ck.where(f"earth_orientation.{f}"))
    ck.guarded("eci_to_ecef_matrix", lambda: matrix(ck), ck.where("earth_orientation.eci_to_ecef_matrix"))
    ck.guarded("eci_to_ecef_matrix_rate", lambda: rate(ck), ck.where("earth_orientation.eci_to_ecef_matrix_rate"))
    for key in ("eci.eci2ecef", "eci.ecef2eci", "eci.eci2ecef_state", "eci.ecef2eci_state"):
        for mode in ("py", "np0", "arr"):
            ck.guarded(f"{key}/{mode}", lambda: applied(ck, key, mode), ck.where(key))
    for key in ("aer.eci2aer", "aer.aer2eci", "ecef.eci2geodetic", "ecef.geodetic2eci"):
        for mode in ("py", "np0", "arr"):
            ck.guarded(f"{key}/{mode}", lambda: handed(ck, key, mode), ck.where(key))


def opaque_parts():
    """the factors of the product as unknown functions of their arguments: `part` shows separately what they are"""

    def make(name, shape):
        def f(I, args, kw, st):
            if kw or not all(isinstance(a, Sc) for a in args):
                raise Unsupported(f"{name} of {args!r}")
            a = [x.node for x in args] + [E.ZERO] * ((2 if name == "W" else 0) - len(args))
            if shape == 1:
                return Sc(E.fn(name, *a), "py", "float")
            return tuple(tuple(Sc(E.fn(f"{name}{i}{j}", *a), "py", "float") for j in range(3)) for i in range(3))

        return lambda I, st, v: Builtin(v.name, f) if isinstance(v, Func) else v

    def leap(I, args, kw, st):
        if len(args) != 1 or kw or not isinstance(args[0], Opq):
            raise Unsupported("leap_seconds")
        return Sc(E.fn("leap", I.lib.instant(args[0].node)), "py", "float")

    m = "pymap3d.earth_orientation"
    return {
        **JD,
        (m, "leap_seconds"): lambda I, st, v: Builtin(v.name, leap) if isinstance(v, Func) else v,
        (m, "precession_matrix"): make("P", 9),
        (m, "nutation_matrix"): make("N", 9),
        (m, "polar_motion_matrix"): make("W", 9),
        (m, "greenwich_apparent_sidereal_time"): make("G", 1),
    }


PARTWISE = opaque_parts()


def leaves(o, n):
    if o.definite:
        raise ValueError(f"always raises {o.definite}")
    if len(o.leaves) != n:
        raise ValueError(f"{len(o.leaves)} results")
    return o.leaves


def matrix(ck):
    s = ck.sess("py", overrides=JD)
    where = ck.where("earth_orientation.eci_to_ecef_matrix")
    v = {k: E.sym(k) for k in ("U", *EOP)}
    o = s.run("earth_orientation.eci_to_ecef_matrix", [utc()], {k: Sc(v[k], "py", "float") for k in EOP})
    want = R.matrix(v["U"], *[v[k] for k in EOP])
    d = Domain(ROLES, seed=ck.seed)
    for k, x in enumerate(leaves(o, 9)):
        i, j = divmod(k, 3)
        ck.eq(f"matrix/{i}{j}", x, want[i][j], d, where, f"row {i + 1}, column {j + 1} of the ECI to ECEF matrix is not that of the IAU models", ab=F(1, 10**10), prove=False, lemma=by_parts(ck, k, True))
    # without Earth-orientation inputs
    o = s.run("earth_orientation.eci_to_ecef_matrix", [utc()])
    want = R.matrix(v["U"], E.ZERO, E.ZERO, E.ZERO)
    for k, x in enumerate(leaves(o, 9)):
        i, j = divmod(k, 3)
        ck.eq(f"matrix/defaults/{i}{j}", x, want[i][j], Domain({"U": "U"}, seed=ck.seed), where, "the defaults of delta_ut1, xp and yp are not zero, or act", ab=F(1, 10**10), prove=False, lemma=by_parts(ck, k, False))


def partwise(ck, eop):
    """the nine entries with opaque factors, and the same product of opaque factors"""
    s = ck.sess("py", overrides=PARTWISE)
    v = {k: E.sym(k) if eop else E.ZERO for k in EOP}
    o = s.run("earth_orientation.eci_to_ecef_matrix", [utc()], {k: Sc(v[k], "py", "float") for k in EOP} if eop else {})
    u = E.sym("U")
    jut1, jtt = R.jd(E.add(u, v["delta_ut1"])), R.jd(E.add(u, E.fn("leap", u), E.q(F("32.184"))))
    t = R.centuries(jtt)
    m = lambda n, *a: [[E.fn(f"{n}{i}{j}", *a) for j in range(3)] for i in range(3)]  # noqa: E731
    want = R.chain(m("W", v["xp"], v["yp"]), R.rz(E.fn("G", jut1, jtt)), m("N", t), m("P", t))
    return list(zip(leaves(o, 9), flat(want)))


def by_parts(ck, k, eop):
    def lemma():
        got, want = partwise(ck, eop)[k]
        parts = [i for i in ck.items if i["item"].split("/")[0] in PARTS]
        if parts and all(i["verdict"] == "proved" for i in parts) and {i["item"].split("/")[0] for i in parts} == set(PARTS):
            return prove_eq(got, want, 8) and "normal forms equal with the factors as unknown functions, and each factor proved equal to its model"

    return lemma


def rate(ck):
    s = ck.sess("py", overrides=JD)
    where = ck.where("earth_orientation.eci_to_ecef_matrix_rate")
    v = {k: E.sym(k) for k in ("U", *EOP)}
    U = v["U"]
    for dt in (None, F(1, 2), F(1, 4)):
        kw = {k: Sc(v[k], "py", "float") for k in EOP}
        if dt is not None:
            kw["dt_seconds"] = Sc(E.q(dt), "py", "float")
        o = s.run("earth_orientation.eci_to_ecef_matrix_rate", [utc()], kw)
        h = dt or F(1, 2)
        a, b = (R.matrix(E.add(U, E.q(x)), *[v[k] for k in EOP]) for x in (h, -h))
        d = Domain(ROLES, seed=ck.seed, keep=lambda v: all(abs(v["U"] - e) > 50 for e in R.EPOCHS))
        for k, x in enumerate(leaves(o, 9)):
            i, j = divmod(k, 3)
            w = E.scale(E.sub(a[i][j], b[i][j]), 1 / (2 * h))
            lemma = None
            if all(it["verdict"] == "proved" for it in ck.items if it["item"].startswith("matrix/")):
                lemma = lambda k=k, dt=dt, h=h: quotient(ck, k, dt, h)  # noqa: E731
            # relative to the rate of rotation, 7e-5 rad/s
            ck.eq(f"rate/{dt or 'default'}/{i}{j}", x, w, d, where, f"row {i + 1}, column {j + 1} is not the time derivative of the matrix", rel=F(1, 10**8), ab=F(1, 10**13), prove=False, n=12, fast=True, lemma=lemma)


def quotient(ck, k, dt, h):
    """with the matrix an unknown function of its inputs"""
    s = ck.sess("py", overrides=MATRIX)
    v = {n: E.sym(n) for n in EOP}
    kw = {n: Sc(v[n], "py", "float") for n in EOP}
    if dt is not None:
        kw["dt_seconds"] = Sc(E.q(dt), "py", "float")
    o = s.run("earth_orientation.eci_to_ecef_matrix_rate", [utc()], kw)
    i, j = divmod(k, 3)
    m = lambda x: E.fn(f"M{i}{j}", E.add(E.sym("U"), E.q(x)), *[v[n] for n in EOP])  # noqa: E731
    if prove_eq(leaves(o, 9)[k], E.scale(E.sub(m(h), m(-h)), 1 / (2 * h)), 6):
        return "normal forms equal with the matrix as an unknown function of its inputs, itself proved equal to its model"


PARTS = {
    "precession_matrix": (["t"], R.precession, 9),
    "nutation_matrix": (["t"], R.nutation_matrix, 9),
    "polar_motion_matrix": (["1", "1"], R.polar, 9),
    "mean_obliquity": (["t"], R.obliquity, 1),
    "nutation_short": (["t"], R.nutation, 2),
    # an angle: compared as a direction
    "greenwich_apparent_sidereal_time": (["j", "j"], R.gast, 1),
    # an instant: its count of seconds
    "leap_seconds": (["U"], R.leap, 1),
}


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, (list, tuple)) else [x]


def part(ck, f, ref):
    roles, fn, n = ref
    where = ck.where(f"earth_orientation.{f}")
    s = ck.sess("py")
    if not s.has(f"earth_orientation.{f}"):
        return
    xs = [E.sym(f"x{i}") for i in range(len(roles))]
    o = s.run(f"earth_orientation.{f}", [Sc(x, "py", "float") for x in xs] if f != "leap_seconds" else [utc("x0")])
    d = Domain({f"x{i}": r for i, r in enumerate(roles)}, seed=ck.seed)
    for i, (x, w) in enumerate(zip(leaves(o, n), flat(fn(*xs)))):
        if f == "greenwich_apparent_sidereal_time":
            for g in (E.sin, E.cos):
                ck.eq(f"{f}/{g.__name__}", g(x), g(w), d, where, "differs from the published model", ab=F(1, 10**10), secs=15)
        elif f == "leap_seconds":
            ck.cells(f, x, w, xs[0], where, "TAI-UTC differs from the published list", d)
        else:
            ck.eq(f"{f}/{i}", x, w, d, where, "differs from the published model", ab=F(1, 10**11), secs=15)


# ------------------------------------------------------------------ use
def mats(name, v):
    a = [E.sym("U")] + [v[k] for k in EOP]
    return [[E.fn(f"{name}{i}{j}", *a) for j in range(3)] for i in range(3)]


def run(ck, key, mode, eop):
    s = ck.sess(mode, overrides=MATS)
    v = {"time": utc(), "t": utc()}
    sig = SIGS[key]
    for p in sig.pars:
        if p.name in EOP:
            v[p.name] = E.sym(p.name) if eop else None
    return s.call(key, v, ell="E" if sig.has("ell") else None, deg=True if sig.has("deg") else None)


def applied(ck, key, mode):
    where = ck.where(key)
    sig = SIGS[key]
    for eop in (True, False):
        o = run(ck, key, mode, eop)
        v = {k: E.sym(k) if eop else E.ZERO for k in EOP}
        M, D = mats("M", v), mats("D", v)
        p = [E.sym(k) for k in "xyz"]
        w = [E.sym(k) for k in ("vx", "vy", "vz")]
        Mt = S.transpose(M)
        if key.endswith("eci2ecef"):
            want = S.matvec(M, p)
        elif key.endswith("ecef2eci"):
            want = S.matvec(Mt, p)
        elif key.endswith("eci2ecef_state"):
            want = S.matvec(M, p) + [E.add(a, b) for a, b in zip(S.matvec(M, w), S.matvec(D, p))]
        else:
            r = S.matvec(Mt, p)
            want = r + S.matvec(Mt, [E.sub(a, b) for a, b in zip(w, S.matvec(D, r))])
        d = Domain({**roles_of(sig), **ROLES}, seed=ck.seed)
        for i, (x, y) in enumerate(zip(leaves(o, len(want)), want)):
            what = "position" if i < 3 else "velocity"
            ck.eq(f"{key}/{mode}/{'eop' if eop else 'plain'}/{i}", x, y, d, where, f"the {what} is not the one the matrix of this time and these Earth-orientation inputs gives")


def handed(ck, key, mode):
    """the matrix is asked for with the caller's own inputs"""
    where = ck.where(key)
    for eop in (True, False):
        o = run(ck, key, mode, eop)
        v = {k: E.sym(k) if eop else E.ZERO for k in EOP}
        want = {tuple([E.sym("U")] + [v[k] for k in EOP])}
        found = set()
        for x in o.leaves:
            for n in E.walk(x):
                if n.op == "fn" and n.a[0][:1] in "MD" and n.a[0][1:].isdigit() and len(n.a) == 5:
                    found.add(n.a[1:])
        n = f"{key}/{mode}/{'eop' if eop else 'plain'}"
        wrong = [f"({', '.join(E.show(a, 4) for a in t)})" for t in found - want]
        ck.fact(f"{n}/handed on", found == want if found else None, f"the rotation is computed from (time, delta_ut1, xp, yp) = {wrong}", where, how="arguments of the rotation in the result's value number")
