"""C15: time scales and sidereal time."""

import calendar
from fractions import Fraction as F

from checks.c14 import JD, MATS, PARTWISE
from pms import earth as R
from pms import expr as E
from pms.api import SIGS
from pms.common import Domain, roles_of
from pms.equal import prove_eq
from pms.values import Opq, Sc, Unsupported

RULE = (
    "the same instant gives the same value number however it is written (naive UTC, UTC, another zone); leap seconds equal the published step function on every piece; the "
    "Julian date's value number with symbolic fields folds to the calendar's for every year and month; sidereal time, obliquity and rotation angle equal the published polynomials"
)
EXPLAIN = (
    "Times are symbols: an epoch and, for zoned times, an unknown offset. Step functions are decided on each piece between their thresholds; the calendar is decided "
    "month by month with day and time of day symbolic; polynomials by normal forms."
)
U, OFF = E.sym("U"), E.sym("off")
TIMES = {
    "naive": Opq(E.ofn("naivetime", U), "time"),
    "UTC": Opq(E.ofn("epochtime", U), "time"),
    "zone": Opq(E.ofn("zonedtime", U, OFF), "time"),
}
FIELDS = ("year", "month", "day", "hour", "minute", "second", "microsecond")
EO = "earth_orientation"


def check(ck):
    g = ck.guarded
    for f in ("leap_seconds", "utc_to_tt", "utc_with_offset", "ensure_utc"):
        for t in TIMES:
            g(f"{f}/{t}", lambda: scale(ck, f, t), ck.where(f"{EO}.{f}"))
    g("offsets", lambda: offsets(ck), ck.where(f"{EO}.utc_with_offset"))
    for key in (f"{EO}.juliandate", "sidereal.juliandate"):
        g(f"{key}/calendar", lambda: calendar_(ck, key), ck.where(key))
        for t in TIMES:
            g(f"{key}/{t}", lambda: fields(ck, key, t), ck.where(key))
    g("lists", lambda: lists(ck), ck.where("sidereal.juliandate"))
    for f in POLY:
        g(f, lambda: poly(ck, f), ck.where(f))
    for mode in ("py", "np0", "arr"):
        for t in TIMES:
            g(f"datetime2sidereal/{mode}/{t}", lambda: sidereal(ck, mode, t), ck.where("sidereal.datetime2sidereal"))
    g("datetime2sidereal/forms", lambda: forms(ck), ck.where("sidereal.datetime2sidereal"))
    g("str2dt", lambda: texts(ck), ck.where("timeconv.str2dt"))
    g("eci/times", lambda: eci(ck), ck.where("eci.eci2ecef"))


def one(o):
    if o.definite:
        raise ValueError(f"always raises {o.definite}")
    return o.value


def node(o):
    one(o)
    if len(o.leaves) != 1:
        raise ValueError("several results")
    return o.leaves[0]


def fails(ck, name, o, where):
    """a call that always raises for a valid time refutes"""
    if o.definite:
        ck.fact(name, False, f"raises {o.definite} for a valid time", where, how="definite exception")
        return True
    return False


def epoch(s, o):
    v = one(o)
    if not isinstance(v, Opq) or v.kind != "time":
        raise Unsupported(f"{v!r} is not a time")
    return s.I.lib.epoch(v.node)


DOM = {"U": "U", "off": "s", "delta_ut1": "s", "k": "s"}


def dom(ck, roles=DOM):
    return Domain(roles, seed=ck.seed)


def scale(ck, f, t):
    s = ck.sess("py")
    where = ck.where(f"{EO}.{f}")
    key = f"{EO}.{f}"
    if not s.has(key):
        return
    k = E.sym("k")
    o = s.run(key, [TIMES[t]] + ([Sc(k, "py", "float")] if f == "utc_with_offset" else []))
    if fails(ck, f"{f}/{t}", o, where):
        return
    if f == "leap_seconds":
        ck.cells(f"{f}/{t}", node(o), R.leap(U), U, where, "TAI-UTC of this instant is not the published one", dom(ck))
        return
    got = epoch(s, o)
    want = {"utc_to_tt": E.add(U, R.leap(U), E.q(F("32.184"))), "utc_with_offset": E.add(U, k), "ensure_utc": U}[f]
    ck.cells(f"{f}/{t}", got, want, U, where, "is not the instant it should be", dom(ck), ab=F(1, 10**7), rel=F(0))
    tz = s.I.lib.aware(one(o).node)
    ck.fact(f"{f}/{t}/aware", tz, "the result is a naive time", where, how="time zone of the result's value number")


def offsets(ck):
    """the leap seconds used for TT are those of the UTC instant, not of the shifted one"""
    s = ck.sess("py")
    if not s.has(f"{EO}.utc_to_tt"):
        return
    where = ck.where(f"{EO}.utc_to_tt")
    o = s.run(f"{EO}.utc_to_tt", [TIMES["UTC"]])
    got = E.sub(epoch(s, o), U)
    for e in R.EPOCHS[1:]:
        for d in (-70, -36, -1, 0, 1, 36):
            x = E.subst(got, {U: E.q(e + d)})
            w = E.subst(R.leap(U), {U: E.q(e + d)})
            w = E.add(w, E.q(F("32.184")))
            ck.fact(f"TT/{e}/{d}", F(E.val(x)) == F(E.val(w)) if E.isq(x) else None, f"TT-UTC is {E.show(x, 3)}, not {E.show(w, 3)}", where, {"UTC": e + d}, how="constant folding")


def jd_ref(y, m):
    """Julian date at 0h of day 0 of the month"""
    days = 0
    # days from 1970-01-01 by the Gregorian rules
    yy = y - (m <= 2)
    era = yy // 400
    yoe = yy - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5
    days = era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468 - 1 + 1
    return F("2440587.5") + days - 1


assert jd_ref(1970, 1) + 1 == F("2440587.5") and jd_ref(2000, 3) - jd_ref(2000, 2) == 29
assert all((jd_ref(y, m) + 1 - F("2440587.5")) * 86400 == calendar.timegm((y, m, 1, 0, 0, 0)) for y in (1, 4, 1582, 1900, 2000, 2023) for m in range(1, 13))


def calendar_(ck, key):
    s = ck.sess("py")
    where = ck.where(key)
    v = {n: E.sym(n) for n in FIELDS}
    t = Opq(E.ofn("datetime", *[v[n] for n in FIELDS], E.const(None)), "time")
    o = s.run(key, [t])
    if fails(ck, f"{key}/calendar", o, where):
        return
    got = node(o)
    part = E.add(
        v["day"], E.scale(v["hour"], F(1, 24)), E.scale(v["minute"], F(1, 1440)), E.scale(v["second"], F(1, 86400)), E.scale(v["microsecond"], F(1, 86400 * 10**6))
    )
    if ck.tier == "quick":
        years = [1, 4, 99, 100, 101, 400, 1581, 1582, 1583] + list(range(1700, 2101)) + [2399, 2400, 2401, 9999]
    else:
        years = range(1, 10000)
    base = E.sub(got, part)
    wrong, open_ = [], 0
    for y in years:
        for m in range(1, 13):
            g = E.subst(base, {v["year"]: E.q(y), v["month"]: E.q(m)})
            if E.isq(g):
                if abs(F(E.val(g)) - jd_ref(y, m)) > F(1, 10**9):
                    wrong.append((y, m, float(E.val(g)), float(jd_ref(y, m))))
            elif prove_eq(g, E.q(jd_ref(y, m)), 0):
                pass
            else:
                open_ += 1
    n = f"{key}/{len(years)} years"
    if wrong:
        y, m, a, b = wrong[0]
        ck.fact(n, False, f"the Julian date of day 0 of {m}/{y} is {a}, not {b} ({len(wrong)} months differ)", where, {"year": y, "month": m}, how="constant folding with day and time of day symbolic")
    elif not open_:
        ck.fact(n, True, "", where, how="constant folding with day and time of day symbolic")
    else:
        d = Domain({"year": "s", "month": "s", "day": "s", "hour": "s", "minute": "s", "second": "s", "microsecond": "s"}, seed=ck.seed)
        bad = None
        for y, m in ((2000, 2), (2001, 1), (1999, 12), (1900, 3), (2024, 7)):
            g = E.subst(got, {v["year"]: E.q(y), v["month"]: E.q(m)})
            ck.eq(f"{n}/{y}-{m}", g, E.add(E.q(jd_ref(y, m)), part), d, where, "is not the Julian date of these fields", rel=F(0), ab=F(1, 10**6))
        del bad


def fields(ck, key, t):
    """the fields used are those of the time in UTC"""
    s = ck.sess("py")
    where = ck.where(key)
    o, ref = s.run(key, [TIMES[t]]), s.run(key, [TIMES["UTC"]])
    if fails(ck, f"{key}/{t}", o, where):
        return
    ck.eq(f"{key}/{t}", node(o), node(ref), dom(ck), where, "the Julian date depends on how the instant is written")
    v = {n: E.sym(n) for n in FIELDS}
    g = node(s.run(key, [Opq(E.ofn("datetime", *[v[n] for n in FIELDS], E.const(None)), "time")]))
    m = {v[n]: E.rfn("." + n, E.ofn("naivetime", U)) for n in FIELDS}
    ck.eq(f"{key}/{t}/fields", node(o), E.subst(g, m), dom(ck), where, "the calendar fields are not those of the instant in UTC")


def seq(s, vals, kind, st):
    return s.I.newlist(st, list(vals)) if kind == "list" else tuple(vals)


def lists(ck):
    for key, mk in (("sidereal.juliandate", lambda i: TIMES[("naive", "UTC", "zone")[i]]), ("sidereal.greenwichsrt", lambda i: Sc(E.sym(f"j{i}"), "py", "float"))):
        where = ck.where(key)
        s = ck.sess("py")
        for kind in ("list", "tuple"):
            st = s.I.base.clone()
            o = s.run(key, [seq(s, [mk(i) for i in range(3)], kind, st)], st=st)
            if fails(ck, f"{key}/{kind}", o, where):
                continue
            got = o.leaves
            want = [node(s.run(key, [mk(i)])) for i in range(3)]
            ck.fact(f"{key}/{kind}", len(got) == 3 and all(a is b for a, b in zip(got, want)), "a sequence does not give one result per element, in order", where, how="value numbers per element")


POLY = {
    f"{EO}.julian_centuries": ("j", R.centuries, None),
    f"{EO}.greenwich_mean_sidereal_time": ("j", R.gmst, "turn"),
    "sidereal.greenwichsrt": ("j", R.gmst, "turn"),
    f"{EO}.earth_rotation_angle": ("j", R.era, "turn"),
    f"{EO}.mean_obliquity": ("t", R.obliquity, None),
    f"{EO}.equation_of_equinoxes": ("t", R.equinoxes, None),
}


def turned(ck, name, got, want, d, where, what):
    """an angle in [0, one turn)"""
    ck.eq(f"{name}/sin", E.sin(got), E.sin(want), d, where, what, ab=F(1, 10**9))
    ck.eq(f"{name}/cos", E.cos(got), E.cos(want), d, where, what, ab=F(1, 10**9))
    ck.eq(f"{name}/range", E.mod(got, R.TAU), got, d, where, "the angle is not in [0, one turn)", ab=F(1, 10**9))


def poly(ck, key):
    role, ref, kind = POLY[key]
    s = ck.sess("py")
    if not s.has(key):
        return
    where = ck.where(key)
    x = E.sym("x")
    o = s.run(key, [Sc(x, "py", "float")])
    if fails(ck, key, o, where):
        return
    d = Domain({"x": role}, seed=ck.seed)
    if kind == "turn":
        turned(ck, key, node(o), ref(x), d, where, "is not the published polynomial")
    else:
        ck.eq(key, node(o), ref(x), d, where, "is not the published polynomial", ab=F(1, 10**12))


def sidereal(ck, mode, t, dut1=True):
    s = ck.sess(mode, overrides=JD)
    key = "sidereal.datetime2sidereal"
    where = ck.where(key)
    st = s.I.base.clone()
    lon = E.sym("lon")
    d = E.sym("delta_ut1")
    for eop in (True, False):
        kw = {"delta_ut1": Sc(d, "py", "float")} if eop else {}
        dd = d if eop else E.ZERO
        n = f"datetime2sidereal/{mode}/{t}/{'dut1' if eop else 'plain'}"
        o = s.run(key, [TIMES[t], s.num(st, lon)], kw, st=st)
        if fails(ck, n, o, where):
            continue
        got = node(o)
        want = E.add(R.gast(R.jd(E.add(U, dd)), R.jd(E.add(U, R.leap(U), E.q(F("32.184"))))), lon)
        dm = Domain({"U": "U", "delta_ut1": "s", "lon": "L"}, seed=ck.seed)
        for f in (E.sin, E.cos):
            ck.eq(f"{n}/{f.__name__}", f(got), f(want), dm, where, "is not Greenwich apparent sidereal time of this instant plus the longitude", ab=F(1, 10**9), prove=False, lemma=lambda: by_leap(ck, mode, t, eop, f))
        ck.eq(f"{n}/range", E.mod(got, R.TAU), got, dm, where, "the angle is not in [0, one turn)", ab=F(1, 10**9))


def by_leap(ck, mode, t, eop, f):
    """with TAI-UTC an unknown function of the instant (decided on its own)"""
    ok = [i for i in ck.items if i["item"].startswith("leap_seconds/")]
    if len(ok) < 3 or any(i["verdict"] != "proved" for i in ok):
        return None
    ov = {k: v for k, v in PARTWISE.items() if k[1] in ("juliandate", "leap_seconds")}
    s = BYLEAP.get((id(ck), mode)) or BYLEAP.setdefault((id(ck), mode), ck.sess(mode, overrides=ov))
    st = s.I.base.clone()
    lon, d = E.sym("lon"), E.sym("delta_ut1")
    kw = {"delta_ut1": Sc(d, "py", "float")} if eop else {}
    o = s.run("sidereal.datetime2sidereal", [TIMES[t], s.num(st, lon)], kw, st=st)
    dd = d if eop else E.ZERO
    want = E.add(R.gast(R.jd(E.add(U, dd)), R.jd(E.add(U, E.fn("leap", U), E.q(F("32.184"))))), lon)
    if prove_eq(f(node(o)), f(want), 4):
        return "normal forms equal with TAI-UTC an unknown function of the instant"


BYLEAP = {}


def forms(ck):
    """text, datetime64, sequences: the same as the datetime"""
    key = "sidereal.datetime2sidereal"
    where = ck.where(key)
    lon = E.sym("lon")
    for mode in ("py", "np0"):
        s = ck.sess(mode, overrides=JD)
        ref = node(s.run(key, [TIMES["naive"], Sc(lon, "py", "float")]))
        # text
        txt = Opq(E.osym("text"), "str")
        a = s.run(key, [txt, Sc(lon, "py", "float")])
        b = s.run(key, [Opq(E.ofn("fromisoformat", txt.node), "time"), Sc(lon, "py", "float")])
        if not fails(ck, f"forms/{mode}/text", a, where):
            ck.fact(f"forms/{mode}/text", node(a) is node(b) or None, "text gives another result than the time it denotes", where, how="same value number")
        for kind in ("list", "tuple"):
            st = s.I.base.clone()
            o = s.run(key, [seq(s, [TIMES["naive"], TIMES["zone"], txt], kind, st), Sc(lon, "py", "float")], {"delta_ut1": Sc(E.sym("delta_ut1"), "py", "float")}, st=st)
            if fails(ck, f"forms/{mode}/{kind}", o, where):
                continue
            kw = {"delta_ut1": Sc(E.sym("delta_ut1"), "py", "float")}
            want = [node(s.run(key, [x, Sc(lon, "py", "float")], kw)) for x in (TIMES["naive"], TIMES["zone"], txt)]
            ck.fact(f"forms/{mode}/{kind}", len(o.leaves) == 3 and all(x is y for x, y in zip(o.leaves, want)), "a sequence of times does not give one result per element, in order, with the same delta_ut1", where, how="value numbers per element")
        if mode == "np0":
            for u in ("ns", "us", "ms", "s", "m", "h", "D"):
                o = s.run(key, [Opq(E.ofn("time64", U, E.const(u)), "time64"), Sc(lon, "py", "float")])
                n = f"forms/datetime64[{u}]"
                if not fails(ck, n, o, where):
                    ck.eq(n, node(o), ref, Domain({"U": "U", "lon": "L"}, seed=ck.seed), where, "datetime64 gives another result than the same datetime")


def texts(ck):
    key = "timeconv.str2dt"
    where = ck.where(key)
    s = ck.sess("np0")
    txt = Opq(E.osym("text"), "str")
    for t, v in TIMES.items():
        o = s.run(key, [v])
        if not fails(ck, f"str2dt/{t}", o, where):
            ck.fact(f"str2dt/{t}", isinstance(o.value, Opq) and o.value.node is v.node, "a datetime is not returned as it is", where, how="same value number")
    o = s.run(key, [txt])
    if not fails(ck, "str2dt/text", o, where):
        r = o.value
        ck.fact("str2dt/text", True if isinstance(r, Opq) and r.node is E.ofn("fromisoformat", txt.node) else False if isinstance(r, Opq) and r.kind == "str" else None, "text is not read as an ISO time", where, how="same value number")
    for u in ("ns", "us", "ms", "s", "m", "h", "D"):
        o = s.run(key, [Opq(E.ofn("time64", U, E.const(u)), "time64")])
        n = f"str2dt/datetime64[{u}]"
        if fails(ck, n, o, where):
            continue
        r = o.value
        good = isinstance(r, Opq) and r.kind == "time"
        ck.fact(n, good, f"gives {r!r}, not a datetime", where, how="kind of the result")
        if good:
            ck.eq(n + "/instant", s.I.lib.epoch(r.node) if s.I.lib.aware(r.node) else s.I.lib.wall(r.node), U, dom(ck), where, "is another instant")
    for kind in ("list", "tuple"):
        st = s.I.base.clone()
        o = s.run(key, [seq(s, [txt, TIMES["naive"]], kind, st)], st=st)
        if not fails(ck, f"str2dt/{kind}", o, where):
            ok = len(o.leaves) == 2 and o.leaves[0] is E.ofn("fromisoformat", txt.node) and o.leaves[1] is TIMES["naive"].node
            ck.fact(f"str2dt/{kind}", ok, "a sequence does not give one time per element", where, how="value numbers per element")


def eci(ck):
    """every function of time sees the instant, not the way it is written"""
    for key in ("eci.eci2ecef", "eci.ecef2eci", "eci.eci2ecef_state", "eci.ecef2eci_state", "aer.eci2aer", "aer.aer2eci", "ecef.eci2geodetic", "ecef.geodetic2eci"):
        where = ck.where(key)
        s = ck.sess("py", overrides=MATS)
        out = {}
        for t, v in TIMES.items():
            o = s.call(key, {"time": v, "t": v}, ell="E" if not key.endswith("eci2aer") else None, deg=None)
            if fails(ck, f"{key}/{t}", o, where):
                break
            out[t] = o.leaves
        else:
            for t in ("naive", "zone"):
                for i, (a, b) in enumerate(zip(out[t], out["UTC"])):
                    ck.eq(f"{key}/{t}/{i}", a, b, Domain({**roles_of(SIGS[key]), "U": "U", "off": "s"}, seed=ck.seed), where, "the result depends on how the instant is written")
    ov = {k: v for k, v in PARTWISE.items() if k[1] not in ("juliandate", "leap_seconds")}
    s = ck.sess("py", overrides={**JD, **ov})
    for f in ("eci_to_ecef_matrix", "eci_to_ecef_matrix_rate"):
        where = ck.where(f"{EO}.{f}")
        ref = s.run(f"{EO}.{f}", [TIMES["UTC"]])
        for t in ("naive", "zone"):
            o = s.run(f"{EO}.{f}", [TIMES[t]])
            if not fails(ck, f"{f}/{t}", o, where):
                for i, (a, b) in enumerate(zip(o.leaves, ref.leaves)):
                    ck.eq(f"{f}/{t}/{i}", a, b, dom(ck), where, "the matrix depends on how the instant is written")
