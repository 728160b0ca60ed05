"""C17: the command line."""

import multiprocessing
import os

from pms import cli as C
from pms import expr as E
from pms.api import SIGS
from pms.equal import PROVED, REFUTED
from pms.values import Cls, Func, Opq, Ref, Sc, Unsupported

RULE = (
    "main() run abstractly on every command: the function of that name is called with exactly the values the texts denote (defaults of the function "
    "where an option is omitted, the ellipsoid named), and everything it returns is printed, in order, at the precision or in the format asked for"
)
EXPLAIN = (
    "pymap3d.__main__ is interpreted abstractly with models of argparse, inspect and json; arguments are texts of a class (decimal number, whole "
    "number, list, time, word) whose value is a symbol, results are symbols of every shape the functions return."
)
num = lambda n: C.AStr("num", n)  # noqa: E731
integer = lambda n: C.AStr("int", n)  # noqa: E731
when = lambda n: C.AStr("when", n)  # noqa: E731
lst = lambda n: C.AStr("list", n, [num(n + ".1"), integer(n + ".2"), num(n + ".3")])  # noqa: E731


def fl(n, k="py", t="float"):
    return Sc(E.sym(n), k, t)


RESULTS = {
    "tuple of floats": lambda: (fl("r1"), fl("r2"), fl("r3")),
    "float": lambda: fl("r"),
    "NumPy scalar": lambda: fl("r", "np"),
    "tuple of NumPy scalars": lambda: (fl("r1", "np"), fl("r2", "np")),
    "whole number": lambda: fl("r", "py", "int"),
    "tuple of arrays": lambda: (C.NArr((fl("r11", "np"), fl("r12", "np"))), C.NArr((fl("r21", "np"), fl("r22", "np")))),
    "array": lambda: C.NArr((fl("r1", "np"), fl("r2", "np"), fl("r3", "np"))),
    "0-d array": lambda: C.NArr(fl("r", "np")),
    "matrix as array": lambda: C.NArr(tuple(tuple(fl(f"r{i}{j}", "np") for j in "123") for i in "123")),
    "matrix as tuples": lambda: tuple(tuple(fl(f"r{i}{j}") for j in "123") for i in "123"),
    "time": lambda: Opq(E.osym("r.time"), "time"),
    "tuple of nine": lambda: tuple(fl(f"r{i}") for i in range(9)),
    "list": lambda: [fl(f"r{i}") for i in range(4)],
    "long array": lambda: C.NArr(tuple(fl(f"r{i}", "np") for i in range(40))),
    "nested tuple": lambda: (fl("r1"), (fl("r2"), fl("r3")), fl("r4")),
}


def timelike(f, name):
    key = f.mod.replace("pymap3d.", "") + "." + f.name
    s = SIGS.get(key)
    if s is not None:
        for p in s.pars:
            if p.name == name:
                return p.role == "t"
    return name in ("t", "time")


def params(f):
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(pos[len(pos) - len(f.defaults):], f.defaults))
    out = [(n, n in d, d.get(n)) for n in pos]
    out += [(x.arg, x.arg in f.kwdefaults, f.kwdefaults.get(x.arg)) for x in a.kwonlyargs]
    return out, bool(a.vararg or a.kwarg)


def same(got, want, st):
    """True, False or None (not known)"""
    if isinstance(want, C.AStr):  # the value of a text
        if want.kind == "list":
            if isinstance(got, C.NArr):
                xs = list(C.flat(got))
            elif isinstance(got, tuple) or (isinstance(got, Ref) and got.kind in ("list", "tuple")):
                xs = list(got if isinstance(got, tuple) else st.heap[got.oid])
            else:
                return None if isinstance(got, Opq) else False
            if len(xs) != len(want.items):
                return False
            r = [same(x, y, st) for x, y in zip(xs, want.items)]
            return False if False in r else None if None in r else True
        if want.kind == "when":
            if isinstance(got, Opq):
                return True if got.node is E.osym(f"the time that {want!r} names") else None
            return False
        if isinstance(got, Sc):
            return got.node is want.node
        return None if isinstance(got, Opq) else False
    if isinstance(want, Sc):
        if isinstance(got, Sc):
            if want.t == "bool" and got.t != "bool":
                return False
            if got.node is want.node:
                return True
            return False if (E.isq(got.node) or got.node.sort == "b" or got.node.op == "sym") else None
        return None if isinstance(got, Opq) else False
    if want is None or isinstance(want, str):
        if isinstance(got, Opq):
            return None
        return got == want and type(got) is type(want)
    return None


def check(ck):
    w = ck.where("__main__.main")
    try:
        cli = C.Cli(ck.p)
    except Exception as e:  # noqa: BLE001
        if isinstance(e, (Unsupported, KeyError, C.AbsRaise)):
            ck.record("load", "unknown", f"construct not modelled: {e}", w)
            return
        raise
    jobs = [("ellipsoids", ellipsoids, ()), ("python -m pymap3d", script, ())]
    for n in sorted(cli.all):
        f = cli.pm.get(n)
        if isinstance(f, Cls):
            continue
        if not isinstance(f, Func):
            ck.record(f"{n}/command", "unknown", f"export of kind {f!r}", w)
            continue
        jobs.append((f"{n}/command", command, (n,)))
    for kind in RESULTS:
        for prec in (None, "0", "3", "12"):
            jobs.append((f"text of {kind}/precision {prec}", emission, (kind, prec, False)))
        jobs.append((f"JSON of {kind}", emission, (kind, None, True)))
        jobs.append((f"JSON of {kind}/precision 2", emission, (kind, "2", True)))
    global STATE
    STATE = (ck, cli, w, jobs)
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        for items in pool.map(work, range(len(jobs)), chunksize=4):
            for i in items:
                ck.record(i["item"], i["verdict"], i["detail"], i["where"], i["witness"], i["how"])


STATE = None


def work(k):
    ck, cli, w, jobs = STATE
    ck.items, ck.known = [], {}
    name, fn, args = jobs[k]
    ck.guarded(name, lambda: fn(ck, cli, w, *args), w)
    return ck.items


def axes(v, st):
    if not (isinstance(v, Ref) and v.kind == "inst" and v.cls.name == "Ellipsoid"):
        return None
    d = st.heap[v.oid]
    a, b = d.get("semimajor_axis"), d.get("semiminor_axis")
    return (a.node, b.node, d.get("model")) if isinstance(a, Sc) and isinstance(b, Sc) else None


def named(cli, name):
    """axes of the ellipsoid of this name, by Ellipsoid.from_name itself"""
    I = cli.I
    st = I.base.clone()
    I.stack = [("?", "<entry>", 0)]
    c = cli.pm["Ellipsoid"]
    return axes(I.call(I.getattr_(c, "from_name", st), [name], {}, st), st)


def models(cli):
    c = cli.pm["Ellipsoid"]
    return [k for k in cli.I.iterate(c.find("models"), cli.I.base)]


def ellipsoids(ck, cli, w):
    toks = [num("lat"), num("lon"), num("alt")]
    for m in models(cli):
        if not ck.wants(f"ellipsoid {m}"):
            continue
        calls, _, exc, st, _ = cli.go(["--ellipsoid", m.lower(), "geodetic2ecef", *toks], RESULTS["tuple of floats"]())
        if exc is not None:
            ck.fact(f"ellipsoid {m}", False, f"--ellipsoid {m.lower()} is not accepted: {exc}", w, how="abstract run")
            continue
        got, want = axes(calls[-1][2].get("ell"), st), named(cli, m)
        ck.fact(f"ellipsoid {m}", None if got is None and want is None else got == want, f"the ellipsoid passed is {got}, asked for {want}", w, how="abstract run")


def command(ck, cli, w, n):
    f = cli.pm[n]
    ps, variadic = params(f)
    if variadic:
        ck.record(f"{n}/command", "unknown", "variadic function", w)
        return
    one(ck, cli, n, f, ps, "plain", w)
    one(ck, cli, n, f, ps, "lists, options, flags off", w)
    one(ck, cli, n, f, ps, "whole numbers, options first, flags on", w)
    if ck.tier == "thorough":
        for p, _, _ in ps:
            if p != "ell":
                for k in ("lists", "whole"):
                    one(ck, cli, n, f, ps, f"{k}: only {p}", w, p)


def one(ck, cli, n, f, ps, how, w, only=None):
    """one abstract run; only: the parameter that is not given as in the plain run"""
    name = f"{n}/{how}"
    if not ck.wants(name):
        return
    pos, opts, want = [], [], {}
    second, third = how.startswith("lists"), how.startswith("whole")
    ell = "wgs84"
    style = second, third
    for p, has, d in ps:
        second, third = style if only in (None, p) else (False, False)
        t = timelike(f, p)
        opt = "--" + p.replace("_", "-")
        if p == "ell":
            ell = "mars" if style[0] else "clarke1866" if style[1] else "wgs84"
            continue
        if not has:
            v = when(p) if t else lst(p) if second else integer(p) if third else num(p)
            pos.append(v)
            want[p] = v
        elif not (second or third):
            want[p] = d
        elif isinstance(d, Sc) and d.t == "bool":
            want[p] = Sc(E.FALSE if second else E.TRUE, "py", "bool")
            opts.append("--no-" + p.replace("_", "-") if second else opt)
        elif isinstance(d, str):
            v = {"frame": "nwu", "sequence": "xyz"}.get(p, "Word") if second else {"frame": "enu", "sequence": "yzx"}.get(p, "w,x")
            want[p] = v
            opts += [opt, v]
        else:
            v = when(p) if t else num(p) if second else integer(p)
            want[p] = v
            opts += [opt, v]
    second, third = style
    glob = ["--ellipsoid", ell] if (second or third) else []
    prec = None
    if second:
        glob += ["--precision", "4"]
        prec = "4"
    if third:
        glob = ["--output", "json"] + glob
    toks = glob + [n] + (opts + pos if third else pos + opts)
    result = RESULTS["tuple of floats"]()
    try:
        calls, printed, exc, st, helps = cli.go(toks, result)
    except Unsupported as e:
        ck.record(name, "unknown", f"construct not modelled: {e}", w)
        return
    line = " ".join(map(str, toks))
    if exc is not None:
        ck.fact(name, False, f"{exc.name}: {exc.msg} at {exc.where} for: {line}"[:400], w, how="abstract run")
        return
    if not calls or calls[-1][0] != id(f):
        ck.fact(name, False if calls else None, f"command calls {calls[-1][1] if calls else 'nothing recognised'} for: {line}"[:300], w, how="abstract run")
        return
    fr = calls[-1][2]
    ok, why = True, []
    for p, v in want.items():
        s = same(fr.get(p), v, st)
        if f.name == "str2dt" and s is None and isinstance(fr.get(p), C.AStr):
            s = fr.get(p) is v
        if s is False:
            ok = False
            why.append(f"{p} receives {fr.get(p)!r} instead of {'the value of ' if isinstance(v, C.AStr) else ''}{v!r}")
        elif s is None and ok:
            ok = None
            why.append(f"{p} receives {fr.get(p)!r}")
    if any(p == "ell" for p, _, _ in ps):
        got, exp = axes(fr.get("ell"), st), named(cli, ell)
        if got != exp:
            ok = False if got is not None or fr.get("ell") is None else None
            why.append(f"the ellipsoid passed is {got}, {ell} is {exp}")
    ck.fact(name, ok, ("; ".join(why) + f" for: {line}")[:500] if why else "", w, how="abstract run")
    if f.name == "str2dt":
        result = calls[-1][2].get("time")
        result = Opq(E.osym(f"the time that {pos[0]!r} names"), "time") if pos[0].kind == "when" else result
    ok, why = output(printed, result, prec, third)
    ck.fact(name + "/output", ok, f"{why} for: {line}"[:400] if why else "", w, how="abstract run")
    if how == "plain":
        bad = [h for h in helps if not percent_ok(h)]
        ck.fact(f"{n}/help", not bad and not cli.I.negative, f"help text that argparse cannot format: {bad[:1]}; options that look like numbers: {cli.I.negative}" if bad or cli.I.negative else "", w, how="abstract run")


class _D(dict):
    def __missing__(self, k):
        return "x"


def percent_ok(h):
    try:
        h % _D()
        return True
    except (ValueError, TypeError):
        return False


def leaf_ok(part, v, prec):
    """does this rendering show the value v at this precision?"""
    _, how, spec, x = part
    if isinstance(v, Opq):
        return isinstance(x, Opq) and x.node is v.node
    if not isinstance(x, Sc):
        return None if isinstance(x, (Opq, C.NArr)) else False
    if x.node is not v.node:
        if x.node.op == "rfn" and "round" in str(x.node.a[:1]):
            return None
        return False
    if v.t == "int":
        return True
    if prec is None:
        return how == "str"
    return how == "fmt" and spec == f".{prec}f"


def output(printed, result, prec, json):
    """does what was printed show the whole result?"""
    if any(f not in (None, "sys.stdout") for _, f in printed):
        return False, "printed elsewhere than standard output"
    parts = []
    for r, _ in printed:
        parts += list(r.parts) + [("lit", "\n")]
    vals = list(C.flat(result)) if not isinstance(result, Opq) else [result]
    if json:
        js = [p for p in parts if p[0] == "json"]
        if len(js) != 1 or any(p[0] == "val" for p in parts) or any(p[0] == "lit" and p[1].strip() for p in parts):
            return False, f"prints {printed!r} instead of one JSON document"
        return structure(js[0][1], result)
    if any(p[0] == "json" for p in parts):
        return False, "prints JSON when text is asked for"
    out = [p for p in parts if p[0] == "val"]
    for a, b in zip(parts, parts[1:]):
        if a[0] == "val" and b[0] == "val":
            return False, "values are printed without separation"
    if len(out) == 1 and len(vals) > 1 and out[0][1] == "array":
        got = list(C.flat(out[0][3]))
        if [x.node for x in got] != [x.node for x in vals]:
            return False, "wrong values"
        return (None, "array printed by NumPy") if prec is None else (False, f"array printed without regard to precision {prec}")
    if len(out) != len(vals):
        if any(p[1] == "array" for p in out) and prec is None:
            return None, "array printed by NumPy"
        return False, f"{len(out)} values printed, the result has {len(vals)}"
    r = [leaf_ok(p, v, prec) for p, v in zip(out, vals)]
    if False in r:
        k = r.index(False)
        return False, f"value {k + 1} is printed as {out[k][1:]} (precision {prec})"
    return (None if None in r else True), "" if None not in r else "rendering not understood"


def structure(got, want):
    if isinstance(want, C.NArr):
        return structure(got, want.items)
    if isinstance(want, (tuple, list)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return False, f"JSON {got!r} instead of an array of {len(want)}"
        r = [structure(a, b) for a, b in zip(got, want)]
        for v in (False, None):
            for x in r:
                if x[0] is v:
                    return x
        return True, ""
    if isinstance(want, Opq):
        if isinstance(got, C.Rope):
            xs = [p for p in got.parts if p[0] == "val"]
            return (len(xs) == 1 and isinstance(xs[0][3], Opq) and (True if xs[0][3].node is want.node else None), "text of the time")
        if isinstance(got, Opq) and "isoformat" in str(got.node):
            return True, ""
        return None, f"JSON {got!r}"
    if isinstance(got, Sc):
        return got.node is want.node, f"JSON holds {got!r} instead of {want!r}"
    return (None if isinstance(got, (Opq, C.Rope)) else False), f"JSON holds {got!r} instead of the number"


def emission(ck, cli, w, kind, prec, json):
    name = f"{'JSON' if json else 'text'} of {kind}" + (f"/precision {prec}" if prec or not json else "")
    if not ck.wants(name):
        return
    result = RESULTS[kind]()
    toks = (["--output", "json"] if json else []) + (["--precision", prec] if prec else []) + ["geodetic2ecef", num("a"), num("b"), num("c")]
    _, printed, exc, _, _ = cli.go(toks, (lambda st: cli.I.newlist(st, result)) if isinstance(result, list) else result)
    if exc is not None:
        ck.fact(name, False, f"{exc.name}: {exc.msg} at {exc.where}", w, how="abstract run")
        return
    ok, why = output(printed, result, None if json else prec, json)
    ck.fact(name, ok, why, w, how="abstract run")


def script(ck, cli, w):
    f = cli.pm["geodetic2ecef"]
    calls, printed, exc, _, _ = cli.go(["geodetic2ecef", "40.0", "-105.0", "1600.0"], RESULTS["tuple of floats"](), script=True)
    if exc is not None:
        ck.fact("python -m pymap3d", False, f"{exc.name}: {exc.msg} at {exc.where}", w, how="abstract run")
        return
    ok = bool(calls) and calls[-1][0] == id(f)
    if ok:
        fr = calls[-1][2]
        ok = all(isinstance(fr[p], Sc) and fr[p].node is E.q(v) for p, v in (("lat", 40), ("lon", -105), ("alt", 1600)))
    ck.fact("python -m pymap3d", ok and bool(printed), "executing the module does not run the command" if not ok else "", w, how="abstract run")
