"""C18: the package surface."""

import ast
import builtins
import symtable
import sys

from checks.signatures import SIGNATURES
from pms import expr as E
from pms.api import SIGS
from pms.session import Missing
from pms.values import Builtin, Cls, Func, Sc

RULE = (
    "every advertised name is bound under every configuration, package exports are the objects of their home modules, signatures are the documented "
    "ones, module-level imports are guarded unless standard, every global name a function uses is bound somewhere in its module, and all modules are in "
    "the language of the oldest declared Python"
)
EXPLAIN = (
    "All modules are loaded abstractly with and without NumPy and with Astropy; __all__ lists, bindings, aliases and signatures are compared with the "
    "documented tables; syntax trees and symbol tables are searched for unguarded imports, undefined names and newer syntax."
)
# home module of every exported name
EXPORTS = {
    "aer": "aer2ecef aer2geodetic ecef2aer geodetic2aer aer2eci eci2aer",
    "body": "body_matrix ned2body_matrix body2ned_matrix enu2body_matrix body2enu_matrix ned2body body2ned enu2body body2enu sez2body body2sez nwu2body body2nwu sez2body_matrix body2sez_matrix nwu2body_matrix body2nwu_matrix ecef2body body2ecef ecef2bodyv body2ecefv geodetic2body body2geodetic",
    "ecef": "ecef2enu ecef2enuv ecef2geodetic eci2geodetic enu2ecef enu2uvw geodetic2ecef geodetic2eci uvw2enu",
    "ellipsoid": "Ellipsoid",
    "enu": "aer2enu enu2aer enu2geodetic enu2ecefv geodetic2enu ecef2enu_matrix enu2ecef_matrix",
    "ned": "aer2ned ecef2ned ecef2nedv ecef2ned_matrix geodetic2ned ned2aer ned2ecef ned2ecef_matrix ned2geodetic",
    "sez": "aer2sez ecef2sez ecef2sezv ecef2sez_matrix geodetic2sez sez2aer sez2ecef sez2ecefv sez2ecef_matrix sez2geodetic",
    "nwu": "aer2nwu ecef2nwu ecef2nwuv ecef2nwu_matrix geodetic2nwu nwu2aer nwu2ecef nwu2ecefv nwu2ecef_matrix nwu2geodetic",
    "sidereal": "datetime2sidereal greenwichsrt",
    "spherical": "geodetic2spherical spherical2geodetic",
    "timeconv": "str2dt",
    "azelradec": "azel2radec radec2azel",
    "rcurve": "parallel meridian transverse geocentric_radius",
    "latitude": "geodetic2isometric isometric2geodetic geodetic2rectifying rectifying2geodetic geodetic2conformal conformal2geodetic geodetic2parametric parametric2geodetic geodetic2geocentric geocentric2geodetic geodetic2authalic authalic2geodetic geod2geoc=geodetic2geocentric geoc2geod",
    "nvector": "nvector2geodetic geodetic2nvector ecef2nvector nvector2ecef nvector_distance nvector_interpolate nvector_mean nvector_cross_track_distance nvector_intersection",
    "dca": "enu2dca dca2enu dca2ned ned2dca ecef2dca dca2ecef geodetic2dca dca2geodetic aer2dca dca2aer",
    "eci": "ecef2eci eci2ecef ecef2eci_state eci2ecef_state",
}
# documented second names of one function: name -> original
ALIASES = {
    "latitude.geod2geoc": "latitude.geodetic2geocentric", "aer.ecef2enu": "ecef.ecef2enu", "enu.enu2ecef": "ecef.enu2ecef", "enu.ecef2enu": "ecef.ecef2enu",
}
CONFIGS = {"py": ("py", False), "numpy": ("np0", False), "astropy": ("np0", True)}
NEWER = {  # names of standard modules introduced after Python 3.9
    "math": {"cbrt", "exp2", "sumprod", "fma"}, "datetime": {"UTC"}, "typing": {"Self", "TypeAlias", "ParamSpec", "override", "Never", "assert_never", "Unpack", "TypeVarTuple", "Required", "NotRequired", "LiteralString", "assert_type", "Concatenate", "TypeGuard"},
    "itertools": {"pairwise", "batched"}, "enum": {"StrEnum"}, "functools": set(), "types": {"NoneType", "EllipsisType", "UnionType"},
    "collections.abc": {"Buffer"}, "inspect": {"get_annotations"},
}


def same(a, b):
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node and a.mod == b.mod
    if isinstance(a, Builtin) and isinstance(b, Builtin):
        return a.name == b.name
    if isinstance(a, Cls) and isinstance(b, Cls):
        return a is b or (a.name, a.mod) == (b.name, b.mod)
    return a is b


def find(s, key):
    """value of module.name or module.Class.method"""
    parts = key.split(".")
    try:
        return s.get(key)
    except Missing:
        if len(parts) < 3:
            raise
        c = s.get(".".join(parts[:-1]))
        v = c.find(parts[-1]) if isinstance(c, Cls) else None
        if v is None:
            raise
        return getattr(v, "f", v) if not isinstance(v, Func) else v


def check(ck):
    for m, e in ck.p.bad.items():
        ck.fact(f"syntax/{m}", False, f"{ck.p.path(m)} is not Python: {e}", ck.p.path(m), how="parser")
    sess = {}
    for c, (mode, astro) in CONFIGS.items():
        try:
            sess[c] = ck.sess(mode, astropy=astro)
        except Exception as e:  # noqa: BLE001
            name = getattr(getattr(e, "exc", None), "name", "")
            if name:
                ck.fact(f"import/{c}", False, f"importing the package fails {c}: {e.exc}", "src/pymap3d/__init__.py", how="abstract loading")
            else:
                ck.record(f"import/{c}", "UNKNOWN", f"construct not modelled: {e}")
    for c, s in sess.items():
        exports(ck, c, s)
        alls(ck, c, s)
        signatures(ck, c, s)
        for k, o in ALIASES.items():
            if not s.has(k):
                if k == "latitude.geod2geoc":
                    ck.fact(f"alias/{c}/{k}", False, f"{k} is gone", ck.where(k), how="name resolution")
                continue
            ck.fact(f"alias/{c}/{k}", same(s.get(k), s.get(o)), f"{k} is not {o}", ck.where(o), how="name resolution")
    for m in sorted(ck.p.trees):
        imports(ck, m)
        undefined(ck, m)
        oldest(ck, m)


def exports(ck, c, s):
    fr = s.I.base.mods["pymap3d"]
    for m, names in EXPORTS.items():
        for n in names.split():
            n, _, o = n.partition("=")
            item = f"export/{c}/{n}"
            where = ck.where(f"{m}.{o or n}")
            if n not in fr:
                ck.fact(item, False, f"pymap3d.{n} is gone", "src/pymap3d/__init__.py", how="name resolution")
                continue
            try:
                home = s.get(f"{m}.{o or n}")
            except Missing:
                ck.fact(item, False, f"{m}.{o or n} is gone", where, how="name resolution")
                continue
            ck.fact(item, same(fr[n], home), f"pymap3d.{n} is {fr[n]!r}, not {m}.{o or n}", where, how="name resolution")
    names = list_of(s, "pymap3d")
    if names is not None:
        want = {n.partition("=")[0] for v in EXPORTS.values() for n in v.split()}
        for n in sorted(want):
            ck.fact(f"all/{c}/pymap3d/{n}", n in names, f"pymap3d.__all__ does not list {n}", "src/pymap3d/__init__.py", how="name resolution")


def list_of(s, mod):
    fr = s.I.base.mods.get(mod)
    if fr is None or "__all__" not in fr:
        return None
    v = fr["__all__"]
    try:
        xs = s.I.base.heap[v.oid] if hasattr(v, "oid") else v
        return [x if isinstance(x, str) else x.node.a[0] for x in xs]
    except (TypeError, AttributeError, KeyError):
        return None


def alls(ck, c, s):
    for m in ck.p.trees:
        names = list_of(s, m)
        if names is None:
            continue
        fr = s.I.base.mods[m]
        for n in names:
            ck.fact(f"all/{c}/{m}.{n}", n in fr, f"{m}.__all__ lists {n}, which is not bound ({c})", ck.p.path(m), how="name resolution")
        ck.fact(f"all/{c}/{m}/once", len(set(names)) == len(names), f"{m}.__all__ lists a name twice: {[n for n in names if names.count(n) > 1]}", ck.p.path(m), how="name resolution")


def value(v):
    if v is None or isinstance(v, (bool, str, int, float)):
        return repr(v) if not isinstance(v, str) else v
    if isinstance(v, Sc):
        n = v.node
        if n is E.TRUE or n is E.FALSE:
            return "True" if n is E.TRUE else "False"
        if n.op == "q":
            return repr(float(E.val(n)))
        if n.op == "const":
            return str(n.a[0])
    return "?"


def number(t):
    try:
        return repr(float(t))
    except ValueError:
        return t


def signature(f):
    a = f.node.args
    if a.vararg or a.kwarg or f.wrap not in (None, "classmethod", "staticmethod", "lru"):
        return None
    pos = a.posonlyargs + a.args
    ds = f.defaults or []
    out = []
    off = len(pos) - len(ds)
    for i, p in enumerate(pos):
        out.append((p.arg, "pos", value(ds[i - off]) if i >= off else None))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        kd = f.kwdefaults or {}
        v = kd.get(p.arg) if isinstance(kd, dict) else None
        out.append((p.arg, "kw", value(v) if d is not None else None))
    return out


def signatures(ck, c, s):
    for k, spec in SIGNATURES.items():
        item = f"signature/{c}/{k}"
        where = ck.where(k)
        try:
            f = find(s, k)
        except Missing:
            ck.fact(item, False, f"{k} is gone", where, how="signature table")
            continue
        if not isinstance(f, Func):
            ck.fact(item, None, f"{k} is {f!r}", where)
            continue
        got = signature(f)
        if got is None:
            ck.fact(item, None, f"{k} takes variadic arguments or is wrapped", where)
            continue
        want = []
        for w in spec.split():
            n, eq, d = w.partition("=")
            want.append((n.lstrip("*"), "kw" if n.startswith("*") else "pos", d if eq else None))
        problem = compare(got, want)
        ck.fact(item, not problem, f"{k}: {problem}", where, how="signature table")


def compare(got, want):
    gp = [g for g in got if g[1] == "pos"]
    wp = [w for w in want if w[1] == "pos"]
    for i, w in enumerate(wp):
        if i >= len(gp):
            return f"parameter {w[0]} cannot be given by position {i + 1}"
        if gp[i][0] != w[0]:
            return f"parameter {i + 1} is {gp[i][0]}, documented {w[0]}"
    by = {g[0]: g for g in got}
    for w in want:
        g = by.get(w[0])
        if g is None:
            return f"parameter {w[0]} is gone"
        if (g[2] is None) != (w[2] is None):
            return f"parameter {w[0]} " + ("has no default" if g[2] is None else "has a default")
        if w[2] is not None and g[2] != "?" and number(g[2]) != number(w[2]):
            return f"default of {w[0]} is {g[2]}, documented {w[2]}"
    for g in got:
        if g[0] not in {w[0] for w in want} and g[2] is None:
            return f"undocumented parameter {g[0]} without default"
    return ""


def guarded_nodes(tree):
    """nodes inside try bodies whose handlers catch ImportError, and under TYPE_CHECKING"""
    ok = set()

    def names(t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(t) if isinstance(n, ast.Attribute)} if t is not None else {"Exception"}

    for n in ast.walk(tree):
        if isinstance(n, ast.Try) and any(names(h.type) & {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"} for h in n.handlers):
            for b in n.body:
                ok |= {id(x) for x in ast.walk(b)}
        if isinstance(n, ast.If) and "TYPE_CHECKING" in names(n.test):
            for b in n.body:
                ok |= {id(x) for x in ast.walk(b)}
    return ok


def toplevel(tree):
    todo = list(tree.body)
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        yield n
        todo = list(ast.iter_child_nodes(n)) + todo


def imports(ck, m):
    tree = ck.p.trees[m]
    ok = guarded_nodes(tree)
    bad = []
    for n in toplevel(tree):
        if isinstance(n, ast.Import):
            mods = [a.name for a in n.names]
        elif isinstance(n, ast.ImportFrom) and not n.level:
            mods = [n.module]
        elif isinstance(n, ast.ImportFrom):
            base = m.split(".")
            base = base if ck.p.is_package(m) else base[:-1]
            base = base[: len(base) - (n.level - 1)]
            t = ".".join(base + ([n.module] if n.module else []))
            if not ck.p.is_project(t) and t not in ck.p.bad:
                bad.append(f"line {n.lineno}: {t} does not exist")
            continue
        else:
            continue
        for x in mods:
            top = x.split(".")[0]
            if top == ck.p.package:
                if not ck.p.is_project(x) and x not in ck.p.bad:
                    bad.append(f"line {n.lineno}: {x} does not exist")
            elif top not in sys.stdlib_module_names and id(n) not in ok:
                bad.append(f"line {n.lineno}: {x} is not in the standard library and its absence is not handled")
    ck.fact(f"imports/{m}", not bad, "; ".join(bad), ck.p.path(m), how="import lint")


def undefined(ck, m):
    src = ck.p.source[m]
    table = symtable.symtable(src, ck.p.path(m), "exec")
    bound = {s.get_name() for s in table.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
    star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(ck.p.trees[m]))
    bound |= set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__all__", "__annotations__"}
    declared = {g for n in ast.walk(ck.p.trees[m]) if isinstance(n, ast.Global) for g in n.names}
    # names that occur only in annotations are never looked up under postponed evaluation
    lazy = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names) for n in ck.p.trees[m].body)
    used = {}
    todo = [table]
    while todo:
        t = todo.pop()
        todo += t.get_children()
        for s in t.get_symbols():
            if s.is_referenced() and (s.is_global() or t is table) and s.get_name() not in bound | declared:
                used.setdefault(s.get_name(), t.get_name())
    if lazy:
        ann = set()
        for n in ast.walk(ck.p.trees[m]):
            for x in (getattr(n, "annotation", None), getattr(n, "returns", None)):
                if x is not None:
                    ann |= {id(y) for y in ast.walk(x)}
        real = {n.id for n in ast.walk(ck.p.trees[m]) if isinstance(n, ast.Name) and id(n) not in ann}
        used = {k: v for k, v in used.items() if k in real}
    ck.fact(f"names/{m}", not used or (None if star else False), f"names bound nowhere: {used}", ck.p.path(m), how="symbol-table lint")


def oldest(ck, m):
    src = ck.p.source[m]
    tree = ck.p.trees[m]
    bad = []
    try:
        ast.parse(src, feature_version=(3, 9))
    except SyntaxError as e:
        bad.append(f"line {e.lineno}: {e.msg}")
    lazy = any(isinstance(n, ast.ImportFrom) and n.module == "__future__" and any(a.name == "annotations" for a in n.names) for n in tree.body)
    ok = guarded_nodes(tree)
    if not lazy:
        for n in ast.walk(tree):
            for x in (getattr(n, "annotation", None), getattr(n, "returns", None)):
                if isinstance(x, ast.AST) and id(n) not in ok:
                    bad += [f"line {y.lineno}: X | Y in an evaluated annotation" for y in ast.walk(x) if isinstance(y, ast.BinOp) and isinstance(y.op, ast.BitOr)]
    for n in ast.walk(tree):
        if isinstance(n, ast.ImportFrom) and not n.level and id(n) not in ok:
            bad += [f"line {n.lineno}: {n.module}.{a.name} is newer than Python 3.9" for a in n.names if a.name in NEWER.get(n.module, ())]
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in NEWER.get(n.value.id, ()) and id(n) not in ok and n.value.id != "typing":
            bad.append(f"line {n.lineno}: {n.value.id}.{n.attr} is newer than Python 3.9")
    ck.fact(f"python 3.9/{m}", not bad, "; ".join(bad), ck.p.path(m), how="parser and lint of the oldest declared Python")
