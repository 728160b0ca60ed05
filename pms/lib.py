"""Meaning of built-ins, math, NumPy, datetime and other external names.

Everything here is a transfer function on abstract values; no external library is called.
"""

from __future__ import annotations

import builtins
import calendar
import math
from fractions import Fraction as F

from . import astro
from . import expr as E
from .expr import FALSE, N, TRUE
from .values import (
    bare,
    flat,
    turn,
    Arr, Bound, Builtin, Cls, Dim, Exc, Ext, Func, Mem, Method, Mod, Opq, Phi, Range, Ref, RowIdx,
    Rows, Sc, Shape, Slice, UNBOUND, AbsRaise, FALSEV, TRUEV, pybool, pyfloat, pyint,
)

TYPES = {
    "float", "int", "bool", "str", "tuple", "list", "dict", "set", "frozenset", "complex", "bytes",
    "object", "type", "slice", "bytearray",
}
BUILTINS = {
    "abs", "min", "max", "sum", "len", "range", "isinstance", "issubclass", "map", "zip", "enumerate",
    "reversed", "sorted", "round", "pow", "any", "all", "print", "hasattr", "getattr", "setattr",
    "callable", "id", "repr", "iter", "next", "filter", "divmod", "super", "vars", "dir", "hash",
    "property", "classmethod", "staticmethod", "open", "format", "input", "exit", "locals", "globals",
    "__import__", "chr", "ord", "hex",
}

# elementwise functions: external name -> (function, exception condition)
_UN = {
    "sin": "sin", "cos": "cos", "tan": "tan", "arcsin": "asin", "arccos": "acos", "arctan": "atan",
    "asin": "asin", "acos": "acos", "atan": "atan", "sinh": "sinh", "tanh": "tanh", "arcsinh": "asinh",
    "arctanh": "atanh", "asinh": "asinh", "atanh": "atanh", "exp": "exp", "log": "log", "sqrt": "sqrt",
    "cbrt": "cbrt", "floor": "floor", "trunc": "trunc", "fabs": "abs", "absolute": "abs", "abs": "abs",
    "sign": "sign", "degrees": "degrees", "radians": "radians", "rad2deg": "degrees",
    "deg2rad": "radians", "negative": "neg", "square": "square", "reciprocal": "recip", "cosh": "cosh",
    "rint": "round", "ceil": "ceil", "positive": "pos", "log1p": "log1p", "expm1": "expm1",
}
_BIN = {
    "arctan2": "atan2", "atan2": "atan2", "hypot": "hypot", "copysign": "copysign", "fmod": "fmod",
    "minimum": "min", "maximum": "max", "fmin": "min", "fmax": "max", "power": "pow", "pow": "pow",
    "float_power": "pow", "mod": "mod", "remainder": "mod", "add": "add", "subtract": "sub",
    "multiply": "mul", "divide": "div", "true_divide": "div",
}
MATH_ONLY = {
    n for n in _UN if hasattr(math, n)
} | {"pow", "hypot", "copysign", "fmod", "atan2"}

ARR_ATTR = {
    "any", "all", "sum", "squeeze", "ravel", "reshape", "copy", "astype", "flatten", "mean", "min", "max",
    "item", "tolist", "fill", "shape", "size", "ndim", "dtype", "real", "imag", "T", "conj", "clip",
    "round", "dot", "transpose", "cumsum", "prod", "std", "flat", "view", "nbytes", "itemsize", "base",
    "flags", "argmax", "argmin", "nonzero", "put", "repeat", "take", "tobytes", "var", "conjugate",
    "__array__", "__len__",
}
FLOAT_ATTR = {
    "real", "imag", "conjugate", "hex", "is_integer", "as_integer_ratio", "fromhex", "__class__",
    "__float__", "__int__", "__abs__", "__round__",
}
EPS = F(1, 2**52)


def elem(name, *a):
    if name == "degrees":
        return E.div(E.scale(a[0], 180), E.PI)
    if name == "radians":
        return E.mul(E.scale(a[0], F(1, 180)), E.PI)
    if name == "neg":
        return E.neg(a[0])
    if name == "pos":
        return a[0]
    if name == "square":
        return E.power(a[0], 2)
    if name == "recip":
        return E.div(E.ONE, a[0])
    if name == "ceil":
        return E.neg(E.fn("floor", E.neg(a[0])))
    if name == "cosh":
        return E.scale(E.add(E.fn("exp", a[0]), E.fn("exp", E.neg(a[0]))), F(1, 2))
    if name == "log1p":
        return E.fn("log", E.add(E.ONE, a[0]))
    if name == "expm1":
        return E.sub(E.fn("exp", a[0]), E.ONE)
    if name == "tanh":
        return E.fn("tanh", a[0])
    if name == "add":
        return E.add(*a)
    if name == "sub":
        return E.sub(*a)
    if name == "mul":
        return E.mul(*a)
    if name == "div":
        return E.div(*a)
    if name == "cbrt":
        return E.fn("cbrt", a[0])
    return E.fn(name, *a)


class Lib:
    def __init__(self, interp):
        self.I = interp

    # ------------------------------------------------------------ names
    def builtin(self, name):
        if name in TYPES:
            from .interp import TypeV

            return TypeV(name)
        if name in BUILTINS:
            return Builtin(name, None)
        if name == "NotImplemented" or name == "Ellipsis":
            return Ext(name)
        c = getattr(builtins, name, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            from .interp import ExcCls

            return ExcCls(name)
        return None

    def external(self, name):
        I = self.I
        mod, _, attr = name.rpartition(".")
        if mod == "math":
            c = {
                "pi": E.PI, "tau": E.scale(E.PI, 2), "inf": E.INF, "nan": E.NAN, "e": E.fn("exp", E.ONE),
            }.get(attr)
            if c is not None:
                return Sc(c, "py", "float")
            if not hasattr(math, attr):
                from .interp import ExcCls

                I.raise_("ImportError" if not I.loaded else "AttributeError", f"math has no {attr}")
        if mod == "numpy":
            c = {"pi": E.PI, "inf": E.INF, "nan": E.NAN, "e": E.fn("exp", E.ONE)}.get(attr)
            if c is not None:
                return Sc(c, "py", "float")
            if attr == "newaxis":
                return None
        if name == "finfo.eps":
            return Sc(E.q(EPS), "np", "float")
        if name == "sys.float_info.epsilon":
            return Sc(E.q(EPS), "py", "float")
        if name == "typing.TYPE_CHECKING":
            return FALSEV
        if name == "datetime.UTC":
            return Ext("datetime.timezone.utc")
        if name == "sys.version_info":
            return Ext(name)
        return Ext(name)

    # ------------------------------------------------------------ strings
    def repr_(self, v, st):
        if isinstance(v, str):
            return repr(v)
        return self.str_(v, st)

    def str_(self, v, st):
        if isinstance(v, str):
            return v
        if v is None:
            return "None"
        if isinstance(v, Sc) and E.isq(v.node):
            x = E.val(v.node)
            return str(int(x)) if v.t == "int" else str(float(x))
        return Opq(E.ofn("str", self.I.opnode(v, st)), "str")

    # ------------------------------------------------------------ types
    def isinstance_(self, v, t, st):
        I = self.I
        if isinstance(v, Phi):
            return I.split(
                v.c, st, lambda s: self.isinstance_(v.a, t, s), lambda s: self.isinstance_(v.b, t, s)
            )
        ts = t if isinstance(t, tuple) else (t,)
        r = [self._isinst(v, x, st) for x in ts]
        return Sc(E.or_(*r), "py", "bool")

    def _isinst(self, v, t, st):
        I = self.I
        from .interp import TypeV

        n = t.name if isinstance(t, (TypeV, Ext)) else getattr(t, "name", "?")
        if isinstance(t, tuple):
            return E.or_(*[self._isinst(v, x, st) for x in t])
        if n == "object":
            return TRUE
        short = n.split(".")[-1]
        if n.startswith("union"):
            I.unsupported("isinstance with a union")
        if isinstance(v, Sc):
            if isinstance(t, Cls):
                return FALSE
            if v.k == "py":
                names = {"float": {"float"}, "int": {"int"}, "bool": {"bool", "int"}}[v.t] | {
                    "Number", "Real", "SupportsFloat",
                }
            else:
                names = {
                    "float": {"float", "floating", "float64", "number", "generic", "inexact"},
                    "int": {"integer", "int64", "number", "generic"},
                    "bool": {"bool_", "generic"} | ({"bool"} if n.startswith("numpy") else set()),
                }[v.t] | {"Number", "Real", "SupportsFloat"}
            return TRUE if short in names else FALSE
        if isinstance(v, Arr):
            return TRUE if short in ("ndarray", "Iterable", "Sized") else FALSE
        if isinstance(v, str):
            return TRUE if short in ("str", "Sequence", "Iterable", "Hashable") else FALSE
        if v is None:
            return TRUE if short == "NoneType" else FALSE
        if isinstance(v, tuple):
            return TRUE if short in ("tuple", "Sequence", "Iterable", "Collection") else FALSE
        if isinstance(v, Ref) and v.kind in ("list", "dict", "set"):
            extra = {"list": {"Sequence", "MutableSequence", "Iterable", "Collection"}, "dict": {"Mapping"}}
            return TRUE if short == v.kind or short in extra.get(v.kind, ()) else FALSE
        if isinstance(v, Ref):
            c = v.cls
            todo = [c]
            while todo:
                x = todo.pop()
                if x is t:
                    return TRUE
                if isinstance(x, Cls):
                    todo += [b for b in x.bases]
            return FALSE
        if isinstance(v, Opq):
            if v.kind == "time":
                return TRUE if short in ("datetime", "date") else FALSE
            if v.kind == "td":
                return TRUE if short == "timedelta" else FALSE
            if v.kind == "str":
                return TRUE if short == "str" else FALSE
            if v.kind == "time64":
                return TRUE if short in ("datetime64", "generic") else FALSE
            if v.kind == "date":
                return TRUE if short == "date" else FALSE
            if short in ("str", "tuple", "list", "dict", "float", "int", "datetime"):
                return FALSE
            return E._mk("bfn", ("isinstance", v.node, E.const(n)), "b")
        if isinstance(v, (Func, Cls, Ext, Builtin, Bound)):
            return TRUE if short in ("Callable", "type") else FALSE
        I.unsupported(f"isinstance of {v!r}")

    # ------------------------------------------------------------ time
    def dist(self, n, f):
        """apply f to the leaves of a conditional object"""
        if n.op == "ite":
            return E.ite(n.a[0], self.dist(n.a[1], f), self.dist(n.a[2], f))
        return f(n)

    def plus(self, t, s):
        def f(n):
            if n.op == "ofn" and n.a[0] == "dt+":
                return self.plus(n.a[1], E.add(n.a[2], s))
            if s is E.ZERO:
                return n
            return E.ofn("dt+", n, s)

        return self.dist(t, f)

    def epoch(self, t):
        """seconds from 1970-01-01 UTC, exact for constants"""

        def f(n):
            if n.op == "ofn" and n.a[0] == "dt+":
                return E.add(self.epoch(n.a[1]), n.a[2])
            if n.op == "ofn" and n.a[0] == "datetime":
                ps = n.a[1:-1]
                if all(E.isq(p) for p in ps):
                    y, mo, d, h, mi, s, us = (E.val(p) for p in ps)
                    days = calendar.timegm((int(y), int(mo), int(d), 0, 0, 0))
                    sec = E.q(days + h * 3600 + mi * 60 + s + us / 10**6)
                    if n.a[-1] == E.const("ext:datetime.timezone.utc"):
                        return sec
                    return E.sub(sec, E.rfn("utcoffset", n.a[-1]))
            if n.op == "ofn" and n.a[0] == "astimezone":
                return self.epoch(n.a[1])
            if n.op == "ofn" and n.a[0] == "replace_tz":
                w = self.wall(n.a[1])
                return w if n.a[2] == E.const("ext:datetime.timezone.utc") else E.sub(w, E.rfn("utcoffset", n.a[2]))
            if n.op == "ofn" and n.a[0] in ("epochtime", "zonedtime"):
                return n.a[1]
            return E.rfn("epoch", n)

        return self.dist(t, f)

    UTC = E.const("ext:datetime.timezone.utc")

    def wall(self, t):
        """the seconds the calendar fields alone count, from 1970-01-01 0h"""

        def f(n):
            if n.op == "ofn" and n.a[0] == "dt+":
                return E.add(self.wall(n.a[1]), n.a[2])
            if n.op == "ofn" and n.a[0] in ("naivetime", "epochtime"):
                return n.a[1]
            if n.op == "ofn" and n.a[0] == "zonedtime":
                return E.add(n.a[1], n.a[2])
            if n.op == "ofn" and n.a[0] == "replace_tz":
                return self.wall(n.a[1])
            if n.op == "ofn" and n.a[0] == "astimezone" and n.a[2] is self.UTC:
                return self.epoch(n.a[1])
            return E.rfn("wall", n)

        return self.dist(t, f)

    def instant(self, t):
        """seconds from 1970-01-01 UTC of the instant meant: naive times are UTC"""
        return self.dist(t, lambda n: self.wall(n) if self.aware(n) is False else self.epoch(n))

    def aware(self, n):
        """whether the time has a zone: True, False or None when not known"""
        if n.op == "ite":
            a, b = self.aware(n.a[1]), self.aware(n.a[2])
            return a if a is b else None
        if n.op == "ofn":
            if n.a[0] == "dt+":
                return self.aware(n.a[1])
            if n.a[0] in ("epochtime", "zonedtime", "astimezone"):
                return True
            if n.a[0] == "naivetime":
                return False
            if n.a[0] == "replace_tz":
                return None if n.a[2].op != "const" else n.a[2].a[0] is not None
            if n.a[0] == "datetime":
                return None if n.a[-1].op != "const" else n.a[-1].a[0] is not None
        return None

    def seconds(self, v, st):
        if isinstance(v, Opq):

            def f(n):
                if n.op == "ofn" and n.a[0] == "td":
                    return n.a[1]
                return E.rfn("total_seconds", n)

            return self.dist(v.node, f)
        return None

    UNITS = {
        "days": F(86400), "seconds": F(1), "microseconds": F(1, 10**6), "milliseconds": F(1, 1000),
        "minutes": F(60), "hours": F(3600), "weeks": F(604800),
    }

    def timedelta(self, args, kw, st):
        names = ["days", "seconds", "microseconds", "milliseconds", "minutes", "hours", "weeks"]
        tot = []
        for n, v in list(zip(names, args)) + list(kw.items()):
            if n not in self.UNITS:
                self.I.raise_("TypeError", f"timedelta argument {n}")
            if isinstance(v, Opq):
                tot.append(E.scale(E.rfn("float", v.node), self.UNITS[n]))
                continue
            if isinstance(v, Arr) and not v.nd0:
                self.I.raise_("TypeError", "unsupported type for timedelta: ndarray")
            tot.append(E.scale(self.I.node_of(v, st), self.UNITS[n]))
        return Opq(E.ofn("td", E.add(*tot) if tot else E.ZERO), "td")

    def opaque_binop(self, op, a, b, st):
        I = self.I
        ka, kb = getattr(a, "kind", None), getattr(b, "kind", None)
        if op == "Add" and {ka, kb} == {"time", "td"}:
            t, d = (a, b) if ka == "time" else (b, a)
            return Opq(self.plus(t.node, self.seconds(d, st)), "time")
        if op == "Sub" and ka == "time" and kb == "td":
            return Opq(self.plus(a.node, E.neg(self.seconds(b, st))), "time")
        if op == "Sub" and ka == kb == "time":
            return Opq(E.ofn("td", E.sub(self.epoch(a.node), self.epoch(b.node))), "td")
        if ka == kb == "td" and op in ("Add", "Sub"):
            x, y = self.seconds(a, st), self.seconds(b, st)
            return Opq(E.ofn("td", E.add(x, y) if op == "Add" else E.sub(x, y)), "td")
        if ka == kb == "td" and op == "Div":
            return Sc(E.div(self.seconds(a, st), self.seconds(b, st)), "py", "float")
        if op in ("Mult", "Div") and "td" in (ka, kb):
            d, k = (a, b) if ka == "td" else (b, a)
            if isinstance(k, Sc):
                x = self.seconds(d, st)
                return Opq(E.ofn("td", E.mul(x, k.node) if op == "Mult" else E.div(x, k.node)), "td")
        if "str" in (ka, kb):
            return Opq(E.ofn("str" + op, I.opnode(a, st), I.opnode(b, st)), "str")
        if "time" in (ka, kb):
            I.raise_("TypeError", f"datetime {op}")
        return Opq(E.ofn(op, I.opnode(a, st), I.opnode(b, st)), "ext")

    def opaque_compare(self, o, a, b, st):
        I = self.I
        if getattr(a, "kind", "") == "time" and getattr(b, "kind", "") == "time":
            x, y = self.aware(a.node), self.aware(b.node)
            if x is not None and y is not None and x != y:
                if o in ("==", "!="):
                    return pybool(o == "!=")
                I.raise_("TypeError", "can't compare offset-naive and offset-aware datetimes")
            if x is False and y is False:
                return Sc(E.cmp(o, self.wall(a.node), self.wall(b.node)), "py", "bool")
            return Sc(E.cmp(o, self.epoch(a.node), self.epoch(b.node)), "py", "bool")
        if getattr(a, "kind", "") == "td" and getattr(b, "kind", "") == "td":
            return Sc(E.cmp(o, self.seconds(a, st), self.seconds(b, st)), "py", "bool")
        if o in ("==", "!="):
            if getattr(a, "kind", "") in ("time", "td") or getattr(b, "kind", "") in ("time", "td"):
                return pybool(o == "!=")
            if a is None or b is None:
                return pybool(o == "!=")
        x, y = I.opnode(a, st), I.opnode(b, st)
        if x is y:
            return pybool(o in ("==", "<=", ">="))
        if o == "!=":
            return Sc(E.not_(E._mk("bfn", ("o==", x, y), "b")), "py", "bool")
        if o in (">", ">="):
            x, y, o = y, x, "<" if o == ">" else "<="
        return Sc(E._mk("bfn", ("o" + o, x, y), "b"), "py", "bool")

    def opaque_is_none(self, o, st):
        def f(n):
            if n.op == "ite":
                return E.ite_b(n.a[0], f(n.a[1]), f(n.a[2]))
            if n.op == "ofn" and n.a[0] in ("tzinfo",):
                return E._mk("bfn", ("naive", n.a[1]), "b")
            if n.op == "const":
                return TRUE if n.a[0] is None else FALSE
            if n.op == "osym" and o.kind == "ext":
                return E._mk("bfn", ("isnone", n), "b")
            return FALSE

        return f(o.node)

    FIELDS = ("year", "month", "day", "hour", "minute", "second", "microsecond")

    def time_attr(self, v, name, st):
        def field(n):
            if n.op == "ofn" and n.a[0] == "datetime":
                return n.a[1 + self.FIELDS.index(name)]
            if n.op == "ofn" and n.a[0] == "replace_tz":
                return self.dist(n.a[1], field)
            w = self.wall(n)
            if w.op != "fn" or w.a[0] != "wall":
                return E.rfn("." + name, E.ofn("naivetime", w))
            return E.rfn("." + name, n)

        def tz(n):
            if n.op == "ofn" and n.a[0] == "datetime":
                return n.a[-1]
            if n.op == "ofn" and n.a[0] in ("replace_tz", "astimezone"):
                return n.a[2]
            if n.op == "ofn" and n.a[0] == "dt+":
                return self.dist(n.a[1], tz)
            if n.op == "ofn" and n.a[0] == "epochtime":
                return self.UTC
            if n.op == "ofn" and n.a[0] == "zonedtime":
                return E.const("zone")
            if n.op == "ofn" and n.a[0] == "naivetime":
                return E.const(None)
            return E.ofn("tzinfo", n)

        if name in self.FIELDS:
            return Sc(self.dist(v.node, field), "py", "int")
        if name == "tzinfo":
            return Opq(self.dist(v.node, tz), "tz")
        return Method(v, name)

    def time_method(self, v, name, args, kw, st):
        I = self.I
        if name == "replace":
            if set(kw) == {"tzinfo"} and not args:
                z = I.opnode(kw["tzinfo"], st)

                def r(n):
                    w = self.wall(n)
                    if w.op != "fn" or w.a[0] != "wall":
                        if z is self.UTC:
                            return E.ofn("epochtime", w)
                        if z is E.const(None):
                            return E.ofn("naivetime", w)
                    return E.ofn("replace_tz", n, z)

                return Opq(self.dist(v.node, r), "time")
            I.unsupported("datetime.replace")
        if name == "astimezone":
            z = I.opnode(args[0], st) if args else E.const("local")

            def f(n):
                if n.op == "ofn" and n.a[0] in ("astimezone", "replace_tz") and n.a[2] is z:
                    return n
                if self.aware(n) and z is self.UTC:
                    e = self.epoch(n)
                    if e.op != "fn" or e.a[0] != "epoch":
                        return E.ofn("epochtime", e)
                return E.ofn("astimezone", n, z)

            return Opq(self.dist(v.node, f), "time")
        if name == "timestamp":
            return Sc(self.epoch(v.node), "py", "float")
        if name == "utcoffset":
            return Opq(E.ofn("utcoffset", v.node), "td")
        if name in ("isoformat", "strftime"):
            return Opq(E.ofn(name, v.node, *[I.opnode(a, st) for a in args]), "str")
        return Opq(E.ofn("." + name, v.node, *[I.opnode(a, st) for a in args]), "ext")

    # what datetime64.astype(datetime) and .item() give, by unit
    UNIT64 = {"us": "time", "ms": "time", "s": "time", "m": "time", "h": "time", "D": "date", "ns": "int"}

    def time64_method(self, v, name, args, kw, st):
        """datetime64: the node is time64(seconds from 1970, unit)"""
        I = self.I
        if v.node.op != "ofn" or v.node.a[0] != "time64":
            I.unsupported("datetime64")
        sec, unit = v.node.a[1], v.node.a[2].a[0]
        to = args[0] if args else kw.get("dtype")
        if isinstance(to, str):
            u = to[to.find("[") + 1 : -1] if to.endswith("]") and to.startswith(("datetime64", "M8", "<M8")) else None
            if u not in self.UNIT64:
                I.unsupported(f"datetime64 as {to}")
            return Opq(E.ofn("time64", sec, E.const(u)), "time64")
        tn = getattr(to, "name", "")
        if name == "astype" and not (tn.endswith(".datetime") or tn in ("object", "O")):
            I.unsupported(f"datetime64 as {to!r}")
        k = self.UNIT64[unit]
        if k == "time":
            return Opq(E.ofn("naivetime", sec), "time")
        if k == "date":
            return Opq(E.ofn("date", sec), "date")
        return Sc(E.scale(sec, 10**9), "py", "int")

    # ------------------------------------------------------------ attributes
    def getattr_(self, v, name, st):
        I = self.I
        from .interp import ExcCls, TypeV

        if isinstance(v, Sc):
            if v.k == "py":
                if name in ("real",):
                    return v
                if name == "imag":
                    return pyfloat(0)
                if name in FLOAT_ATTR:
                    return Method(v, name)
                I.raise_("AttributeError", f"'{v.t}' object has no attribute {name!r}")
            if name == "real":
                return v
            if name == "imag":
                return Sc(E.ZERO, "np", "float")
            if name == "shape":
                return ()
            if name == "size":
                return pyint(1)
            if name == "ndim":
                return pyint(0)
            if name == "T":
                return v
            if name == "dtype":
                return Ext("numpy.dtype:" + v.t)
            if name in ARR_ATTR or name in FLOAT_ATTR:
                return Method(v, name)
            I.raise_("AttributeError", f"numpy scalar has no attribute {name!r}")
        if isinstance(v, Arr):
            if name == "real":
                return v
            if name == "imag":
                return I.newarr(st, E.ZERO, v.shape, v.sel, v.nd0)
            if name == "shape":
                return () if v.nd0 else Shape(self.tag(v))
            if name == "size":
                return pyint(1) if v.nd0 else Dim(self.tag(v))
            if name == "ndim":
                return pyint(0) if v.nd0 else Sc(E.sym("ndim:" + str(self.tag(v)), pos=True), "py", "int")
            if name == "T":
                return self.transposed(v)
            if name == "dtype":
                return Ext("numpy.dtype:" + v.t)
            if name in ARR_ATTR:
                return Method(v, name)
            I.raise_("AttributeError", f"ndarray has no attribute {name!r}")
        if isinstance(v, Opq):
            if v.kind in ("time",):
                return self.time_attr(v, name, st)
            if v.kind == "td":
                if name == "total_seconds":
                    return Method(v, name)
                return Sc(E.rfn("." + name, v.node), "py", "int")
            if v.kind == "time64" and name in ("astype", "item", "tolist"):
                return Method(v, name)
            if v.kind in ("time64", "date"):
                if name in ("tzinfo", "replace", "astimezone", "hour", "timestamp", "isoformat"):
                    I.raise_("AttributeError", f"{v.kind} has no attribute {name!r}")
            return Opq(E.ofn("." + name, v.node), "ext")
        if isinstance(v, str):
            if not hasattr(str, name):
                I.raise_("AttributeError", f"str has no attribute {name!r}")
            return Method(v, name)
        if isinstance(v, tuple):
            if not hasattr(tuple, name):
                I.raise_("AttributeError", f"tuple has no attribute {name!r}")
            return Method(v, name)
        if isinstance(v, Ref):
            py = {"list": list, "dict": dict, "set": set}[v.kind]
            if not hasattr(py, name):
                I.raise_("AttributeError", f"{v.kind} has no attribute {name!r}")
            return Method(v, name)
        if v is None:
            I.raise_("AttributeError", f"None has no attribute {name!r}")
        if isinstance(v, Func):
            if name == "__name__":
                return v.name
            if name == "__doc__":
                return None
            if v.wrap == "lru":
                return Method(v, name)
            return Opq(E.ofn("fattr", E.const(v.mod + "." + v.name), E.const(name)), "ext")
        if isinstance(v, (Rows, Shape)):
            if isinstance(v, Rows) and name == "shape":
                return Shape(("rows", v.tag, v.ncol))
            if isinstance(v, Rows) and name == "size":
                I.unsupported("size of a matrix")
            return Method(v, name)
        if isinstance(v, TypeV):
            return Ext(v.name + "." + name)
        if isinstance(v, (Sc,)):
            pass
        if isinstance(v, Exc):
            return Opq(E.ofn("exc." + name), "ext")
        if isinstance(v, Bound):
            return Opq(E.ofn("bound." + name), "ext")
        I.unsupported(f"attribute {name} of {v!r}")

    def tag(self, v):
        return v.shape if v.sel is None else (v.shape, "sel", v.sel)

    # ------------------------------------------------------------ subscripts
    def getitem(self, o, i, st):
        I = self.I
        from .interp import TypeV

        if isinstance(o, (Ext, TypeV, Cls)):
            if isinstance(o, Ext) and o.name == "sys.version_info":
                k = I.int_of(i)
                if k is not None:
                    return pyint((3, 12, 3)[k])
            return o if not isinstance(o, Ext) else Ext(o.name)
        if isinstance(o, Sc):
            if o.k == "py":
                I.raise_("TypeError", f"'{o.t}' object is not subscriptable")
            if i == ():
                return o
            if isinstance(i, Sc) and i.t == "bool":
                return I.newarr(st, o.node, "S", i.node, False, o.t)
            if isinstance(i, Arr) and i.nd0 and i.t == "bool":
                return I.newarr(st, o.node, "S", st.heap[i.mem].node, False, o.t)
            if isinstance(i, Ext) and i.name == "...":
                return I.newarr(st, o.node, "S", None, True, o.t)
            I.raise_("IndexError", "invalid index to scalar variable")
        if isinstance(o, Arr):
            if i == () or (isinstance(i, Ext) and i.name == "...") or (isinstance(i, Slice) and i.full()):
                if o.nd0:
                    if i == ():
                        return Sc(st.heap[o.mem].node, "np", o.t)
                    if isinstance(i, Slice):
                        I.raise_("IndexError", "too many indices for array")
                return o
            if isinstance(i, (Arr, Sc)) and i.t == "bool":
                m = I.node_of(i, st)
                if m is TRUE and isinstance(i, Sc) and not o.nd0:
                    I.unsupported("array indexed by a scalar boolean")
                if o.sel is not None:
                    I.unsupported("selection of a selection")
                if isinstance(i, Arr) and not i.nd0 and o.nd0:
                    I.raise_("IndexError", "too many indices for array")
                if isinstance(i, Arr) and not i.nd0 and i.shape != o.shape:
                    I.unsupported("mask of another shape")
                if (isinstance(i, Sc) or i.nd0) and not o.nd0:
                    I.unsupported("array indexed by a scalar boolean")
                return I.newarr(st, st.heap[o.mem].node, o.shape, m, False, o.t)
            if isinstance(i, RowIdx):
                if self.same_order(flat(o.shape), i.tag):
                    return Sc(st.heap[o.mem].node, "np", o.t)
            if o.nd0:
                I.raise_("IndexError", "too many indices for array")
            I.unsupported(f"array index {i!r}")
        if isinstance(o, Rows):
            cols = st.heap[o.mem].cols
            if isinstance(i, RowIdx) and self.same_order(i.tag, o.tag):
                return tuple(Sc(c, "np", "float") for c in cols)
            if isinstance(i, tuple) and len(i) == 2:
                r, c = i
                if isinstance(r, RowIdx) and self.same_order(r.tag, o.tag):
                    if isinstance(c, Slice) and c.full():
                        return tuple(Sc(x, "np", "float") for x in cols)
                    k = I.int_of(c)
                    if k is not None:
                        if not -o.ncol <= k < o.ncol:
                            I.raise_("IndexError", "column index out of range")
                        return Sc(cols[k], "np", "float")
                if isinstance(r, Slice) and r.full():
                    k = I.int_of(c)
                    if k is not None:
                        if not -o.ncol <= k < o.ncol:
                            I.raise_("IndexError", "column index out of range")
                        return I.newarr(st, cols[k], ("ravel", o.tag))
            I.unsupported("matrix index")
        if isinstance(o, Shape):
            k = I.int_of(i)
            if isinstance(o.tag, tuple) and o.tag[0] == "rows":
                return Dim(o.tag[1]) if k == 0 else pyint(o.tag[2])
            if k == 0:
                return Dim(o.tag) if isinstance(o.tag, tuple) else I.unsupported("one dimension of a shape")
            I.unsupported("shape index")
        if isinstance(o, Opq):
            return Opq(E.ofn("[]", o.node, I.opnode(i, st)), "ext")
        if o is None or isinstance(o, (Func, Builtin, Bound)):
            I.raise_("TypeError", f"{o!r} is not subscriptable")
        I.unsupported(f"subscript of {o!r}")

    def setitem(self, o, i, v, st):
        I = self.I
        if isinstance(o, Sc) or o is None:
            I.raise_("TypeError", "object does not support item assignment")
        if isinstance(v, Phi):
            I.split(v.c, st, lambda s: self.setitem(o, i, v.a, s), lambda s: self.setitem(o, i, v.b, s))
            return
        if isinstance(o, Arr):
            old = st.heap[o.mem].node
            if i == () or (isinstance(i, Slice) and i.full()) or (isinstance(i, Ext) and i.name == "..."):
                m = TRUE
            elif isinstance(i, (Arr, Sc)) and i.t == "bool":
                m = I.node_of(i, st)
                if (isinstance(i, Sc) or i.nd0) and not o.nd0 and i is not o:
                    I.unsupported("scalar mask on an array")
                if isinstance(i, Arr) and not i.nd0 and o.nd0:
                    I.raise_("IndexError", "too many indices for array")
            elif isinstance(i, RowIdx) and self.same_order(flat(o.shape), i.tag):
                m = TRUE
            else:
                I.unsupported("array store")
            if isinstance(v, Arr) and not v.nd0:
                if v.sel is not None and v.sel is not m:
                    I.unsupported("store of a selection by another mask")
                if v.sel is None and m is not TRUE:
                    I.unsupported("store of a full array through a mask")
            if not isinstance(v, (Sc, Arr)):
                if isinstance(v, Opq):
                    vn = E.rfn("float", v.node)
                else:
                    I.unsupported(f"array store of {v!r}")
            else:
                vn = I.node_of(v, st)
            if vn.sort == "b" and old.sort == "r":
                vn = E.ite(vn, E.ONE, E.ZERO)
            elif o.t == "int" and getattr(v, "t", "") == "float":
                vn = E.fn("trunc", vn)
            if m is TRUE:
                I.write_mem(o, vn, st)
            else:
                g = m
                I.write_mem(o, E.ite(g, vn, old), st)
            return
        if isinstance(o, Rows):
            mm = st.heap[o.mem]
            r, c = (i if isinstance(i, tuple) and len(i) == 2 else (i, None))
            cols = list(mm.cols)
            if isinstance(r, RowIdx) and self.same_order(r.tag, o.tag):
                if c is None or (isinstance(c, Slice) and c.full()):
                    vals = I.iterate(v, st) if not isinstance(v, Sc) else [v] * o.ncol
                    if len(vals) != o.ncol:
                        I.raise_("ValueError", f"could not broadcast input array from shape ({len(vals)},) into shape ({o.ncol},)")
                    cols = [I.node_of(x, st) for x in vals]
                else:
                    k = I.int_of(c)
                    if k is None:
                        I.unsupported("matrix store")
                    cols[k] = I.node_of(v, st)
            elif isinstance(r, Slice) and r.full() and c is not None and I.int_of(c) is not None:
                cols[I.int_of(c)] = I.node_of(v, st)
            else:
                I.unsupported("matrix store")
            st.heap[o.mem] = Mem(mm.node, mm.origin, mm.alias, tuple(cols))
            return
        I.unsupported(f"item assignment on {o!r}")

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, st):
        I = self.I
        from .interp import TypeV

        for k, a in enumerate(args):
            if isinstance(a, Phi) and not (isinstance(f, Builtin) and f.name in ("isinstance", "hasattr")):
                return I.split(
                    a.c, st,
                    lambda s: I.call(f, args[:k] + [a.a] + args[k + 1 :], kw, s),
                    lambda s: I.call(f, args[:k] + [a.b] + args[k + 1 :], kw, s),
                )
        for k, a in kw.items():
            if isinstance(a, Phi):
                return I.split(
                    a.c, st, lambda s: I.call(f, args, {**kw, k: a.a}, s), lambda s: I.call(f, args, {**kw, k: a.b}, s)
                )
        args = list(args)
        if isinstance(f, Builtin):
            return getattr(self, "b_" + f.name.strip("_"), self.b_unknown)(args, kw, st) if f.name != "__import__" else I.unsupported("__import__")
        if isinstance(f, TypeV):
            return self.conv(f.name, args, kw, st)
        if isinstance(f, Method):
            return self.method(f.obj, f.name, args, kw, st)
        if isinstance(f, Ext):
            return self.ext_call(f.name, args, kw, st)
        if isinstance(f, Opq):
            return Opq(
                E.ofn("call", f.node, *[I.opnode(a, st) for a in args], *[E.ofn("kw:" + k, I.opnode(v, st)) for k, v in sorted(kw.items())]),
                "ext",
            )
        I.raise_("TypeError", f"{f!r} is not callable")

    def b_unknown(self, args, kw, st):
        self.I.unsupported("built-in function")

    def b_print(self, args, kw, st):
        self.I.event("print", "", [self.I.opnode(a, st) for a in args])
        return None

    def b_abs(self, args, kw, st):
        (v,) = args
        if isinstance(v, Opq):
            return Opq(E.ofn("abs", v.node), v.kind)
        if not isinstance(v, (Sc, Arr)):
            self.I.raise_("TypeError", f"bad operand type for abs(): {v!r}")
        n = self.I.node_of(v, st)
        if n.sort == "b":
            n = E.ite(n, E.ONE, E.ZERO)
        return self.I.wrap(E.abs_(n), [v], st, v.t)

    def _minmax(self, name, args, kw, st):
        I = self.I
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Arr):
                I.unsupported("min/max over an array")
            args = I.iterate(v, st)
        if kw:
            I.unsupported("min/max with keywords")
        for v in args:
            if isinstance(v, Arr) and not v.nd0:
                I.raise_("ValueError", "truth value of an array is ambiguous")
            if not isinstance(v, (Sc, Arr)):
                if all(isinstance(x, Opq) and x.kind == "time" for x in args):
                    I.unsupported("min/max of times")
                I.unsupported("min/max of objects")
        return I.wrap(E.fn(name, *[I.node_of(v, st) for v in args]), args, st)

    def b_min(self, args, kw, st):
        return self._minmax("min", args, kw, st)

    def b_max(self, args, kw, st):
        return self._minmax("max", args, kw, st)

    def b_sum(self, args, kw, st):
        I = self.I
        if isinstance(args[0], Arr) and not args[0].nd0:
            return Sc(E.rfn("total", st.heap[args[0].mem].node), "np", "float")
        items = I.iterate(args[0], st)
        r = args[1] if len(args) > 1 else kw.get("start", pyint(0))
        for x in items:
            r = I.binop("Add", r, x, st)
        return r

    def b_len(self, args, kw, st):
        I = self.I
        v = args[0]
        if isinstance(v, Arr):
            if v.nd0:
                I.raise_("TypeError", "len() of unsized object")
            return Dim(self.tag(v))
        if isinstance(v, Sc) or v is None:
            I.raise_("TypeError", "object has no len()")
        if isinstance(v, Opq):
            return Sc(E.rfn("len", v.node), "py", "int")
        if isinstance(v, Rows):
            return Dim(v.tag)
        return pyint(len(I.iterate(v, st)))

    def b_range(self, args, kw, st):
        I = self.I
        if len(args) == 1 and isinstance(args[0], Dim):
            t = args[0].tag
            return Range(0, None, 1, t[1] if isinstance(t, tuple) and t[0] == "ravel" else t)
        xs = []
        for a in args:
            k = I.int_of(a)
            if k is None:
                if isinstance(a, Sc) and a.t == "float" or isinstance(a, Arr):
                    I.raise_("TypeError", "range() needs an integer")
                I.unsupported("range of symbolic length")
            xs.append(k)
        r = range(*xs)
        return Range(r.start, r.stop, r.step)

    def b_isinstance(self, args, kw, st):
        return self.isinstance_(args[0], args[1], st)

    def b_issubclass(self, args, kw, st):
        self.I.unsupported("issubclass")

    def b_map(self, args, kw, st):
        I = self.I
        its = [I.iterate(a, st) for a in args[1:]]
        return tuple(I.call(args[0], list(t), {}, st) for t in zip(*its))

    def b_zip(self, args, kw, st):
        its = [self.I.iterate(a, st) for a in args]
        if "strict" in kw and len({len(i) for i in its}) > 1:
            self.I.raise_("ValueError", "zip() arguments have different lengths")
        return tuple(zip(*its))

    def b_enumerate(self, args, kw, st):
        s = kw.get("start") or (args[1] if len(args) > 1 else pyint(0))
        k = self.I.int_of(s)
        return tuple((pyint(k + i), v) for i, v in enumerate(self.I.iterate(args[0], st)))

    def b_reversed(self, args, kw, st):
        return tuple(reversed(self.I.iterate(args[0], st)))

    def b_sorted(self, args, kw, st):
        xs = self.I.iterate(args[0], st)
        if all(isinstance(x, str) for x in xs) and not kw:
            return self.I.newlist(st, sorted(xs))
        self.I.unsupported("sorted")

    def b_iter(self, args, kw, st):
        return tuple(self.I.iterate(args[0], st))

    def b_next(self, args, kw, st):
        v = args[0]
        if isinstance(v, tuple):
            if v:
                return v[0]
            if len(args) > 1:
                return args[1]
            self.I.raise_("StopIteration")
        self.I.unsupported("next")

    def b_filter(self, args, kw, st):
        I = self.I
        out = []
        for x in I.iterate(args[1], st):
            k = st.known(I.truth(I.call(args[0], [x], {}, st) if args[0] is not None else x, st))
            if k is None:
                I.unsupported("symbolic filter")
            if k:
                out.append(x)
        return tuple(out)

    def b_round(self, args, kw, st):
        I = self.I
        v = args[0]
        if isinstance(v, Opq):
            return Opq(E.ofn("round", v.node), "ext")
        n = I.node_of(v, st)
        if len(args) > 1:
            k = I.int_of(args[1])
            if k is None:
                I.unsupported("round")
            p = E.q(F(10) ** k)
            return I.wrap(E.div(E.fn("round", E.mul(n, p)), p), [v], st)
        if E.isq(n):
            return I.wrap(E.q(round(E.val(n))), [v], st, "int")
        return I.wrap(E.fn("round", n), [v], st, "int")

    def b_pow(self, args, kw, st):
        return self.I.binop("Pow", args[0], args[1], st)

    def b_divmod(self, args, kw, st):
        return (self.I.binop("FloorDiv", args[0], args[1], st), self.I.binop("Mod", args[0], args[1], st))

    def b_any(self, args, kw, st):
        I = self.I
        if isinstance(args[0], Arr):
            return self.reduce_bool("any", args[0], st)
        return Sc(E.or_(*[I.truth(x, st) for x in I.iterate(args[0], st)]), "py", "bool")

    def b_all(self, args, kw, st):
        I = self.I
        if isinstance(args[0], Arr):
            return self.reduce_bool("all", args[0], st)
        return Sc(E.and_(*[I.truth(x, st) for x in I.iterate(args[0], st)]), "py", "bool")

    def b_hasattr(self, args, kw, st):
        I = self.I
        v, n = args
        if isinstance(v, Phi):
            return I.split(v.c, st, lambda s: self.b_hasattr([v.a, n], kw, s), lambda s: self.b_hasattr([v.b, n], kw, s))
        try:
            I.getattr_(v, n, st.clone())
            return TRUEV
        except AbsRaise as e:
            if e.exc.name == "AttributeError":
                return FALSEV
            raise

    def b_getattr(self, args, kw, st):
        I = self.I
        if not isinstance(args[1], str):
            I.unsupported("getattr with computed name")
        try:
            return I.getattr_(args[0], args[1], st)
        except AbsRaise as e:
            if e.exc.name == "AttributeError" and len(args) > 2:
                return args[2]
            raise

    def b_setattr(self, args, kw, st):
        self.I.setattr_(args[0], args[1], args[2], st)

    def b_callable(self, args, kw, st):
        return pybool(isinstance(args[0], (Func, Cls, Ext, Builtin, Bound, Method)))

    def b_repr(self, args, kw, st):
        return self.repr_(args[0], st)

    def b_id(self, args, kw, st):
        v = args[0]
        if isinstance(v, Ref):
            return Sc(E.rfn("id", E.const(v.oid)), "py", "int")
        return Sc(E.rfn("id", self.I.opnode(v, st)), "py", "int")

    def b_hash(self, args, kw, st):
        self.I.key(args[0])
        return Sc(E.rfn("hash", self.I.opnode(args[0], st)), "py", "int")

    def b_open(self, args, kw, st):
        self.I.event("io", "open")
        return Opq(E.ofn("open"), "ext")

    # ---- conversions
    def conv(self, name, args, kw, st):
        I = self.I
        if name == "float":
            if not args:
                return pyfloat(0)
            v = args[0]
            if isinstance(v, Sc):
                n = v.node
                if n.sort == "b":
                    n = E.ite(n, E.ONE, E.ZERO)
                return Sc(n, "py", "float")
            if isinstance(v, Arr):
                if v.nd0 or v.shape == "1":
                    return Sc(I.node_of(v, st), "py", "float")
                I.raise_("TypeError", "only 0-dimensional arrays can be converted to Python scalars")
            if isinstance(v, str):
                try:
                    x = float(v)
                except ValueError:
                    I.raise_("ValueError", f"could not convert string to float: {v!r}")
                from .interp import dec

                return Sc(dec(x), "py", "float")
            if isinstance(v, Opq):
                if v.kind in ("time", "td"):
                    I.raise_("TypeError", "float() argument must be a number")
                return Sc(E.rfn("float", v.node), "py", "float")
            I.raise_("TypeError", f"float() argument must be a number, not {v!r}")
        if name == "int":
            if not args:
                return pyint(0)
            v = args[0]
            if isinstance(v, Sc):
                if v.t == "int":
                    return Sc(v.node, "py", "int")
                n = v.node
                if n.sort == "b":
                    n = E.ite(n, E.ONE, E.ZERO)
                elif n.op == "fn" and n.a[0] in ("round", "trunc", "floor"):
                    pass
                else:
                    n = E.fn("trunc", n)
                return Sc(n, "py", "int")
            if isinstance(v, Arr):
                if v.nd0 or v.shape == "1":
                    return Sc(E.fn("trunc", I.node_of(v, st)), "py", "int")
                I.raise_("TypeError", "only 0-dimensional arrays can be converted to Python scalars")
            if isinstance(v, str):
                try:
                    return pyint(int(v))
                except ValueError:
                    I.raise_("ValueError", "invalid literal for int()")
            if isinstance(v, Opq):
                return Sc(E.rfn("int", v.node), "py", "int")
            I.raise_("TypeError", "int() argument must be a number")
        if name == "bool":
            return Sc(I.truth(args[0], st), "py", "bool") if args else FALSEV
        if name == "str":
            return self.str_(args[0], st) if args else ""
        if name == "tuple":
            if not args:
                return ()
            return tuple(I.iterate(args[0], st))
        if name == "list":
            return I.newlist(st, I.iterate(args[0], st) if args else ())
        if name in ("set", "frozenset"):
            return I.alloc(st, "set", tuple(I.iterate(args[0], st)) if args else ())
        if name == "dict":
            d = {}
            if args:
                v = args[0]
                if isinstance(v, Ref) and v.kind == "dict":
                    d.update(st.heap[v.oid])
                else:
                    for kv in I.iterate(v, st):
                        k, x = I.iterate(kv, st)
                        d[I.key(k)] = x
            d.update(kw)
            return I.alloc(st, "dict", d)
        if name == "type":
            v = args[0]
            from .interp import TypeV

            if isinstance(v, Ref) and v.kind == "inst":
                return v.cls
            if isinstance(v, Ref):
                return TypeV(v.kind)
            if isinstance(v, Sc):
                return TypeV(v.t) if v.k == "py" else Ext("numpy." + {"float": "float64", "int": "int64", "bool": "bool"}[v.t])
            if isinstance(v, str):
                return TypeV("str")
            if isinstance(v, tuple):
                return TypeV("tuple")
            if isinstance(v, Arr):
                return Ext("numpy.ndarray")
            return Opq(E.ofn("type", I.opnode(v, st)), "ext")
        if name == "slice":
            a = list(args) + [None] * (3 - len(args))
            return Slice(*( [None, a[0], None] if len(args) == 1 else a))
        if name == "object":
            return Opq(E.ofn("object", E.const(I.new_id())), "ext")
        I.unsupported(f"conversion to {name}")

    # ---- reductions
    def reduce_bool(self, name, v, st):
        I = self.I
        if isinstance(v, Sc):
            return Sc(I.truth(v, st), "np" if v.k == "np" else "py", "bool")
        n = st.heap[v.mem].node
        if n.sort != "b":
            n = E.not_(E.cmp("==", n, E.ZERO))
        if v.nd0:
            return Sc(n, "np", "bool")
        if v.sel is not None:
            n = E.and_(v.sel, n) if name == "any" else E.or_(E.not_(v.sel), n)
        if v.shape == "1":
            return Sc(n, "np", "bool")
        return Sc(E.bfn(name, n), "np", "bool")

    # ---- methods
    def method(self, o, name, args, kw, st):
        I = self.I
        if isinstance(o, astro.Ast):
            return astro.method(I, o, name, args, kw, st)
        if isinstance(o, (Sc, Arr)):
            return self.num_method(o, name, args, kw, st)
        if isinstance(o, Opq):
            if o.kind == "time":
                return self.time_method(o, name, args, kw, st)
            if o.kind == "time64":
                return self.time64_method(o, name, args, kw, st)
            if o.kind == "td" and name == "total_seconds":
                return Sc(self.seconds(o, st), "py", "float")
        if isinstance(o, str):
            if name == "join":
                xs = I.iterate(args[0], st)
                if all(isinstance(x, str) for x in xs):
                    return o.join(xs)
                return Opq(E.ofn("join", *[I.opnode(x, st) for x in xs]), "str")
            if name == "format":
                return Opq(E.ofn("format", E.const(o), *[I.opnode(x, st) for x in args]), "str")
            if all(isinstance(a, (str, tuple)) or a is None or I.int_of(a) is not None for a in args):
                pa = [a if isinstance(a, (str, tuple)) or a is None else I.int_of(a) for a in args]
                r = getattr(o, name)(*pa)
                return self.lower(r, st)
            I.unsupported(f"str.{name}")
        if isinstance(o, tuple):
            if name == "index" and isinstance(args[0], str):
                if args[0] in o:
                    return pyint(o.index(args[0]))
                I.raise_("ValueError", "tuple.index")
            I.unsupported(f"tuple.{name}")
        if isinstance(o, Func):
            if name == "cache_clear":
                st.heap.pop(("lru", o.mod, o.name), None)
                return None
            return Opq(E.ofn("lru." + name), "ext")
        if isinstance(o, Ref) and o.kind == "dict":
            d = st.heap[o.oid]
            if name == "get":
                k = I.key(args[0])
                dv = args[1] if len(args) > 1 else kw.get("default")
                if k in d:
                    v = d[k]
                    if isinstance(v, Phi) and (v.a is UNBOUND or v.b is UNBOUND):
                        return I.merge_val(v.c, dv if v.a is UNBOUND else v.a, dv if v.b is UNBOUND else v.b, st)
                    return v
                return dv
            if name == "items":
                return tuple((I.unkey(k), v) for k, v in d.items())
            if name == "keys":
                return tuple(I.unkey(k) for k in d)
            if name == "values":
                return tuple(d.values())
            if name == "copy":
                return I.alloc(st, "dict", dict(d))
            if name == "clear":
                I.note_write(o, st)
                st.heap[o.oid] = {}
                return None
            if name == "setdefault":
                k = I.key(args[0])
                if k in d:
                    return d[k]
                I.setitem(o, args[0], args[1] if len(args) > 1 else None, st)
                return args[1] if len(args) > 1 else None
            if name == "pop":
                k = I.key(args[0])
                if k in d:
                    d2 = dict(d)
                    v = d2.pop(k)
                    I.note_write(o, st)
                    st.heap[o.oid] = d2
                    return v
                if len(args) > 1:
                    return args[1]
                I.raise_("KeyError", "")
            if name == "update":
                d2 = dict(d)
                if args:
                    d2.update(st.heap[args[0].oid])
                d2.update(kw)
                I.note_write(o, st)
                st.heap[o.oid] = d2
                return None
        if isinstance(o, Ref) and o.kind in ("list", "set"):
            c = tuple(st.heap[o.oid])
            if name in ("append", "add"):
                I.note_write(o, st)
                st.heap[o.oid] = c + (args[0],)
                return None
            if name == "extend":
                I.note_write(o, st)
                st.heap[o.oid] = c + tuple(I.iterate(args[0], st))
                return None
            if name == "copy":
                return I.alloc(st, o.kind, c)
            if name == "insert":
                k = I.int_of(args[0])
                t = list(c)
                t.insert(k, args[1])
                I.note_write(o, st)
                st.heap[o.oid] = tuple(t)
                return None
            if name == "pop":
                k = I.int_of(args[0]) if args else -1
                t = list(c)
                v = t.pop(k)
                I.note_write(o, st)
                st.heap[o.oid] = tuple(t)
                return v
            if name == "reverse":
                I.note_write(o, st)
                st.heap[o.oid] = tuple(reversed(c))
                return None
            if name == "clear":
                I.note_write(o, st)
                st.heap[o.oid] = ()
                return None
        I.unsupported(f"method {name} of {o!r}")

    def lower(self, r, st):
        I = self.I
        if isinstance(r, bool):
            return pybool(r)
        if isinstance(r, int):
            return pyint(r)
        if isinstance(r, list):
            return I.newlist(st, [self.lower(x, st) for x in r])
        if isinstance(r, tuple):
            return tuple(self.lower(x, st) for x in r)
        return r

    def num_method(self, o, name, args, kw, st):
        I = self.I
        n = I.node_of(o, st)
        if name in ("any", "all"):
            return self.reduce_bool(name, o, st)
        if name in ("sum", "mean", "prod", "std", "var"):
            if isinstance(o, Sc) or o.nd0:
                return Sc(n, "np", "float")
            if kw or args:
                I.unsupported("reduction along an axis")
            k = {"sum": "total"}.get(name, name)
            return Sc(E.rfn(k, n), "np", "float")
        if name in ("min", "max"):
            if isinstance(o, Sc) or o.nd0:
                return Sc(n, "np", "float")
            return Sc(E.rfn("all" + name, n), "np", "float")
        if name == "item":
            return Sc(n, "py", o.t)
        if name in ("squeeze",):
            if isinstance(o, Sc):
                return o
            if o.nd0:
                return o
            if o.shape == "1":
                return Arr(o.mem, "S", o.sel, True, o.ms, o.t)
            if o.sel is not None:
                return o
            return Arr(o.mem, self.squeezed(o.shape), None, False, o.ms, o.t)
        if name in ("ravel", "flatten"):
            if isinstance(o, Sc) or o.nd0:
                return I.newarr(st, n, "1")
            sh = o.shape if o.shape == "1" or (isinstance(o.shape, tuple) and o.shape[0] == "ravel") else ("ravel", turn(o.shape) if self.order(args, kw) == "F" else o.shape)
            if name == "ravel":
                return Arr(o.mem, sh, o.sel, False, o.ms, o.t)
            return I.newarr(st, n, sh, o.sel, False, o.t)
        if name == "reshape":
            tgt = args[0] if len(args) == 1 else tuple(args)
            if self.order([], kw) == "F" and isinstance(o, Arr) and isinstance(o.shape, tuple) and o.shape[0] == "ravel":
                o = Arr(o.mem, ("ravel", turn(o.shape[1])), o.sel, False, o.ms, o.t)
            return self.reshape(o, tgt, st)
        if name in ("copy", "astype", "__array__"):
            t = o.t
            if name == "astype":
                tn = getattr(args[0], "name", "")
                t = "int" if "int" in tn else "bool" if "bool" in tn else "float"
                if "datetime" in tn:
                    return Opq(E.ofn("astype_datetime", n), "time")
                if t == "float" and n.sort == "b":
                    n = E.ite(n, E.ONE, E.ZERO)
                if t == "int" and o.t == "float":
                    n = E.fn("trunc", n)
                if t == "bool" and n.sort != "b":
                    n = E.not_(E.cmp("==", n, E.ZERO))
            if isinstance(o, Sc):
                return Sc(n, "np", t)
            return I.newarr(st, n, o.shape, o.sel, o.nd0, t)
        if name == "fill":
            I.write_mem(o, I.node_of(args[0], st), st)
            return None
        if name in ("conj", "conjugate"):
            return o
        if name == "clip":
            return self.clip([o] + args, kw, st)
        if name == "round":
            return self.b_round([o] + args, kw, st)
        if name == "tolist":
            if isinstance(o, Sc) or o.nd0:
                return Sc(n, "py", o.t)
            I.unsupported("tolist of an array")
        if name in ("is_integer",):
            return Sc(E.cmp("==", n, E.fn("trunc", n)), "py", "bool")
        if name == "transpose":
            return o if isinstance(o, Sc) else self.transposed(o)
        I.unsupported(f"array method {name}")

    def transposed(self, v):
        return v if v.nd0 else Arr(v.mem, turn(v.shape), v.sel, False, v.ms, v.t)

    def same_order(self, a, b):
        """whether two element orders cover the same elements; pairing a transposed order with a plain one is an event"""
        if a == b:
            return True
        if bare(a) != bare(b):
            return False
        self.I.event("permute", "elements of arrays of several axes are paired in transposed order")
        return True

    def order(self, args, kw):
        o = args[0] if args else kw.get("order", "C")
        return o if o in ("C", "F") else "C" if o in ("A", "K") else self.I.unsupported("memory order")

    def squeezed(self, shape):
        if shape == "S":
            return "S~"  # shape with unit axes removed
        return shape

    def reshape(self, o, tgt, st):
        I = self.I
        n = I.node_of(o, st)
        if isinstance(tgt, Shape):
            have = "1" if isinstance(o, Sc) or o.nd0 else o.shape
            base = have[1] if isinstance(have, tuple) and have[0] == "ravel" else have
            want = tgt.tag[1] if isinstance(tgt.tag, tuple) and tgt.tag[0] == "ravel" else tgt.tag
            if self.same_order(base, want):
                if isinstance(o, Sc):
                    return I.newarr(st, n, tgt.tag)
                return Arr(o.mem, tgt.tag, o.sel, False, o.ms, o.t)
            self.I.raise_("ValueError", f"cannot reshape array of shape {have} into shape {tgt.tag}")
        if tgt == ():
            if isinstance(o, Sc):
                return o
            if o.nd0 or o.shape == "1":
                return Arr(o.mem, "S", o.sel, True, o.ms, o.t)
            I.raise_("ValueError", "cannot reshape array into shape ()")
        k = I.int_of(tgt) if isinstance(tgt, Sc) else None
        if k == -1 or (isinstance(tgt, tuple) and len(tgt) == 1 and I.int_of(tgt[0]) == -1):
            return self.num_method(o, "ravel", [], {}, st)
        I.unsupported("reshape")

    # ---- external calls
    def ext_call(self, name, args, kw, st):
        I = self.I
        mod, _, fn = name.rpartition(".")
        if name.startswith("astropy"):
            return astro.call(I, name, args, kw, st)
        if mod == "math":
            return self.math_call(fn, args, kw, st)
        if mod in ("numpy", "numpy.core", "numpy.linalg") or mod.startswith("numpy"):
            return self.np_call(fn, args, kw, st)
        if name in ("typing.cast",):
            return args[1]
        if mod == "typing" or mod == "typing_extensions":
            return Ext(name)
        if mod == "logging" or name.startswith("logging."):
            return None
        if name == "warnings.simplefilter" or name == "warnings.filterwarnings":
            a = args[0] if args else kw.get("action")
            I.warn_error = 1 if a == "error" else 0
            return None
        if name == "warnings.warn":
            I.event("warn", str(args[0]) if args else "")
            return None
        if name == "warnings.catch_warnings":
            return Opq(E.ofn("catch_warnings"), "ext")
        if name in ("contextlib.suppress",):
            I.unsupported("contextlib.suppress")
        if name in ("copy.copy", "copy.deepcopy"):
            v = args[0]
            if isinstance(v, Arr):
                return I.newarr(st, I.node_of(v, st), v.shape, v.sel, v.nd0, v.t, ms=v.ms)
            if isinstance(v, Ref):
                r = I.alloc(st, v.kind, st.heap[v.oid], v.cls)
                return r
            return v
        if name == "dataclasses.field":
            return Opq(E.ofn("field"), "ext")
        if name == "dataclasses.replace":
            v = args[0]
            return I.alloc(st, "inst", {**st.heap[v.oid], **kw}, v.cls)
        if name == "functools.reduce":
            xs = I.iterate(args[1], st)
            if len(args) > 2:
                r = args[2]
            else:
                r, xs = xs[0], xs[1:]
            for x in xs:
                r = I.call(args[0], [r, x], {}, st)
            return r
        if name == "functools.partial":
            I.unsupported("functools.partial")
        if name in ("operator.mul", "operator.add", "operator.sub", "operator.truediv"):
            return I.binop({"mul": "Mult", "add": "Add", "sub": "Sub", "truediv": "Div"}[fn], args[0], args[1], st)
        if name == "itertools.chain":
            return tuple(x for a in args for x in I.iterate(a, st))
        if name == "itertools.product":
            import itertools

            rep = I.int_of(kw["repeat"]) if "repeat" in kw else 1
            return tuple(itertools.product(*[I.iterate(a, st) for a in args], repeat=rep))
        if name == "itertools.accumulate":
            I.unsupported("accumulate")
        if name == "datetime.timedelta":
            return self.timedelta(args, kw, st)
        if name == "datetime.datetime":
            return self.mk_datetime(args, kw, st)
        if name == "datetime.datetime.fromisoformat":
            if isinstance(args[0], Opq) and args[0].kind not in ("str",):
                I.raise_("TypeError", "fromisoformat: argument must be str")
            return Opq(E.ofn("fromisoformat", I.opnode(args[0], st)), "time")
        if name in ("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "time.time"):
            I.event("nondeterminism", name)
            return Opq(E.ofn(name, E.const(I.new_id())), "time")
        if mod.startswith("random") or mod.startswith("numpy.random"):
            I.event("nondeterminism", name)
        if name in ("sys.exit",):
            I.raise_("SystemExit", "")
        return Opq(
            E.ofn("call:" + name, *[I.opnode(a, st) for a in args], *[E.ofn("kw:" + k, I.opnode(v, st)) for k, v in sorted(kw.items())]),
            "ext",
        )

    def mk_datetime(self, args, kw, st):
        I = self.I
        vals = []
        tz = kw.pop("tzinfo", None) if kw else None
        if len(args) == 8:
            tz = args[7]
            args = args[:7]
        for i, n in enumerate(self.FIELDS):
            v = args[i] if i < len(args) else kw.get(n)
            vals.append(E.ZERO if v is None else I.node_of(v, st))
        return Opq(E.ofn("datetime", *vals, I.opnode(tz, st)), "time")

    # conditions under which the elementwise function is outside its domain
    def domain(self, name, n):
        if name in ("asin", "acos"):
            return E.or_(E.cmp(">", n, E.ONE), E.cmp("<", n, E.q(-1)))
        if name == "sqrt":
            return E.cmp("<", n, E.ZERO)
        if name in ("log",):
            return E.cmp("<=", n, E.ZERO)
        if name == "atanh":
            return E.or_(E.cmp(">=", n, E.ONE), E.cmp("<=", n, E.q(-1)))
        return FALSE

    def note_domain(self, name, n, st):
        if name in ("asin", "acos", "sqrt", "log", "atanh"):
            self.I.event("domain", name, (n, tuple(st.assume.items())))

    def number(self, v, st):
        """numeric node of a math/numpy argument"""
        I = self.I
        if isinstance(v, (Sc, Arr)):
            n = I.node_of(v, st)
            if n.sort == "b":
                n = E.ite(n, E.ONE, E.ZERO)
            return n
        if isinstance(v, Opq):
            return E.rfn("float", v.node)
        if v is None or isinstance(v, (str, tuple)):
            I.raise_("TypeError", f"must be real number, not {v!r}")
        I.unsupported(f"number expected, got {v!r}")

    def math_call(self, fn, args, kw, st):
        I = self.I
        if any(isinstance(a, Opq) and a.kind == "ext" for a in args):
            return Opq(E.ofn("math." + fn, *[I.opnode(a, st) for a in args]), "ext")
        if fn in ("fsum", "prod", "sumprod", "dist"):
            if fn in ("fsum", "prod"):
                r = pyint(0) if fn == "fsum" else pyint(1)
                for x in I.iterate(args[0], st):
                    r = I.binop("Add" if fn == "fsum" else "Mult", r, x, st)
                return Sc(I.node_of(r, st), "py", "float")
            a, b = I.iterate(args[0], st), I.iterate(args[1], st)
            x = [I.node_of(v, st) for v in a]
            y = [I.node_of(v, st) for v in b]
            if fn == "dist":
                return Sc(E.hypot(*[E.sub(p, r) for p, r in zip(x, y)]), "py", "float")
            return Sc(E.add(*[E.mul(p, r) for p, r in zip(x, y)]), "py", "float")
        for a in list(args) + list(kw.values()):
            if isinstance(a, Arr) and not a.nd0 and a.shape != "1":
                I.raise_("TypeError", "only 0-dimensional arrays can be converted to Python scalars")
        ns = [self.number(a, st) for a in args]
        if fn == "isnan":
            return Sc(E.bfn("isnan", ns[0]), "py", "bool")
        if fn in ("isfinite", "isinf"):
            return Sc(self.finite(ns[0], fn), "py", "bool")
        if fn == "isclose":
            names = {"rel_tol": E.q(F(1, 10**9)), "abs_tol": E.ZERO}
            for k, v in kw.items():
                names[k] = I.node_of(v, st)
            a, b = ns[:2]
            d = E.sub(a, b)
            if d is E.ZERO:
                return TRUEV
            tol = E.fn("max", E.mul(names["rel_tol"], E.fn("max", E.abs_(a), E.abs_(b))), names["abs_tol"])
            return Sc(E.cmp("<=", E.abs_(d), tol), "py", "bool")
        if fn == "floor":
            return Sc(E.fn("floor", ns[0]), "py", "int")
        if fn == "ceil":
            return Sc(elem("ceil", ns[0]), "py", "int")
        if fn == "trunc":
            return Sc(E.fn("trunc", ns[0]), "py", "int")
        if fn == "modf":
            t = E.fn("trunc", ns[0])
            return (Sc(E.sub(ns[0], t), "py", "float"), Sc(t, "py", "float"))
        if fn == "log" and len(ns) == 2:
            return Sc(E.div(E.fn("log", ns[0]), E.fn("log", ns[1])), "py", "float")
        if fn in ("pow",):
            return Sc(I.pow_(ns[0], ns[1], False, st, args), "py", "float")
        if fn == "hypot":
            return Sc(E.hypot(*ns) if len(ns) == 2 else E.sqrt(E.add(*[E.power(x, 2) for x in ns])), "py", "float")
        if fn == "fmod" and I.catching("ValueError"):
            I.pend(st, E.cmp("==", ns[1], E.ZERO), "ValueError", "math domain error")
        if fn == "remainder":
            q = E.fn("round", E.div(ns[0], ns[1]))
            return Sc(E.sub(ns[0], E.mul(ns[1], q)), "py", "float")
        nm = _UN.get(fn) if len(ns) == 1 else _BIN.get(fn) if len(ns) == 2 else None
        if nm is None:
            I.unsupported(f"math.{fn}")
        self.note_domain(nm, ns[0], st)
        bad = self.domain(nm, ns[0])
        if bad is not FALSE and I.catching("ValueError"):
            I.pend(st, bad, "ValueError", "math domain error")
        return Sc(elem(nm, *ns), "py", "float")

    def finite(self, n, fn):
        if E.isq(n):
            return TRUE if fn == "isfinite" else FALSE
        return E._mk("bfn", (fn, n), "b")

    def bc(self, args):
        return any(isinstance(a, Arr) and not a.nd0 for a in args)

    def as_array(self, v, st):
        """the array NumPy makes of an argument"""
        I = self.I
        if isinstance(v, Arr):
            return v
        if isinstance(v, Sc):
            return I.newarr(st, v.node, "S", None, True, v.t)
        if isinstance(v, Ref) and v.kind == "list" or isinstance(v, tuple):
            I.unsupported("array made of a sequence")
        I.unsupported(f"array made of {v!r}")

    def clip(self, args, kw, st):
        I = self.I
        x = args[0]
        lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min"))
        hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max"))
        n = self.number(x, st)
        ops = [x]
        if lo is not None:
            n = E.fn("max", n, self.number(lo, st))
            ops.append(lo)
        if hi is not None:
            n = E.fn("min", n, self.number(hi, st))
            ops.append(hi)
        return I.wrap(n, ops, st, np_=True)

    def np_call(self, fn, args, kw, st):
        I = self.I
        out = kw.pop("out", None) if "out" in kw else None
        typed = "dtype" in kw
        kw = {k: v for k, v in kw.items() if k not in ("dtype", "copy", "subok", "order")}
        if typed and args and isinstance(args[0], (Sc, Arr)) and args[0].t == "int":
            # given a type, it is the floating point one
            a0 = args[0]
            a0 = Sc(a0.node, a0.k, "float") if isinstance(a0, Sc) else Arr(a0.mem, a0.shape, a0.sel, a0.nd0, a0.ms, "float")
            args = [a0] + list(args[1:])
        if any(isinstance(a, Opq) and a.kind == "ext" for a in args):
            return Opq(E.ofn("np." + fn, *[I.opnode(a, st) for a in args]), "ext")
        if out is not None:
            r = self.np_call(fn, args, kw, st)
            o = out[0] if isinstance(out, tuple) else out
            I.write_mem(o, I.node_of(r, st), st)
            return o
        if fn in _UN and len(args) == 1 and not kw:
            v = args[0]
            n = self.number(v, st)
            nm = _UN[fn]
            self.note_domain(nm, n, st)
            if I.warn_error and I.catching("RuntimeWarning"):
                bad = self.domain(nm, n)
                if bad is not FALSE:
                    I.pend(st, I.anyguard(bad, [v]), "RuntimeWarning", "invalid value")
            return I.wrap(elem(nm, n), [v], st, v.t if fn in ("abs", "absolute", "negative", "square") and v.t == "int" else "float", np_=True)
        if fn in _BIN and len(args) == 2 and not kw:
            ns = [self.number(v, st) for v in args]
            nm = _BIN[fn]
            if nm == "pow":
                return I.wrap(I.pow_(ns[0], ns[1], True, st, args), args, st, np_=True)
            if nm in ("div", "mod"):
                I.zero_div(ns[1], True, args, st)
            return I.wrap(elem(nm, *ns), args, st, np_=True)
        if fn in ("float64", "float32", "double", "float_", "longdouble"):
            if isinstance(args[0], Arr) and not args[0].nd0:
                return I.newarr(st, I.node_of(args[0], st), args[0].shape, args[0].sel)
            return Sc(self.number(args[0], st), "np", "float")
        if fn in ("isnan",):
            return I.wrap(E.bfn("isnan", self.number(args[0], st)), args, st, "bool", np_=True)
        if fn in ("isfinite", "isinf"):
            return I.wrap(self.finite(self.number(args[0], st), fn), args, st, "bool", np_=True)
        if fn in ("logical_and", "logical_or", "logical_not", "bitwise_and", "bitwise_or"):
            ns = [I.truth(a, st) if isinstance(a, Sc) else I.node_of(a, st) for a in args]
            n = {"logical_and": E.and_, "logical_or": E.or_, "logical_not": E.not_, "bitwise_and": E.and_, "bitwise_or": E.or_}[fn](*ns)
            return I.wrap(n, args, st, "bool", np_=True)
        if fn in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal"):
            o = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==", "not_equal": "!="}[fn]
            ns = [self.number(a, st) for a in args]
            return I.wrap(E.cmp(o, *ns), args, st, "bool", np_=True)
        if fn == "isclose":
            nm = {"rtol": E.q(F(1, 10**5)), "atol": E.q(F(1, 10**8))}
            for k, v in list(zip(["rtol", "atol"], args[2:])) + list(kw.items()):
                if k in nm:
                    nm[k] = I.node_of(v, st)
            a, b = (self.number(v, st) for v in args[:2])
            return I.wrap(E.bfn("isclose", a, b, nm["rtol"], nm["atol"]), args[:2], st, "bool", np_=True)
        if fn == "where":
            if len(args) != 3:
                I.unsupported("where with one argument")
            c, a, b = args
            cn = I.node_of(c, st) if isinstance(c, Arr) else I.truth(c, st)
            if cn.sort != "b":
                cn = E.not_(E.cmp("==", cn, E.ZERO))
            x, y = self.number(a, st), self.number(b, st)
            n = E.ite(cn, x, y)
            if self.bc(args):
                r = I.wrap(n, args, st, "int" if getattr(a, "t", "") == getattr(b, "t", "") == "int" else "float")
                return r
            return I.newarr(st, n, "S", None, True)
        if fn in ("any", "all"):
            return self.reduce_bool(fn, args[0], st)
        if fn in ("sum", "mean", "prod"):
            if isinstance(args[0], (Sc, Arr)):
                return self.num_method(args[0], fn, args[1:], kw, st)
            if isinstance(args[0], (tuple, Ref)) and fn == "sum":
                return self.b_sum(args, kw, st)
        if fn in ("min", "max", "amin", "amax"):
            if isinstance(args[0], (Sc, Arr)):
                return self.num_method(args[0], fn[-3:], [], {}, st)
        if fn == "clip":
            return self.clip(args, kw, st)
        if fn in ("asarray", "asanyarray", "ascontiguousarray"):
            v = args[0]
            return self.as_array(v, st)
        if fn == "array":
            v = self.as_array(args[0], st)
            return I.newarr(st, I.node_of(v, st), v.shape, v.sel, v.nd0, v.t)
        if fn in ("copy",):
            v = self.as_array(args[0], st)
            return I.newarr(st, I.node_of(v, st), v.shape, v.sel, v.nd0, v.t)
        if fn == "atleast_1d":
            out_ = []
            for v in args:
                if isinstance(v, Sc):
                    out_.append(I.newarr(st, v.node, "1", t=v.t))
                elif isinstance(v, Arr):
                    out_.append(Arr(v.mem, "1", v.sel, False, v.ms, v.t) if v.nd0 else v)
                else:
                    I.unsupported("atleast_1d")
            return out_[0] if len(out_) == 1 else tuple(out_)
        if fn == "broadcast_arrays":
            full = [v for v in args if isinstance(v, Arr) and not v.nd0]
            for v in args:
                if not isinstance(v, (Sc, Arr)):
                    I.unsupported("broadcast of objects")
            if not full:
                return tuple(
                    Arr(v.mem, v.shape, v.sel, True, v.ms, v.t) if isinstance(v, Arr) else I.newarr(st, v.node, "S", None, True, v.t)
                    for v in args
                )
            shapes = {v.shape for v in full if v.shape != "1"} or {"1"}
            if len(shapes) > 1 or any(v.sel is not None for v in full):
                I.unsupported("broadcast of different shapes")
            sh = shapes.pop()
            r = []
            for v in args:
                if isinstance(v, Arr):
                    r.append(Arr(v.mem, sh, None, False, False, v.t))
                else:
                    r.append(I.newarr(st, v.node, sh, t=v.t))
            return tuple(r)
        if fn in ("empty_like", "zeros_like", "ones_like", "full_like"):
            v = args[0]
            n = {"empty_like": E.NAN, "zeros_like": E.ZERO, "ones_like": E.ONE}.get(fn)
            if n is None:
                n = self.number(args[1] if len(args) > 1 else kw["fill_value"], st)
            if isinstance(v, Sc):
                return I.newarr(st, n, "S", None, True)
            if isinstance(v, Arr):
                return I.newarr(st, n, v.shape, v.sel, v.nd0, v.t)
            if isinstance(v, Rows):
                oid = I.new_id()
                st.heap[oid] = Mem(None, frozenset(), (), (n,) * v.ncol)
                return Rows(oid, v.tag, v.ncol)
        if fn in ("empty", "zeros", "ones", "full"):
            n = {"empty": E.NAN, "zeros": E.ZERO, "ones": E.ONE}.get(fn)
            if n is None:
                n = self.number(args[1] if len(args) > 1 else kw["fill_value"], st)
            sh = args[0] if args else kw.get("shape")
            if isinstance(sh, Ref) and sh.kind == "list":
                sh = tuple(st.heap[sh.oid])
            if isinstance(sh, Shape):
                return I.newarr(st, n, sh.tag)
            if isinstance(sh, Dim):
                t = sh.tag
                return I.newarr(st, n, t if isinstance(t, tuple) or t == "1" else ("ravel", t))
            if sh == ():
                return I.newarr(st, n, "S", None, True)
            if isinstance(sh, tuple) and len(sh) == 2 and isinstance(sh[0], Dim) and I.int_of(sh[1]) is not None:
                k = I.int_of(sh[1])
                oid = I.new_id()
                st.heap[oid] = Mem(None, frozenset(), (), (n,) * k)
                t = sh[0].tag
                return Rows(oid, t[1] if isinstance(t, tuple) and t[0] == "ravel" else t, k)
        if fn == "column_stack":
            xs = I.iterate(args[0], st)
            tags = set()
            for x in xs:
                if not isinstance(x, Arr):
                    I.unsupported("column_stack")
                t = flat(x.shape)
                if not any(self.same_order(t, q) for q in tags):
                    tags.add(t)
            if len(tags) != 1:
                I.raise_("ValueError", "all input array dimensions must match")
            oid = I.new_id()
            org = frozenset().union(*[st.heap[x.mem].origin for x in xs]) if False else frozenset()
            st.heap[oid] = Mem(None, org, (), tuple(I.node_of(x, st) for x in xs))
            return Rows(oid, tags.pop(), len(xs))
        if fn == "linspace":
            a, b = self.number(args[0], st), self.number(args[1], st)
            k = I.int_of(args[2] if len(args) > 2 else kw.get("num", pyint(50)))
            num = E.q(k) if k is not None else self.number(args[2] if len(args) > 2 else kw["num"], st)
            i = E.sym("linspace.i", pos=True)
            step = E.div(E.sub(b, a), E.sub(num, E.ONE))
            return I.newarr(st, E.add(a, E.mul(i, step)), ("lin", num))
        if fn == "finfo":
            return Ext("finfo")
        if fn in ("errstate", "seterr"):
            return Opq(E.ofn("errstate"), "ext")
        if fn == "isscalar":
            return pybool(isinstance(args[0], Sc))
        if fn == "ndim":
            return pyint(0) if isinstance(args[0], Sc) or getattr(args[0], "nd0", False) else self.getattr_(args[0], "ndim", st)
        if fn == "shape":
            return () if isinstance(args[0], Sc) else self.getattr_(args[0], "shape", st)
        if fn == "size":
            return pyint(1) if isinstance(args[0], Sc) else self.getattr_(args[0], "size", st)
        if fn in ("squeeze", "ravel", "reshape"):
            v = self.as_array(args[0], st)
            return self.num_method(v, fn, args[1:], kw, st)
        if fn in ("real", "conj"):
            return args[0]
        if fn == "nan_to_num":
            n = self.number(args[0], st)
            return I.wrap(E.ite(E.bfn("isnan", n), E.ZERO, n), args[:1], st, np_=True)
        if fn == "copyto":
            I.write_mem(args[0], I.node_of(args[1], st), st)
            return None
        if fn in ("round", "around"):
            return self.b_round(args, kw, st)
        I.unsupported(f"numpy.{fn}")
