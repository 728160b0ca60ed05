"""Command line: the interpreter extended with abstract texts, argparse, inspect and json.

Arguments on the command line are texts of a class (a decimal number, a whole number, a list of numbers, a time);
what `float` makes of the text of class number is a symbol.  Nothing branches on such symbols, so every run is
deterministic and covers all texts of the classes given.
"""

from __future__ import annotations

import ast
import datetime
import re

from . import expr as E
from . import lib as L
from .interp import Config, ExcCls, Interp, TypeV
from .values import AbsRaise, Bound, Builtin, Cls, Ext, FALSEV, Func, Method, Opq, Ref, Sc, TRUEV, pybool, pyint

MAIN = "pymap3d.__main__"


class CliVal:
    """objects of the standard library, not merged"""


class AStr(CliVal):
    """text of a class: num (decimal), int (whole number), list (of texts, joined by commas), when (ISO time)"""

    def __init__(self, kind, name, items=()):
        self.kind, self.name, self.items = kind, name, tuple(items)

    def __repr__(self):
        return f"<{self.kind} text {self.name}>"

    @property
    def node(self):
        return E.sym("value of " + self.name)


class Rope(CliVal):
    """text built from literals and renderings: ('lit', s), ('val', how, spec, value), ('json', value)"""

    def __init__(self, parts):
        out = []
        for p in parts:
            if p[0] == "lit" and out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
            elif p != ("lit", ""):
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return "".join(p[1] if p[0] == "lit" else f"<{':'.join(map(str, p[:-1]))}>" for p in self.parts)


class NArr(CliVal):
    """array of known shape: nested tuple of numbers"""

    def __init__(self, items):
        self.items = items

    def __repr__(self):
        return f"array{self.items!r}"


class Parser(CliVal):
    def __init__(self, kw):
        self.kw, self.args, self.sub, self.defaults = kw, [], None, {}


class Subs(CliVal):
    def __init__(self, kw):
        self.kw, self.parsers = kw, {}


class NS(CliVal):
    def __init__(self, d):
        self.d = d


class Sig(CliVal):
    def __init__(self, func, pars):
        self.func, self.pars = func, pars


class Par(CliVal):
    def __init__(self, name, default, annotation, kind):
        self.name, self.default, self.annotation, self.kind = name, default, annotation, kind


EMPTY = Ext("inspect.Parameter.empty")
OPTIONS = {"store", "store_true", "store_false", "store_const", "append", "bool"}


def rope(v):
    if isinstance(v, Rope):
        return list(v.parts)
    if isinstance(v, str):
        return [("lit", v)]
    if isinstance(v, AStr):
        return [("val", "text", None, v)]
    return None


class CliLib(L.Lib):
    # ------------------------------------------------------------ texts
    def str_(self, v, st):
        I = self.I
        if isinstance(v, (Rope, AStr)):
            return v
        if isinstance(v, Sc) and v.node in (E.TRUE, E.FALSE):
            return "True" if v.node is E.TRUE else "False"
        if isinstance(v, (Sc, Opq)):
            r = super().str_(v, st)
            return r if isinstance(r, str) else Rope([("val", "str", None, v)])
        if isinstance(v, NArr):
            return Rope([("val", "array", None, v)])
        if isinstance(v, tuple) or (isinstance(v, Ref) and v.kind == "list"):
            o, c = ("(", ")") if isinstance(v, tuple) else ("[", "]")
            parts = [("lit", o)]
            for k, x in enumerate(I.iterate(v, st)):
                r = self.repr_(x, st)
                parts += [("lit", ", " if k else "")] + (rope(r) or I.unsupported(f"text of {x!r}"))
            return Rope(parts + [("lit", c)])
        return super().str_(v, st)

    def format_(self, v, spec, st):
        if isinstance(spec, Rope):
            self.I.unsupported("computed format")
        if not spec:
            return self.str_(v, st)
        if isinstance(v, str):
            return format(v, spec)
        if isinstance(v, Sc):
            return Rope([("val", "fmt", spec, v)])
        if isinstance(v, (tuple, Ref, NArr)) or v is None:
            self.I.raise_("TypeError", f"unsupported format string {spec!r} for {v!r}")
        self.I.unsupported(f"format of {v!r}")

    def b_format(self, args, kw, st):
        return self.format_(args[0], args[1] if len(args) > 1 else None, st)

    def b_print(self, args, kw, st):
        I = self.I
        sep = kw.get("sep")
        sep = " " if sep is None else sep
        parts = []
        for k, a in enumerate(args):
            if k:
                parts.append(("lit", sep))
            r = rope(self.str_(a, st))
            if r is None:
                I.unsupported(f"print of {a!r}")
            parts += r
        f = kw.get("file")
        I.printed.append((Rope(parts), None if f is None else f.name if isinstance(f, Ext) else repr(f)))
        return None

    def b_vars(self, args, kw, st):
        if args and isinstance(args[0], NS):
            return self.I.alloc(st, "dict", dict(args[0].d))
        return super().b_unknown(args, kw, st)

    def b_len(self, args, kw, st):
        if isinstance(args[0], NArr):
            return pyint(len(args[0].items))
        return super().b_len(args, kw, st)

    def b_round(self, args, kw, st):
        if isinstance(args[0], Sc) and not E.isq(args[0].node):
            return Sc(E.rfn("round", args[0].node, self.I.opnode(args[1] if len(args) > 1 else None, st)), "py", "float")
        return super().b_round(args, kw, st)

    def conv(self, name, args, kw, st):
        I = self.I
        v = args[0] if args else None
        if isinstance(v, AStr):
            if name == "str":
                return v
            if name == "float":
                if v.kind in ("num", "int"):
                    return Sc(v.node, "py", "float")
                I.raise_("ValueError", f"could not convert string to float: {v!r}")
            if name == "int":
                if v.kind == "int":
                    return Sc(v.node, "py", "int")
                I.raise_("ValueError", f"invalid literal for int(): {v!r}")
            if name == "bool":
                return TRUEV
            I.unsupported(f"{name}({v!r})")
        if name == "str" and len(args) == 1:
            return self.str_(v, st)
        if name in ("list", "tuple") and isinstance(v, NArr):
            xs = [x if isinstance(x, Sc) else NArr(x) for x in v.items]
            return I.newlist(st, xs) if name == "list" else tuple(xs)
        if name == "int" and isinstance(v, str):
            try:
                return pyint(int(v))
            except ValueError:
                I.raise_("ValueError", f"invalid literal for int(): {v!r}")
        return super().conv(name, args, kw, st)

    def _isinst(self, v, t, st):
        n = (t.name if isinstance(t, (TypeV, Ext)) else getattr(t, "name", "?")).split(".")[-1]
        if isinstance(t, tuple):
            return E.or_(*[self._isinst(v, x, st) for x in t])
        if n == "object":
            return E.TRUE
        if isinstance(v, (AStr, Rope)):
            return pybool(n in ("str", "Sequence", "Iterable", "Hashable")).node
        if isinstance(v, NArr):
            return pybool(n in ("ndarray", "Iterable", "Sized")).node
        if isinstance(v, CliVal):
            return pybool(n == type(v).__name__ or (n == "Namespace" and isinstance(v, NS))).node
        return super()._isinst(v, t, st)

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kw, st):
        I = self.I
        if isinstance(o, str):
            if name == "join":
                parts = []
                for k, x in enumerate(I.iterate(args[0], st)):
                    r = rope(x)
                    if r is None:
                        I.raise_("TypeError", f"sequence item {k}: expected str instance, {x!r} found")
                    parts += ([("lit", o)] if k else []) + r
                if all(p[0] == "lit" for p in parts):
                    return "".join(p[1] for p in parts)
                return Rope(parts)
            if name == "format":
                return self.str_format(o, args, kw, st)
        if isinstance(o, AStr):
            if name in ("strip", "lstrip", "rstrip") and not args:
                return o
            if name in ("split", "rsplit") and args and args[0] == ",":
                return I.newlist(st, list(o.items) if o.kind == "list" else [o])
            if name == "count" and args == [","]:
                return pyint(max(0, len(o.items) - 1))
            if name in ("lower", "upper", "casefold") and o.kind in ("num", "int", "list"):
                return o
            I.unsupported(f"{name} of {o!r}")
        if isinstance(o, Rope):
            if name in ("strip", "rstrip", "lstrip") and not args:
                p = list(o.parts)
                if p and p[0][0] == "lit" and name != "rstrip":
                    p[0] = ("lit", p[0][1].lstrip())
                if p and p[-1][0] == "lit" and name != "lstrip":
                    p[-1] = ("lit", p[-1][1].rstrip())
                return Rope(p)
            I.unsupported(f"{name} of a computed text")
        if isinstance(o, NArr):
            return self.arr_method(o, name, args, st)
        if isinstance(o, Parser):
            return self.parser_method(o, name, args, kw, st)
        if isinstance(o, Subs) and name == "add_parser":
            if args[0] in o.parsers:
                I.raise_("ArgumentError", f"conflicting subparser: {args[0]}")
            o.parsers[args[0]] = q = Parser(dict(kw))
            self.note_help(kw.get("help"))
            return q
        if isinstance(o, Opq) and o.kind == "time" and name in ("isoformat", "__str__"):
            return Rope([("val", "isoformat" if name == "isoformat" else "str", None, o)])
        if isinstance(o, Sig) and name == "bind":
            I.unsupported("Signature.bind")
        if isinstance(o, Ext) and name in ("write",):
            return None
        return super().method(o, name, args, kw, st)

    def str_format(self, o, args, kw, st):
        import string

        parts, n = [], 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            parts.append(("lit", lit))
            if field is None:
                continue
            if field == "":
                field, n = str(n), n + 1
            v = args[int(field)] if field.isdigit() else kw[field]
            if spec and "{" in spec:
                spec = self.str_format(spec, args[n:], kw, st)
                n += 1
            x = self.repr_(v, st) if conv == "r" else v
            parts += rope(self.format_(x, spec, st)) or self.I.unsupported("format")
        if all(p[0] == "lit" for p in parts):
            return "".join(p[1] for p in parts)
        return Rope(parts)

    def arr_method(self, o, name, args, st):
        def lst(x):
            return x if isinstance(x, Sc) else self.I.newlist(st, [lst(y) for y in x])

        if name == "tolist":
            return lst(o.items)
        if name in ("ravel", "flatten", "squeeze", "reshape"):
            if name in ("ravel", "flatten"):
                return NArr(tuple(flat(o)))
        if name == "item" and not args:
            f = list(flat(o))
            if len(f) == 1:
                return f[0]
            self.I.raise_("ValueError", "can only convert an array of size 1 to a Python scalar")
        self.I.unsupported(f"array method {name}")

    def num_method(self, o, name, args, kw, st):
        if name in ("tolist", "item") and isinstance(o, Sc):
            return Sc(o.node, "py", o.t)
        return super().num_method(o, name, args, kw, st)

    # ------------------------------------------------------------ argparse
    def note_help(self, h):
        if isinstance(h, str):
            self.I.helps.append(h)

    def parser_method(self, o, name, args, kw, st):
        I = self.I
        if name in ("add_argument_group", "add_mutually_exclusive_group"):
            return o
        if name == "add_argument":
            self.note_help(kw.get("help"))
            names = [a for a in args]
            if not all(isinstance(a, str) for a in names):
                I.unsupported("computed option name")
            act = kw.get("action", "store")
            if isinstance(act, Ext):
                act = "bool" if act.name == "argparse.BooleanOptionalAction" else act.name
            if act not in OPTIONS:
                I.unsupported(f"argparse action {act}")
            opt = bool(names) and names[0].startswith("-")
            dest = kw.get("dest")
            if dest is None:
                long = [n for n in names if n.startswith("--")]
                dest = (long or names)[0].lstrip("-").replace("-", "_") if opt else names[0]
            if opt:
                I.negative += [n for n in names if re.fullmatch(r"-(\d+|\d*\.\d+)", n)]
                strings = {n: True for n in names}
                if act == "bool":
                    strings |= {"--no-" + n[2:]: False for n in names if n.startswith("--")}
                for n in strings:
                    for a in o.args:
                        if n in (a["strings"] or {}):
                            I.raise_("ArgumentError", f"conflicting option string: {n}")
                if "-h" in names or "--help" in names:
                    I.raise_("ArgumentError", "conflicting option string: -h")
            else:
                strings = None
                if act != "store":
                    I.unsupported("positional flag")
            d = kw.get("default", FALSEV if act == "store_true" else TRUEV if act == "store_false" else None)
            o.args.append(
                dict(strings=strings, dest=dest, act=act, default=d, type=kw.get("type"), choices=kw.get("choices"),
                     nargs=kw.get("nargs"), required=kw.get("required"), const=kw.get("const"))
            )
            return Opq(E.ofn("argparse.action"), "ext")
        if name == "add_subparsers":
            o.sub = Subs(dict(kw))
            return o.sub
        if name == "set_defaults":
            o.defaults.update(kw)
            return None
        if name == "error" or name == "exit":
            I.raise_("SystemExit", str(args[0]) if args else "")
        if name in ("parse_args", "parse_known_args"):
            if args and args[0] is not None:
                toks = I.iterate(args[0], st)
            else:
                toks = I.argv
            ns = NS(self.parse(o, list(toks), st))
            return ns if name == "parse_args" else (ns, I.newlist(st, []))
        if name in ("print_help", "print_usage"):
            return None
        I.unsupported(f"ArgumentParser.{name}")

    def parse(self, p, toks, st):
        """argparse's meaning of the tokens"""
        I = self.I
        out = {}
        for a in p.args:
            if isinstance(a["default"], Ext) and a["default"].name == "argparse.SUPPRESS":
                continue
            out.setdefault(a["dest"], a["default"])
        out = {**out, **{k: v for k, v in p.defaults.items()}} if not p.args else {
            **{k: v for k, v in p.defaults.items()}, **{k: p.defaults.get(k, v) for k, v in out.items()}}
        pos = [a for a in p.args if a["strings"] is None]
        opts = {n: a for a in p.args if a["strings"] for n in a["strings"]}
        if p.sub is not None and p.sub.kw.get("dest") is not None:
            out.setdefault(p.sub.kw["dest"], None)
        given = set()
        k = 0

        def value(a, t):
            if a["type"] is not None:
                try:
                    t = I.call(a["type"], [t], {}, st)
                except AbsRaise as e:
                    if e.exc.name in ("ValueError", "TypeError", "ArgumentTypeError"):
                        I.raise_("SystemExit", f"invalid value for {a['dest']}: {t!r}")
                    raise
            if a["choices"] is not None:
                c = I.contains(a["choices"], t, st)
                if c is not E.TRUE:
                    I.raise_("SystemExit", f"argument {a['dest']}: invalid choice: {t!r}")
            return t

        while k < len(toks):
            t = toks[k]
            if isinstance(t, str) and t.startswith("-") and len(t) > 1 and not t[1].isdigit():
                a = opts.get(t)
                if a is None:
                    I.raise_("SystemExit", f"unrecognized arguments: {t}")
                given.add(id(a))
                if a["act"] == "store_true":
                    out[a["dest"]] = TRUEV
                elif a["act"] == "store_false":
                    out[a["dest"]] = FALSEV
                elif a["act"] == "store_const":
                    out[a["dest"]] = a["const"]
                elif a["act"] == "bool":
                    out[a["dest"]] = TRUEV if a["strings"][t] else FALSEV
                else:
                    if a["nargs"] is not None:
                        I.unsupported("nargs")
                    k += 1
                    if k >= len(toks):
                        I.raise_("SystemExit", f"argument {t}: expected one argument")
                    v = value(a, toks[k])
                    if a["act"] == "append":
                        v = I.newlist(st, [v])
                    out[a["dest"]] = v
                k += 1
                continue
            if pos:
                a = pos.pop(0)
                if a["nargs"] not in (None, "?"):
                    I.unsupported("nargs")
                given.add(id(a))
                out[a["dest"]] = value(a, t)
                k += 1
                continue
            if p.sub is not None:
                if not isinstance(t, str):
                    I.unsupported("computed command")
                q = p.sub.parsers.get(t)
                if q is None:
                    I.raise_("SystemExit", f"invalid choice: {t!r}")
                if p.sub.kw.get("dest") is not None:
                    out[p.sub.kw["dest"]] = t
                out.update(self.parse(q, toks[k + 1 :], st))
                given.add("sub")
                break
            I.raise_("SystemExit", f"unrecognized arguments: {t!r}")
        if p.sub is not None and "sub" not in given and p.sub.kw.get("required") in (TRUEV, True):
            I.raise_("SystemExit", "command required")
        for a in p.args:
            if a["strings"] is None and id(a) not in given and a["nargs"] not in ("?", "*"):
                I.raise_("SystemExit", f"the following arguments are required: {a['dest']}")
            if a["required"] in (TRUEV, True) and id(a) not in given:
                I.raise_("SystemExit", f"the following arguments are required: {a['dest']}")
            if id(a) not in given and isinstance(a["default"], str) and a["type"] is not None and out.get(a["dest"]) is a["default"]:
                out[a["dest"]] = I.call(a["type"], [a["default"]], {}, st)
        return out

    # ------------------------------------------------------------ external functions
    def ext_call(self, name, args, kw, st):
        I = self.I
        if name == "argparse.ArgumentParser":
            p = Parser(dict(kw))
            par = kw.get("parents")
            if par is not None:
                for q in I.iterate(par, st):
                    p.args += q.args
            return p
        if name == "argparse.Namespace":
            return NS(dict(kw))
        if name == "inspect.signature":
            return self.signature(args[0], kw, st)
        if name in ("inspect.isclass",):
            return pybool(isinstance(args[0], (Cls, TypeV, ExcCls)))
        if name in ("inspect.isfunction", "inspect.isroutine"):
            return pybool(isinstance(args[0], Func) and args[0].wrap != "lru")
        if name in ("inspect.ismodule",):
            return pybool(type(args[0]).__name__ == "Mod")
        if name in ("inspect.getdoc", "inspect.cleandoc"):
            d = I.getattr_(args[0], "__doc__", st) if name == "inspect.getdoc" else args[0]
            import inspect

            return None if d is None else inspect.cleandoc(d)
        if name in ("json.dumps", "json.dump"):
            v = self.serial(args[0], kw.get("default"), st)
            r = Rope([("json", v)])
            if name == "json.dump":
                I.printed.append((r, None if args[1].name == "sys.stdout" else repr(args[1])))
                return None
            return r
        if name in ("sys.stdout.write", "sys.stderr.write"):
            r = rope(args[0])
            if r is None:
                I.raise_("TypeError", "write() argument must be str")
            I.printed.append((Rope(r), None if name == "sys.stdout.write" else name))
            return None
        if name in ("sys.stdout.flush",):
            return None
        if name == "sys.exit" or name == "exit":
            I.raise_("SystemExit", repr(args))
        if name in ("operator.itemgetter", "functools.partial", "operator.attrgetter"):
            I.unsupported(name)
        return super().ext_call(name, args, kw, st)

    def serial(self, v, default, st):
        """the structure json writes, or TypeError"""
        I = self.I
        if v is None or isinstance(v, (str, Rope, AStr)):
            return v
        if isinstance(v, Sc) and (v.k == "py" or v.t == "float"):
            return v
        if isinstance(v, tuple) or (isinstance(v, Ref) and v.kind == "list"):
            return [self.serial(x, default, st) for x in I.iterate(v, st)]
        if isinstance(v, Ref) and v.kind == "dict":
            return {k: self.serial(x, default, st) for k, x in st.heap[v.oid].items()}
        if default is not None:
            return self.serial(I.call(default, [v], {}, st), default, st)
        if isinstance(v, (NArr, Sc)) or (isinstance(v, Opq) and v.kind == "time"):
            I.raise_("TypeError", f"Object {v!r} is not JSON serializable")
        I.unsupported(f"json of {v!r}")

    def signature(self, f, kw, st):
        I = self.I
        if not isinstance(f, Func):
            I.unsupported(f"signature of {f!r}")
        a = f.node.args
        tree = I.p.trees.get(f.mod)
        lazy = any(isinstance(s, ast.ImportFrom) and s.module == "__future__" and any(n.name == "annotations" for n in s.names) for s in tree.body)
        ev = kw.get("eval_str") in (TRUEV, True)

        def ann(x):
            if x.annotation is None:
                return EMPTY
            if lazy and not ev:
                return ast.unparse(x.annotation)
            try:
                return I.ev(x.annotation, st, ("mod", f.mod))
            except Exception:  # noqa: BLE001
                return Opq(E.ofn("annotation", E.const(ast.unparse(x.annotation))), "ext")

        out = []
        pos = a.posonlyargs + a.args
        off = len(pos) - len(f.defaults)
        for k, x in enumerate(pos):
            kd = "POSITIONAL_ONLY" if k < len(a.posonlyargs) else "POSITIONAL_OR_KEYWORD"
            out.append(Par(x.arg, f.defaults[k - off] if k >= off else EMPTY, ann(x), kd))
        if a.vararg:
            out.append(Par(a.vararg.arg, EMPTY, ann(a.vararg), "VAR_POSITIONAL"))
        for x in a.kwonlyargs:
            out.append(Par(x.arg, f.kwdefaults.get(x.arg, EMPTY), ann(x), "KEYWORD_ONLY"))
        if a.kwarg:
            out.append(Par(a.kwarg.arg, EMPTY, ann(a.kwarg), "VAR_KEYWORD"))
        return Sig(f, out)


def flat(v):
    if isinstance(v, NArr):
        yield from flat(v.items)
    elif isinstance(v, (tuple, list)):
        for x in v:
            yield from flat(x)
    else:
        yield v


class CliInterp(Interp):
    def __init__(self, project, cfg, overrides=None):
        super().__init__(project, cfg, overrides)
        self.lib = CliLib(self)
        self.printed, self.helps, self.argv, self.negative = [], [], [], []
        self.exports = {}  # id of function -> name
        self.calls = []
        self.result = None
        self.active = False

    def split(self, c, st, fa, fb):
        if self.active and st.known(c) is None:
            self.unsupported(f"decision on a symbolic value {E.show(c, 3)[:80]}")
        return super().split(c, st, fa, fb)

    def branch(self, c, st, items, fa, fb):
        if self.active and c not in (E.TRUE, E.FALSE) and st.known(c) is None:
            self.unsupported(f"decision on a symbolic value {E.show(c, 3)[:80]}")
        return super().branch(c, st, items, fa, fb)

    def truth(self, v, st):
        if isinstance(v, NArr):
            if len(list(flat(v))) == 1:
                return E.not_(E.cmp("==", next(flat(v)).node, E.ZERO))
            self.raise_("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, Rope):
            return E.TRUE if v.parts else E.FALSE
        if isinstance(v, CliVal):
            return E.TRUE
        return super().truth(v, st)

    def contains(self, box, x, st):
        if isinstance(box, AStr):
            if x == ",":
                return E.TRUE if box.kind == "list" else E.FALSE
            self.unsupported(f"{x!r} in {box!r}")
        if isinstance(x, AStr) and (isinstance(box, tuple) or isinstance(box, Ref)):
            return E.FALSE
        if isinstance(box, NS):
            return E.TRUE if x in box.d else E.FALSE
        if isinstance(box, Rope):
            self.unsupported("search in a computed text")
        return super().contains(box, x, st)

    def static_eq(self, a, b, st):
        if isinstance(a, AStr) or isinstance(b, AStr):
            return a is b
        if isinstance(a, Rope) or isinstance(b, Rope):
            self.unsupported("comparison of a computed text")
        return super().static_eq(a, b, st)

    def binop(self, op, a, b, st):
        if op == "Add" and (isinstance(a, (Rope, AStr)) or isinstance(b, (Rope, AStr))):
            x, y = rope(a), rope(b)
            if x is None or y is None:
                self.raise_("TypeError", "can only concatenate str")
            return Rope(x + y)
        if op == "Mod" and isinstance(a, str):
            return self.percent(a, b, st)
        return super().binop(op, a, b, st)

    def percent(self, s, b, st):
        vals = list(b) if isinstance(b, tuple) else [b]
        out = []
        for x in re.split(r"(%%|%[-+ #0]*(?:\*|\d+)?(?:\.(?:\*|\d+))?[a-zA-Z])", s):
            if not x.startswith("%"):
                out.append(("lit", x))
            elif x == "%%":
                out.append(("lit", "%"))
            else:
                while "*" in x:
                    x = x.replace("*", str(self.int_of(vals.pop(0))), 1)
                v = vals.pop(0)
                if x[-1] in "fFeEgGd":
                    out += rope(self.lib.format_(v, x[1:], st)) or []
                elif x == "%s":
                    out += rope(self.lib.str_(v, st)) or []
                else:
                    self.unsupported(f"format {x}")
        if all(p[0] == "lit" for p in out):
            return "".join(p[1] for p in out)
        return Rope(out)

    def e_JoinedStr(self, e, st, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(("lit", v.value))
                continue
            x = self.ev(v.value, st, fid)
            spec = self.ev(v.format_spec, st, fid) if v.format_spec is not None else None
            if v.conversion == 114:
                x = self.lib.repr_(x, st)
            elif v.conversion == 115:
                x = self.lib.str_(x, st)
            t = self.lib.format_(x, spec, st)
            r = rope(t)
            if r is None:
                r = [("val", "str", None, t)]
            parts += r
        if all(p[0] == "lit" for p in parts):
            return "".join(p[1] for p in parts)
        return Rope(parts)

    def iterate(self, v, st):
        if isinstance(v, NArr):
            if isinstance(v.items, Sc):
                self.raise_("TypeError", "iteration over a 0-d array")
            return [x if isinstance(x, Sc) else NArr(x) for x in v.items]
        if isinstance(v, AStr):
            self.unsupported("characters of a text")
        return super().iterate(v, st)

    def getitem(self, o, i, st):
        if isinstance(o, NArr):
            k = self.int_of(i)
            if k is None:
                self.unsupported("index of an array")
            x = o.items[k]
            return x if isinstance(x, Sc) else NArr(x)
        return super().getitem(o, i, st)

    def getattr_(self, v, name, st):
        if isinstance(v, AStr) or isinstance(v, Rope):
            if not hasattr(str, name):
                self.raise_("AttributeError", f"str has no attribute {name!r}")
            return Method(v, name)
        if isinstance(v, NArr):
            shape = []
            x = v.items
            while not isinstance(x, Sc):
                shape.append(len(x))
                x = x[0]
            if name == "shape":
                return tuple(pyint(k) for k in shape)
            if name == "ndim":
                return pyint(len(shape))
            if name == "size":
                return pyint(len(list(flat(v))))
            if name == "dtype":
                return Ext("numpy.dtype:float")
            if name in L.ARR_ATTR or name in ("__iter__",):
                return Method(v, name)
            self.raise_("AttributeError", f"ndarray has no attribute {name!r}")
        if isinstance(v, NS):
            if name == "__dict__":
                return self.alloc(st, "dict", dict(v.d))
            if name in v.d:
                return v.d[name]
            self.raise_("AttributeError", f"'Namespace' object has no attribute {name!r}")
        if isinstance(v, Sig):
            if name == "parameters":
                return self.alloc(st, "dict", {p.name: p for p in v.pars})
            self.unsupported(f"Signature.{name}")
        if isinstance(v, Par):
            if name in ("name", "default", "annotation"):
                return getattr(v, name)
            if name == "kind":
                return Ext("inspect.Parameter." + v.kind)
            if name in ("empty",) or name.isupper():
                return Ext("inspect.Parameter." + name)
            self.unsupported(f"Parameter.{name}")
        if isinstance(v, Subs) and name == "choices":
            return self.alloc(st, "dict", dict(v.parsers))
        if isinstance(v, CliVal):
            return Method(v, name)
        if isinstance(v, Func) and name in ("__doc__", "__name__", "__qualname__", "__module__"):
            if name == "__doc__":
                return None if isinstance(v.node, ast.Lambda) else ast.get_docstring(v.node, clean=False)
            return v.mod if name == "__module__" else v.name
        if isinstance(v, Opq) and v.kind == "time":
            if not hasattr(datetime.datetime, name):
                self.raise_("AttributeError", f"'datetime' object has no attribute {name!r}")
            if name in ("isoformat", "__str__", "ctime", "strftime"):
                return Method(v, name)
        if isinstance(v, Ext) and name in ("name",):
            return v.name.split(".")[-1]
        if isinstance(v, Ext) and v.name == "inspect.Signature" and name == "empty":
            return EMPTY
        return super().getattr_(v, name, st)

    def setattr_(self, o, name, v, st):
        if isinstance(o, NS):
            o.d[name] = v
            return
        super().setattr_(o, name, v, st)

    def call(self, f, args, kw, st):
        if self.active and isinstance(f, Func) and f.mod != MAIN and self.stack and self.stack[-1][0] == MAIN:
            n = self.exports.get(id(f))
            if n is not None:
                fr = self.bind(f, args, kw, st)
                if f.name == "str2dt":
                    x = args[0] if args else kw.get("time")
                    if isinstance(x, Opq) and x.kind == "time":
                        r = x
                    elif isinstance(x, (AStr, str)):
                        r = Opq(E.osym(f"the time that {x!r} names"), "time")
                    else:
                        self.unsupported(f"str2dt of {x!r}")
                else:
                    r = self.result(st) if callable(self.result) else self.result
                self.calls.append((id(f), n, fr))
                return r
        return super().call(f, args, kw, st)


class Cli:
    """a loaded command line"""

    def __init__(self, project):
        self.p = project
        I = self.I = CliInterp(project, Config(numpy=True, astropy=True))
        I.load([m for m in project.trees if m not in project.bad])
        self.main = I.base.mods[MAIN]
        pm = I.base.mods["pymap3d"]
        self.all = [n for n in I.iterate(pm["__all__"], I.base)] if "__all__" in pm else []
        self.pm = pm
        self.names = {}
        for n in self.all:
            f = pm.get(n)
            if isinstance(f, Func):
                self.names[n] = f
        I.exports = {id(f): n for n, f in self.names.items()}

    def go(self, argv, result, script=False):
        """-> (calls, printed, exception or None, state, helps).  script: execute the module as `python -m` does"""
        I = self.I
        st = I.base.clone()
        I.events, I.handlers, I.warn_error, I.steps = [], [], 0, 0
        I.stack = [(MAIN, "<entry>", 0)]
        I.printed, I.helps, I.calls, I.argv, I.result, I.negative = [], [], [], list(argv), result, []
        st.pend = []
        I.active = True
        exc = None
        try:
            if script:
                st.mods = dict(st.mods)
                st.mods[MAIN] = {"__name__": "__main__", "__doc__": None}
                items, _ = I.exec_block(self.p.trees[MAIN].body, st, ("mod", MAIN))
                for _, k, x, _ in items:
                    if k == "raise":
                        raise AbsRaise(x)
                return I.calls, I.printed, None, st, I.helps
            if "main" not in self.main:
                from .session import Missing

                raise Missing(MAIN + ".main")
            I.call(self.main["main"], [], {}, st)
        except AbsRaise as e:
            exc = e.exc
        finally:
            I.active = False
        if st.pend:
            I.unsupported("conditional exception")
        return I.calls, I.printed, exc, st, I.helps
