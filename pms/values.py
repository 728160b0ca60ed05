"""Abstract values of the interpreter."""

from __future__ import annotations

from . import expr as E


class Sc:
    """scalar number or boolean. k: 'py' (Python object) or 'np' (NumPy scalar)"""

    __slots__ = ("node", "k", "t")

    def __init__(self, node, k="py", t="float"):
        self.node, self.k, self.t = node, k, t

    def __repr__(self):
        return f"Sc({self.node}:{self.k}{self.t[0]})"

    def __eq__(self, o):
        return isinstance(o, Sc) and (self.node, self.k, self.t) == (o.node, o.k, o.t)

    def __hash__(self):
        return hash((self.node, self.k, self.t))


class Arr:
    """ndarray, described by its generic element. mem: memory cell in the heap"""

    __slots__ = ("mem", "shape", "sel", "nd0", "ms", "t")

    def __init__(self, mem, shape="S", sel=None, nd0=False, ms=False, t="float"):
        self.mem, self.shape, self.sel, self.nd0, self.ms, self.t = mem, shape, sel, nd0, ms, t

    def __repr__(self):
        return f"Arr(m{self.mem},{self.shape})"

    def _k(self):
        return (self.mem, self.shape, self.sel, self.nd0, self.ms, self.t)

    def __eq__(self, o):
        return isinstance(o, Arr) and self._k() == o._k()

    def __hash__(self):
        return hash(self._k())


class Mem:
    """content of an array: node of the generic element, and whose memory it is"""

    __slots__ = ("node", "origin", "alias", "cols")

    def __init__(self, node, origin=frozenset(), alias=(), cols=None):
        self.node, self.origin, self.alias, self.cols = node, origin, alias, cols

    def __eq__(self, o):
        return isinstance(o, Mem) and (self.node, self.origin, self.alias, self.cols) == (
            o.node,
            o.origin,
            o.alias,
            o.cols,
        )

    def __hash__(self):
        return hash((self.node, self.origin, self.alias))


class Opq:
    """object described only by how it was obtained. kind: 'time', 'td', 'ext'"""

    __slots__ = ("node", "kind")

    def __init__(self, node, kind="ext"):
        self.node, self.kind = node, kind

    def __repr__(self):
        return f"Opq({self.node})"

    def __eq__(self, o):
        return isinstance(o, Opq) and self.node is o.node

    def __hash__(self):
        return hash(self.node)


class Ref:
    """reference to a heap object: list, dict, set or instance"""

    __slots__ = ("oid", "kind", "cls")

    def __init__(self, oid, kind, cls=None):
        self.oid, self.kind, self.cls = oid, kind, cls

    def __repr__(self):
        return f"{self.kind}#{self.oid}"

    def __eq__(self, o):
        return isinstance(o, Ref) and self.oid == o.oid

    def __hash__(self):
        return hash(self.oid)


class Seq:
    """a list built by a loop of unknown length: element as a function of the index symbol"""

    __slots__ = ("idx", "n", "elem")

    def __init__(self, idx, n, elem):
        self.idx, self.n, self.elem = idx, n, elem

    def __eq__(self, o):
        return isinstance(o, Seq) and (self.idx, self.n, self.elem) == (o.idx, o.n, o.elem)

    def __hash__(self):
        return hash((self.idx, self.n))


class Func:
    __slots__ = ("node", "mod", "fid", "name", "defaults", "kwdefaults", "cls", "wrap")

    def __init__(self, node, mod, fid, name, defaults, kwdefaults, cls=None, wrap=None):
        self.node, self.mod, self.fid, self.name = node, mod, fid, name
        self.defaults, self.kwdefaults, self.cls, self.wrap = defaults, kwdefaults, cls, wrap

    def __repr__(self):
        return f"<func {self.mod}.{self.name}>"


class Builtin:
    __slots__ = ("name", "f")

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<builtin {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Builtin) and o.name == self.name and o.f == self.f

    def __hash__(self):
        return hash(self.name)


class Bound:
    __slots__ = ("f", "self_")

    def __init__(self, f, self_):
        self.f, self.self_ = f, self_


class Method:
    """method of a modelled object, dispatched by name"""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Cls:
    __slots__ = ("name", "mod", "bases", "attrs", "dataclass", "node")

    def __init__(self, name, mod, bases, attrs, node=None):
        self.name, self.mod, self.bases, self.attrs, self.node = name, mod, bases, attrs, node
        self.dataclass = False

    def __repr__(self):
        return f"<class {self.mod}.{self.name}>"

    def find(self, n):
        if n in self.attrs:
            return self.attrs[n]
        for b in self.bases:
            if isinstance(b, Cls):
                r = b.find(n)
                if r is not None:
                    return r
        return None


class Mod:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<module {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Mod) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Ext:
    """external module, function or class, by dotted name"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Phi:
    """one of two values of different shape, decided by a condition"""

    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Phi({self.c}, {self.a}, {self.b})"

    def __eq__(self, o):
        return isinstance(o, Phi) and self.c is o.c and self.a == o.a and self.b == o.b

    def __hash__(self):
        return hash((self.c, 7))


class Exc:
    __slots__ = ("name", "msg", "where")

    def __init__(self, name, msg="", where=""):
        self.name, self.msg, self.where = name, msg, where

    def __repr__(self):
        return f"{self.name}({self.msg!r}) at {self.where}"


class Range:
    __slots__ = ("start", "stop", "step", "tag")

    def __init__(self, start, stop, step, tag=None):
        self.start, self.stop, self.step, self.tag = start, stop, step, tag


class Slice:
    __slots__ = ("lo", "hi", "st")

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def full(self):
        return self.lo is None and self.hi is None and self.st is None


class Shape:
    """the .shape of an array"""

    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return f"Shape({self.tag})"

    def __eq__(self, o):
        return isinstance(o, Shape) and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)


class Dim:
    """number of rows / elements of an array with the given shape tag"""

    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, Dim) and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)


class Rows:
    """2-D array with a known number of columns, generic row"""

    __slots__ = ("mem", "tag", "ncol")

    def __init__(self, mem, tag, ncol):
        self.mem, self.tag, self.ncol = mem, tag, ncol

    def __eq__(self, o):
        return isinstance(o, Rows) and (self.mem, self.tag, self.ncol) == (o.mem, o.tag, o.ncol)

    def __hash__(self):
        return hash((self.mem, self.tag))


class RowIdx:
    """loop index over all rows of arrays with the given tag"""

    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, RowIdx) and o.tag == self.tag

    def __hash__(self):
        return hash(self.tag)


class Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = Unbound()


class AbsRaise(Exception):
    """the abstracted program definitely raises here"""

    def __init__(self, exc):
        self.exc = exc


class Unsupported(Exception):
    """construct outside the modelled language; the obligation becomes undecided"""


class Event:
    __slots__ = ("kind", "where", "detail", "node")

    def __init__(self, kind, where, detail="", node=None):
        self.kind, self.where, self.detail, self.node = kind, where, detail, node

    def __repr__(self):
        return f"{self.kind} at {self.where}: {self.detail}"


TRUEV = Sc(E.TRUE, "py", "bool")
FALSEV = Sc(E.FALSE, "py", "bool")


def pybool(b):
    return TRUEV if b else FALSEV


def pyint(i):
    return Sc(E.q(i), "py", "int")


def pyfloat(x):
    return Sc(E.q(x), "py", "float")


def turn(t):
    """order of the elements of a transposed array (arrays of one axis or one element do not notice)"""
    if t == "1" or isinstance(t, tuple) and t[0] in ("ravel", "rows"):
        return t
    return t[1] if isinstance(t, tuple) and t[0] == "T" else ("T", t)


def bare(t):
    """the shape whatever the order of its elements"""
    if isinstance(t, tuple) and t[0] == "T":
        return bare(t[1])
    return (t[0], bare(t[1])) + t[2:] if isinstance(t, tuple) else t


def flat(t):
    return t[1] if isinstance(t, tuple) and t[0] == "ravel" else t
