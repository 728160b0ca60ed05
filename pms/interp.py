"""Abstract interpreter: Python source -> gated value numbers.

One pass over the syntax tree of each function, callees inlined.  Branches are merged with
ite nodes (no path enumeration), raises become guarded exits, loops whose trip count is not a
constant become one `loop` node.  Nothing of the analysed project is imported or executed.
"""

from __future__ import annotations

import ast
import builtins
import sys
from fractions import Fraction as F

from . import astro
from . import expr as E
from .astro import Ast, is_astro
from .expr import FALSE, N, TRUE
from .values import (
    bare,
    Arr, Bound, Builtin, Cls, Dim, Event, Exc, Ext, Func, Mem, Method, Mod, Opq, Phi, Range,
    Ref, RowIdx, Rows, Sc, Shape, Slice, UNBOUND, AbsRaise, Unsupported, FALSEV, TRUEV, pybool,
    pyfloat, pyint,
)

sys.setrecursionlimit(30000)

UNROLL_LIMIT = 400


class ExcCls:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExcCls) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<exc {self.name}>"


def exc_matches(name, handler):
    a, b = getattr(builtins, name, None), getattr(builtins, handler, None)
    if a is None or b is None:
        return name == handler
    return issubclass(a, b)


class TypeV:
    """a builtin type used as a value (float, int, tuple, ...)"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, TypeV) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"<type {self.name}>"


class State:
    __slots__ = ("heap", "frames", "mods", "assume", "pend")

    def __init__(self):
        self.heap, self.frames, self.mods, self.assume, self.pend = {}, {}, {}, {}, []

    def clone(self):
        s = State()
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.mods = dict(self.mods)
        s.assume = dict(self.assume)
        s.pend = []
        return s

    def become(self, o):
        self.heap, self.frames, self.mods, self.assume = o.heap, o.frames, o.mods, o.assume

    # ---- what is known about conditions here
    def known(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        r = self.assume.get(c)
        if r is not None:
            return r
        r = self.assume.get(E.not_(c))
        if r is not None:
            return not r
        if c.op == "and":
            ks = [self.known(x) for x in c.a]
            if any(k is False for k in ks):
                return False
            if all(k is True for k in ks):
                return True
        elif c.op == "or":
            ks = [self.known(x) for x in c.a]
            if any(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
        elif c.op == "not":
            k = self.known(c.a[0])
            return None if k is None else not k
        elif c.op == "cmp":
            o, d = c.a
            lt, gt = E.cmp("<", d, E.ZERO), E.cmp("<", E.ZERO, d)
            eq = E.cmp("==", d, E.ZERO)
            kl, kg, ke = (self.assume.get(x) for x in (lt, gt, eq))
            if o == "<" and (kg or ke):
                return False
            if o == "<=" and kg:
                return False
            if o == "<=" and (kl or ke):
                return True
            if o == "==" and (kl or kg):
                return False
        return None

    def suppose(self, c, truth=True):
        if c in (TRUE, FALSE):
            return
        if truth and c.op == "and":
            for x in c.a:
                self.suppose(x)
        if not truth and c.op == "or":
            for x in c.a:
                self.suppose(x, False)
        if c.op == "not":
            self.suppose(c.a[0], not truth)
            return
        self.assume[c] = truth
        if c.op == "cmp" and c.a[0] == "<=" and truth is False:
            self.assume[E.cmp("<", E.ZERO, c.a[1])] = True
        if c.op == "cmp" and c.a[0] == "<" and truth is False:
            self.assume[E.cmp("<=", E.ZERO, c.a[1])] = True


class Config:
    def __init__(self, numpy=True, astropy=False):
        self.numpy, self.astropy = numpy, astropy


def dec(x: float) -> N:
    """float literal as the decimal that was written"""
    if x != x:
        return E.NAN
    if x in (float("inf"), float("-inf")):
        return E.q(x)
    return E.q(F(repr(x)))


class Interp:
    def __init__(self, project, cfg, overrides=None):
        self.on_new = None
        self.p = project
        self.cfg = cfg
        self.ids = 0
        self.events = []
        self.stack = []  # (mod, func, line)
        self.handlers = []  # names the active try statements can catch
        self.warn_error = 0
        self.base = State()
        self.loading = set()
        self.loaded = False
        self.overrides = overrides or {}
        self.steps = 0
        self.max_steps = 3_000_000
        from . import lib

        self.lib = lib.Lib(self)

    # ------------------------------------------------------------ utilities
    def new_id(self):
        self.ids += 1
        return self.ids

    def where(self):
        if not self.stack:
            return "?"
        m, f, l = self.stack[-1]
        return f"{self.p.path(m)}:{l} in {f}"

    def event(self, kind, detail="", node=None):
        self.events.append(Event(kind, self.where(), detail, node))

    def unsupported(self, msg):
        raise Unsupported(f"{msg} at {self.where()}")

    def raise_(self, name, msg=""):
        raise AbsRaise(Exc(name, msg, self.where()))

    def pend(self, st, guard, name, msg=""):
        k = st.known(guard)
        if k is False or guard is FALSE:
            return
        if k is True:
            self.raise_(name, msg)
        st.pend.append((guard, Exc(name, msg, self.where()), st.clone()))
        st.suppose(guard, False)

    def catching(self, name):
        return any(exc_matches(name, h) for hs in self.handlers for h in hs)

    # ------------------------------------------------------------ objects
    def alloc(self, st, kind, content, cls=None):
        oid = self.new_id()
        st.heap[oid] = content
        return Ref(oid, kind, cls)

    def newlist(self, st, items):
        return self.alloc(st, "list", tuple(items))

    def newarr(self, st, node, shape="S", sel=None, nd0=False, t="float", origin=frozenset(), ms=False):
        oid = self.new_id()
        st.heap[oid] = Mem(node, origin)
        return Arr(oid, shape, sel, nd0, ms, t)

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b, st):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, (int, str, type(None), bytes)) and isinstance(b, (int, str, type(None), bytes)):
            if a == b and type(a) is type(b):
                return a
            return Phi(c, a, b)
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a == b:
                return a
            if (a.t == "bool") == (b.t == "bool"):
                k = "np" if "np" in (a.k, b.k) else "py"
                t = a.t if a.t == b.t else "float"
                return Sc(E.ite(c, a.node, b.node), k, t)
            return Phi(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a == b:
                return a
            if (a.shape, a.sel, a.nd0, a.t) == (b.shape, b.sel, b.nd0, b.t) or (
                a.sel is b.sel and a.t == b.t and {a.shape, b.shape} == {"S"}
            ):
                ma, mb = st.heap[a.mem], st.heap[b.mem]
                oid = self.new_id()
                st.heap[oid] = Mem(
                    E.ite(c, ma.node, mb.node), ma.origin | mb.origin, (a.mem, b.mem) if a.mem != b.mem else ()
                )
                return Arr(oid, a.shape, a.sel, a.nd0, a.ms or b.ms, a.t)
            return Phi(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Sc) and a.sel is None and (a.t == "bool") == (b.t == "bool"):
            ma = st.heap[a.mem]
            oid = self.new_id()
            st.heap[oid] = Mem(E.ite(c, ma.node, b.node), ma.origin, (a.mem,))
            return Arr(oid, a.shape, None, a.nd0, True, a.t)
        if isinstance(a, Sc) and isinstance(b, Arr):
            return self.merge_val(E.not_(c), b, a, st)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y, st) for x, y in zip(a, b))
        if isinstance(a, Opq) and isinstance(b, Opq):
            if a.node is b.node:
                return a
            return Opq(E.ite(c, a.node, b.node), a.kind if a.kind == b.kind else "ext")
        if isinstance(a, Exc) and isinstance(b, Exc):
            return Phi(c, a, b)
        try:
            if a == b:
                return a
        except Exception:
            pass
        if isinstance(a, Phi) and a.c is c:
            a = a.a
        if isinstance(b, Phi) and b.c is c:
            b = b.b
        if a is b:
            return a
        return Phi(c, a, b)

    def merge_obj(self, c, a, b, st):
        if a is b:
            return a
        if isinstance(a, Mem) and isinstance(b, Mem):
            if a == b:
                return a
            cols = None
            if a.cols is not None and b.cols is not None:
                cols = tuple(E.ite(c, x, y) for x, y in zip(a.cols, b.cols))
            n = E.ite(c, a.node, b.node) if a.node is not None and b.node is not None else (a.node or b.node)
            return Mem(n, a.origin | b.origin, a.alias + b.alias, cols)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b):
                return tuple(self.merge_val(c, x, y, st) for x, y in zip(a, b))
            return ("?phi", c, a, b)
        if isinstance(a, dict) and isinstance(b, dict):
            r = {}
            for k in list(a) + [k for k in b if k not in a]:
                r[k] = self.merge_val(c, a.get(k, UNBOUND), b.get(k, UNBOUND), st)
            return r
        return a

    def merge(self, c, s1, s2):
        """state: s1 if c else s2"""
        if c is TRUE:
            return s1
        if c is FALSE:
            return s2
        m = State()
        h1, h2 = s1.heap, s2.heap
        m.heap = dict(h2)
        diff = []
        for k, v in h1.items():
            w = h2.get(k)
            if w is v:
                continue
            if w is None:
                m.heap[k] = v
            else:
                diff.append(k)
        m.mods = s1.mods
        for k in diff:
            m.heap[k] = self.merge_obj(c, h1[k], h2[k], m)
        for fid in set(s1.frames) | set(s2.frames):
            f1, f2 = s1.frames.get(fid), s2.frames.get(fid)
            if f1 is None or f2 is None:
                m.frames[fid] = dict(f1 if f2 is None else f2)
                continue
            fr = {}
            for k in f1.keys() | f2.keys():
                a, b = f1.get(k, UNBOUND), f2.get(k, UNBOUND)
                fr[k] = a if a is b else self.merge_val(c, a, b, m)
                if {type(a), type(b)} == {Arr, Sc} and any(x.op == "bfn" and x.a[0] in ("any", "all") for x in E.walk(c)):
                    self.event("collapse", f"'{k}' becomes a scalar when a condition on any element holds", c)
            m.frames[fid] = fr
        if s1.mods is not s2.mods:
            mods = {}
            for k in s1.mods.keys() | s2.mods.keys():
                a, b = s1.mods.get(k), s2.mods.get(k)
                if a is b or b is None:
                    mods[k] = a
                elif a is None:
                    mods[k] = b
                else:
                    mods[k] = {
                        n: self.merge_val(c, a.get(n, UNBOUND), b.get(n, UNBOUND), m) for n in a.keys() | b.keys()
                    }
            m.mods = mods
        m.assume = {k: v for k, v in s1.assume.items() if s2.assume.get(k) is v}
        return m

    def split(self, c, st, fa, fb):
        k = st.known(c)
        if k is True:
            return fa(st)
        if k is False:
            return fb(st)
        s1, s2 = st.clone(), st.clone()
        s1.suppose(c)
        s2.suppose(c, False)
        e1 = e2 = v1 = v2 = None
        try:
            v1 = fa(s1)
        except AbsRaise as e:
            e1 = e
        try:
            v2 = fb(s2)
        except AbsRaise as e:
            e2 = e
        nc = E.not_(c)
        st.pend += [(E.and_(c, g), x, s) for g, x, s in s1.pend]
        st.pend += [(E.and_(nc, g), x, s) for g, x, s in s2.pend]
        s1.pend, s2.pend = [], []
        if e1 and e2:
            st.pend.append((c, e1.exc, s1))
            st.become(s2)
            raise e2
        if e1:
            st.pend.append((c, e1.exc, s1))
            st.become(s2)
            return v2
        if e2:
            st.pend.append((nc, e2.exc, s2))
            st.become(s1)
            return v1
        m = self.merge(c, s1, s2)
        st.become(m)
        return self.merge_val(c, v1, v2, st)

    def lift(self, v, st, f):
        """apply f(value, state) through Phi"""
        if isinstance(v, Phi):
            return self.split(v.c, st, lambda s: self.lift(v.a, s, f), lambda s: self.lift(v.b, s, f))
        return f(v, st)

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        """-> boolean node"""
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if v is None:
            return FALSE
        if isinstance(v, Sc):
            if v.node.sort == "b":
                return v.node
            return E.not_(E.cmp("==", v.node, E.ZERO))
        if isinstance(v, Arr):
            if v.nd0 or v.shape == "1":
                n = st.heap[v.mem].node
                return n if n.sort == "b" else E.not_(E.cmp("==", n, E.ZERO))
            self.raise_("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, (str, tuple, bytes)):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return TRUE if v else FALSE
        if isinstance(v, Ref):
            c = st.heap[v.oid]
            if v.kind in ("list", "dict", "set"):
                return TRUE if len(c) else FALSE
            return TRUE
        if isinstance(v, Phi):
            a, b = self.truth(v.a, st), self.truth(v.b, st)
            return E.ite_b(v.c, a, b)
        if isinstance(v, (Func, Cls, Ext, Builtin, Bound, Mod, TypeV, Exc, ExcCls, Method)):
            return TRUE
        if isinstance(v, Opq):
            if v.kind == "time":
                return TRUE
            return E._mk("bfn", ("truth", v.node), "b")
        self.unsupported(f"truth of {v!r}")

    # ------------------------------------------------------------ names
    def load_module(self, name, st):
        """import a project module into a state"""
        if name in st.mods:
            return
        tree = self.p.trees[name]
        st.mods[name] = {"__name__": name, "__doc__": None}
        self.stack.append((name, "<module>", 1))
        fid = ("mod", name)
        items, ns = self.exec_block(tree.body, st, fid)
        self.stack.pop()
        for g, k, p, s in items:
            if k == "raise" and g is TRUE:
                raise AbsRaise(p)
            if k == "raise":
                self.unsupported(f"conditional raise while importing {name}: {p}")
        if ns is not None and ns is not st:
            st.become(ns)

    def lookup(self, name, st, fid):
        f = fid
        while f is not None and not (isinstance(f, tuple) and f[0] == "mod"):
            fr = st.frames.get(f)
            if fr is None:
                break
            if name in fr and name not in fr.get("%global", ()):
                v = fr[name]
                if v is UNBOUND:
                    if f == fid and not fr.get("%class"):
                        self.raise_("UnboundLocalError", f"name {name!r}")
                    self.raise_("NameError", f"name {name!r}")
                return self.resolve_unbound(v, name, st)
            f = fr.get("%parent")
        mod = f[1] if isinstance(f, tuple) else self.stack[-1][0]
        env = st.mods.get(mod, {})
        if name in env and env[name] is not UNBOUND:
            return self.resolve_unbound(env[name], name, st)
        b = self.lib.builtin(name)
        if b is not None:
            return b
        self.raise_("NameError", f"name {name!r} is not defined")

    def resolve_unbound(self, v, name, st):
        if isinstance(v, Phi) and (v.a is UNBOUND or v.b is UNBOUND):
            k = st.known(v.c)
            if k is True:
                v = v.a
            elif k is False:
                v = v.b
            else:
                g = v.c if v.a is UNBOUND else E.not_(v.c)
                self.pend(st, g, "UnboundLocalError", f"name {name!r}")
                v = v.b if v.a is UNBOUND else v.a
            if v is UNBOUND:
                self.raise_("UnboundLocalError", f"name {name!r}")
            return self.resolve_unbound(v, name, st)
        if isinstance(v, Phi):
            k = st.known(v.c)
            if k is not None:
                return self.resolve_unbound(v.a if k else v.b, name, st)
        return v

    def store(self, name, v, st, fid):
        if isinstance(fid, tuple) and fid[0] == "mod":
            self.store_global(fid[1], name, v, st)
            return
        fr = st.frames[fid]
        if name in fr.get("%global", ()):
            mod = self.stack[-1][0]
            self.store_global(mod, name, v, st)
            if self.loaded:
                self.event("global-write", f"module variable {mod}.{name}")
            return
        if name in fr.get("%nonlocal", ()):
            f = fr.get("%parent")
            while f is not None and not isinstance(f, tuple):
                if name in st.frames[f]:
                    st.frames[f][name] = v
                    return
                f = st.frames[f].get("%parent")
        fr[name] = v

    def store_global(self, mod, name, v, st):
        if self.loaded:
            st.mods = dict(st.mods)
            st.mods[mod] = dict(st.mods[mod])
        key = (mod, name)
        if not self.loaded and key in self.overrides:
            v = self.overrides[key](self, st, v)
        st.mods[mod][name] = v

    # ------------------------------------------------------------ statements
    def flush(self, st, items):
        for g, x, s in st.pend:
            items.append((g, "raise", x, s))
            st.suppose(g, False)
        st.pend = []

    def exec_block(self, stmts, st, fid):
        items = []
        for s in stmts:
            its, st = self.exec_stmt(s, st, fid)
            items += its
            if st is None:
                break
        return items, st

    def exec_stmt(self, s, st, fid):
        self.steps += 1
        if self.steps > self.max_steps:
            self.unsupported("analysis budget exceeded")
        m, f, _ = self.stack[-1]
        self.stack[-1] = (m, f, s.lineno)
        items = []
        depth = len(self.stack)
        hd = len(self.handlers)
        we = self.warn_error
        try:
            ns = getattr(self, "s_" + type(s).__name__, self.s_bad)(s, st, fid, items)
        except AbsRaise as e:
            del self.stack[depth:]
            del self.handlers[hd:]
            self.warn_error = we
            self.flush(st, items)
            items.append((TRUE, "raise", e.exc, st))
            return items, None
        if ns is not None and ns.pend:
            self.flush(ns, items)
        return items, ns

    def s_bad(self, s, st, fid, items):
        self.unsupported(f"statement {type(s).__name__}")

    def s_Pass(self, s, st, fid, items):
        return st

    def s_Expr(self, s, st, fid, items):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, st, fid)
        return st

    def s_Assign(self, s, st, fid, items):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid)
        return st

    def s_AnnAssign(self, s, st, fid, items):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid), st, fid)
        return st

    def s_AugAssign(self, s, st, fid, items):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st, fid)
            v = self.ev(s.value, st, fid)
            self.store(t.id, self.augment(op, old, v, st), st, fid)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fid)
            i = self.ev(t.slice, st, fid)
            old = self.getitem(o, i, st)
            v = self.ev(s.value, st, fid)
            self.setitem(o, i, self.augment(op, old, v, st), st)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fid)
            old = self.getattr_(o, t.attr, st)
            v = self.ev(s.value, st, fid)
            self.setattr_(o, t.attr, self.augment(op, old, v, st), st)
        else:
            self.unsupported("augmented assignment target")
        return st

    def augment(self, op, old, v, st):
        def f(o, s):
            if isinstance(o, Arr) and not o.nd0:
                def g(w, s2):
                    r = self.binop(op, o, w, s2)
                    if isinstance(r, Arr):
                        if o.t == "int" and r.t == "float":
                            self.raise_("TypeError", "cannot cast the result of an in-place operation from float to int")
                        self.write_mem(o, self.node_of(r, s2), s2)
                        return o
                    return r

                return self.lift(v, s, g)
            if isinstance(o, Ref) and o.kind == "list" and op == "Add":
                items = self.iterate(v, s)
                self.note_write(o, s)
                s.heap[o.oid] = tuple(s.heap[o.oid]) + tuple(items)
                return o
            return self.binop(op, o, v, s)

        return self.lift(old, st, f)

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            self.store(t.id, v, st, fid)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if isinstance(v, Phi):
                vals = self.unpack_phi(v, n, st)
            else:
                vals = self.iterate(v, st)
            if star:
                i = star[0]
                tail = n - i - 1
                mid = vals[i : len(vals) - tail]
                vals = list(vals[:i]) + [self.newlist(st, mid)] + list(vals[len(vals) - tail :] if tail else [])
            if len(vals) != n:
                self.raise_("ValueError", f"cannot unpack {len(vals)} values into {n}")
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fid)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fid)
            i = self.ev(t.slice, st, fid)
            self.setitem(o, i, v, st)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, st, fid), t.attr, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid)
        else:
            self.unsupported("assignment target")

    def unpack_phi(self, v, n, st):
        def f(x, s):
            vals = tuple(self.iterate(x, s))
            if len(vals) != n:
                self.raise_("ValueError", f"cannot unpack {len(vals)} values into {n}")
            return vals

        r = self.lift(v, st, f)
        return list(r) if isinstance(r, tuple) else self.unsupported("unpacking")

    def s_Return(self, s, st, fid, items):
        v = self.ev(s.value, st, fid) if s.value is not None else None
        self.flush(st, items)
        items.append((TRUE, "ret", v, st))
        return None

    def s_Raise(self, s, st, fid, items):
        if s.exc is None:
            fr = st.frames.get(fid, {})
            x = fr.get("%exc") or Exc("RuntimeError", "re-raise", self.where())
            raise AbsRaise(x)
        v = self.ev(s.exc, st, fid)
        self.flush(st, items)
        if isinstance(v, ExcCls):
            v = Exc(v.name, "", self.where())
        if isinstance(v, Exc):
            raise AbsRaise(Exc(v.name, v.msg, self.where()))
        if isinstance(v, Ref) and v.kind == "inst" and v.cls is not None:
            raise AbsRaise(Exc(self.exc_base(v.cls), "", self.where()))
        if isinstance(v, Cls):
            raise AbsRaise(Exc(self.exc_base(v), "", self.where()))
        self.unsupported(f"raise of {v!r}")

    def exc_base(self, cls):
        for b in cls.bases:
            if isinstance(b, ExcCls):
                return b.name
            if isinstance(b, Cls):
                return self.exc_base(b)
        return "Exception"

    def s_Assert(self, s, st, fid, items):
        c = self.truth(self.ev(s.test, st, fid), st)
        k = st.known(c)
        if k is True:
            return st
        if k is False:
            self.raise_("AssertionError", "")
        self.pend(st, E.not_(c), "AssertionError", "")
        return st

    def s_Delete(self, s, st, fid, items):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.store(t.id, UNBOUND, st, fid)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fid)
                i = self.ev(t.slice, st, fid)
                if isinstance(o, Ref) and o.kind == "dict":
                    d = dict(st.heap[o.oid])
                    d.pop(self.key(i), None)
                    self.note_write(o, st)
                    st.heap[o.oid] = d
                else:
                    self.unsupported("del item")
            else:
                self.unsupported("del")
        return st

    def s_Global(self, s, st, fid, items):
        st.frames[fid]["%global"] = tuple(st.frames[fid].get("%global", ())) + tuple(s.names)
        return st

    def s_Nonlocal(self, s, st, fid, items):
        st.frames[fid]["%nonlocal"] = tuple(st.frames[fid].get("%nonlocal", ())) + tuple(s.names)
        return st

    def s_If(self, s, st, fid, items):
        v = self.ev(s.test, st, fid)
        c = self.truth(v, st)
        self.flush(st, items)
        return self.branch(c, st, items, lambda x: self.exec_block(s.body, x, fid), lambda x: self.exec_block(s.orelse, x, fid))

    def branch(self, c, st, items, fa, fb):
        k = st.known(c)
        if k is not None:
            its, ns = (fa if k else fb)(st)
            items += its
            return ns
        s1, s2 = st.clone(), st.clone()
        s1.suppose(c)
        s2.suppose(c, False)
        i1, n1 = fa(s1)
        i2, n2 = fb(s2)
        nc = E.not_(c)
        items += [(E.and_(c, g), kd, p, s) for g, kd, p, s in i1]
        items += [(E.and_(nc, g), kd, p, s) for g, kd, p, s in i2]
        if n1 is None:
            return n2
        if n2 is None:
            return n1
        # the side that may leave early contributes only when it did not
        return self.merge(c, n1, n2)

    def s_FunctionDef(self, s, st, fid, items):
        self.store(s.name, self.make_func(s, st, fid), st, fid)
        return st

    def make_func(self, s, st, fid):
        a = s.args
        defaults = [self.ev(d, st, fid) for d in a.defaults]
        kwd = {
            k.arg: self.ev(d, st, fid) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None
        }
        wrap = None
        name = getattr(s, "name", "<lambda>")
        for d in getattr(s, "decorator_list", []):
            e = d.func if isinstance(d, ast.Call) else d
            nm = e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "?")
            if nm in ("classmethod", "staticmethod", "property", "cached_property"):
                wrap = nm
            elif nm in ("lru_cache", "cache"):
                wrap = "lru"
            elif nm in ("overload", "override", "wraps"):
                pass
            else:
                self.unsupported(f"decorator {nm}")
        while isinstance(fid, tuple) and fid[0] == "cls":
            fid = st.frames[fid]["%parent"]
        return Func(s, self.stack[-1][0], fid, name, defaults, kwd, None, wrap)

    def s_ClassDef(self, s, st, fid, items):
        bases = []
        for b in s.bases:
            try:
                bases.append(self.ev(b, st, fid))
            except AbsRaise:
                bases.append(Ext("?"))
        cfid = ("cls", self.new_id())
        st.frames[cfid] = {"%parent": fid, "%class": True}
        its, ns = self.exec_block(s.body, st, cfid)
        if its:
            self.unsupported("class body with early exit")
        attrs = {k: v for k, v in ns.frames.pop(cfid).items() if not k.startswith("%")}
        c = Cls(s.name, self.stack[-1][0], bases, attrs, s)
        for d in s.decorator_list:
            e = d.func if isinstance(d, ast.Call) else d
            nm = e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "?")
            if nm == "dataclass":
                c.dataclass = True
                if isinstance(d, ast.Call) and any(
                    k.arg in ("frozen", "unsafe_hash") and getattr(k.value, "value", None) is True for k in d.keywords
                ):
                    c.attrs.setdefault("%hashable", True)
        for v in attrs.values():
            if isinstance(v, Func):
                v.cls = c
        self.store(s.name, c, ns, fid)
        return ns

    # ---- imports
    def s_Import(self, s, st, fid, items):
        for al in s.names:
            top = al.name.split(".")[0]
            self.check_import(al.name)
            if self.p.is_project(al.name):
                self.load_sub(al.name, st)
                v = Mod(al.name)
                if not al.asname:
                    v = Mod(top)
            else:
                v = Ext(al.name if al.asname else top)
            self.store(al.asname or top, v, st, fid)
        return st

    def load_sub(self, name, st):
        if name not in st.mods:
            if self.loaded:
                self.unsupported(f"late import of {name}")
            parts = name.split(".")
            for i in range(1, len(parts) + 1):
                m = ".".join(parts[:i])
                if m not in st.mods:
                    self.load_module(m, st)

    def check_import(self, name):
        top = name.split(".")[0]
        if top == "numpy" and not self.cfg.numpy:
            self.raise_("ImportError", "No module named numpy")
        if top == "astropy" and not self.cfg.astropy:
            self.raise_("ImportError", "No module named astropy")
        if not self.p.is_project(name) and top not in self.p.known_external:
            self.raise_("ImportError", f"No module named {name}")

    def s_ImportFrom(self, s, st, fid, items):
        if s.module == "__future__":
            return st
        name = s.module or ""
        cur = self.stack[-1][0]
        if s.level:
            base = cur.split(".")
            if not self.p.is_package(cur):
                base = base[:-1]
            if s.level > 1:
                base = base[: len(base) - (s.level - 1)]
            name = ".".join(base + ([name] if name else []))
        self.check_import(name)
        for al in s.names:
            if self.p.is_project(name):
                self.load_sub(name, st)
                env = st.mods[name]
                if al.name == "*":
                    for k, v in env.items():
                        if not k.startswith("_"):
                            self.store(k, v, st, fid)
                    continue
                if al.name in env:
                    v = env[al.name]
                elif self.p.is_project(name + "." + al.name):
                    self.load_sub(name + "." + al.name, st)
                    v = Mod(name + "." + al.name)
                else:
                    self.raise_("ImportError", f"cannot import name {al.name!r} from {name}")
            else:
                v = self.lib.external(name + "." + al.name)
            self.store(al.asname or al.name, v, st, fid)
        return st

    # ---- with / try
    def s_With(self, s, st, fid, items):
        saved = self.warn_error
        for it in s.items:
            v = self.ev(it.context_expr, st, fid)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fid)
        its, ns = self.exec_block(s.body, st, fid)
        self.warn_error = saved
        items += its
        return ns

    def s_Try(self, s, st, fid, items):
        names = []
        hs = []
        for h in s.handlers:
            if h.type is None:
                ns_ = ["BaseException"]
            else:
                t = self.ev(h.type, st, fid)
                ts = t if isinstance(t, tuple) else (t,)
                ns_ = []
                for x in ts:
                    if isinstance(x, ExcCls):
                        ns_.append(x.name)
                    elif isinstance(x, Cls):
                        ns_.append(self.exc_base(x))
                    elif isinstance(x, Ext):
                        ns_.append(x.name.split(".")[-1])
                    else:
                        self.unsupported("except type")
            hs.append((ns_, h))
            names += ns_
        self.handlers.append(names)
        we = self.warn_error
        try:
            its, ns = self.exec_block(s.body, st, fid)
        finally:
            self.handlers.pop()
        self.warn_error = we
        if s.orelse and ns is not None:
            i2, ns = self.exec_block(s.orelse, ns, fid)
            its2 = list(its)
            n_body = len(its2)
            its2 += i2
        else:
            its2 = list(its)
            n_body = len(its2)
        normals = []  # (guard, state)
        out = []
        excl = TRUE
        for idx, (g, kd, p, s0) in enumerate(its2):
            g2 = E.and_(excl, g)
            h = None
            if kd == "raise" and idx < n_body:
                for ns_, hh in hs:
                    if any(exc_matches(p.name, x) for x in ns_):
                        h = hh
                        break
            if h is None:
                out.append((g2, kd, p, s0))
                continue
            if g2 is FALSE:
                continue
            hst = s0.clone()
            hst.suppose(g)
            fr = hst.frames.get(fid)
            if fr is not None:
                fr["%exc"] = p
            if h.name:
                self.store(h.name, p, hst, fid)
            hi, hn = self.exec_block(h.body, hst, fid)
            out += [(E.and_(g2, gg), kk, pp, ss) for gg, kk, pp, ss in hi]
            if hn is not None:
                normals.append((g, hn))
            excl = E.and_(excl, E.not_(g))
        res = ns
        for g, hn in reversed(normals):
            res = hn if res is None else self.merge(g, hn, res)
        if s.finalbody:
            if res is not None:
                fi, res = self.exec_block(s.finalbody, res, fid)
                out2 = []
                for g, kd, p, s0 in out:
                    f2, n2 = self.exec_block(s.finalbody, s0.clone(), fid)
                    out2 += [(E.and_(g, gg), kk, pp, ss) for gg, kk, pp, ss in f2]
                    if n2 is not None:
                        out2.append((g, kd, p, n2))
                out = out2 + fi
            else:
                out2 = []
                for g, kd, p, s0 in out:
                    f2, n2 = self.exec_block(s.finalbody, s0.clone(), fid)
                    out2 += [(E.and_(g, gg), kk, pp, ss) for gg, kk, pp, ss in f2]
                    if n2 is not None:
                        out2.append((g, kd, p, n2))
                out = out2
        items += out
        return res

    s_TryStar = s_bad

    # ---- match
    def s_Match(self, s, st, fid, items):
        subj = self.ev(s.subject, st, fid)
        self.flush(st, items)
        return self.match_cases(s.cases, 0, subj, st, fid, items)

    def match_cases(self, cases, i, subj, st, fid, items):
        if i == len(cases):
            return st
        case = cases[i]
        c = self.pattern(case.pattern, subj, st, fid)
        if case.guard is not None:
            c = E.and_(c, self.truth(self.ev(case.guard, st, fid), st))

        def fb(x):
            its = []
            ns = self.match_cases(cases, i + 1, subj, x, fid, its)
            return its, ns

        return self.branch(c, st, items, lambda x: self.exec_block(case.body, x, fid), fb)

    def pattern(self, p, subj, st, fid):
        if isinstance(p, ast.MatchAs):
            c = TRUE if p.pattern is None else self.pattern(p.pattern, subj, st, fid)
            if p.name:
                self.store(p.name, subj, st, fid)
            return c
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.truth(self.lib.isinstance_(subj, self.ev(p.cls, st, fid), st), st)
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", subj, self.ev(p.value, st, fid), st), st)
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", subj, self.const(p.value), st), st)
        if isinstance(p, ast.MatchOr):
            return E.or_(*[self.pattern(x, subj, st, fid) for x in p.patterns])
        self.unsupported("match pattern")

    # ---- loops
    def s_Break(self, s, st, fid, items):
        items.append((TRUE, "break", None, st))
        return None

    def s_Continue(self, s, st, fid, items):
        items.append((TRUE, "continue", None, st))
        return None

    def s_For(self, s, st, fid, items):
        it = self.ev(s.iter, st, fid)
        self.flush(st, items)
        if isinstance(it, Range) and it.tag is not None:
            return self.row_loop(s, it, st, fid, items)
        if isinstance(it, Phi):
            return self.branch(
                it.c,
                st,
                items,
                lambda x: self._for_concrete(s, it.a, x, fid),
                lambda x: self._for_concrete(s, it.b, x, fid),
            )
        its, ns = self._for_concrete(s, it, st, fid)
        items += its
        return ns

    def _for_concrete(self, s, it, st, fid):
        vals = self.iterate(it, st)
        if len(vals) > UNROLL_LIMIT:
            self.unsupported("loop too long to unroll")
        if isinstance(it, Range) and len(vals) > 12:
            # a counted loop with data-dependent exits is summarised
            probe = st.clone()
            ev = len(self.events)
            self.assign(s.target, vals[0], probe, fid)
            pi, _ = self.exec_block(s.body, probe, fid)
            del self.events[ev:]
            if any(kd == "break" and g is not TRUE for g, kd, _, _ in pi):
                items = []
                ns = self.sum_loop(s, st, fid, items, counted=(it, vals))
                return items, ns
        items = []
        exits = []  # (guard, state)
        for v in vals:
            self.assign(s.target, v, st, fid)
            its, ns = self.exec_block(s.body, st, fid)
            st = self.loop_items(its, ns, items, exits)
            if st is None:
                break
        if st is not None and s.orelse:
            i2, st = self.exec_block(s.orelse, st, fid)
            live = self.live(exits) if i2 else TRUE
            items += [(E.and_(live, g), k, p, x) for g, k, p, x in i2]
        for g, x in reversed(exits):
            st = x if st is None else self.merge(g, x, st)
        return items, st

    @staticmethod
    def live(exits):
        """no earlier break fired"""
        return E.and_(*[E.not_(g) for g, _ in exits])

    def loop_items(self, its, ns, items, exits):
        """sort the exits of one iteration; returns the state continuing the loop

        exits are merged earliest-outermost, so their guards need not exclude earlier ones"""
        conts = []
        excl = TRUE
        live = None
        for g, kd, p, x in its:
            if kd in ("ret", "raise"):
                if live is None:
                    live = self.live(exits)
                items.append((E.and_(live, excl, g), kd, p, x))
            elif kd == "break":
                exits.append((E.and_(excl, g), x))
                live = None
                excl = E.and_(excl, E.not_(g))
            else:
                conts.append((g, x))
                excl = E.and_(excl, E.not_(g))
        st = ns
        for g, x in reversed(conts):
            st = x if st is None else self.merge(g, x, st)
        return st

    def s_While(self, s, st, fid, items):
        exits = []
        n = 0
        while True:
            v = self.ev(s.test, st, fid)
            c = self.truth(v, st)
            self.flush(st, items)
            k = st.known(c)
            if k is False:
                break
            if k is None:
                ns = self.sum_loop(s, st, fid, items)
                st = ns
                break
            n += 1
            if n > UNROLL_LIMIT:
                self.unsupported("while loop does not terminate within the unrolling limit")
            start = st.clone()
            pre = len(items)
            its, ns = self.exec_block(s.body, st, fid)
            if n == 1 and any(kd == "break" and g is not TRUE for g, kd, _, _ in its):
                # data-dependent exit: summarise instead of unrolling
                del items[pre:]
                st = self.sum_loop(s, start, fid, items)
                break
            if n == 1 and ns is not None:
                probe = ns.clone()
                ev = len(self.events)
                c2 = self.truth(self.ev(s.test, probe, fid), probe)
                del self.events[ev:]
                if probe.known(c2) is None:
                    del items[pre:]
                    st = self.sum_loop(s, start, fid, items)
                    break
            st = self.loop_items(its, ns, items, exits)
            if st is None:
                break
        for g, x in reversed(exits):
            st = x if st is None else self.merge(g, x, st)
        return st

    # ---- loop summaries
    def locations(self, a, b):
        """locations whose content differs between two states"""
        out = []
        for fid, fr in b.frames.items():
            fa = a.frames.get(fid)
            if fa is None:
                continue
            for k, v in fr.items():
                if k.startswith("%"):
                    continue
                w = fa.get(k, UNBOUND)
                if v is w:
                    continue
                if isinstance(v, tuple) and isinstance(w, tuple) and len(v) == len(w) and v != w:
                    out.append(("var", fid, k))
                    continue
                try:
                    if v == w and not isinstance(v, Arr):
                        continue
                except Exception:
                    pass
                if isinstance(v, Arr) and isinstance(w, Arr) and b.heap[v.mem].node is a.heap[w.mem].node and v.shape == w.shape and v.sel is w.sel:
                    continue
                out.append(("var", fid, k))
        for oid, c in b.heap.items():
            o = a.heap.get(oid)
            if o is None or o is c:
                continue
            if isinstance(c, Mem):
                if c.node is not o.node:
                    out.append(("mem", oid, ""))
            elif isinstance(c, tuple) and isinstance(o, tuple) and len(c) == len(o):
                for i, (x, y) in enumerate(zip(o, c)):
                    if x is not y and x != y:
                        out.append(("item", oid, i))
            elif isinstance(c, dict) and isinstance(o, dict):
                for k in c:
                    if c[k] is not o.get(k, UNBOUND) and c[k] != o.get(k, UNBOUND):
                        out.append(("attr", oid, k))
            else:
                self.unsupported("loop changes an object's size")
        return out

    def get_loc(self, st, loc):
        k, o, n = loc
        if k == "var":
            return st.frames[o].get(n, UNBOUND)
        if k == "mem":
            return st.heap[o]
        return st.heap[o][n] if k == "item" else st.heap[o].get(n, UNBOUND)

    def set_loc(self, st, loc, v):
        k, o, n = loc
        if k == "var":
            st.frames[o][n] = v
        elif k == "mem":
            st.heap[o] = v
        elif k == "item":
            t = list(st.heap[o])
            t[n] = v
            st.heap[o] = tuple(t)
        else:
            d = dict(st.heap[o])
            d[n] = v
            st.heap[o] = d

    def loc_parts(self, v, st):
        """numeric components of a location's value"""
        if isinstance(v, (Sc, Arr)):
            return [self.node_of(v, st)]
        if isinstance(v, Mem):
            return [v.node]
        if isinstance(v, bool):
            return [TRUE if v else FALSE]
        return None

    def sum_loop(self, s, st, fid, items, counted=None):
        m, f, ln = self.stack[-1]
        lid = f"{m}.{f}#{self.p.loop_no(m, s)}"
        locs = {}  # loc -> kind descriptor
        init = st.clone()
        cname = None
        if counted is not None:
            it, vals = counted
            cname = ("cnt", lid)

        def mu(loc, i, desc):
            kind, sort, shape, t = desc
            nm = f"~{lid}.{loc[0]}.{loc[2]}"
            if loc[0] in ("item", "mem", "attr"):
                nm += f"@{order[loc[1]]}"
            return {"r": E.sym, "b": E.bsym}[sort](nm)

        order = {}

        def place(state, loc, desc):
            node = mu(loc, 0, desc)
            kind, sort, shape, t = desc
            if kind == "mem":
                o = state.heap[loc[1]]
                self.set_loc(state, loc, Mem(node, o.origin, o.alias, o.cols))
            elif kind == "arr":
                self.set_loc(state, loc, self.newarr(state, node, shape, t=t))
            else:
                self.set_loc(state, loc, Sc(node, kind, t))

        def describe(loc, a, b, sa, sb):
            """common kind of initial and next value"""
            if loc[0] == "mem":
                return ("mem", b.node.sort, None, None)
            vs = [v for v in (a, b) if v is not UNBOUND]
            ds = []
            for v in vs:
                if isinstance(v, bool):
                    ds.append(("py", "b", None, "bool"))
                elif isinstance(v, Sc):
                    ds.append((v.k, v.node.sort, None, v.t))
                elif isinstance(v, Arr):
                    if v.sel is not None:
                        self.unsupported("masked array carried through a loop")
                    st_ = sa if v is a else sb
                    ds.append(("arr" if not v.nd0 else "np", st_.heap[v.mem].node.sort, v.shape, v.t))
                else:
                    self.unsupported(f"loop-carried value {v!r} in {loc}")
            kinds = {d[0] for d in ds}
            sorts = {d[1] for d in ds}
            if len(sorts) > 1:
                self.unsupported("loop-carried value changes type")
            k = "arr" if "arr" in kinds else "np" if "np" in kinds else "py"
            shape = next((d[2] for d in ds if d[2]), None)
            t = ds[0][3] if len({d[3] for d in ds}) == 1 else "float"
            return (k, ds[0][1], shape, t)

        for rnd in range(14):
            s0 = init.clone()
            for loc, d in locs.items():
                place(s0, loc, d)
            its_all = []
            ev0 = len(self.events)
            if counted is not None:
                cnt = E.sym(f"~{lid}.cnt")
                it, vals = counted
                n = len(vals)
                c = E.cmp("<", cnt, E.q(n))
                step = self.num(vals[1]).a[0] - self.num(vals[0]).a[0] if n > 1 else F(1)
                self.assign(s.target, Sc(E.add(vals[0].node, E.scale(cnt, step)), "py", "int"), s0, fid)
                s0.suppose(c)
            else:
                v = self.ev(s.test, s0, fid)
                c = self.truth(v, s0)
                if s0.pend:
                    self.unsupported("loop test may raise")
                s0.suppose(c)
            body0 = s0.clone()
            its, ns = self.exec_block(s.body, s0, fid)
            brks, conts = [], []
            excl = TRUE
            for g, kd, p, x in its:
                if kd == "break":
                    brks.append((E.and_(excl, g), x))
                    excl = E.and_(excl, E.not_(g))
                elif kd == "continue":
                    conts.append((g, x))
                    excl = E.and_(excl, E.not_(g))
                else:
                    if kd == "raise":
                        self.event("loop-raise", f"{p}", g)
                        excl = E.and_(excl, E.not_(g))
                        continue
                    self.unsupported("return inside a summarised loop")
            nst = ns
            for g, x in reversed(conts):
                nst = x if nst is None else self.merge(g, x, nst)
            if nst is None:
                self.unsupported("loop body always leaves")
            if counted is not None:
                # the target is reassigned at the start of each iteration
                pass
            changed = {}
            for x in [nst] + [x for _, x in brks]:
                for loc in self.locations(body0, x):
                    if loc[0] == "var" and loc[1] not in init.frames:
                        continue
                    if loc[0] != "var" and loc[1] not in init.heap:
                        continue
                    changed[loc] = True
            for loc in list(changed):
                if loc[0] != "var" and loc[1] not in order:
                    order[loc[1]] = len(order)
            new = {}
            for loc in list(locs) + [l for l in changed if l not in locs]:
                a = self.get_loc(init, loc)
                b = self.get_loc(nst, loc)
                if isinstance(b, Phi) or isinstance(a, Phi):
                    b = self.join_phi(b, nst)
                    a = self.join_phi(a, init)
                if isinstance(a, tuple) or isinstance(b, tuple) or b is None or isinstance(b, (str, Opq, Ref)):
                    # body-local temporaries of unmodelled type: only allowed if never read across iterations
                    new[loc] = None
                    continue
                try:
                    new[loc] = describe(loc, a, b, init, nst)
                except Unsupported:
                    new[loc] = None
            dead = [l for l, d in new.items() if d is None]
            for l in dead:
                new.pop(l)
            if new == locs:
                break
            locs = new
            del self.events[ev0:]
        else:
            self.unsupported("loop summary does not stabilise")
        keys = sorted(locs, key=lambda l: (l[0], str(order.get(l[1], "")), str(l[2])))
        slots = []
        for loc in keys:
            a = self.get_loc(init, loc)
            a = self.join_phi(a, init)
            ia = E.NAN if a is UNBOUND else self.loc_parts(a, init)[0]
            if a is UNBOUND and locs[loc][1] == "b":
                ia = FALSE
            b = self.join_phi(self.get_loc(nst, loc), nst)
            slots.append((mu(loc, 0, locs[loc]), ia, self.loc_parts(b, nst)[0]))
        bl = []
        for g, x in brks:
            vals_ = []
            for loc in keys:
                v = self.join_phi(self.get_loc(x, loc), x)
                vals_.append(E.NAN if v is UNBOUND else self.loc_parts(v, x)[0])
            bl.append((g, tuple(vals_)))
        if counted is not None:
            slots.append((E.sym(f"~{lid}.cnt"), E.ZERO, E.add(E.sym(f"~{lid}.cnt"), E.ONE)))
            bl = [(g, vs + (slots[-1][0],)) for g, vs in bl]
        res = init.clone()
        for i, loc in enumerate(keys):
            kind, sort, shape, t = locs[loc]
            node = self.prune_loop(slots, c, bl, i, sort)
            if kind == "mem":
                o = res.heap[loc[1]]
                self.set_loc(res, loc, Mem(node, o.origin, o.alias, o.cols))
            elif kind == "arr":
                v = self.get_loc(nst, loc)
                ms = any(
                    isinstance(self.get_loc(x, loc), Sc) or getattr(self.get_loc(x, loc), "ms", False)
                    for x in [nst] + [x for _, x in brks]
                )
                self.set_loc(res, loc, self.newarr(res, node, shape, t=t, ms=ms))
            else:
                self.set_loc(res, loc, Sc(node, kind, t))
        return res

    def join_phi(self, v, st):
        """a Phi of numbers of different kind, as one array-like number"""
        if isinstance(v, Phi):
            a, b = self.join_phi(v.a, st), self.join_phi(v.b, st)
            if a is UNBOUND:
                return b
            if b is UNBOUND:
                return a
            return self.merge_val(v.c, a, b, st)
        return v

    def prune_loop(self, slots, cond, brks, out, sort):
        idx = {s[0]: i for i, s in enumerate(slots)}
        need = set()
        todo = [out]
        for n in [cond] + [g for g, _ in brks]:
            todo += [idx[x] for x in E.free(n) if x in idx]
        while todo:
            i = todo.pop()
            if i in need:
                continue
            need.add(i)
            for n in [slots[i][2]] + [vs[i] for _, vs in brks]:
                todo += [idx[x] for x in E.free(n) if x in idx]
        keep = sorted(need)
        sl = tuple(slots[i] for i in keep)
        bk = tuple((g, tuple(vs[i] for i in keep)) for g, vs in brks)
        return E.mk_loop(sl, cond, bk, keep.index(out), sort)

    # ---- loop over the rows of an array
    def row_loop(self, s, it, st, fid, items):
        self.assign(s.target, RowIdx(it.tag), st, fid)
        before = st.clone()
        its, ns = self.exec_block(s.body, st, fid)
        if any(kd != "raise" for _, kd, _, _ in its) or ns is None:
            self.unsupported("row loop with early exit")
        items += its
        # the row computation must not depend on earlier rows
        again = ns.clone()
        ev0 = len(self.events)
        i2, n2 = self.exec_block(s.body, again, fid)
        del self.events[ev0:]
        for oid, o in ns.heap.items():
            if isinstance(o, Mem) and o.cols is not None and oid in before.heap:
                if n2.heap[oid].cols != o.cols:
                    self.unsupported("rows depend on each other")
        return ns

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fid):
        r = getattr(self, "e_" + type(e).__name__, None)
        if r is None:
            self.unsupported(f"expression {type(e).__name__}")
        m, f, _ = self.stack[-1]
        self.stack[-1] = (m, f, getattr(e, "lineno", self.stack[-1][2]))
        return r(e, st, fid)

    def const(self, v):
        if v is None or isinstance(v, (str, bytes)):
            return v
        if isinstance(v, bool):
            return pybool(v)
        if isinstance(v, int):
            return pyint(v)
        if isinstance(v, float):
            return Sc(dec(v), "py", "float")
        if v is Ellipsis:
            return Ext("...")
        self.unsupported(f"constant {v!r}")

    def e_Constant(self, e, st, fid):
        return self.const(e.value)

    def e_Name(self, e, st, fid):
        return self.lookup(e.id, st, fid)

    def e_Tuple(self, e, st, fid):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.iterate(self.ev(x.value, st, fid), st)
            else:
                out.append(self.ev(x, st, fid))
        return tuple(out)

    def e_List(self, e, st, fid):
        return self.newlist(st, self.e_Tuple(e, st, fid))

    def e_Set(self, e, st, fid):
        return self.alloc(st, "set", self.e_Tuple(e, st, fid))

    def e_Dict(self, e, st, fid):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, st, fid)
                d.update(st.heap[o.oid])
            else:
                kk = self.key(self.ev(k, st, fid))
                d[kk] = self.ev(v, st, fid)
        return self.alloc(st, "dict", d)

    def key(self, v):
        """hashable dictionary key"""
        if isinstance(v, Sc):
            if E.isq(v.node):
                return ("num", v.node.a[0])
            return ("sym", v.node)
        if isinstance(v, tuple):
            return ("tup",) + tuple(self.key(x) for x in v)
        if v is None or isinstance(v, (str, bytes, bool, int)):
            return v
        if isinstance(v, (Cls, Ext, TypeV, Opq)):
            return ("obj", v)
        if isinstance(v, Ref):
            if v.kind in ("list", "dict", "set"):
                self.raise_("TypeError", f"unhashable type: {v.kind}")
            if v.cls is not None and v.cls.dataclass and not v.cls.attrs.get("%hashable") and v.cls.find("__hash__") is None:
                self.raise_("TypeError", f"unhashable type: {v.cls.name}")
            return ("id", v.oid)
        if isinstance(v, Arr):
            self.raise_("TypeError", "unhashable type: ndarray")
        if isinstance(v, Phi):
            self.unsupported("conditional dictionary key")
        return ("obj", v)

    def unkey(self, k):
        if isinstance(k, tuple) and k:
            if k[0] == "num":
                return Sc(E.q(k[1]), "py", "int" if k[1].denominator == 1 else "float")
            if k[0] == "sym":
                return Sc(k[1])
            if k[0] == "tup":
                return tuple(self.unkey(x) for x in k[1:])
            if k[0] == "obj":
                return k[1]
        return k

    def e_JoinedStr(self, e, st, fid):
        out = []
        ok = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, st, fid)
                spec = None
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, st, fid)
                if v.conversion == 114:
                    x = self.lib.repr_(x, st)
                elif spec is None:
                    x = self.lib.str_(x, st)
                if isinstance(x, str) and not spec:
                    out.append(x)
                else:
                    ok = False
                    out.append(x if spec is None else ("fmt", x, spec))
        if ok:
            return "".join(out)
        return Opq(E.ofn("fstr", *[self.opnode(x, st) for x in out]), "str")

    def opnode(self, v, st):
        """a node standing for any value (for opaque applications)"""
        if isinstance(v, N):
            return v
        if isinstance(v, Sc):
            return v.node
        if isinstance(v, Arr):
            return st.heap[v.mem].node
        if isinstance(v, Opq):
            return v.node
        if v is None or isinstance(v, (str, bytes, bool, int)):
            return E.const(v)
        if isinstance(v, tuple):
            return E.ofn("tuple", *[self.opnode(x, st) for x in v])
        if isinstance(v, Ext):
            return E.const("ext:" + v.name)
        if isinstance(v, Phi):
            return E.ite(v.c, self.opnode(v.a, st), self.opnode(v.b, st))
        if isinstance(v, Ref) and v.kind in ("list", "set"):
            return E.ofn(v.kind, *[self.opnode(x, st) for x in st.heap[v.oid]])
        if isinstance(v, Ref) and v.kind == "dict":
            return E.ofn("dict", *[self.opnode(x, st) for kv in st.heap[v.oid].items() for x in (repr(kv[0]), kv[1])])
        if isinstance(v, Ref) and v.kind == "inst":
            return E.ofn("inst:" + v.cls.name, *[self.opnode(x, st) for _, x in sorted(st.heap[v.oid].items())])
        return E.const(repr(v))

    def e_Yield(self, e, st, fid):
        """a generator is run to its end when called; its value is the tuple of what it yields"""
        v = self.ev(e.value, st, fid) if e.value is not None else None
        fr = st.frames[fid]
        fr["%yield"] = fr["%yield"] + (v,)
        return None

    def e_YieldFrom(self, e, st, fid):
        vs = tuple(self.iterate(self.ev(e.value, st, fid), st))
        fr = st.frames[fid]
        fr["%yield"] = fr["%yield"] + vs
        return None

    def e_Starred(self, e, st, fid):
        self.unsupported("starred expression")

    def e_Lambda(self, e, st, fid):
        return self.make_func(e, st, fid)

    def e_NamedExpr(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        self.assign(e.target, v, st, fid)
        return v

    def e_IfExp(self, e, st, fid):
        c = self.truth(self.ev(e.test, st, fid), st)
        return self.split(c, st, lambda s: self.ev(e.body, s, fid), lambda s: self.ev(e.orelse, s, fid))

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)

        def go(i, s):
            v = self.ev(e.values[i], s, fid)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v, s)
            if isand:
                r = self.split(c, s, lambda x: go(i + 1, x), lambda x: v)
            else:
                r = self.split(c, s, lambda x: v, lambda x: go(i + 1, x))
            return r

        return go(0, st)

    def e_UnaryOp(self, e, st, fid):
        v = self.ev(e.operand, st, fid)
        return self.unop(type(e.op).__name__, v, st)

    def unop(self, op, v, st):
        if op == "Not":
            c = E.not_(self.truth(v, st))
            return Sc(c, "py", "bool")
        return self.lift(v, st, lambda x, s: self._unop(op, x, s))

    def _unop(self, op, v, st):
        if isinstance(v, Ast):
            return astro.unary(self, op, v, st)
        if isinstance(v, Opq):
            return Opq(E.ofn("u" + op, v.node), v.kind)
        if not isinstance(v, (Sc, Arr)):
            self.raise_("TypeError", f"bad operand for unary {op}: {v!r}")
        n = self.node_of(v, st)
        if op == "USub":
            if n.sort == "b":
                n = E.ite(n, E.ONE, E.ZERO)
            return self.wrap(E.neg(n), [v], st, "int" if v.t == "int" else "float")
        if op == "UAdd":
            return self.wrap(n, [v], st, v.t)
        if op == "Invert":
            if n.sort == "b":
                if isinstance(v, Sc) and v.k == "py":
                    return Sc(E.sub(E.neg(E.ite(n, E.ONE, E.ZERO)), E.ONE), "py", "int")
                return self.wrap(E.not_(n), [v], st, "bool")
            if E.isq(n):
                return pyint(~int(n.a[0]))
        self.unsupported("unary " + op)

    def e_BinOp(self, e, st, fid):
        a = self.ev(e.left, st, fid)
        b = self.ev(e.right, st, fid)
        m, f, _ = self.stack[-1]
        self.stack[-1] = (m, f, e.lineno)
        return self.binop(type(e.op).__name__, a, b, st)

    def num(self, v):
        return v.node

    def node_of(self, v, st):
        if isinstance(v, Sc):
            return v.node
        if isinstance(v, Arr):
            return st.heap[v.mem].node
        if isinstance(v, bool):
            return TRUE if v else FALSE
        self.unsupported(f"number expected, got {v!r}")

    def wrap(self, node, args, st, t="float", np_=False):
        """result of an elementwise operation on args"""
        arrs = [a for a in args if isinstance(a, Arr)]
        nd = [a for a in arrs if not a.nd0]
        if nd:
            sels = {a.sel for a in nd if a.sel is not None}
            if len(sels) > 1:
                self.unsupported("operation on arrays selected by different masks")
            if sels and any(a.sel is None for a in nd):
                self.unsupported("operation on a selected and a full array")
            shapes = {a.shape for a in nd if a.shape != "1"} or {"1"}
            if shapes == {"S", "S~"}:
                shapes = {"S~"}
            if len(shapes) > 1 and len({bare(x) for x in shapes}) == 1:
                self.event("permute", "elements of arrays of several axes are paired in transposed order")
                shapes = {bare(x) for x in shapes}
            if len(shapes) > 1:
                self.unsupported(f"broadcasting of shapes {sorted(map(str, shapes))}")
            ms = all(a.ms for a in nd)
            return self.newarr(st, node, shapes.pop(), sels.pop() if sels else None, False, t, ms=ms)
        k = "np" if np_ or arrs or any(isinstance(a, Sc) and a.k == "np" for a in args) else "py"
        return Sc(node, k, t)

    def binop(self, op, a, b, st):
        if isinstance(a, Phi):
            return self.split(a.c, st, lambda s: self.binop(op, a.a, b, s), lambda s: self.binop(op, a.b, b, s))
        if isinstance(b, Phi):
            return self.split(b.c, st, lambda s: self.binop(op, a, b.a, s), lambda s: self.binop(op, a, b.b, s))
        if isinstance(a, (Sc, Arr)) and isinstance(b, (Sc, Arr)):
            return self.arith(op, a, b, st)
        if is_astro(a) or is_astro(b):
            return astro.binop(self, op, a, b, st)
        if isinstance(a, Opq) or isinstance(b, Opq):
            r = self.lib.opaque_binop(op, a, b, st)
            if r is not None:
                return r
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, str) and op == "Mod":
            return Opq(E.ofn("fmt", E.const(a), self.opnode(b, st)), "str")
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if op == "Mult":
            for x, y in ((a, b), (b, a)):
                if isinstance(y, Sc) and E.isq(y.node) and y.t == "int":
                    n = int(y.node.a[0])
                    if isinstance(x, (tuple, str)):
                        return x * n
                    if isinstance(x, Ref) and x.kind == "list":
                        return self.newlist(st, tuple(st.heap[x.oid]) * n)
        if op == "Add" and isinstance(a, Ref) and isinstance(b, Ref) and a.kind == b.kind == "list":
            return self.newlist(st, tuple(st.heap[a.oid]) + tuple(st.heap[b.oid]))
        if op == "BitOr" and isinstance(a, (TypeV, Cls, Ext, type(None))):
            return Ext("union")
        if isinstance(a, Dim) or isinstance(b, Dim) or isinstance(a, RowIdx) or isinstance(b, RowIdx):
            self.unsupported("arithmetic on an array dimension")
        if isinstance(a, Ext) or isinstance(b, Ext):
            return Opq(E.ofn(op, self.opnode(a, st), self.opnode(b, st)))
        for x, y in ((a, b), (b, a)):
            # a list of numbers meets an array: numpy converts it
            if isinstance(x, Ref) and x.kind == "list" and isinstance(y, (Arr, Sc)) and (isinstance(y, Arr) or y.k == "np"):
                self.unsupported("list used as an array")
        self.raise_("TypeError", f"unsupported operand types for {op}: {a!r}, {b!r}")

    def arith(self, op, a, b, st):
        x, y = self.node_of(a, st), self.node_of(b, st)
        npish = any(isinstance(v, Arr) or v.k == "np" for v in (a, b))
        if op in ("BitOr", "BitAnd", "BitXor"):
            if x.sort == "b" and y.sort == "b":
                n = {
                    "BitOr": lambda: E.or_(x, y),
                    "BitAnd": lambda: E.and_(x, y),
                    "BitXor": lambda: E.ite_b(x, E.not_(y), y),
                }[op]()
                return self.wrap(n, [a, b], st, "bool")
            if E.isq(x) and E.isq(y):
                i, j = int(x.a[0]), int(y.a[0])
                return pyint({"BitOr": i | j, "BitAnd": i & j, "BitXor": i ^ j}[op])
            self.unsupported("bit operation on symbolic integers")
        if op in ("LShift", "RShift"):
            if E.isq(x) and E.isq(y):
                i, j = int(x.a[0]), int(y.a[0])
                return pyint(i << j if op == "LShift" else i >> j)
            self.unsupported("shift")
        if op == "MatMult":
            self.unsupported("matrix product")
        if x.sort == "b":
            x = E.ite(x, E.ONE, E.ZERO)
        if y.sort == "b":
            y = E.ite(y, E.ONE, E.ZERO)
        ints = a.t in ("int", "bool") and b.t in ("int", "bool")
        t = "int" if ints else "float"
        if op == "Add":
            n = E.add(x, y)
        elif op == "Sub":
            n = E.sub(x, y)
        elif op == "Mult":
            n = E.mul(x, y)
        elif op == "Div":
            t = "float"
            self.zero_div(y, npish, [a, b], st, x)
            if E.isq(y) and E.val(y) == 0 and not npish:
                self.raise_("ZeroDivisionError", "division by zero")
            n = E.div(x, y)
        elif op == "Mod":
            self.zero_div(y, npish, [a, b], st, x)
            n = E.mod(x, y)
        elif op == "FloorDiv":
            self.zero_div(y, npish, [a, b], st, x)
            d = E.div(x, y)
            n = E.q(E.val(d).__floor__()) if E.isq(d) else E.sub(d, E.frac(d))
        elif op == "Pow":
            if ints and npish and E.isq(y) and E.val(y) < 0:
                self.raise_("ValueError", "Integers to negative integer powers are not allowed.")
            n = self.pow_(x, y, npish, st, [a, b])
            if ints and not (E.isq(y) and E.val(y) >= 0):
                t = "float"
        else:
            self.unsupported("operator " + op)
        return self.wrap(n, [a, b], st, t)

    def anyguard(self, c, vals):
        """condition for an elementwise event to happen somewhere"""
        if any(isinstance(v, Arr) and not v.nd0 for v in vals):
            return E.bfn("any", c)
        return c

    def zero_div(self, y, npish, vals, st, x=None):
        name = "RuntimeWarning" if npish else "ZeroDivisionError"
        if npish and not self.warn_error:
            return
        if not self.catching(name):
            return
        g = E.cmp("==", y, E.ZERO)
        if g is FALSE or E.nonneg(y) and self.positive(y):
            return
        self.pend(st, self.anyguard(g, vals), name, "division by zero")

    def positive(self, n):
        if E.isq(n):
            return E.val(n) > 0
        if n.op == "pi":
            return True
        if n.op == "sym":
            return bool((n.info or {}).get("pos"))
        if n.op == "mul":
            return all(self.positive(b) for b, _ in n.a)
        if n.op == "lin":
            c, ts = n.a
            if c > 0 and all(k > 0 and E.nonneg(m) for m, k in ts):
                return True
            if c >= 0 and all(k > 0 and E.nonneg(m) for m, k in ts) and any(self.positive(m) for m, k in ts):
                return True
            if len(ts) == 1 and ts[0][0].op == "sym":
                s, k = ts[0]
                hi = (s.info or {}).get("lt")
                return hi is not None and k < 0 and c + k * F(hi) >= 0
        return False

    def pow_(self, x, y, npish, st, vals):
        if E.isq(y):
            e = E.val(y)
            if e.denominator == 1 and abs(e) <= 64:
                if e < 0:
                    self.zero_div(x, npish, vals, st)
                return E.power(x, e)
            lim = e.limit_denominator(12)
            if abs(float(lim) - float(e)) < 1e-15:
                return E.power(x, lim)
        if E.isq(x) and E.val(x) == 1:
            return E.ONE
        return E.rfn("pow", x, y)

    def e_Compare(self, e, st, fid):
        left = self.ev(e.left, st, fid)
        if len(e.ops) == 1:
            return self.compare(type(e.ops[0]).__name__, left, self.ev(e.comparators[0], st, fid), st)
        vals = [left]

        def go(i, l, s):
            r = self.ev(e.comparators[i], s, fid)
            v = self.compare(type(e.ops[i]).__name__, l, r, s)
            if i == len(e.ops) - 1:
                return v
            c = self.truth(v, s)
            return self.split(c, s, lambda x: go(i + 1, r, x), lambda x: v)

        return go(0, left, st)

    _OPS = {"Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Eq": "==", "NotEq": "!="}

    def compare(self, op, a, b, st):
        if isinstance(a, Phi) and op not in ("Is", "IsNot"):
            return self.split(a.c, st, lambda s: self.compare(op, a.a, b, s), lambda s: self.compare(op, a.b, b, s))
        if isinstance(b, Phi) and op not in ("Is", "IsNot"):
            return self.split(b.c, st, lambda s: self.compare(op, a, b.a, s), lambda s: self.compare(op, a, b.b, s))
        if op in ("Is", "IsNot"):
            r = self.is_(a, b, st)
            return Sc(E.not_(r) if op == "IsNot" else r, "py", "bool")
        if op in ("In", "NotIn"):
            r = self.contains(b, a, st)
            return Sc(E.not_(r) if op == "NotIn" else r, "py", "bool")
        o = self._OPS[op]
        if isinstance(a, (Sc, Arr)) and isinstance(b, (Sc, Arr)):
            x, y = self.node_of(a, st), self.node_of(b, st)
            if x.sort == "b" and y.sort == "r":
                x = E.ite(x, E.ONE, E.ZERO)
            if y.sort == "b" and x.sort == "r":
                y = E.ite(y, E.ONE, E.ZERO)
            return self.wrap(E.cmp(o, x, y), [a, b], st, "bool")
        if isinstance(a, Opq) or isinstance(b, Opq):
            return self.lib.opaque_compare(o, a, b, st)
        if isinstance(a, (Shape, Dim)) and isinstance(b, (Shape, Dim)):
            if a == b:
                return pybool(o in ("==", "<=", ">="))
            if o in ("==", "!="):
                return Sc(E._mk("bfn", ("shape" + o, E.const(str(a.tag)), E.const(str(b.tag))), "b"), "py", "bool")
        if o in ("==", "!="):
            r = self.static_eq(a, b, st)
            if r is not None:
                return pybool(r if o == "==" else not r)
        if isinstance(a, str) and isinstance(b, str):
            return pybool({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if o == "==" and len(a) == len(b):
                return Sc(E.and_(*[self.truth(self.compare("Eq", x, y, st), st) for x, y in zip(a, b)]), "py", "bool")
        if isinstance(a, (Dim, RowIdx)) or isinstance(b, (Dim, RowIdx)):
            self.unsupported("comparison with an array dimension")
        if o not in ("==", "!="):
            self.raise_("TypeError", f"'{o}' not supported between {a!r} and {b!r}")
        self.unsupported(f"comparison {a!r} {o} {b!r}")

    def static_eq(self, a, b, st):
        if isinstance(a, (str, bytes, type(None), bool)) or isinstance(b, (str, bytes, type(None), bool)):
            if isinstance(a, (str, bytes, type(None), bool)) and isinstance(b, (str, bytes, type(None), bool)):
                return a == b
            return False
        if isinstance(a, (Cls, Ext, TypeV, ExcCls, Mod, Func)) or isinstance(b, (Cls, Ext, TypeV, ExcCls, Mod, Func)):
            return a is b or a == b
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return True
        if isinstance(a, tuple) != isinstance(b, tuple):
            return False
        return None

    def is_(self, a, b, st):
        if isinstance(a, Phi):
            return E.ite_b(a.c, self.is_(a.a, b, st), self.is_(a.b, b, st))
        if isinstance(b, Phi):
            return self.is_(b, a, st)
        if a is None or b is None:
            if isinstance(a, Opq) or isinstance(b, Opq):
                o = a if isinstance(a, Opq) else b
                return self.lib.opaque_is_none(o, st)
            return TRUE if a is b else FALSE
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.t == "bool" and b.t == "bool":
                return E.cmp("==", a.node, b.node) if a.node is not b.node else TRUE
            return TRUE if a == b else FALSE
        if isinstance(a, Arr) and isinstance(b, Arr):
            return TRUE if a == b else FALSE
        r = a is b or (type(a) is type(b) and a == b)
        return TRUE if r else FALSE

    def contains(self, box, x, st):
        if isinstance(box, Ext) and box.name == "sys.modules":
            if isinstance(x, str):
                top = x.split(".")[0]
                return TRUE if {"numpy": self.cfg.numpy, "astropy": self.cfg.astropy}.get(top, True) else FALSE
        if isinstance(box, str) and isinstance(x, str):
            return TRUE if x in box else FALSE
        if isinstance(box, Ref) and box.kind == "dict":
            return TRUE if self.key(x) in st.heap[box.oid] else FALSE
        if isinstance(box, tuple) or (isinstance(box, Ref) and box.kind in ("list", "set")):
            items = box if isinstance(box, tuple) else st.heap[box.oid]
            out = []
            for y in items:
                out.append(self.truth(self.compare("Eq", x, y, st), st))
            return E.or_(*out)
        if isinstance(box, Opq) or isinstance(x, Opq):
            return E._mk("bfn", ("in", self.opnode(x, st), self.opnode(box, st)), "b")
        self.unsupported(f"{x!r} in {box!r}")

    # ---- comprehensions
    def comp(self, e, st, fid, emit):
        cf = ("comp", self.new_id())
        st.frames[cf] = {"%parent": fid}

        def go(i, s):
            if i == len(e.generators):
                emit(s, cf)
                return
            g = e.generators[i]
            for v in self.iterate(self.ev(g.iter, s, cf if i else fid), s):
                self.assign(g.target, v, s, cf)
                ok = TRUE
                for c in g.ifs:
                    ok = E.and_(ok, self.truth(self.ev(c, s, cf), s))
                k = s.known(ok)
                if k is None:
                    self.unsupported("conditional comprehension")
                if k:
                    go(i + 1, s)

        go(0, st)
        st.frames.pop(cf, None)

    def e_ListComp(self, e, st, fid):
        out = []
        self.comp(e, st, fid, lambda s, cf: out.append(self.ev(e.elt, s, cf)))
        return self.newlist(st, out)

    def e_GeneratorExp(self, e, st, fid):
        out = []
        self.comp(e, st, fid, lambda s, cf: out.append(self.ev(e.elt, s, cf)))
        return tuple(out)

    def e_SetComp(self, e, st, fid):
        out = []
        self.comp(e, st, fid, lambda s, cf: out.append(self.ev(e.elt, s, cf)))
        return self.alloc(st, "set", tuple(out))

    def e_DictComp(self, e, st, fid):
        d = {}

        def emit(s, cf):
            k = self.key(self.ev(e.key, s, cf))
            d[k] = self.ev(e.value, s, cf)

        self.comp(e, st, fid, emit)
        return self.alloc(st, "dict", d)

    def iterate(self, v, st):
        if isinstance(v, Ast):
            return astro.iterate(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            c = st.heap[v.oid]
            if v.kind in ("list", "set"):
                if c and c[0] == "?phi" if isinstance(c, tuple) and len(c) == 4 and isinstance(c[0], str) else False:
                    self.unsupported("list of uncertain length")
                return list(c)
            if v.kind == "dict":
                return [self.unkey(k) for k in c]
        if isinstance(v, Range) and v.tag is None:
            return [pyint(i) for i in range(v.start, v.stop, v.step)]
        if isinstance(v, Arr):
            if v.nd0:
                self.raise_("TypeError", "iteration over a 0-d array")
            self.unsupported("iteration over an array")
        if isinstance(v, Sc):
            self.raise_("TypeError", "number is not iterable")
        if v is None:
            self.raise_("TypeError", "None is not iterable")
        self.unsupported(f"iteration over {v!r}")

    # ---- attributes
    def e_Attribute(self, e, st, fid):
        return self.getattr_(self.ev(e.value, st, fid), e.attr, st)

    def getattr_(self, v, name, st):
        if isinstance(v, Phi):
            return self.split(v.c, st, lambda s: self.getattr_(v.a, name, s), lambda s: self.getattr_(v.b, name, s))
        if isinstance(v, Mod):
            env = st.mods.get(v.name, {})
            if name in env:
                return env[name]
            sub = v.name + "." + name
            if sub in st.mods:
                return Mod(sub)
            self.raise_("AttributeError", f"module {v.name} has no attribute {name}")
        if isinstance(v, Ext):
            return self.lib.external(v.name + "." + name)
        if isinstance(v, Ast):
            return astro.attr(self, v, name, st)
        if isinstance(v, Ref) and v.kind == "inst":
            d = st.heap[v.oid]
            if name in d:
                return self.resolve_unbound(d[name], name, st)
            if name == "__class__":
                return v.cls
            if name == "__dict__":
                return self.alloc(st, "dict", dict(d))
            a = v.cls.find(name)
            if a is None:
                self.raise_("AttributeError", f"{v.cls.name} has no attribute {name}")
            if isinstance(a, Func):
                if a.wrap in ("property", "cached_property"):
                    return self.call(a, [v], {}, st)
                if a.wrap == "staticmethod":
                    return a
                if a.wrap == "classmethod":
                    return Bound(a, v.cls)
                return Bound(a, v)
            return a
        if isinstance(v, Cls):
            if name == "__name__":
                return v.name
            a = v.find(name)
            if a is None:
                self.raise_("AttributeError", f"class {v.name} has no attribute {name}")
            if isinstance(a, Func) and a.wrap == "classmethod":
                return Bound(a, v)
            return a
        return self.lib.getattr_(v, name, st)

    def setattr_(self, o, name, v, st):
        def f(x, s):
            if isinstance(x, Ref) and x.kind == "inst":
                self.note_write(x, s, name)
                d = dict(s.heap[x.oid])
                d[name] = v
                s.heap[x.oid] = d
                return None
            if isinstance(x, Cls):
                if self.loaded:
                    self.event("global-write", f"class attribute {x.name}.{name}")
                    self.unsupported("class attribute assignment")
                x.attrs[name] = v
                return None
            if isinstance(x, (Sc, tuple, str)) or x is None:
                self.raise_("AttributeError", f"cannot set {name}")
            if isinstance(x, Arr):
                self.event("set-array-attribute", name)
                self.unsupported("array attribute assignment")
            self.unsupported(f"attribute assignment on {x!r}")

        self.lift(o, st, f)

    # ---- memory writes
    def note_write(self, ref, st, what=""):
        if self.loaded and ref.oid in self.module_oids:
            self.event("global-mutation", f"{ref.kind} created at import time" + (f" ({what})" if what else ""))
        elif self.loaded and ref.oid in getattr(self, "caller_oids", ()):
            self.event("mutate-input", f"{ref.kind} passed by the caller" + (f" ({what})" if what else ""))

    def write_mem(self, arr, node, st):
        m = st.heap[arr.mem]
        seen = set()
        todo = [arr.mem]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            mm = st.heap[k]
            todo += list(mm.alias)
            if mm.origin:
                self.event("mutate-input", "array " + ", ".join(sorted(mm.origin)) + " belongs to the caller")
        st.heap[arr.mem] = Mem(node, m.origin, m.alias, m.cols)

    # ---- subscripts
    def e_Slice(self, e, st, fid):
        f = lambda x: None if x is None else self.ev(x, st, fid)
        return Slice(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, st, fid):
        o = self.ev(e.value, st, fid)
        i = self.ev(e.slice, st, fid)
        return self.getitem(o, i, st)

    def int_of(self, v):
        if isinstance(v, Sc) and E.isq(v.node) and v.node.a[0].denominator == 1:
            return int(v.node.a[0])
        if isinstance(v, Sc) and v.node in (TRUE, FALSE):
            return int(v.node is TRUE)
        return None

    def getitem(self, o, i, st):
        if isinstance(o, Phi):
            return self.split(o.c, st, lambda s: self.getitem(o.a, i, s), lambda s: self.getitem(o.b, i, s))
        if isinstance(i, Phi):
            return self.split(i.c, st, lambda s: self.getitem(o, i.a, s), lambda s: self.getitem(o, i.b, s))
        if isinstance(o, (tuple, str)) or (isinstance(o, Ref) and o.kind == "list"):
            seq = o if isinstance(o, (tuple, str)) else st.heap[o.oid]
            if isinstance(i, Slice):
                f = lambda x: None if x is None else self.int_of(x)
                lo, hi, sp = f(i.lo), f(i.hi), f(i.st)
                if (i.lo is not None and lo is None) or (i.hi is not None and hi is None):
                    self.unsupported("slice with symbolic bounds")
                r = seq[slice(lo, hi, sp)]
                return self.newlist(st, r) if isinstance(o, Ref) else r
            k = self.int_of(i)
            if k is None:
                if isinstance(i, Sc) and i.node.sort == "r" and 0 < len(seq) <= 64:
                    r = seq[-1]
                    for j in range(len(seq) - 2, -1, -1):
                        r = self.merge_val(E.cmp("==", i.node, E.q(j)), seq[j], r, st)
                    return r
                if isinstance(i, (Arr, Sc, str)) or i == ():
                    self.raise_("TypeError", "sequence index must be an integer")
                self.unsupported("symbolic sequence index")
            try:
                return seq[k]
            except IndexError:
                self.raise_("IndexError", "index out of range")
        if isinstance(o, Ref) and o.kind == "dict":
            d = st.heap[o.oid]
            k = self.key(i)
            if k in d:
                return self.resolve_unbound(d[k], str(k), st)
            if isinstance(i, Opq):
                self.unsupported("dictionary lookup by opaque key")
            self.raise_("KeyError", f"{i!r}")
        if isinstance(o, Ast):
            return astro.item(self, o, i, st)
        return self.lib.getitem(o, i, st)

    def setitem(self, o, i, v, st):
        if isinstance(o, Phi):
            self.split(o.c, st, lambda s: self.setitem(o.a, i, v, s), lambda s: self.setitem(o.b, i, v, s))
            return
        if isinstance(i, Phi):
            self.split(i.c, st, lambda s: self.setitem(o, i.a, v, s), lambda s: self.setitem(o, i.b, v, s))
            return
        if isinstance(o, Ref) and o.kind == "list":
            k = self.int_of(i)
            if k is None:
                if isinstance(i, Sc) and i.node.sort == "r":
                    t = list(st.heap[o.oid])
                    for j in range(len(t)):
                        t[j] = self.merge_val(E.cmp("==", i.node, E.q(j)), v, t[j], st)
                    self.note_write(o, st)
                    st.heap[o.oid] = tuple(t)
                    return
                if isinstance(i, Arr):
                    self.raise_("TypeError", "list indices must be integers")
                self.unsupported("list store at symbolic index")
            t = list(st.heap[o.oid])
            if not -len(t) <= k < len(t):
                self.raise_("IndexError", "assignment index out of range")
            t[k] = v
            self.note_write(o, st)
            st.heap[o.oid] = tuple(t)
            return
        if isinstance(o, Ref) and o.kind == "dict":
            d = dict(st.heap[o.oid])
            k = self.key(i)
            d[k] = v
            if self.loaded and o.oid in self.module_oids:
                self.event("cache-store", "store into a module-level dictionary", (i, v, st.clone()))
            else:
                self.note_write(o, st)
            st.heap[o.oid] = d
            return
        if isinstance(o, (tuple, str)):
            self.raise_("TypeError", "object does not support item assignment")
        self.lib.setitem(o, i, v, st)

    # ---- calls
    def e_Call(self, e, st, fid):
        # super() and locals() are not modelled
        f = self.ev(e.func, st, fid)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.iterate(self.ev(a.value, st, fid), st)
            else:
                args.append(self.ev(a, st, fid))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fid)
            if k.arg is None:
                if isinstance(v, Ref) and v.kind == "dict":
                    for kk, vv in st.heap[v.oid].items():
                        kw[kk] = vv
                else:
                    self.unsupported("** of a non-dictionary")
            else:
                kw[k.arg] = v
        m, fn, _ = self.stack[-1]
        self.stack[-1] = (m, fn, e.lineno)
        return self.call(f, args, kw, st)

    def call(self, f, args, kw, st):
        if isinstance(f, Phi):
            return self.split(f.c, st, lambda s: self.call(f.a, args, kw, s), lambda s: self.call(f.b, args, kw, s))
        if isinstance(f, Bound):
            return self.call(f.f, [f.self_] + list(args), kw, st)
        if isinstance(f, Func):
            if f.wrap == "lru":
                return self.call_lru(f, args, kw, st)
            return self.call_func(f, args, kw, st)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, st)
        if isinstance(f, ExcCls):
            msg = args[0] if args and isinstance(args[0], str) else ""
            return Exc(f.name, msg, self.where())
        if f is None or isinstance(f, (Sc, tuple, str)):
            self.raise_("TypeError", f"{f!r} is not callable")
        if isinstance(f, Builtin) and f.f is not None:
            return f.f(self, list(args), dict(kw), st)
        return self.lib.call(f, args, kw, st)

    def call_lru(self, f, args, kw, st):
        key = (self.key(tuple(args)), tuple(sorted((k, self.key(v)) for k, v in kw.items())))
        memo = ("lru", f.mod, f.name)
        d = st.heap.get(memo, {})
        if key in d:
            return d[key]
        r = self.call_func(f, args, kw, st)
        d = dict(st.heap.get(memo, {}))
        d[key] = r
        st.heap[memo] = d
        return r

    def instantiate(self, c, args, kw, st):
        r = self.alloc(st, "inst", {}, c)
        init = c.find("__init__")
        if isinstance(init, Func):
            self.call(init, [r] + list(args), kw, st)
        elif c.dataclass or args or kw:
            names = [
                n.target.id for n in c.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)
            ]
            d = {}
            for n, v in zip(names, args):
                d[n] = v
            d.update(kw)
            for n in names:
                if n not in d:
                    if n in c.attrs:
                        d[n] = c.attrs[n]
                    elif c.dataclass:
                        self.raise_("TypeError", f"missing argument {n}")
            st.heap[r.oid] = d
        if self.on_new is not None:
            self.on_new(c, r.oid, st)
        return r

    def bind(self, f, args, kw, st):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        fr = {}
        if len(args) > len(pos):
            if a.vararg is None:
                self.raise_("TypeError", f"{f.name}() takes {len(pos)} positional arguments but {len(args)} were given")
            fr[a.vararg.arg] = tuple(args[len(pos) :])
        elif a.vararg is not None:
            fr[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            fr[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in fr and k in pos:
                self.raise_("TypeError", f"{f.name}() got multiple values for argument {k!r}")
            if k in pos or k in konly:
                fr[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_("TypeError", f"{f.name}() got an unexpected keyword argument {k!r}")
        if a.kwarg is not None:
            fr[a.kwarg.arg] = self.alloc(st, "dict", extra)
        nd = len(f.defaults)
        for n, d in zip(pos[len(pos) - nd :], f.defaults):
            fr.setdefault(n, d)
        for n in konly:
            if n not in fr:
                if n in f.kwdefaults:
                    fr[n] = f.kwdefaults[n]
        for n in pos + konly:
            if n not in fr:
                self.raise_("TypeError", f"{f.name}() missing required argument {n!r}")
        return fr

    def call_func(self, f, args, kw, st):
        if len(self.stack) > 80:
            self.unsupported("call depth")
        fr = self.bind(f, args, kw, st)
        fid = self.new_id()
        fr["%parent"] = f.fid
        for n in self.p.locals_of(f.node):
            fr.setdefault(n, UNBOUND)
        gen = self.p.is_generator(f.node)
        if gen:
            fr["%yield"] = ()
        st.frames[fid] = fr
        self.stack.append((f.mod, f.name, f.node.lineno))
        try:
            if isinstance(f.node, ast.Lambda):
                try:
                    v = self.ev(f.node.body, st, fid)
                finally:
                    st.frames.pop(fid, None)
                return v
            outer_pend = st.pend
            st.pend = []
            items, ns = self.exec_block(f.node.body, st, fid)
        finally:
            self.stack.pop()
        pend = list(outer_pend)
        rets = []
        excl = TRUE
        for g, kd, p, s0 in items:
            if kd == "ret":
                rets.append((g, p, s0))
                excl = E.and_(excl, E.not_(g))
            elif kd == "raise":
                g2 = E.and_(excl, g)
                if g2 is not FALSE:
                    pend.append((g2, p, s0))
            else:
                self.unsupported("break outside loop")
        if ns is not None:
            rets.append((TRUE, None, ns))
        if gen:
            rets = [(g, s0.frames[fid]["%yield"], s0) for g, _, s0 in rets]
            if any(isinstance(v, Phi) for _, v, _ in rets):
                self.unsupported("generator of uncertain length")
        if not rets:
            last = pend.pop()
            st.become(last[2])
            st.pend = pend
            raise AbsRaise(last[1])
        g, v, s = rets[-1]
        for g2, v2, s2 in reversed(rets[:-1]):
            m = self.merge(g2, s2, s)
            v = self.merge_val(g2, v2, v, m)
            s = m
        if not self.p.has_closure(f.node):
            s.frames.pop(fid, None)
        st.become(s)
        st.pend = pend
        for g2, _, _ in pend[len(outer_pend) :]:
            st.suppose(g2, False)
        return v

    # ------------------------------------------------------------ entry
    def load(self, names):
        st = self.base
        for n in names:
            self.load_sub(n, st)
        self.module_oids = {k for k in st.heap}
        self.loaded = True
        self.import_events = self.events
        self.events = []

    def run(self, func, args, kw, st=None, suppose=()):
        """call a project function in a fresh copy of the state after import"""
        if st is None:
            st = self.base.clone()
        for c, t in suppose:
            st.suppose(c, t)
        self.events = []
        self.stack = [(func.mod if isinstance(func, Func) else "?", "<entry>", 0)]
        self.handlers = []
        self.warn_error = 0
        self.steps = 0
        st.pend = []
        res = Result()
        try:
            res.value = self.call(func, args, kw, st)
        except AbsRaise as e:
            res.definite = e.exc
        except RecursionError:
            raise Unsupported("recursion too deep")
        res.state = st
        res.raises = [(g, x) for g, x, _ in st.pend]
        st.pend = []
        res.events = self.events
        return res


class Result:
    def __init__(self):
        self.value = None
        self.definite = None
        self.raises = []
        self.events = []
        self.state = None
