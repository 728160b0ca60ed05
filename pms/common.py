"""Helpers shared by the checks."""

from __future__ import annotations

from fractions import Fraction as F

from mpmath import mpf

from . import expr as E
from .api import ANGLES, FLAGS, SCALAR_ONLY, SIGS
from .domain import Domain
from .session import D2R, symbol
from .values import Builtin, Func, Opq, Sc, Unsupported

R2D = E.div(E.q(180), E.PI)
MODES = ("py", "np0", "arr")
MODE_NAME = {
    "py": "Python floats, no NumPy",
    "np0": "Python floats, NumPy installed",
    "arr": "NumPy arrays",
}
# what counts as a different result: relative, absolute by kind of result
TOL = {"l": mpf(10) ** -6, "a": mpf(10) ** -9, "L": mpf(10) ** -9, "A": mpf(10) ** -10, "v": mpf(10) ** -8}


def tol(role):
    return TOL.get(role, mpf(10) ** -10)


def flat_roles(sig):
    out = []
    for n, r in sig.outs:
        if r == "M":
            out += [(f"m{i}{j}", "1") for i in range(3) for j in range(3)]
        else:
            out.append((n, r))
    return out


def roles_of(sig, *names_ell):
    d = {}
    for p in sig.pars:
        if p.role in FLAGS or p.role == "t":
            continue
        d[p.name] = p.role
    for n in names_ell:
        d[f"{n}.a"], d[f"{n}.f"] = "a", "f"
    return d


def dom(ck, sig, *ells, fix=None, keep=None, **more):
    d = roles_of(sig, *ells)
    d.update(more)
    return Domain(d, seed=ck.seed, fix=fix, keep=keep)


def modes_of(key, modes=MODES):
    return [m for m in modes if not (m == "arr" and key in SCALAR_ONLY)]


def nodes(out, sig):
    """results as value numbers; raises if their number is not the documented one"""
    want = flat_roles(sig)
    if out.definite:
        return None
    if len(out.leaves) != len(want):
        raise ValueError(f"{len(out.leaves)} results instead of {len(want)}")
    return list(zip(want, out.leaves))


class Chain:
    """calls functions positionally on nodes given in degrees / metres, feeding results on"""

    def __init__(self, sess, deg, ell, kw, extra=None):
        self.s, self.deg, self.ell, self.kw, self.extra = sess, deg, ell, kw, extra or {}
        self.plain = set()  # results that are Python floats
        self.times = {}

    def is_np(self, n):
        return not any(m.op in ("sym", "osym", "q") or m in self.plain for m in (n, E.neg(n)) if m.sort == "r")

    def __call__(self, key, *vals):
        sig = SIGS[key]
        names = [p.name for p in sig.pars if p.role not in FLAGS and not p.kwonly]
        v = dict(zip(names, vals))
        for p in sig.pars:
            if p.kwonly and p.role == "s":
                v[p.name] = self.kw[p.name]
        npy = {k for k, n in v.items() if isinstance(n, E.N) and self.is_np(n)}
        out = self.s.call(
            key, v, ell=self.ell if sig.has("ell") else None, deg=self.deg if sig.has("deg") else None, npy=npy,
            extra={k: x for k, x in self.extra.items() if sig.has(k)},
        )
        if out.definite:
            raise ValueError(f"{key} always raises {out.definite}")
        r = []
        for ((n, role), x), k in zip(nodes(out, sig), out.kinds):
            x = E.mul(x, R2D) if role in "aL" and self.deg is False else x
            if isinstance(k, Sc) and k.k == "py":
                self.plain.add(x)
            r.append(x)
        return r


class V(dict):
    __getattr__ = dict.__getitem__


def symbols(sig):
    """a symbol for every numeric and time parameter"""
    v = V()
    for p in sig.pars:
        if p.role == "t":
            v[p.name] = Opq(E.osym(p.name), "time")
        elif p.role not in FLAGS:
            v[p.name] = symbol(p.name, p.role)
    return v


# ------------------------------------------------------------------ abstracting the Earth's rotation
def rotation_overrides():
    """stand-ins for the two functions that build the ECI -> ECEF matrix and its rate: an arbitrary
    rotation and an arbitrary matrix, one per combination of arguments.  What is proved with them
    holds whatever the models return, provided that is a rotation (C14)."""
    seen = {}

    def tag(I, args, kw):
        names = ("time", "delta_ut1", "xp", "yp", "dt_seconds")
        d = dict(zip(names, args))
        d.update(kw)
        k = tuple((n, repr(d.get(n, 0 if n != "dt_seconds" else None)).replace("py", "").replace("np", "")) for n in names)
        return seen.setdefault(k, len(seen))

    def rot(I, args, kw, st):
        i = tag(I, args, kw)
        q = [E.sym(f"rot{i}.{k}") for k in "abc"]
        from . import spec as S

        z = lambda t: [[E.cos(t), E.sin(t), E.ZERO], [E.neg(E.sin(t)), E.cos(t), E.ZERO], [E.ZERO, E.ZERO, E.ONE]]  # noqa: E731
        x = lambda t: [[E.ONE, E.ZERO, E.ZERO], [E.ZERO, E.cos(t), E.sin(t)], [E.ZERO, E.neg(E.sin(t)), E.cos(t)]]  # noqa: E731
        m = S.matmul(z(q[0]), S.matmul(x(q[1]), z(q[2])))
        return tuple(tuple(Sc(n, "py", "float") for n in r) for r in m)

    def rate(I, args, kw, st):
        i = tag(I, args, kw)
        return tuple(tuple(Sc(E.sym(f"rate{i}.{j}{k}"), "py", "float") for k in range(3)) for j in range(3))

    def make(f):
        return lambda I, st, v: Builtin(v.name, f) if isinstance(v, Func) else v

    m = "pymap3d.earth_orientation"
    return {(m, "eci_to_ecef_matrix"): make(rot), (m, "eci_to_ecef_matrix_rate"): make(rate)}


ROT = rotation_overrides()
ROTSYMS = {**{f"rot{i}.{k}": "A" for i in range(4) for k in "abc"}, **{f"rate{i}.{j}{k}": "A" for i in range(4) for j in range(3) for k in range(3)}}


# ------------------------------------------------------------------ two elements of an array
def other(nm):
    return nm[:-1] if nm.endswith("'") else nm + "'"


def twin(s):
    return E.bsym(other(s.a[0])) if s.op == "bsym" else E.sym(other(s.a[0]), **(s.info or {}))


def primed(n, names):
    """n for the other element: symbols of the given names, and the loop variables n uses, exchanged with those of the other element"""
    m = {}
    for s in E.free(n):
        if s.op in ("sym", "bsym") and (s.a[0].rstrip("'") in names or s.a[0][:1] == "~"):
            m[s] = twin(s)
    return E.subst(n, m) if m else n


def pair(n, names):
    """n as a function of the inputs of two elements of an array: whole-array reductions written out, and loops that
    contain them run on both elements at once"""
    names = set(names)

    def f(x, mp):
        if x.op in ("bfn", "fn") and x.a[0] in ("any", "all", "allmin", "allmax", "total", "mean", "prod"):
            a = mp[x.a[1]]
            b = primed(a, names)
            return {
                "any": lambda: E.or_(a, b), "all": lambda: E.and_(a, b), "allmin": lambda: E.minmax("min", a, b),
                "allmax": lambda: E.minmax("max", a, b), "total": lambda: E.add(a, b),
                "mean": lambda: E.scale(E.add(a, b), F(1, 2)), "prod": lambda: E.mul(a, b),
            }[x.a[0]]()
        if x.op == "loop":
            slots, cond, brks, out = x.a
            new = [(mu, mp[i], mp[t]) for mu, i, t in slots]
            bk = [(mp[g], tuple(mp[v] for v in vs)) for g, vs in brks]
            used = set()
            for t in [t for _, _, t in new] + [mp[cond]] + [g for g, _ in bk] + [v for _, vs in bk for v in vs]:
                used |= E.free(t)
            if any(twin(mu) in used for mu, _, _ in slots):
                new += [(twin(mu), primed(i, names), primed(t, names)) for mu, i, t in new]
                bk = [(g, vs + tuple(primed(v, names) for v in vs)) for g, vs in bk]
                return E.mk_loop(tuple(new), mp[cond], tuple(bk), out, x.sort)
        return None

    return E.rewrite(n, f)


# ------------------------------------------------------------------ keeping a primitive opaque
def opaque(*keys):
    """stand-ins for functions of the table: every result is an unknown function of the arguments, element by
    element.  Only good for proving: what holds for every function holds for the real one."""

    def make(key):
        sig = SIGS[key]

        def f(I, args, kw, st):
            from .values import Arr, Ref

            d = dict(zip([p.name for p in sig.pars if not p.kwonly], args))
            d.update(kw)
            nodes, arr = [], False
            for p in sig.pars:
                v = d.get(p.name)
                if v is None:
                    nodes.append(E.TRUE if p.name == "deg" else E.ZERO)
                elif isinstance(v, Ref):
                    h = st.heap[v.oid]
                    nodes += [h["semimajor_axis"].node, h["semiminor_axis"].node]
                elif isinstance(v, Arr):
                    if v.sel is not None or v.ms or v.nd0 or arr not in (False, v.shape):
                        raise Unsupported("array of another shape handed to an opaque function")
                    arr = v.shape
                    nodes.append(st.heap[v.mem].node)
                elif isinstance(v, Sc):
                    nodes.append(v.node)
                else:
                    raise Unsupported(f"argument {v} of an opaque function")
            out = []
            for n, r in sig.outs:
                x = E.fn(f"{key}.{n}", *nodes)
                out.append(I.newarr(st, x, arr) if arr else Sc(x, "np" if I.cfg.numpy else "py", "float"))
            return out[0] if len(out) == 1 else tuple(out)

        return lambda I, st, v: Builtin(v.name, f) if isinstance(v, Func) else v

    r = {}
    for k in keys:
        m, _, n = k.rpartition(".")
        r[("pymap3d." + m, n)] = make(k)
    return r
