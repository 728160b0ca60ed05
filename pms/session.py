"""Calling project functions on symbols."""

from __future__ import annotations

from fractions import Fraction as F

from . import expr as E
from .api import ANGLES, SIGS
from .equal import prove_eq
from .interp import Config, Interp
from .project import Project
from .values import Arr, Bound, Cls, Event, Func, Mem, Method, Opq, Phi, Ref, Sc, Unsupported

D2R = E.scale(E.PI, F(1, 180))

SYM = {
    "P": dict(lat=True), "L": dict(lon=True), "Z": dict(az=True), "V": dict(el=True),
}


def symbol(name, role):
    """degree symbol of a role"""
    if role == "P":
        return E.sym(name, latdeg=True)
    if role in ("r", "R"):
        return E.sym(name, pos=True)
    return E.sym(name)


PROOFS = {}


class Missing(Exception):
    """the function under analysis is gone: the anchor vanished"""


class Out:
    """result of one abstract call"""

    def __init__(self, sess, res):
        self.res = res
        self.sess = sess
        self.definite = res.definite
        self.raises = res.raises
        self.events = res.events
        self.value = res.value
        self.leaves = []
        self.kinds = []
        if not res.definite:
            self._flat(res.value)

    def _flat(self, v):
        st = self.res.state
        if isinstance(v, (tuple, list)):
            for x in v:
                self._flat(x)
        elif isinstance(v, Ref) and v.kind in ("list", "tuple"):
            for x in st.heap[v.oid]:
                self._flat(x)
        elif isinstance(v, Arr):
            self.leaves.append(st.heap[v.mem].node)
            self.kinds.append(v)
        elif isinstance(v, Sc):
            self.leaves.append(v.node)
            self.kinds.append(v)
        elif isinstance(v, bool):
            self.leaves.append(E.TRUE if v else E.FALSE)
            self.kinds.append(v)
        elif isinstance(v, (int, float)):
            self.leaves.append(E.q(v))
            self.kinds.append(v)
        elif isinstance(v, Opq):
            self.leaves.append(v.node)
            self.kinds.append(v)
        elif isinstance(v, Phi):
            w = self.sess.I.join_phi(v, st)
            if isinstance(w, Phi):
                raise Unsupported(f"result of mixed kind {v!r}")
            self._flat(w)
        else:
            raise Unsupported(f"result {v!r}")


class Session:
    """one loaded abstract program.  mode: 'py' (no NumPy), 'np0' (NumPy installed, Python
    floats passed), 'arr' (NumPy arrays passed)"""

    def __init__(self, project, mode="py", astropy=False, overrides=None, wgs=None):
        self.p = project
        self.mode = mode
        self.I = Interp(project, Config(numpy=mode != "py", astropy=astropy), overrides)
        self.I.load([m for m in project.trees if m != "pymap3d.__main__" and m not in project.bad])
        self.axes = {}
        self.I.on_new = self._canon
        if wgs is not None:
            self._wgs(*wgs)

    # ------------------------------------------------------------ lookup
    def get(self, key):
        m, _, n = key.rpartition(".")
        m = "pymap3d." + m if m else "pymap3d"
        fr = self.I.base.mods.get(m)
        if fr is None or n not in fr:
            raise Missing(f"{m}.{n}")
        return fr[n]

    def has(self, key):
        try:
            self.get(key)
            return True
        except Missing:
            return False

    # ------------------------------------------------------------ ellipsoids
    def _canon(self, cls, oid, st):
        """write the derived parameters of a symbolic ellipsoid in terms of (a, f) where the source's
        expression provably equals them"""
        if cls.name != "Ellipsoid":
            return
        d = dict(st.heap[oid])
        a, b = d.get("semimajor_axis"), d.get("semiminor_axis")
        if not (isinstance(a, Sc) and isinstance(b, Sc)):
            return
        f = self.axes.get((a.node, b.node))
        if f is None:
            return
        want = {
            "flattening": f,
            "thirdflattening": E.div(f, E.sub(E.q(2), f)),
            "eccentricity": E.sqrt(E.mul(f, E.sub(E.q(2), f))),
        }
        for k, n in want.items():
            g = d.get(k)
            if isinstance(g, Sc) and g.node is not n:
                key = (g.node, n)
                if key not in PROOFS:
                    PROOFS[key] = prove_eq(g.node, n, 0)
                if PROOFS[key]:
                    d[k] = Sc(n, g.k, g.t)
        st.heap[oid] = d

    def _wgs(self, a, f):
        """make the built-in WGS84 a symbolic ellipsoid"""
        st = self.I.base
        cls = self.get("ellipsoid.Ellipsoid")
        models = cls.find("models")
        d = dict(st.heap[models.oid])
        inner = d["wgs84"]
        e = dict(st.heap[inner.oid])
        b = E.mul(a, E.sub(E.ONE, f))
        self.axes[(a, b)] = f
        e["a"] = Sc(a, "py", "float")
        e["b"] = Sc(b, "py", "float")
        st.heap[inner.oid] = e

    def ellipsoid(self, st, name="E", a=None, f=None, sphere=False):
        """an Ellipsoid instance with symbolic axes"""
        a = a if a is not None else E.sym(name + ".a", pos=True)
        f = f if f is not None else (E.ZERO if sphere else E.sym(name + ".f", pos=True, lt=1))
        b = E.mul(a, E.sub(E.ONE, f))
        self.axes[(a, b)] = f
        cls = self.get("ellipsoid.Ellipsoid")
        I = self.I
        I.events = []
        I.stack = [("pymap3d.ellipsoid", "<entry>", 0)]
        v = I.call(cls, [Sc(a, "py", "float"), Sc(b, "py", "float")], {}, st)
        st.pend = []
        return v

    # ------------------------------------------------------------ values
    def num(self, st, node, origin=None, t="float"):
        if self.mode == "arr":
            return self.I.newarr(st, node, origin=frozenset([origin]) if origin else frozenset(), t=t)
        return Sc(node, "py", t)

    def time(self, name="t"):
        return Opq(E.osym(name), "time")

    def call(self, key, vals=None, ell="E", deg=True, kw=None, suppose=(), st=None, extra=None, scalar=(), npy=(), ints=()):
        """call a function of the table.  vals: parameter -> node *in degrees / metres*
        (default: a symbol of the parameter's name); angle parameters are converted when deg is
        False.  npy: parameters passed as NumPy scalars in mode np0. ints: parameters passed as whole numbers.  ell: 'E' explicit symbolic ellipsoid, None default, or (a, f)."""
        sig = SIGS[key]
        f = self.get(key)
        st = st or self.I.base.clone()
        args, kws = [], {}
        vals = vals or {}
        extra = extra or {}
        positional = True
        for p in sig.pars:
            if p.role == "ell":
                if ell is None:
                    positional = False
                    continue
                v = ell if isinstance(ell, Ref) else self.ellipsoid(st, *((ell,) if isinstance(ell, str) else ("X",) + tuple(ell)))
            elif p.role == "deg":
                if deg is None:
                    positional = False
                    continue
                v = bool(deg)
                v = Sc(E.TRUE if deg else E.FALSE, "py", "bool")
            elif p.role in ("sequence", "frame", "method", "npts"):
                if p.name not in extra:
                    positional = False
                    continue
                v = extra[p.name]
            elif p.role == "t":
                v = vals.get(p.name) or self.time(p.name)
            else:
                if p.name in vals:
                    n = vals[p.name]
                else:
                    n = symbol(p.name, p.role)
                if n is None:
                    positional = False
                    continue
                if not isinstance(n, E.N):
                    v = n
                else:
                    if p.role in ANGLES and deg is False:
                        n = E.mul(n, D2R)
                    if p.name in npy and self.mode == "np0":
                        v = Sc(n, "np", "float")
                    elif p.role == "s" or p.name in scalar:
                        v = Sc(n, "py", "float")
                    else:
                        v = self.num(st, n, p.name, "int" if p.name in ints else "float")
            if p.kwonly or not positional:
                kws[p.name] = v
            else:
                args.append(v)
        kws.update(kw or {})
        return Out(self, self.I.run(f, args, kws, st, suppose))

    def run(self, key, args, kw=None, st=None, suppose=()):
        """call any function on ready values"""
        return Out(self, self.I.run(self.get(key), list(args), dict(kw or {}), st, suppose))
