"""Deciding equality of two value numbers.

PROVED   the normal forms coincide (valid for every real input in the domain)
REFUTED  interval arithmetic over an input box shows the two values are disjoint there
UNKNOWN  neither; reported as undecided, never as a violation
"""

from __future__ import annotations

import hashlib
import time
from fractions import Fraction as F

import mpmath
from mpmath import mp, mpf

from . import expr as E
from .expr import N

mp.prec = 160
EPS = mpf(2) ** -140


class TooBig(Exception):
    pass


LIMIT = 6000


class Fuel:
    """work allowance of the comparison in progress (steps, so that the outcome does not depend on
    the machine; plus a wall-clock guard)"""

    def __init__(self):
        self.left = 1 << 60
        self.until = float("inf")

    def start(self, steps, seconds):
        self.left = steps
        self.until = time.time() + seconds

    def burn(self, n=1):
        self.left -= n
        if self.left < 0 or time.time() > self.until:
            raise TooBig


FUEL = Fuel()


# =====================================================================  polynomials
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class Norm:
    """normaliser for one comparison (fixes the base angle of every trig argument)"""

    def __init__(self, nodes):
        self.atoms = []  # index -> node
        self.index = {}
        self.red = {}  # index -> (2, poly) : atom**2 = poly
        self.rf = {}
        self.cn = {}
        self.den = {}
        self.pk = {}
        self.perf = {}
        for n in E.walk(*nodes):
            if n.op == "fn" and n.a[0] in ("sin", "cos"):
                c, d = E._terms(n.a[1])
                for m, k in d.items():
                    self.den[m] = _lcm(self.den.get(m, 1), k.denominator)

    # ---- atoms
    def atom(self, node, red=None):
        i = self.index.get(node)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(node)
            self.index[node] = i
            if red is not None:
                self.red[i] = red
        return {((i, 1),): F(1)}

    # ---- poly mult with reduction
    def pmul(self, a, b):
        if len(a) * len(b) > LIMIT * 20:
            raise TooBig
        FUEL.burn(20 + len(a) * len(b))
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        return self.preduce(r)

    def preduce(self, p):
        todo = [
            m for m in p if any(e >= 2 and i in self.red for i, e in m)
        ]
        if not todo:
            if len(p) > LIMIT:
                raise TooBig
            return p
        r = dict(p)
        for m in todo:
            c = r.pop(m, 0)
            if not c:
                continue
            base = []
            f = {(): F(1)}
            for i, e in m:
                if e >= 2 and i in self.red:
                    f = self._pm_raw(f, self._ppow_raw(self.red[i], e // 2))
                    if e % 2:
                        base.append((i, 1))
                else:
                    base.append((i, e))
            f = self._pm_raw(f, {tuple(base): c})
            r = padd(r, f)
        return self.preduce(r)

    def _pm_raw(self, a, b):
        FUEL.burn(20 + len(a) * len(b))
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > LIMIT:
            raise TooBig
        return r

    def _ppow_raw(self, a, n):
        r = {(): F(1)}
        for _ in range(n):
            r = self._pm_raw(r, a)
        return r

    def ppow(self, a, n):
        r = {(): F(1)}
        for _ in range(n):
            r = self.pmul(r, a)
        return r

    def key(self, p):
        k = frozenset(p.items())
        self.pk.setdefault(k, p)
        return k

    # ---- rational functions: (num, {polykey: exp})
    def rconst(self, c):
        return ({(): F(c)} if c else {}, {})

    def radd(self, x, y):
        nx, dx = x
        ny, dy = y
        if not nx:
            return y
        if not ny:
            return x
        if dx == dy:
            return self.rcancel((padd(nx, ny), dx))
        d = dict(dx)
        for k, e in dy.items():
            d[k] = max(d.get(k, 0), e)
        for k, e in d.items():
            ex = e - dx.get(k, 0)
            if ex:
                nx = self.pmul(nx, self.ppow(self.pk[k], ex))
            ey = e - dy.get(k, 0)
            if ey:
                ny = self.pmul(ny, self.ppow(self.pk[k], ey))
        return self.rcancel((padd(nx, ny), d))

    def rmul(self, x, y):
        d = dict(x[1])
        for k, e in y[1].items():
            d[k] = d.get(k, 0) + e
        return self.rcancel((self.pmul(x[0], y[0]), d))

    def rpow(self, x, n):
        r = self.rconst(1)
        for _ in range(n):
            r = self.rmul(r, x)
        return r

    def rinv(self, x):
        num, den = x
        if not num:
            raise TooBig
        n2 = {(): F(1)}
        for k, e in den.items():
            n2 = self.pmul(n2, self.ppow(self.pk[k], e))
        c, fac = self.split(num)
        d = {}
        for k, e in fac.items():
            d[k] = d.get(k, 0) + e
        return self.rcancel(({m: v / c for m, v in n2.items()}, d))

    def split(self, p):
        """p = c * prod(polykey**e): monomial content and one primitive factor"""
        mins = None
        for m in p:
            dm = dict(m)
            if mins is None:
                mins = dm
            else:
                mins = {i: min(e, dm[i]) for i, e in mins.items() if i in dm}
        fac = {}
        if mins:
            for i, e in mins.items():
                fac[self.key({((i, 1),): F(1)})] = e
            q = {}
            for m, c in p.items():
                dm = dict(m)
                for i, e in mins.items():
                    dm[i] -= e
                q[tuple(sorted((i, e) for i, e in dm.items() if e))] = c
            p = q
        lead = p[min(p)]
        if len(p) == 1 and () in p:
            return p[()], fac
        p = {m: c / lead for m, c in p.items()}
        k = self.key(p)
        fac[k] = fac.get(k, 0) + 1
        return lead, fac

    def rcancel(self, x):
        num, den = x
        if not num:
            return ({}, {})
        if not den:
            return x
        den = dict(den)
        for k in list(den):
            while den.get(k, 0) > 0:
                qn = self.divexact(num, self.pk[k])
                if qn is None:
                    break
                num = qn
                den[k] -= 1
            if den.get(k) == 0:
                del den[k]
        return (num, den)

    def divexact(self, p, d):
        """exact division p/d, in the reduced ring only plain polynomial division is tried"""
        if len(d) == 1:
            (m, c), = d.items()
            r = {}
            for pm, pc in p.items():
                dm = dict(pm)
                for i, e in m:
                    if dm.get(i, 0) < e:
                        return self._div_trig(p, d)
                    dm[i] -= e
                r[tuple(sorted((i, e) for i, e in dm.items() if e))] = pc / c
            return r
        if len(p) < len(d) or len(p) > 400:
            return self._div_trig(p, d)
        lm = max(d)
        lc = d[lm]
        rem = dict(p)
        quo = {}
        steps = 0
        while rem:
            steps += 1
            FUEL.burn(20 + len(d))
            if steps > 400:
                return None
            m = max(rem)
            dm = dict(m)
            ok = True
            for i, e in lm:
                if dm.get(i, 0) < e:
                    ok = False
                    break
                dm[i] -= e
            if not ok:
                return self._div_trig(p, d)
            t = tuple(sorted((i, e) for i, e in dm.items() if e))
            c = rem[m] / lc
            quo[t] = quo.get(t, 0) + c
            for m2, c2 in d.items():
                mm = mmul(t, m2)
                v = rem.get(mm, 0) - c * c2
                if v:
                    rem[mm] = v
                else:
                    rem.pop(mm, None)
        return quo

    def _div_trig(self, p, d):
        """p / d where d**2 reduces, e.g. (1-sin^2)/cos = cos, R/sqrt(R) = sqrt(R)"""
        if len(d) != 1 or len(p) < 2:
            return None
        (m, c), = d.items()
        if len(m) != 1 or m[0][1] != 1 or m[0][0] not in self.red:
            return None
        r = self.red[m[0][0]]
        if len(r) < 2:
            return None
        t = self.divexact(p, r)
        if t is None:
            return None
        out = self.pmul(t, d)
        return {mm: v / (c * c) for mm, v in out.items()}

    # ---- nodes to rational functions
    def rat(self, n):
        r = self.rf.get(n)
        if r is None:
            # iterative warm-up to keep recursion shallow
            stack = [n]
            while stack:
                m = stack[-1]
                if m in self.rf:
                    stack.pop()
                    continue
                todo = [k for k in E.kids(m) if k.sort == "r" and k not in self.rf and k.op != "loop"]
                if m.op == "loop":
                    todo = []
                if todo:
                    stack += todo
                    continue
                self.rf[m] = self._rat(m)
                stack.pop()
            r = self.rf[n]
        return r

    def _rat(self, n):
        op = n.op
        if op == "q":
            return self.rconst(E.val(n))
        if op == "lin":
            r = self.rconst(n.a[0])
            # group equal denominators first
            groups = {}
            for m, k in n.a[1]:
                x = self.rat(m)
                x = ({mm: v * k for mm, v in x[0].items()}, x[1])
                kk = frozenset(x[1].items())
                if kk in groups:
                    groups[kk] = (padd(groups[kk][0], x[0]), x[1])
                else:
                    groups[kk] = x
            for x in groups.values():
                r = self.radd(r, self.rcancel(x))
            return r
        if op == "mul":
            r = self.rconst(1)
            for b, e in n.a:
                if e.denominator == 1:
                    x = self.rpow(self.rat(b), abs(int(e)))
                    if e < 0:
                        x = self.rinv(x)
                else:
                    x = self.rroot(b, e)
                r = self.rmul(r, x)
            return r
        if op == "fn" and n.a[0] in ("sin", "cos"):
            s, c = self.sincos(n.a[1])
            return s if n.a[0] == "sin" else c
        if op == "abs":
            x = self.canon(n.a[0])
            y = E.abs_(x)
            if y.op == "abs":
                x = y.a[0]
                sq = self.rmul(self.rat(x), self.rat(x))
                return (self.atom(y, sq[0] if not sq[1] else None), {})
            return self.rat(y)
        if op == "fn":
            return self._fn(n)
        if op == "ite":
            r = E.ite(self.canon(n.a[0]), self.canon(n.a[1]), self.canon(n.a[2]))
            if r.op == "ite":
                return (self.atom(r), {})
            k, f = E._factors(r)
            out = self.rconst(k)
            for b, e in f.items():
                if b.op == "ite" and e == 1:
                    x = (self.atom(b), {})
                elif e.denominator == 1:
                    x = self.rpow(self.rat(b), abs(int(e)))
                    x = self.rinv(x) if e < 0 else x
                else:
                    x = self.rroot(b, e)
                out = self.rmul(out, x)
            return out
        return (self.atom(n), {})

    def _fn(self, n):
        nm = n.a[0]
        args = [self.canon(x) if isinstance(x, N) else x for x in n.a[1:]]
        m = E.fn(nm, *args)
        if m.op == "fn" and m.a[0] == "atan2":
            y, x = m.a[1], m.a[2]
            r = self._atan2(y, x)
            if r is not None:
                return self.rat(r) if r is not n else (self.atom(r), {})
        if m.op == "fn" and m.a[0] == nm:
            return (self.atom(m), {})
        if m is n:
            return (self.atom(m), {})
        return self.rat(m)

    def _atan2(self, y, x):
        """canonical representative: divide by a common positive factor hypot when it is 1"""
        s = E.add(E.mul(y, y), E.mul(x, x))
        try:
            r = self.rat(s)
        except TooBig:
            return None
        return None

    def root_poly(self, p, e_num):
        """sqrt(p)**e_num (e_num odd > 0) as a polynomial; p polynomial"""
        if not p:
            return {}
        c, fac = self.split(p)
        facs = []
        for k, e in fac.items():
            q = self.pk[k]
            if e % 2 and len(fac) + (c != 1) > 1 and not self.nonnegp(q):
                m = {x: -v for x, v in q.items()}
                if self.nonnegp(m):
                    q, c = m, -c
            facs.append((q, e))
        out = {(): F(1)}
        rest = {(): F(1)}
        if c < 0:
            rest = {(): F(-1)}
            c = -c
        rc = E._ratroot(c, 2)
        if rc is not None:
            out = {(): rc}
        else:
            k, ps = E._sqrt_rat(c)
            out = {(): k}
            for t in ps:
                out = self.pmul(out, self.atom(E.power(E.q(t), F(1, 2)), {(): F(t)}))
        for q, e in facs:
            sq = self.square_root(q)
            if sq is not None:
                out = self.pmul(out, self.ppow(sq, e))
                continue
            if e // 2:
                out = self.pmul(out, self.ppow(self.absp(q), e // 2))
            if e % 2:
                if len(facs) > 1 and self.nonnegp(q):
                    nd = self.tonode((q, {}))
                    out = self.pmul(out, self.atom(E._mk("mul", ((nd, F(1, 2)),)), q))
                else:
                    rest = self.pmul(rest, q)
        if rest != {(): F(1)}:
            nd = self.tonode((rest, {}))
            at = self.atom(E._mk("mul", ((nd, F(1, 2)),)), rest)
            out = self.pmul(out, at)
        return self.ppow(out, e_num)

    def topoly(self, node):
        r = self.rat(node)
        if r[1]:
            raise TooBig
        return r[0]

    def square_root(self, p):
        """sqrt of special forms known to be perfect squares: c*(1 - sin(t)^2) etc."""
        if len(p) == 2 and () in p:
            for m, c in p.items():
                if len(m) == 1 and m[0][1] == 2 and c == -p[()]:
                    nd = self.atoms[m[0][0]]
                    if nd.op == "fn" and nd.a[0] == "sin":
                        r = E._ratroot(p[()], 2) if p[()] > 0 else None
                        if r is not None:
                            cs = self.atom_cos(nd.a[1])
                            if not E.nonneg(self.atoms[next(iter(cs))[0][0]]):
                                ab = E.abs_(self.atoms[next(iter(cs))[0][0]])
                                cs = self.atom(ab, {(): F(1), m: F(-1)})
                            return {mm: v * r for mm, v in cs.items()}
        q = self.perfect(p)
        return None if q is None else self.absp(q)

    def perfect(self, p):
        """a polynomial whose square is p"""
        if not 1 < len(p) <= 60:
            return None
        k = frozenset(p.items())
        if k in self.perf:
            return self.perf[k]
        self.perf[k] = r = self._perfect(p)
        return r

    def _perfect(self, p):
        ids = sorted({i for m in p for i, _ in m})

        def vec(m):
            d = dict(m)
            return tuple(d.get(i, 0) for i in ids)

        P = {vec(m): c for m, c in p.items()}
        l = max(P)
        if any(e % 2 for e in l) or P[l] < 0:
            return None
        r = E._ratroot(P[l], 2)
        if r is None:
            return None
        lead = tuple(e // 2 for e in l)
        q = {lead: r}
        rem = dict(P)
        rem.pop(l)
        for _ in range(len(P)):
            if not rem:
                out = {tuple((i, e) for i, e in zip(ids, v) if e): c for v, c in q.items()}
                return out
            m = max(rem)
            t = tuple(x - y for x, y in zip(m, lead))
            if any(x < 0 for x in t) or t in q or t >= lead:
                return None
            c = rem[m] / (2 * r)
            for v, k in [*((v, 2 * k) for v, k in q.items()), (t, c)]:
                z = tuple(x + y for x, y in zip(v, t))
                w = rem.get(z, 0) - k * c
                if w:
                    rem[z] = w
                else:
                    rem.pop(z, None)
            q[t] = c
        return None

    def nonnegp(self, p, depth=4):
        """the polynomial is certainly not negative"""
        if all(c > 0 and all(e % 2 == 0 or E.nonneg(self.atoms[i]) for i, e in m) for m, c in p.items()):
            return True
        if depth == 0:
            return False
        c, fac = self.split(p)
        if len(fac) > 1 or any(e > 1 for e in fac.values()):
            return c > 0 and all(e % 2 == 0 or self.nonnegp(self.pk[k], depth - 1) for k, e in fac.items())
        if c > 0 and self.perfect({m: v / c for m, v in p.items()}) is not None:
            return True
        # linear in the square of a sine: between its values at 0 and 1
        for i in sorted({i for m in p for i, _ in m}):
            nd = self.atoms[i]
            if nd.op == "fn" and nd.a[0] == "sin" and all(dict(m).get(i, 0) in (0, 2) for m in p):
                a = {m: c for m, c in p.items() if i not in dict(m)}
                b = {tuple((j, e) for j, e in m if j != i): c for m, c in p.items() if i in dict(m)}
                return self.nonnegp(a, depth - 1) and self.nonnegp(padd(a, b), depth - 1)
        return E.nonneg(self.tonode((p, {})))

    def absp(self, p):
        if self.nonnegp(p):
            return p
        m = {k: -c for k, c in p.items()}
        if self.nonnegp(m):
            return m
        return self.topoly(E.abs_(self.tonode((p, {}))))

    def rroot(self, b, e):
        num, den = self.rat(b)
        if e.denominator != 2:
            nd = self.tonode((num, den))
            c = E.power(nd, e)
            if c.op == "mul" and len(c.a) == 1:
                return (self.atom(c), {})
            at = E._mk("mul", ((nd, F(1, e.denominator)),))
            r = (self.atom(at), {})
            r = self.rpow(r, abs(e.numerator))
            return self.rinv(r) if e < 0 else r
        k = abs(e.numerator)
        d2 = {}
        for kk, ee in den.items():
            q = self.pk[kk]
            if ee % 2:
                num = self.pmul(num, q)
                ee += 1
            for kk2, e2 in self.split(self.absp(q))[1].items():
                d2[kk2] = d2.get(kk2, 0) + ee // 2 * e2 * k
        r = self.rcancel((self.root_poly(num, k), d2))
        return self.rinv(r) if e < 0 else r

    # ---- trig
    def atom_sin(self, th):
        s = E._mk("fn", ("sin", th))
        return self.atom(s)

    def atom_cos(self, th):
        c = E._mk("fn", ("cos", th))
        s = self.atom_sin(th)
        (m, _), = s.items()
        return self.atom(c, {(): F(1), ((m[0][0], 2),): F(-1)})

    def sincos(self, arg):
        a = self.canon(arg)
        c0, d = E._terms(a)
        S, C = self.rconst(0), self.rconst(1)
        parts = []
        if c0:
            parts.append((E.ONE, c0))
        for m, k in d.items():
            parts.append((m, k))
        for m, k in parts:
            s1, c1 = self._sc1(m, k)
            S, C = (
                self.radd(self.rmul(S, c1), self.rmul(C, s1)),
                self.radd(self.rmul(C, c1), self._rneg(self.rmul(S, s1))),
            )
        return S, C

    def _rneg(self, x):
        return ({m: -v for m, v in x[0].items()}, x[1])

    def _sc1(self, m, k):
        """sin, cos of k*m"""
        inv = None
        if m.op == "fn" and m.a[0] in ("asin", "acos", "atan", "atan2"):
            inv = m
        if m is E.PI:
            th = E.scale(m, k % 2)
            s, c = E.sin(th), E.cos(th)

            def g(x):
                if E.isq(x):
                    return self.rconst(E.val(x))
                c0, d = E._terms(x)
                (mm, kk), = d.items()
                at = self.atom(mm) if mm.a[0] == "sin" else self.atom_cos(mm.a[1])
                return ({z: v * kk for z, v in at.items()}, {})

            return g(s), g(c)
        D = self.den.get(m, 1)
        if k.denominator != 1 and D % k.denominator:
            D = _lcm(D, k.denominator)
        if inv is not None and k.denominator == 1:
            D = 1
            u = [self.rat(x) for x in inv.a[1:]]
            nm = inv.a[0]
            one = self.rconst(1)
            if nm == "asin":
                s = u[0]
                c = self.rsqrt(self.radd(one, self._rneg(self.rmul(u[0], u[0]))))
            elif nm == "acos":
                c = u[0]
                s = self.rsqrt(self.radd(one, self._rneg(self.rmul(u[0], u[0]))))
            elif nm == "atan":
                h = self.rinv(self.rsqrt(self.radd(one, self.rmul(u[0], u[0]))))
                s, c = self.rmul(u[0], h), h
            else:
                h = self.rinv(self.rsqrt(self.radd(self.rmul(u[0], u[0]), self.rmul(u[1], u[1]))))
                s, c = self.rmul(u[0], h), self.rmul(u[1], h)
            n = int(k)
        else:
            th = E.scale(m, F(1, D)) if m is not E.ONE else E.q(F(1, D))
            s = (self.atom_sin(th), {})
            c = (self.atom_cos(th), {})
            n = int(k * D)
        sg = 1
        if n < 0:
            n, sg = -n, -1
        if n > 24:
            raise TooBig
        S, C = self.rconst(0), self.rconst(1)
        for _ in range(n):
            S, C = (
                self.radd(self.rmul(S, c), self.rmul(C, s)),
                self.radd(self.rmul(C, c), self._rneg(self.rmul(S, s))),
            )
        return (self._rneg(S) if sg < 0 else S), C

    def rsqrt(self, x):
        num, den = x
        d2 = {}
        for kk, ee in den.items():
            q = self.pk[kk]
            if ee % 2:
                num = self.pmul(num, q)
                ee += 1
            for kk2, e2 in self.split(self.absp(q))[1].items():
                d2[kk2] = d2.get(kk2, 0) + ee // 2 * e2
        return self.rcancel((self.root_poly(num, 1), d2))

    # ---- back to nodes
    def tonode(self, x):
        num, den = x
        t = []
        for m, c in sorted(num.items()):
            t.append(E.scale(E.mul(*[E.power(self.atoms[i], e) for i, e in m]), c))
        r = E.add(*t) if t else E.ZERO
        for k, e in den.items():
            r = E.mul(r, E.power(self.tonode((self.pk[k], {})), -e))
        return r

    def canon(self, n):
        if not isinstance(n, N):
            return n
        r = self.cn.get(n)
        if r is not None:
            return r
        if n.op in ("q", "sym", "bsym", "osym", "const", "pi", "inf", "nan", "true", "false", "loop"):
            r = n if n.op != "loop" else self._canon_loop(n)
        elif n.sort == "r":
            try:
                r = self.tonode(self.rat(n))
            except TooBig:
                r = E.rebuild(n, {k: self.canon(k) for k in E.kids(n)})
        else:
            r = E.rebuild(n, {k: self.canon(k) for k in E.kids(n)})
        self.cn[n] = r
        self.cn.setdefault(r, r)
        return r

    def _canon_loop(self, n):
        slots, cond, brks, out = n.a
        f = self.canon
        return E.mk_loop(
            tuple((m, f(i), f(x)) for m, i, x in slots),
            f(cond),
            tuple((f(g), tuple(f(v) for v in vs)) for g, vs in brks),
            out,
            n.sort,
        )


def _lcm(a, b):
    from math import gcd

    return a * b // gcd(a, b)


# =====================================================================  intervals
class Iv:
    __slots__ = ("lo", "hi", "q")

    def __init__(self, lo, hi, q=None):
        self.lo, self.hi, self.q = lo, hi, q  # q: the value, where it is known exactly

    def __repr__(self):
        return f"[{mpmath.nstr(self.lo, 17)}, {mpmath.nstr(self.hi, 17)}]"

    @property
    def mid(self):
        return (self.lo + self.hi) / 2

    @property
    def rad(self):
        return (self.hi - self.lo) / 2


NANV = "nan"
TOP = None


def pad(lo, hi):
    m = max(abs(lo), abs(hi)) * EPS
    return Iv(lo - m, hi + m)


def ipt(x):
    if isinstance(x, F):
        v = mpf(x.numerator) / mpf(x.denominator)
        r = Iv(v, v) if x.denominator & (x.denominator - 1) == 0 and abs(x.numerator) < 1 << 60 else pad(v, v)
        r.q = x
        return r
    v = mpf(x)
    return Iv(v, v, F(x) if isinstance(x, int) else None)


def small(q):
    return q.numerator.bit_length() < 120 and q.denominator.bit_length() < 120


def hull(a, b):
    if a is TOP or b is TOP:
        return TOP
    if a is NANV or b is NANV:
        return a if a is b else TOP
    return Iv(min(a.lo, b.lo), max(a.hi, b.hi))


def exact_sum(x, y):
    """the rounded sum of these two is the sum"""
    s, m, e, c = x._mpf_
    t, n, f, d = y._mpf_
    return not m or not n or (-999 < e < 999 and -999 < f < 999 and max(e + c, f + d) - min(e, f) < mpmath.mp.prec)


def iadd(a, b):
    if a.q is not None and b.q is not None and small(q := a.q + b.q):
        return ipt(q)
    if a.lo == a.hi and b.lo == b.hi and exact_sum(a.lo, b.lo):
        v = a.lo + b.lo
        return Iv(v, v)
    return pad(a.lo + b.lo, a.hi + b.hi)


def imul(a, b):
    if a.q is not None and b.q is not None and small(q := a.q * b.q):
        return ipt(q)
    if a.lo == a.hi and b.lo == b.hi and a.lo._mpf_[3] + b.lo._mpf_[3] < mpmath.mp.prec and a.lo._mpf_[1] and b.lo._mpf_[1]:
        v = a.lo * b.lo
        return Iv(v, v)
    ps = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            if x == 0 or y == 0:
                if mpmath.isinf(x) or mpmath.isinf(y):
                    return TOP
                ps.append(mpf(0))
            else:
                ps.append(x * y)
    return pad(min(ps), max(ps))


def ipow(a, e: F):
    if e == 1:
        return a
    if e.denominator == 1:
        n = int(e)
        if a.q is not None and (n > 0 or a.q) and abs(n) < 8 and small(q := a.q**n):
            return ipt(q)
        if n < 0:
            if a.lo <= 0 <= a.hi:
                return TOP
            b = pad(1 / a.hi, 1 / a.lo)
            return ipow(b, F(-n))
        if n % 2 == 0:
            hi = max(abs(a.lo), abs(a.hi)) ** n
            lo = mpf(0) if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi)) ** n
            return pad(lo, hi)
        return pad(a.lo**n, a.hi**n)
    if a.hi < -EPS:
        return NANV
    if a.lo < 0:
        if a.lo < -mpf(10) ** -18 * max(abs(a.hi), 1):
            return TOP
        a = Iv(mpf(0), max(a.hi, mpf(0)))
    ee = mpf(e.numerator) / mpf(e.denominator)
    if e < 0:
        if a.lo <= 0:
            return TOP
        return pad(mpmath.power(a.hi, ee), mpmath.power(a.lo, ee))
    return pad(mpmath.power(a.lo, ee), mpmath.power(a.hi, ee))


def _mono(f, a):
    return pad(f(a.lo), f(a.hi))


def isin(a, f=mpmath.sin):
    if a.lo == 0 == a.hi:
        return ipt(0 if f is mpmath.sin else 1)
    if a.rad > 1 or mpmath.isinf(a.lo) or mpmath.isinf(a.hi):
        return Iv(mpf(-1), mpf(1)) if not mpmath.isinf(a.lo) else TOP
    v = f(a.mid)
    r = a.rad + EPS
    return Iv(max(mpf(-1), v - r), min(mpf(1), v + r))


def iatan2(y, x):
    if y.lo == y.hi == 0:
        if x.lo > 0:
            return Iv(mpf(0), mpf(0))
        if x.hi < 0:
            return ipt_pi()
        if x.lo == x.hi == 0:
            return Iv(mpf(0), mpf(0))
        return TOP
    if x.hi < 0 and y.lo <= 0 <= y.hi:
        return TOP
    if x.lo <= 0 <= x.hi and y.lo <= 0 <= y.hi:
        return TOP
    vs = [mpmath.atan2(b, a) for b in (y.lo, y.hi) for a in (x.lo, x.hi)]
    lo, hi = min(vs), max(vs)
    return Iv(lo - EPS, hi + EPS)


def ipt_pi():
    p = +mp.pi
    return Iv(p - EPS, p + EPS)


def exactly(nm, qs):
    """functions that keep rational numbers rational"""
    x = qs[0]
    if nm == "frac":
        return x - x.numerator // x.denominator
    if nm == "sign":
        return (x > 0) - (x < 0)
    if nm == "min":
        return min(qs)
    if nm == "max":
        return max(qs)
    if nm == "trunc":
        return int(x)
    if nm == "round":
        return round(x)
    if nm == "fmod" and qs[1] > 0:
        return x - int(x / qs[1]) * qs[1]
    if nm == "copysign" and qs[1] != 0:
        return abs(x) if qs[1] > 0 else -abs(x)
    return None


def iasin(a):
    if a.lo > 1 + mpf(10) ** -15 or a.hi < -1 - mpf(10) ** -15:
        return NANV
    if a.hi > 1 + mpf(10) ** -20 or a.lo < -1 - mpf(10) ** -20:
        return TOP
    return pad(mpmath.asin(max(a.lo, mpf(-1))), mpmath.asin(min(a.hi, mpf(1))))


def _hash01(key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(h[:6], "big") / 2**48


def _round(iv):
    if iv is TOP:
        return "T"
    if iv is NANV:
        return "nan"
    if isinstance(iv, bool):
        return iv
    if isinstance(iv, Iv):
        if iv.rad > mpf(10) ** -9 * (1 + abs(iv.mid)):
            return "W"
        return mpmath.nstr(iv.mid, 11)
    return iv


OPAQUE_RANGE: dict = {}


class Eval:
    """interval evaluation of value numbers over one input box"""

    def __init__(self, box, loop_limit=120):
        self.env = dict(box)
        self.memo = {}
        self.loop_limit = loop_limit
        self.budget = 400000

    def __call__(self, n):
        memo = self.memo
        stack = [n]
        while stack:
            m = stack[-1]
            if m in memo:
                stack.pop()
                continue
            if m.op == "loop":
                todo = [i for _, i, _ in m.a[0] if i not in memo]
                if todo:
                    stack += todo
                    continue
                memo[m] = self.loop(m)
                stack.pop()
                continue
            if m.op == "ite" or m.op == "bite":
                c, a, b = m.a
                if c not in memo:
                    stack.append(c)
                    continue
                cv = memo[c]
                need = [a] if cv is True else [b] if cv is False else [a, b]
                todo = [k for k in need if k not in memo]
                if todo:
                    stack += todo
                    continue
                if cv is True:
                    memo[m] = memo[a]
                elif cv is False:
                    memo[m] = memo[b]
                elif m.op == "bite":
                    memo[m] = memo[a] if memo[a] is memo[b] else None
                elif m.sort == "o":
                    memo[m] = memo[a] if memo[a] == memo[b] else TOP
                else:
                    memo[m] = hull(memo[a], memo[b])
                stack.pop()
                continue
            ks = E.kids(m)
            todo = [k for k in ks if k not in memo]
            if todo:
                stack += todo
                continue
            self.budget -= 1
            FUEL.left -= 20
            if self.budget < 0 or (self.budget & 255 == 0 and time.time() > FUEL.until):
                self.budget = -1
                memo[m] = TOP
            else:
                memo[m] = self.step(m)
            stack.pop()
        return memo[n]

    def turns(self, n):
        """the exact multiple of pi in a sum, and the terms it comes from"""
        t, ms = F(0), set()
        for m, k in n.a[1]:
            if m.op == "pi":
                t += k
                ms.add(m)
            elif m.op == "mul":
                c = F(k)
                seen = False
                for b, e in m.a:
                    if b.op == "pi" and e == 1:
                        seen = True
                        continue
                    v = self.memo.get(b)
                    q = v.q if isinstance(v, Iv) else None
                    if q is None or e.denominator != 1 or abs(e) > 3 or (e < 0 and q == 0):
                        break
                    c *= q ** int(e)
                else:
                    if seen and small(c):
                        t += c
                        ms.add(m)
        return (t, ms) if len(ms) > 1 else (F(0), ())

    def loop(self, n):
        slots, cond, brks, out = n.a
        cur = [self.memo[i] for _, i, _ in slots]
        mus = [m for m, _, _ in slots]
        for _ in range(self.loop_limit):
            sub = Eval({**self.env, **dict(zip(mus, cur))}, self.loop_limit)
            sub.budget = self.budget
            if any(c is TOP for c in cur) and self.budget < 0:
                return TOP
            c = sub(cond)
            if c is False:
                return cur[out]
            if c is not True:
                return TOP
            for g, vals in brks:
                gv = sub(g)
                if gv is True:
                    r = sub(vals[out])
                    self.budget = sub.budget
                    return r
                if gv is not False:
                    return TOP
            cur = [sub(x) for _, _, x in slots]
            self.budget = sub.budget
            if self.budget < 0:
                return TOP
        return TOP

    def step(self, n):
        op = n.op
        g = self.memo
        if op == "q":
            return ipt(E.val(n))
        if op == "pi":
            return ipt_pi()
        if op in ("sym", "bsym", "osym"):
            if n in self.env:
                return self.env[n]
            return ("sym", n.a[0]) if op == "osym" else TOP
        if op == "inf":
            return Iv(mpf("inf"), mpf("inf"))
        if op == "nan":
            return NANV
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "const":
            return ("const", repr(n.a[0]))
        if op == "lin":
            r = ipt(n.a[0])
            turns, through = self.turns(n)
            if through:
                r = iadd(r, imul(ipt_pi(), ipt(turns))) if turns else r
            for m, k in n.a[1]:
                if m in through:
                    continue
                v = g[m]
                if v is TOP:
                    return TOP
                if v is NANV:
                    return NANV
                if not isinstance(v, Iv):
                    return TOP
                r = iadd(r, imul(v, ipt(k)) or Iv(mpf("-inf"), mpf("inf")))
                if mpmath.isnan(r.lo) or mpmath.isnan(r.hi):
                    return TOP
            return r
        if op == "mul":
            r = ipt(1)
            for b, e in n.a:
                if b is E.ZERO and e < 0:
                    r = imul(r, Iv(mpf("inf"), mpf("inf")))
                    if r is TOP or mpmath.isnan(r.lo) or mpmath.isnan(r.hi):
                        return TOP
                    continue
                v = g[b]
                if v is TOP:
                    return TOP
                if v is NANV:
                    return NANV
                if not isinstance(v, Iv):
                    return TOP
                p = ipow(v, e)
                if p is TOP or p is NANV:
                    return p
                r = imul(r, p)
                if r is TOP:
                    return TOP
            return r
        if op == "abs":
            v = g[n.a[0]]
            if not isinstance(v, Iv):
                return v
            if v.lo >= 0:
                return v
            if v.hi <= 0:
                return Iv(-v.hi, -v.lo, None if v.q is None else -v.q)
            return Iv(mpf(0), max(-v.lo, v.hi))
        if op == "cmp":
            v = g[n.a[1]]
            if v is NANV:  # comparisons with nan are false, but negations were folded into comparisons
                return False if n.a[0] == "==" else None
            if not isinstance(v, Iv):
                return None
            o = n.a[0]
            if o == "<":
                return True if v.hi < 0 else False if v.lo >= 0 else None
            if o == "<=":
                return True if v.hi <= 0 else False if v.lo > 0 else None
            if v.lo == v.hi == 0:
                return True
            if v.lo > 0 or v.hi < 0:
                return False
            return None
        if op == "not":
            v = g[n.a[0]]
            return None if v is None else (not v if isinstance(v, bool) else None)
        if op == "and":
            vs = [g[x] for x in n.a]
            if any(v is False for v in vs):
                return False
            return True if all(v is True for v in vs) else None
        if op == "or":
            vs = [g[x] for x in n.a]
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        if op == "fn":
            return self.fn(n, [g[x] if isinstance(x, N) else x for x in n.a[1:]])
        if op == "bfn":
            nm = n.a[0]
            vs = [g[x] if isinstance(x, N) else x for x in n.a[1:]]
            if nm == "any" or nm == "all":
                return vs[0] if isinstance(vs[0], bool) else None
            if nm == "isnan":
                return True if vs[0] is NANV else False if isinstance(vs[0], Iv) else None
            if nm == "beq":
                if isinstance(vs[0], bool) and isinstance(vs[1], bool):
                    return vs[0] == vs[1]
                return None
            if any(v is TOP for v in vs):
                return None
            key = (nm,) + tuple(_round(v) for v in vs)
            if "W" in key or "T" in key:
                return None
            if nm == "o==" and key[1] == key[2]:
                return True
            if nm.startswith("o<") and "const" in repr(key):
                return None if False else _hash01(key) < 0.5
            return _hash01(key) < 0.5
        if op == "ofn":
            key = ["ofn", n.a[0]]
            for x in n.a[1:]:
                v = g[x] if isinstance(x, N) else x
                v = _round(v)
                if v == "W" or v == "T":
                    return TOP
                key.append(v)
            return ("h", hashlib.sha256(repr(key).encode()).hexdigest()[:16])
        return TOP

    def fn(self, n, vs):
        nm = n.a[0]
        if any(v is TOP for v in vs):
            return TOP
        if any(v is NANV for v in vs) and nm not in ("min", "max"):
            return NANV
        if nm in ("min", "max") and any(v is NANV for v in vs):
            return TOP
        if all(isinstance(v, Iv) for v in vs):
            a = vs[0] if vs else None
            if nm == "sin":
                return isin(a)
            if nm == "cos":
                return isin(a, mpmath.cos)
            if nm == "atan2":
                return iatan2(*vs)
            if nm == "atan":
                return _mono(mpmath.atan, a)
            if nm == "asin":
                return iasin(a)
            if nm == "acos":
                r = iasin(a)
                if not isinstance(r, Iv):
                    return r
                h = +mp.pi / 2
                return Iv(h - r.hi - EPS, h - r.lo + EPS)
            if a is not None and all(v.q is not None for v in vs):
                r = exactly(nm, [v.q for v in vs])
                if r is not None:
                    return ipt(F(r))
            if nm == "frac":
                if mpmath.isinf(a.lo) or mpmath.isinf(a.hi):
                    return TOP
                fl, fh = mpmath.floor(a.lo), mpmath.floor(a.hi)
                if fl == fh:
                    return Iv(a.lo - fl, a.hi - fh)
                return Iv(mpf(0), mpf(1)) if a.rad > mpf(10) ** -15 else TOP
            if nm == "sign":
                if a.lo > 0:
                    return ipt(1)
                if a.hi < 0:
                    return ipt(-1)
                if a.lo == a.hi == 0:
                    return ipt(0)
                return Iv(mpf(-1), mpf(1))
            if nm == "copysign":
                m, s = vs
                m = Iv(abs(m.lo), abs(m.hi)) if m.lo * m.hi > 0 or m.lo == m.hi else TOP
                if m is TOP:
                    return TOP
                m = Iv(min(m.lo, m.hi), max(m.lo, m.hi))
                if s.lo >= 0:
                    return m
                if s.hi < 0:
                    return Iv(-m.hi, -m.lo)
                return TOP
            if nm == "min":
                return Iv(min(v.lo for v in vs), min(v.hi for v in vs))
            if nm == "max":
                return Iv(max(v.lo for v in vs), max(v.hi for v in vs))
            if nm == "exp":
                return _mono(mpmath.exp, a) if a.hi < 10**6 else TOP
            if nm == "log":
                return _mono(mpmath.log, a) if a.lo > 0 else TOP
            if nm == "asinh":
                return _mono(mpmath.asinh, a) if not mpmath.isinf(a.hi) else TOP
            if nm == "sinh":
                return _mono(mpmath.sinh, a) if abs(a.hi) < 1000 else TOP
            if nm == "atanh":
                if a.lo <= -1 or a.hi >= 1:
                    return TOP
                return _mono(mpmath.atanh, a)
            if nm == "cbrt":
                f = lambda x: mpmath.sign(x) * mpmath.cbrt(abs(x))
                return _mono(f, a)
            if nm == "trunc":
                t = [mpmath.floor(x) if x >= 0 else mpmath.ceil(x) for x in (a.lo, a.hi)]
                return Iv(t[0], t[1]) if t[0] == t[1] or a.rad > mpf(10) ** -15 else TOP
            if nm == "round":
                t = [mpmath.nint(x) for x in (a.lo, a.hi)]
                return Iv(t[0], t[1]) if t[0] == t[1] else TOP
            if nm == "fmod":
                x, m = vs
                if m.lo == m.hi and m.lo > 0:
                    s = 1
                    if x.hi < 0:
                        s, x = -1, Iv(-x.hi, -x.lo)
                    if x.lo >= 0:
                        fl, fh = mpmath.floor(x.lo / m.lo), mpmath.floor(x.hi / m.lo)
                        if fl == fh:
                            r = Iv(x.lo - fl * m.lo, x.hi - fl * m.lo)
                            return r if s > 0 else Iv(-r.hi, -r.lo)
                return TOP
            if nm == "pow":
                b, e = vs
                if b.lo > 0:
                    lo, hi = mpmath.log(b.lo), mpmath.log(b.hi)
                    l = imul(Iv(lo, hi), e)
                    return _mono(mpmath.exp, pad(l.lo, l.hi)) if l.hi < 10**5 else TOP
                return TOP
        key = [nm]
        for v in vs:
            r = _round(v)
            if r == "W" or r == "T":
                return TOP
            key.append(r)
        h = _hash01(key)
        rng = OPAQUE_RANGE.get(nm)
        if rng:
            lo, hi, integer = rng
            v = lo + h * (hi - lo)
            if integer:
                v = int(lo + h * (hi - lo + 1))
            return ipt(F(v))
        return ipt(F(h + 0.25).limit_denominator(10**9))


def disjoint(a, b, rel=mpf(10) ** -10, ab=mpf(10) ** -12):
    """certainly different beyond the stated tolerance"""
    if a is TOP or b is TOP:
        return False
    if a is NANV or b is NANV:
        return not (a is NANV and b is NANV)
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a != b
    if isinstance(a, Iv) and isinstance(b, Iv):
        if any(mpmath.isnan(x) for x in (a.lo, a.hi, b.lo, b.hi)):
            return False
        if mpmath.isinf(a.lo) or mpmath.isinf(b.lo) or mpmath.isinf(a.hi) or mpmath.isinf(b.hi):
            if a.lo == a.hi and b.lo == b.hi:
                return a.lo != b.lo
            if a.lo == a.hi and mpmath.isinf(a.lo) and not mpmath.isinf(b.hi) and not mpmath.isinf(b.lo):
                return True
            if b.lo == b.hi and mpmath.isinf(b.lo) and not mpmath.isinf(a.hi) and not mpmath.isinf(a.lo):
                return True
            return False
        gap = max(a.lo - b.hi, b.lo - a.hi)
        sc = max(abs(a.lo), abs(a.hi), abs(b.lo), abs(b.hi))
        return gap > ab + rel * sc
    if isinstance(a, tuple) and isinstance(b, tuple):
        return a != b
    return False


# =====================================================================  driver
PROVED, REFUTED, UNKNOWN = "proved", "refuted", "unknown"


def base_conds(*nodes):
    out = []
    for n in E.walk(*nodes):
        if n.op in ("ite", "bite"):
            for m in E.walk(n.a[0]):
                if m.op in ("cmp", "bsym") or (m.op == "bfn"):
                    if m not in out:
                        out.append(m)
    return out


def assume(n, c, truth):
    nc = E.not_(c)
    m = {c: E.TRUE if truth else E.FALSE, nc: E.FALSE if truth else E.TRUE}
    if c.op == "cmp" and c.a[0] == "<" and truth:
        # strict inequality true: the reverse strict one is false, equality is false
        m[E.cmp("<", E.ZERO, c.a[1])] = E.FALSE
        e = E.cmp("==", c.a[1], E.ZERO)
        m[e] = E.FALSE
    return E.subst(n, {k: v for k, v in m.items() if k.op not in ("true", "false")})


def generic(nodes, boxes):
    """the branch taken at ordinary points: every condition that has the same truth value on all the
    boxes is given that value"""
    evs = [Eval(b) for b in boxes]
    done = 0
    for _ in range(12):
        cs = base_conds(*nodes)
        hit = False
        for c in cs:
            if time.time() > FUEL.until:
                return nodes, done
            ts = set()
            for ev in evs:
                try:
                    t = ev(c)
                except (ValueError, OverflowError, ZeroDivisionError):
                    t = None
                ts.add(t if isinstance(t, bool) else None)
                if len(ts) > 1:
                    break
            if len(ts) == 1 and None not in ts:
                t = ts.pop()
                nodes = [assume(n, c, t) for n in nodes]
                done += 1
                hit = True
                break
        if not hit:
            break
    return nodes, done


def prove_eq(a, b, depth=7):
    if a is b:
        return True
    if time.time() > FUEL.until:
        return False
    nm = Norm((a, b))
    try:
        if a.sort == "r" and b.sort == "r":
            d = E.sub(a, b)
            if d is E.ZERO:
                return True
            r = nm.rat(d)
            if not r[0]:
                return True
        ca, cb = nm.canon(a), nm.canon(b)
        if ca is cb:
            return True
    except (TooBig, RecursionError, OverflowError):
        pass
    if depth > 0 and FUEL.left > 0:
        cs = base_conds(a, b)
        if cs:
            # split on an atom that occurs outside other conditions' bodies first
            c = min(cs, key=lambda n: n.id)
            return all(
                prove_eq(assume(a, c, t), assume(b, c, t), depth - 1) for t in (True, False)
            )
    return False


def refute_eq(a, b, boxes, rel=mpf(10) ** -10, ab=mpf(10) ** -12):
    for box in boxes:
        if time.time() > FUEL.until:
            return None
        ev = Eval(box)
        try:
            va, vb = ev(a), ev(b)
        except (ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.libhyper.NoConvergence):
            continue
        if disjoint(va, vb, rel, ab):
            return box, va, vb
    return None


def decide(a, b, boxes, prove=True, depth=7, rel=mpf(10) ** -10, ab=mpf(10) ** -12):
    """-> (verdict, witness)"""
    if a is b:
        return PROVED, None
    first = []
    it = iter(boxes)
    for _ in range(4):
        try:
            first.append(next(it))
        except StopIteration:
            break
    r = refute_eq(a, b, first, rel, ab)
    if r:
        return REFUTED, r
    if prove and prove_eq(a, b, depth):
        return PROVED, None
    r = refute_eq(a, b, it, rel, ab)
    if r:
        return REFUTED, r
    return UNKNOWN, None


# =====================================================================  functions of one variable with thresholds
def cells(nodes, sym):
    """sample points of the cells of the line on which no condition of the nodes changes, every threshold
    itself and one point between each two and beyond the ends; None unless every condition compares an affine
    function of the variable with a constant"""
    ts = set()
    for n in E.walk(*nodes):
        if n.op in ("bsym", "bfn") or (n.op in ("fn", "mod", "floor") and any(m is sym for m in E.walk(n))):
            return None
        if n.op == "cmp":
            d = n.a[1]
            if d is sym:
                ts.add(F(0))
            elif d.op == "lin" and len(d.a[1]) == 1 and d.a[1][0][0] is sym:
                ts.add(-F(d.a[0]) / F(d.a[1][0][1]))
            else:
                return None
    ts = sorted(ts)
    if not ts:
        return [F(0)]
    out = [ts[0] - 1]
    for a, b in zip(ts, ts[1:]):
        out += [a, (a + b) / 2]
    return out + [ts[-1], ts[-1] + 1]


def decide_cells(got, want, sym):
    """decide the equality of two functions of one variable that are equal-form on each cell
    -> (verdict, value of the variable, got there, expected there)"""
    pts = cells((got, want), sym)
    if pts is None:
        return UNKNOWN, None, None, None
    unknown = False
    for p in pts:
        m = {}
        for n in E.walk(got, want):
            if n.op == "cmp":
                m[n] = E.subst(n, {sym: E.q(p)})
        # the branch taken on the cell, still a function of the variable
        g, w = E.subst(got, m), E.subst(want, m)
        if g is w or prove_eq(g, w, 0):
            continue
        g, w = E.subst(g, {sym: E.q(p)}), E.subst(w, {sym: E.q(p)})
        if g.op == "q" and w.op == "q" and F(g.a[0]) != F(w.a[0]):
            return REFUTED, p, g, w
        unknown = True
    return (UNKNOWN if unknown else PROVED), None, None, None
