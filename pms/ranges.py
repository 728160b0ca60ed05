"""Which values a value number can take at all: intervals over the whole input domain, with the condition of each
branch used inside it.  None stands for no value (not a number)."""

from __future__ import annotations

import time

import mpmath
from mpmath import mp, mpf

from . import expr as E
from .equal import FUEL, Norm, TooBig, prove_eq

INF = mpf("inf")
PI_ = +mp.pi
S = mpf(10) ** -24


class R:
    """closed interval; oh: the upper end is not attained"""

    __slots__ = ("lo", "hi", "oh")

    def __init__(self, lo, hi, oh=False):
        self.lo, self.hi, self.oh = mpf(lo), mpf(hi), oh

    def __repr__(self):
        return f"[{mpmath.nstr(self.lo, 8)}, {mpmath.nstr(self.hi, 8)}{')' if self.oh else ']'}"


ALL = R(-INF, INF)


def hull(*xs):
    xs = [x for x in xs if x is not None]
    if not xs:
        return None
    hi = max(x.hi for x in xs)
    return R(min(x.lo for x in xs), hi, all(x.oh for x in xs if x.hi == hi))


def meet(a, b):
    if a is None or b is None:
        return None
    lo = max(a.lo, b.lo)
    if a.hi < b.hi:
        hi, oh = a.hi, a.oh
    elif b.hi < a.hi:
        hi, oh = b.hi, b.oh
    else:
        hi, oh = a.hi, a.oh or b.oh
    if lo > hi:
        return None
    return R(lo, hi, oh)


def mulr(a, b):
    ps = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            p = mpf(0) if x == 0 or y == 0 else x * y
            ps.append(p)
    lo, hi = min(ps), max(ps)
    if {lo, hi} <= {mpf(-1), mpf(0), mpf(1)}:
        return R(lo, hi)
    w = S * max(abs(lo) if not mpmath.isinf(lo) else 0, abs(hi) if not mpmath.isinf(hi) else 0)
    oh = False
    if a.lo == a.hi and a.lo > 0:
        oh = b.oh
    elif b.lo == b.hi and b.lo > 0:
        oh = a.oh
    if oh:
        return R(lo, hi, True)  # a positive multiple of an interval
    return R(lo - w if lo != 0 else lo, hi + w if hi != 0 else hi)


def powr(a, e):
    """a**e for a rational exponent"""
    if e == 1:
        return a
    if e < 0:
        b = powr(a, -e)
        if b is None:
            return None
        if b.lo > 0:
            return R(1 / b.hi * (1 - S) if not mpmath.isinf(b.hi) else 0, 1 / b.lo * (1 + S))
        if b.hi < 0:
            return R(1 / b.hi * (1 + S), 1 / b.lo * (1 - S) if not mpmath.isinf(b.lo) else 0)
        if b.lo == 0:
            return R(1 / b.hi * (1 - S) if not mpmath.isinf(b.hi) else 0, INF)
        return ALL
    if e.denominator == 1:
        n = int(e)
        if n % 2 == 0:
            hi = max(abs(a.lo), abs(a.hi)) ** n
            lo = mpf(0) if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi)) ** n
            if {lo, hi} <= {mpf(0), mpf(1)}:
                return R(lo, hi)
            return R(lo * (1 - S), hi * (1 + S))
        return R(a.lo**n, a.hi**n)
    if a.hi < 0:
        return None
    lo = max(a.lo, mpf(0))
    ee = mpf(e.numerator) / e.denominator
    f = lambda x: INF if mpmath.isinf(x) else mpmath.power(x, ee) if x > 0 else mpf(0)  # noqa: E731
    return R(f(lo) * (1 - S), f(a.hi) * (1 + S))


def mono(f, a, lo=-INF, hi=INF):
    g = lambda x: (lo if x < 0 else hi) if mpmath.isinf(x) else f(x)  # noqa: E731
    l, h = g(a.lo), g(a.hi)
    return R(l - S * abs(l) if not mpmath.isinf(l) else l, h + S * abs(h) if not mpmath.isinf(h) else h)


def trig(a, cos):
    """sine or cosine"""
    if mpmath.isinf(a.lo) or mpmath.isinf(a.hi) or a.hi - a.lo >= 2 * PI_:
        return R(-1, 1)
    sh = mpf(0) if cos else PI_ / 2  # cos(x - sh)
    lo, hi = a.lo - sh, a.hi - sh
    vs = [mpmath.cos(lo), mpmath.cos(hi)]
    w = S * (1 + abs(lo) + abs(hi))
    k0, k1 = mpmath.ceil((lo - w) / PI_), mpmath.floor((hi + w) / PI_)
    k = int(k0)
    while k <= k1:
        vs.append(mpf(1 if k % 2 == 0 else -1))
        k += 1
    l, h = min(vs), max(vs)
    return R(max(mpf(-1), l - w), min(mpf(1), h + w))


class Wide:
    """intervals of value numbers over a box of intervals"""

    def __init__(self, env=None, depth=0, budget=None):
        self.env = env or {}
        self.memo = {}
        self.depth = depth
        self.budget = budget or [60000]

    def __call__(self, n):
        memo = self.memo
        stack = [n]
        while stack:
            m = stack[-1]
            if m in memo:
                stack.pop()
                continue
            if m in self.env and m.op not in ("sym",):
                self.base(m, stack)
                continue
            if m.op in ("ite", "bite"):
                c = m.a[0]
                if c not in memo:
                    stack.append(c)
                    continue
                memo[m] = self.branch(m, memo[c])
                stack.pop()
                continue
            if m.op == "loop":
                memo[m] = self.loop(m)
                stack.pop()
                continue
            todo = [k for k in E.kids(m) if k not in memo]
            if todo:
                stack += todo
                continue
            self.budget[0] -= 1
            memo[m] = (ALL if m.sort == "r" else "?") if self.budget[0] < 0 or time.time() > FUEL.until else self.step(m)
            stack.pop()
        return memo[n]

    def base(self, m, stack):
        """an inner node whose range is known from a condition: also computed, and the two met"""
        e = self.env.pop(m)
        try:
            v = self(m)
        finally:
            self.env[m] = e
        self.memo[m] = meet(v, e) if isinstance(v, R) else v
        stack.pop()

    # ------------------------------------------------------------ branches
    def branch(self, m, cv):
        c, a, b = m.a
        if cv is True:
            return self(a)
        if cv is False:
            return self(b)
        if self.depth >= 6 or self.budget[0] < 0:
            va, vb = self(a), self(b)
        else:
            va, vb = self.under(c, True)(a), self.under(c, False)(b)
        if m.sort == "r":
            return hull(va, vb)
        return va if va == vb and isinstance(va, bool) else "?"

    def under(self, c, truth):
        """the same box with a condition known to be true or false"""
        env = dict(self.env)
        self.learn(env, c, truth)
        return Wide(env, self.depth + 1, self.budget)

    def learn(self, env, c, truth):
        if c.op == "not":
            return self.learn(env, c.a[0], not truth)
        if c.op == "and" and truth or c.op == "or" and not truth:
            for x in c.a:
                self.learn(env, x, truth)
            return None
        if c.op != "cmp":
            return None
        o, d = c.a
        if o == "==":
            r = R(0, 0) if truth else None
        else:
            r = R(-INF, 0) if truth else R(0, INF)
        if r is None:
            return None
        put(env, d, r)
        put(env, E.neg(d), R(-r.hi, -r.lo))
        if d.op == "lin" and len(d.a[1]) == 1:
            m, k = d.a[1][0]
            c0, k = mpf(d.a[0].numerator) / d.a[0].denominator, mpf(k.numerator) / k.denominator
            lo, hi = (r.lo - c0) / k, (r.hi - c0) / k
            put(env, m, R(min(lo, hi), max(lo, hi)))
            x = m.a[0] if m.op == "abs" else None
            if x is not None and max(lo, hi) < INF:
                b = max(lo, hi)
                put(env, x, R(-b, b))
        if d.op == "lin" and len(d.a[1]) == 2 and not d.a[0]:
            # x compared with a multiple of y whose range is known
            for (m, k), (w, j) in (d.a[1], d.a[1][::-1]):
                wv = Wide(dict(self.env), self.depth + 1, self.budget)(w)
                if isinstance(wv, R):
                    q = -(mpf(j.numerator) / j.denominator) / (mpf(k.numerator) / k.denominator)
                    t = mulr(wv, R(q, q))
                    if (r.hi == 0) == (k > 0):
                        put(env, m, R(-INF, t.hi))
                        if m.op == "abs":
                            put(env, m.a[0], R(-t.hi, t.hi))
                    else:
                        put(env, m, R(t.lo, INF))
        return None

    def loop(self, n):
        slots, cond, brks, out = n.a
        env = dict(self.env)
        for mu, _, _ in slots:
            env.pop(mu, None)
        sub = Wide(env, self.depth + 1, self.budget)
        vals = [self(slots[out][1]), sub(slots[out][2])]
        for _, vs in brks:
            vals.append(sub(vs[out]))
        if n.sort != "r":
            return "?"
        return hull(*vals)

    # ------------------------------------------------------------ operations
    def step(self, n):
        op = n.op
        g = self.memo
        if op == "q":
            v = E.val(n)
            return R(mpf(v.numerator) / v.denominator, mpf(v.numerator) / v.denominator)
        if op == "pi":
            return R(PI_, PI_)
        if op == "inf":
            return R(INF, INF)
        if op == "nan":
            return None
        if op == "sym":
            r = self.env.get(n, ALL)
            i = n.info or {}
            if i.get("pos"):
                r = meet(r, R(0, INF))
            if i.get("lt") is not None:
                r = meet(r, R(-INF, mpf(i["lt"])))
            return r
        if op == "true":
            return True
        if op == "false":
            return False
        if n.sort == "b":
            return self.truth(n)
        if n.sort != "r":
            return "?"
        if op == "lin":
            c = n.a[0]
            lo = hi = mpf(c.numerator) / c.denominator
            big, parts = abs(lo), [lo]
            oh, one = False, len(n.a[1]) == 1
            for m, k in n.a[1]:
                v = g[m]
                if v is None:
                    return None
                k = mpf(k.numerator) / k.denominator
                a, b = (v.lo * k, v.hi * k) if k > 0 else (v.hi * k, v.lo * k)
                if one and k > 0:
                    oh = v.oh
                lo, hi = lo + a, hi + b
                parts += [a, b]
                for x in (a, b):
                    if not mpmath.isinf(x):
                        big = max(big, abs(x))
            if oh and not c:
                return R(lo, hi, True)
            w = S * big if (len(n.a[1]) > 1 or c) and not all(x == mpmath.floor(x) and abs(x) < 2**60 for x in parts) else mpf(0)
            if E.nonneg(n):
                return R(max(mpf(0), lo - w), hi + w)
            return R(lo - w, hi + w)
        if op == "mul":
            r = R(1, 1)
            for b, e in n.a:
                if b is E.ZERO:
                    return ALL
                v = g[b]
                if v is None:
                    return None
                p = powr(v, e)
                if p is None:
                    return None
                r = p if r.lo == r.hi == 1 else mulr(r, p)
            if E.nonneg(n):
                r = R(max(mpf(0), r.lo), max(mpf(0), r.hi), r.oh)
            return r
        if op == "abs":
            v = g[n.a[0]]
            if v is None:
                return None
            lo = mpf(0) if v.lo <= 0 <= v.hi else min(abs(v.lo), abs(v.hi))
            return R(lo, max(abs(v.lo), abs(v.hi)))
        if op == "fn":
            vs = [g[x] for x in n.a[1:] if isinstance(x, E.N)]
            if any(v is None for v in vs) and n.a[0] not in ("min", "max"):
                return None
            r = self.fn(n.a[0], [v for v in vs if isinstance(v, R)], len(n.a) - 1, n)
            if r is not None and E.nonneg(n):
                r = meet(r, R(0, INF))
            return r
        return ALL

    def fn(self, nm, vs, k, n):
        if len(vs) != k or not vs:
            return {"frac": R(0, 1, True)}.get(nm, ALL)
        a = vs[0]
        if nm in ("sin", "cos"):
            return trig(a, nm == "cos")
        if nm == "atan":
            return mono(mpmath.atan, a, -PI_ / 2, PI_ / 2)
        if nm == "atan2":
            y, x = vs
            if x.lo >= 0 and x.hi < INF and x.lo > 0 and mpmath.isfinite(y.lo) and mpmath.isfinite(y.hi):
                cs = [mpmath.atan2(p, q) for p in (y.lo, y.hi) for q in (x.lo, x.hi)]
                return R(min(cs) - S, max(cs) + S)
            lo, hi = (-PI_ / 2, PI_ / 2) if x.lo >= 0 else (-PI_, PI_)
            if y.lo >= 0:
                lo = mpf(0)
            if y.hi <= 0 and y.hi < 0:
                hi = mpf(0)
            return R(lo, hi)
        if nm in ("asin", "acos"):
            lo, hi = max(a.lo, mpf(-1)), min(a.hi, mpf(1))
            if lo > hi:
                return None
            r = R(mpmath.asin(lo) - S, mpmath.asin(hi) + S)
            if nm == "asin":
                return R(max(r.lo, -PI_ / 2), min(r.hi, PI_ / 2))
            return R(max(mpf(0), PI_ / 2 - r.hi), min(PI_, PI_ / 2 - r.lo))
        if nm == "frac":
            if mpmath.isfinite(a.lo) and mpmath.isfinite(a.hi) and mpmath.floor(a.lo) == mpmath.floor(a.hi):
                f = mpmath.floor(a.lo)
                return R(a.lo - f, a.hi - f)
            return R(0, 1, True)
        if nm == "sign":
            return R(1 if a.lo > 0 else 0 if a.lo == 0 else -1, -1 if a.hi < 0 else 0 if a.hi == 0 else 1)
        if nm == "copysign":
            m = max(abs(a.lo), abs(a.hi))
            return R(-m, m)
        if nm == "min":
            return R(min(v.lo for v in vs), min(v.hi for v in vs))
        if nm == "max":
            return R(max(v.lo for v in vs), max(v.hi for v in vs))
        if nm == "exp":
            return mono(lambda x: mpmath.exp(x) if x < 10**6 else INF, a, mpf(0), INF)
        if nm == "pow":
            if a.lo < 0:
                return ALL
            b = vs[1]
            cs = [INF if mpmath.isinf(x) and y > 0 else mpf(0) if x == 0 and y > 0 or mpmath.isinf(x) else INF if x == 0 and y < 0 else mpmath.power(x, y) for x in (a.lo, a.hi) for y in (b.lo, b.hi)] if mpmath.isfinite(b.lo) and mpmath.isfinite(b.hi) else [mpf(0), INF]
            return R(min(cs) * (1 - S), max(cs) * (1 + S))
        if nm == "log":
            if a.hi <= 0:
                return None
            return R(-INF if a.lo <= 0 else mpmath.log(a.lo) - S, INF if mpmath.isinf(a.hi) else mpmath.log(a.hi) + S)
        if nm == "asinh":
            return mono(mpmath.asinh, a)
        if nm == "atanh":
            f = lambda x: -INF if x <= -1 else INF if x >= 1 else mpmath.atanh(x)  # noqa: E731
            return R(f(a.lo), f(a.hi))
        if nm == "cbrt":
            return mono(lambda x: mpmath.sign(x) * mpmath.cbrt(abs(x)), a)
        return ALL

    def truth(self, n):
        g = self.memo
        op = n.op
        if op == "cmp":
            v = g[n.a[1]]
            if not isinstance(v, R):
                return "?"
            o = n.a[0]
            if o == "<":
                return True if v.hi < 0 or (v.hi == 0 and v.oh) else False if v.lo >= 0 else "?"
            if o == "<=":
                return True if v.hi <= 0 else False if v.lo > 0 else "?"
            if v.lo == v.hi == 0:
                return True
            return False if v.lo > 0 or v.hi < 0 else "?"
        if op == "not":
            v = g[n.a[0]]
            return (not v) if isinstance(v, bool) else "?"
        if op == "and":
            vs = [g[x] for x in n.a]
            return False if any(v is False for v in vs) else True if all(v is True for v in vs) else "?"
        if op == "or":
            vs = [g[x] for x in n.a]
            return True if any(v is True for v in vs) else False if all(v is False for v in vs) else "?"
        return "?"


def put(env, n, r):
    old = env.get(n)
    if old is not None:
        r = meet(old, r) or r
    env[n] = r


def within(n, lo, hi, box, split=(), pieces=512, strict_hi=False, assume=()):
    """the value is in [lo, hi] everywhere in the box (dividing the named symbols as needed); True or None"""
    todo = [dict(box)]
    done = 0
    while todo:
        b = todo.pop()
        done += 1
        if done > pieces or time.time() > FUEL.until:
            return None
        w = Wide(dict(b))
        for c, t in assume:
            w = w.under(c, t)
            w.depth = 0
        v = w(n)
        if v is None:
            continue
        if isinstance(v, R) and v.lo >= lo and (v.hi <= hi and (not strict_hi or v.hi < hi or v.oh)):
            continue
        s = [x for x in split if x in b and b[x].hi - b[x].lo > 0]
        if not s:
            return None
        x = max(s, key=lambda y: (b[y].hi - b[y].lo) / (1 + max(abs(b[y].lo), abs(b[y].hi))))
        m = (b[x].lo + b[x].hi) / 2
        todo += [{**b, x: R(b[x].lo, m)}, {**b, x: R(m, b[x].hi)}]
    return True


def positive(n, depth=2):
    """certainly not negative, by its form"""
    if E.nonneg(n):
        return True
    try:
        nm = Norm((n,))
        num, den = nm.rat(n)
        sign = E.F(1)
        for k, e in den.items():
            if e % 2:
                p = nm.pk[k]
                if nm.nonnegp(p):
                    continue
                if not nm.nonnegp({m: -c for m, c in p.items()}):
                    raise TooBig
                sign = -sign
        if nm.nonnegp({m: sign * c for m, c in num.items()}):
            return True
    except (TooBig, RecursionError, OverflowError):
        pass
    if depth and n.op == "lin":
        c, ts = n.a
        for m, k in ts:
            # rest + k*sqrt(S) with k > 0 and k*k*S >= rest*rest
            if k > 0 and (m.op == "abs" or m.op == "mul" and any(e == E.F(1, 2) for _, e in m.a)):
                rest = E.sub(n, E.scale(m, k))
                if not E.nonneg(m):
                    continue
                if positive(E.sub(E.mul(E.q(k * k), m, m), E.mul(rest, rest)), depth - 1):
                    return True
    return False


def below_one(n, certificates=()):
    """the square is certainly at most one"""
    if n.op == "mul":
        for b, e in n.a:
            if e == E.F(-1, 2) and b.op == "lin" and E.nonneg(b):
                # P / sqrt(P*P + rest)
                p = E.mul(n, E.sqrt(b))
                if positive(E.sub(b, E.mul(p, p)), 0):
                    return True
    d = E.sub(E.ONE, E.mul(n, n))
    if positive(d):
        return True
    return any(E.nonneg(c) and prove_eq(d, c) for c in certificates)
