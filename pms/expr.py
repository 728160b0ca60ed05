"""Hash-consed value numbers with a real-arithmetic normal form.

Every abstract numeric value computed by the interpreter is one of these nodes.
Two nodes that are the same object denote the same real function of the inputs.
The constructors apply only identities that are valid over the reals (commutativity,
collection of like terms, sin(-x) = -sin(x), x % m = m*frac(x/m), ...).
Float rounding is deliberately not modelled (see DESIGN.md, "What is assumed").
"""

from __future__ import annotations

from fractions import Fraction as F
from math import isqrt

_TABLE: dict = {}
_COUNT = [0]


class N:
    __slots__ = ("op", "a", "id", "sort", "_fs", "info", "_nn")

    def __repr__(self):
        return show(self, 6)


def _mk(op, a, sort="r"):
    key = (op, a)
    n = _TABLE.get(key)
    if n is None:
        n = N()
        n.op, n.a, n.sort = op, a, sort
        n.id = _COUNT[0]
        _COUNT[0] += 1
        n._fs = None
        n.info = None
        n._nn = None
        _TABLE[key] = n
    return n


def _hash_safe(x):
    return x


# ---------------------------------------------------------------- leaves
def q(x) -> N:
    if isinstance(x, N):
        return x
    if isinstance(x, float):
        if x != x:
            return NAN
        if x == float("inf"):
            return INF
        if x == float("-inf"):
            return neg(INF)
    return _mk("q", (F(x),))


def sym(name: str, **info) -> N:
    n = _mk("sym", (name,))
    if info or n.info is None:
        n.info = dict(info)
    return n


def bsym(name: str) -> N:
    return _mk("bsym", (name,), "b")


def osym(name: str) -> N:
    return _mk("osym", (name,), "o")


def const(val) -> N:
    """opaque constant (string, datetime tuple, ...)"""
    return _mk("const", (val,), "o")


PI = _mk("pi", ())
INF = _mk("inf", ())
NAN = _mk("nan", ())
ZERO = q(0)
ONE = q(1)
TRUE = _mk("true", (), "b")
FALSE = _mk("false", (), "b")


def isq(n):
    return n.op == "q"


def val(n) -> F:
    return n.a[0]


# ---------------------------------------------------------------- linear combinations
def _terms(n):
    """-> (const Fraction, {mono: coef})"""
    if n.op == "q":
        return n.a[0], {}
    if n.op == "lin":
        return n.a[0], dict(n.a[1])
    return F(0), {n: F(1)}


def _lin(c, d) -> N:
    d = {m: k for m, k in d.items() if k != 0}
    if not d:
        return q(c)
    if c == 0 and len(d) == 1:
        (m, k), = d.items()
        if k == 1:
            return m
        if m is NAN:
            return NAN
        if m is INF and k > 0:
            return INF
        if m is INF and k != -1:
            k = F(-1)
    if NAN in d:
        return NAN
    return _mk("lin", (c, tuple(sorted(d.items(), key=lambda t: t[0].id))))


def add(*xs) -> N:
    c = F(0)
    d: dict = {}
    for x in xs:
        cx, dx = _terms(x)
        c += cx
        for m, k in dx.items():
            d[m] = d.get(m, 0) + k
    return _lin(c, d)


def scale(x, k) -> N:
    k = F(k)
    if k == 0:
        return ZERO
    if k == 1:
        return x
    c, d = _terms(x)
    return _lin(c * k, {m: v * k for m, v in d.items()})


def neg(x):
    return scale(x, -1)


def sub(x, y):
    return add(x, scale(y, -1))


# ---------------------------------------------------------------- products
def _factors(n):
    """-> (coef Fraction, {base: exp})"""
    if n.op == "q":
        return n.a[0], {}
    if n.op == "lin":
        c, ts = n.a
        if c == 0 and len(ts) == 1:
            m, k = ts[0]
            kk, f = _factors(m)
            return k * kk, f
        lead, pp = _lead(n)
        prim = _div_scalar(n, lead, pp)
        f = {prim: F(1)}
        if pp:
            f[PI] = F(pp)
        return lead, f
    if n.op == "mul":
        return F(1), dict(n.a)
    return F(1), {n: F(1)}


def _pi_pow(m):
    if m is PI:
        return F(1)
    if m.op == "mul":
        for b, e in m.a:
            if b is PI:
                return e
    return F(0)


def _lead(n):
    """leading rational coefficient and common pi power of a multi-term lin"""
    c, ts = n.a
    lead = ts[0][1]
    pp = min([_pi_pow(m) for m, _ in ts] + ([F(0)] if c != 0 else []))
    if pp < 0:
        pass
    return lead, pp


def _pi_mul(m, e):
    """monomial m times pi**e (monomial-level)"""
    if e == 0:
        return m
    if m.op == "q":
        raise AssertionError
    f = dict(m.a) if m.op == "mul" else {m: F(1)}
    f[PI] = f.get(PI, F(0)) + e
    return _mono(f)


def _div_scalar(n, k, pp):
    c, ts = n.a
    d = {}
    cc = c / k
    if pp == 0:
        return _lin(cc, {m: v / k for m, v in ts})
    out = F(0)
    if cc != 0:
        d[_mono({PI: F(-pp)})] = cc
    for m, v in ts:
        mm = _pi_mul(m, -pp)
        if mm is ONE:
            out += v / k
        else:
            d[mm] = d.get(mm, 0) + v / k
    return _lin(out, d)


def _mono(f) -> N:
    f = {b: e for b, e in f.items() if e != 0}
    if not f:
        return ONE
    if len(f) == 1:
        (b, e), = f.items()
        if e == 1:
            return b
    return _mk("mul", tuple(sorted(f.items(), key=lambda t: t[0].id)))


def _rebuild(c, f) -> N:
    """coef c times product f; distributes scalars (rationals, powers of pi) over one sum"""
    f = {b: e for b, e in f.items() if e != 0}
    if c == 0:
        return ZERO
    if NAN in f:
        return NAN
    if INF in f and f[INF] > 0:
        f = {b: (F(1) if b is INF else e) for b, e in f.items() if b is INF or not (b is PI or (b.op == "sym" and nonneg(b)))}
        c = F(1) if c > 0 else F(-1)
    rest = [(b, e) for b, e in f.items() if b is not PI]
    pp = f.get(PI, F(0))
    if len(rest) == 1 and rest[0][1] == 1:
        b = rest[0][0]
        if b.op == "lin":
            cc, ts = b.a
            if pp == 0:
                return scale(b, c)
            d = {}
            if cc:
                d[_mono({PI: pp})] = cc * c
            out = F(0)
            for m, v in ts:
                mm = _pi_mul(m, pp)
                if mm is ONE:
                    out += v * c
                else:
                    d[mm] = d.get(mm, 0) + v * c
            return _lin(out, d)
    m = _mono(f)
    if m is ONE:
        return q(c)
    return _lin(F(0), {m: c})


def mul(*xs) -> N:
    c = F(1)
    f: dict = {}
    for x in xs:
        cx, fx = _factors(x)
        c *= cx
        if c == 0:
            return ZERO
        for b, e in fx.items():
            f[b] = f.get(b, F(0)) + e
    # collapse rational bases with integer exponents
    for b in list(f):
        if b.op == "q" and f[b].denominator == 1 and (b.a[0] != 0 or f[b] > 0):
            c *= b.a[0] ** int(f.pop(b))
        elif b.op == "lin" and len(b.a[1]) == 1 and b.a[0] == 0:
            e = f.pop(b)
            k, g = _factors(power(b, e))
            c *= k
            for bb, ee in g.items():
                f[bb] = f.get(bb, F(0)) + ee
    return _rebuild(c, f)


def div(x, y):
    if isq(y):
        if val(y) == 0:
            return mul(x, _mk("mul", ((ZERO, F(-1)),)))
        return scale(x, 1 / val(y))
    return mul(x, power(y, F(-1)))


def _ratroot(v: F, n: int):
    """exact n-th root of a nonnegative rational or None"""

    def iroot(k):
        if n == 2:
            r = isqrt(k)
        else:
            r = round(k ** (1.0 / n)) if k < 10**300 else 0
        for s in (r - 1, r, r + 1):
            if s >= 0 and s**n == k:
                return s
        return None

    a, b = iroot(v.numerator), iroot(v.denominator)
    if a is None or b is None or b == 0:
        return None
    return F(a, b)


def _sqrt_rat(v: F):
    """sqrt(v) = c * product of sqrt(t) for coprime t"""
    m = v.numerator * v.denominator
    c, ps = F(1, v.denominator), []
    for t in (2, 3, 5, 7, 11, 13, 17, 19, 23):
        while m % (t * t) == 0:
            m //= t * t
            c *= t
        if m % t == 0:
            m //= t
            ps.append(t)
    if m > 1:
        r = isqrt(m)
        if r * r == m:
            c *= r
        else:
            ps.append(m)
    return c, ps


def power(x, e) -> N:
    e = F(e)
    if e == 0:
        return ONE
    if e == 1:
        return x
    if isq(x):
        v = val(x)
        if e.denominator == 1:
            if v == 0 and e < 0:
                return _mk("mul", ((ZERO, F(-1)),))
            return q(v ** int(e))
        if v == 0:
            return ZERO if e > 0 else _mk("mul", ((ZERO, F(-1)),))
        if v > 0:
            r = _ratroot(v, e.denominator)
            if r is not None:
                return q(r ** e.numerator)
            if e.denominator == 2:
                k = (e.numerator - 1) // 2
                c, ps = _sqrt_rat(v)
                return scale(_rebuild(F(1), {q(t): F(1, 2) for t in ps}), c * v**k)
            return _mk("mul", ((x, e),))
        return _mk("mul", ((x, e),))
    c, f = _factors(x)
    if e.denominator == 1:
        g: dict = {}
        cc = c ** int(e)
        for b, k in f.items():
            ke = k * e
            if b.op == "abs" and ke.denominator == 1 and ke % 2 == 0:
                b = b.a[0]
                kb, fb = _factors(b)
                cc *= kb ** int(ke)
                for bb, kk in fb.items():
                    g[bb] = g.get(bb, F(0)) + kk * ke
                continue
            g[b] = g.get(b, F(0)) + ke
        rat = [b for b, k in g.items() if b.op == "q" and k.denominator == 1 and (val(b) != 0 or k > 0)]
        out = _rebuild(cc, {b: k for b, k in g.items() if b not in rat})
        for b, k in g.items():
            if b in rat:
                out = scale(out, val(b) ** int(k))
        return out
    # fractional exponent: pull out what is known to be nonnegative
    out: list = []
    rest: dict = {}
    sgn = F(1)
    if c < 0:
        sgn = F(-1)
        c = -c
    out.append(power(q(c), e) if c != 1 else ONE)
    odd = [b for b, k in f.items() if k.denominator == 1 and k % 2 and not nonneg(b)]
    for b, k in f.items():
        if len(odd) == 1 and b is odd[0] and e.denominator % 2 == 0:
            out.append(_mono({(b if sgn > 0 else neg(b)): k * e}))  # defined only where the base is not negative
            sgn = F(1)
            continue
        if nonneg(b) or k.denominator != 1:
            out.append(_mono({b: k * e}) if not (b.op == "q") else power(q(val(b) ** 1), k * e))
        elif k % 2 == 0:
            ab = abs_(b)
            kb, fb = _factors(ab)
            out.append(power(ab, k * e))
        else:
            r = k - 1 if k > 0 else k + 1
            if r:
                out.append(power(abs_(b), r * e))
            rest[b] = F(1) if k > 0 else F(-1)
    if rest or sgn < 0:
        body = _rebuild(sgn, rest)
        out.append(_mk("mul", ((body, e),)))
    c2 = F(1)
    f2: dict = {}
    for o in out:
        k, g = _factors(o) if not (o.op == "mul") else (F(1), dict(o.a))
        c2 *= k
        for b, x2 in g.items():
            f2[b] = f2.get(b, F(0)) + x2
    for b in list(f2):
        if b.op == "q" and f2[b].denominator == 1 and (val(b) != 0 or f2[b] > 0):
            c2 *= val(b) ** int(f2.pop(b))
    return _rebuild(c2, f2)


def sqrt(x):
    return power(x, F(1, 2))


def hypot(*xs):
    return sqrt(add(*[mul(x, x) for x in xs]))


def nonneg(n) -> bool:
    if n._nn is None:
        n._nn = _nonneg(n)
    return n._nn


def _nonneg(n) -> bool:
    op = n.op
    if op == "q":
        return val(n) >= 0
    if op in ("pi", "inf", "abs"):
        return True
    if op == "sym":
        return bool(n.info and n.info.get("pos"))
    if op == "lin":
        c, ts = n.a
        if c >= 0 and all(k > 0 and nonneg(m) for m, k in ts):
            return True
        # a constant at least as large as all the terms that may be negative: 1 - sin(x)**2
        low = c
        for m, k in ts:
            if k > 0 and nonneg(m):
                continue
            if not _unit(m):
                low = -1
                break
            low -= abs(k)
        if low >= 0:
            return True
        # 1 - f with 0 <= f < 1
        if len(ts) == 1 and ts[0][0].op == "sym":
            s, k = ts[0]
            hi = (s.info or {}).get("lt")
            if hi is not None and k < 0 and c + k * F(hi) >= 0:
                return True
        return False
    if op == "mul":
        return all(nonneg(b) or (e.denominator == 1 and e % 2 == 0) or e.denominator % 2 == 0 for b, e in n.a)
    if op == "ite":
        return nonneg(n.a[1]) and nonneg(n.a[2])
    if op == "fn":
        nm = n.a[0]
        if nm in ("exp", "frac", "acos"):
            return True
        if nm == "cos":
            t = n.a[1]
            # cosine of a latitude-like symbol
            if t.op == "lin" and t.a[0] == 0 and len(t.a[1]) == 1:
                m, k = t.a[1][0]
                base = m
                if m.op == "mul":
                    bs = [b for b, e in m.a if b is not PI]
                    if len(bs) == 1:
                        base = bs[0]
                if base.op == "sym" and (base.info or {}).get("latdeg") and k in (F(1, 180), F(-1, 180)):
                    return True
            if t.op == "sym" and (t.info or {}).get("latrad"):
                return True
            if t.op == "fn" and t.a[0] in ("asin", "atan"):
                return True
    return False


def _unit(n) -> bool:
    """the absolute value is at most one"""
    if n.op == "fn":
        return n.a[0] in ("sin", "cos")
    if n.op == "sym":
        i = n.info or {}
        return bool(i.get("pos")) and i.get("lt") is not None and F(i["lt"]) <= 1
    if n.op == "mul":
        return all(e > 0 and _unit(b) for b, e in n.a)
    return False


def abs_(x) -> N:
    if isq(x):
        return q(abs(val(x)))
    w = as_ite(x)
    if w:
        return ite(w[0], abs_(w[1]), abs_(w[2]))
    c, f = _factors(x)
    out: dict = {}
    inner: dict = {}
    for b, e in f.items():
        if nonneg(b) or e.denominator != 1 or e % 2 == 0:
            out[b] = e
        else:
            inner[b] = e
    c = abs(c)
    if inner:
        body = _rebuild(F(1), inner)
        k, _ = _factors(body)
        out[_mk("abs", (body,))] = F(1)
    return _rebuild(c, out)


# ---------------------------------------------------------------- trigonometry
def _pi_coef(x):
    """x as lin -> coefficient c such that x = c*pi + rest"""
    c, d = _terms(x)
    return d.get(PI, F(0))


def _strip_turns(x):
    """drop whole turns hidden in frac(): 2k*pi*frac(u) -> 2k*pi*u"""
    c, d = _terms(x)
    changed = False
    out = [q(c)]
    for m, k in d.items():
        done = False
        if m.op == "mul" and len(m.a) == 2:
            fs = dict(m.a)
            if fs.get(PI) == 1:
                o = [b for b in fs if b is not PI][0]
                if o.op == "fn" and o.a[0] == "frac" and fs[o] == 1 and k % 2 == 0:
                    out.append(mul(PI, scale(o.a[1], k)))
                    changed = done = True
        if not done:
            out.append(_lin(F(0), {m: k}))
    return add(*out) if changed else x


def _trig(name, x) -> N:
    x = _strip_turns(x)
    pc = _pi_coef(x)
    s = F(1)
    if pc:
        r = pc % 2
        base = F(0)
        for h in (F(3, 2), F(1), F(1, 2)):
            if r >= h:
                base = h
                break
        c, d = _terms(x)
        rest = r - base
        d.pop(PI)
        if rest:
            d[PI] = rest
        x = _lin(c, d)
        nq = int(base * 2)
        for _ in range(nq):
            # sin(y+pi/2)=cos y ; cos(y+pi/2)=-sin y
            if name == "sin":
                name = "cos"
            else:
                name = "sin"
                s = -s
    c, d = _terms(x)
    if not d:
        if c == 0:
            return ZERO if name == "sin" else q(s)
    lead = c if not d else min(d.items(), key=lambda t: t[0].id)[1]
    if lead < 0:
        x = neg(x)
        if name == "sin":
            s = -s
        pc = _pi_coef(x)
        if pc < 0:
            return scale(_trig(name, x), s)
    if d and set(d) == {PI} and c == 0:
        t = d[PI] if lead > 0 else -d[PI]
        if t == F(1, 6) and name == "sin":
            return q(s / 2)
        if t == F(1, 3) and name == "cos":
            return q(s / 2)
    w = as_ite(x)
    if w:
        return scale(ite(w[0], _trig(name, w[1]), _trig(name, w[2])), s)
    return scale(_mk("fn", (name, x)), s)


def sin(x):
    return _trig("sin", x)


def cos(x):
    return _trig("cos", x)


def tan(x):
    return div(sin(x), cos(x))


def frac(x) -> N:
    c, d = _terms(x)
    out = [q(c % 1)]
    ch = False
    for m, k in d.items():
        if m.op == "fn" and m.a[0] == "frac" and k.denominator == 1:
            out.append(scale(m.a[1], k))
            ch = True
        else:
            out.append(_lin(F(0), {m: k}))
    if ch:
        return frac(add(*out))
    x = add(*out)
    if isq(x):
        return q(val(x) % 1)
    return _mk("fn", ("frac", x))


def mod(x, m) -> N:
    if isq(x) and isq(m) and val(m) != 0:
        return q(val(x) % val(m))
    return mul(m, frac(div(x, m)))


_ODD = {"asin", "atan", "sinh", "asinh", "atanh", "tanh", "sign", "cbrt"}
_ZERO0 = {"asin", "atan", "sinh", "asinh", "atanh", "tanh", "sign", "cbrt"}


def fn(name, *args) -> N:
    if name == "sin":
        return sin(args[0])
    if name == "cos":
        return cos(args[0])
    if name == "tan":
        return tan(args[0])
    if name == "sqrt":
        return sqrt(args[0])
    if name == "hypot":
        return hypot(*args)
    if name == "abs":
        return abs_(args[0])
    if name == "mod":
        return mod(*args)
    if name == "frac":
        return frac(*args)
    if name == "atan":
        return atan2(args[0], ONE)
    if name == "atan2":
        return atan2(*args)
    if name in ("min", "max"):
        return minmax(name, *args)
    if name in _ZERO0 and args[0] is ZERO:
        return ZERO
    if name == "sign":
        x = args[0]
        if isq(x):
            return q((val(x) > 0) - (val(x) < 0))
        w = as_ite(x)
        if w:
            return ite(w[0], fn("sign", w[1]), fn("sign", w[2]))
        c, f = _factors(x)
        keep = {b: F(1) if e > 0 else F(-1) for b, e in f.items() if not (b in (PI, INF) or (b.op == "sym" and nonneg(b)))}
        body = _rebuild(F(1), {b: F(1) for b in keep})
        if isq(body):
            return q(1 if c > 0 else -1)
        return scale(_mk("fn", ("sign", body)), 1 if c > 0 else -1)
    if name in _ODD:
        x = args[0]
        c, d = _terms(x)
        lead = c if not d else min(d.items(), key=lambda t: t[0].id)[1]
        if lead < 0:
            return neg(_mk("fn", (name, neg(x))))
    if name == "exp":
        if args[0] is ZERO:
            return ONE
        if _scalar_lead(args[0])[2] < 0 and args[0].op != "q":
            return power(_mk("fn", ("exp", neg(args[0]))), -1)
    if name == "expm1":
        return sub(fn("exp", args[0]), ONE)
    if name == "log1p":
        return fn("log", add(ONE, args[0]))
    if name == "sinh":
        x = fn("exp", args[0])
        return scale(sub(x, power(x, -1)), F(1, 2))
    if name == "cosh":
        x = fn("exp", args[0])
        return scale(add(x, power(x, -1)), F(1, 2))
    if name == "tanh":
        x = power(fn("exp", args[0]), 2)
        return div(sub(x, ONE), add(x, ONE))
    if name == "log" and args[0] is ONE:
        return ZERO
    if name == "asin" and isq(args[0]):
        v = val(args[0])
        if v == 1:
            return scale(PI, F(1, 2))
    if name == "acos" and isq(args[0]):
        if val(args[0]) == 1:
            return ZERO
        if val(args[0]) == -1:
            return PI
    if name == "trunc" and isq(args[0]):
        return q(int(val(args[0])))
    if name == "floor":
        return sub(args[0], frac(args[0]))
    if name == "sum1":
        return args[0]
    return _mk("fn", (name,) + args)


def atan2(y, x) -> N:
    """common positive scalars are removed; atan(t) is atan2(t, 1)"""
    if y is ZERO and isq(x):
        return ZERO if val(x) >= 0 else PI
    if isq(x) and val(x) == 1:
        # atan: odd in its argument
        if y.op == "mul" or y.op == "lin":
            cc, ff = _factors(y)
            if ff.get(ZERO) == -1:  # tan of a quarter turn
                sg = 1 if cc > 0 else -1
                for b, e in ff.items():
                    if b is ZERO or nonneg(b) or e.denominator == 2 or (e.denominator == 1 and e % 2 == 0):
                        continue
                    if nonneg(neg(b)) and e.denominator == 1:
                        sg = -sg
                        continue
                    sg = 0
                    break
                if sg:
                    return scale(PI, F(sg, 2))
        c, d = _terms(y)
        lead = c if not d else min(d.items(), key=lambda t: t[0].id)[1]
        if y.op == "q":
            if val(y) == 1:
                return scale(PI, F(1, 4))
        if lead < 0:
            return neg(_mk("fn", ("atan", neg(y))))
        return _mk("fn", ("atan", y))
    cy, fy = _factors(y)
    cx, fx = _factors(x)
    # divide both by a common positive factor
    if cx != 0 and cy != 0:
        k = abs(cx)
        cx, cy = cx / k, cy / k
    elif cy != 0:
        cy = F(1) if cy > 0 else F(-1)
    elif cx != 0:
        cx = F(1) if cx > 0 else F(-1)
    common = {}
    if cx != 0 and cy != 0:
        for b in set(fy) & set(fx):
            e = min(fy[b], fx[b])
            if e > 0 and (nonneg(b)):
                common[b] = e
        for b in list(fy):
            if fy[b] < 0 and nonneg(b):
                common[b] = fy[b]
        for b in list(fx):
            if fx[b] < 0 and nonneg(b):
                common[b] = min(fx[b], common.get(b, F(0)))
        for b, e in common.items():
            fy[b] = fy.get(b, F(0)) - e
            fx[b] = fx.get(b, F(0)) - e
    y2, x2 = _rebuild(cy, fy), _rebuild(cx, fx)
    if isq(x2) and val(x2) == 1:
        return atan2(y2, ONE)
    if nonneg(x2):  # odd in its first argument where the second is not negative
        c, d = _terms(y2)
        lead = c if not d else min(d.items(), key=lambda t: t[0].id)[1]
        if lead < 0:
            return neg(_mk("fn", ("atan2", neg(y2), x2)))
    return _mk("fn", ("atan2", y2, x2))


def minmax(name, *args) -> N:
    flat = []
    for a in args:
        if a.op == "fn" and a.a[0] == name:
            flat += a.a[1:]
        else:
            flat.append(a)
    qs = [val(a) for a in flat if isq(a)]
    rest = sorted({a for a in flat if not isq(a)}, key=lambda n: n.id)
    if qs:
        rest.append(q(min(qs) if name == "min" else max(qs)))
    if len(rest) == 1:
        return rest[0]
    return _mk("fn", (name,) + tuple(rest))


# ---------------------------------------------------------------- booleans
def _scalar_lead(x):
    """positive scalar (rational * pi**k) to divide a comparison by, plus sign"""
    c, d = _terms(x)
    if not d:
        return abs(c), F(0), (1 if c >= 0 else -1)
    m, k = min(d.items(), key=lambda t: t[0].id)
    return abs(k), _pi_pow(m), (1 if k > 0 else -1)


def cmp(op, a, b) -> N:
    if op in (">", ">="):
        return cmp("<" if op == ">" else "<=", b, a)
    if op == "!=":
        return not_(cmp("==", a, b))
    if a.sort == "b" or b.sort == "b":
        if op == "==":
            if a is b:
                return TRUE
            return _mk("bfn", ("beq",) + tuple(sorted((a, b), key=lambda n: n.id)), "b")
        return _mk("bfn", ("bcmp" + op, a, b), "b")
    if a.sort == "o" or b.sort == "o":
        if a is b:
            return TRUE if op in ("==", "<=") else FALSE
        if a.op == "const" and b.op == "const":
            try:
                r = {"==": a.a[0] == b.a[0], "<": None, "<=": None}[op]
                if r is None:
                    r = a.a[0] < b.a[0] if op == "<" else a.a[0] <= b.a[0]
                return TRUE if r else FALSE
            except TypeError:
                pass
        return _mk("bfn", ("o" + op, a, b), "b")
    if a is NAN or b is NAN:
        return FALSE
    d = sub(a, b)
    if isq(d):
        v = val(d)
        r = {"<": v < 0, "<=": v <= 0, "==": v == 0}[op]
        return TRUE if r else FALSE
    w = as_ite(d)
    if not w and (isq(a) or isq(b)):
        c0, d0 = _terms(d)
        if len(d0) == 1:
            w = as_ite(_lin(F(0), d0))
            if w:
                w = (w[0], add(q(c0), w[1]), add(q(c0), w[2]))
    if w:
        return ite_b(w[0], cmp(op, w[1], ZERO), cmp(op, w[2], ZERO))
    for _ in range(3):
        k, pp, s = _scalar_lead(d)
        if k == 1 and pp == 0:
            break
        d = scale(d, 1 / k)
        if pp:
            d = mul(d, _mono({PI: -pp}))
    if isq(d):
        return cmp(op, d, ZERO)
    if d.op == "mul":  # divisors that cannot be negative do not decide the sign
        drop = [b for b, e in d.a if e < 0 and b.op == "sym" and (b.info or {}).get("pos")]
        if drop:
            return cmp(op, mul(*[power(b, e) for b, e in d.a if b not in drop]), ZERO)
    if op == "==" and s < 0:
        d = neg(d)
    if op == "<" and nonneg(d):
        return FALSE
    if op == "<=" and nonneg(neg(d)):
        return TRUE
    return _mk("cmp", (op, d), "b")


_NOT: dict = {}


def not_(x) -> N:
    r = _NOT.get(x)
    if r is None:
        r = _NOT[x] = _not(x)
    return r


def _not(x) -> N:
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.a[0]
    if x.op == "cmp" and x.a[0] in ("<", "<="):
        return cmp("<=" if x.a[0] == "<" else "<", ZERO, x.a[1])
    if x.op == "bite":
        return ite_b(x.a[0], not_(x.a[1]), not_(x.a[2]))
    if x.op == "and":
        return or_(*[not_(y) for y in x.a])
    if x.op == "or":
        return and_(*[not_(y) for y in x.a])
    if x.op == "bfn" and x.a[0] == "any":
        return _mk("bfn", ("all", not_(x.a[1])), "b")
    if x.op == "bfn" and x.a[0] == "all":
        return _mk("bfn", ("any", not_(x.a[1])), "b")
    return _mk("not", (x,), "b")


def _bflat(op, xs, unit, zero):
    s = []
    for x in xs:
        if x is unit:
            continue
        if x is zero:
            return None
        if x.op == op:
            s += x.a
        else:
            s.append(x)
    s = sorted(set(s), key=lambda n: n.id)
    st = set(s)
    for x in s:
        if not_(x) in st:
            return None
    return s


def and_(*xs) -> N:
    s = _bflat("and", xs, TRUE, FALSE)
    if s is None:
        return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return _mk("and", tuple(s), "b")


def or_(*xs) -> N:
    s = _bflat("or", xs, FALSE, TRUE)
    if s is None:
        return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return _mk("or", tuple(s), "b")


def bfn(name, *args) -> N:
    if name == "isclose":
        a, b, rtol, atol = args
        d = sub(a, b)
        if d is ZERO:
            return TRUE
        # |a-b| <= atol + rtol*|b|
        return cmp("<=", abs_(d), add(atol, mul(rtol, abs_(b))))
    if name == "isnan":
        x = args[0]
        if x is NAN:
            return TRUE
        if isq(x) or x.op in ("sym", "pi", "inf"):
            return FALSE
        w = as_ite(x)
        if w:
            return ite_b(w[0], bfn("isnan", w[1]), bfn("isnan", w[2]))
    if name in ("any", "all"):
        x = args[0]
        if x in (TRUE, FALSE):
            return x
        if x.op == "bfn" and x.a[0] in ("any", "all"):
            return x
    return _mk("bfn", (name,) + args, "b")


def ite_b(c, a, b) -> N:
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE:
        return or_(c, b)
    if a is FALSE:
        return and_(not_(c), b)
    if b is FALSE:
        return and_(c, a)
    if b is TRUE:
        return or_(not_(c), a)
    return _mk("bite", (c, a, b), "b")


def ite(c, a, b) -> N:
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "b" and b.sort == "b":
        return ite_b(c, a, b)
    if c.op == "not":
        return ite(c.a[0], b, a)
    w = as_ite(a)
    if w and w[0] is c:
        return ite(c, w[1], b)
    w = as_ite(b)
    if w and w[0] is c:
        return ite(c, a, w[2])
    # orientation: x <= 0 is stored as not (0 < x) so one polarity is used
    if c.op == "cmp" and c.a[0] == "<=":
        return ite(not_(c), b, a)
    s = "o" if "o" in (a.sort, b.sort) else ("b" if a.sort == "b" else "r")
    if s == "r":
        # the scalar content (rational, power of pi) of the first branch that has one is pulled out,
        # so that k*ite(c, a, b) and ite(c, k*a, k*b) are one node
        k, pp = _content(a) or _content(b) or (F(1), F(0))
        if k != 1 or pp != 0:
            if pp:
                a, b = (x if x is NAN or x is INF else mul(x, _mono({PI: -pp})) for x in (a, b))
            a, b = scale(a, 1 / k), scale(b, 1 / k)
            m = _mk("ite", (c, a, b), s)
            return _lin(F(0), {_mono({PI: pp, m: F(1)}): k})
    return _mk("ite", (c, a, b), s)


def _content(x):
    if x is ZERO or x is NAN or x is INF:
        return None
    if x.op == "q":
        return val(x), F(0)
    if x.op == "lin":
        c, ts = x.a
        if c == 0 and len(ts) == 1:
            m, k = ts[0]
            return (k, F(0)) if m is INF else (k, _pi_pow(m))
        return _lead(x)
    return F(1), _pi_pow(x)


def as_ite(x):
    """x as (condition, then, else) when it is a scalar times one conditional"""
    if x.sort != "r":
        return None
    if x.op == "ite":
        return x.a
    k = F(1)
    if x.op == "lin":
        c, ts = x.a
        if c != 0 or len(ts) != 1:
            return None
        x, k = ts[0]
        if x.op == "ite":
            return x.a[0], scale(x.a[1], k), scale(x.a[2], k)
    if x.op == "mul" and len(x.a) == 2:
        f = dict(x.a)
        if PI in f:
            m = [b for b in f if b is not PI][0]
            if m.op == "ite" and f[m] == 1:
                s = _lin(F(0), {_mono({PI: f[PI]}): k})
                return m.a[0], mul(m.a[1], s), mul(m.a[2], s)
    return None


def ofn(name, *args) -> N:
    """uninterpreted function producing an opaque object"""
    return _mk("ofn", (name,) + args, "o")


def rfn(name, *args) -> N:
    """uninterpreted function producing a real"""
    return _mk("fn", (name,) + args, "r")


# ---------------------------------------------------------------- traversal
def kids(n):
    op = n.op
    if op == "lin":
        return [m for m, _ in n.a[1]]
    if op == "mul":
        return [b for b, _ in n.a]
    if op == "loop":
        slots, cond, brks, out = n.a
        r = []
        for mu, init, nxt in slots:
            r += [init, nxt]
        r.append(cond)
        for g, vals in brks:
            r.append(g)
            r += list(vals)
        return r
    return [x for x in n.a if isinstance(x, N)] + [
        y for x in n.a if isinstance(x, tuple) for y in x if isinstance(y, N)
    ]


def free(n) -> frozenset:
    """free symbols"""
    if n._fs is None:
        stack = [n]
        while stack:
            m = stack[-1]
            if m._fs is not None:
                stack.pop()
                continue
            ks = kids(m)
            todo = [k for k in ks if k._fs is None]
            if todo:
                stack += todo
                continue
            s = frozenset([m]) if m.op in ("sym", "bsym", "osym") else frozenset()
            for k in ks:
                s |= k._fs
            if m.op == "loop":
                s -= frozenset(x[0] for x in m.a[0])
            m._fs = s
            stack.pop()
    return n._fs


def walk(*ns):
    seen = set()
    st = list(ns)
    while st:
        n = st.pop()
        if n in seen:
            continue
        seen.add(n)
        yield n
        st += kids(n)


def rewrite(n, f, memo=None):
    """bottom-up rewriting: f(node, newkids) -> node or None (rebuild)"""
    if memo is None:
        memo = {}
    stack = [n]
    while stack:
        m = stack[-1]
        if m in memo:
            stack.pop()
            continue
        todo = [k for k in kids(m) if k not in memo]
        if todo:
            stack += todo
            continue
        r = f(m, memo)
        if r is None:
            r = m if all(memo[k] is k for k in kids(m)) else rebuild(m, memo)
        memo[m] = r
        stack.pop()
    return memo[n]


def rebuild(n, mp):
    op = n.op
    if op == "lin":
        return add(q(n.a[0]), *[scale(mp[m], k) for m, k in n.a[1]])
    if op == "mul":
        return mul(*[power(mp[b], e) for b, e in n.a])
    if op == "abs":
        return abs_(mp[n.a[0]])
    if op == "fn":
        return fn(n.a[0], *[mp[x] if isinstance(x, N) else x for x in n.a[1:]])
    if op == "bfn":
        nm = n.a[0]
        args = [mp[x] if isinstance(x, N) else x for x in n.a[1:]]
        if nm in ("o==", "o<", "o<="):
            return cmp(nm[1:], *args)
        return bfn(nm, *args)
    if op == "ofn":
        return ofn(n.a[0], *[mp[x] if isinstance(x, N) else x for x in n.a[1:]])
    if op == "cmp":
        return cmp(n.a[0], mp[n.a[1]], ZERO)
    if op == "not":
        return not_(mp[n.a[0]])
    if op == "and":
        return and_(*[mp[x] for x in n.a])
    if op == "or":
        return or_(*[mp[x] for x in n.a])
    if op == "ite":
        return ite(mp[n.a[0]], mp[n.a[1]], mp[n.a[2]])
    if op == "bite":
        return ite_b(*[mp[x] for x in n.a])
    if op == "loop":
        slots, cond, brks, out = n.a
        return mk_loop(
            tuple((mu, mp[i], mp[x]) for mu, i, x in slots),
            mp[cond],
            tuple((mp[g], tuple(mp[v] for v in vs)) for g, vs in brks),
            out,
            n.sort,
        )
    return n


def mk_loop(slots, cond, brks, out, sort="r"):
    return _mk("loop", (slots, cond, brks, out), sort)


def subst(n, m):
    """replace symbols by nodes"""
    memo = dict(m)
    return rewrite(n, lambda x, mp: None, memo)


def show(n, d=5) -> str:
    op = n.op
    if op == "q":
        v = val(n)
        return str(v) if v.denominator < 1000 and abs(v.numerator) < 10**9 else repr(float(v))
    if op in ("sym", "bsym", "osym"):
        return n.a[0]
    if op == "const":
        return repr(n.a[0])
    if op in ("pi", "inf", "nan", "true", "false"):
        return op
    if d <= 0:
        return "…"
    if op == "lin":
        c, ts = n.a
        s = [] if c == 0 else [show(q(c))]
        for m, k in ts:
            t = show(m, d - 1)
            s.append(t if k == 1 else ("-" + t if k == -1 else f"{show(q(k))}*{t}"))
        return "(" + " + ".join(s) + ")"
    if op == "mul":
        return "*".join(show(b, d - 1) + ("" if e == 1 else f"**{e}") for b, e in n.a)
    if op == "abs":
        return f"|{show(n.a[0], d - 1)}|"
    if op in ("fn", "bfn", "ofn"):
        return f"{n.a[0]}({', '.join(show(x, d - 1) if isinstance(x, N) else repr(x) for x in n.a[1:])})"
    if op == "cmp":
        return f"{show(n.a[1], d - 1)} {n.a[0]} 0"
    if op == "not":
        return f"not {show(n.a[0], d - 1)}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(show(x, d - 1) for x in n.a) + ")"
    if op in ("ite", "bite"):
        return f"({show(n.a[1], d - 1)} if {show(n.a[0], d - 1)} else {show(n.a[2], d - 1)})"
    if op == "loop":
        return f"loop[{n.a[3]}]({', '.join(show(i, d - 2) for _, i, _ in n.a[0])})"
    return op
