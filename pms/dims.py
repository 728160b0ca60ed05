"""Dimensions of value numbers: the power of length each one carries.

dim(n) is a Fraction, ANY for the value zero (and for what has no value of its own), or None where the
value mixes quantities of different dimensions.  Every symbol's dimension is given."""

from __future__ import annotations

import time
from fractions import Fraction as F

from . import expr as E

ANY = "any"
PURE = {
    "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "asinh", "acosh", "atanh", "sinh", "cosh", "tanh", "frac", "trunc", "round",
    "floor", "ceil", "erf", "log1p", "expm1", "pow",
}
SAME = {"atan2", "min", "max", "fmod", "copysign"}
KEEP = {"allmin", "allmax", "total", "mean", "abs"}


class Dims:
    sigs: dict = {}

    def __init__(self, given):
        self.given = given  # symbol name -> Fraction
        self.mix = []  # (node, explanation): where a value stops being homogeneous
        self.tests = []  # conditions that are not homogeneous
        self.mu = {}

    def of(self, n):
        for _ in range(8):
            self.memo, self.mix, self.tests = {}, [], []
            old = dict(self.mu)
            r = self.run(n)
            if old == self.mu:
                break
        return r

    def run(self, n):
        stack = [n]
        memo = self.memo
        while stack:
            m = stack[-1]
            if m in memo:
                stack.pop()
                continue
            todo = [k for k in E.kids(m) if k not in memo]
            if todo:
                if m.op == "loop":  # the start values come first: they type the loop's own symbols
                    first = [i for _, i, _ in m.a[0] if i not in memo]
                    if first:
                        stack += first
                        continue
                    for mu, i, _ in m.a[0]:
                        if mu not in self.mu:
                            self.mu[mu] = memo[i]
                stack += todo
                continue
            stack.pop()
            memo[m] = self.node(m)
        return memo[n]

    def bad(self, n, why):
        self.mix.append((n, why))

    def join(self, n, ds, what):
        """one dimension for all of them"""
        if any(d is None for d in ds):
            return None
        r = ANY
        for d in ds:
            if d == ANY:
                continue
            if r == ANY:
                r = d
            elif r != d:
                self.bad(n, f"{what} of length**{r} and length**{d}")
                return None
        return r

    def node(self, n):
        op = n.op
        D = self.memo
        if op == "q":
            return ANY if n is E.ZERO else F(0)
        if op == "sym":
            return self.given.get(n.a[0], F(0))
        if op == "bsym":
            return self.mu.get(n, ANY)
        if op in ("inf", "nan", "const", "osym", "true", "false"):
            return ANY
        if op == "pi":
            return F(0)
        if op == "lin":
            ds = [D[m] for m, _ in n.a[1]]
            if n.a[0] != 0:
                ds.append(F(0))
            return self.join(n, ds, "sum")
        if op == "mul":
            t, anyd = F(0), False
            for b, e in n.a:
                d = D[b]
                if d is None:
                    return None
                if d == ANY:
                    anyd = True
                else:
                    t += d * e
            return ANY if anyd else t
        if op == "abs":
            return D[n.a[0]]
        if op == "ite":
            return self.join(n, [D[n.a[1]], D[n.a[2]]], "choice")
        if op == "fn":
            nm = n.a[0]
            ds = [D[x] for x in n.a[1:] if isinstance(x, E.N) and x.sort == "r"]
            if nm == "sign":
                return F(0)
            if nm == "cbrt":
                return ds[0] / 3 if isinstance(ds[0], F) else ds[0]
            if nm in KEEP:
                return ds[0]
            if nm in SAME:
                d = self.join(n, ds, f"{nm}")
                return (F(0) if d is not None else None) if nm == "atan2" else d
            if any(d is None for d in ds):
                return None
            if nm in self.sigs:  # a function left opaque: typed by its signature, which is checked for itself
                want, r = self.sigs[nm]
                if len(want) == len(ds) and all(d in (ANY, w) for d, w in zip(ds, want)):
                    return r
                self.bad(n, f"arguments of {nm} of other dimensions than documented")
                return None
            if any(d not in (ANY, 0) for d in ds):
                self.bad(n, f"{nm} of a length")
                return None
            return F(0)
        if op == "cmp":
            if D[n.a[1]] is None:
                self.tests.append(n)
            return ANY
        if op == "loop":
            slots, cond, brks, out = n.a
            for k, (mu, i, nxt) in enumerate(slots):
                ds = [D[i], D[nxt]] + [D[vs[k]] for _, vs in brks if k < len(vs) and vs[k].sort == "r"]
                if mu.sort == "r" or i.sort == "r":
                    d = self.join(n, ds, "loop variable")
                    self.mu[mu] = d
            if n.sort != "r":
                return ANY
            return self.mu[slots[out][0]]
        # conditions and opaque values
        if n.sort == "r" and any(isinstance(D[k], F) and D[k] != 0 for k in E.kids(n)):
            self.bad(n, f"{op} of a length")
            return None
        return ANY if n.sort != "r" else F(0)


def split(given, n, depth=6, until=None):
    """(dimension, inhomogeneous sums, inhomogeneous tests): where branches of different dimension meet, each case of
    the condition that selects between them is typed by itself"""
    from .equal import assume, base_conds

    D = Dims(given)
    d = D.of(n)
    until = until or time.time() + 10
    if d is not None or depth == 0 or time.time() > until:
        return d, D.mix, D.tests
    for m, _ in D.mix:
        if m.op != "ite":
            continue
        for c in [x for x in base_conds(m) if x in set(E.walk(m.a[0]))][:4]:
            r = [split(given, assume(n, c, t), depth - 1, until) for t in (True, False)]
            ds = {x[0] for x in r} - {ANY}
            if None not in ds and len(ds) <= 1:
                return (ds.pop() if ds else ANY), [], r[0][2] + r[1][2]
    return d, D.mix, D.tests


def closeness(c, given, limit=F(1, 1000)):
    """a comparison of a length that is never negative with a tolerance of at most a millimetre"""
    d = c.a[1]
    if d.op != "lin" or len(d.a[1]) != 1:
        return False
    m, k = d.a[1][0]
    D = Dims(given)
    return D.of(m) == 1 and not D.tests and E.nonneg(m) and (d.a[0] > 0) != (k > 0) and abs(d.a[0] / k) <= limit
