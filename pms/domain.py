"""Input boxes: which points of the input space the interval evaluator looks at when it has to
show that two value numbers differ.  A box is {symbol node: interval or bool}."""

from __future__ import annotations

import random
import time
from fractions import Fraction as F

import mpmath

from . import expr as E
from .equal import FUEL, Eval, Iv, ipt

SPECIAL = {
    "P": [0, 90, -90, 45, -60, F(1, 10**7), F(899999, 10000), F(-899999, 10000), 30, 90 - F(1, 10**6)],
    "p": [0, 90, -90, 90 + F(1, 10**6), -90 - F(1, 10**6), 90 - F(1, 10**6), F(1, 10**6) - 90, 180, -180, 100, -100, 45, 2, -2, F(11, 7)],
    "N": [90 - F(1, 10**k) for k in range(2, 9)] + [F(1, 10**k) - 90 for k in range(2, 9)],
    "Q": [0, 45, -120, 200, 30],
    "L": [0, 180, -180, 90, 270, 359, -179, 400, F(1, 10**7), F(1, 10**6) - 180],
    "Z": [0, 90, 180, 270, 360, -45, 45, 500, F(1, 10**7)],
    "V": [0, 90, -90, 45, -30, F(1, 10**7)],
    "T": [0, 30, 10, 45, 90, 120, 60],
    "A": [0, 1, -1, 2, F(1, 2)],
    "h": [0, 1000, -100, 400000, 36000000, -20000],
    "m": [0, 1, -1, 1000, -2500, F(1, 100), 250000],
    "r": [1000, 1, 250000, 0, F(1, 100), 5000000],
    "R": [6371000, 3396900, 1],
    "v": [0, 7500, -1000, 3],
    "k": [0, 1, F(1, 2), F(1, 4), F(9, 10)],
    "s": [0, F(1, 4), F(-3, 10)],
    "f": [F(1, 298), 0, F(1, 100), F(1, 10), F(1, 15)],
    "g": [F(1, 298), 0, F(1, 250)],
    "a": [6378137, 3396900, 1],
    "1": [0, 1, -1],
    "U": [0, 63072000, 1483228800, 1483228799, 78796800 - F(1, 2), 1640000000, -3000000000, 946728000],
    "t": [0, F(1, 4), -1, 2],
    "j": [2451545, F("2440587.5"), 2451544],
}
RANGE = {
    "P": (-90, 90), "p": (-200, 200), "N": (89, 90), "Q": (-400, 400), "L": (-540, 540), "Z": (-360, 720), "V": (-90, 90), "T": (0, 60),
    "A": (-3, 3), "h": (-20000, 2000000), "m": (-100000, 100000), "r": (1, 1000000), "R": (1000, 10000000),
    "v": (-8000, 8000), "k": (0, 1), "s": (F(-4, 10), F(4, 10)), "f": (F(1, 400), F(1, 50)), "g": (F(1, 1000), F(1, 200)),
    "a": (1000000, 10000000), "1": (-1, 1), "U": (-40000000000, 80000000000), "t": (-10, 10), "j": (2000000, 3500000),
}


def frand(rng, lo, hi):
    return F(lo) + (F(hi) - F(lo)) * F(rng.randrange(1, 10**6), 10**6)


class Domain:
    """roles: symbol name -> role; groups of three 'c' or 'n' symbols are drawn together"""

    def __init__(self, roles, seed=1, fix=None, keep=None, whole=()):
        self.roles = dict(roles)
        self.seed = seed
        self.fix = fix or {}
        self.whole = frozenset(whole)  # symbols that stand for whole numbers
        self.keep = keep  # predicate on the value dictionary

    def groups(self, role):
        ns = [n for n, r in self.roles.items() if r == role]
        return [ns[i : i + 3] for i in range(0, len(ns), 3)]

    def draw(self, rng, special):
        v = {}
        for n, r in self.roles.items():
            if n in self.fix:
                v[n] = F(self.fix[n])
            elif r in ("c", "n"):
                continue
            elif special and rng.random() < special:
                v[n] = F(rng.choice(SPECIAL[r]))
            else:
                v[n] = frand(rng, *RANGE[r])
        a = next((v[n] for n, r in self.roles.items() if r == "a"), F(6378137))
        for g in self.groups("c"):
            p = self.unit(rng, special)
            k = rng.random()
            s = frand(rng, F(98, 100), F(12, 10)) if k < 0.8 else frand(rng, F(2, 10), F(8, 10)) if k < 0.9 else frand(rng, 2, 8)
            for n, x in zip(g, p):
                v[n] = x * s * a
        for g in self.groups("n"):
            for n, x in zip(g, self.unit(rng, special)):
                v[n] = x
        return v

    @staticmethod
    def unit(rng, special):
        if special and rng.random() < special:
            return rng.choice(
                [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (-1, 0, 0), (0, -1, 0), (F(3, 5), F(4, 5), 0), (F(3, 5), 0, F(-4, 5)), (0, F(-3, 5), F(4, 5))]
            )
        p, q = frand(rng, -3, 3), frand(rng, -3, 3)
        d = 1 + p * p + q * q
        t = [2 * p / d, 2 * q / d, (1 - p * p - q * q) / d]
        rng.shuffle(t)
        return tuple(t)

    def ordinary(self, n):
        """points without special coordinates"""
        rng = random.Random(self.seed + 3)
        out = []
        for _ in range(20 * n):
            v = self.draw(rng, 0)
            if not self.keep or self.keep(v):
                out.append(self.box(v))
                if len(out) == n:
                    break
        return out

    def points(self, n):
        rng = random.Random(self.seed)
        i = made = 0
        while made < n and i < 8 * n + 50:
            i += 1
            v = self.draw(rng, 0 if i <= n // 2 else 0.5)
            if self.keep and not self.keep(v):
                continue
            made += 1
            yield v

    def box(self, v):
        return {E.sym(n): ipt(F(round(x)) if n in self.whole else F(x)) for n, x in v.items()}

    def boxes(self, n):
        for v in self.points(n):
            yield self.box(v)

    # ------------------------------------------------------------ reaching rare conditions
    def directed(self, nodes, n=24, budget=60):
        """boxes on which conditions of the given nodes take truth values that the ordinary
        boxes never gave them"""
        atoms = []
        for m in E.walk(*nodes):
            if m.op == "cmp" and all(s.op != "sym" or s.a[0] in self.roles for s in E.free(m.a[1])):
                if any(s.op == "sym" for s in E.free(m.a[1])):
                    atoms.append(m)
        atoms = atoms[:budget]
        if not atoms:
            return
        pts = list(self.points(12))
        rng = random.Random(self.seed + 7)
        for at in atoms:
            if time.time() > FUEL.until:
                return
            d = at.a[1]
            seen = {}
            for v in pts:
                t = self.truth(at, v)
                if t is not None:
                    seen.setdefault(t, v)
            if len(seen) == 2 or not seen:
                continue
            want = not next(iter(seen))
            names = sorted(s.a[0] for s in E.free(d) if s.op == "sym" and s.a[0] not in self.fix)
            found = 0
            for v in pts[:5]:
                for nm in names:
                    if time.time() > FUEL.until:
                        return
                    for w in self.line(v, nm, d, rng):
                        if self.keep and not self.keep(w):
                            continue
                        if self.truth(at, w) is want:
                            found += 1
                            yield self.box(w)
                            if found >= 4:
                                break
                    if found >= 4:
                        break
                if found >= 4:
                    break

    def truth(self, at, v):
        try:
            return Eval(self.box(v))(at)
        except (ValueError, OverflowError, ZeroDivisionError):
            return None

    def value(self, d, v):
        try:
            r = Eval(self.box(v))(d)
        except (ValueError, OverflowError, ZeroDivisionError):
            return None
        return r.mid if isinstance(r, Iv) else None

    def line(self, v, nm, d, rng):
        """points along one coordinate: special values, then around the roots of d"""
        role = self.roles[nm]
        if role in ("c", "n"):
            sc = max(abs(v[x]) for x in v if self.roles[x] == role) or 1
            xs = [F(0), -v[nm], F(1, 1000), F(1, 10**10), v[nm] * 2, v[nm] / 10, sc * 10]
            lo, hi = (-3 * sc, 3 * sc) if role == "c" else (F(-1), F(1))
        else:
            xs = [F(x) for x in SPECIAL[role]]
            lo, hi = F(RANGE[role][0]), F(RANGE[role][1])
        for x in xs:
            yield {**v, nm: x}
        grid = [lo + (hi - lo) * F(i, 16) for i in range(17)]
        vals = []
        for x in grid:
            if time.time() > FUEL.until:
                return
            vals.append(self.value(d, {**v, nm: x}))
        for i in range(16):
            a, b = vals[i], vals[i + 1]
            if a is None or b is None or mpmath.isinf(a) or mpmath.isinf(b) or a == 0 or b == 0 or (a > 0) == (b > 0):
                continue
            if time.time() > FUEL.until:
                return
            p, q = grid[i], grid[i + 1]
            for _ in range(60):
                mid = (p + q) / 2
                c = self.value(d, {**v, nm: mid})
                if c is None:
                    break
                if c == 0:
                    p = q = mid
                    break
                if (c > 0) == (a > 0):
                    p = mid
                else:
                    q = mid
            for x in (p, q, p - (hi - lo) / 10**4, q + (hi - lo) / 10**4, p - (hi - lo) / 10**7, q + (hi - lo) / 10**7):
                yield {**v, nm: x}
        # thin slabs |d| < eps: nearest approach
        best = [(abs(c), x) for c, x in zip(vals, grid) if c is not None]
        if best:
            _, x0 = min(best)
            w = (hi - lo) / 16
            for _ in range(30):
                cand = [(self.value(d, {**v, nm: x}), x) for x in (x0 - w, x0, x0 + w)]
                cand = [(abs(c), x) for c, x in cand if c is not None]
                if not cand:
                    break
                x0 = min(cand)[1]
                w /= 2
            yield {**v, nm: x0}
