"""Geodesics on an oblate ellipsoid, written from the literature (Karney 2013, Vincenty 1975) and from the
defining integrals.  Nothing here is derived from the analysed source.  Angles in radians.

The sixth-order series are expanded here, in exact rational arithmetic, from

    I1(s) = int_0^s sqrt(1 + k2 sin^2 t) dt            = A1 (s + sum C1_l sin 2 l s)
    I3(s) = int_0^s (2-f) / (1 + (1-f) sqrt(1 + k2 sin^2 t)) dt = A3 (s + sum C3_l sin 2 l s)

with eps = (sqrt(1+k2)-1)/(sqrt(1+k2)+1), n = f/(2-f)."""

from __future__ import annotations

from fractions import Fraction as F
from functools import lru_cache

from mpmath import mp, mpf

ORDER = 6


# ------------------------------------------------------------------ exact series
# a polynomial: {(i, j, l): c} = c * eps^i * n^j * z^l,  z = exp(2 i s);  terms with i + j > top are dropped
def _mul(p, q, top):
    r = {}
    for (i, j, l), c in p.items():
        for (x, y, m), d in q.items():
            if i + j + x + y <= top:
                k = (i + x, j + y, l + m)
                r[k] = r.get(k, 0) + c * d
    return {k: v for k, v in r.items() if v}


def _add(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def _inv(p, top):
    """1/p, p = c + small"""
    c = p[0, 0, 0]
    x = {k: -v / c for k, v in p.items() if k != (0, 0, 0)}
    r = t = {(0, 0, 0): F(1)}
    for _ in range(top):
        t = _mul(t, x, top)
        r = _add(r, t)
    return {k: v / c for k, v in r.items()}


def _root(top):
    """sqrt(1 - 2 eps cos 2s + eps^2) = sqrt(1 - eps z) sqrt(1 - eps / z)"""
    b, c = [F(1)], F(1)
    for k in range(top + 1):
        c = c * (F(1, 2) - k) / (k + 1)
        b.append(c)
    r = {}
    for i in range(top + 1):
        for j in range(top + 1 - i):
            k = (i + j, 0, i - j)
            r[k] = r.get(k, 0) + b[i] * b[j] * (-1) ** (i + j)
    return r


def _cos(p, l):
    """coefficient of z^l as {(i, j): c}"""
    return {(i, j): c for (i, j, m), c in p.items() if m == l}


def _ratio(p, l, top):
    """sine coefficients of the integral of p divided by its mean: 2 p_l / (2 l p_0)"""
    p0 = {(i, j, 0): c for (i, j), c in _cos(p, 0).items()}
    pl = {(i, j, 0): c / l for (i, j), c in _cos(p, l).items()}
    return {(i, j): c for (i, j, _), c in _mul(pl, _inv(p0, top), top).items()}


@lru_cache(None)
def tables():
    """A1 (times 1-eps), C1, C1', A3, C3 as {(i, j): rational} in eps^i n^j"""
    top = ORDER
    s = _root(top)
    a1 = _cos(s, 0)
    c1 = {l: _ratio(s, l, top) for l in range(1, ORDER + 1)}
    # reversion of tau = sigma + sum C1 sin 2 l sigma, by Lagrange's series:
    # sigma = tau + sum_k (-1)^k / k! d^(k-1)/dtau^(k-1) [g(tau)]^k,  g = sum C1 sin 2 l tau
    # g as a polynomial in z with the factor 1/(2i) kept aside: g = G / (2i), G odd in l
    g = {}
    for l, c in c1.items():
        for (i, j), v in c.items():
            g[i, j, l] = v
            g[i, j, -l] = -v
    tot = {}
    gk = {(0, 0, 0): F(1)}
    fact = 1
    for k in range(1, top + 1):
        gk = _mul(gk, g, top)
        fact *= k
        # d/dtau z^l = 2 i l z^l ; the factors of i: (2i)^(k-1) / (2i)^k = 1/(2i)
        for (i, j, l), v in gk.items():
            kk = (i, j, l)
            tot[kk] = tot.get(kk, 0) + F((-1) ** k, fact) * v * l ** (k - 1)
    c1p = {l: {(i, j): v for (i, j, m), v in tot.items() if m == l and v} for l in range(1, ORDER + 1)}
    # I3: integrand (2-f)/(1+(1-f) R) with R = root/(1-eps): 2 (1-eps) / ((1+n)(1-eps) + (1-n) root)
    t3 = ORDER - 1
    one = {(0, 0, 0): F(1)}
    e = {(1, 0, 0): F(1)}
    n = {(0, 1, 0): F(1)}
    om = _add(one, e, -1)
    den = _add(_mul(_add(one, n), om, t3), _mul(_add(one, n, -1), _root(t3), t3))
    p = _mul({k: 2 * v for k, v in om.items()}, _inv(den, t3), t3)
    a3 = _cos(p, 0)
    c3 = {l: _ratio(p, l, t3) for l in range(1, ORDER)}
    return {"A1": a1, "C1": c1, "C1p": c1p, "A3": a3, "C3": c3}


def value(t, eps, n=0):
    return mp.fsum(mpf(c.numerator) / c.denominator * eps**i * mpf(n) ** j for (i, j), c in t.items())


class Series:
    """the series evaluated for one equatorial azimuth"""

    def __init__(self, f, salp0, calp0):
        t = tables()
        n = f / (2 - f)
        ep2 = f * (2 - f) / (1 - f) ** 2
        self.k2 = ep2 * calp0**2
        r = mp.sqrt(1 + self.k2)
        self.eps = eps = self.k2 / (1 + r) ** 2
        self.A1 = value(t["A1"], eps) / (1 - eps)
        self.C1 = [value(t["C1"][l], eps) for l in range(1, ORDER + 1)]
        self.A3 = value(t["A3"], eps, n)
        self.C3 = [value(t["C3"][l], eps, n) for l in range(1, ORDER)]

    def b(self, c, s):
        return mp.fsum(x * mp.sin(2 * (l + 1) * s) for l, x in enumerate(c))

    def i1(self, s):
        return self.A1 * (s + self.b(self.C1, s))

    def i3(self, s):
        return self.A3 * (s + self.b(self.C3, s))

    def i1_inv(self, x):
        s = x / self.A1
        for _ in range(60):
            d = (self.i1(s) - x) / mp.sqrt(1 + self.k2 * mp.sin(s) ** 2)
            s -= d
            if abs(d) < mpf(10) ** -38:
                break
        return s


FLOOR = mpf(10) ** -30


def beta_of(lat, f):
    s, c = (1 - f) * mp.sin(lat), mp.cos(lat)
    if abs(c) < FLOOR:
        c = FLOOR
    r = mp.hypot(s, c)
    return s / r, c / r


def turn(x):
    """into (-pi, pi]"""
    return x - 2 * mp.pi * mp.ceil((x - mp.pi) / (2 * mp.pi))


def direct(a, f, lat1, lon1, az, s12):
    """latitude, longitude and azimuth at distance s12"""
    sb1, cb1 = beta_of(lat1, f)
    sa, ca = mp.sin(az), mp.cos(az)
    salp0, calp0 = sa * cb1, mp.hypot(ca, sa * sb1)
    S = Series(f, salp0, calp0)
    if sb1 == 0 and ca == 0:
        sig1 = mpf(0)
        om1 = mpf(0)
    else:
        sig1 = mp.atan2(sb1, ca * cb1)
        om1 = mp.atan2(salp0 * sb1, ca * cb1)
    sig2 = S.i1_inv(S.i1(sig1) + s12 / (a * (1 - f)))
    ss, cs = mp.sin(sig2), mp.cos(sig2)
    om2 = mp.atan2(salp0 * ss, cs)
    # whole turns: omega advances with sigma
    e = 1 if salp0 >= 0 else -1
    om12 = e * ((sig2 - sig1) - (mp.atan2(ss, cs) - sig1) + (e * om2 - e * om1))
    lam = om12 - f * salp0 * (S.i3(sig2) - S.i3(sig1))
    lat2 = mp.atan2(calp0 * ss, (1 - f) * mp.hypot(calp0 * cs, salp0))
    return lat2, lon1 + lam, mp.atan2(salp0, calp0 * cs), S, sig1, sig2


def _lam(f, sb1, cb1, sb2, cb2, sa, ca):
    """longitude difference and arc for azimuth alpha1 at beta1 <= 0, |beta2| <= |beta1|"""
    salp0, calp0 = sa * cb1, mp.hypot(ca, sa * sb1)
    S = Series(f, salp0, calp0)
    ca2 = mp.sqrt(max(mpf(0), (ca * cb1) ** 2 + (cb2 - cb1) * (cb2 + cb1))) / cb2
    sig1, sig2 = mp.atan2(sb1, ca * cb1), mp.atan2(sb2, ca2 * cb2)
    om1, om2 = mp.atan2(salp0 * sb1, ca * cb1), mp.atan2(salp0 * sb2, ca2 * cb2)
    return om2 - om1 - f * salp0 * (S.i3(sig2) - S.i3(sig1)), S, sig1, sig2


def inverse(a, f, lat1, lon1, lat2, lon2):
    """the length of the shortest geodesic, by bisection on the azimuth at the point farther from the equator"""
    lam = abs(turn(lon2 - lon1))
    b1, b2 = beta_of(lat1, f), beta_of(lat2, f)
    if abs(b1[0]) < abs(b2[0]):
        b1, b2 = b2, b1
    if b1[0] > 0:
        b1, b2 = (-b1[0], b1[1]), (-b2[0], b2[1])
    if b1[0] == 0 and b2[0] == 0 and lam <= (1 - f) * mp.pi:
        return a * lam
    if b1[0] == 0:
        b1 = (-FLOOR, b1[1])
        b2 = (FLOOR * 0, b2[1])
    tgt = min(max(lam, mpf(10) ** -26), mp.pi - mpf(10) ** -26)
    lo, hi = mpf(0), mp.pi
    for _ in range(130):
        m = (lo + hi) / 2
        if _lam(f, *b1, *b2, mp.sin(m), mp.cos(m))[0] < tgt:
            lo = m
        else:
            hi = m
    m = (lo + hi) / 2
    _, S, s1, s2 = _lam(f, *b1, *b2, mp.sin(m), mp.cos(m))
    return a * (1 - f) * abs(S.i1(s2) - S.i1(s1))


# ------------------------------------------------------------------ Vincenty (1975)
def _AB(u2):
    A = 1 + u2 / 16384 * (4096 + u2 * (-768 + u2 * (320 - 175 * u2)))
    B = u2 / 1024 * (256 + u2 * (-128 + u2 * (74 - 47 * u2)))
    return A, B


def _dsig(B, s, c2m):
    c, sn = mp.cos(s), mp.sin(s)
    return B * sn * (c2m + B / 4 * (c * (-1 + 2 * c2m**2) - B / 6 * c2m * (-3 + 4 * sn**2) * (-3 + 4 * c2m**2)))


def _lon(f, C, salp, s, c2m):
    return (1 - C) * f * salp * (s + C * mp.sin(s) * (c2m + C * mp.cos(s) * (-1 + 2 * c2m**2)))


def _off(lat):
    """a pole as a point 1e-30 rad away from it"""
    m = mp.pi / 2 - FLOOR
    return max(-m, min(m, lat))


def vdirect(a, f, lat1, lon1, s12, az):
    lat1 = _off(lat1)
    t = (1 - f) * mp.tan(lat1)
    cu = 1 / mp.sqrt(1 + t * t)
    su = t * cu
    s1 = mp.atan2(t, mp.cos(az))
    salp = cu * mp.sin(az)
    ca2 = 1 - salp**2
    A, B = _AB(ca2 * (1 / (1 - f) ** 2 - 1))
    s0 = s = s12 / (a * (1 - f) * A)
    for _ in range(400):
        p, s = s, s0 + _dsig(B, s, mp.cos(2 * s1 + s))
        if abs(p - s) < mpf(10) ** -25:
            break
    c2m = mp.cos(2 * s1 + s)
    sn, cs = mp.sin(s), mp.cos(s)
    lat2 = mp.atan2(su * cs + cu * sn * mp.cos(az), (1 - f) * mp.hypot(salp, su * sn - cu * cs * mp.cos(az)))
    lam = mp.atan2(sn * mp.sin(az), cu * cs - su * sn * mp.cos(az))
    C = f / 16 * ca2 * (4 + f * (4 - 3 * ca2))
    return lat2, lon1 + lam - _lon(f, C, salp, s, c2m)


def vinverse(a, f, lat1, lon1, lat2, lon2):
    """(distance, azimuth) or None where the iteration is not contracting well"""
    L = turn(lon2 - lon1)
    lat1, lat2 = _off(lat1), _off(lat2)
    U1, U2 = mp.atan((1 - f) * mp.tan(lat1)), mp.atan((1 - f) * mp.tan(lat2))
    s1, c1, s2, c2 = mp.sin(U1), mp.cos(U1), mp.sin(U2), mp.cos(U2)
    lam = L
    for it in range(45):
        sl, cl = mp.sin(lam), mp.cos(lam)
        sn = mp.hypot(c2 * sl, c1 * s2 - s1 * c2 * cl)
        if sn == 0:
            return mpf(0), None
        cs = s1 * s2 + c1 * c2 * cl
        s = mp.atan2(sn, cs)
        salp = c1 * c2 * sl / sn
        ca2 = 1 - salp**2
        c2m = cs - 2 * s1 * s2 / ca2 if ca2 > mpf(10) ** -25 else mpf(0)
        C = f / 16 * ca2 * (4 + f * (4 - 3 * ca2))
        p, lam = lam, L + _lon(f, C, salp, s, c2m)
        if abs(lam) > mp.pi - mpf("0.02"):
            return None
        if abs(lam - p) < mpf(10) ** -16:
            break
    else:
        return None
    if it > 35:
        return None
    A, B = _AB(ca2 * (1 / (1 - f) ** 2 - 1))
    d = a * (1 - f) * A * (s - _dsig(B, s, c2m))
    return d, mp.atan2(c2 * mp.sin(lam), c1 * s2 - s1 * c2 * mp.cos(lam))
