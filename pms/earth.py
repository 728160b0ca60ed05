"""Reference Earth-orientation models, from the publications, as value numbers.

Julian date: Gregorian calendar, JD 2440587.5 = 1970-01-01 0h.  GMST: IAU 1982 (Aoki et al.).  Mean obliquity and
precession: IAU 1976 (Lieske et al.).  Nutation: the four largest terms, Meeus ch. 22.  Earth rotation angle: IAU 2000.
Leap seconds: IERS Bulletin C.  Nothing in this file is derived from the analysed source.
"""

from __future__ import annotations

import calendar
from fractions import Fraction as F

from . import expr as E
from . import spec as S

# first day on which TAI-UTC has the value
LEAPS = [
    ((1972, 1), 10), ((1972, 7), 11), ((1973, 1), 12), ((1974, 1), 13), ((1975, 1), 14), ((1976, 1), 15), ((1977, 1), 16), ((1978, 1), 17),
    ((1979, 1), 18), ((1980, 1), 19), ((1981, 7), 20), ((1982, 7), 21), ((1983, 7), 22), ((1985, 7), 23), ((1988, 1), 24), ((1990, 1), 25),
    ((1991, 1), 26), ((1992, 7), 27), ((1993, 7), 28), ((1994, 7), 29), ((1996, 1), 30), ((1997, 7), 31), ((1999, 1), 32), ((2006, 1), 33),
    ((2009, 1), 34), ((2012, 7), 35), ((2015, 7), 36), ((2017, 1), 37),
]
EPOCHS = [calendar.timegm((y, m, 1, 0, 0, 0)) for (y, m), _ in LEAPS]
TAU = E.scale(E.PI, 2)
ARCSEC = E.scale(E.PI, F(1, 648000))


def poly(t, *cs):
    return E.add(*[E.mul(E.q(F(c)), E.power(t, i)) if i else E.q(F(c)) for i, c in enumerate(cs)])


def leap(u):
    """TAI-UTC at u seconds of UTC from 1970; before 1972 the first value"""
    r = E.q(10)
    for e, (_, k) in zip(EPOCHS[1:], LEAPS[1:]):
        r = E.ite(E.cmp("<=", E.q(e), u), E.q(k), r)
    return r


def jd(u):
    return E.add(E.q(F("2440587.5")), E.scale(u, F(1, 86400)))


def centuries(j):
    return E.scale(E.sub(j, E.q(2451545)), F(1, 36525))


def mod(x, m):
    return E.mod(x, m)


def gmst(j):
    t = centuries(j)
    s = poly(t, "67310.54841", F(876600 * 3600) + F("8640184.812866"), "0.093104", "-0.0000062")
    return E.scale(E.mul(s, TAU), F(1, 86400))


def era(j):
    return E.mul(TAU, poly(E.sub(j, E.q(2451545)), "0.7790572732640", "1.0027378119113546"))  # ...3544 8, as a double


def obliquity(t):
    return E.mul(poly(t, "84381.448", "-46.8150", "-0.00059", "0.001813"), ARCSEC)


def nutation(t):
    d = lambda *c: S.rad(poly(t, *c))  # noqa: E731
    L, Lp = d("280.4665", "36000.7698"), d("218.3165", "481267.8813")
    om = d("125.04452", "-1934.136261", "0.0020708", F(1, 450000))
    k = lambda c, f, x: E.mul(E.q(F(c)), f(x))  # noqa: E731
    two = lambda x: E.scale(x, 2)  # noqa: E731
    dpsi = E.add(k("-17.20", E.sin, om), k("-1.32", E.sin, two(L)), k("-0.23", E.sin, two(Lp)), k("0.21", E.sin, two(om)))
    deps = E.add(k("9.20", E.cos, om), k("0.57", E.cos, two(L)), k("0.10", E.cos, two(Lp)), k("-0.09", E.cos, two(om)))
    return E.mul(dpsi, ARCSEC), E.mul(deps, ARCSEC)


def equinoxes(t):
    dpsi, deps = nutation(t)
    return E.mul(dpsi, E.cos(E.add(obliquity(t), deps)))


def gast(jut1, jtt):
    return E.add(gmst(jut1), equinoxes(centuries(jtt)))


def rx(a):
    c, s = E.cos(a), E.sin(a)
    return [[E.ONE, E.ZERO, E.ZERO], [E.ZERO, c, s], [E.ZERO, E.neg(s), c]]


def ry(a):
    c, s = E.cos(a), E.sin(a)
    return [[c, E.ZERO, E.neg(s)], [E.ZERO, E.ONE, E.ZERO], [s, E.ZERO, c]]


def rz(a):
    c, s = E.cos(a), E.sin(a)
    return [[c, s, E.ZERO], [E.neg(s), c, E.ZERO], [E.ZERO, E.ZERO, E.ONE]]


def chain(*ms):
    r = ms[-1]
    for m in reversed(ms[:-1]):
        r = S.matmul(m, r)
    return r


def precession(t):
    """mean equator and equinox of J2000 to mean of date"""
    p = lambda a, b, c: E.mul(poly(t, 0, a, b, c), ARCSEC)  # noqa: E731
    zeta, theta, z = p("2306.2181", "0.30188", "0.017998"), p("2004.3109", "-0.42665", "-0.041833"), p("2306.2181", "1.09468", "0.018203")
    return chain(rz(E.neg(z)), ry(theta), rz(E.neg(zeta)))


def nutation_matrix(t):
    dpsi, deps = nutation(t)
    e0 = obliquity(t)
    return chain(rx(E.neg(E.add(e0, deps))), rz(E.neg(dpsi)), rx(e0))


def polar(xp, yp):
    """true Earth-fixed to terrestrial: the pole has the terrestrial coordinates (xp, -yp) (IERS Conventions, eq. 5.3 transposed)"""
    return chain(rx(E.neg(E.mul(yp, ARCSEC))), ry(E.neg(E.mul(xp, ARCSEC))))


def matrix(u, dut1, xp, yp):
    jut1 = jd(E.add(u, dut1))
    jtt = jd(E.add(u, leap(u), E.q(F("32.184"))))
    t = centuries(jtt)
    return chain(polar(xp, yp), rz(gast(jut1, jtt)), nutation_matrix(t), precession(t))
