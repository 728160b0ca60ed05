"""Meaning of the Astropy names the project uses: units, quantities, times, frames and places.

A coordinate transformation is an unknown function of everything it was given: the components in
their unit, the two frames with their attributes, the instants and the place."""

from __future__ import annotations

from fractions import Fraction as F

from . import expr as E
from .values import Arr, Ext, Method, Opq, Ref, Sc, Unsupported

PI = E.PI
UNITS = {
    **{k: (E.ONE, (1, 0, 0)) for k in ("m", "meter", "metre")},
    **{k: (E.q(1000), (1, 0, 0)) for k in ("km", "kilometer")},
    "cm": (E.q(F(1, 100)), (1, 0, 0)),
    "mm": (E.q(F(1, 1000)), (1, 0, 0)),
    "au": (E.q(149597870700), (1, 0, 0)),
    **{k: (E.scale(PI, F(1, 180)), (0, 1, 0)) for k in ("deg", "degree")},
    **{k: (E.ONE, (0, 1, 0)) for k in ("rad", "radian")},
    **{k: (E.scale(PI, F(1, 12)), (0, 1, 0)) for k in ("hourangle",)},
    **{k: (E.scale(PI, F(1, 10800)), (0, 1, 0)) for k in ("arcmin", "arcminute")},
    **{k: (E.scale(PI, F(1, 648000)), (0, 1, 0)) for k in ("arcsec", "arcsecond")},
    **{k: (E.ONE, (0, 0, 1)) for k in ("s", "second")},
    **{k: (E.q(60), (0, 0, 1)) for k in ("min", "minute")},
    **{k: (E.q(3600), (0, 0, 1)) for k in ("h", "hour", "hr")},
    **{k: (E.q(86400), (0, 0, 1)) for k in ("d", "day")},
    "dimensionless_unscaled": (E.ONE, (0, 0, 0)),
    "one": (E.ONE, (0, 0, 0)),
}
FRAMES = {"ICRS", "GCRS", "ITRS", "CIRS", "TETE", "AltAz", "HADec", "FK5", "FK4", "TEME", "PrecessedGeocentric", "HCRS", "BarycentricTrueEcliptic", "GeocentricTrueEcliptic"}
LATLON = {"AltAz": ("az", "alt"), "HADec": ("ha", "dec"), "ICRS": ("ra", "dec"), "GCRS": ("ra", "dec"), "FK5": ("ra", "dec"), "CIRS": ("ra", "dec"), "TETE": ("ra", "dec"), "FK4": ("ra", "dec"), "HCRS": ("ra", "dec"), "PrecessedGeocentric": ("ra", "dec")}
NODEF = E.const("default")


class Ast:
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind, self.d = kind, d

    def __getattr__(self, k):
        try:
            return object.__getattribute__(self, "d")[k]
        except KeyError:
            raise AttributeError(k) from None

    def __eq__(self, o):
        return isinstance(o, Ast) and self.kind == o.kind and self.d == o.d

    def __hash__(self):
        return hash(self.kind)

    def __repr__(self):
        return f"<astropy {self.kind}>"


def is_astro(v):
    return isinstance(v, Ast) or (isinstance(v, Ext) and v.name.startswith("astropy"))


def no(msg):
    raise Unsupported("astropy: " + msg)


# ---------------------------------------------------------------- units and quantities
def unit_of(v):
    if isinstance(v, Ast) and v.kind == "unit":
        return v
    if isinstance(v, Ast) and v.kind == "qty":
        no("quantity as a unit")
    name = v if isinstance(v, str) else v.name.rpartition(".")[2] if isinstance(v, Ext) and v.name.startswith("astropy.units.") else None
    if name in UNITS:
        f, dim = UNITS[name]
        return Ast("unit", f=f, dim=dim)
    no(f"unit {v!r}")


def as_unit(v):
    """a unit when v is one, else None"""
    if isinstance(v, Ast):
        return v if v.kind == "unit" else None
    if isinstance(v, Ext) and v.name.startswith("astropy.units."):
        return unit_of(v)
    return None


def qty(v, node, f, dim, cls="Quantity"):
    return Ast("qty", v=v, node=node, f=f, dim=dim, cls=cls)


def of_number(I, v, u, st, cls="Quantity"):
    if isinstance(v, Ast) and v.kind == "qty":
        if u is not None and u.dim != v.dim:
            I.raise_("UnitConversionError", "units do not convert")
        return qty(v.v, v.node, u.f if u is not None else v.f, v.dim, cls)
    if not isinstance(v, (Sc, Arr)):
        no(f"quantity of {v!r}")
    if u is None:
        I.raise_("UnitsError", "no unit specified")
    return qty(v, E.mul(I.node_of(v, st), u.f), u.f, u.dim, cls)


def value(I, q, st, f=None):
    w = I.wrap(E.div(q.node, f if f is not None else q.f), [q.v], st)
    if isinstance(w, Sc) and w.k == "py":
        w = Sc(w.node, "np", w.t)
    return w


def dims(a, b, k):
    return tuple(x + k * y for x, y in zip(a, b))


def binop(I, op, a, b, st):
    if op not in ("Mult", "Div", "Add", "Sub", "Pow"):
        no(f"operator {op}")
    ua, ub = as_unit(a), as_unit(b)
    if ua is not None and ub is not None:
        if op == "Mult":
            return Ast("unit", f=E.mul(ua.f, ub.f), dim=dims(ua.dim, ub.dim, 1))
        if op == "Div":
            return Ast("unit", f=E.div(ua.f, ub.f), dim=dims(ua.dim, ub.dim, -1))
        no(f"{op} of units")
    if op == "Pow" and ua is not None:
        k = I.int_of(b)
        return Ast("unit", f=E.power(ua.f, k), dim=tuple(k * x for x in ua.dim))
    if ub is not None and op in ("Mult", "Div"):
        k = 1 if op == "Mult" else -1
        f = ub.f if k == 1 else E.div(E.ONE, ub.f)
        if isinstance(a, Ast) and a.kind == "qty":
            return qty(a.v, E.mul(a.node, f), E.mul(a.f, f), dims(a.dim, ub.dim, k))
        return of_number(I, a, Ast("unit", f=f, dim=tuple(k * x for x in ub.dim)), st)
    if ua is not None and op == "Mult":
        return binop(I, op, b, a, st)
    qa, qb = (isinstance(x, Ast) and x.kind == "qty" for x in (a, b))
    if qa and qb:
        if op in ("Add", "Sub"):
            if a.dim != b.dim:
                I.raise_("UnitConversionError", "units do not convert")
            return qty(a.v, (E.add if op == "Add" else E.sub)(a.node, b.node), a.f, a.dim, a.cls)
        k = 1 if op == "Mult" else -1
        return qty(a.v, (E.mul if k == 1 else E.div)(a.node, b.node), (E.mul if k == 1 else E.div)(a.f, b.f), dims(a.dim, b.dim, k))
    if qa and isinstance(b, (Sc, Arr)) and op in ("Mult", "Div"):
        return qty(a.v, (E.mul if op == "Mult" else E.div)(a.node, I.node_of(b, st)), a.f, a.dim, a.cls)
    if qb and isinstance(a, (Sc, Arr)) and op == "Mult":
        return binop(I, op, b, a, st)
    no(f"{op} of {a!r} and {b!r}")


def unary(I, op, v, st):
    if v.kind == "qty" and op in ("USub", "UAdd"):
        return qty(v.v, E.neg(v.node) if op == "USub" else v.node, v.f, v.dim, v.cls)
    no(f"{op} of {v!r}")


# ---------------------------------------------------------------- constructors
def call(I, name, args, kw, st):
    I.event("astropy", name)
    last = name.rpartition(".")[2]
    kw = dict(kw)
    args = list(args)
    if name == "astropy.coordinates.angular_separation":
        return separation(I, args, kw, st)
    if last in ("Quantity", "Angle", "Longitude", "Latitude"):
        v = args[0] if args else kw.pop("value", kw.pop("angle", None))
        u = args[1] if len(args) > 1 else kw.pop("unit", None)
        if kw:
            no(f"{last}({', '.join(kw)})")
        q = of_number(I, v, None if u is None else unit_of(u), st, last)
        if last != "Quantity" and q.dim != (0, 1, 0):
            I.raise_("UnitTypeError", "not an angle")
        return q
    if name == "astropy.time.Time":
        v = args[0] if args else kw.pop("val", None)
        for k in ("scale", "format"):
            if kw.get(k, "utc" if k == "scale" else None) in (None, "utc", "datetime"):
                kw.pop(k, None)
        kw.pop("location", None)
        if isinstance(v, Ast) and v.kind == "time":
            n = v.node
        elif isinstance(v, (Opq, str)):
            n = I.opnode(v, st)
        else:
            no(f"Time({v!r})")
        if len(args) > 1 or kw:
            n = E.ofn("Time", n, *[I.opnode(x, st) for x in args[1:]], *[E.ofn("kw:" + k, I.opnode(x, st)) for k, x in sorted(kw.items())])
        return Ast("time", node=n)
    if last == "CartesianRepresentation":
        unit, diff = kw.pop("unit", None), kw.pop("differentials", None)
        c = components(I, args, kw, ("x", "y", "z"), unit, st, (1, 0, 0))
        if isinstance(diff, Ref) and diff.kind == "dict":
            (diff,) = st.heap[diff.oid].values()
        return Ast("rep", c=c, diff=diff.c if diff is not None else None)
    if last == "CartesianDifferential":
        unit = kw.pop("unit", None)
        return Ast("diff", c=components(I, args, kw, ("d_x", "d_y", "d_z"), unit, st, (1, 0, -1)))
    if last == "from_geodetic" and ".EarthLocation." in name:
        return place(I, args, kw, st)
    if last == "EarthLocation" or (last == "from_geocentric" and ".EarthLocation." in name):
        if last == "EarthLocation" and not args and ("lat" in kw or "lon" in kw):
            return place(I, args, kw, st)
        unit = kw.pop("unit", None)
        return Ast("loc", how="geocentric", c=components(I, args, kw, ("x", "y", "z"), unit, st, (1, 0, 0)))
    if last == "SkyCoord":
        return sky(I, args, kw, st)
    if last in FRAMES:
        return frame(I, last, args, kw, st)
    no(name)


def components(I, args, kw, names, unit, st, dim):
    vals = list(args)
    for n in names[len(vals):]:
        if n not in kw:
            break
        vals.append(kw.pop(n))
    if kw:
        no(f"argument {sorted(kw)}")
    if len(vals) == 1 and isinstance(vals[0], Ast) and vals[0].kind == "vec":
        vals = list(vals[0].c)
    if len(vals) != 3:
        no("components")
    u = None if unit is None else unit_of(unit)
    out = tuple(of_number(I, v, u, st) for v in vals)
    if any(q.dim != dim for q in out):
        I.raise_("UnitsError", "components of the wrong dimension")
    return out


def angle(I, v, st, unit=None):
    """as an angle: plain numbers are degrees where Astropy says so (unit given)"""
    q = of_number(I, v, unit, st)
    if q.dim != (0, 1, 0):
        I.raise_("UnitTypeError", "not an angle")
    return q


def place(I, args, kw, st):
    for n, v in zip(("lon", "lat", "height", "ellipsoid"), args):
        kw[n] = v
    lon, lat = _ang(I, kw, "lon", st), _ang(I, kw, "lat", st)
    h = kw.pop("height", None)
    if h is None:
        hn = E.ZERO
    else:
        hq = of_number(I, h, None if isinstance(h, Ast) else unit_of("m"), st)
        hn = hq.node
    e = kw.pop("ellipsoid", None)
    if kw or e not in (None, "WGS84"):
        return Ast("loc", how=f"geodetic {e} {sorted(kw)}", lon=lon, lat=lat, h=hn)
    return Ast("loc", how="geodetic", lon=lon, lat=lat, h=hn)


def _ang(I, kw, k, st):
    v = kw.pop(k)
    return angle(I, v, st, None if isinstance(v, Ast) else unit_of("deg"))


def loc_nodes(v):
    if v is None:
        return "", []
    if v.kind != "loc":
        no(f"location {v!r}")
    if v.how == "geocentric":
        return "geocentric", [q.node for q in v.c]
    return v.how, [v.lon.node, v.lat.node, v.h]


def frame(I, name, args, kw, st):
    data = None
    if args:
        if len(args) == 1 and isinstance(args[0], Ast) and args[0].kind == "rep":
            data = args[0]
        elif len(args) == 2:
            data = Ast("sph", c=tuple(angle(I, a, st) for a in args))
        else:
            no(f"{name} of {args!r}")
    obs = kw.pop("obstime", None)
    loc = kw.pop("location", None)
    ll = LATLON.get(name)
    if ll and ll[0] in kw and ll[1] in kw:
        if kw.get("distance") is not None:
            no("distance")
        data = Ast("sph", c=(angle(I, kw.pop(ll[0]), st), angle(I, kw.pop(ll[1]), st)))
    elif "x" in kw:
        data = Ast("rep", c=components(I, [kw.pop(k) for k in "xyz"], {}, ("x", "y", "z"), None, st, (1, 0, 0)), diff=None)
    extra = " ".join(f"{k}={E.show(I.opnode(v, st), 3)}" for k, v in sorted(kw.items()))
    return Ast("frame", name=name, data=data, obs=time_node(I, obs, st), loc=loc, extra=extra)


def time_node(I, v, st):
    if v is None:
        return NODEF
    if isinstance(v, Ast) and v.kind == "time":
        return v.node
    if isinstance(v, (Opq, str)):
        return I.opnode(v, st)
    no(f"instant {v!r}")


def sky(I, args, kw, st):
    if len(args) == 1 and isinstance(args[0], Ast) and args[0].kind == "frame" and not kw:
        return args[0]
    fr = kw.pop("frame", None)
    if args and (isinstance(args[-1], str) or (isinstance(args[-1], Ast) and args[-1].kind == "frame") or (isinstance(args[-1], Ext) and args[-1].name.rpartition(".")[2] in FRAMES)):
        fr = args.pop()
    obs, loc = kw.pop("obstime", None), kw.pop("location", None)
    base = None
    if isinstance(fr, Ast):
        base, name = fr, fr.name
    elif isinstance(fr, Ext):
        name = fr.name.rpartition(".")[2]
    else:
        name = {k.lower(): k for k in FRAMES}.get((fr or "icrs").lower())
    if name is None:
        no(f"frame {fr!r}")
    unit = kw.pop("unit", None)
    if isinstance(unit, tuple):
        units = [unit_of(x) for x in unit]
    else:
        units = [None if unit is None else unit_of(unit)] * 2
    ll = LATLON.get(name, ("lon", "lat"))
    vals = list(args) + [kw.pop(k) for k in ll if k in kw]
    if len(vals) != 2:
        no("components of SkyCoord")
    data = Ast("sph", c=tuple(angle(I, v, st, u) for v, u in zip(vals, units)))
    if name == "ICRS":
        for k in ("equinox",):
            kw.pop(k, None)
        obs = loc = None
    extra = " ".join(f"{k}={E.show(I.opnode(v, st), 3)}" for k, v in sorted(kw.items()))
    if base is not None:
        return Ast("frame", name=name, data=data, obs=base.obs, loc=base.loc, extra=base.extra + extra)
    return Ast("frame", name=name, data=data, obs=time_node(I, obs, st), loc=loc, extra=extra)


def desc(fr):
    how, n = loc_nodes(fr.loc)
    return fr.name + (f"@{how}" if how else "") + (f"[{fr.extra}]" if fr.extra else ""), [*([] if fr.name in ("ICRS",) and fr.obs is NODEF else [fr.obs]), *n]


def transform(I, src, dst, st):
    I.event("astropy", f"transform_to {dst!r}")
    if isinstance(dst, str):
        dst = Ast("frame", name={k.lower(): k for k in FRAMES}.get(dst.lower(), dst), data=None, obs=NODEF, loc=None, extra="")
    if isinstance(dst, Ext):
        dst = Ast("frame", name=dst.name.rpartition(".")[2], data=None, obs=NODEF, loc=None, extra="")
    if not (isinstance(dst, Ast) and dst.kind == "frame") or src.data is None:
        no("transformation")
    s, sn = desc(src)
    d, dn = desc(dst)
    head = f"astro:{s}>{d}"
    data = src.data
    if data.kind == "sph":
        if dst.name not in LATLON:
            no(f"{dst.name} as a sphere")
        a = [q.node for q in data.c] + sn + dn
        v = data.c[0].v
        c = tuple(qty(v, E.rfn(f"{head}:{k}", *a), UNITS["deg"][0], (0, 1, 0), cl) for k, cl in zip(LATLON[dst.name], ("Longitude", "Latitude")))
        return Ast("frame", name=dst.name, data=Ast("sph", c=c), obs=dst.obs, loc=dst.loc, extra=dst.extra)
    # Cartesian components: a linear map of position and velocity together
    p = data.c[0].f
    f = p if data.diff is None or all(E.div(q.f, p) is E.ONE for q in data.diff) else E.ONE
    a = [E.div(q.node, f) for q in data.c] + ([E.div(q.node, f) for q in data.diff] if data.diff else []) + sn + dn
    head += "" if data.diff is None else " with velocity"
    c = tuple(qty(q.v, E.mul(f, E.rfn(f"{head}:{k}", *a)), p, (1, 0, 0)) for k, q in zip("xyz", data.c))
    df = None
    if data.diff is not None:
        df = tuple(qty(q.v, E.mul(f, E.rfn(f"{head}:v{k}", *a)), data.diff[0].f, (1, 0, -1)) for k, q in zip("xyz", data.diff))
    return Ast("frame", name=dst.name, data=Ast("rep", c=c, diff=df), obs=dst.obs, loc=dst.loc, extra=dst.extra)


def separation(I, args, kw, st):
    vals = list(args)
    for n in ("lon1", "lat1", "lon2", "lat2")[len(vals):]:
        vals.append(kw.pop(n))
    if kw or len(vals) != 4:
        no("angular_separation")
    from . import spec as S

    ns = [v.node if isinstance(v, Ast) else I.node_of(v, st) for v in vals]
    n = S.ang_sep(ns[1], ns[0], ns[3], ns[2])
    if all(isinstance(v, Ast) for v in vals):
        return qty(vals[0].v, n, E.ONE, (0, 1, 0), "Angle")
    w = I.wrap(n, [v for v in vals if not isinstance(v, Ast)], st)
    return Sc(w.node, "np", w.t) if isinstance(w, Sc) else w


# ---------------------------------------------------------------- attributes, methods, items
ANGLE = {"deg": "deg", "degree": "deg", "rad": "rad", "radian": "rad", "hour": "hourangle", "hourangle": "hourangle", "arcsec": "arcsec", "arcmin": "arcmin"}


def attr(I, v, name, st):
    k = v.kind
    if k == "qty":
        if name in ("to", "to_value"):
            return Method(v, name)
        if name == "value":
            return value(I, v, st)
        if name in ANGLE and v.dim == (0, 1, 0):
            f = UNITS[ANGLE[name]][0]
            n = E.mod(v.node, E.scale(PI, 2)) if v.cls == "Longitude" and not str(v.node.a[0]).startswith("astro:") else v.node
            return value(I, qty(v.v, n, v.f, v.dim), st, f)
        if name == "unit":
            return Ast("unit", f=v.f, dim=v.dim)
        if name == "si":
            return qty(v.v, v.node, E.ONE, v.dim, v.cls)
        no(f"attribute {name} of a quantity")
    if k == "frame":
        if name in ("transform_to",):
            return Method(v, name)
        if name in ("cartesian", "data") and v.data is not None and v.data.kind == "rep":
            return v.data
        if name == "velocity" and v.data is not None and v.data.kind == "rep" and v.data.diff:
            return Ast("diff", c=v.data.diff)
        if v.data is not None and v.data.kind == "rep" and name in ("x", "y", "z", "v_x", "v_y", "v_z"):
            return (v.data.diff if name[0] == "v" else v.data.c)["xyz".index(name[-1])]
        ll = LATLON.get(v.name)
        if ll and name in ll and v.data is not None and v.data.kind == "sph":
            return v.data.c[ll.index(name)]
        if name == "frame" or name == "icrs" and v.name == "ICRS":
            return v
        if name == "icrs":
            return transform(I, v, "icrs", st)
        no(f"attribute {name} of a frame")
    if k in ("rep", "loc") and v.d.get("c"):
        if name in ("x", "y", "z"):
            return v.c["xyz".index(name)]
        if name == "xyz":
            return Ast("vec", c=v.c)
        if k == "rep" and name == "differentials" and v.diff:
            return Ast("diffs", c=v.diff)
        if name in ("get_xyz", "to_cartesian", "without_differentials"):
            return Method(v, name)
    if k == "diff":
        if name in ("d_x", "d_y", "d_z"):
            return v.c["xyz".index(name[-1])]
        if name == "d_xyz":
            return Ast("vec", c=v.c)
    if k == "vec":
        if name in ("to", "to_value"):
            return Method(v, name)
        if name == "value":
            return tuple(value(I, q, st) for q in v.c)
    if k == "time":
        if name in ("utc",):
            return v
        if name == "sidereal_time":
            return Method(v, name)
    no(f"attribute {name} of a {k}")


def method(I, v, name, args, kw, st):
    if v.kind in ("qty", "vec") and name in ("to", "to_value"):
        u = args[0] if args else kw.get("unit")
        qs = (v,) if v.kind == "qty" else v.c
        if u is None:
            out = tuple(value(I, q, st) for q in qs)
        else:
            u = unit_of(u)
            if any(q.dim != u.dim for q in qs):
                I.raise_("UnitConversionError", "units do not convert")
            if name == "to":
                out = tuple(qty(q.v, q.node, u.f, q.dim, q.cls) for q in qs)
                return out[0] if v.kind == "qty" else Ast("vec", c=out)
            out = tuple(value(I, q, st, u.f) for q in qs)
        return out[0] if v.kind == "qty" else out
    if v.kind == "frame" and name == "transform_to":
        return transform(I, v, args[0] if args else kw["new_frame"], st)
    if v.kind == "rep":
        if name == "get_xyz":
            return Ast("vec", c=v.c)
        if name == "to_cartesian":
            return v
        if name == "without_differentials":
            return Ast("rep", c=v.c, diff=None)
    if v.kind == "time" and name == "sidereal_time":
        I.event("astropy", "sidereal_time")
        kind = args[0] if args else kw.get("kind")
        lon = args[1] if len(args) > 1 else kw.get("longitude")
        if set(kw) - {"kind", "longitude"} or not isinstance(kind, str):
            no("sidereal_time")
        if isinstance(lon, str) or lon is None:
            tmpl, n = Sc(E.ZERO, "np", "float"), E.const(f"longitude {lon}")
        else:
            q = angle(I, lon, st, None if isinstance(lon, Ast) else unit_of("deg"))
            tmpl, n = q.v, q.node
        return qty(tmpl, E.rfn(f"astro:sidereal time {kind}", n, v.node), UNITS["hourangle"][0], (0, 1, 0), "Longitude")
    no(f"method {name} of a {v.kind}")


def item(I, v, i, st):
    if v.kind == "diffs" and i == "s":
        return Ast("diff", c=v.c)
    if v.kind == "vec":
        return v.c[I.int_of(i)]
    no(f"item of a {v.kind}")


def iterate(v):
    if v.kind == "vec":
        return list(v.c)
    no(f"iteration over a {v.kind}")
