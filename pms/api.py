"""The public functions of pymap3d as the documentation describes them: what each parameter and
each result is.  Everything a check needs to call a function on symbols comes from this table;
the table does not describe how anything is computed."""

from __future__ import annotations

# module -> function -> (parameters, results)
# parameters: role codes
#   P latitude   Q isometric latitude   L longitude   Z azimuth/heading/yaw/roll   V elevation/pitch
#   T tilt from nadir       h height               m signed length of a local vector        r length >= 0
#   X Y Z-less ECEF points are x,y,z (written "xyz" roles 'c')   v velocity   n unit-vector component
#   t time       k fraction             R radius (positive)
# results: a angle, l length, 1 dimensionless, v velocity, L list of angles, M 3x3 matrix
TABLE = {
    "aer": {
        "ecef2aer": ("x:c y:c z:c lat0:P lon0:L h0:h ell deg", "az:a el:a srange:l"),
        "geodetic2aer": ("lat:P lon:L h:h lat0:P lon0:L h0:h ell deg", "az:a el:a srange:l"),
        "aer2geodetic": ("az:Z el:V srange:r lat0:P lon0:L h0:h ell deg", "lat:a lon:a h:l"),
        "eci2aer": ("x:c y:c z:c lat0:P lon0:L h0:h t:t *deg *delta_ut1:s *xp:s *yp:s", "az:a el:a srange:l"),
        "aer2eci": (
            "az:Z el:V srange:r lat0:P lon0:L h0:h t:t ell *deg *delta_ut1:s *xp:s *yp:s",
            "x:l y:l z:l",
        ),
        "aer2ecef": ("az:Z el:V srange:r lat0:P lon0:L alt0:h ell deg", "x:l y:l z:l"),
    },
    "azelradec": {
        "azel2radec": ("az_deg:Z el_deg:V lat_deg:P lon_deg:L time:t *delta_ut1:s", "ra:a dec:a"),
        "radec2azel": ("ra_deg:Z dec_deg:V lat_deg:P lon_deg:L time:t *delta_ut1:s", "az:a el:a"),
    },
    "vallado": {
        "azel2radec": ("az_deg:Z el_deg:V lat_deg:P lon_deg:L time:t *delta_ut1:s", "ra:a dec:a"),
        "radec2azel": ("ra_deg:Z dec_deg:V lat_deg:P lon_deg:L time:t *delta_ut1:s", "az:a el:a"),
    },
    "body": {
        "body_matrix": ("yaw:Z pitch:V roll:Z sequence deg", "m:M"),
        **{
            f"{a}2{b}_matrix": ("yaw:Z pitch:V roll:Z sequence deg", "m:M")
            for f in ("ned", "enu", "sez", "nwu")
            for a, b in ((f, "body"), ("body", f))
        },
        "ned2body": ("n:m e:m d:m yaw:Z pitch:V roll:Z sequence deg", "x:l y:l z:l"),
        "enu2body": ("e:m n:m u:m yaw:Z pitch:V roll:Z sequence deg", "x:l y:l z:l"),
        "sez2body": ("s:m e:m z:m yaw:Z pitch:V roll:Z sequence deg", "x:l y:l z:l"),
        "nwu2body": ("n:m w:m u:m yaw:Z pitch:V roll:Z sequence deg", "x:l y:l z:l"),
        **{
            f"body2{f}": ("xb:m yb:m zb:m yaw:Z pitch:V roll:Z sequence deg", "x:l y:l z:l")
            for f in ("ned", "enu", "sez", "nwu")
        },
        "ecef2body": ("x:c y:c z:c lat0:P lon0:L h0:h yaw:Z pitch:V roll:Z ell frame sequence deg", "x:l y:l z:l"),
        "body2ecef": ("xb:m yb:m zb:m lat0:P lon0:L h0:h yaw:Z pitch:V roll:Z ell frame sequence deg", "x:l y:l z:l"),
        "ecef2bodyv": ("x:m y:m z:m lat0:P lon0:L yaw:Z pitch:V roll:Z frame sequence deg", "x:l y:l z:l"),
        "body2ecefv": ("xb:m yb:m zb:m lat0:P lon0:L yaw:Z pitch:V roll:Z frame sequence deg", "x:l y:l z:l"),
        "geodetic2body": (
            "lat:P lon:L h:h lat0:P lon0:L h0:h yaw:Z pitch:V roll:Z ell frame sequence deg",
            "x:l y:l z:l",
        ),
        "body2geodetic": (
            "xb:m yb:m zb:m lat0:P lon0:L h0:h yaw:Z pitch:V roll:Z ell frame sequence deg",
            "lat:a lon:a h:l",
        ),
    },
    "dca": {
        "enu2dca": ("e:m n:m u:m heading:Z deg", "dr:l cr:l above:l"),
        "dca2enu": ("dr:m cr:m above:m heading:Z deg", "e:l n:l u:l"),
        "dca2ned": ("dr:m cr:m above:m heading:Z deg", "n:l e:l d:l"),
        "ned2dca": ("n:m e:m d:m heading:Z deg", "dr:l cr:l above:l"),
        "ecef2dca": ("x:c y:c z:c lat0:P lon0:L h0:h heading:Z ell deg", "dr:l cr:l above:l"),
        "dca2ecef": ("dr:m cr:m above:m lat0:P lon0:L h0:h heading:Z ell deg", "x:l y:l z:l"),
        "geodetic2dca": ("lat:P lon:L h:h lat0:P lon0:L h0:h heading:Z ell deg", "dr:l cr:l above:l"),
        "dca2geodetic": ("dr:m cr:m above:m lat0:P lon0:L h0:h heading:Z ell deg", "lat:a lon:a h:l"),
        "aer2dca": ("az:Z el:V srange:r heading:Z deg", "dr:l cr:l above:l"),
        "dca2aer": ("dr:m cr:m above:m heading:Z deg", "az:a el:a srange:l"),
    },
    "ecef": {
        "geodetic2ecef": ("lat:P lon:L alt:h ell deg", "x:l y:l z:l"),
        "ecef2geodetic": ("x:c y:c z:c ell deg", "lat:a lon:a alt:l"),
        "ecef2enuv": ("u:m v:m w:m lat0:P lon0:L deg", "e:l n:l u:l"),
        "ecef2enu": ("x:c y:c z:c lat0:P lon0:L h0:h ell deg", "e:l n:l u:l"),
        "enu2uvw": ("east:m north:m up:m lat0:P lon0:L deg", "u:l v:l w:l"),
        "uvw2enu": ("u:m v:m w:m lat0:P lon0:L deg", "e:l n:l u:l"),
        "eci2geodetic": ("x:c y:c z:c t:t ell *deg *delta_ut1:s *xp:s *yp:s", "lat:a lon:a alt:l"),
        "geodetic2eci": ("lat:P lon:L alt:h t:t ell *deg *delta_ut1:s *xp:s *yp:s", "x:l y:l z:l"),
        "enu2ecef": ("e1:m n1:m u1:m lat0:P lon0:L h0:h ell deg", "x:l y:l z:l"),
    },
    "eci": {
        "eci2ecef": ("x:c y:c z:c time:t *delta_ut1:s *xp:s *yp:s", "x:l y:l z:l"),
        "ecef2eci": ("x:c y:c z:c time:t *delta_ut1:s *xp:s *yp:s", "x:l y:l z:l"),
        "eci2ecef_state": (
            "x:c y:c z:c vx:v vy:v vz:v time:t *delta_ut1:s *xp:s *yp:s",
            "x:l y:l z:l vx:v vy:v vz:v",
        ),
        "ecef2eci_state": (
            "x:c y:c z:c vx:v vy:v vz:v time:t *delta_ut1:s *xp:s *yp:s",
            "x:l y:l z:l vx:v vy:v vz:v",
        ),
    },
    "enu": {
        "enu2aer": ("e:m n:m u:m deg", "az:a el:a srange:l"),
        "aer2enu": ("az:Z el:V srange:r deg", "e:l n:l u:l"),
        "enu2geodetic": ("e:m n:m u:m lat0:P lon0:L h0:h ell deg", "lat:a lon:a h:l"),
        "geodetic2enu": ("lat:P lon:L h:h lat0:P lon0:L h0:h ell deg", "e:l n:l u:l"),
        "enu2ecefv": ("e:m n:m u:m lat0:P lon0:L deg", "u:l v:l w:l"),
        "ecef2enu_matrix": ("lat0:P lon0:L deg", "m:M"),
        "enu2ecef_matrix": ("lat0:P lon0:L deg", "m:M"),
    },
    "haversine": {
        "anglesep_meeus": ("lon0:L lat0:P lon1:L lat1:P deg", "sep:a"),
        "anglesep": ("lon0:L lat0:P lon1:L lat1:P deg", "sep:a"),
    },
    "karney": {
        "geodesic_inverse": ("lat1:P lon1:L lat2:P lon2:L ell deg", "dist:l az1:a az2:a"),
        "geodesic_direct": ("lat1:P lon1:L azi1:Z dist:m ell deg", "lat2:a lon2:a az2:a"),
    },
    "latitude": {
        "geoc2geod": ("geocentric_lat:P geocentric_distance:R ell deg", "lat:a"),
        "geodetic2geocentric": ("geodetic_lat:P alt_m:h ell deg", "lat:a"),
        "geocentric2geodetic": ("geocentric_lat:P alt_m:h ell deg", "lat:a"),
        "geodetic2isometric": ("geodetic_lat:P ell deg", "q:a"),
        "isometric2geodetic": ("isometric_lat:Q ell deg", "lat:a"),
        "conformal2geodetic": ("conformal_lat:P ell deg", "lat:a"),
        "geodetic2conformal": ("geodetic_lat:P ell deg", "lat:a"),
        "geodetic2rectifying": ("geodetic_lat:P ell deg", "lat:a"),
        "rectifying2geodetic": ("rectifying_lat:P ell deg", "lat:a"),
        "geodetic2authalic": ("geodetic_lat:P ell deg", "lat:a"),
        "authalic2geodetic": ("authalic_lat:P ell deg", "lat:a"),
        "geodetic2parametric": ("geodetic_lat:P ell deg", "lat:a"),
        "parametric2geodetic": ("parametric_lat:P ell deg", "lat:a"),
    },
    "los": {"lookAtSpheroid": ("lat0:P lon0:L h0:h az:Z tilt:T ell deg", "lat:a lon:a d:l")},
    "lox": {
        "meridian_dist": ("lat:P ell deg", "d:l"),
        "meridian_arc": ("lat1:P lat2:P ell deg", "d:l"),
        "loxodrome_inverse": ("lat1:P lon1:L lat2:P lon2:L ell deg", "d:l az:a"),
        "loxodrome_direct": ("lat1:P lon1:L rng:r a12:Z ell deg", "lat:a lon:a"),
        "departure": ("lon1:L lon2:L lat:P ell deg", "d:l"),
        "meanm": ("lat:P lon:L ell deg", "lat:a lon:a"),
    },
    "ned": {
        "aer2ned": ("az:Z elev:V slantRange:r deg", "n:l e:l d:l"),
        "ned2aer": ("n:m e:m d:m deg", "az:a el:a srange:l"),
        "ned2geodetic": ("n:m e:m d:m lat0:P lon0:L h0:h ell deg", "lat:a lon:a h:l"),
        "ned2ecef": ("n:m e:m d:m lat0:P lon0:L h0:h ell deg", "x:l y:l z:l"),
        "ecef2ned": ("x:c y:c z:c lat0:P lon0:L h0:h ell deg", "n:l e:l d:l"),
        "geodetic2ned": ("lat:P lon:L h:h lat0:P lon0:L h0:h ell deg", "n:l e:l d:l"),
        "ecef2nedv": ("x:m y:m z:m lat0:P lon0:L deg", "n:l e:l d:l"),
        "ecef2ned_matrix": ("lat0:P lon0:L deg", "m:M"),
        "ned2ecef_matrix": ("lat0:P lon0:L deg", "m:M"),
    },
    "nvector": {
        "geodetic2nvector": ("lat:P lon:L deg", "n1:1 n2:1 n3:1"),
        "nvector2geodetic": ("n1:n n2:n n3:n deg", "lat:a lon:a"),
        "ecef2nvector": ("x:c y:c z:c ell deg", "n1:1 n2:1 n3:1"),
        "nvector2ecef": ("n1:n n2:n n3:n alt:h ell deg", "x:l y:l z:l"),
        "nvector_distance": ("n1_1:n n1_2:n n1_3:n n2_1:n n2_2:n n2_3:n radius:R", "d:l"),
        "nvector_interpolate": ("n1_1:n n1_2:n n1_3:n n2_1:n n2_2:n n2_3:n fraction:k", "n1:1 n2:1 n3:1"),
        "nvector_cross_track_distance": (
            "n1_1:n n1_2:n n1_3:n n2_1:n n2_2:n n2_3:n np_1:n np_2:n np_3:n radius:R",
            "d:l",
        ),
        "nvector_intersection": (
            "n1_1:n n1_2:n n1_3:n n2_1:n n2_2:n n2_3:n n3_1:n n3_2:n n3_3:n n4_1:n n4_2:n n4_3:n",
            "n1:1 n2:1 n3:1",
        ),
    },
    "nwu": {
        "aer2nwu": ("az:Z elev:V slantRange:r deg", "n:l w:l u:l"),
        "nwu2aer": ("n:m w:m u:m deg", "az:a el:a srange:l"),
        "nwu2geodetic": ("n:m w:m u:m lat0:P lon0:L h0:h ell deg", "lat:a lon:a h:l"),
        "nwu2ecef": ("n:m w:m u:m lat0:P lon0:L h0:h ell deg", "x:l y:l z:l"),
        "nwu2ecefv": ("n:m w:m u:m lat0:P lon0:L deg", "u:l v:l w:l"),
        "ecef2nwu": ("x:c y:c z:c lat0:P lon0:L h0:h ell deg", "n:l w:l u:l"),
        "ecef2nwuv": ("x:m y:m z:m lat0:P lon0:L deg", "n:l w:l u:l"),
        "geodetic2nwu": ("lat:P lon:L h:h lat0:P lon0:L h0:h ell deg", "n:l w:l u:l"),
        "ecef2nwu_matrix": ("lat0:P lon0:L deg", "m:M"),
        "nwu2ecef_matrix": ("lat0:P lon0:L deg", "m:M"),
    },
    "rcurve": {
        "geocentric_radius": ("geodetic_lat:P ell deg", "r:l"),
        "parallel": ("lat:P ell deg", "r:l"),
        "meridian": ("lat:P ell deg", "r:l"),
        "transverse": ("lat:P ell deg", "r:l"),
    },
    "rsphere": {
        "eqavol": ("ell", "r:l"),
        "authalic": ("ell", "r:l"),
        "rectifying": ("ell", "r:l"),
        "euler": ("lat1:P lon1:L lat2:P lon2:L ell deg", "r:l"),
        "curve": ("lat:P ell deg method", "r:l"),
        "triaxial": ("ell method", "r:l"),
        "biaxial": ("ell method", "r:l"),
    },
    "sez": {
        "aer2sez": ("az:Z elev:V slantRange:r deg", "s:l e:l z:l"),
        "sez2aer": ("s:m e:m z:m deg", "az:a el:a srange:l"),
        "sez2geodetic": ("s:m e:m z:m lat0:P lon0:L h0:h ell deg", "lat:a lon:a h:l"),
        "sez2ecef": ("s:m e:m z:m lat0:P lon0:L h0:h ell deg", "x:l y:l z:l"),
        "sez2ecefv": ("s:m e:m z:m lat0:P lon0:L deg", "u:l v:l w:l"),
        "ecef2sez": ("x:c y:c z:c lat0:P lon0:L h0:h ell deg", "s:l e:l z:l"),
        "ecef2sezv": ("x:m y:m z:m lat0:P lon0:L deg", "s:l e:l z:l"),
        "geodetic2sez": ("lat:P lon:L h:h lat0:P lon0:L h0:h ell deg", "s:l e:l z:l"),
        "ecef2sez_matrix": ("lat0:P lon0:L deg", "m:M"),
        "sez2ecef_matrix": ("lat0:P lon0:L deg", "m:M"),
    },
    "spherical": {
        "geodetic2spherical": ("lat:P lon:L alt:h ell deg", "lat:a lon:a r:l"),
        "spherical2geodetic": ("lat:P lon:L radius:R ell deg", "lat:a lon:a h:l"),
    },
    "utils": {
        "cart2pol": ("x:m y:m", "theta:A rho:l"),
        "pol2cart": ("theta:A rho:r", "x:l y:l"),
        "cart2sph": ("x:m y:m z:m", "az:A el:A r:l"),
        "sph2cart": ("az:A el:A r:r", "x:l y:l z:l"),
    },
    "vincenty": {
        "vdist": ("lat1:P lon1:L lat2:P lon2:L ell deg", "d:l az:a"),
        "vreckon": ("lat1:P lon1:L rng:r azim:Z ell deg", "lat:a lon:a"),
        "track2": ("lat1:P lon1:L lat2:P lon2:L ell npts deg", "lat:L lon:L"),
    },
    "sidereal": {
        "datetime2sidereal": ("time:t lon_radians:A *delta_ut1:s", "tsr:A"),
    },
}

ANGLES = "PLZVTQ"  # roles that follow the deg switch
FLAGS = {"ell", "deg", "sequence", "frame", "method", "npts"}

# never-vectorised by documentation/implementation: scalars only
SCALAR_ONLY = {
    "karney.geodesic_inverse", "karney.geodesic_direct", "vallado.azel2radec", "vallado.radec2azel",
    "azelradec.azel2radec", "azelradec.radec2azel", "nvector.nvector_interpolate",
    "nvector.nvector_intersection", "vincenty.track2", "sidereal.datetime2sidereal",
}


class Par:
    __slots__ = ("name", "role", "kwonly")

    def __init__(self, name, role, kwonly):
        self.name, self.role, self.kwonly = name, role, kwonly


class Sig:
    def __init__(self, mod, name, params, outs):
        self.mod, self.name = mod, name
        self.key = f"{mod}.{name}"
        self.pars = []
        for p in params.split():
            kw = p.startswith("*")
            p = p.lstrip("*")
            n, _, r = p.partition(":")
            self.pars.append(Par(n, r or n, kw))
        self.outs = [tuple(o.split(":")) for o in outs.split()]

    @property
    def numeric(self):
        return [p for p in self.pars if p.role not in FLAGS]

    def has(self, n):
        return any(p.name == n for p in self.pars)


SIGS = {f"{m}.{f}": Sig(m, f, *d) for m, fs in TABLE.items() for f, d in fs.items()}
