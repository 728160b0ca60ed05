"""Signatures of the public functions as documented: name -> parameters in order, "*" keyword-only, "=" default."""

SIGNATURES = {
    "aer.ecef2aer": "x y z lat0 lon0 h0 ell=None deg=True",
    "aer.geodetic2aer": "lat lon h lat0 lon0 h0 ell=None deg=True",
    "aer.aer2geodetic": "az el srange lat0 lon0 h0 ell=None deg=True",
    "aer.eci2aer": "x y z lat0 lon0 h0 t *deg=True *delta_ut1=0.0 *xp=0.0 *yp=0.0",
    "aer.aer2eci": "az el srange lat0 lon0 h0 t ell=None *deg=True *delta_ut1=0.0 *xp=0.0 *yp=0.0",
    "aer.aer2ecef": "az el srange lat0 lon0 alt0 ell=None deg=True",
    "azelradec.azel2radec": "az_deg el_deg lat_deg lon_deg time force_non_astropy=False *delta_ut1=0.0",
    "azelradec.radec2azel": "ra_deg dec_deg lat_deg lon_deg time force_non_astropy=False *delta_ut1=0.0",
    "body.body_matrix": "yaw pitch roll sequence=zyx deg=True",
    "body.ned2body_matrix": "yaw pitch roll sequence=zyx deg=True",
    "body.body2ned_matrix": "yaw pitch roll sequence=zyx deg=True",
    "body.enu2body_matrix": "yaw pitch roll sequence=zyx deg=True",
    "body.body2enu_matrix": "yaw pitch roll sequence=zyx deg=True",
    "body.sez2body_matrix": "yaw pitch roll sequence=zyx deg=True",
    "body.body2sez_matrix": "yaw pitch roll sequence=zyx deg=True",
    "body.nwu2body_matrix": "yaw pitch roll sequence=zyx deg=True",
    "body.body2nwu_matrix": "yaw pitch roll sequence=zyx deg=True",
    "body.ned2body": "n e d yaw pitch roll sequence=zyx deg=True",
    "body.body2ned": "xb yb zb yaw pitch roll sequence=zyx deg=True",
    "body.enu2body": "e n u yaw pitch roll sequence=zyx deg=True",
    "body.body2enu": "xb yb zb yaw pitch roll sequence=zyx deg=True",
    "body.sez2body": "s e z yaw pitch roll sequence=zyx deg=True",
    "body.body2sez": "xb yb zb yaw pitch roll sequence=zyx deg=True",
    "body.nwu2body": "n w u yaw pitch roll sequence=zyx deg=True",
    "body.body2nwu": "xb yb zb yaw pitch roll sequence=zyx deg=True",
    "body.ecef2body": "x y z lat0 lon0 h0 yaw pitch roll ell=None frame=ned sequence=zyx deg=True",
    "body.body2ecef": "xb yb zb lat0 lon0 h0 yaw pitch roll ell=None frame=ned sequence=zyx deg=True",
    "body.ecef2bodyv": "x y z lat0 lon0 yaw pitch roll frame=ned sequence=zyx deg=True",
    "body.body2ecefv": "xb yb zb lat0 lon0 yaw pitch roll frame=ned sequence=zyx deg=True",
    "body.geodetic2body": "lat lon h lat0 lon0 h0 yaw pitch roll ell=None frame=ned sequence=zyx deg=True",
    "body.body2geodetic": "xb yb zb lat0 lon0 h0 yaw pitch roll ell=None frame=ned sequence=zyx deg=True",
    "dca.enu2dca": "e n u heading deg=True",
    "dca.dca2enu": "dr cr above heading deg=True",
    "dca.dca2ned": "dr cr above heading deg=True",
    "dca.ned2dca": "n e d heading deg=True",
    "dca.ecef2dca": "x y z lat0 lon0 h0 heading ell=None deg=True",
    "dca.dca2ecef": "dr cr above lat0 lon0 h0 heading ell=None deg=True",
    "dca.geodetic2dca": "lat lon h lat0 lon0 h0 heading ell=None deg=True",
    "dca.dca2geodetic": "dr cr above lat0 lon0 h0 heading ell=None deg=True",
    "dca.aer2dca": "az el srange heading deg=True",
    "dca.dca2aer": "dr cr above heading deg=True",
    "ecef.geodetic2ecef": "lat lon alt ell=None deg=True",
    "ecef.ecef2geodetic": "x y z ell=None deg=True",
    "ecef.ecef2enuv": "u v w lat0 lon0 deg=True",
    "ecef.ecef2enu": "x y z lat0 lon0 h0 ell=None deg=True",
    "ecef.enu2uvw": "east north up lat0 lon0 deg=True",
    "ecef.uvw2enu": "u v w lat0 lon0 deg=True",
    "ecef.eci2geodetic": "x y z t ell=None *deg=True *delta_ut1=0.0 *xp=0.0 *yp=0.0",
    "ecef.geodetic2eci": "lat lon alt t ell=None *deg=True *delta_ut1=0.0 *xp=0.0 *yp=0.0",
    "ecef.enu2ecef": "e1 n1 u1 lat0 lon0 h0 ell=None deg=True",
    "eci.eci2ecef": "x y z time force_non_astropy=False *delta_ut1=0.0 *xp=0.0 *yp=0.0",
    "eci.ecef2eci": "x y z time force_non_astropy=False *delta_ut1=0.0 *xp=0.0 *yp=0.0",
    "eci.eci2ecef_state": "x y z vx vy vz time force_non_astropy=False *delta_ut1=0.0 *xp=0.0 *yp=0.0",
    "eci.ecef2eci_state": "x y z vx vy vz time force_non_astropy=False *delta_ut1=0.0 *xp=0.0 *yp=0.0",
    "ellipsoid.resolve_ellipsoid": "ell",
    "ellipsoid.ellipsoid_cache_key": "ell",
    "ellipsoid.get_cached_geodesic": "ell",
    "ellipsoid.clear_ellipsoid_caches": "",
    "ellipsoid.Ellipsoid.__init__": "self semimajor_axis semiminor_axis name= model= flattening=None thirdflattening=None eccentricity=None",
    "ellipsoid.Ellipsoid.from_name": "cls name",
    "enu.enu2aer": "e n u deg=True",
    "enu.aer2enu": "az el srange deg=True",
    "enu.enu2geodetic": "e n u lat0 lon0 h0 ell=None deg=True",
    "enu.geodetic2enu": "lat lon h lat0 lon0 h0 ell=None deg=True",
    "enu.enu2ecefv": "e n u lat0 lon0 deg=True",
    "enu.ecef2enu_matrix": "lat0 lon0 deg=True",
    "enu.enu2ecef_matrix": "lat0 lon0 deg=True",
    "haversine.anglesep_meeus": "lon0 lat0 lon1 lat1 deg=True",
    "haversine.anglesep": "lon0 lat0 lon1 lat1 deg=True force_non_astropy=False",
    "haversine.haversine": "theta",
    "karney.geodesic_inverse": "lat1 lon1 lat2 lon2 ell=None deg=True",
    "karney.geodesic_direct": "lat1 lon1 azi1 dist ell=None deg=True",
    "karney.geodesic_line": "lat1 lon1 lat2 lon2 ell=None npts=100 deg=True",
    "karney.geodesic_area": "lats lons ell=None deg=True",
    "latitude.geoc2geod": "geocentric_lat geocentric_distance ell=None deg=True",
    "latitude.geodetic2geocentric": "geodetic_lat alt_m ell=None deg=True",
    "latitude.geocentric2geodetic": "geocentric_lat alt_m ell=None deg=True",
    "latitude.geodetic2isometric": "geodetic_lat ell=None deg=True",
    "latitude.isometric2geodetic": "isometric_lat ell=None deg=True",
    "latitude.conformal2geodetic": "conformal_lat ell=None deg=True",
    "latitude.geodetic2conformal": "geodetic_lat ell=None deg=True",
    "latitude.geodetic2rectifying": "geodetic_lat ell=None deg=True",
    "latitude.rectifying2geodetic": "rectifying_lat ell=None deg=True",
    "latitude.geodetic2authalic": "geodetic_lat ell=None deg=True",
    "latitude.authalic2geodetic": "authalic_lat ell=None deg=True",
    "latitude.geodetic2parametric": "geodetic_lat ell=None deg=True",
    "latitude.parametric2geodetic": "parametric_lat ell=None deg=True",
    "los.lookAtSpheroid": "lat0 lon0 h0 az tilt ell=None deg=True",
    "lox.meridian_dist": "lat ell=None deg=True",
    "lox.meridian_arc": "lat1 lat2 ell=None deg=True",
    "lox.loxodrome_inverse": "lat1 lon1 lat2 lon2 ell=None deg=True",
    "lox.loxodrome_direct": "lat1 lon1 rng a12 ell=None deg=True",
    "lox.departure": "lon1 lon2 lat ell=None deg=True",
    "lox.meanm": "lat lon ell=None deg=True",
    "ned.aer2ned": "az elev slantRange deg=True",
    "ned.ned2aer": "n e d deg=True",
    "ned.ned2geodetic": "n e d lat0 lon0 h0 ell=None deg=True",
    "ned.ned2ecef": "n e d lat0 lon0 h0 ell=None deg=True",
    "ned.ecef2ned": "x y z lat0 lon0 h0 ell=None deg=True",
    "ned.geodetic2ned": "lat lon h lat0 lon0 h0 ell=None deg=True",
    "ned.ecef2nedv": "x y z lat0 lon0 deg=True",
    "ned.ecef2ned_matrix": "lat0 lon0 deg=True",
    "ned.ned2ecef_matrix": "lat0 lon0 deg=True",
    "nvector.geodetic2nvector": "lat lon deg=True",
    "nvector.nvector2geodetic": "n1 n2 n3 deg=True",
    "nvector.ecef2nvector": "x y z ell=None deg=True",
    "nvector.nvector2ecef": "n1 n2 n3 alt=0 ell=None deg=True",
    "nvector.nvector_distance": "n1_1 n1_2 n1_3 n2_1 n2_2 n2_3 radius=None",
    "nvector.nvector_interpolate": "n1_1 n1_2 n1_3 n2_1 n2_2 n2_3 fraction",
    "nvector.nvector_mean": "n1s n2s n3s",
    "nvector.nvector_cross_track_distance": "n1_1 n1_2 n1_3 n2_1 n2_2 n2_3 np_1 np_2 np_3 radius=None",
    "nvector.nvector_intersection": "n1_1 n1_2 n1_3 n2_1 n2_2 n2_3 n3_1 n3_2 n3_3 n4_1 n4_2 n4_3",
    "nwu.aer2nwu": "az elev slantRange deg=True",
    "nwu.nwu2aer": "n w u deg=True",
    "nwu.nwu2geodetic": "n w u lat0 lon0 h0 ell=None deg=True",
    "nwu.nwu2ecef": "n w u lat0 lon0 h0 ell=None deg=True",
    "nwu.nwu2ecefv": "n w u lat0 lon0 deg=True",
    "nwu.ecef2nwu": "x y z lat0 lon0 h0 ell=None deg=True",
    "nwu.ecef2nwuv": "x y z lat0 lon0 deg=True",
    "nwu.geodetic2nwu": "lat lon h lat0 lon0 h0 ell=None deg=True",
    "nwu.ecef2nwu_matrix": "lat0 lon0 deg=True",
    "nwu.nwu2ecef_matrix": "lat0 lon0 deg=True",
    "rcurve.geocentric_radius": "geodetic_lat ell=None deg=True",
    "rcurve.parallel": "lat ell=None deg=True",
    "rcurve.meridian": "lat ell=None deg=True",
    "rcurve.transverse": "lat ell=None deg=True",
    "rsphere.eqavol": "ell=None",
    "rsphere.authalic": "ell=None",
    "rsphere.rectifying": "ell=None",
    "rsphere.euler": "lat1 lon1 lat2 lon2 ell=None deg=True",
    "rsphere.curve": "lat ell=None deg=True method=mean",
    "rsphere.triaxial": "ell=None method=mean",
    "rsphere.biaxial": "ell=None method=mean",
    "sez.aer2sez": "az elev slantRange deg=True",
    "sez.sez2aer": "s e z deg=True",
    "sez.sez2geodetic": "s e z lat0 lon0 h0 ell=None deg=True",
    "sez.sez2ecef": "s e z lat0 lon0 h0 ell=None deg=True",
    "sez.sez2ecefv": "s e z lat0 lon0 deg=True",
    "sez.ecef2sez": "x y z lat0 lon0 h0 ell=None deg=True",
    "sez.ecef2sezv": "x y z lat0 lon0 deg=True",
    "sez.geodetic2sez": "lat lon h lat0 lon0 h0 ell=None deg=True",
    "sez.ecef2sez_matrix": "lat0 lon0 deg=True",
    "sez.sez2ecef_matrix": "lat0 lon0 deg=True",
    "sidereal.datetime2sidereal": "time lon_radians force_non_astropy=False *delta_ut1=0.0",
    "sidereal.juliandate": "time",
    "sidereal.greenwichsrt": "Jdate",
    "spherical.geodetic2spherical": "lat lon alt ell=None deg=True",
    "spherical.spherical2geodetic": "lat lon radius ell=None deg=True",
    "timeconv.str2dt": "time",
    "utils.cart2pol": "x y",
    "utils.pol2cart": "theta rho",
    "utils.cart2sph": "x y z",
    "utils.sph2cart": "az el r",
    "vallado.azel2radec": "az_deg el_deg lat_deg lon_deg time *delta_ut1=0.0",
    "vallado.radec2azel": "ra_deg dec_deg lat_deg lon_deg time *delta_ut1=0.0",
    "vincenty.vdist": "lat1 lon1 lat2 lon2 ell=None deg=True",
    "vincenty.vreckon": "lat1 lon1 rng azim ell=None deg=True",
    "vincenty.track2": "lat1 lon1 lat2 lon2 ell=None npts=100 deg=True",
}
