"""The properties: source of properties.jsonl, of MANIFEST.json and of the per-property part of DESIGN.md."""

ALLPT = ["src/pymap3d/aer.py", "src/pymap3d/ecef.py", "src/pymap3d/enu.py", "src/pymap3d/ned.py", "src/pymap3d/sez.py",
         "src/pymap3d/nwu.py", "src/pymap3d/dca.py", "src/pymap3d/body.py"]
S = "src/pymap3d/"


def P(id, title, statement, over, text, why, files, mech, design, note="", technique="", na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                design=design, note=note, technique=technique, na=na)


VN = "value numbering of the source's dataflow (gated SSA) with normal-form equality; interval abstract interpretation separates unequal terms"

PROPS = [
    P("C01", "Degree and radian calls describe the same angles",
      "For every public function with a deg switch, calling it with deg=False on angles converted to radians gives the same lengths, and the same angles in radians, as calling it with deg=True on degrees. Omitting deg means degrees.",
      ["inputs", "configurations"],
      "all angle, length and ellipsoid values, all functions with a deg parameter, Python floats with and without NumPy and arrays",
      "Tests call most functions in one unit on a handful of angles; a missing or doubled conversion of one argument on one branch (arrays, poles, early returns) stays invisible.",
      ALLPT + [S + "latitude.py", S + "lox.py", S + "vincenty.py", S + "karney.py", S + "rcurve.py", S + "rsphere.py", S + "spherical.py", S + "haversine.py", S + "los.py", S + "nvector.py"],
      [("if deg: radians(...) at entry, degrees(...) at exit", "every function with deg")],
      "Every function of the API table that has `deg` is value-numbered three times: deg=True on degree symbols, deg=False on the same symbols times pi/180, and with deg omitted. The results, converted back, must be the same function of the symbols.",
      technique=VN),
    P("C02", "The given ellipsoid is the only ellipsoid used; omitting it means WGS84",
      "A result computed with an explicit ellipsoid depends on that ellipsoid alone, on every path, and never on WGS84. Omitting the ellipsoid gives exactly the result of passing WGS84.",
      ["inputs", "configurations"],
      "all functions with an ellipsoid argument, all ellipsoids with positive axes and flattening in [0,1), all numeric inputs",
      "Tests use WGS84 almost everywhere, so an ellipsoid dropped on one call of a chain gives the right numbers.",
      ALLPT + [S + "ellipsoid.py", S + "latitude.py", S + "lox.py", S + "vincenty.py", S + "karney.py", S + "los.py"],
      [("resolve_ellipsoid; ell forwarded at every call", "src/pymap3d/ellipsoid.py and every caller")],
      "The built-in WGS84 entry is replaced by free symbols; (a) no result of a call with an explicit ellipsoid may contain them (free-symbol taint), (b) the call without the argument must be value-number equal to the call with the WGS84 symbols passed explicitly.",
      technique="taint (free-symbol) analysis and value numbering over the interprocedural dataflow of the source"),
    P("C03", "Local and body frames are the documented right-angled axes",
      "Local East/North/Up, NED, SEZ and NWU components, their vector and matrix forms, and the downrange and body frames are projections on the documented mutually perpendicular unit axes at the observer (axes given by latitude, longitude, heading, or the yaw-pitch-roll sequence). All forms of one rotation agree with each other.",
      ["inputs"],
      "all latitudes, longitudes, headings, attitudes and vectors, every frame and rotation sequence",
      "Tests sample a few observers; sign or axis errors that cancel at those points or that concern untested frame/sequence combinations survive.",
      ALLPT + [S + "frames.py"],
      [("rotation rows", "src/pymap3d/ecef.py enu2uvw, uvw2enu; src/pymap3d/frames.py; src/pymap3d/body.py")],
      "Each component is proved equal, as a function of all inputs, to the dot product with the reference axis written down in pms/spec.py; matrices are proved entry by entry and, for body sequences, as products of elementary rotations in the given order.",
      technique=VN),
    P("C04", "Composite conversions are compositions of the primitive steps",
      "Every conversion between two distant coordinate systems equals the chain of primitive conversions between them with the observer, height, ellipsoid, angle unit, time and Earth-orientation arguments handed through unchanged. No composite drops, swaps or duplicates an argument.",
      ["inputs", "configurations"],
      "all inputs of all composite conversions, both angle units, all frames",
      "Tests compare composites at one observer with default keyword arguments, where a dropped argument equals its default.",
      ALLPT + [S + "eci.py", S + "nvector.py"],
      [("function composition", "src/pymap3d/aer.py, ned.py, sez.py, nwu.py, dca.py, body.py, nvector.py")],
      "For each composite a law names the chain of primitives; both sides are value-numbered from the current source with the same symbols and compared.",
      technique=VN),
    P("C05", "Paired conversions undo each other",
      "For every pair of conversions offered in both directions in closed form (ENU/NED/SEZ/NWU vectors and points with ECEF, AER, downrange, body, ECI, polar, spherical, n-vector, isometric, parametric, geocentric), applying one and then the other returns the starting coordinates, azimuths and longitudes modulo a full turn. This holds with any matching choice of units, frame, sequence, observer and ellipsoid.",
      ["inputs"],
      "all inputs in the domain on which the pair is one-to-one, all option combinations",
      "Round-trip tests sample one or two points; sign errors that cancel in a round trip at one octant or option do not show.",
      ALLPT + [S + "eci.py", S + "utils.py", S + "nvector.py", S + "latitude.py", S + "spherical.py"],
      [("inverse formulas", "aer2enu/enu2aer, *2ecef/ecef2*, *2body/body2*, enu2dca/dca2enu, eci2ecef/ecef2eci")],
      "The outputs of one direction are fed as value numbers to the other; the result must reduce to the input symbol, or for angles have provably the same sine and cosine.",
      technique=VN),
    P("C06", "Geodetic and ECEF coordinates are related by the ellipsoid's geometry",
      "A geodetic point is the point of the ellipsoid at that latitude and longitude displaced by the height along the outward normal, and the inverse conversion returns longitude exactly, is exact on the surface, on the polar axis and on the equator, has the sign of height right inside and outside, and respects the mirror and rotation symmetries of the ellipsoid.",
      ["inputs"],
      "all latitudes, longitudes, heights and ellipsoids; all ECEF points outside the evolute",
      "Tests use a short list of WGS84 points near the surface; they never vary the ellipsoid's shape and sample neither the special cases nor the interior.",
      [S + "ecef.py", S + "spherical.py", S + "ellipsoid.py"],
      [("geodetic2ecef closed form, ecef2geodetic (You 2000) with special cases", "src/pymap3d/ecef.py")],
      "geodetic2ecef and geodetic2spherical are proved equal to the normal-vector closed form; the on-surface and on-axis behaviour of ecef2geodetic, and its symmetries, are proved by normal forms; the general round trip is only refuted when intervals separate it by more than the method's documented accuracy.",
      technique=VN),
    P("C07", "Auxiliary latitudes follow their definitions and published series",
      "Geocentric, parametric, isometric and conformal latitudes equal their closed-form definitions, rectifying and authalic latitudes and their inverses equal the published series, every one is odd in latitude, fixes the equator and the poles (infinite isometric latitude at a pole), and is the identity on a sphere.",
      ["inputs"],
      "all latitudes, heights and ellipsoids",
      "Tests check a few latitudes on WGS84, where a wrong high-order coefficient is below the tolerance.",
      [S + "latitude.py"],
      [("closed forms and series coefficients", "src/pymap3d/latitude.py")],
      "Value numbers compared with the reference definitions; the coefficient polynomials are compared exactly, term by term.",
      technique=VN),
    P("C08", "Geodesic solvers implement the published Karney and Vincenty algorithms",
      "Geodesic distance, azimuths and end points are those of Karney's sixth-order algorithm, for every pair of points and every oblate ellipsoid: the distance is that of the shortest geodesic, and lines, tracks and perimeters follow it. Vincenty's solvers are those of Vincenty's nested series, and on a sphere both reduce to great circles.",
      ["inputs"],
      "all pairs of points, azimuths, distances, oblate ellipsoids",
      "Tests sample some tens of geodesics on WGS84; wrong high-order coefficients, rare branches (meridional, equatorial, nearly antipodal) and other ellipsoids are not reached.",
      [S + "karney.py", S + "vincenty.py"],
      [("series coefficient tables, Newton and astroid start, branch conditions", "src/pymap3d/karney.py _Geodesic"), ("nested series and iteration", "src/pymap3d/vincenty.py vdist, vreckon")],
      "Each series helper is value-numbered and compared exactly with the expansion of its defining integral, derived in rational arithmetic by the checker; the compositions (lines, perimeters, tracks, Vincenty wrappers) are value-numbered with the solvers opaque and compared exactly; the whole solvers are abstractly evaluated on tiny interval boxes and compared with a reference on spheres and ellipsoids of flattening 1/298 to 1/5. The sign and excess of geodesic_area is a known finding.",
      technique=VN),
    P("C09", "Array calls compute, element by element, what scalar calls compute",
      "Where a function accepts arrays, each element of the result depends only on the corresponding elements of the inputs, equals the scalar result for those elements, and all results of a call on arrays of one shape have that shape (the functions that squeeze may drop axes of length one). An element in a special case (pole, coincident points, inside the ellipsoid) never changes another element, and neither whole-number arrays nor scalar observers among arrays change the values.",
      ["inputs"],
      "all array-accepting functions, all element values, all mixes of ordinary and special elements",
      "Tests pass short arrays of ordinary points; contamination needs a special and an ordinary element together, and a special branch with masks.",
      [S + "ecef.py", S + "enu.py", S + "latitude.py", S + "lox.py", S + "vincenty.py", S + "eci.py", S + "los.py"],
      [("masked stores, where(), broadcasting", "src/pymap3d/ecef.py, enu.py, latitude.py, lox.py, vincenty.py, los.py")],
      "Arrays are abstracted to a generic element; whole-array reductions (.any() in a branch) stay operations and are written out for a second element with symbols of its own. The generic element must be value-number equal to the scalar analysis whatever the second element is; abstract shapes and dtypes (whole numbers) are tracked, and merging an array with a scalar under a whole-array condition is reported.",
      technique="value numbering with a generic-element array domain; dependence (contamination) analysis"),
    P("C10", "Calls have no side effects and keep no history",
      "No public function writes into an array, list or ellipsoid the caller passed, leaves any module state behind that later results depend on, prints or consults clock, randomness or environment. A call's result is the same whatever calls, on whatever ellipsoids, preceded it.",
      ["histories", "inputs"],
      "all public functions, all argument kinds, all sequences of calls",
      "Tests do not compare their inputs before and after, and never interleave ellipsoids through the caches in an order that would expose a wrong cache key.",
      ["src/pymap3d"],
      [("copies before in-place stores", "src/pymap3d/enu.py, vincenty.py, ecef.py"), ("caches keyed by what the value depends on", "src/pymap3d/ellipsoid.py _from_name_cached, get_cached_geodesic")],
      "Effect analysis: every store is attributed to the allocation it may reach (caller memory, fresh memory, module state) through views and aliases; caches are checked by comparing, per function, the call after calls with other symbolic ellipsoids with a fresh call.",
      technique="interprocedural effect and alias analysis on the abstract heap"),
    P("C11", "Everything works without NumPy and gives the same numbers",
      "With only the standard library installed every documented scalar function is usable and returns the same values as with NumPy installed. No result or exception depends on whether NumPy or Astropy happens to be importable, except where Astropy replaces the built-in models by documented choice.",
      ["configurations", "inputs"],
      "all scalar functions and inputs, with and without NumPy",
      "The suite runs in an environment with NumPy; the no-NumPy fallbacks, exception types and name lookups are executed by at most a few tests.",
      [S + "mathfun.py", S + "ecef.py", S + "eci.py", S + "lox.py", S + "latitude.py", S + "vincenty.py"],
      [("try: import numpy / except ImportError fallbacks; except (NameError, AttributeError, TypeError)", "src/pymap3d/mathfun.py and users")],
      "The package is loaded twice in the abstract, with and without NumPy; the value numbers of all results must agree; names only bound by a successful NumPy import must not be reachable without it.",
      technique="configuration-sensitive name resolution and value numbering"),
    P("C12", "Out-of-range inputs are rejected, in-range inputs are not",
      "Functions that document input restrictions (latitude magnitude, nonnegative range or height, number of points or vertices, known method, frame, sequence and model names) raise exactly for inputs outside them, for scalars and for any array element. No other input raises.",
      ["inputs"],
      "all inputs of all functions; any element of arrays",
      "Tests try one bad value per function, in one form; thresholds, units, strictness and array handling are not covered.",
      ["src/pymap3d"],
      [("raise ValueError guards", "enu.py, aer.py, vincenty.py, lox.py, los.py, vallado.py, rsphere.py, frames.py, body.py, karney.py")],
      "The path condition of every raise is value-numbered as a boolean of the inputs and compared with the documented condition; any further raise that is reachable is reported.",
      technique="path-condition (gating) analysis of raise statements by value numbering"),
    P("C13", "Ellipsoid models and derived parameters are consistent",
      "Every ellipsoid's flattening, third flattening and eccentricity are those of its two axes, a named model carries the published axes in metres with the equatorial axis at least the polar one, and lookups by name are faithful. Unknown names are rejected.",
      ["inputs", "configurations"],
      "all axis pairs, all model names",
      "Tests check a few models; one mistyped axis or a derived parameter wrong to first order passes.",
      [S + "ellipsoid.py"],
      [("Ellipsoid.__init__, models, from_name", "src/pymap3d/ellipsoid.py")],
      "Constructor fields are proved against their definitions for symbolic axes; the model table is read from the source and compared with published axes; from_name is value-numbered for every key.",
      technique="value numbering of the constructor and table lint against published constants"),
    P("C14", "ECI and ECEF differ by one rotation built from the IAU models",
      "The inertial to Earth-fixed transform is a rigid rotation, the product polar motion x sidereal rotation x nutation x precession with the IAU-1976/1980 coefficients, its inverse is its transpose, velocities carry the rotation rate, and UT1 and polar-motion inputs act only through their own factors. Every function that accepts the Earth-orientation inputs hands them on.",
      ["inputs"],
      "all positions, velocities, instants, UT1 offsets and polar motions",
      "Tests compare one or two instants against stored numbers with metre-level tolerances; coefficients beyond that are free.",
      [S + "eci.py", S + "earth_orientation.py", S + "aer.py", S + "ecef.py"],
      [("eci_to_ecef_matrix and factors", "src/pymap3d/earth_orientation.py"), ("_apply_rotation, _apply_state_rotation", "src/pymap3d/eci.py")],
      "Factor matrices are value-numbered with symbolic time and compared entry by entry with reference rotations of the published polynomials; the product structure and orthogonality are proved for opaque factor angles.",
      technique=VN),
    P("C15", "Time scales and sidereal time follow their definitions for every instant",
      "UTC handling, leap seconds, Terrestrial Time, Julian date and sidereal time follow their published definitions for every instant, time zone and form of time input; naive times mean UTC. Sidereal time at a longitude is Greenwich apparent sidereal time plus the longitude, in [0, one turn).",
      ["inputs"],
      "all datetimes, offsets, longitudes, sequences and strings of times",
      "Tests use a couple of dates; boundary days of the leap-second table, months 1-2, centuries and time zones are not exercised.",
      [S + "earth_orientation.py", S + "sidereal.py", S + "timeconv.py"],
      [("leap-second table, juliandate, GMST, equation of equinoxes", "src/pymap3d/earth_orientation.py")],
      "The leap-second table is compared with the IERS list and the lookup loop's value with the step function of the table; Julian date, GMST and equation of equinoxes are value-numbered with symbolic calendar fields.",
      technique=VN + "; table lint"),
    P("C16", "Angles come out in their documented ranges and no formula leaves its domain",
      "Azimuths, right ascensions and sidereal times are in [0, 360) (those of the Karney functions in [-180, 180]), latitudes, elevations and declinations in [-90, 90], documented longitudes in their documented interval, distances and radii nonnegative. No square root, logarithm or inverse sine or cosine is evaluated outside its domain for valid input beyond what rounding can cause and code handles.",
      ["inputs"],
      "all valid inputs of all public functions",
      "Tests sample few points per function; a missing modulo or clamp shows up only for particular quadrants or rounding at the domain's edge.",
      ["src/pymap3d"],
      [("% tau, % 360, atan2, clamps", "src/pymap3d/enu.py, vincenty.py, lox.py, vallado.py, nvector.py")],
      "Intervals of each result's value number over a box covering all documented inputs, with the condition of each branch used inside it; arguments of partial functions by sign analysis, Cauchy-type rules, explicit certificates and intervals, each function answering for its own. An inverse sine or cosine of a sum whose exact value reaches the end of its domain must be clamped on that side. Not decided: the Karney and Vincenty inverse iterations, and series latitudes near the poles.",
      technique="interval and range-type abstract interpretation"),
    P("C17", "The command line offers every function and passes every argument faithfully",
      "Each exported function is a subcommand with all its parameters and its own defaults; the values given are converted to the type of the parameter, and the named ellipsoid, angle unit and time reach the function unchanged. What is printed is the function's result, all of it, at the requested precision and format.",
      ["inputs", "configurations"],
      "all exported functions, all combinations of options and values",
      "Tests do not run the command line; it is generated from signatures at run time.",
      [S + "__main__.py", S + "__init__.py"],
      [("_register_commands, _add_parameter_arg, _coerce_value, _call_selected_function, _emit_result", "src/pymap3d/__main__.py")],
      "main() is interpreted abstractly for every command with models of argparse, inspect and json: arguments are texts of a class (decimal, whole number, list, time, word) whose value is a symbol; the call that is reached must receive exactly those symbols, and every shape of symbolic result must be printed completely, at the precision or in the format asked for.",
      technique="abstract interpretation of the command-line layer over all exported signatures"),
    P("C18", "The package surface is complete and consistent",
      "Every name a module or the package advertises exists and is the same object wherever it is exported, signatures keep the documented parameter names, order and defaults, and importing the package needs only the standard library. Functions that are aliases stay aliases.",
      ["configurations"],
      "all exported names and signatures, with and without optional packages",
      "Tests use positional calls of some functions; renamed, reordered or missing exports in others are not noticed.",
      [S + "__init__.py", "src/pymap3d"],
      [("__all__ lists, imports", "src/pymap3d/__init__.py and modules")],
      "Name resolution over the syntax trees of all modules under each configuration; signatures compared with the documented table.",
      technique="name-resolution and signature lint over the syntax trees"),
    P("C19", "Astropy is used only when imported and never when declined",
      "When Astropy has not been imported, or force_non_astropy is given, results come from the built-in models alone; when Astropy is in use the inputs handed to it are the caller's, with the right units, frames and instant. Both routes have the same argument meaning, result order and units.",
      ["configurations", "inputs"],
      "all functions with an Astropy route, all inputs",
      "Tests that compare with Astropy sample one instant; the choice of route depends on what else the process imported.",
      [S + "eci.py", S + "azelradec.py", S + "haversine.py", S + "sidereal.py"],
      [("'astropy' in sys.modules and not force_non_astropy", "src/pymap3d/eci.py, azelradec.py, haversine.py, sidereal.py")],
      "Configuration-sensitive analysis: without Astropy, and with it but declined, no call of an Astropy name may be reachable and value numbers agree; with Astropy, each Astropy constructor's arguments are checked against the caller's inputs and units.",
      technique="configuration-sensitive reachability and value numbering"),
    P("C20", "n-vector functions satisfy their geometric definitions",
      "n-vectors are unit normals of the geodetic latitude and longitude; distance, interpolation, mean, cross-track distance and intersection are those of great circles: symmetric where geometry is, exact at end points, on the great circle, signed by side, on both paths, and independent of the vectors' order where the definition is.",
      ["inputs"],
      "all unit vectors, fractions, radii",
      "Tests use one or two configurations per function.",
      [S + "nvector.py"],
      [("cross and dot product formulas", "src/pymap3d/nvector.py")],
      "Value numbers compared with the vector definitions; symmetry, end-point and membership identities proved under the unit-norm constraint.",
      technique=VN),
    P("C21", "Lengths scale: every result has the dimension its meaning demands",
      "Measuring all lengths (coordinates, heights, ranges, ellipsoid axes) in another unit changes every length in the result by the same factor and leaves angles and ratios unchanged. No result mixes lengths with pure numbers.",
      ["inputs"],
      "all functions, inputs, units of length",
      "A test on one ellipsoid in metres cannot tell a constant that hides a length from a pure number.",
      ["src/pymap3d"],
      [("dimensionally homogeneous formulas", "all modules")],
      "A units type system over value numbers: every sum's terms must have one dimension, arguments of transcendental functions none, and results the declared one; absolute closeness tolerances of at most 1 mm (as in enu2aer) are the only exceptions.",
      technique="dimension (unit) type inference over value numbers"),
    P("C22", "Results respect the symmetries of the ellipsoid",
      "Turning all longitudes by the same angle turns results with them, full turns added to a longitude or azimuth change nothing, and mirroring north-south or east-west mirrors the results. This holds for every conversion, distance and course.",
      ["inputs"],
      "all inputs, all rotation angles",
      "Tests fix one longitude and hemisphere; asymmetries across the antimeridian, the equator or for negative longitudes do not show.",
      ["src/pymap3d"],
      [("longitude differences, trigonometric formulas", "all modules")],
      "Each function is value-numbered a second time on transformed inputs; the result must equal the transformed result of the first.",
      technique=VN),
    P("C23", "Radii of curvature and mean radii equal their definitions",
      "Radii of the parallel, the meridian, the prime vertical, the geocentric radius and the Euler radius in a direction equal their closed forms for every latitude and ellipsoid, and the authalic, rectifying, equal-volume, biaxial and triaxial radii equal their published definitions and reduce to the radius of a sphere.",
      ["inputs"],
      "all latitudes, azimuths and ellipsoids",
      "Tests check single values on WGS84 with loose tolerances, where first-order errors in the flattening pass.",
      [S + "rcurve.py", S + "rsphere.py"],
      [("closed forms", "src/pymap3d/rcurve.py, src/pymap3d/rsphere.py")],
      "Value numbers compared with the reference closed forms for symbolic latitude, semi-major axis and flattening.",
      technique=VN),
    P("C24", "Sky directions and angular separations obey spherical trigonometry",
      "Angular separation is the great-circle angle between the two directions; horizontal and equatorial directions name the same unit vector for the observer's latitude and local sidereal time, each conversion undoes the other, at the poles and the zenith too.",
      ["inputs"],
      "all directions, observers and sidereal times",
      "Tests use one star, place and instant.",
      [S + "haversine.py", S + "vallado.py", S + "azelradec.py"],
      [("spherical triangle formulas", "src/pymap3d/vallado.py, haversine.py")],
      "Sines and cosines of the results are value-numbered and compared with the unit-vector rotation; separation with the reference.",
      technique=VN),
    P("C25", "Rhumb lines, meridian arcs and departures follow their definitions",
      "A rhumb line's azimuth satisfies tan(azimuth) = longitude difference / isometric latitude difference, its length is the meridian arc divided by the cosine of azimuth (the parallel arc when due east or west), the direct problem is its inverse, and departures and meridian arcs are symmetric and additive. The geographic mean is the direction of the summed unit vectors on the authalic sphere.",
      ["inputs"],
      "all pairs of points, azimuths, ranges and ellipsoids",
      "Tests sample few tracks; the near-east-west switch, the short way round and non-WGS84 ellipsoids are barely touched.",
      [S + "lox.py", S + "latitude.py", S + "rcurve.py"],
      [("loxodrome formulas and COS_EPS switch", "src/pymap3d/lox.py")],
      "Value numbers compared with reference formulas on each side of the switch.",
      technique=VN),
    P("C26", "Looking at the ellipsoid returns the first intersection of the ray",
      "The point returned for a direction lies on the given ellipsoid, on the ray from the observer in that direction, and is the nearer intersection; its slant range is the distance to it. Rays that miss give NaN and never a point.",
      ["inputs"],
      "all observers above the surface, directions and ellipsoids",
      "Tests look down from one place on WGS84.",
      [S + "los.py"],
      [("quadratic intersection", "src/pymap3d/los.py lookAtSpheroid")],
      "The point's ECEF expression is substituted in the ellipsoid's equation and normalised to zero; the choice of root and the NaN conditions are compared with the reference quadratic.",
      technique=VN),
]

NOT_APPLICABLE = []
