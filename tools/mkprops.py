#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that the text stays readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))


CORE, OBJ, ROT, UTIL = ('src/nvector/core.py', 'src/nvector/objects.py',
                        'src/nvector/rotation.py', 'src/nvector/util.py')

prop('C01', 'Latitude/longitude and n-vector are exact inverses everywhere',
     'For every latitude in [-90, 90] deg, every longitude and every orientation of the E axes, the n-vector computed '
     'from latitude and longitude is a unit vector equal, to rounding error, to the outward ellipsoid normal at that '
     'place, and converting it back gives the same latitude and the same longitude (modulo a full turn), including '
     'arbitrarily close to the poles and across the antimeridian. Every n-vector converts to a latitude within '
     '[-90, 90] deg and a longitude within [-180, 180] deg that describe the same direction. '
     'The same holds for GeoPoint <-> Nvector objects, which also keep the depth and the frame.',
     ['inputs', 'configurations'],
     'all latitudes/longitudes (radians or degrees), all n-vectors, both axes conventions and arbitrary rotation '
     'matrices R_Ee, scalar and vector inputs, any depth',
     'The tests convert two scalar points and two short vectors, all in the first quadrant, with the default axes; a '
     'loss of precision near the poles, a wrong quadrant or a wrong axes convention stays unseen.',
     [CORE, ROT, OBJ],
     [('lat_lon2n_E', CORE), ('n_E2lat_lon', ROT), ('GeoPoint.to_nvector', OBJ), ('Nvector.to_geo_point', OBJ)],
     ['lat_lon2n_E', 'n_E2lat_lon', 'GeoPoint.to_nvector', 'Nvector.to_geo_point'])

prop('C02', 'Position plus depth to ECEF vector is exact for every ellipsoid',
     'For every horizontal position, every depth or height, every ellipsoid (semi-major axis a > 0, flattening f, '
     'sphere f=0 included) and every orientation of the E axes, the Cartesian position vector equals, to rounding '
     'error, the textbook geodetic formula: the point on the ellipsoid surface with that normal, moved by the depth '
     'against the normal. The default ellipsoid of the functions and of FrameE is WGS-84.',
     ['inputs', 'configurations'],
     'all positions, depths from -1e8 m (space) to deep inside the Earth, all ellipsoids, axes e/E/arbitrary, '
     'functional and object API',
     'The tests check one point on WGS-84 to 1e-7 relative; errors that show at other latitudes, depths, '
     'ellipsoids or axes are invisible.',
     [CORE, OBJ], [('n_EB_E2p_EB_E (equation 22)', CORE), ('Nvector.to_ecef_vector', OBJ),
                   ('GeoPoint.to_ecef_vector', OBJ)],
     ['n_EB_E2p_EB_E', 'to_ecef_vector'])

prop('C03', 'ECEF vector to position and depth is the exact inverse',
     'For every Cartesian position vector that is not deep in the interior of the Earth, the returned n-vector is a '
     'unit vector and n-vector and depth are, to rounding error, the geodetic position of that point on the given '
     'ellipsoid: converting them back reproduces the vector and converting from a known latitude, longitude and depth '
     'recovers them. It holds on the equator, on the polar axis, in space, below the surface, for spheres and '
     'ellipsoids and for every orientation of the E axes.',
     ['inputs', 'configurations'],
     'all positions with |depth| up to half the Earth radius downwards and 1e8 m or more upwards, all ellipsoids with '
     '|f| <= 1/5, all axes, scalar and vector inputs',
     'The tests check one point on WGS-84 and one on WGS-72; the closed-form equation has degenerate branches '
     '(f=0, pole, equator) and cancellation that only appear elsewhere.',
     [CORE, UTIL, OBJ], [('p_EB_E2n_EB_E', CORE), ('_equation23/_compute_k', CORE), ('nthroot', UTIL),
                         ('ECEFvector.to_nvector', OBJ)],
     ['p_EB_E2n_EB_E', 'ECEFvector.to_nvector', 'ECEFvector.to_geo_point'])

prop('C04', 'Difference vectors between positions are exact and compose',
     'The vector from A to B decomposed in E equals the difference of their exact ECEF positions, so it is '
     'antisymmetric, adds up along any chain of positions, and adding it to A gives back B (horizontal position and '
     'depth). This holds for the functional API and for delta_E and ECEF vector addition, subtraction and negation, '
     'for any mix of position types, depths, ellipsoids and axes.',
     ['inputs', 'configurations'],
     'all pairs and triples of positions with depths on all ellipsoids and axes',
     'The tests evaluate two fixed pairs; a depth, ellipsoid or axes argument that is dropped or swapped for one of '
     'the two positions changes only other inputs.',
     [CORE, OBJ], [('n_EA_E_and_n_EB_E2p_AB_E', CORE), ('n_EA_E_and_p_AB_E2n_EB_E', CORE), ('delta_E', OBJ),
                   ('ECEFvector.__add__/__sub__/__neg__', OBJ)],
     ['delta_E', 'n_EA_E_and_p_AB_E2n_EB_E', 'n_EA_E_and_n_EB_E2p_AB_E'])

prop('C05', 'Local frames N, L and B are oriented as defined and convert both ways',
     'At every position outside the poles the rotation matrix of N is right-handed orthonormal with axes north, east '
     'and down at that position; L is N turned about the down axis by the wander azimuth; B is N followed by yaw, '
     'pitch and roll; at the poles they are still right-handed orthonormal with z down. R_EN and R_EL return their '
     'n-vector through R_EN2n_E/R_EL2n_E. A vector taken from E to such a frame (change_frame, delta_N, delta_L, '
     'delta_to) and back (to_ecef_vector) is unchanged, and its components in the frame are the projections on those axes.',
     ['inputs', 'configurations'],
     'all positions incl. poles, wander azimuths, yaw/pitch/roll (radians or degrees), all axes conventions, scalar '
     'and vector positions, any vector to convert',
     'The tests look at a handful of positions near the equator and one body attitude; signs or orders that '
     'agree there can differ elsewhere.',
     [ROT, OBJ], [('n_E2R_EN', ROT), ('n_E_and_wa2R_EL', ROT), ('FrameN/FrameL/FrameB.R_EN', OBJ),
                  ('ECEFvector.change_frame', OBJ), ('Pvector.to_ecef_vector', OBJ), ('delta_N/delta_L', OBJ)],
     ['FrameN.R_EN', 'FrameL.R_EN', 'FrameB.R_EN', 'change_frame', 'to_ecef_vector'])

prop('C06', 'Euler angles and rotation matrices convert exactly, singular cases too',
     'xyz2R and zyx2R return the proper rotation matrix that is the product of the three elementary rotations about '
     'the successive new axes. For every rotation matrix, R2xyz and R2zyx return angles in their documented ranges '
     'that reproduce that matrix to rounding error, including at and near the +/-90 deg singularity of the middle angle.',
     ['inputs'],
     'all triples of angles (any size), all rotation matrices including exact and near gimbal lock, scalars and '
     'vectors (with broadcasting)',
     'The tests use three small triples of angles and single-axis 90 degree turns.',
     [ROT], [('xyz2R', ROT), ('zyx2R', ROT), ('R2xyz', ROT), ('R2zyx', ROT)],
     ['xyz2R', 'zyx2R', 'R2xyz', 'R2zyx'])

prop('C07', 'Great circle and Euclidean distances are accurate for all separations',
     'The great circle distance between two positions equals radius times the exact angle between their n-vectors and '
     'the Euclidean distance equals radius times the chord, each with full floating point accuracy from coincident '
     'through millimetres to antipodal separations. Both are non-negative, symmetric and zero for equal positions. '
     'The path versions use the mean distance of the endpoints from the Earth centre as default radius, the given '
     'radius otherwise.',
     ['inputs'],
     'all pairs of positions at all separations (1e-12 rad to pi), all radii, functional API, GeoPath.track_distance '
     'and GeoPoint.distance_and_azimuth(method="greatcircle")',
     'The tests use one pair 333 km apart; formulas that lose digits for small or near-antipodal angles pass.',
     [CORE, OBJ], [('great_circle_distance', CORE), ('euclidean_distance', CORE), ('GeoPath.track_distance', OBJ),
                   ('GeoPoint._distance_and_azimuth_greatcircle', OBJ)],
     ['great_circle_distance', 'euclidean_distance', 'GeoPath.track_distance', 'GeoPoint.distance_and_azimuth'])

prop('C08', 'Great circle destination and azimuth solve the spherical problem exactly',
     'Going a distance from a position in an azimuth ends at the exact spherical destination (a unit n-vector at that '
     'angular distance in that direction, for zero, negative and more than half-way-round distances as well), and '
     'azimuths are measured clockwise from north at each end. Destination and distance/azimuth are inverse to each '
     'other, in the functions and, for method="greatcircle", in displace and distance_and_azimuth on a sphere, for '
     'every axes orientation, in radians and degrees, keeping depth. n_EA_E_and_n_EB_E2azimuth gives the exact '
     'azimuth from A to B on the given ellipsoid.',
     ['inputs', 'configurations'],
     'all start positions incl. the poles, azimuths, distances (any sign and size), depths, axes, degrees flag',
     'The tests go 1 km from one point and between two points near the north pole with the default axes.',
     [CORE, OBJ], [('n_EA_E_distance_and_azimuth2n_EB_E', CORE), ('n_EA_E_and_n_EB_E2azimuth', CORE),
                   ('GeoPoint._displace_great_circle', OBJ), ('GeoPoint._distance_and_azimuth_greatcircle', OBJ)],
     ['n_EA_E_distance_and_azimuth2n_EB_E', 'n_EA_E_and_n_EB_E2azimuth', 'GeoPoint.displace',
      'GeoPoint.distance_and_azimuth'])

prop('C09', 'Ellipsoidal distance and azimuths solve the inverse geodesic problem',
     'For every pair of positions, ellipsoid and depth, FrameE.inverse and '
     'GeoPoint.distance_and_azimuth/GeoPath.track_distance (ellipsoidal) return the length of the shortest geodesic on '
     'the ellipsoid of semi-major axis a minus depth (mean depth of the two points) and same flattening, with its azimuths '
     'at both ends, agreeing with an independent geodesic solver, in radians or degrees. Latitudes outside [-90, 90] '
     'deg give NaN, never a number.',
     ['inputs', 'configurations'],
     'all pairs of positions incl. poles, meridional, equatorial, near-antipodal, any longitudes, all ellipsoids with '
     '|f| <= 1/50, depths, degrees flag, scalar and vector inputs',
     'The tests use a table of 20 geodesics on WGS-84 at zero depth; depth, other ellipsoids, vectors, radians '
     'and out-of-range inputs are not covered.',
     [OBJ], [('FrameE.inverse', OBJ), ('FrameE._inverse', OBJ), ('GeoPoint._distance_and_azimuth_ellipsoid', OBJ),
             ('GeoPath.track_distance', OBJ)],
     ['FrameE.inverse', 'GeoPoint.distance_and_azimuth', 'GeoPath.track_distance'])

prop('C10', 'Ellipsoidal displacement solves the direct geodesic problem',
     'For every start, azimuth, distance (negative and several turns included), ellipsoid and depth, FrameE.direct and '
     'GeoPoint.displace (ellipsoid) return the end point and end azimuth of that geodesic on the ellipsoid of '
     'semi-major axis a minus depth, agreeing with an independent solver, in radians or degrees, and undo the inverse '
     'problem. With long_unroll the longitude counts the turns from the given start longitude, otherwise it lies in '
     '[-180, 180] deg; displace keeps depth and frame, and latitudes outside [-90, 90] deg give NaN.',
     ['inputs', 'configurations'],
     'all starts incl. poles, azimuths, distances up to several circumferences, ellipsoids with |f| <= 1/50, depths, '
     'long_unroll and degrees flags, scalar and vector inputs',
     'The tests use the same 20 WGS-84 geodesics; depth, unrolling, radians and round trips are barely touched.',
     [OBJ], [('FrameE.direct', OBJ), ('FrameE._direct', OBJ), ('FrameE._outmask', OBJ),
             ('GeoPoint._displace_ellipsoid', OBJ)],
     ['FrameE.direct', 'GeoPoint.displace'])

prop('C11', 'Interpolating along a path gives the exact point on the path',
     'For every path and every fraction t, interpolate returns the unit n-vector in direction A + t(B - A): it lies on '
     'the great circle through A and B, equals A at t=0 and B at t=1, lies strictly between for 0<t<1, divides the '
     'chord in the ratio t (also when extrapolating), and the object version interpolates depth linearly in t and keeps '
     'the frame. Where the direction vanishes the n-vector is NaN, not an arbitrary point.',
     ['inputs'],
     'all pairs of positions and depths, all real t inside and outside [0, 1], scalar and vector t, all position types',
     'The tests interpolate one polar path at t=0.6 and short equatorial paths at a few t.',
     [CORE, OBJ], [('interpolate', CORE), ('GeoPath.interpolate', OBJ), ('Nvector arithmetic', OBJ), ('unit', UTIL)],
     ['interpolate', 'GeoPath.interpolate'])

prop('C12', 'Track interpolation reproduces samples and stays on the unit sphere',
     'Interpolating a track of timed n-vectors (and depths) returns unit n-vectors, reproduces the samples at the '
     'sample times for every interpolation kind, gives the normalized straight-line/nearest/previous/spline value in '
     'between, and NaN for times outside the track. With smoothing the samples are first replaced by the '
     'Savitzky-Golay polynomial fit of the given window (made odd), order and edge mode. Shifting or scaling time '
     'changes nothing, nor does (without smoothing) reordering samples together with their times; the object version '
     'treats depth likewise.',
     ['inputs', 'configurations'],
     'all tracks (2 to 40 samples, irregular times), query times, kinds, window lengths, polynomial orders, edge '
     'modes, depth scalar or vector',
     'Only doctests that draw one cubic track; no numeric result is checked.',
     [CORE, OBJ], [('interp_nvectors', CORE), ('_interp_vectors', CORE), ('Nvector.interpolate', OBJ)],
     ['interp_nvectors', 'Nvector.interpolate'])

prop('C13', 'Path intersection lies on both great circles, nearest to the start',
     'For any two paths whose great circles differ, intersect returns a unit n-vector lying on both great circles, and '
     'of the two antipodal solutions the one nearest to the start of the first path; it does not depend on the '
     'direction of the second path or on how far the defining points are apart. The object version gives the mean '
     'depth of the four points in the frame of the first path. Paths that define the same great circle by the same '
     'points, and degenerate paths, give NaN with a warning.',
     ['inputs'],
     'all quadruples of positions, scalar paths, several paths at once and one path against many; ties, nearly '
     'parallel circles and identical paths included',
     'The tests intersect one pair of paths and one identical pair.',
     [CORE, OBJ], [('intersect', CORE), ('GeoPath.intersect', OBJ)], ['intersect', 'GeoPath.intersect'])

prop('C14', 'Cross track distance is the signed distance to the great circle',
     'The cross track distance equals, with full accuracy, radius times the exact signed angle between the position '
     'and the great circle through the path (Euclidean method: radius times its sine): positive to the right of the '
     'direction of travel, negative to the left, zero on the circle, sign-reversed when the path is reversed, '
     'never larger than a quarter turn and never NaN for a proper path. Its magnitude equals the distance to the '
     'closest point of the great circle; the path version uses the mean endpoint radius unless one is given.',
     ['inputs'],
     'all paths (1e-6 rad to nearly antipodal) and positions (on the circle, near it, far away, at its pole), both '
     'methods, radii, scalar and vector inputs',
     'The tests use one meridian path and offsets due east of it; all positive.',
     [CORE, OBJ], [('cross_track_distance', CORE), ('great_circle_normal', CORE),
                   ('GeoPath.cross_track_distance', OBJ)],
     ['cross_track_distance', 'great_circle_normal', 'GeoPath.cross_track_distance'])

prop('C15', 'Closest point on a great circle or path segment is really closest',
     'closest_point_on_great_circle returns a unit n-vector on the great circle of the path that is at least as close '
     'to the given position as any other point of that circle. closest_point_on_path returns a point of the segment '
     'between the endpoints that is at least as close (great circle distance) as any other point of the segment: the '
     'foot point if it lies within the segment, otherwise the nearer endpoint. Object results on the great circle '
     'have the mean depth of the endpoints.',
     ['inputs'],
     'all paths and positions, including positions at the pole of the path, beyond the ends, behind the globe, paths '
     'longer than 120 degrees, long and very short paths, all position types',
     'The tests use a one-degree path and a meridian path with points next to them or just beyond the ends.',
     [CORE, OBJ], [('closest_point_on_great_circle', CORE), ('GeoPath.closest_point_on_great_circle', OBJ),
                   ('GeoPath._closest_point_on_path', OBJ)],
     ['closest_point_on_great_circle', 'GeoPath.closest_point_on_great_circle', 'GeoPath.closest_point_on_path'])

prop('C16', 'On-path and on-great-circle tests accept exactly the points on the path',
     'on_great_circle is true exactly when the position is within the tolerance atol of the great circle, and on_path '
     '(great circle or ellipsoid method) is true for positions on the path between its endpoints, endpoints included, '
     'at its mean depth, and false for positions off the path, beyond either end, on the far side of the globe or at '
     'another depth, whenever the deviation clearly exceeds the tolerance. This holds for paths of any direction '
     'and length and all position types.',
     ['inputs'],
     'all paths shorter than half a turn in all directions (meridional, across antimeridian and poles), points at '
     'controlled along- and cross-track offsets and depth offsets, tolerances, both methods',
     'The tests use northward/southward 1-degree paths at longitude 0.',
     [CORE, OBJ], [('on_great_circle', CORE), ('on_great_circle_path', CORE), ('GeoPath.on_great_circle', OBJ),
                   ('GeoPath._on_great_circle_path', OBJ), ('GeoPath._on_ellipsoid_path', OBJ)],
     ['on_great_circle', 'on_great_circle_path', 'GeoPath.on_path', 'GeoPath.on_great_circle'])

prop('C17', 'Mean position is the normalized sum, independent of order and place',
     'The mean horizontal position of any set of positions is the unit vector in the direction of the sum of their '
     'n-vectors: it does not depend on their order or on repeating the whole set, the mean of equal positions is that '
     'position, it turns along when all positions are rotated, and no point with a larger summed cosine exists. The '
     'object version also returns the mean depth and keeps the frame.',
     ['inputs'],
     'all sets of 1 to 60 positions (clustered, global, crossing pole/antimeridian) whose n-vectors do not cancel, '
     'with depths',
     'The tests average one fixed set of three positions at zero depth.',
     [CORE, OBJ], [('mean_horizontal_position', CORE), ('Nvector.mean', OBJ)],
     ['mean_horizontal_position', 'Nvector.mean'])

prop('C18', 'Vectorized calls give exactly what point-by-point calls give',
     'Calling any function or method with n positions (paths, distances, azimuths, angles, depths) at once returns, '
     'for every index, the same result as calling it with that position alone, for every n, and a single '
     'position or path combined with n others is paired with each of them. No result leaks between columns, whatever '
     'the other columns hold (poles, zero vectors, coincident points).',
     ['inputs'],
     'all vectorized functions and methods of the functional and object API, n from 1 to 17 plus longer, mixed '
     'special and ordinary columns, one-to-many combinations (closest_point_on_path and scalar-only arguments, '
     'documented as not vectorized, are out)',
     'Few tests pass vectors at all and none for the great circle functions with several positions on both sides.',
     [CORE, OBJ, ROT, UTIL], [('all vectorized functions', CORE), ('mdot', UTIL), ('unit', UTIL),
                              ('FrameE.inverse/direct', OBJ)],
     ['whole public API'])

prop('C19', 'Results do not depend on the orientation chosen for the E axes',
     'Solving any geographic problem (conversions, differences in N, L or B, distances, azimuths, displacement, '
     'interpolation, intersection, cross track, closest point, mean, on-path) in frames that differ only in the axes '
     'option gives the same latitudes, longitudes, depths, distances, azimuths and local components; E-frame vectors '
     'differ exactly by the rotation between the two axes conventions.',
     ['inputs', 'configurations'],
     'all positions, operations, ellipsoids, with axes "e" and "E" (object API) and arbitrary R_Ee (functional API)',
     'No test uses anything but the default axes.',
     [OBJ, CORE, ROT], [('FrameE.R_Ee', OBJ), ('E_rotation', ROT), ('R_Ee arguments', CORE)],
     ['whole object API'])

prop('C20', 'Position types and the two APIs are interchangeable',
     'GeoPoint, Nvector and ECEFvector objects describing the same position give the same result wherever a position '
     'is accepted (differences, local frames, paths, distances, conversions), conversion chains between them return '
     'to the same position in the same frame, and object results equal the corresponding functional results. The '
     'deprecated names return what their replacements return, and angle inputs in degrees equal those in radians.',
     ['inputs', 'configurations'],
     'all positions with depth, ellipsoids, all combinations of position types per argument, all methods taking '
     'positions',
     'The tests use GeoPoint nearly everywhere and compare only three conversions.',
     [OBJ], [('to_ecef_vector/to_nvector/to_geo_point', OBJ), ('delta_E/delta_N/delta_L', OBJ), ('GeoPath', OBJ)],
     ['whole object API'])

prop('C21', 'Positions of different reference frames are never combined silently',
     'Adding or subtracting Nvectors or ECEF vectors, taking differences (delta_E/N/L, delta_to), '
     'distance_and_azimuth, interpolating a path, or changing an ECEF vector to a local frame raises ValueError when '
     'the Earth frames differ in semi-major axis, flattening or axes, and never does when they are equal, however the '
     'equal frames were constructed or named. Results stay in the frame of the operands.',
     ['inputs', 'configurations'],
     'all pairs of frames (named, custom, axes), all position types, all combining operations',
     'No test combines positions of different frames.',
     [OBJ], [('_check_frames', OBJ), ('FrameE._is_equal_to', OBJ), ('_default_frame', OBJ)],
     ['ECEFvector.__add__/__sub__', 'Nvector.__add__/__sub__', 'delta_*', 'distance_and_azimuth', 'change_frame'])

prop('C22', 'Equality of positions and frames is a sound tolerance comparison',
     'Comparing positions and frames is reflexive and symmetric, != is the negation of ==, differences at rounding '
     'level (a few units in the last place of angles, 1e-13 relative elsewhere) are equal, and any difference clearly '
     'above the tolerance (1e-14 rad for angles, 1e-12 relative elsewhere) in any component, depth or frame parameter '
     'or in any element of a vector makes them unequal. Longitudes that differ by full turns '
     'are equal; comparing with another type of object or with incompatible shape is False, never an error. isclose '
     'and allclose follow their documented symmetric formula, including for infinities and NaN.',
     ['inputs'],
     'all pairs of positions/frames/local frames that are equal, nearly equal or differ in exactly one attribute, '
     'arbitrary other objects; all float pairs and tolerances for isclose/allclose',
     'The tests compare a dozen fixed frames and a few points.',
     [OBJ, UTIL], [('_Common.__eq__/__ne__', OBJ), ('_is_equal_to', OBJ), ('isclose', UTIL), ('allclose', UTIL)],
     ['==', '!=', 'isclose', 'allclose'])

prop('C23', 'Named ellipsoids resolve to the right parameters',
     'Every documented ellipsoid name or number resolves, independent of case and spaces, to the semi-major axis and '
     'flattening published for that ellipsoid, FrameE(name) uses exactly those, explicit a and f override them, and '
     'an unknown name raises KeyError rather than giving another ellipsoid.',
     ['inputs', 'configurations'],
     'all documented names, aliases and numbers in any spelling by case and blanks, arbitrary other strings and '
     'numbers, partial and full a/f overrides',
     'The tests look up WGS84 aliases and WGS 72 only.',
     [UTIL, OBJ], [('ELLIPSOID/ELLIPSOID_IX tables', UTIL), ('get_ellipsoid', UTIL), ('FrameE.__init__', OBJ)],
     ['get_ellipsoid', 'select_ellipsoid', 'FrameE'])

prop('C24', 'Calls have no side effects and no memory',
     'No function or method changes its arguments, the objects it is called on (except Nvector.unit, which normalizes '
     'its object) or the library defaults, so in any sequence of operations every object keeps its value '
     'and every call returns the same result as the same call made first in a fresh process state, also '
     'after the caller overwrites arrays that earlier calls returned, or assigns new values to attributes of its '
     'objects: results depend on the present values only.',
     ['histories', 'inputs'],
     'all sequences of operations on a shared pool of positions, paths, frames and arrays, with attributes assigned '
     'and arrays written to by the caller between them',
     'Each test performs one short computation on fresh objects and never re-examines its inputs.',
     [OBJ, CORE, ROT, UTIL], [('unit (fresh result array)', UTIL), ('n_E2R_EN (in-place pole handling)', ROT),
                              ('GeoPath.interpolate (re-normalizes a fresh object)', OBJ),
                              ('E_ROTATION_MATRIX (shared constant)', ROT)],
     ['whole public API'])

prop('C25', 'All longitudes and both hemispheres are treated alike',
     'Shifting every longitude by the same amount (also by full turns) shifts resulting longitudes by that amount and '
     'leaves latitudes, depths, distances, azimuths, local components and yes/no answers unchanged; mirroring all '
     'positions in the equator negates latitudes, maps azimuth az to 180 - az and flips the cross track sign. '
     'Spherical functions are equivariant under every rotation of all n-vectors.',
     ['inputs'],
     'all problems solved by the library, all shifts, mirrored positions, arbitrary rotations for the spherical '
     'functions',
     'The tests sit at a few fixed places; a special treatment of one longitude range or hemisphere is unseen.',
     [CORE, OBJ], [('n-vector algebra', CORE), ('object API', OBJ)], ['whole public API'])

prop('C26', 'Numeric building blocks keep their documented contracts',
     'unit returns for every non-zero column a vector of length one with the same direction and for a zero column '
     '[1, 0, 0], leaving other columns untouched; mdot equals the matrix product taken item by item; nthroot returns '
     'the real root to machine precision including at zero; deg and rad convert exactly, are inverse, and handle any '
     'number of arguments in order.',
     ['inputs'],
     'all vectors over a wide range of magnitudes (whose squares neither under- nor overflow), column counts, positions of zero columns, array shapes for mdot, '
     'non-negative x and integer n, any number of angles',
     'Only doctest examples with one or two values.',
     [UTIL], [('unit', UTIL), ('mdot', UTIL), ('nthroot', UTIL), ('deg/rad', UTIL)],
     ['unit', 'mdot', 'nthroot', 'deg', 'rad'])

prop('C27', 'Scalar positions give scalar results, vectors give vectors',
     'When all positions involved are scalar, distances, azimuths, lengths, depths, latitudes, longitudes and on-path '
     'answers of the object API are scalars; when any position is a vector of n (also n=1) they are vectors '
     'of length n, in every chain of conversions. The scalar property of a position reports which one it is, and '
     'conversions preserve it.',
     ['inputs'],
     'all object methods with scalar, one-element and n-element positions, in all conversion chains and mixtures',
     'The tests check two conversion chains for one scalar and one two-element point.',
     [OBJ], [('scalar properties', OBJ), ('Pvector scalar flag', OBJ), ('FrameE.inverse/direct', OBJ)],
     ['shapes of results'])

prop('C28', 'Length, azimuth and elevation are the polar form of a vector',
     'For every Cartesian vector in any frame, length is its Euclidean norm, azimuth its angle from the x-axis '
     'towards the y-axis within [-180, 180] deg, and elevation its angle from the xy-plane towards the z-axis within '
     '[-90, 90] deg; together they reconstruct the vector, and the degree versions are the same angles in degrees.',
     ['inputs'],
     'all non-zero vectors of any magnitude (1e-6 to 1e9 m) and direction, scalar and vector, in E, N, L and B frames',
     'The tests look at the azimuth and elevation of one difference vector and rounded azimuths along a line.',
     [OBJ], [('Pvector.length/azimuth/elevation', OBJ)], ['Pvector.length', 'Pvector.azimuth', 'Pvector.elevation'])

prop('C29', 'Only the direction of an n-vector matters, and bad lengths are flagged',
     'Conversion of an n-vector to latitude/longitude, to ECEF, to local frames and to azimuth gives the same '
     'result when the vector is scaled by any positive factor. A (first) n-vector whose length differs from one by more '
     'than 0.1 triggers a warning in those conversions, and one within 0.1 does not.',
     ['inputs'],
     'all directions, scale factors from 1e-100 to 1e100, all functions that take an n-vector and only use its '
     'direction',
     'No test passes a non-unit n-vector or looks for the warning.',
     [ROT, CORE, UTIL], [('_check_length_deviation', UTIL), ('unit', UTIL), ('n_E2lat_lon', ROT), ('n_E2R_EN', ROT),
                         ('n_EB_E2p_EB_E', CORE)],
     ['n_E2lat_lon', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'n_EB_E2p_EB_E', 'n_EA_E_and_n_EB_E2azimuth'])

prop('C30', 'Lengths scale with the size of the Earth model',
     'There is no hidden length scale: when the semi-major axis of the ellipsoid, all depths and all given distances '
     'and Cartesian vectors are multiplied by the same positive factor (the same problem in other units, or on a model '
     'globe or another planet), every resulting length, depth, cross track distance and Cartesian component is '
     'multiplied by that factor, and latitudes, longitudes, n-vectors, azimuths, rotation matrices and (with scaled '
     'tolerances) yes/no answers stay the same. Spherical distances are proportional to the given radius. Only the '
     'documented default radius of the spherical functions is an absolute length.',
     ['inputs', 'configurations'],
     'all problems solved by the object and functional API, all ellipsoids, scale factors from 1e-6 to 1e6',
     'The tests only use Earth-sized ellipsoids and metres; a tolerance, threshold or clipping in metres inside an '
     'algorithm is invisible there.',
     [CORE, OBJ, UTIL], [('p_EB_E2n_EB_E', CORE), ('n_EB_E2p_EB_E', CORE), ('FrameE.inverse/direct', OBJ),
                         ('GeoPath', OBJ), ('Pvector', OBJ)],
     ['whole public API that takes an ellipsoid, a frame or a radius'])

prop('C31', 'The way arguments are written does not change the result',
     'A call gives the same result whether angles are given (and returned) in radians or, with degrees=True, in '
     'degrees; whether arguments are passed by position or by their documented names, in any order; whether an option '
     'is left out or its documented default is written out; and whether whole numbers are passed as Python or NumPy '
     'integers (numbers and arrays, also n-vectors and Cartesian vectors) or as floats, and whether '
     'flags (degrees, long_unroll and the like) are given as True and False, 1 and 0 or NumPy booleans; latitudes, '
     'longitudes and depths of positions may also be lists. Nor does it matter how arrays are kept in memory '
     '(order, strides, read-only, broadcast views, byte order, alignment, subclasses) and whether numbers are '
     'Python or NumPy numbers or zero-dimensional arrays.',
     ['inputs', 'configurations'],
     'all public functions, constructors and methods; all values of their arguments; all splits into positional and '
     'named arguments; int, int32, int64 and float; scalars and vectors; ten layouts in memory',
     'The tests call each function in one or two ways; an option that is lost on one of the ways, integer truncation '
     'or overflow, or a missing unit conversion in one branch stays unseen.',
     [CORE, OBJ, ROT, UTIL], [('GeoPoint.displace/distance_and_azimuth', OBJ), ('FrameE.inverse/direct', OBJ),
                              ('FrameB', OBJ), ('rad/deg', UTIL), ('n_EB_E2p_EB_E', CORE)],
     ['whole public API'])

prop('C32', 'Calls made in several threads do not disturb each other',
     'Calls of public functions and methods that run at the same time in two threads - also on the same arrays, '
     'positions, frames and paths, and also of the same function with other arguments - give exactly the results they '
     'give alone, whichever way their steps interleave, and leave the shared objects as they were. Nothing that a call '
     'stores on the way (in modules, frames, positions or paths) is visible to another call. (Nvector.unit(), which '
     'changes its own object, and assignments by the user are excepted.)',
     ['schedules', 'inputs'],
     'all pairs of short sequences of public calls on shared objects, all interleavings of their lines or bytecode '
     'instructions within the package',
     'The tests run in one thread.',
     [CORE, OBJ, ROT, UTIL], [('FrameE.inverse/direct', OBJ), ('conversions of shared positions', OBJ),
                              ('GeoPath', OBJ), ('module level state', CORE)],
     ['whole public API'])

prop('C33', 'A call that fails half-way leaves nothing behind',
     'When a computation inside a call fails (for want of memory, say) and the call ends with that error, every '
     'argument, every position, frame and path it can reach, and the settings of numpy and warnings are as they were '
     'before, and the same call and all others made afterwards give exactly the results they give without the failure.',
     ['crash_points', 'inputs', 'histories'],
     'all public functions and methods, all places inside the package where a computation can fail, all calls '
     'made afterwards on the same or other objects',
     'No test makes a call fail in the middle; objects left half changed or half-filled caches need exactly that.',
     [CORE, OBJ, ROT, UTIL], [('object API', OBJ), ('n-vector algebra', CORE)], ['whole public API'])

prop('C34', 'Copies, pickles and printed forms carry the whole value',
     'A copy, a deep copy and an unpickled pickle of a position, local vector, frame, local frame or path is an object '
     'of the same class with the same public value, equal to the original, and every call it is used in gives the same '
     'result as with the original; changing a copy (attributes; after deepcopy or pickle also arrays) leaves the '
     'original unchanged. repr of a position, vector or frame names its class and every public attribute with its exact '
     'value (all digits, arrays as lists, nested frames in full) and changes nothing; array_to_list_dict turns arrays, '
     'anywhere in nested containers, into lists of the same values.',
     ['inputs', 'histories'],
     'all objects given by the user or returned by any call, used before or not, all pickle protocols, all values '
     'including nan and infinities',
     'No test copies or pickles an object; the printed form is tested for a few objects with round numbers.',
     [OBJ, UTIL], [('_Common.__repr__/__eq__', OBJ), ('array_to_list_dict', UTIL), ('constructors', OBJ)],
     ['repr', 'copy', 'pickle', 'array_to_list_dict'])

prop('C35', 'Missing positions stay missing and touch no other',
     'When some positions of a vector are missing (latitude and longitude NaN, or an n-vector or ECEF vector of NaN), '
     'some of their depths or some distances, azimuths, angles or interpolation times are NaN, vectorized calls do not fail: the results for all other '
     'positions are what they are without the missing ones, and the results for the missing ones are NaN (False for '
     'yes/no answers) wherever the missing value enters - never a number made up from it. The mean of '
     'positions one of which is missing, and the point of a path closest to a missing position (or on a path with a '
     'missing end), are missing too. A track asked at a missing time gives a missing position, and missing samples or '
     'depths of a track make those results missing which they enter (a spline or smoothing, which needs many samples, may '
     'make all of them missing or refuse with ValueError).',
     ['inputs'],
     'all vectorized functions and methods and track interpolation (depths '
     'given to the ellipsoidal calls are finite), any pattern of missing columns in any argument, all position types',
     'No test passes NaN; min/max clipping, comparisons and where-branches may silently turn NaN into a number, and '
     'reductions over a whole array may spread it.',
     [CORE, OBJ, ROT, UTIL], [('unit', UTIL), ('n_E2lat_lon', ROT), ('p_EB_E2n_EB_E', CORE),
                              ('on_great_circle', CORE), ('FrameE.inverse/direct', OBJ)],
     ['whole vectorized API'])

prop('C36', 'Process-wide settings are neither used nor changed',
     'Importing nvector and every one of its calls leave the settings common to the whole process as they were '
     '(numpy error handling, print options and buffer size, warning filters, random states, decimal context, locale, '
     'working directory, environment, logging, threads, the functions of other modules) and write nothing to '
     'standard output. The result of a call does not depend on these settings; in particular it is the same when '
     'floating point errors (division by zero, invalid, overflow) are raised and warnings are turned into exceptions, and nvector '
     'can be imported so. Calls on positions that are '
     'pairwise neither equal nor opposite give no warning at all (except for deprecation notes of renamed names, and '
     'for the intersection of paths along the same great circle, which is undefined).',
     ['inputs', 'configurations'],
     'all public calls, all combinations of settings of numpy, warnings, random and decimal, before and after import',
     'Tests run under one fixed configuration, in which a division by zero that is masked later only prints a '
     'warning, and nobody looks at the settings afterwards.',
     [OBJ, CORE, ROT, UTIL], [('unit (tiny added to a length)', UTIL), ('n_E2R_EN (poles)', ROT),
                              ('on_great_circle_path', CORE), ('array_to_list_dict, __repr__', UTIL)],
     ['whole public API', 'import nvector'])

prop('C37', 'How Python is started and nvector imported does not matter',
     'Under every way the interpreter can be started (optimized so that assert statements or docstrings are stripped, '
     'comparisons of bytes and text an error, development mode, warnings as errors or ignored, any hash seed, locale, '
     'UTF-8 mode, time zone, home, working directory) and every way nvector can be imported (as a package, a star '
     'import, one of its modules first, in a thread, from a zip archive, with unrelated modules that have the names of '
     'its own earlier on the path, without standard output), the import succeeds silently, the public names and '
     'signatures are the same, and every call has the same outcome: the same value, the same class of exception '
     'for what is refused (positions of different frames, unknown ellipsoids, ...), the same categories of warnings.',
     ['inputs', 'configurations'],
     'all public calls under all options of the interpreter and all ways to import',
     'The tests run in one interpreter with default options, in which assert statements and docstrings exist, hash order '
     'and import order are one of many, and the package lies in a directory.',
     [OBJ, CORE, ROT, UTIL, 'src/nvector/_common.py', 'src/nvector/__init__.py'],
     [('module docstrings', UTIL), ('use_docstring', 'src/nvector/_common.py'), ('_check_frames', OBJ),
      ('_check_length_deviation', UTIL), ('get_ellipsoid', UTIL)],
     ['whole public API', 'import nvector'])

prop('C38', 'Classes derived from those of the library behave like them',
     'An object of a class the user has derived from GeoPoint, Nvector, ECEFvector, Pvector, FrameE, FrameN, FrameL, '
     'FrameB or GeoPath (with attributes or a constructor of its own, a second base class, slots, a hash, a length, '
     'derived once or twice, but overriding none of the methods of the library) can be used wherever one of the base '
     'class can, alone, mixed with others and as a part of them: every call has the same outcome and the same '
     'values, equality between the two kinds included. It is printed under the name of its class, and it, its '
     'copies and its unpickled form keep its class and its own attributes.',
     ['inputs', 'histories'],
     'all public calls on all mixtures of objects of base classes and derived classes of all those kinds',
     'The tests use no derived class at all.',
     [OBJ], [('_Common', OBJ), ('isinstance tests', OBJ), ('_default_frame', OBJ), ('_check_frames', OBJ)],
     ['whole object API'])

prop('C39', 'Sums, differences and multiples of positions follow the rules of vectors',
     'For positions given as Nvector or ECEFvector objects in one frame, a + b, a - b and -a, and for Nvector objects '
     'a * s, s * a and a / s with a number of any type (or one number for each position), act on the vector components '
     'and, for Nvector, on the depths, exactly as arithmetic of real numbers does: sums commute, a - b = a + (-b), '
     'a / s undoes a * s, whole numbers are divided without truncation. Either operand can be one position against many. '
     'The result is an object of the same kind in the same frame, an ECEF result is scalar exactly when all '
     'operands are, in-place forms (+=, *=, ...) leave other references to the operands as they were, and products or '
     'quotients of two n-vectors are refused. Geographically: p_EB - p_EA is what delta_to returns, p_EA plus it is '
     'position B (also when the step is given in a local frame), weighted sums of n-vectors '
     'are what GeoPath.interpolate returns and, with equal weights, the mean position.',
     ['inputs', 'histories'],
     'all pairs and triples of positions, integer and floating components, numbers of all types, all Earth models',
     'The tests use a few sums of single positions of one Earth model, and no quotient.',
     [OBJ], [('Nvector.__add__', OBJ), ('Nvector.__sub__', OBJ), ('Nvector.__mul__', OBJ), ('Nvector.__div__', OBJ),
             ('ECEFvector.__add__', OBJ), ('ECEFvector.__sub__', OBJ), ('ECEFvector.__neg__', OBJ)],
     ['Nvector.__add__', 'Nvector.__sub__', 'Nvector.__neg__', 'Nvector.__mul__', 'Nvector.__truediv__',
      'ECEFvector.__add__', 'ECEFvector.__sub__', 'ECEFvector.__neg__'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
    with open(out, 'w') as fid:
        for p in P:
            fid.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
