"""The public calls, with the documented names, order and defaults of their arguments (C31)."""
import numpy as np
import nvector as nv
from nvector import (ECEFvector, FrameB, FrameE, FrameL, FrameN, GeoPath, GeoPoint, Nvector,
                     Pvector, delta_E, delta_L, delta_N)
from nvector.core import great_circle_normal
from nvector.util import allclose, isclose

REQ = object()          # no default
F84 = 1.0 / 298.257223563


# name: (callable from the environment, [(argument, kind of value, default), ...])
CALLS = {}


def call(name, get, *params):
    CALLS[name] = (get if callable(get) and getattr(get, '__name__', '') == '<lambda>'
                   else (lambda env, _f=get: _f),
                   [(p[0], p[1], p[2] if len(p) > 2 else REQ) for p in params])


_R = ('R_Ee', 'R', None)
_ELL = (('a', 'a', 6378137), ('f', 'f', F84), _R)
call('lat_lon2n_E', nv.lat_lon2n_E, ('latitude', 'lat'), ('longitude', 'lon'), _R)
call('n_E2lat_lon', nv.n_E2lat_lon, ('n_E', 'n'), _R)
call('n_EB_E2p_EB_E', nv.n_EB_E2p_EB_E, ('n_EB_E', 'n'), ('depth', 'z', 0), *_ELL)
call('p_EB_E2n_EB_E', nv.p_EB_E2n_EB_E, ('p_EB_E', 'p'), *_ELL)
call('n_EA_E_and_n_EB_E2p_AB_E', nv.n_EA_E_and_n_EB_E2p_AB_E, ('n_EA_E', 'n'), ('n_EB_E', 'n'),
     ('z_EA', 'z', 0), ('z_EB', 'z', 0), *_ELL)
call('n_EA_E_and_p_AB_E2n_EB_E', nv.n_EA_E_and_p_AB_E2n_EB_E, ('n_EA_E', 'n'), ('p_AB_E', 'v'),
     ('z_EA', 'z', 0), *_ELL)
call('n_EA_E_and_n_EB_E2azimuth', nv.n_EA_E_and_n_EB_E2azimuth, ('n_EA_E', 'n'), ('n_EB_E', 'n'),
     *_ELL)
call('n_EA_E_distance_and_azimuth2n_EB_E', nv.n_EA_E_distance_and_azimuth2n_EB_E,
     ('n_EA_E', 'n'), ('distance_rad', 'num'), ('azimuth', 'num'), _R)
call('n_E2R_EN', nv.n_E2R_EN, ('n_E', 'n'), _R)
call('n_E_and_wa2R_EL', nv.n_E_and_wa2R_EL, ('n_E', 'n'), ('wander_azimuth', 'num'), _R)
call('R_EN2n_E', nv.R_EN2n_E, ('R_EN', 'rot'))
call('R_EL2n_E', nv.R_EL2n_E, ('R_EL', 'rot'))
call('xyz2R', nv.xyz2R, ('x', 'num'), ('y', 'num'), ('z', 'num'))
call('zyx2R', nv.zyx2R, ('z', 'num'), ('y', 'num'), ('x', 'num'))
call('R2xyz', nv.R2xyz, ('R_AB', 'rot'))
call('R2zyx', nv.R2zyx, ('R_AB', 'rot'))
call('E_rotation', nv.E_rotation, ('axes', 'axes', 'e'))
call('great_circle_distance', nv.great_circle_distance, ('n_EA_E', 'n'), ('n_EB_E', 'n'),
     ('radius', 'radius', 6371009.0))
call('euclidean_distance', nv.euclidean_distance, ('n_EA_E', 'n'), ('n_EB_E', 'n'),
     ('radius', 'radius', 6371009.0))
call('great_circle_normal', great_circle_normal, ('n_EA_E', 'n'), ('n_EB_E', 'n'))
call('cross_track_distance', nv.cross_track_distance, ('path', 'npath'), ('n_EB_E', 'n'),
     ('method', 'm2', 'greatcircle'), ('radius', 'radius', 6371009.0))
call('on_great_circle', nv.on_great_circle, ('path', 'npath'), ('n_EB_E', 'n'),
     ('radius', 'radius', 6371009.0), ('atol', 'atol', 1e-8))
call('on_great_circle_path', nv.on_great_circle_path, ('path', 'npath'), ('n_EB_E', 'n'),
     ('radius', 'radius', 6371009.0), ('atol', 'atol', 1e-8))
call('closest_point_on_great_circle', nv.closest_point_on_great_circle, ('path', 'npath'),
     ('n_EB_E', 'n'))
call('intersect', nv.intersect, ('path_a', 'npath'), ('path_b', 'npath'))
call('interpolate', nv.interpolate, ('path', 'npath'), ('ti', 'num'))
call('interp_nvectors', nv.interp_nvectors, ('t_i', 't_i'), ('t', 't'), ('nvectors', 'track'),
     ('kind', 'interp', 'linear'), ('window_length', 'window', 0), ('polyorder', 'order', 2),
     ('mode', 'mode', 'interp'), ('cval', 'cval', 0.0))
call('mean_horizontal_position', nv.mean_horizontal_position, ('n_EB_E', 'n'))
call('unit', nv.unit, ('vector', 'v'), ('norm_zero_vector', 'nzv', 1))
call('mdot', nv.mdot, ('a', 'rot'), ('b', 'rot'))
call('nthroot', nv.nthroot, ('x', 'pos'), ('n', 'root'))
call('isclose', isclose, ('a', 'num'), ('b', 'num'), ('rtol', 'tol', 1e-9), ('atol', 'tol', 0.0),
     ('equal_nan', 'bool', False))
call('allclose', allclose, ('a', 'num'), ('b', 'num'), ('rtol', 'tol', 1e-7),
     ('atol', 'tol', 1e-14), ('equal_nan', 'bool', False))
call('get_ellipsoid', nv.get_ellipsoid, ('name', 'ename'))
call('select_ellipsoid', nv.select_ellipsoid, ('name', 'ename'))

# ------------------------------------------------------------------ objects
call('FrameE', FrameE, ('a', 'a', None), ('f', 'f', None), ('name', 'ename', 'WGS84'),
     ('axes', 'axes', 'e'))
call('GeoPoint', GeoPoint, ('latitude', 'lat'), ('longitude', 'lon'), ('z', 'z', 0),
     ('frame', 'frame', None), ('degrees', 'bool', False))
call('Nvector', Nvector, ('normal', 'n'), ('z', 'z', 0), ('frame', 'frame', None))
call('ECEFvector', ECEFvector, ('pvector', 'p'), ('frame', 'frame', None), ('scalar', 'scalar', None))
call('Pvector', Pvector, ('pvector', 'p'), ('frame', 'local'), ('scalar', 'scalar', None))
call('frame.GeoPoint', lambda e: e.frame.GeoPoint, ('latitude', 'lat'), ('longitude', 'lon'),
     ('z', 'z', 0))
call('frame.Nvector', lambda e: e.frame.Nvector, ('normal', 'n'), ('z', 'z', 0))
call('frame.ECEFvector', lambda e: e.frame.ECEFvector, ('pvector', 'p'))
call('local.Pvector', lambda e: e.local.Pvector, ('pvector', 'p'))
call('FrameN', FrameN, ('point', 'pos'))
call('FrameL', FrameL, ('point', 'pos'), ('wander_azimuth', 'num0', 0))
call('FrameB', FrameB, ('point', 'pos'), ('yaw', 'num0', 0), ('pitch', 'num0', 0),
     ('roll', 'num0', 0), ('degrees', 'bool', False))
call('delta_E', delta_E, ('point_a', 'pos'), ('point_b', 'pos'))
call('delta_N', delta_N, ('point_a', 'pos'), ('point_b', 'pos'))
call('delta_L', delta_L, ('point_a', 'pos'), ('point_b', 'pos'), ('wander_azimuth', 'num0', 0))
call('diff_positions', nv.diff_positions, ('point_a', 'pos'), ('point_b', 'pos'))
call('GeoPoint.displace', lambda e: e.geo.displace, ('distance', 'dist'), ('azimuth', 'num'),
     ('long_unroll', 'bool', False), ('degrees', 'bool', False), ('method', 'm_disp', 'ellipsoid'))
call('GeoPoint.distance_and_azimuth', lambda e: e.geo.distance_and_azimuth, ('point', 'gpos'),
     ('long_unroll', 'bool', False), ('degrees', 'bool', False), ('method', 'm_disp', 'ellipsoid'))
call('FrameE.inverse', lambda e: e.frame.inverse, ('lat_a', 'lat'), ('lon_a', 'lon'),
     ('lat_b', 'lat'), ('lon_b', 'lon'), ('z', 'z', 0), ('long_unroll', 'bool', False),
     ('degrees', 'bool', False))
call('FrameE.direct', lambda e: e.frame.direct, ('lat_a', 'lat'), ('lon_a', 'lon'),
     ('azimuth', 'num'), ('distance', 'dist'), ('z', 'z', 0), ('long_unroll', 'bool', False),
     ('degrees', 'bool', False))
call('Nvector.interpolate', lambda e: e.track.interpolate, ('t_i', 't_i'), ('t', 't'),
     ('kind', 'interp', 'linear'), ('window_length', 'window', 0), ('polyorder', 'order', 2),
     ('mode', 'mode', 'interp'), ('cval', 'cval', 0.0))
call('delta_to', lambda e: e.geo.delta_to, ('other', 'pos'))
call('ECEFvector.change_frame', lambda e: e.ecef.change_frame, ('frame', 'local'))
call('GeoPath', GeoPath, ('point_a', 'pos'), ('point_b', 'pos'))
call('GeoPath.cross_track_distance', lambda e: e.path.cross_track_distance, ('point', 'pos'),
     ('method', 'm2', 'greatcircle'), ('radius', 'radius', None))
call('GeoPath.track_distance', lambda e: e.path.track_distance, ('method', 'm3', 'greatcircle'),
     ('radius', 'radius', None))
call('GeoPath.intersect', lambda e: e.path.intersect, ('path', 'opath'))
call('GeoPath.on_great_circle', lambda e: e.path.on_great_circle, ('point', 'pos'),
     ('atol', 'atol', 1e-8))
call('GeoPath.on_path', lambda e: e.path.on_path, ('point', 'pos'),
     ('method', 'm_disp', 'greatcircle'), ('rtol', 'tol', 1e-6), ('atol', 'atol', 1e-8))
call('GeoPath.closest_point_on_great_circle', lambda e: e.path.closest_point_on_great_circle,
     ('point', 'pos'))
call('GeoPath.closest_point_on_path', lambda e: e.path.closest_point_on_path, ('point', 'spos'))
call('GeoPath.interpolate', lambda e: e.path.interpolate, ('ti', 'ti'))
