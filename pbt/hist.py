"""Operations on a pool of objects (C24): one table used by the checking process and by the
pristine one."""
import warnings

import numpy as np
import nvector as nv
from nvector import (ECEFvector, FrameB, FrameE, FrameL, FrameN, GeoPath, GeoPoint, Nvector,
                     Pvector, delta_E, delta_L, delta_N)
from nvector.core import great_circle_normal
from nvector.util import allclose, isclose


# ------------------------------------------------------------------ plain description of values
def describe(x, layout=False):
    """nested tuples of plain data and arrays: the public value of x

    layout: arrays that are not C-contiguous come with their strides, because rounding may
    depend on the order in which elements are added.
    """
    d = lambda y: describe(y, layout)
    if isinstance(x, GeoPoint):
        return ('geo', d(x.latitude), d(x.longitude), d(x.z), d(x.frame))
    if isinstance(x, Nvector):
        return ('nvec', d(x.normal), d(x.z), d(x.frame))
    if isinstance(x, ECEFvector):
        return ('ecef', d(x.pvector), d(x.frame), bool(x.scalar))
    if isinstance(x, Pvector):
        return ('pvec', d(x.pvector), d(x.frame), bool(x.scalar))
    if isinstance(x, FrameE):
        return ('frame', x.a, x.f, x.name, describe(x.R_Ee))
    if isinstance(x, FrameL):
        return ('L', d(x.nvector), float(x.wander_azimuth))
    if isinstance(x, FrameN):
        return ('N', d(x.nvector))
    if isinstance(x, FrameB):
        return ('B', d(x.nvector), float(x.yaw), float(x.pitch), float(x.roll))
    if isinstance(x, GeoPath):
        return ('path', d(x.point_a), d(x.point_b))
    if isinstance(x, (tuple, list)):
        return ('seq',) + tuple(d(y) for y in x)
    if isinstance(x, np.ndarray):
        if layout and not x.flags.c_contiguous:
            return ('nd', x.strides, np.array(x, order='C'))
        return np.array(x)
    if isinstance(x, np.generic):
        return np.array(x)
    return x


def _strided(strides, x):
    """a copy of x with these strides"""
    first = sum(-s * (n - 1) for s, n in zip(strides, x.shape) if s < 0 and n)
    last = sum(s * (n - 1) for s, n in zip(strides, x.shape) if s > 0 and n)
    out = np.ndarray(x.shape, x.dtype, np.zeros(first + last + x.itemsize, np.uint8), first,
                     strides)
    out[...] = x
    return out


def rebuild(d):
    """a new object of the described value, sharing nothing"""
    if not isinstance(d, tuple):
        return np.array(d) if isinstance(d, np.ndarray) else d
    kind, rest = d[0], d[1:]
    if kind == 'nd':
        return _strided(*rest)
    if kind == 'geo':
        return GeoPoint(rebuild(rest[0]), rebuild(rest[1]), rebuild(rest[2]), rebuild(rest[3]))
    if kind == 'nvec':
        return Nvector(rebuild(rest[0]), rebuild(rest[1]), rebuild(rest[2]))
    if kind == 'ecef':
        return ECEFvector(rebuild(rest[0]), rebuild(rest[1]), rest[2])
    if kind == 'pvec':
        return Pvector(rebuild(rest[0]), rebuild(rest[1]), rest[2])
    if kind == 'frame':
        R = rest[3]
        return FrameE(rest[0], rest[1], rest[2], 'e' if R[0, 2] == 1 else 'E')
    if kind == 'L':
        return FrameL(rebuild(rest[0]), rest[1])
    if kind == 'N':
        return FrameN(rebuild(rest[0]))
    if kind == 'B':
        return FrameB(rebuild(rest[0]), *rest[1:])
    if kind == 'path':
        return GeoPath(rebuild(rest[0]), rebuild(rest[1]))
    if kind == 'seq':
        return tuple(rebuild(y) for y in rest)
    raise TypeError(kind)


def equal(p, q, rtol=0.0):
    """the described values are the same (bit for bit; rtol: relative to the largest element)"""
    if isinstance(p, tuple) or isinstance(q, tuple):
        return isinstance(p, tuple) and isinstance(q, tuple) and len(p) == len(q) \
            and all(equal(x, y, rtol) for x, y in zip(p, q))
    if isinstance(p, (str, type(None), bool)) or isinstance(q, (str, type(None), bool)):
        return type(p) is type(q) and p == q or (isinstance(p, (bool, np.bool_))
                                                 and np.ndim(q) == 0 and bool(p) == bool(q))
    try:
        p, q = np.asarray(p), np.asarray(q)
        if p.shape != q.shape:
            return False
        if p.dtype.kind not in 'fiub' or q.dtype.kind not in 'fiub':
            return bool(np.all(p == q))
        same = (p == q) | (np.isnan(p) & np.isnan(q)) if p.dtype.kind == 'f' \
            and q.dtype.kind == 'f' else p == q
        if rtol:
            with np.errstate(all='ignore'):
                scale = np.max(np.abs(np.where(np.isfinite(p), p, 0))) if p.size else 0.0
                same = same | (np.abs(p * 1.0 - q) <= rtol * scale)
        return bool(np.all(same))
    except Exception:
        return p is q


# ------------------------------------------------------------------ operations
# name: (types of arguments, function(args, q)); q is a dict of plain parameters
OPS = {}


def op(name, *types):
    def deco(fun):
        OPS[name] = (types, fun)
        return fun
    return deco


def simple(name, types, fun):
    OPS[name] = (types, fun)


for _name in ('to_geo_point', 'to_nvector', 'to_ecef_vector'):
    simple(_name, ('pos',), lambda a, q, _n=_name: getattr(a[0], _n)())
    simple(_name + ' of local', ('pvec',), lambda a, q, _n=_name: getattr(a[0], _n)())
simple('delta_E', ('pos', 'pos'), lambda a, q: delta_E(*a))
simple('delta_N', ('pos', 'pos'), lambda a, q: delta_N(*a))
simple('delta_L', ('pos', 'pos'), lambda a, q: delta_L(a[0], a[1], q['wa']))
simple('delta_to', ('pos', 'pos'), lambda a, q: a[0].delta_to(a[1]))
simple('FrameN', ('pos',), lambda a, q: FrameN(a[0]))
simple('FrameL', ('pos',), lambda a, q: FrameL(a[0], q['wa']))
simple('FrameB', ('pos',), lambda a, q: FrameB(a[0], q['wa'], q['y'], q['x'], degrees=q['deg']))
simple('R_EN', ('local',), lambda a, q: a[0].R_EN)
simple('local Pvector', ('local', 'arr'), lambda a, q: a[0].Pvector(a[1]))
simple('change_frame', ('ecef', 'local'), lambda a, q: a[0].change_frame(a[1]))
for _name in ('length', 'azimuth', 'elevation', 'azimuth_deg', 'elevation_deg', 'scalar'):
    simple(_name, ('pvec',), lambda a, q, _n=_name: getattr(a[0], _n))
simple('length of ecef', ('ecef',), lambda a, q: a[0].length)
simple('azimuth of ecef', ('ecef',), lambda a, q: a[0].azimuth)
for _name in ('latlon', 'latlon_deg', 'latitude_deg', 'longitude_deg', 'scalar'):
    simple(_name + ' of geo', ('geo',), lambda a, q, _n=_name: getattr(a[0], _n))
simple('distance_and_azimuth', ('geo', 'pos'), lambda a, q: a[0].distance_and_azimuth(
    a[1], long_unroll=q['flag'], degrees=q['deg'], method=q['method']))
simple('displace', ('geo',), lambda a, q: a[0].displace(
    q['d'], q['x'], long_unroll=q['flag'], degrees=q['deg'], method=q['method']))
simple('displace many', ('geo', 'num', 'num'), lambda a, q: a[0].displace(
    a[1], a[2], degrees=q['deg'], method=q['method']))
simple('Nvector +', ('nvec', 'nvec'), lambda a, q: a[0] + a[1])
simple('Nvector -', ('nvec', 'nvec'), lambda a, q: a[0] - a[1])
simple('Nvector neg', ('nvec',), lambda a, q: -a[0])


def _factor(q):
    """no products whose squares underflow"""
    return q['t'] if 1e-100 < abs(q['t']) < 1e100 else 2.0


simple('Nvector *', ('nvec',), lambda a, q: a[0] * _factor(q) if q['flag'] else _factor(q) * a[0])
simple('Nvector /', ('nvec',), lambda a, q: a[0] / _factor(q))
simple('mean', ('nvec',), lambda a, q: a[0].mean())
simple('unit', ('nvec',), lambda a, q: a[0].unit())
simple('track', ('nvec', 'num'), lambda a, q: a[0].interpolate(
    np.mod(a[1], max(1, a[0].normal.shape[1] - 1)), np.arange(float(a[0].normal.shape[1])),
    kind=['linear', 'nearest', 'zero'][q['i'] % 3], window_length=3 * q['flag'], polyorder=1))
simple('ECEF +', ('ecef', 'ecef'), lambda a, q: a[0] + a[1])
simple('ECEF -', ('ecef', 'ecef'), lambda a, q: a[0] - a[1])
simple('ECEF neg', ('ecef',), lambda a, q: -a[0])
simple('GeoPath', ('pos', 'pos'), lambda a, q: GeoPath(*a))
simple('track_distance', ('path',), lambda a, q: a[0].track_distance(
    method=['greatcircle', 'euclidean', 'ellipsoidal'][q['i'] % 3],
    radius=q['d'] if q['flag'] else None))
simple('cross_track_distance', ('path', 'pos'), lambda a, q: a[0].cross_track_distance(
    a[1], method=['greatcircle', 'euclidean'][q['i'] % 2], radius=q['d'] if q['flag'] else None))
simple('intersect', ('path', 'path'), lambda a, q: a[0].intersect(a[1]))
simple('on_great_circle', ('path', 'pos'), lambda a, q: a[0].on_great_circle(a[1], atol=q['d']))
simple('on_path', ('path', 'pos'), lambda a, q: a[0].on_path(
    a[1], method=['greatcircle', 'ellipsoid'][q['i'] % 2], atol=q['d']))
simple('closest_point_on_great_circle', ('path', 'pos'),
       lambda a, q: a[0].closest_point_on_great_circle(a[1]))
simple('closest_point_on_path', ('path', 'pos'), lambda a, q: a[0].closest_point_on_path(a[1]))
simple('path interpolate', ('path',), lambda a, q: a[0].interpolate(q['t']))
for _name in ('nvectors', 'geo_points', 'ecef_vectors', 'nvector_normals'):
    simple(_name, ('path',), lambda a, q, _n=_name: getattr(a[0], _n)())
simple('positionA', ('path',), lambda a, q: (a[0].positionA, a[0].positionB))
simple('frame.inverse', ('frame', 'num', 'num'), lambda a, q: a[0].inverse(
    np.clip(a[1], -1.5, 1.5), a[2], 0.3, q['x'], z=q['y'], long_unroll=q['flag'],
    degrees=q['deg']))
simple('frame.direct', ('frame', 'num', 'num'), lambda a, q: a[0].direct(
    np.clip(a[1], -1.5, 1.5), a[2], q['x'], q['d'], z=q['y'], long_unroll=q['flag'],
    degrees=q['deg']))
simple('frame.GeoPoint', ('frame', 'num', 'num'), lambda a, q: a[0].GeoPoint(
    np.clip(a[1], -1.5, 1.5), a[2], q['y'], degrees=q['deg']))
simple('frame.Nvector', ('frame', 'arr', 'num'), lambda a, q: a[0].Nvector(a[1], a[2]))
simple('frame.ECEFvector', ('frame', 'arr'), lambda a, q: a[0].ECEFvector(a[1]))
simple('FrameE', (), lambda a, q: FrameE(
    name=['wgs84', 'WGS 72', 18, 'nad27', 'ETRS89', 'no such'][q['i'] % 6],
    a=q['d'] + 1e6 if q['flag'] else None, axes='e' if q['deg'] else 'E'))
simple('get_ellipsoid', (), lambda a, q: nv.get_ellipsoid(
    ['wgs84', 'WGS 72', 18, 'nad27', 'ETRS89', 'no such', 99][q['i'] % 7]))
simple('E_rotation', (), lambda a, q: nv.E_rotation('e' if q['deg'] else 'E'))
simple('E_rotation default', (), lambda a, q: nv.E_rotation())
simple('R_Ee of a new frame', (), lambda a, q: FrameE(axes='e' if q['deg'] else 'E').R_Ee)
simple('repr', ('any',), lambda a, q: repr(a[0]) if not isinstance(a[0], GeoPath) else None)
simple('==', ('any', 'any'), lambda a, q: bool(a[0] == a[1]))
simple('!=', ('any', 'any'), lambda a, q: bool(a[0] != a[1]))
simple('default GeoPoint', ('num',), lambda a, q: GeoPoint(np.clip(a[0], -1.5, 1.5), 0.1))
simple('default Nvector', ('arr',), lambda a, q: Nvector(a[0]))
simple('default ECEFvector', ('arr',), lambda a, q: ECEFvector(a[0]).to_geo_point())

# functions
_R = lambda q: {} if q['i'] % 3 == 0 else dict(R_Ee=nv.E_rotation('eE'[q['i'] % 2]))
_ell = lambda q: {} if q['flag'] else dict(a=6378388.0, f=1 / 297.0)
simple('f lat_lon2n_E', ('num', 'num'), lambda a, q: nv.lat_lon2n_E(a[0], a[1], **_R(q)))
simple('f n_E2lat_lon', ('arr',), lambda a, q: nv.n_E2lat_lon(a[0], **_R(q)))
simple('f n_EB_E2p_EB_E', ('arr', 'num'),
       lambda a, q: nv.n_EB_E2p_EB_E(a[0], a[1], **_ell(q), **_R(q)))
simple('f n_EB_E2p_EB_E default', ('arr',), lambda a, q: nv.n_EB_E2p_EB_E(a[0]))
simple('f p_EB_E2n_EB_E', ('arr',),
       lambda a, q: nv.p_EB_E2n_EB_E(a[0] * 6.4e6, **_ell(q), **_R(q)))
simple('f p_EB_E2n_EB_E itself', ('arr',), lambda a, q: nv.p_EB_E2n_EB_E(a[0], a=1.0, f=0.0))
simple('f n_EA_E_and_n_EB_E2p_AB_E', ('arr', 'arr', 'num'),
       lambda a, q: nv.n_EA_E_and_n_EB_E2p_AB_E(a[0], a[1], a[2], q['y'], **_ell(q), **_R(q)))
simple('f n_EA_E_and_p_AB_E2n_EB_E', ('arr', 'arr', 'num'),
       lambda a, q: nv.n_EA_E_and_p_AB_E2n_EB_E(a[0], a[1], a[2], **_ell(q), **_R(q)))
simple('f n_EA_E_and_n_EB_E2azimuth', ('arr', 'arr'),
       lambda a, q: nv.n_EA_E_and_n_EB_E2azimuth(a[0], a[1], **_ell(q), **_R(q)))
simple('f destination', ('arr', 'num', 'num'),
       lambda a, q: nv.n_EA_E_distance_and_azimuth2n_EB_E(a[0], a[1], a[2], **_R(q)))
simple('f great_circle_distance', ('arr', 'arr'), lambda a, q: nv.great_circle_distance(
    a[0], a[1], **({} if q['flag'] else dict(radius=q['d']))))
simple('f euclidean_distance', ('arr', 'arr'), lambda a, q: nv.euclidean_distance(a[0], a[1]))
simple('f great_circle_normal', ('arr', 'arr'), lambda a, q: great_circle_normal(a[0], a[1]))
simple('f cross_track_distance', ('arr', 'arr', 'arr'), lambda a, q: nv.cross_track_distance(
    (a[0], a[1]), a[2], method=['greatcircle', 'euclidean'][q['i'] % 2]))
simple('f closest', ('arr', 'arr', 'arr'),
       lambda a, q: nv.closest_point_on_great_circle((a[0], a[1]), a[2]))
simple('f intersect', ('arr', 'arr', 'arr', 'arr'),
       lambda a, q: nv.intersect((a[0], a[1]), (a[2], a[3])))
simple('f interpolate', ('arr', 'arr'), lambda a, q: nv.interpolate((a[0], a[1]), q['t']))
simple('f on_great_circle', ('arr', 'arr', 'arr'), lambda a, q: nv.on_great_circle(
    (a[0], a[1]), a[2], atol=q['d']))
simple('f on_great_circle_path', ('arr', 'arr', 'arr'), lambda a, q: nv.on_great_circle_path(
    (a[0], a[1]), a[2], atol=q['d']))
simple('f mean', ('arr',), lambda a, q: nv.mean_horizontal_position(a[0]))
simple('f interp_nvectors', ('arr', 'num'), lambda a, q: nv.interp_nvectors(
    np.mod(a[1], max(1, a[0].shape[1] - 1)), np.arange(float(a[0].shape[1])), a[0],
    window_length=3 * q['flag'], polyorder=1))
simple('f unit', ('arr',), lambda a, q: nv.unit(a[0], **({} if q['flag'] else
                                                         dict(norm_zero_vector=np.nan))))
simple('f n_E2R_EN', ('arr',), lambda a, q: nv.n_E2R_EN(a[0], **_R(q)))
simple('f n_E_and_wa2R_EL', ('arr', 'num'), lambda a, q: nv.n_E_and_wa2R_EL(a[0], a[1], **_R(q)))
simple('f R_EN2n_E', ('mat',), lambda a, q: nv.R_EN2n_E(a[0]))
simple('f R_EL2n_E', ('mat',), lambda a, q: nv.R_EL2n_E(a[0]))
simple('f R2xyz', ('mat',), lambda a, q: nv.R2xyz(a[0]))
simple('f R2zyx', ('mat',), lambda a, q: nv.R2zyx(a[0]))
simple('f xyz2R', ('num', 'num', 'num'), lambda a, q: nv.xyz2R(*a))
simple('f zyx2R', ('num', 'num', 'num'), lambda a, q: nv.zyx2R(*a))
simple('f mdot', ('mat', 'mat'), lambda a, q: nv.mdot(a[0], a[1]))
simple('f deg', ('num', 'num'), lambda a, q: nv.deg(*a))
simple('f rad', ('num', 'num'), lambda a, q: nv.rad(*a))
simple('f nthroot', ('num',), lambda a, q: nv.nthroot(np.abs(a[0]), 1 + q['i'] % 5))
simple('f isclose', ('num', 'num'), lambda a, q: isclose(a[0], a[1], atol=q['d']))
simple('f allclose', ('arr', 'arr'), lambda a, q: allclose(a[0], a[1], rtol=q['t']))

# ------------------------------------------------------------------ what the caller may assign
def _full(like, value):
    """value with the shape of like"""
    return float(value) if np.ndim(like) == 0 else np.full(np.shape(like), float(value))


def setter(name, *types):
    def deco(fun):
        OPS[name] = (types, fun)
        SETTERS.add(name)
        return fun
    return deco


SETTERS = set()


@setter('set depth', 'pos')
def _(a, q):
    if not isinstance(a[0], ECEFvector):
        a[0].z = _full(a[0].z, q['y'])


@setter('set latitude', 'geo')
def _(a, q):
    a[0].latitude = _full(a[0].latitude, q['t'])


@setter('set longitude', 'geo')
def _(a, q):
    a[0].longitude = _full(a[0].longitude, q['x'])


@setter('set normal', 'nvec')
def _(a, q):
    a[0].normal = np.roll(np.array(a[0].normal), 1, axis=0)


@setter('set pvector', 'ecef')
def _(a, q):
    a[0].pvector = -np.array(a[0].pvector)


@setter('set local pvector', 'pvec')
def _(a, q):
    a[0].pvector = np.roll(np.array(a[0].pvector), 1, axis=0) * 2.0


@setter('set frame', 'pos', 'frame')
def _(a, q):
    a[0].frame = a[1]


@setter('set point_a', 'path', 'pos')
def _(a, q):
    a[0].point_a = a[1]


@setter('set point_b', 'path', 'pos')
def _(a, q):
    a[0].point_b = a[1]


@setter('set ellipsoid', 'frame')
def _(a, q):
    if q['flag']:
        a[0].a = a[0].a * (1 + q['t'] / 4)
    else:
        a[0].f = abs(q['x']) / 400


@setter('set attitude', 'local')
def _(a, q):
    if isinstance(a[0], FrameB):
        setattr(a[0], ['yaw', 'pitch', 'roll'][q['i'] % 3], q['x'])
    elif isinstance(a[0], FrameL):
        a[0].wander_azimuth = q['x']


@setter('set origin', 'local', 'nvec')
def _(a, q):
    a[0].nvector = a[1] if isinstance(a[0], FrameB) else Nvector(a[1].normal, 0, a[1].frame)


@setter('write into array', 'arr')
def _(a, q):
    if a[0].flags.writeable and a[0].dtype.kind == 'f':
        a[0][:] = -np.roll(a[0], 1, axis=0)


@setter('write into numbers', 'num')
def _(a, q):
    if isinstance(a[0], np.ndarray) and a[0].flags.writeable and a[0].dtype.kind == 'f':
        a[0][...] = q['t']


def kind_of(x):
    """the argument types this value can serve as"""
    if isinstance(x, GeoPoint):
        return ('geo', 'pos', 'any')
    if isinstance(x, Nvector):
        return ('nvec', 'pos', 'any')
    if isinstance(x, ECEFvector):
        return ('ecef', 'pos', 'any')
    if isinstance(x, Pvector):
        return ('pvec', 'any')
    if isinstance(x, FrameE):
        return ('frame', 'any')
    if isinstance(x, (FrameN, FrameB)):
        return ('local', 'any')
    if isinstance(x, GeoPath):
        return ('path', 'any')
    if isinstance(x, np.ndarray) and x.dtype.kind in 'fi':
        if x.ndim == 2 and x.shape[0] == 3 and x.shape[1] != 3:
            return ('arr',)
        if x.ndim in (2, 3) and x.shape[:2] == (3, 3):
            return ('mat', 'arr') if x.ndim == 2 else ('mat',)
        if x.ndim <= 1:
            return ('num',)
    if isinstance(x, (float, np.floating)):
        return ('num',)
    return ()


def perform(name, args, q):
    """('ok', result) or ('error', class of the exception)"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return 'ok', OPS[name][1](args, q)
    except Exception as exc:
        return 'error', type(exc).__name__
