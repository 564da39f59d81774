"""Builds nvector objects from plain case data, and takes results apart strictly."""
import numpy as np
import nvector as nv
from nvector import FrameE, GeoPoint, Nvector, ECEFvector

from pbt import ref
from pbt.core import Violation, arr, attr

LD = np.longdouble


_DEF = dict(a=6378137.0, f=1.0 / 298.257223563)


def ellipsoid_of(spec):
    """reference (a, f, axes) of a frame spec"""
    if 'name' in spec and not ('a' in spec and 'f' in spec):
        from pbt.catalog import lookup
        a, f = lookup(spec['name'])
    else:
        a, f = _DEF['a'], _DEF['f']
    return spec.get('a', a), spec.get('f', f), spec.get('axes', 'e')


def mkframe(spec):
    return FrameE(**spec)


def rads(x):
    return np.deg2rad(np.asarray(x, dtype=float))


def canon(pt):
    """exact canonical unit normals (long double) of a point spec in degrees (as the library
    is given radians rounded to double, those rounded radians count)"""
    return ref.nvec(rads(pt['lat']), rads(pt['lon']))


def canon_p(pt, spec):
    a, f, _axes = ellipsoid_of(spec)
    return ref.ecef(canon(pt), ref.ld(pt['z']), a, f)


def mkpoint(pt, frame, spec, kind=None):
    """GeoPoint, Nvector or ECEFvector object for the point spec"""
    kind = kind or pt['kind']
    a, f, axes = ellipsoid_of(spec)
    lat, lon, z = rads(pt['lat']), rads(pt['lon']), np.array(pt['z'], dtype=float)
    sc = pt['scalar']
    z0 = float(z[0]) if sc else None
    if np.all((z == np.rint(z)) & (np.abs(z) < 1e9)) and int(np.sum(np.abs(z))) % 2 == 0:
        z = z.astype(np.int64)           # every other depth of whole metres is given as integers
        z0 = int(z[0]) if sc else None
    if kind == 'geo':
        if sc:
            return GeoPoint(float(lat[0]), float(lon[0]), z0, frame=frame)
        return GeoPoint(lat, lon, z, frame=frame)
    n = ref.C[axes] @ canon(pt)
    if kind == 'nvec':
        return Nvector(ref.f64(n), z0 if sc else z, frame=frame)
    p = ref.C[axes] @ canon_p(pt, spec)
    return ECEFvector(ref.f64(p), frame=frame, scalar=True if sc else False)


def same_frame(rec, name, got, frame):
    rec.true(name, attr(got, 'frame') is frame or got.frame == frame,
             'result in another frame: %r' % (got.frame,))


def geo_parts(g):
    return (arr(attr(g, 'latitude'), 'latitude'), arr(attr(g, 'longitude'), 'longitude'),
            arr(attr(g, 'z'), 'z'))


def geo_n(g):
    """canonical n-vectors of a returned GeoPoint"""
    lat, lon, _z = geo_parts(g)
    return ref.nvec(lat, lon)


def normal(v, axes, name='normal'):
    """canonical n-vectors of a returned Nvector's normal"""
    n = arr(attr(v, 'normal'), name)
    if n.ndim != 2 or n.shape[0] != 3:
        raise Violation('%s has shape %s' % (name, n.shape))
    return ref.C[axes].T @ n.astype(LD)


def pvec(v, axes=None, name='pvector'):
    p = arr(attr(v, 'pvector'), name)
    if p.ndim != 2 or p.shape[0] != 3:
        raise Violation('%s has shape %s' % (name, p.shape))
    p = p.astype(LD)
    return p if axes is None else ref.C[axes].T @ p


def tup(value, k, name='result'):
    if not isinstance(value, tuple) or len(value) != k:
        raise Violation('%s is no %d-tuple: %r' % (name, k, value))
    return value


def flat(x, k=None, name='result'):
    x = arr(x, name).astype(LD).ravel()
    if k is not None and x.size != k:
        raise Violation('%s has %d elements, expected %d' % (name, x.size, k))
    return x


def is_scalar(x):
    return np.ndim(x) == 0
