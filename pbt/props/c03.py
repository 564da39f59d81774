"""C03 ECEF -> position and depth"""
import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import (mkframe, ellipsoid_of, canon, same_frame, normal, geo_parts, geo_n, tup, flat)


@gen.memo
def _depth_spec():
    """['abs', metres] or ['rel', fraction of a]: far space to well below the surface"""
    return st.one_of(
        gen.depth().map(lambda z: ['abs', z]),
        st.one_of(st.floats(-0.5, 0.2), gen.signed_logu(1e-9, 0.2),
                  gen.logu(1e-3, 1e3).map(lambda t: -t)).map(lambda t: ['rel', t]),
        st.just(['abs', 0.0]))


def _z(specs, a):
    """depths in metres, not deep in the interior"""
    return np.array([max(-1e3 * a, min(0.2 * a, v if kind == 'abs' else v * a))
                     for kind, v in specs])


def func_case():
    return gen.sized(lambda n: st.fixed_dictionaries(dict(
        lat=gen.vec(gen.lat_rad(), n), lon=gen.vec(gen.lon_rad(), n),
        z=gen.vec(_depth_spec(), n), a=gen.semi_major(), f=st.one_of(gen.flattening(), gen.flattening(0.2)), R=gen.R_Ee(),
        defaults=st.sampled_from([False, False, False, True]),
        snap=st.sampled_from(['no', 'no', 'equator', 'axis', 'meridian']))))


def _judge(rec, n, depth, p, a, f, where=''):
    """n (canonical), depth must be the geodetic position of p (canonical, long double)"""
    rec.bound(where + 'unit length', ref.norm(n) - 1, 4 * EPS)
    back = ref.ecef(n, depth, a, f)
    scale = np.maximum(ref.norm(p), a)
    rec.bound(where + 'converts back to p', ref.norm(back - p) / scale, 64 * EPS)


@facet('C03', 'function', func_case(), 8000,
       rule='p_EB_E2n_EB_E on exact geodetic points (rounded to double) from 0.3 a below to '
            '1000 a above the surface, on the equator and the polar axis, |f| <= 0.2, any R_Ee; '
            'oracle: forward geodetic formula of the result reproduces p; non-trivial: f != 0, '
            'z != 0')
def function(case, rec):
    a, f = case['a'], case['f']
    if case['defaults']:
        a, f = 6378137.0, 1 / 298.257223563
    R, _C = gen.get_R(case['R'])
    C = ref.mat(ref.R_E['e'] if R is None else R)
    lat = np.array(case['lat'])
    if case['snap'] == 'equator':
        lat = 0 * lat
    g = ref.nvec(lat, case['lon'])
    if case['snap'] == 'axis':
        g = np.stack([0 * g[0], 0 * g[1], np.where(g[2] < 0, LD(-1), LD(1))])
    elif case['snap'] == 'meridian':
        g = ref.unit(np.stack([g[0], 0 * g[1], g[2]]))
    z = ref.ld(_z(case['z'], a))
    pE = ref.f64(C @ ref.ecef(g, z, a, f))
    kw = {} if case['defaults'] else dict(a=a, f=f)
    if R is not None:
        kw['R_Ee'] = R
    n, depth = tup(nv.p_EB_E2n_EB_E(pE, **kw), 2)
    k = len(case['lat'])
    n = arr(n).astype(LD)
    rec.true('shape', n.shape == (3, k), n.shape)
    depth = flat(depth, k)
    p = C.T @ pE.astype(LD)
    nc = C.T @ n
    _judge(rec, nc, depth, p, a, f)
    scale = np.maximum(ref.norm(p), a)
    rec.bound('depth recovered', (depth - z) / scale, 64 * EPS)
    # position error of a/(distance to centre of curvature): fine outside 0.7 a
    rec.bound('n-vector recovered', ref.norm(nc - ref.unit(g)), 128 * EPS)
    rec.label('snap_' + case['snap'])
    if f == 0:
        rec.label('sphere')
    elif f < 0:
        rec.label('prolate')
    if np.any(z > 1000):
        rec.label('below_surface')
    if np.any(z < -2 * a):
        rec.label('space')
    rec.nontrivial = f != 0 and bool(np.any(z != 0))


def obj_case():
    return st.fixed_dictionaries(dict(frame=gen.frame(),
                                      p=gen.point(z=_depth_spec(), kinds=('ecef',))))


@facet('C03', 'objects', obj_case(), 4000,
       rule='ECEFvector.to_nvector/to_geo_point in default, named and custom frames; '
            'non-trivial: z != 0 and latitude off equator and poles')
def objects(case, rec):
    pt, spec = case['p'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    frame = mkframe(spec)
    C = ref.C[axes]
    g, z = canon(pt), ref.ld(_z(pt['z'], a))
    pE = ref.f64(C @ ref.ecef(g, z, a, f))
    v = frame.ECEFvector(pE) if pt['scalar'] else frame.ECEFvector(pE, scalar=False)
    p = C.T @ pE.astype(LD)
    nvr = v.to_nvector()
    rec.true('type', isinstance(nvr, nv.Nvector), type(nvr))
    same_frame(rec, 'frame kept', nvr, frame)
    _judge(rec, normal(nvr, axes), flat(nvr.z, len(pt['z'])), p, a, f, 'Nvector ')
    geo = v.to_geo_point()
    rec.true('type', isinstance(geo, nv.GeoPoint), type(geo))
    same_frame(rec, 'frame kept', geo, frame)
    lat, lon, zz = geo_parts(geo)
    scale = np.maximum(ref.norm(p), a)
    rec.bound('GeoPoint depth', (zz.ravel() - z) / scale, 64 * EPS)
    rec.bound('GeoPoint position', ref.norm(ref.nvec(lat, lon) - g), 160 * EPS)
    rec.label('axes_' + axes)
    rec.nontrivial = any(zi != 0 and 0.01 < abs(la) < 89.99 for zi, la in zip(z, pt['lat']))


def free_case():
    c = st.one_of(st.floats(-1, 1), st.sampled_from([0.0, 1.0, -1.0]), gen.signed_logu(1e-12, 1))
    return st.fixed_dictionaries(dict(
        d=st.tuples(c, c, c), r=st.one_of(st.floats(0.6, 3), gen.logu(0.6, 1e4)),
        a=gen.semi_major(), f=gen.flattening(), R=gen.R_Ee()))


@facet('C03', 'arbitrary_vector', free_case(), 5000,
       rule='p_EB_E2n_EB_E on arbitrary Cartesian vectors of length 0.6..1e4 a in any direction; '
            'non-trivial: three non-zero components')
def arbitrary_vector(case, rec):
    d = np.array(case['d'])
    if not np.linalg.norm(d) > 1e-3:
        d = np.array([1.0, 0, 0])
    a, f = case['a'], case['f']
    p = (d / np.linalg.norm(d) * case['r'] * a).reshape(3, 1)
    R, _C = gen.get_R(case['R'])
    C = ref.mat(ref.R_E['e'] if R is None else R)
    kw = dict(a=a, f=f)
    if R is not None:
        kw['R_Ee'] = R
    n, depth = tup(nv.p_EB_E2n_EB_E(p, **kw), 2)
    _judge(rec, C.T @ arr(n).astype(LD).reshape(3, 1), flat(depth, 1), C.T @ p.astype(LD), a, f)
    rec.nontrivial = all(abs(x) > 1e-9 for x in case['d']) and f != 0
