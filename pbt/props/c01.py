"""C01 latitude/longitude <-> n-vector"""
import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import (mkframe, mkpoint, ellipsoid_of, geo_parts, normal, same_frame, tup, flat,
                    canon)

PI = ref.PI


def latlon_case():
    return gen.sized(lambda n: st.fixed_dictionaries(dict(
        lat=gen.vec(gen.lat_rad(), n), lon=gen.vec(gen.lon_rad(), n), R=gen.R_Ee(),
        scalar=st.booleans())))


def _args(case):
    if case['scalar'] and len(case['lat']) == 1:
        return case['lat'][0], case['lon'][0]
    return np.array(case['lat']), np.array(case['lon'])


def _call(fun, *args, **kw):
    R = kw.pop('R')
    return fun(*args) if R is None else fun(*args, R_Ee=R)


def _special(lat, rec):
    lat = np.abs(np.asarray(lat, dtype=float))
    if np.any(lat > 1.5):
        rec.label('near_pole')
    if np.any(np.pi / 2 - lat < 1e-6):
        rec.label('within_6m_of_pole')


@facet('C01', 'forward', latlon_case(), 6000,
       rule='lat/lon [rad] arrays or scalars incl. poles, antimeridian, |lon| up to 4 pi; R_Ee '
            'default, e, E, random rotation; non-trivial: some |lat| > 1e-3 and |lon| > 1e-3')
def forward(case, rec):
    R, C = gen.get_R(case['R'])
    n = arr(_call(nv.lat_lon2n_E, *_args(case), R=R))
    want = C @ ref.nvec(case['lat'], case['lon'])
    _special(case['lat'], rec)
    rec.close('n_E', n, want, 4 * EPS)
    rec.bound('unit length', ref.norm(n.astype(LD)) - 1, 4 * EPS)
    rec.nontrivial = any(abs(x) > 1e-3 for x in case['lat']) and \
        any(abs(x) > 1e-3 for x in case['lon'])


@facet('C01', 'roundtrip', latlon_case(), 6000,
       rule='as forward, then back with n_E2lat_lon (with axes e/E the longitude must survive '
            'to rounding error at any distance from the poles); non-trivial: as forward')
def roundtrip(case, rec):
    R, _C = gen.get_R(case['R'])
    n = _call(nv.lat_lon2n_E, *_args(case), R=R)
    lat, lon = tup(_call(nv.n_E2lat_lon, n, R=R), 2)
    k = len(case['lat'])
    lat, lon = flat(lat, k), flat(lon, k)
    cosl = np.abs(np.cos(ref.ld(case['lat'])))
    _special(case['lat'], rec)
    if gen.is_perm(case['R']):
        tol = 16 * EPS + 0 * cosl
        rec.label('axes_%s' % case['R'])
    else:
        tol = 16 * EPS + 16 * EPS / cosl
        rec.label('axes_rotated')
    rec.close('latitude', lat, case['lat'], 8 * EPS)
    rec.bound('longitude', ref.wrap(lon - ref.ld(case['lon']))[cosl > 0],
              (tol + 4 * EPS * np.abs(ref.ld(case['lon'])))[cosl > 0] if np.any(cosl > 0) else 1)
    rec.true('latitude range', np.abs(lat) <= np.pi / 2, lat)
    rec.true('longitude range', np.abs(lon) <= np.pi, lon)
    rec.nontrivial = any(abs(x) > 1e-3 for x in case['lat']) and \
        any(abs(x) > 1e-3 for x in case['lon'])


def nvec_case():
    return gen.sized(lambda n: st.fixed_dictionaries(dict(
        n=gen.unit_vec(n), R=gen.R_Ee(), form=st.sampled_from(['f8', 'int', 'strided']))))


@facet('C01', 'backward', nvec_case(), 6000,
       rule='arbitrary n-vectors (axis-aligned, signed zeros, tiny components, integer and '
            'strided arrays) to lat/lon; non-trivial: some vector has 3 non-zero components')
def backward(case, rec):
    R, C = gen.get_R(case['R'])
    nE = ref.f64(C @ ref.ld(case['n']).T)
    if case['form'] == 'int' and np.all(nE == np.round(nE)):
        nE = nE.astype(int)
        rec.label('integer_dtype')
    elif case['form'] == 'strided':
        big = np.zeros((6, 2 * nE.shape[1]))
        big[::2, ::2] = nE
        nE = big[::2, ::2]
    lat, lon = tup(_call(nv.n_E2lat_lon, nE, R=R), 2)
    k = len(case['n'])
    lat, lon = flat(lat, k), flat(lon, k)
    Rm = ref.R_E['e'] if R is None else R
    g = np.linalg.inv(np.asarray(ref.mat(Rm), dtype=float)).astype(LD) @ nE.astype(LD) \
        if not gen.is_perm(case['R']) else C.T @ nE.astype(LD)
    wlat, wlon = ref.latlon(g)
    h = np.hypot(g[0], g[1])
    tol = 12 * EPS if gen.is_perm(case['R']) else None
    if tol is None:
        tol_lat = 16 * EPS + 0 * h
        with np.errstate(all='ignore'):
            tol_lon = 16 * EPS + 16 * EPS / h
    else:
        tol_lat = tol_lon = tol + 0 * h
    rec.close('latitude', lat, wlat, tol_lat)
    ok = h > 0
    if np.any(ok):
        rec.bound('longitude', ref.wrap(lon - wlon)[ok], tol_lon[ok])
    rec.true('latitude range', np.abs(lat) <= np.pi / 2, lat)
    rec.true('longitude range', np.abs(lon) <= np.pi, lon)
    back = arr(_call(nv.lat_lon2n_E, np.asarray(lat, float), np.asarray(lon, float), R=R))
    rec.close('same direction', back, ref.unit(nE.astype(LD)), 16 * EPS)
    rec.nontrivial = any(all(abs(x) > 1e-6 for x in v) for v in case['n'])


def obj_case():
    return st.fixed_dictionaries(dict(p=gen.point(kinds=('geo', 'nvec')), frame=gen.frame(),
                                      degrees=st.booleans(),
                                      chain=st.lists(st.sampled_from(['n', 'g']), min_size=1,
                                                     max_size=5)))


@facet('C01', 'objects', obj_case(), 3000,
       rule='GeoPoint/Nvector objects in random frames through random conversion chains; '
            'non-trivial: chain contains both types and depth is not 0')
def objects(case, rec):
    pt, spec = case['p'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    frame = mkframe(spec)
    z = np.array(pt['z'])
    if pt['kind'] == 'geo' and case['degrees']:
        if pt['scalar']:
            obj = frame.GeoPoint(pt['lat'][0], pt['lon'][0], pt['z'][0], degrees=True)
        else:
            obj = frame.GeoPoint(np.array(pt['lat']), np.array(pt['lon']), z, degrees=True)
    else:
        obj = mkpoint(pt, frame, spec)
    want = canon(pt)
    cosl = ref.norm(want[:2])
    for step in case['chain']:
        obj = obj.to_nvector() if step == 'n' else obj.to_geo_point()
        same_frame(rec, 'frame kept', obj, frame)
        rec.close('depth kept', obj.z, z if not pt['scalar'] else z[0], 0.0)
        if step == 'n':
            rec.true('type', isinstance(obj, nv.Nvector), type(obj))
            rec.close('normal', normal(obj, axes), want, 24 * EPS)
        else:
            rec.true('type', isinstance(obj, nv.GeoPoint), type(obj))
            lat, lon, _z = geo_parts(obj)
            rec.close('latitude', lat.ravel(), np.arctan2(want[2], cosl), 24 * EPS)
            # longitude relative to rounding of n: exact axes keep it at any distance to a pole
            rec.bound('longitude', ref.wrap(lon.ravel() - np.arctan2(want[1], want[0])),
                      24 * EPS + 8 * EPS * np.abs(np.radians(ref.ld(pt['lon']))))
            ldeg, odeg, _ = tup(obj.latlon_deg, 3)
            rec.close('latlon_deg', np.deg2rad(arr(ldeg)).ravel(), lat.ravel(), 8 * EPS)
            rec.close('latlon_deg lon', np.deg2rad(arr(odeg)).ravel(), lon.ravel(),
                      8 * EPS * (1 + np.abs(lon.ravel())))
    _special(np.deg2rad(pt['lat']), rec)
    rec.label('kind_' + pt['kind'], 'axes_' + axes)
    rec.nontrivial = len(set(case['chain'])) == 2 and any(v != 0 for v in pt['z'])
