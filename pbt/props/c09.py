"""C09 inverse geodesic problem"""
import functools

import numpy as np
import nvector as nv
from nvector import GeoPath
from hypothesis import strategies as st
from pyproj import Geod

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import mkframe, mkpoint, ellipsoid_of, canon, tup, flat, rads


@functools.lru_cache(4096)
def geod(a, f):
    """independent solver: the C++ implementation in PROJ"""
    return Geod(a=a, f=f)


def fwd(g, lat, lon, az, s):
    """(lat, lon, azimuth at b) in degrees"""
    lon2, lat2, back = g.fwd(lon, lat, az, s)
    return lat2, lon2, back + 180.0


def nv_deg(lat, lon):
    return ref.nvec(np.radians(ref.ld([lat])), np.radians(ref.ld([lon])))


def judge(rec, a, f, z, latA, lonA, latB, lonB, s, az1, az2, mag=1.0):
    """s, az1, az2 [deg] must solve the inverse problem on (a - z, f). All python floats.

    mag: size of the rounding of the given angles in units of EPS * 180 deg (degrees converted
    to radians and back)."""
    az = a - z
    g = geod(az, f)
    if not (abs(latA) <= 90 and abs(latB) <= 90):
        rec.true('latitude out of range gives NaN', np.isnan(s) and np.isnan(az1)
                 and np.isnan(az2), (s, az1, az2))
        rec.label('out_of_range')
        return
    _a1, _a2, want = g.inv(lonA, latA, lonB, latB)
    pos = az * (2e-15 + 6 * EPS * mag)               # rounding of the positions, metres
    rec.bound('distance', float(s) - want, 8 * pos + 1e-15 * az)
    rec.true('azimuth range', abs(az1) <= 180.0 * (1 + 4 * EPS)
             and abs(az2) <= 180.0 * (1 + 4 * EPS), (az1, az2))
    dlon = abs((lonA - lonB + 180.0) % 360.0 - 180.0)
    if dlon > 180 - 1e-12 and min(abs(latA), abs(latB)) > 90 - 1e-5 and latA * latB > 0:
        rec.label('short_line_across_a_pole')     # geographiclib gives a wrong azimuth here
        return
    # the geodesic that starts with az1 and has length s ends at B with azimuth az2
    la, lo, azb = fwd(g, latA, lonA, float(az1), float(s))
    mis = ref.norm(nv_deg(la, lo) - nv_deg(latB, lonB))
    rec.bound('geodesic from A ends at B', mis, 16 * pos / az + 4e-15)
    # the azimuth at B: follow the geodesic back from B
    la, lo, _ = fwd(g, latB, lonB, float(az2) + 180.0, float(s))
    rec.bound('geodesic back from B ends at A', ref.norm(nv_deg(la, lo) - nv_deg(latA, lonA)),
              16 * pos / az + 4e-15)
    if s > 0.003 * az:
        rec.label('far')
    if s > 3.1 * az:
        rec.label('near_antipodal')


def frame_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            pair=gen.pair_n(n, scalar, kinds=('geo',)), frame=gen.frame(), degrees=st.booleans(),
            long_unroll=st.booleans(), zform=st.sampled_from(['vec', 'scalar', 'none']),
            bad=st.sampled_from([0.0, 0.0, 0.0, 1e-3, 1.0, 30.0]), bad_at=st.integers(0, 16),
            bad_b=st.booleans(), one=st.sampled_from(['no', 'no', 'a', 'b'])))
    return gen.shaped(build, maxn=8)


@facet('C09', 'FrameE.inverse', frame_case(), 4000,
       rule='FrameE.inverse for pairs at all separations (coincident, near-antipodal, poles, '
            'antimeridian), |f| <= 0.02, depths, degrees/radians, vectors, one-to-many and '
            'latitudes outside [-90, 90]; oracle: PROJ geodesic solver (same length; the direct '
            'geodesic from A lands on B and back); non-trivial: f != 0, z != 0, distinct points')
def inverse(case, rec):
    (pa, pb), spec = case['pair'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    frame = mkframe(spec)
    k = len(pa['lat'])
    latA, lonA = np.array(pa['lat']), np.array(pa['lon'])
    latB, lonB = np.array(pb['lat']), np.array(pb['lon'])
    if case['bad']:
        lat = latB if case['bad_b'] else latA
        i = case['bad_at'] % k
        lat[i] = np.sign(lat[i] or 1.0) * (90 + case['bad'])
    z = np.clip(np.array(pa['z']), -1e3 * a, 0.2 * a)
    if case['zform'] == 'none':
        z = 0 * z
    elif case['zform'] == 'scalar':
        z = np.full(k, z[0])
    if case['one'] == 'a':
        latA, lonA = np.full(k, latA[0]), np.full(k, lonA[0])
    elif case['one'] == 'b':
        latB, lonB = np.full(k, latB[0]), np.full(k, lonB[0])
    args = [latA, lonA, latB, lonB]
    if not case['degrees']:
        args = [np.deg2rad(x) for x in args]
    call = list(args)
    if case['one'] == 'a':
        call[:2] = [float(call[0][0]), float(call[1][0])]
    elif case['one'] == 'b':
        call[2:] = [float(call[2][0]), float(call[3][0])]
    kw = {}
    if case['zform'] == 'vec':
        kw['z'] = z
    elif case['zform'] == 'scalar':
        kw['z'] = float(z[0])
    if pa['scalar']:
        call = [float(np.ravel(x)[0]) for x in call]
        if 'z' in kw:
            kw['z'] = float(z[0])
    s, az1, az2 = tup(frame.inverse(*call, degrees=case['degrees'],
                                    long_unroll=case['long_unroll'], **kw), 3)
    s, az1, az2 = flat(s, k), flat(az1, k), flat(az2, k)
    if not case['degrees']:
        az1, az2 = np.degrees(az1), np.degrees(az2)
    for i in range(k):
        la, lo, lb, ob = [float(x[i]) if case['degrees'] else float(np.degrees(ref.ld(x[i])))
                          for x in args]
        if not case['degrees']:
            if case['bad'] == 0:
                la, lb = max(-90.0, min(90.0, la)), max(-90.0, min(90.0, lb))
        mag = 0.0 if case['degrees'] else 2 + (abs(lo) + abs(ob)) / 180
        judge(rec, a, f, float(z[i]), la, lo, lb, ob, float(s[i]), float(az1[i]), float(az2[i]),
              mag)
    rec.label('deg' if case['degrees'] else 'rad', 'one_' + case['one'])
    rec.nontrivial = f != 0 and bool(np.any(z != 0)) and pa['lat'] != pb['lat']


def obj_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            pair=gen.pair_n(n, scalar), frame=gen.frame(), degrees=st.booleans(),
            long_unroll=st.booleans(), via=st.sampled_from(['point', 'point', 'path']),
            method=st.sampled_from(['ellipsoid', 'ellipsoidal', 'exact', 'el', 'ex']),
            one=st.sampled_from(['no', 'no', 'a', 'b']),
            bad=st.sampled_from([0.0, 0.0, 0.0, 0.0, 1e-3, 20.0])))
    return gen.shaped(build, maxn=6)


@facet('C09', 'objects', obj_case(), 4000,
       rule='GeoPoint.distance_and_azimuth (ellipsoid) and GeoPath.track_distance(method='
            '"ellipsoidal"/"exact") for all position types and frames, mean depth of the two '
            'points; oracle: PROJ; non-trivial: f != 0, different depths, distinct points')
def objects(case, rec):
    (pa, pb), spec = case['pair'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    pa = dict(pa, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in pa['z']])
    pb = dict(pb, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in pb['z']])
    if case['via'] == 'point':
        pa = dict(pa, kind='geo')
    bad = bool(case['bad']) and case['via'] == 'point'
    if bad:
        pb = dict(pb, kind='geo', lat=[float(np.sign(x or 1.0) * (90 + case['bad']))
                                       for x in pb['lat']])
    k = len(pa['lat'])

    def first(p):
        return dict(p, lat=p['lat'][:1], lon=p['lon'][:1], z=p['z'][:1], scalar=True)
    if case['one'] == 'a':
        pa = first(pa)
    elif case['one'] == 'b':
        pb = first(pb)
    frame = mkframe(spec)
    A, B = mkpoint(pa, frame, spec), mkpoint(pb, frame, spec)
    one = np.ones(k)
    zA, zB = np.array(pa['z']) * one, np.array(pb['z']) * one
    z = 0.5 * (zA + zB)
    lat1, lon1 = rads(pa['lat']) * one, rads(pa['lon']) * one
    lat2, lon2 = rads(pb['lat']) * one, rads(pb['lon']) * one
    if case['via'] == 'path':
        s = flat(GeoPath(A, B).track_distance(method=case['method']), k)
        az1 = az2 = None
    else:
        s, az1, az2 = tup(A.distance_and_azimuth(B, degrees=case['degrees'],
                                                 long_unroll=case['long_unroll'],
                                                 **({} if case['method'] == 'el' else
                                                    dict(method=case['method']))), 3) \
            if case['method'] not in ('ex', 'exact') else \
            tup(A.distance_and_azimuth(B, degrees=case['degrees'],
                                       long_unroll=case['long_unroll']), 3)
        s, az1, az2 = flat(s, k), flat(az1, k), flat(az2, k)
        if not case['degrees']:
            az1, az2 = np.degrees(az1), np.degrees(az2)
    for i in range(k):
        la, lo, lb, ob = [float(np.degrees(ref.ld(x[i]))) for x in (lat1, lon1, lat2, lon2)]
        if not bad:
            la, lb = max(-90.0, min(90.0, la)), max(-90.0, min(90.0, lb))
        else:
            la = max(-90.0, min(90.0, la))
        far = 1.0 + sum((abs(float(zz)) / a) for p, zz in ((pa, zA[i]), (pb, zB[i]))
                        if p['kind'] == 'ecef')
        mag = (3 + (abs(lo) + abs(ob)) / 180) * far
        dz = 32 * EPS * far            # depth of an ECEF based position, relative
        if az1 is None:
            want = geod(a - float(z[i]), f).inv(lo, la, ob, lb)[2]
            rec.bound('track_distance', float(s[i]) - want,
                      (a - float(z[i])) * (2e-14 + 48 * EPS * mag + 4 * dz))
        else:
            judge(rec, a, f, float(z[i]), la, lo, lb, ob, float(s[i]), float(az1[i]),
                  float(az2[i]), 4 * mag)
    rec.label('via_' + case['via'], 'kinds_%s_%s' % (pa['kind'], pb['kind']))
    rec.nontrivial = f != 0 and bool(np.any(zA != zB)) and pa['lat'] != pb['lat']
