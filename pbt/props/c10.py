"""C10 direct geodesic problem"""
import math

import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import mkframe, mkpoint, ellipsoid_of, tup, flat, rads, same_frame
from pbt.props.c09 import geod, fwd, nv_deg


@gen.memo
def rel_distance():
    """distance in units of the semi-major axis: zero, tiny, negative, several turns"""
    return st.one_of(st.floats(-20, 20), st.floats(0, 3.2), gen.signed_logu(1e-12, 3.0),
                     st.sampled_from([0.0, -0.0, math.pi / 2, math.pi, 2 * math.pi, -math.pi]),
                     gen.dictionary(-20, 20, lambda x: x / 6.4e6), st.floats(-3.2, 3.2))


def unrolled(g, a, lat, lon, az, s):
    """longitude counted from lon along the way: sum of short steps (degrees), or None where the
    direction of the count is not determined (meridians)"""
    sa = math.sin(math.radians(az))
    if abs(sa) < 1e-9 or abs(lat) > 89.9999 or s == 0:
        return None
    east = (sa > 0) == (s > 0)
    n = max(1, int(math.ceil(abs(s) / (0.7 * a))))
    total, prev = 0.0, lon
    for i in range(1, n + 1):
        _la, lo, _ = fwd(g, lat, lon, az, s * i / n)
        step = (lo - prev) % 360.0
        if not east:
            step = -((-step) % 360.0)
        if abs(step) > 359.0:
            step = 0.0
        total += step
        prev = lo
    return lon + total


def judge(rec, a, f, z, lat, lon, az, s, lat2, lon2, az2, unroll, mag):
    """degrees; mag: rounding of the input angles in units of EPS * 180 deg"""
    if not abs(lat) <= 90:
        rec.true('latitude out of range gives NaN', np.isnan(lat2) and np.isnan(lon2)
                 and np.isnan(az2), (lat2, lon2, az2))
        rec.label('out_of_range')
        return
    R = a - z
    g = geod(R, f)
    la, lo, azb = fwd(g, lat, lon, az, s)
    turns = 1 + abs(s) / R
    tol = (4e-15 + 8 * EPS * mag) * turns
    got = nv_deg(lat2, lon2)
    rec.bound('end point', ref.norm(got - nv_deg(la, lo)), 4 * tol)
    rec.true('latitude range', abs(lat2) <= 90 * (1 + 4 * EPS), lat2)
    rec.true('azimuth range', abs(az2) <= 180 * (1 + 4 * EPS), az2)
    # azimuth at the end: following it back leads to the start (independent of pole geometry)
    la3, lo3, _ = fwd(g, min(90.0, max(-90.0, float(lat2))), float(lon2), float(az2), -s)
    rec.bound('end azimuth leads back', ref.norm(nv_deg(la3, lo3) - nv_deg(lat, lon)), 16 * tol)
    h = math.cos(math.radians(la))
    if h > 1e-6:
        rec.bound('end azimuth', ref.wrap(np.radians(ref.ld(az2) - ref.ld(azb))),
                  8 * tol / h)
    if not unroll:
        rec.true('longitude in [-180, 180]', abs(lon2) <= 180 * (1 + 4 * EPS), lon2)
    else:
        want = unrolled(g, R, lat, lon, az, s)
        if want is not None:
            rec.label('unrolled')
            if abs(want - lon) > 360:
                rec.label('unrolled_more_than_a_turn')
            # near a pole the longitude changes fast: compare to half a turn there
            t = np.degrees(64 * tol) / max(h, 1e-6) + 1e-9
            rec.bound('unrolled longitude', lon2 - want, min(90.0, float(t)))
        elif s == 0 and abs(lat) < 89.99:
            rec.bound('unrolled longitude at distance 0', lon2 - lon, 1e-12 * (1 + abs(lon)))


def frame_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            p=gen._point(n, scalar, gen.lat_deg(), gen.lon_deg(), gen.depth(), ('geo',)),
            az=gen.vec(gen.angle_deg(), n), s=gen.vec(rel_distance(), n), frame=gen.frame(),
            degrees=st.booleans(), long_unroll=st.booleans(),
            zform=st.sampled_from(['vec', 'scalar', 'none']),
            bad=st.sampled_from([0.0, 0.0, 0.0, 0.0, 1e-3, 30.0]), bad_at=st.integers(0, 16),
            one=st.sampled_from(['no', 'no', 'start', 'az'])))
    return gen.shaped(build, maxn=8)


def run(rec, case, call, pt, spec, a, f, z, degrees, unroll, bad=0.0, bad_at=0, one='no'):
    k = len(pt['lat'])
    lat, lon = np.array(pt['lat']), np.array(pt['lon'])
    if bad:
        i = bad_at % k
        lat[i] = np.sign(lat[i] or 1.0) * (90 + bad)
    az, s = np.array(case['az']), np.array(case['s']) * (a - z)
    if one == 'start':
        lat, lon = np.full(k, lat[0]), np.full(k, lon[0])
    elif one == 'az':
        az, s = np.full(k, az[0]), np.full(k, s[0])
    conv = (lambda x: x) if degrees else np.deg2rad
    return k, lat, lon, az, s, conv


@facet('C10', 'FrameE.direct', frame_case(), 4000,
       rule='FrameE.direct for zero, tiny, negative and several-turn distances, all azimuths, '
            'poles, |f| <= 0.02, depths, degrees/radians, long_unroll, vectors, one-to-many; '
            'oracle: PROJ geodesic solver, unrolled longitude from short steps; non-trivial: '
            'f != 0 and s != 0 and z != 0')
def direct(case, rec):
    pt, spec = case['p'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    frame = mkframe(spec)
    z = np.clip(np.array(pt['z']), -1e3 * a, 0.2 * a)
    if case['zform'] == 'none':
        z = 0 * z
    elif case['zform'] == 'scalar':
        z = np.full(z.shape, z[0])
    k, lat, lon, az, s, conv = run(rec, case, None, pt, spec, a, f, z, case['degrees'],
                                   case['long_unroll'], case['bad'], case['bad_at'], case['one'])
    args = [conv(lat), conv(lon), conv(az), s]
    call = [np.array(x) for x in args]
    if case['one'] == 'start':
        call[:2] = [float(call[0][0]), float(call[1][0])]
    elif case['one'] == 'az':
        call[2:] = [float(call[2][0]), float(call[3][0])]
    kw = {}
    if case['zform'] == 'vec':
        kw['z'] = z
    elif case['zform'] == 'scalar':
        kw['z'] = float(z[0])
    if pt['scalar']:
        call = [float(np.ravel(x)[0]) for x in call]
        if 'z' in kw:
            kw['z'] = float(z[0])
    lat2, lon2, az2 = [flat(x, k) for x in tup(frame.direct(
        *call, long_unroll=case['long_unroll'], degrees=case['degrees'], **kw), 3)]
    if not case['degrees']:
        lat2, lon2, az2 = np.degrees(lat2), np.degrees(lon2), np.degrees(az2)
    for i in range(k):
        la, lo, azi = [float(x[i]) if case['degrees'] else float(np.degrees(ref.ld(x[i])))
                       for x in args[:3]]
        if not case['degrees'] and not case['bad']:
            la = max(-90.0, min(90.0, la))
        mag = 0.0 if case['degrees'] else 2 + (abs(lo) + abs(azi)) / 180
        judge(rec, a, f, float(z[i]), la, lo, azi, float(s[i]), float(lat2[i]), float(lon2[i]),
              float(az2[i]), case['long_unroll'], mag)
    rec.label('deg' if case['degrees'] else 'rad', 'one_' + case['one'])
    rec.nontrivial = f != 0 and bool(np.any((z != 0) & (s != 0)))


def obj_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            p=gen._point(n, scalar, gen.lat_deg(), gen.lon_deg(), gen.depth(), ('geo',)),
            az=gen.vec(gen.angle_deg(), n), s=gen.vec(rel_distance(), n), frame=gen.frame(),
            degrees=st.booleans(), long_unroll=st.booleans(),
            method=st.sampled_from([None, 'ellipsoid', 'e'])))
    return gen.shaped(build, maxn=6)


@facet('C10', 'displace', obj_case(), 4000,
       rule='GeoPoint.displace(method="ellipsoid") against PROJ, depth and frame kept, unrolled '
            'longitude, and distance_and_azimuth back (for distances below half a turn); '
            'non-trivial: f != 0 and s != 0 and z != 0')
def displace(case, rec):
    pt, spec = case['p'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    frame = mkframe(spec)
    z = np.clip(np.array(pt['z']), -1e3 * a, 0.2 * a)
    pt = dict(pt, z=[float(x) for x in z])
    A = mkpoint(pt, frame, spec, kind='geo')
    k, _lat, _lon, az, s, conv = run(rec, case, None, pt, spec, a, f, z, case['degrees'],
                                     case['long_unroll'])
    azarg = conv(az)
    args = (float(s[0]), float(azarg[0])) if pt['scalar'] else (s, azarg)
    kw = dict(long_unroll=case['long_unroll'], degrees=case['degrees'])
    if case['method'] is not None:
        kw['method'] = case['method']
    B, azb = tup(A.displace(*args, **kw), 2)
    rec.true('type', isinstance(B, nv.GeoPoint), type(B))
    same_frame(rec, 'frame kept', B, frame)
    rec.close('depth kept', arr(B.z).ravel(), pt['z'], 0)
    lat2, lon2 = np.degrees(flat(B.latitude, k)), np.degrees(flat(B.longitude, k))
    az2 = flat(azb, k)
    if not case['degrees']:
        az2 = np.degrees(az2)
    latr, lonr = rads(pt['lat']), rads(pt['lon'])
    for i in range(k):
        la, lo = float(np.degrees(ref.ld(latr[i]))), float(np.degrees(ref.ld(lonr[i])))
        la = max(-90.0, min(90.0, la))
        azi = float(az[i]) if case['degrees'] else float(np.degrees(ref.ld(azarg[i])))
        mag = 4 + (abs(lo) + abs(azi)) / 180
        judge(rec, a, f, float(z[i]), la, lo, azi, float(s[i]), float(lat2[i]), float(lon2[i]),
              float(az2[i]), case['long_unroll'], mag)
    # and back: below half a turn the geodesic is the shortest
    R = a - z
    sel = (s >= 0) & (s < 2.9 * R * (1 - abs(f)) ** 2)
    if np.any(sel):
        sb, aza, azb2 = [flat(x, k) for x in tup(A.distance_and_azimuth(B, degrees=True), 3)]
        mag = 8 + 2 * (np.abs(pt['lon']) + np.abs(az)) / 180
        rec.bound('distance back', ((sb - s) / R)[sel], (4e-14 + 64 * EPS * mag)[sel])
    rec.label('deg' if case['degrees'] else 'rad')
    rec.nontrivial = f != 0 and bool(np.any((z != 0) & (s != 0)))
