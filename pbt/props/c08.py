"""C08 great circle destination and azimuth"""
import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import (mkframe, mkpoint, ellipsoid_of, canon, canon_p, tup, flat, same_frame, geo_n,
                    geo_parts)

PI = float(ref.PI)


@gen.memo
def gc_dist():
    """angular distance [rad]: zero, tiny, negative, beyond half a turn, several turns"""
    return st.one_of(st.floats(0, PI), gen.separation(), gen.separation().map(lambda x: -x),
                     st.floats(-4 * PI, 4 * PI), st.floats(-60 * PI, 60 * PI),
                     st.sampled_from([0.0, PI, 2 * PI, -PI / 2]))


def north_frame(C, g, perm):
    """exact north, east (canonical), with the library's choice at the exact poles"""
    W = ref.R_EN_n(g)
    return W


def dest_case():
    return gen.sized(lambda n: st.fixed_dictionaries(dict(
        lat=gen.vec(gen.lat_deg(), n), lon=gen.vec(gen.lon_deg(), n),
        d=gen.vec(gc_dist(), n), az=gen.vec(gen.lon_rad(), n), R=gen.R_Ee(),
        pole=st.sampled_from([0, 0, 0, 1, -1]), at=st.integers(0, 16),
        form=st.sampled_from(['vec', 'vec', 'scalars', 'one']))))


@facet('C08', 'destination', dest_case(), 8000,
       rule='n_EA_E_distance_and_azimuth2n_EB_E for zero, tiny, negative and > half-turn '
            'distances, any azimuth, any R_Ee, exact poles, scalar or vector arguments; '
            'non-trivial: off the poles, sin(distance) != 0')
def destination(case, rec):
    R, _C = gen.get_R(case['R'])
    C = ref.mat(ref.R_E['e'] if R is None else R)
    kw = {} if R is None else dict(R_Ee=R)
    g = canon(case)
    k = g.shape[1]
    if case['pole']:
        g[:, case['at'] % k] = [0, 0, case['pole']]
        rec.label('exact_pole')
    nA = ref.f64(C @ g)
    d, az = np.array(case['d']), np.array(case['az'])
    if case['form'] == 'one':
        nA = nA[:, :1]
    if case['form'] == 'scalars':
        out = nv.n_EA_E_distance_and_azimuth2n_EB_E(nA, float(d[0]), float(az[0]), **kw)
        d, az = np.full(k, d[0]), np.full(k, az[0])
    else:
        out = nv.n_EA_E_distance_and_azimuth2n_EB_E(nA, d, az, **kw)
    out = arr(out).astype(LD)
    rec.true('shape', out.shape == (3, k), out.shape)
    A = (C.T @ nA.astype(LD)) * np.ones(k)
    B = C.T @ out
    rec.bound('unit length', ref.norm(out) - 1, 12 * EPS)
    rec.close('angular distance (cosine)', ref.dot(ref.unit(A), B), np.cos(ref.ld(d)), 16 * EPS)
    rec.close('angular distance (sine)', ref.norm(ref.cross(A, B)), np.abs(np.sin(ref.ld(d))),
              16 * EPS)
    h = np.hypot(A[0], A[1])
    off = h > (1e-300 if gen.is_perm(case['R']) else 1e-9)
    if np.any(off):
        want = ref.gc_dest(A[:, off], az[off], d[off])
        tol = 24 * EPS + (0 if gen.is_perm(case['R']) else 24 * EPS / h[off]) \
            + 8 * EPS * (np.abs(d[off]) + np.abs(az[off]))
        rec.close('destination', B[:, off], want, tol)
        # and the azimuth function inverts it (sphere)
        sd = np.abs(np.sin(ref.ld(d[off])))
        back = flat(nv.n_EA_E_and_n_EB_E2azimuth(np.asarray(nA * np.ones(k))[:, off],
                                                 np.asarray(arr(out), float)[:, off],
                                                 a=1.0, f=0, **kw), int(np.sum(off)))
        az_w = ref.ld(az[off]) + np.where(np.sin(ref.ld(d[off])) < 0, ref.PI, LD(0))
        sel = sd > 1e-9
        if np.any(sel):
            tz = 64 * EPS / sd[sel] * (1 + np.abs(d[off][sel])) + 8 * EPS * np.abs(az[off][sel]) \
                + (0 if gen.is_perm(case['R']) else 48 * EPS / h[off][sel])
            rec.bound('azimuth inverts destination', ref.wrap(back - az_w)[sel], tz)
    if gen.is_perm(case['R']) and np.any(h == 0):
        # at the poles: consistent with the N frame of n_E2R_EN
        for i in np.flatnonzero(h == 0):
            RN = arr(nv.n_E2R_EN(np.asarray(nA * np.ones(k))[:, i:i + 1], **kw)).astype(LD)
            want = (nA * np.ones(k))[:, i] * np.cos(ref.ld(d[i])) + np.sin(ref.ld(d[i])) * (
                RN[:, 0] * np.cos(ref.ld(az[i])) + RN[:, 1] * np.sin(ref.ld(az[i])))
            rec.close('destination from a pole', out[:, i], want,
                      32 * EPS + 8 * EPS * (abs(d[i]) + abs(az[i])))
    if np.any(d < 0):
        rec.label('negative')
    if np.any(np.abs(d) > PI):
        rec.label('more_than_half_turn')
    if np.any(np.abs(d) < 1e-6):
        rec.label('tiny')
    rec.nontrivial = bool(np.any((h > 1e-6) & (np.abs(np.sin(d)) > 1e-12)))


def az_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            pair=gen.pair_n(n, scalar, z=st.just(0.0), kinds=('nvec',)), R=gen.R_Ee(),
            a=gen.semi_major(), f=gen.flattening(), default=st.booleans(),
            one=st.sampled_from(['no', 'no', 'a', 'b'])))
    return gen.shaped(build)


@facet('C08', 'azimuth', az_case(), 6000,
       rule='n_EA_E_and_n_EB_E2azimuth (azimuth of the chord on the ellipsoid) for pairs at '
            'controlled separations, any ellipsoid and R_Ee; oracle: exact chord in the exact N '
            'frame, tolerance eps * a / horizontal distance; non-trivial: f != 0, separation > 0')
def azimuth(case, rec):
    pa, pb = case['pair']
    R, _C = gen.get_R(case['R'])
    C = ref.mat(ref.R_E['e'] if R is None else R)
    kw = dict(a=case['a'], f=case['f'])
    a, f = case['a'], case['f']
    if case['default']:
        kw, a, f = {}, 6378137.0, 1 / 298.257223563
    if R is not None:
        kw['R_Ee'] = R
    nA, nB = ref.f64(C @ canon(pa)), ref.f64(C @ canon(pb))
    if case['one'] == 'a':
        nA = nA[:, :1]
    elif case['one'] == 'b':
        nB = nB[:, :1]
    k = max(nA.shape[1], nB.shape[1])
    A, B = [np.asarray(x) * np.ones(k) for x in (C.T @ nA.astype(LD), C.T @ nB.astype(LD))]
    az = flat(nv.n_EA_E_and_n_EB_E2azimuth(nA, nB, **kw), k)
    want, hor = ref.chord_azimuth(ref.ecef(A, 0, a, f), ref.ecef(B, 0, a, f), A)
    h = np.hypot(A[0], A[1])
    sel = (hor / a > 1e-14) & (h > (1e-300 if gen.is_perm(case['R']) else 1e-12))
    rec.true('range', (np.abs(az) <= PI)[sel], az)
    if np.any(sel):
        tol = 32 * EPS + 32 * EPS * a / hor[sel] \
            + (0 if gen.is_perm(case['R']) else 24 * EPS / h[sel])
        rec.bound('azimuth', ref.wrap(az - want)[sel], tol)
    if np.any((hor < 1e-6 * a) & sel):
        rec.label('close')
    rec.nontrivial = f != 0 and bool(np.any(sel))


def obj_case(sphere):
    f = st.just(0.0) if sphere else gen.flattening()

    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            p=gen._point(n, scalar, gen.lat_deg(), gen.lon_deg(), gen.depth(), gen.KINDS),
            d=gen.vec(gc_dist(), n), az=gen.vec(gen.angle_deg(), n), degrees=st.booleans(),
            scal=st.booleans(),
            frame=st.fixed_dictionaries(dict(a=gen.semi_major(), f=f, axes=gen.axes()))))
    return gen.shaped(build, maxn=8)


@facet('C08', 'displace', obj_case(True), 5000,
       rule='GeoPoint.displace and distance_and_azimuth with method="greatcircle" on spheres '
            '(f=0), any depth, axes, radians/degrees: exact destination and azimuth at both '
            'ends, then distance/azimuth back; non-trivial: off the poles, 0 < distance')
def displace(case, rec):
    pt, spec = case['p'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    pt = dict(pt, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in pt['z']])
    frame = mkframe(spec)
    A = mkpoint(pt, frame, spec, kind='geo')
    k = len(pt['lat'])
    g = canon(pt)
    radius = a - ref.ld(pt['z'])
    d, az = np.array(case['d']), np.array(case['az'])
    if case['scal'] or pt['scalar']:
        d, az = np.full(k, d[0]), np.full(k, az[0])
    dist = np.asarray(d * np.asarray(radius, float))
    azr = np.deg2rad(az)
    azarg = az if case['degrees'] else azr
    if pt['scalar']:
        b, azb = tup(A.displace(float(dist[0]), float(azarg[0]), degrees=case['degrees'],
                                method='greatcircle'), 2)
    else:
        b, azb = tup(A.displace(dist, azarg, degrees=case['degrees'], method='greatcircle'), 2)
    rec.true('type', isinstance(b, nv.GeoPoint), type(b))
    same_frame(rec, 'frame kept', b, frame)
    rec.close('depth kept', arr(b.z).ravel(), pt['z'], 0)
    dx = ref.ld(dist) / radius            # exact angle
    az_ex = np.radians(ref.ld(az)) if case['degrees'] else ref.ld(azr)
    h = np.hypot(g[0], g[1])
    off = h > 1e-15                       # radians: the poles themselves are not representable
    want = ref.gc_dest(g, az_ex, dx)
    tol = 32 * EPS + 16 * EPS * (np.abs(dx) + np.abs(az_ex))
    rec.close('destination', geo_n(b)[:, off], want[:, off], tol[off])
    # azimuth at b: of the direction of travel
    R = ref.R_EN_n(g)
    direction = R[:, 0] * np.cos(az_ex) + R[:, 1] * np.sin(az_ex)
    travel = -g * np.sin(dx) + direction * np.cos(dx)
    RB = ref.R_EN_n(want)
    azb_w = np.arctan2(ref.dot(RB[:, 1], travel), ref.dot(RB[:, 0], travel))
    hb = np.hypot(want[0], want[1])
    azb = flat(azb, k, 'azimuth_b')
    azb_r = np.radians(azb) if case['degrees'] else azb
    sd = np.abs(np.sin(dx / 2)) * 2       # chord: the azimuth at b is that of the chord to a
    sn = np.abs(np.sin(dx))
    sel = off & (hb > 1e-12) & (np.minimum(sd, sn) > 1e-9)
    if np.any(sel):
        tz = (256 * EPS * (1 + np.abs(dx)) / np.minimum(sd, sn) + 64 * EPS / hb
              + 64 * EPS * np.abs(az_ex) * (1 + 1 / hb))
        rec.bound('azimuth at b', ref.wrap(azb_r - azb_w)[sel], tz[sel])
    zero = off & (dist == 0)
    if np.any(zero):
        rec.label('zero_distance')
        rec.bound('azimuth at b for distance 0', ref.wrap(azb_r - az_ex)[zero],
                  32 * EPS * (1 + np.abs(az_ex[zero])))
    rec.true('azimuth range', np.abs(azb_r) <= PI * (1 + 4 * EPS), azb_r)
    # and back
    s, aza, azb2 = tup(A.distance_and_azimuth(b, method='greatcircle', degrees=case['degrees']), 3)
    s, aza, azb2 = flat(s, k), flat(aza, k), flat(azb2, k)
    if case['degrees']:
        aza, azb2 = np.radians(aza), np.radians(azb2)
    theta = ref.angle(g, want)
    rec.bound('distance back', (s - theta * radius)[off] / radius[off], (tol * 4 + 16 * EPS)[off])
    fwd = np.sin(dx) > 0                  # otherwise the shortest way is the other way round
    aza_w = np.where(fwd, az_ex, az_ex + ref.PI)
    if np.any(sel):
        tz = tz + 64 * EPS / h
        rec.bound('azimuth back', ref.wrap(aza - aza_w)[sel], tz[sel])
        rec.bound('azimuth b back', ref.wrap(azb2 - np.where(fwd, azb_w, azb_w + ref.PI))[sel],
                  tz[sel])
    rec.label('axes_' + axes, 'deg' if case['degrees'] else 'rad')
    if np.any(d < 0):
        rec.label('negative')
    if np.any(np.abs(d) > PI):
        rec.label('more_than_half_turn')
    rec.nontrivial = bool(np.any((h > 1e-6) & (np.abs(d) > 1e-12)))


@facet('C08', 'displace_ellipsoid_frame', obj_case(False), 3000,
       rule='greatcircle displace in ellipsoidal frames: the n-vector moves by distance/|p_A| on '
            'the exact great circle, depth and frame kept; non-trivial: f != 0, distance != 0')
def displace_ellipsoid_frame(case, rec):
    pt, spec = case['p'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    pt = dict(pt, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in pt['z']])
    frame = mkframe(spec)
    A = mkpoint(pt, frame, spec, kind='geo')
    k = len(pt['lat'])
    g = canon(pt)
    radius = ref.norm(canon_p(pt, spec))
    d, az = np.array(case['d']), np.array(case['az'])
    dist = np.asarray(d * np.asarray(radius, float))
    azarg = az if case['degrees'] else np.deg2rad(az)
    args = (float(dist[0]), float(azarg[0])) if pt['scalar'] else (dist, azarg)
    b, _azb = tup(A.displace(*args, degrees=case['degrees'], method='greatcircle'), 2)
    same_frame(rec, 'frame kept', b, frame)
    rec.close('depth kept', arr(b.z).ravel(), pt['z'], 0)
    az_ex = np.radians(ref.ld(az)) if case['degrees'] else ref.ld(azarg)
    dx = ref.ld(dist) / radius
    off = np.hypot(g[0], g[1]) > 1e-15
    want = ref.gc_dest(g, az_ex, dx)
    tol = 48 * EPS + 24 * EPS * (np.abs(dx) + np.abs(az_ex))
    rec.close('destination', geo_n(b)[:, off], want[:, off], tol[off])
    rec.nontrivial = f != 0 and bool(np.any(d != 0))
