"""C20 position types and the two APIs are interchangeable"""
import numpy as np
import nvector as nv
from nvector import (FrameB, FrameE, FrameL, FrameN, GeoPath, GeoPoint, ECEFvector, Nvector,
                     delta_E, delta_L, delta_N)
from hypothesis import strategies as st

from pbt import gen, ops, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import (ellipsoid_of, mkframe, mkpoint, tup, flat, same_frame, geo_parts, is_scalar)

NAMES = sorted(ops.OBJ)


@facet('C20', 'position types', ops.obj_case(names=NAMES, maxn=5), 5000,
       rule='28 groups of methods with every combination of GeoPoint, Nvector and ECEFvector '
            'arguments against the same with GeoPoints only; results in the frame of the '
            'operands; tolerance: 8 x effect of input rounding; non-trivial: not all GeoPoints')
def kinds(case, rec):
    f = ops.OBJ[case['op']]
    base = f(ops.ObjProblem(case, kinds=('geo',) * 4))
    vary = ops.variation(base, [f(ops.ObjProblem(case, np.random.RandomState(j + case['extra']),
                                                 amp=16 * EPS)) for j in range(4)])
    other = f(ops.ObjProblem(case))
    ops.compare(rec, case['op'], other, base, vary)
    rec.label(case['op'], *('kind_' + x for x in case['kinds']))
    rec.nontrivial = case['kinds'] != ['geo'] * 4


def mild_case(names):
    def build(n, scalar):
        args = dict(lat=gen.lat_mild(), lon=gen.lon_deg())
        return st.fixed_dictionaries(dict(
            ab=gen.pair_n(n, scalar, sep=gen.moderate_separation(), z=gen.small_depth(), free=False,
                          **args),
            cd=gen.pair_n(n, scalar, sep=gen.moderate_separation(), z=gen.small_depth(), free=False,
                          **args),
            frame=gen.frame(1e6, 1e8), az=gen.vec(gen.lon_rad(), n), dist=gen.vec(st.floats(1e-3, 3.0), n),
            ti=gen.vec(st.floats(-0.5, 1.5), n), wa=gen.lon_rad(), ypr=gen.vec(gen.lon_rad(), 3),
            kinds=st.tuples(*[st.sampled_from(gen.KINDS)] * 4), what=st.sampled_from(names),
            scalar=st.just(scalar)))
    return gen.shaped(build, maxn=6)


class Mild(object):
    def __init__(self, case):
        self.spec = spec = case['frame']
        self.a, self.f, self.axes = ellipsoid_of(spec)
        self.frame = mkframe(spec)
        pts = list(case['ab']) + list(case['cd'])
        # an ECEF position is only as exact as the size of the Earth allows
        pts = [dict(p, kind=k) for p, k in zip(pts, case['kinds'])]
        self.pts = pts
        self.k = len(pts[0]['lat'])
        self.A, self.B, self.Cc, self.D = [mkpoint(p, self.frame, spec) for p in pts]
        self.nv = [x.to_nvector() for x in (self.A, self.B, self.Cc, self.D)]
        self.n = [arr(x.normal) for x in self.nv]
        self.z = [x.z for x in self.nv]
        self.R = self.frame.R_Ee
        self.kw = dict(a=self.a, f=self.f, R_Ee=self.R)
        sc = case['scalar']
        self.az, self.dist, self.ti = [np.array(case[q]) for q in ('az', 'dist', 'ti')]
        self.dist = self.dist * self.a
        if sc:
            self.az, self.dist, self.ti = float(self.az[0]), float(self.dist[0]), float(self.ti[0])
        self.wa, self.ypr = case['wa'], case['ypr']
        ra, rb = [nv.n_EB_E2p_EB_E(n, z, **self.kw) for n, z in zip(self.n[:2], self.z[:2])]
        self.radius = (np.linalg.norm(ra, axis=0) + np.linalg.norm(rb, axis=0)) / 2
        self.s = ref.f64(ref.norm(ref.cross(self.n[0].astype(LD), self.n[1].astype(LD))))
        self.path = (self.n[0], self.n[1])
        # how well conditioned this problem is: every length relative to the smallest one
        self.cond = 1 / max(float(np.min(self.s)), 1e-300)
        self.cosA = max(1e-300, float(np.min(np.abs(np.cos(np.deg2rad(pts[0]['lat']))))))
        self.cosB = max(1e-300, float(np.min(np.abs(np.cos(np.deg2rad(pts[1]['lat']))))))


def _frame_matrices(M, rec):
    k = M.k
    sq = lambda R: arr(R).reshape(3, 3, k)
    R_EN = nv.n_E2R_EN(M.n[0], M.R)
    rec.close('FrameN', sq(FrameN(M.A).R_EN), sq(R_EN), 32 * EPS / M.cosA)
    rec.close('FrameL', sq(FrameL(M.A, M.wa).R_EN), sq(nv.n_E_and_wa2R_EL(M.n[0], M.wa, M.R)),
              32 * EPS / M.cosA)
    y, p, r = M.ypr
    want = nv.mdot(R_EN, nv.zyx2R(y, p, r))
    rec.close('FrameB', sq(FrameB(M.A, y, p, r).R_EN), sq(want), 32 * EPS / M.cosA)


def _conversions(M, rec):
    A = GeoPoint(*[np.array(v) if not M.pts[0]['scalar'] else v[0] for v in
                   (np.deg2rad(M.pts[0]['lat']), np.deg2rad(M.pts[0]['lon']), M.pts[0]['z'])],
                 frame=M.frame)
    n = A.to_nvector()
    rec.close('lat_lon2n_E', n.normal, nv.lat_lon2n_E(A.latitude, A.longitude, M.R), 8 * EPS)
    g = M.nv[0].to_geo_point()
    la, lo = nv.n_E2lat_lon(M.n[0], M.R)
    rec.close('n_E2lat_lon latitude', np.atleast_1d(g.latitude), la, 8 * EPS)
    rec.close('n_E2lat_lon longitude', np.atleast_1d(g.longitude), lo, 16 * EPS / M.cosA, angle=True)
    e = M.nv[0].to_ecef_vector()
    p = nv.n_EB_E2p_EB_E(M.n[0], M.z[0], **M.kw)
    rec.close('n_EB_E2p_EB_E', e.pvector, p, 32 * EPS * M.a)
    x = e.to_nvector()
    n2, d2 = nv.p_EB_E2n_EB_E(arr(e.pvector), **M.kw)
    rec.close('p_EB_E2n_EB_E', x.normal, n2, 32 * EPS)
    rec.close('p_EB_E2n_EB_E depth', np.atleast_1d(x.z), np.ravel(d2), 64 * EPS * M.a)
    for y in (n, g, e, x, e.to_geo_point(), g.to_nvector(), n.to_ecef_vector()):
        same_frame(rec, 'frame kept', y, M.frame)


def _deltas(M, rec):
    want = nv.n_EA_E_and_n_EB_E2p_AB_E(M.n[0], M.n[1], M.z[0], M.z[1], **M.kw)
    tol = 128 * EPS * M.a
    d = delta_E(M.A, M.B)
    rec.close('delta_E', d.pvector, want, tol)
    same_frame(rec, 'frame of delta_E', d, M.frame)
    rec.close('A.delta_to(B)', M.A.delta_to(M.B).pvector, delta_N(M.A, M.B).pvector, tol)
    R = arr(nv.n_E2R_EN(M.n[0], M.R)).reshape(3, 3, M.k)
    rec.close('delta_N', delta_N(M.A, M.B).pvector, np.einsum('jin,jn->in', R, want), tol / M.cosA)
    R = arr(nv.n_E_and_wa2R_EL(M.n[0], M.wa, M.R)).reshape(3, 3, M.k)
    rec.close('delta_L', delta_L(M.A, M.B, M.wa).pvector, np.einsum('jin,jn->in', R, want),
              tol / M.cosA)
    # back: from A and the difference to B
    n, z = nv.n_EA_E_and_p_AB_E2n_EB_E(M.n[0], arr(d.pvector), M.z[0], **M.kw)
    x = (M.A.to_ecef_vector() + d).to_nvector()
    rec.close('A + delta_E', x.normal, n, 128 * EPS)
    rec.close('A + delta_E depth', np.atleast_1d(x.z), np.ravel(z), 256 * EPS * M.a)
    rec.close('A + delta_E is B', x.normal, M.n[1], 128 * EPS)


def _distances(M, rec):
    gA = M.A.to_geo_point()
    s, za, zb = tup(gA.distance_and_azimuth(M.B, method='greatcircle'), 3)
    rec.close('great circle', np.atleast_1d(s), nv.great_circle_distance(M.n[0], M.n[1], M.radius),
              64 * EPS * M.a)
    path = GeoPath(M.A, M.B)
    rec.close('track_distance', np.atleast_1d(path.track_distance()), np.atleast_1d(s), 64 * EPS * M.a)
    rec.close('euclidean', np.atleast_1d(path.track_distance(method='euclidean')),
              nv.euclidean_distance(M.n[0], M.n[1], M.radius), 64 * EPS * M.a)
    a0, b0 = [Nvector(n, 0 if M.A.scalar else np.zeros(M.k), M.frame) for n in M.n[:2]]
    _s, z0, _zb = a0.to_geo_point().distance_and_azimuth(b0, method='greatcircle')
    want = nv.n_EA_E_and_n_EB_E2azimuth(M.n[0], M.n[1], M.a, M.f, M.R)
    rec.close('azimuth', np.atleast_1d(z0), want, 256 * EPS * M.cond ** 2 / M.cosA ** 2, angle=True)
    gB = M.B.to_geo_point()
    z = 0.5 * (gA.z + gB.z)
    e1 = tup(gA.distance_and_azimuth(M.B), 3)
    e2 = tup(M.frame.inverse(gA.latitude, gA.longitude, gB.latitude, gB.longitude, z), 3)
    rec.close('inverse', np.atleast_1d(e1[0]), np.atleast_1d(e2[0]), 64 * EPS * M.a)
    rec.close('ellipsoidal track', np.atleast_1d(path.track_distance(method='ellipsoidal')),
              np.atleast_1d(e1[0]), 64 * EPS * M.a)
    rec.close('inverse azimuth', np.atleast_1d(e1[1]), np.atleast_1d(e2[1]),
              256 * EPS * M.cond ** 2 / M.cosA, angle=True)


def _displacement(M, rec):
    g = M.A.to_geo_point()
    r = np.linalg.norm(arr(M.A.to_ecef_vector().pvector), axis=0)
    n = nv.n_EA_E_distance_and_azimuth2n_EB_E(M.n[0], M.dist / r, M.az, M.R)
    b, _az = tup(g.displace(M.dist, M.az, method='greatcircle'), 2)
    tol = 64 * EPS * (1 + np.abs(M.az)) / M.cosA
    rec.close('great circle', b.to_nvector().normal, n, tol)
    same_frame(rec, 'frame', b, M.frame)
    la, lo, az = tup(M.frame.direct(g.latitude, g.longitude, M.az, M.dist, g.z), 3)
    b, az2 = tup(g.displace(M.dist, M.az), 2)
    rec.close('direct', b.to_nvector().normal, nv.lat_lon2n_E(la, lo, M.R), tol)
    same_frame(rec, 'frame', b, M.frame)
    c = np.maximum(np.abs(np.cos(np.atleast_1d(la))), 1e-300)
    rec.close('azimuth at B', np.atleast_1d(az2), np.atleast_1d(az), tol / c, angle=True)
    rec.close('depth kept', np.broadcast_to(b.z, (M.k,)), np.broadcast_to(g.z, (M.k,)), 0)


def _paths(M, rec):
    p, q = GeoPath(M.A, M.B), GeoPath(M.Cc, M.D)
    x = p.cross_track_distance(M.Cc)
    tol = 128 * EPS * M.cond
    rec.close('cross track', np.atleast_1d(x),
              nv.cross_track_distance(M.path, M.n[2], radius=M.radius), tol * M.a)
    x = p.cross_track_distance(M.Cc, method='euclidean', radius=1.0)
    rec.close('cross track euclidean', np.atleast_1d(x),
              nv.cross_track_distance(M.path, M.n[2], method='euclidean', radius=1.0), tol)
    n = nv.intersect(M.path, (M.n[2], M.n[3]))
    s2 = ref.f64(ref.norm(ref.cross(M.n[2].astype(LD), M.n[3].astype(LD))))
    with np.errstate(all='ignore'):
        c1 = np.cross(M.n[0], M.n[1], axis=0)
        c2 = np.cross(M.n[2], M.n[3], axis=0)
        s = np.linalg.norm(np.cross(c1, c2, axis=0), axis=0)
        ok = (s > 1e-9) & (np.abs(np.sum(n * M.n[0], axis=0)) > 1e-6)
    i = p.intersect(q)
    rec.close('intersect', np.where(ok, i.normal, 0), np.where(ok, n, 0),
              128 * EPS / np.where(s > 0, s, 1))
    n = nv.closest_point_on_great_circle(M.path, M.n[2])
    with np.errstate(all='ignore'):
        cos = np.linalg.norm(np.cross(c1 / np.linalg.norm(c1, axis=0), M.n[2], axis=0), axis=0)
    g = p.closest_point_on_great_circle(M.Cc)
    ok = cos > 1e-6
    rec.close('closest', np.where(ok, g.to_nvector().normal, 0), np.where(ok, n, 0),
              tol / np.where(ok, cos, 1))
    z = (np.asarray(M.z[0]) + np.asarray(M.z[1])) / 2
    rec.close('mean depth', np.broadcast_to(g.z, (M.k,)), np.broadcast_to(z, (M.k,)), 64 * EPS * M.a)
    n = nv.interpolate(M.path, M.ti)
    r = np.linalg.norm(M.n[0] + M.ti * (M.n[1] - M.n[0]), axis=0)
    ok = r > 1e-3
    rec.close('interpolate', np.where(ok, p.interpolate(M.ti).normal, 0), np.where(ok, n, 0), 1e-12)
    for y in (i, g, p.interpolate(M.ti)):
        same_frame(rec, 'frame of the result', y, M.frame)
    R = float(np.max(np.atleast_1d(M.radius)))
    xt = np.abs(nv.cross_track_distance(M.path, M.n[2], radius=M.radius))
    for atol in (0.01 * R, 0.3 * R):
        on = nv.on_great_circle(M.path, M.n[2], M.radius, atol)
        clear = np.abs(xt - atol) > 1e-6 * R
        rec.true('on_great_circle', (flat(p.on_great_circle(M.Cc, atol=atol)) == on) | ~clear, on)
        onp = nv.on_great_circle_path(M.path, M.n[2], M.radius, atol)
        scale = np.linalg.norm(M.n[1] - M.n[0], axis=0)
        t1 = np.linalg.norm(M.n[2] - M.n[0], axis=0) / scale
        t2 = np.linalg.norm(M.n[2] - M.n[1], axis=0) / scale
        clear &= (np.abs(t1 - 1) > 1e-6) & (np.abs(t2 - 1) > 1e-6)
        dz = np.abs(np.asarray(M.z[2]) - z)
        same = dz <= atol
        clear &= np.abs(dz - atol) > 1e-3 * atol
        got = flat(p.on_path(M.Cc, rtol=0.0, atol=atol))
        rec.true('on_path', (got == (onp & same)) | ~clear, (got, onp, same))


def _joint(M, rec):
    m = M.nv[0].mean()
    r = np.linalg.norm(np.sum(M.n[0], axis=1)) / M.k
    if r > 1e-6:
        rec.close('mean', m.normal, nv.mean_horizontal_position(M.n[0]), 64 * EPS / r)
    same_frame(rec, 'frame of the mean', m, M.frame)
    if M.k > 2:
        t = np.arange(M.k) * 2.0
        ti = np.abs(np.atleast_1d(M.ti)) % 1 * t[-1]
        x = M.nv[0].interpolate(ti, t, kind='quadratic')
        want = nv.interp_nvectors(ti, t, M.n[0], kind='quadratic')
        ok = np.all(np.isfinite(want))
        if ok and np.min(np.linalg.norm(want, axis=0)) > 0.9:
            rec.close('track', x.normal, want, 1e-9)
        same_frame(rec, 'frame of the track', x, M.frame)


API = dict(frames=_frame_matrices, conversions=_conversions, deltas=_deltas, distances=_distances,
           displacement=_displacement, paths=_paths, joint=_joint)


@facet('C20', 'both APIs', mild_case(sorted(API)), 3500,
       rule='every object method that has a functional counterpart against that function with '
            'the n-vectors, depths, ellipsoid and axes of the objects (well-conditioned '
            'positions, any position types, axes, ellipsoids, shapes); non-trivial: always')
def api(case, rec):
    API[case['what']](Mild(case), rec)
    rec.label(case['what'])
    rec.nontrivial = True


def _deprecated(M, rec):
    d1, d2 = nv.diff_positions(M.A, M.B), delta_E(M.A, M.B)
    rec.close('diff_positions', d1.pvector, d2.pvector, 8 * EPS * M.a)
    rec.true('type', type(d1) is type(d2) and d1.frame == d2.frame and d1.scalar == d2.scalar, d1)
    p, q = GeoPath(M.A, M.B), GeoPath(M.Cc, M.D)
    rec.true('positionA', p.positionA is p.point_a and p.positionA is M.A, p.positionA)
    rec.true('positionB', p.positionB is p.point_b and p.positionB is M.B, p.positionB)
    x, y = p.intersection(q), p.intersect(q)
    rec.close('intersection', x.normal, y.normal, 1e-9)
    rec.close('intersection depth', x.z, y.z, 0)
    rec.true('type of intersection', type(x) is type(y) and x.frame == y.frame, x)
    n = M.nv[0]
    x, y = n.mean_horizontal_position(), n.mean()
    rec.close('mean_horizontal_position', x.normal, y.normal, 1e-9)
    rec.close('mean_horizontal_position depth', x.z, y.z, 0)
    e1, e2 = nv.select_ellipsoid('bessel'), nv.get_ellipsoid('bessel')
    rec.true('select_ellipsoid', tuple(e1) == tuple(e2), (e1, e2))


def _degrees(M, rec):
    pa, pb = M.pts[:2]
    get = lambda v: v[0] if pa['scalar'] else np.array(v)
    la, lo, z = get(pa['lat']), get(pa['lon']), get(pa['z'])
    lb, ob = get(pb['lat']), get(pb['lon'])
    d = M.frame.GeoPoint(la, lo, z, degrees=True)
    r = M.frame.GeoPoint(nv.rad(la), nv.rad(lo), z)
    r2 = GeoPoint(np.deg2rad(la), np.deg2rad(lo), z, M.frame)
    d2 = GeoPoint(latitude=la, longitude=lo, z=z, frame=M.frame, degrees=True)
    for x in (r, r2, d2):
        for name, v, w in zip(('latitude', 'longitude', 'z'), geo_parts(x), geo_parts(d)):
            rec.close('GeoPoint in degrees: ' + name, v, w, 4 * EPS * (1 + np.abs(w)) if name != 'z' else 0)
    rec.close('latitude_deg', d.latitude_deg, la, 4 * EPS * 90)
    rec.close('longitude_deg', d.longitude_deg, lo, 4 * EPS * (1 + np.abs(lo)))
    for name, v, w in zip(('latitude', 'longitude', 'z'), d.latlon_deg, (la, lo, z)):
        rec.close('latlon_deg', v, w, 4 * EPS * (1 + np.abs(w)))
    for name, v, w in zip(('latitude', 'longitude', 'z'), d.latlon, geo_parts(d)):
        rec.close('latlon', v, w, 0)
    b = M.frame.GeoPoint(lb, ob, get(pb['z']), degrees=True)
    tol = 256 * EPS * M.cond ** 2 / M.cosA / M.cosB * (1 + float(np.max(np.abs(lo))))
    for method in ('ellipsoid', 'greatcircle'):
        x = tup(d.distance_and_azimuth(b, method=method, degrees=True), 3)
        y = tup(d.distance_and_azimuth(b, method=method), 3)
        rec.close('distance ' + method, x[0], y[0], 64 * EPS * M.a)
        for i in (1, 2):
            rec.close('azimuth ' + method, np.deg2rad(x[i]), y[i], tol, angle=True)
            rec.true('azimuth range', np.abs(x[i]) <= 180, x[i])
        x, ax = tup(d.displace(M.dist, np.rad2deg(M.az), method=method, degrees=True), 2)
        y, ay = tup(d.displace(M.dist, M.az, method=method), 2)
        rec.close('displaced ' + method, x.to_nvector().normal, y.to_nvector().normal,
                  64 * EPS * (1 + np.abs(M.az)) / M.cosA)
        c = np.maximum(np.abs(np.cos(y.latitude)), 1e-300)
        rec.close('azimuth_b ' + method, np.deg2rad(ax), ay,
                  512 * EPS / c * (4 + np.abs(M.az)) / M.cosA / np.minimum(
                      1, np.maximum(np.abs(np.sin(M.dist / M.a)), 1e-4)) ** 2, angle=True)
    x = tup(M.frame.inverse(la, lo, lb, ob, z, degrees=True), 3)
    y = tup(M.frame.inverse(*nv.rad(la, lo, lb, ob), z=z), 3)
    rec.close('inverse', x[0], y[0], 64 * EPS * M.a * (1 + float(np.max(np.abs(lo)))))
    for i in (1, 2):
        rec.close('inverse azimuth', np.deg2rad(x[i]), y[i], tol, angle=True)
    x = tup(M.frame.direct(la, lo, np.rad2deg(M.az), M.dist, z, degrees=True), 3)
    y = tup(M.frame.direct(nv.rad(la), nv.rad(lo), M.az, M.dist, z), 3)
    c = np.maximum(np.abs(np.cos(y[0])), 1e-300)
    t = 256 * EPS / c * (4 + np.abs(M.az) + np.abs(lo)) / M.cosA
    for i in range(3):
        rec.close('direct %d' % i, np.deg2rad(x[i]), y[i], t, angle=True)
    ypr = np.array(M.ypr)
    k = M.k
    F, G = FrameB(M.A, *np.rad2deg(ypr), degrees=True), FrameB(M.A, *ypr)
    rec.close('FrameB in degrees', arr(F.R_EN).reshape(3, 3, k), arr(G.R_EN).reshape(3, 3, k),
              32 * EPS * (1 + float(np.max(np.abs(ypr)))))
    p = M.B.to_ecef_vector()
    rec.close('azimuth_deg', np.deg2rad(p.azimuth_deg), p.azimuth, 8 * EPS)
    rec.close('elevation_deg', np.deg2rad(p.elevation_deg), p.elevation, 8 * EPS)
    for x in (M.frame.Nvector(M.n[0], M.z[0]), M.frame.ECEFvector(arr(p.pvector)), d):
        rec.true('made by the frame', x.frame is M.frame or x.frame == M.frame, x)
    same = M.frame.Nvector(M.n[0], M.z[0]) == Nvector(M.n[0], M.z[0], M.frame)
    rec.true('Nvector made by the frame', same is True or same == True, same)


MORE = dict(deprecated=_deprecated, degrees=_degrees)


@facet('C20', 'other names and degrees', mild_case(sorted(MORE)), 1500,
       rule='deprecated names against their replacements; every argument and result in degrees '
            'against the same in radians; constructors of FrameE; non-trivial: always')
def more(case, rec):
    MORE[case['what']](Mild(case), rec)
    rec.label(case['what'])
    rec.nontrivial = True
