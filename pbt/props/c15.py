"""C15 closest point on a great circle or path"""
import numpy as np
import nvector as nv
from nvector import GeoPath, GeoPoint
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr, attr
from pbt.nv import mkframe, mkpoint, ellipsoid_of, canon, geo_n, geo_parts, same_frame, flat
from pbt.props.c14 import offset, place


def judge_circle(rec, n, A, B, P, scale=1.0):
    """n must be on the great circle of A, B and as close to P as any of its points"""
    s = ref.norm(ref.cross(A, B))
    ok = s > 1e-7
    c = ref.cross(A, B) / np.where(s > 0, s, 1)
    tol = scale * (8 * EPS + 6 * EPS / np.where(ok, s, 1))
    k = n.shape[1]
    ok = np.broadcast_to(ok, (k,))
    tol = tol * np.ones(k)
    n = n.astype(LD)
    rec.bound('unit', np.where(ok, ref.norm(n), 1) - 1, 4 * EPS * scale)
    rec.bound('on the great circle', np.where(ok, ref.dot(n, c), 0), tol)
    foot = P - c * ref.dot(c, P)
    cos = ref.norm(foot)
    # dot(n, P) is largest possible: the cosine of the smallest distance. Near the pole of the
    # path any point of the circle is as close to within the tolerance.
    dist = ref.angle(*np.broadcast_arrays(n, P))
    best = np.arctan2(np.abs(ref.dot(c, P)), cos)
    rec.bound('as close as possible', np.where(ok, np.maximum(dist - best, 0), 0), 2 * tol + 4 * EPS)
    good = ok & (cos > 1e-6)
    want = foot / np.where(cos > 0, cos, 1)
    rec.close('foot point', np.where(good, n, 0), np.where(good, want, 0) * np.ones(n.shape),
              2 * tol / np.where(good, cos, 1) + 4 * EPS)
    if np.any(cos < 1e-7):
        rec.label('at_the_pole_of_the_path')
    if np.any(cos == 0):
        rec.label('exactly_at_the_pole_of_the_path')
    return ok


def func_case():
    def build(n, scalar):
        nvec = dict(z=st.just(0.0), kinds=('nvec',))
        return st.fixed_dictionaries(dict(
            path=gen.pair_n(n, False, **nvec), along=gen.vec(st.floats(-3.1, 3.1), n),
            off=gen.vec(offset(), n), free=gen._point(n, False, gen.lat_deg(), gen.lon_deg(),
                                                      st.just(0.0), ('nvec',)),
            use=st.sampled_from(['free', 'placed', 'placed', 'axis', 'end']), axes=gen.axes(),
            one=st.sampled_from(['no', 'no', 'no', 'a', 'b'])))
    return gen.shaped(build)


@facet('C15', 'closest_point_on_great_circle', func_case(), 8000,
       rule='closest_point_on_great_circle for paths of 1e-7 rad to nearly antipodal and '
            'points at any offset, exactly or nearly at the pole of the path, at the ends; n x n '
            'and one-to-many; oracle: on the circle and distance not above the minimal one; '
            'non-trivial: proper path and point not on the circle')
def func(case, rec):
    C = ref.C[case['axes']]
    pa, pb = case['path']
    A, B = ref.f64(C @ canon(pa)), ref.f64(C @ canon(pb))
    use = case['use']
    if use == 'axis':                  # an exact pole: meridian or equator
        A = np.tile(np.array([[1.0], [0], [0]]), A.shape[1])
        B = np.tile(np.array([[0], [1.0], [0]]), A.shape[1])
        P = np.tile(np.array([[0], [0], [1.0]]), A.shape[1])
        perm = [[0, 1, 2], [1, 2, 0], [2, 0, 1]][len(case['off']) % 3]
        A, B, P = A[perm], B[perm], P[perm]
    Al, Bl = A.astype(LD), B.astype(LD)
    s = ref.norm(ref.cross(Al, Bl))
    if use == 'free' or not np.all(s > 1e-12):
        P = ref.f64(C @ canon(case['free']))
    elif use == 'placed':
        P = ref.f64(place(Al, Bl, np.array(case['along']), np.array(case['off'])))
    elif use == 'end':
        P = B.copy()
    if case['one'] == 'a':
        A, B = A[:, :1], B[:, :1]
    elif case['one'] == 'b':
        P = P[:, :1]
    k = max(A.shape[1], P.shape[1])
    got = arr(nv.closest_point_on_great_circle((A, B), P))
    rec.true('shape', got.shape == (3, k), got.shape)
    ok = judge_circle(rec, got, A.astype(LD), B.astype(LD), P.astype(LD))
    rec.label(use)
    if case['one'] != 'no' and k > 1:
        rec.label('one_to_many')
    rec.nontrivial = bool(np.any(ok)) and use != 'end'


def circle_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            path=gen.pair_n(n, scalar, sep=gen.moderate_separation(), free=False),
            along=gen.vec(st.floats(-3.1, 3.1), n), off=gen.vec(offset(), n),
            z=gen.vec(gen.depth(), n), kinds=st.tuples(*[st.sampled_from(gen.KINDS)] * 3),
            frame=gen.frame(), one=st.sampled_from(['no', 'no', 'no', 'a', 'b'])))
    return gen.shaped(build, maxn=8)


def objects_of(case):
    spec = case['frame']
    a, f, axes = ellipsoid_of(spec)
    clip = lambda p, kind: dict(p, kind=kind, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in p['z']])
    pa, pb = [clip(p, kd) for p, kd in zip(case['path'], case['kinds'])]
    first = lambda p: dict(p, lat=p['lat'][:1], lon=p['lon'][:1], z=p['z'][:1], scalar=True)
    P = place(canon(pa), canon(pb), np.array(case['along']), np.array(case['off']))
    lat, lon = ref.latlon(P)
    pc = clip(dict(lat=[float(x) for x in np.degrees(lat)], lon=[float(x) for x in np.degrees(lon)],
                   z=case['z'], scalar=pa['scalar']), case['kinds'][2])
    if case['one'] == 'a':
        pa, pb = first(pa), first(pb)
    elif case['one'] == 'b':
        pc = first(pc)
    frame = mkframe(spec)
    far = 1.0 + 8 * sum(1 + max(abs(z) for z in p['z']) / a for p in (pa, pb, pc)
                        if p['kind'] == 'ecef')
    return frame, (pa, pb, pc), [mkpoint(p, frame, spec) for p in (pa, pb, pc)], far, a


@facet('C15', 'GeoPath.closest_point_on_great_circle', circle_case(), 4000,
       rule='GeoPath.closest_point_on_great_circle for all position types, frames, depths, '
            'scalar/vector/one-to-many: same oracle on latitude/longitude, mean depth of the '
            'endpoints, frame kept; non-trivial: endpoints at different depths')
def circle(case, rec):
    frame, (pa, pb, pc), (A, B, P), far, a = objects_of(case)
    got = GeoPath(A, B).closest_point_on_great_circle(P)
    rec.true('type', isinstance(got, GeoPoint), type(got))
    same_frame(rec, 'frame', got, frame)
    k = max(len(pa['z']), len(pc['z']))
    n = geo_n(got)
    rec.true('number of points', n.shape[1] == k, n.shape)
    judge_circle(rec, n, canon(pa), canon(pb), canon(pc), 3 * far)
    zA, zB = ref.ld(pa['z']), ref.ld(pb['z'])
    z = flat(geo_parts(got)[2])
    if z.size == 1 and k > 1:
        z = z * np.ones(k)
    zs = np.max(np.abs(zA)) + np.max(np.abs(zB)) + \
        (8 * far * a if 'ecef' in (pa['kind'], pb['kind']) else 0)
    rec.close('mean depth', z, (zA + zB) / 2 * np.ones(k), 16 * EPS * zs)
    rec.label('kinds_%s_%s_%s' % case['kinds'] if isinstance(case['kinds'], tuple) else 'kinds')
    rec.nontrivial = bool(np.any(zA != zB))


def segment_case():
    sep = st.one_of(st.floats(0.01, 3.1), gen.logu(1e-4, 1.0), st.sampled_from([2.2, 3.0, 0.5]))
    z = st.one_of(gen.depth(-3e8, 1e5), st.just(0.0))
    return st.fixed_dictionaries(dict(
        path=gen.pair_n(1, True, sep=sep, z=z, free=False),
        # along track place in units of the length of the path, or anywhere
        where=st.one_of(st.floats(0.01, 0.99), st.floats(0.01, 0.99), st.floats(-0.5, 1.5),
                        st.floats(-40, 40), st.sampled_from([0.0, 1.0, 0.5])),
        off=gen.vec(offset(), 1), z=gen.vec(z, 1),
        kinds=st.tuples(*[st.sampled_from(gen.KINDS)] * 3),
        frame=gen.frame(), one=st.just('no')))


@facet('C15', 'GeoPath.closest_point_on_path', segment_case(), 6000,
       rule='GeoPath.closest_point_on_path (documented as not vectorized) for points beside, before, '
            'beyond, behind the globe of paths of 1e-4 rad to nearly half a turn, all position '
            'types, frames of 1e3 to 1e9 m, heights up to the Moon; oracle: the foot point if it '
            'is within the segment, else the nearer endpoint; non-trivial: distance to the '
            'path above 1e-9 rad')
def segment(case, rec):
    spec = case['frame']
    pa, pb = case['path']
    theta = ref.angle(canon(pa), canon(pb))
    along = float(case['where'] * theta[0])
    along = float(ref.wrap(along))
    case = dict(case, along=[along])
    frame, (pa, pb, pc), (A, B, P), far, a = objects_of(case)
    gA, gB, gP = canon(pa), canon(pb), canon(pc)
    cr = ref.cross(gA, gB)
    s = ref.norm(cr)
    if s[0] < 1e-5:
        rec.label('too_short')
        return
    c = cr / s
    t = ref.cross(c, gA)
    cosoff = ref.norm(gP - c * ref.dot(c, gP))
    tol = 3 * far * (8 * EPS + 6 * EPS / s)
    th = np.arctan2(ref.dot(gB, t), ref.dot(gB, gA))
    x = np.arctan2(ref.dot(gP, t), ref.dot(gP, gA))           # place of the foot along the path
    inside = (x >= 0) & (x <= th)
    dA, dB = ref.angle(gA, gP), ref.angle(gB, gP)
    foot = np.arctan2(np.abs(ref.dot(c, gP)), cosoff)
    best = np.where(inside, foot, np.minimum(dA, dB))
    got = GeoPath(A, B).closest_point_on_path(P)
    rec.true('type', isinstance(got, GeoPoint), type(got))
    same_frame(rec, 'frame', got, frame)
    n = geo_n(got)
    rec.true('one point', n.shape == (3, 1), n.shape)
    d = ref.angle(n, gP)
    rec.bound('as close as any other point of the segment', np.maximum(d - best, 0), 4 * tol)
    rec.bound('on the great circle', ref.dot(n, c), 2 * tol)
    xn = np.arctan2(ref.dot(n, t), ref.dot(n, gA))
    rec.true('within the segment', (xn >= -4 * tol) & (xn <= th + 4 * tol), (xn, th))
    margin = 1e-6 + 1e-6 / np.maximum(cosoff, 1e-12)
    z = flat(geo_parts(got)[2], 1)
    zA, zB = ref.ld(pa['z']), ref.ld(pb['z'])
    zs = abs(zA) + abs(zB) + (8 * far * a if 'ecef' in (pa['kind'], pb['kind']) else 0)
    if cosoff[0] > 1e-4:
        if margin < x < th - margin:
            rec.label('foot_inside')
            rec.close('mean depth', z, (zA + zB) / 2, 16 * EPS * zs)
        elif not (-margin < x < th + margin) and abs(dA - dB) > 1e-9:
            rec.label('nearer_a' if dA < dB else 'nearer_b')
            rec.close('depth of the endpoint', z, zA if dA < dB else zB, 16 * EPS * zs)
            rec.close('the endpoint', n, gA if dA < dB else gB, far * 32 * EPS)
    if th > 2 * np.pi / 3:
        rec.label('longer_than_120_degrees')
    rec.nontrivial = bool(foot[0] > 1e-9)
