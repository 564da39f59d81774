"""C07 great circle and Euclidean distance"""
import numpy as np
import nvector as nv
from nvector import GeoPath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import mkframe, mkpoint, ellipsoid_of, canon, canon_p, tup, flat, is_scalar

R0 = 6371009.0


def func_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            pair=gen.pair_n(n, scalar, z=st.just(0.0), kinds=('nvec',)),
            axes=gen.axes(), radius=st.one_of(gen.semi_major(1e-3, 1e12), gen.semi_major(1e-3, 1e12),
                                         st.just(0.0)), default=st.booleans(),
            rvec=st.booleans(), radii=gen.vec(gen.semi_major(1.0, 1e9), n),
            one=st.sampled_from(['no', 'no', 'no', 'a', 'b'])))
    return gen.shaped(build)


@facet('C07', 'functions', func_case(), 8000,
       rule='great_circle_distance and euclidean_distance of pairs from coincident through '
            '1e-16 rad to antipodal and anywhere, n x n and one-to-many, any radius; '
            'non-trivial: two different n-vectors')
def functions(case, rec):
    pa, pb = case['pair']
    C = ref.C[case['axes']]
    A, B = ref.f64(C @ canon(pa)), ref.f64(C @ canon(pb))
    if case['one'] == 'a':
        A = A[:, :1]
    elif case['one'] == 'b':
        B = B[:, :1]
    k = max(A.shape[1], B.shape[1])
    theta = ref.angle(*np.broadcast_arrays(A.astype(LD), B.astype(LD)))
    chord = ref.norm(B.astype(LD) - A.astype(LD))
    kw = {}
    radius = R0
    if case['rvec'] and k > 1 and k == len(case['radii']):
        radius = np.array(case['radii'])
        kw['radius'] = radius
        rec.label('vector_radius')
    elif not case['default']:
        radius = case['radius']
        kw['radius'] = radius
    s = flat(nv.great_circle_distance(A, B, **kw), k)
    d = flat(nv.euclidean_distance(A, B, **kw), k)
    tol = 6 * EPS * radius * np.ones(k)
    rec.close('great circle distance', s, theta * radius, tol + 8 * EPS * theta * radius)
    rec.close("euclidean distance", d, chord * radius, 2 * tol)
    rec.true('non-negative', (s >= 0) & (d >= 0), (s, d))
    rec.close('symmetric', nv.great_circle_distance(B, A, **kw), s, tol)
    rec.close('symmetric euclidean', nv.euclidean_distance(B, A, **kw), d, tol)
    same = np.all(A == B, axis=0)
    if np.any(same):
        rec.label('coincident')
        rec.close('zero for equal positions', np.where(same, s, 0), np.zeros(k), 0)
        rec.close('zero for equal positions', np.where(same, d, 0), np.zeros(k), 0)
    if np.any(theta > np.pi - 1e-6):
        rec.label('antipodal')
    if np.any((theta > 0) & (theta < 1e-7)):
        rec.label('closer_than_1e-7')
    if np.any((theta > 0) & (theta < 1e-12)):
        rec.label('closer_than_1e-12')
    if case['one'] != 'no' and k > 1:
        rec.label('one_to_many')
    rec.nontrivial = bool(np.any(theta > 0))


def path_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            pair=gen.pair_n(n, scalar), frame=gen.frame(), kindb=st.sampled_from(gen.KINDS),
            radius=st.one_of(st.none(), gen.semi_major(1.0, 1e9), gen.semi_major(1.0, 1e9),
                              st.just(0.0)),
            method=st.sampled_from(['greatcircle', 'euclidean', 'great', 'gc', 'eu', None]),
            one=st.sampled_from(['no', 'no', 'a', 'b'])))
    return gen.shaped(build, maxn=8)


@facet('C07', 'paths', path_case(), 5000,
       rule='GeoPath.track_distance (default and given radius, both methods) and '
            'distance_and_azimuth(method="greatcircle") for all position types, depths, frames, '
            'scalar/vector/one-to-many; non-trivial: two different positions with depth')
def paths(case, rec):
    (pa, pb), spec = case['pair'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    pa = dict(pa, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in pa['z']])
    pb = dict(pb, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in pb['z']], kind=case['kindb'])
    if case['one'] == 'a':
        pa = dict(pa, lat=pa['lat'][:1], lon=pa['lon'][:1], z=pa['z'][:1], scalar=True)
    elif case['one'] == 'b':
        pb = dict(pb, lat=pb['lat'][:1], lon=pb['lon'][:1], z=pb['z'][:1], scalar=True)
    frame = mkframe(spec)
    A, B = mkpoint(pa, frame, spec), mkpoint(pb, frame, spec)
    k = max(len(pa['lat']), len(pb['lat']))
    gA, gB = np.broadcast_arrays(canon(pa), canon(pb))
    theta, chord = ref.angle(gA, gB), ref.norm(gA - gB)
    mean = (ref.norm(canon_p(pa, spec)) + ref.norm(canon_p(pb, spec))) / 2 * np.ones(k)
    scale = (a + np.max(np.abs(pa['z'])) + np.max(np.abs(pb['z']))) / a   # n from far ECEF
    path = GeoPath(A, B)
    kw = {}
    if case['method'] is not None:
        kw['method'] = case['method']
    radius = mean
    if case['radius'] is not None:
        kw['radius'] = radius = case['radius']
    got = path.track_distance(**kw)
    want = (chord if (case['method'] or '')[:2] == 'eu' else theta) * radius * np.ones(k)
    tol = 64 * EPS * radius * np.ones(k)
    rec.close('track_distance', flat(got, k), want, tol)
    s, _za, _zb = tup(mkpoint(pa, frame, spec, kind='geo').distance_and_azimuth(B, method='greatcircle'), 3)
    rec.close('distance_and_azimuth', flat(s, k), theta * mean, 64 * EPS * mean)
    if case['radius'] is None and case['method'] == 'greatcircle':
        rev = GeoPath(B, A).track_distance()
        rec.close('symmetric', flat(rev, k), flat(got, k), 8 * EPS * mean)
    rec.label('kinds_%s_%s' % (pa['kind'], pb['kind']))
    rec.nontrivial = bool(np.any(theta > 0)) and any(z != 0 for z in pa['z'] + pb['z'])
