"""C14 cross track distance"""
import numpy as np
import nvector as nv
from nvector import GeoPath
from nvector.core import great_circle_normal
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import mkframe, mkpoint, ellipsoid_of, canon, canon_p, flat

R0 = 6371009.0
METHODS = ['greatcircle', 'greatcircle', 'great', 'Greatcircle', 'gc', 'euclidean', 'Euclidean', 'e',
           'EUCLIDEAN']


@gen.memo
def offset():
    """cross track angle [rad]"""
    return st.one_of(st.floats(-gen.PI / 2, gen.PI / 2), gen.signed_logu(1e-15, 1.5),
                     gen.signed_logu(1e-15, 1.5).map(
                         lambda x: (1 if x > 0 else -1) * gen.PI / 2 - x),
                     st.sampled_from([0.0, gen.PI / 2, -gen.PI / 2, 1e-9, -1e-6]))


def place(A, B, along, off):
    """long double n-vector at along-track angle and signed offset (right positive)"""
    c = ref.unit(ref.cross(A, B))
    A = ref.unit(A)
    t = ref.cross(c, A)
    along, off = ref.ld(along), ref.ld(off)
    return (A * np.cos(along) + t * np.sin(along)) * np.cos(off) - c * np.sin(off)


def func_case():
    def build(n, scalar):
        nvec = dict(z=st.just(0.0), kinds=('nvec',))
        return st.fixed_dictionaries(dict(
            path=gen.pair_n(n, False, **nvec), along=gen.vec(st.floats(-3.1, 3.1), n),
            off=gen.vec(offset(), n), free=gen._point(n, False, gen.lat_deg(), gen.lon_deg(),
                                                      st.just(0.0), ('nvec',)),
            use_free=st.booleans(), axes=gen.axes(), method=st.sampled_from(METHODS + [None]),
            radius=st.one_of(st.none(), gen.semi_major(1e-3, 1e12), gen.semi_major(1e-3, 1e12),
                              st.just(0.0)),
            rvec=st.sampled_from([False, False, True]), radii=gen.vec(gen.semi_major(1.0, 1e9), n),
            one=st.sampled_from(['no', 'no', 'no', 'a', 'b'])))
    return gen.shaped(build)


@facet('C14', 'cross_track_distance', func_case(), 8000,
       rule='cross_track_distance and great_circle_normal for paths of 1e-6 rad to nearly '
            'antipodal and points placed at a known offset (1e-15 rad to a quarter turn, on the '
            'pole of the path) or anywhere; methods in any case/abbreviation, radii, n x n and '
            'one-to-many; oracle: long double signed angle; path reversal; distance to the '
            'closest point; non-trivial: a proper path and an offset above 1e-12')
def func(case, rec):
    C = ref.C[case['axes']]
    pa, pb = case['path']
    A, B = ref.f64(C @ canon(pa)), ref.f64(C @ canon(pb))
    k = A.shape[1]
    if case['one'] == 'a':
        A, B = A[:, :1], B[:, :1]
    Al, Bl = A.astype(LD), B.astype(LD)
    s = ref.norm(ref.cross(Al, Bl))
    proper = s > 1e-7
    if case['use_free'] or not np.all(s > 1e-12):
        P = ref.f64(C @ canon(case['free']))
    else:
        P = ref.f64(place(Al, Bl, np.array(case['along']), np.array(case['off'])))
        rec.label('placed')
    if case['one'] == 'b':
        P = P[:, :1]
    k = max(A.shape[1], P.shape[1])
    Pl = P.astype(LD)
    with np.errstate(all='ignore'):
        c = ref.unit(ref.cross(Al, Bl))
    sin = -ref.dot(c, Pl)
    cos = ref.norm(ref.cross(*np.broadcast_arrays(c, Pl)))
    theta = np.arctan2(sin, cos)
    tol = (8 * EPS + 6 * EPS / np.where(s > 0, s, 1)) * np.ones(k)
    ok = np.broadcast_to(proper, (k,))
    radius, kw = R0, {}
    if case['rvec'] and k == len(case['radii']):
        radius = np.array(case['radii'])
        kw['radius'] = radius
        rec.label('vector_radius')
    elif case['radius'] is not None:
        kw['radius'] = radius = case['radius']
    if case['method'] is not None:
        kw['method'] = case['method']
    eu = (case['method'] or 'g')[0].lower() == 'e'
    d = flat(nv.cross_track_distance((A, B), P, **kw), k)
    want = (sin if eu else theta) * radius
    rec.close('signed distance', np.where(ok, d, 0), np.where(ok, want, 0), tol * radius)
    rec.true('at most a quarter turn', np.where(
        ok, np.abs(d) <= radius * (1 if eu else np.pi / 2) * (1 + 4 * EPS), True), d)
    rev = flat(nv.cross_track_distance((B, A), P, **kw), k)
    rec.close('reversed path', np.where(ok, rev, 0), np.where(ok, -d, 0), tol * radius)
    nc = arr(great_circle_normal(A, B))
    rec.close('great_circle_normal', np.where(proper, nc, 0), np.where(proper, c, 0),
              8 * EPS + 4 * EPS / np.where(s > 0, s, 1))
    if not eu and np.all(proper):
        near = arr(nv.closest_point_on_great_circle((A, B), P))
        good = (cos > 1e-6) & (radius > 0)
        dist = ref.angle(*np.broadcast_arrays(near.astype(LD), Pl))
        rec.close('distance to the closest point', np.where(good, dist, 0),
                  np.where(good, np.abs(d) / np.where(radius > 0, radius, 1), 0), tol + 8 * EPS / np.where(good, cos, 1))
    th = np.abs(theta[ok]) if np.any(ok) else np.zeros(0)
    if np.any(th < 1e-9):
        rec.label('on_the_circle')
    if np.any(th > np.pi / 2 - 1e-6):
        rec.label('at_the_pole_of_the_path')
    if np.any(theta[ok] < -1e-9):
        rec.label('left')
    if np.any(theta[ok] > 1e-9):
        rec.label('right')
    if case['one'] != 'no' and k > 1:
        rec.label('one_to_many')
    rec.label('euclidean' if eu else 'greatcircle')
    rec.nontrivial = bool(np.any(ok) and np.any(th > 1e-12))


def path_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            path=gen.pair_n(n, scalar, sep=gen.moderate_separation()),
            along=gen.vec(st.floats(-3.1, 3.1), n), off=gen.vec(offset(), n),
            z=gen.vec(gen.depth(), n), kinds=st.tuples(*[st.sampled_from(gen.KINDS)] * 3),
            frame=gen.frame(), method=st.sampled_from(METHODS + [None]),
            radius=st.one_of(st.none(), st.none(), gen.semi_major(1e-3, 1e12),
                              gen.semi_major(1e-3, 1e12), st.just(0.0)),
            one=st.sampled_from(['no', 'no', 'no', 'a', 'b'])))
    return gen.shaped(build, maxn=8)


@facet('C14', 'GeoPath.cross_track_distance', path_case(), 5000,
       rule='GeoPath.cross_track_distance for all position types, depths, frames, methods, '
            'default (mean endpoint distance from the centre) and given radius, scalar/vector/'
            'one-to-many; same oracle; non-trivial: offset above 1e-12 rad')
def paths(case, rec):
    spec = case['frame']
    a, f, axes = ellipsoid_of(spec)
    clip = lambda p, kind: dict(p, kind=kind, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in p['z']])
    pa, pb = [clip(p, kd) for p, kd in zip(case['path'], case['kinds'])]
    first = lambda p: dict(p, lat=p['lat'][:1], lon=p['lon'][:1], z=p['z'][:1], scalar=True)
    P = place(canon(pa), canon(pb), np.array(case['along']), np.array(case['off']))
    lat, lon = ref.latlon(P)
    pc = clip(dict(lat=[float(x) for x in np.degrees(lat)], lon=[float(x) for x in np.degrees(lon)],
                   z=case['z'], scalar=pa['scalar']), case['kinds'][2])
    if case['one'] == 'a':
        pa, pb = first(pa), first(pb)
    elif case['one'] == 'b':
        pc = first(pc)
    frame = mkframe(spec)
    A, B, Cc = [mkpoint(p, frame, spec) for p in (pa, pb, pc)]
    k = max(len(pa['lat']), len(pc['lat']))
    gA, gB, gC = canon(pa), canon(pb), canon(pc)
    cr = ref.cross(gA, gB)
    s = ref.norm(cr)
    ok = np.broadcast_to(s > 1e-7, (k,))
    c = cr / np.where(s > 0, s, 1)
    sin = -ref.dot(c, gC)
    cos = ref.norm(ref.cross(*np.broadcast_arrays(c, gC)))
    mean = (ref.norm(canon_p(pa, spec)) + ref.norm(canon_p(pb, spec))) / 2
    kw = {}
    radius = mean
    if case['radius'] is not None:
        kw['radius'] = radius = case['radius']
    if case['method'] is not None:
        kw['method'] = case['method']
    eu = (case['method'] or 'g')[0].lower() == 'e'
    want = (sin if eu else np.arctan2(sin, cos)) * radius * np.ones(k)
    d = flat(GeoPath(A, B).cross_track_distance(Cc, **kw), k)
    far = 1.0 + 8 * sum(1 + max(abs(z) for z in p['z']) / a for p in (pa, pb, pc)
                        if p['kind'] == 'ecef')
    tol = far * (16 * EPS + 16 * EPS / np.where(s > 0, s, 1)) * np.ones(k)
    rec.close('signed distance', np.where(ok, d, 0), np.where(ok, want, 0), tol * radius)
    if np.all(ok) and case['radius'] is None:
        rev = flat(GeoPath(B, A).cross_track_distance(Cc, **kw), k)
        rec.close('reversed path', rev, -d, tol * radius)
    rec.label('default_radius' if case['radius'] is None else 'given_radius',
              'euclidean' if eu else 'greatcircle')
    rec.nontrivial = bool(np.any(np.abs(sin) > 1e-12))
