"""C27 scalar positions give scalar results, vectors give vectors"""
import numpy as np
from nvector import (ECEFvector, FrameB, FrameL, FrameN, GeoPath, GeoPoint, Nvector, Pvector,
                     delta_E, delta_L, delta_N)
from hypothesis import strategies as st

from pbt import gen, hist
from pbt.core import Violation, arr, attr, facet
from pbt.nv import ellipsoid_of, mkframe, mkpoint


def make_case():
    def build(n):
        z = gen.small_depth()

        def point():
            full = gen._point(n, False, gen.lat_deg(), gen.lon_deg(), z, gen.KINDS)
            return st.tuples(full, st.sampled_from(['S', 'S', '1', 'n', 'n'])).map(cut)
        num = st.tuples(gen.vec(st.floats(0.01, 3), n), st.sampled_from(['S', 'S', '1', 'n'])).map(list)
        allS = st.tuples(point(), point(), point(), point()).map(
            lambda t: [cut((p, 'S')) for p in t])
        mixed = st.tuples(point(), point(), point(), point()).map(list)
        return st.fixed_dictionaries(dict(
            p=st.one_of(mixed, mixed, allS), nums=st.tuples(num, num, num).map(list),
            frame=gen.frame(1e6, 1e8), t=st.floats(0, 1), path=st.lists(st.integers(0, 9),
                                                                         max_size=5),
            radius=st.one_of(st.none(), gen.logu(1, 1e8)), group=st.sampled_from(sorted(GROUPS))))
    return st.sampled_from([2, 2, 3, 4, 7]).flatmap(gen.memo(build))


def cut(t):
    p, how = t
    p = dict(p)
    if how != 'n':
        for key in ('lat', 'lon', 'z'):
            p[key] = p[key][:1]
    p['scalar'] = how == 'S'
    p['shape'] = how
    return p


def joint(*shapes):
    """shape of a result of these positions: () or (n,), given their own shapes"""
    return () if all(s == () for s in shapes) else (max(s[0] for s in shapes if s),)


def shape_of(p):
    return () if p['scalar'] else (len(p['lat']),)


class Check(object):
    def __init__(self, case, rec):
        self.rec, self.case = rec, case
        spec = case['frame']
        self.a = ellipsoid_of(spec)[0]
        self.frame = mkframe(spec)
        self.objs = [mkpoint(p, self.frame, spec, p['kind']) for p in case['p']]
        self.shapes = [shape_of(p) for p in case['p']]
        n = max(len(p['lat']) for p in case['p'])
        self.nums, self.nshapes = [], []
        for v, how in case['nums']:
            if how == 'S':
                self.nums.append(float(v[0]))
                self.nshapes.append(())
            else:
                v = v[:1] if how == '1' else v[:n]
                self.nums.append(np.array(v))
                self.nshapes.append((len(v),))

    def num(self, name, value, shape):
        value = arr(value, name)
        self.rec.true('%s: shape %s, expected %s' % (name, value.shape, shape),
                      value.shape == shape, repr(value))

    def position(self, name, x, shape):
        self.rec.true(name + ' scalar property', bool(attr(x, 'scalar')) == (shape == ()),
                      (x.scalar, shape))
        k = shape[0] if shape else 1
        if hasattr(x, 'latitude'):
            for part in ('latitude', 'longitude', 'z', 'latitude_deg', 'longitude_deg'):
                self.num(name + ' ' + part, attr(x, part), shape)
            for part in x.latlon + x.latlon_deg:
                self.num(name + ' latlon', part, shape)
        elif hasattr(x, 'normal'):
            self.num(name + ' normal', x.normal, (3, k))
            zs = np.shape(attr(x, 'z'))
            # the depth may be one number for all n positions
            self.rec.true(name + ' z', zs == shape or (zs == () and k > 1) or (zs == (1,) and k > 1),
                          (zs, shape))
        else:
            self.vector(name, x, shape)

    def vector(self, name, x, shape):
        k = shape[0] if shape else 1
        self.rec.true(name + ' scalar property', bool(attr(x, 'scalar')) == (shape == ()),
                      (x.scalar, shape))
        self.num(name + ' pvector', attr(x, 'pvector'), (3, k))
        for part in ('length', 'azimuth', 'elevation', 'azimuth_deg', 'elevation_deg'):
            self.num(name + ' ' + part, attr(x, part), shape)


GROUPS = {}


def group(fun):
    GROUPS[fun.__name__] = fun
    return fun


CONVERT = ('to_geo_point', 'to_nvector', 'to_ecef_vector')
KIND = dict(to_geo_point=GeoPoint, to_nvector=Nvector, to_ecef_vector=ECEFvector)


@group
def conversions(c):
    for x, s in zip(c.objs, c.shapes):
        c.position('given', x, s)
        for name in CONVERT:
            c.position(name, getattr(x, name)(), s)
            c.rec.true(name + ': kind', type(getattr(x, name)()) is KIND[name], x)
        y = x
        for step in c.case['path']:
            y = getattr(y, CONVERT[step % 3])()
            c.position('chain', y, s)
        y = c.frame.GeoPoint(*[q for q in x.to_geo_point().latlon])
        c.position('factory', y, s)


@group
def parts(c):
    """latitudes, longitudes and depths given in different shapes"""
    p = c.case['p'][0]
    if p['shape'] != 'n':
        return
    n = len(p['lat'])
    full, given = [], []
    for key, (_v, how) in zip(('lat', 'lon', 'z'), c.case['nums']):
        v = np.array(p[key], dtype=float)
        if how != 'n':
            v = np.repeat(v[:1], n)
        full.append(v)
        given.append(v[0] if how == 'S' else v[:1] if how == '1' else v)
    hows = [how for _v, how in c.case['nums']]
    if 'n' not in hows:
        return
    pairs = [(GeoPoint(*given, frame=c.frame, degrees=True),
              GeoPoint(*full, frame=c.frame, degrees=True))]
    q = c.frame.GeoPoint(*full, degrees=True).to_nvector()
    pairs.append((Nvector(q.normal, given[2], frame=c.frame),
                  Nvector(q.normal, full[2], frame=c.frame)))
    for x, y in pairs:
        c.position('parts', x, (n,))
        for name in CONVERT:
            u, v = getattr(x, name)(), getattr(y, name)()
            c.position('parts ' + name, u, (n,))
            if name != 'to_nvector' or np.shape(u.z) == np.shape(v.z):
                c.rec.true('parts %s: equal' % name, hist.equal(hist.describe(u), hist.describe(v)),
                           (u, v))


@group
def differences(c):
    (A, B), (a, b) = c.objs[:2], c.shapes[:2]
    s = joint(a, b)
    c.vector('delta_E', delta_E(A, B), s)
    c.vector('delta_N', delta_N(A, B), s)
    c.vector('delta_L', delta_L(A, B, 0.3), s)
    c.vector('delta_to', A.delta_to(B), s)
    e = delta_N(A, B).to_ecef_vector()
    c.vector('back', e, s)
    c.vector('sum', A.to_ecef_vector() + e, s)
    c.position('moved', (A.to_ecef_vector() + e).to_geo_point(), s)
    c.position('moved', (A.to_ecef_vector() + e).to_nvector(), s)


@group
def local(c):
    (A, B), (a, b) = c.objs[:2], c.shapes[:2]
    s = joint(a, b)
    if b == () and a == (1,):
        return            # a frame does not tell a scalar from a vector of one
    for name, F in (('N', FrameN(A)), ('L', FrameL(A, 0.2)), ('B', FrameB(A, 1.0, 0.5, 0.2))):
        x = B.to_ecef_vector().change_frame(F)
        c.vector('in ' + name, x, s)
        c.vector('back from ' + name, x.to_ecef_vector(), s)
        c.rec.true('kind', type(x) is Pvector, x)
        for conv in CONVERT:
            y = getattr(x, conv)()
            c.rec.true(conv + ' from ' + name + ': kind', type(y) is KIND[conv], y)
            c.position(conv + ' from ' + name, y, s)


@group
def distances(c):
    (A, B), (a, b) = c.objs[:2], c.shapes[:2]
    s = joint(a, b)
    g = A.to_geo_point()
    for m in ('ellipsoid', 'greatcircle'):
        for deg in (False, True):
            for part, val in zip(('distance', 'azimuth_a', 'azimuth_b'),
                                 g.distance_and_azimuth(B, method=m, degrees=deg)):
                c.num('%s %s' % (m, part), val, s)
    path = GeoPath(A, B)
    for m in ('greatcircle', 'euclidean', 'ellipsoidal'):
        c.num('track_distance ' + m, path.track_distance(method=m), s)
        c.num('track_distance radius ' + m, path.track_distance(method=m, radius=c.case['radius']), s)


@group
def displacements(c):
    A, a = c.objs[0], c.shapes[0]
    d, az = c.nums[:2]
    s = joint(a, *c.nshapes[:2])
    k = s[0] if s else 1
    g = A.to_geo_point()
    if a == () and s == (1,):
        return          # a scalar position displaced by vectors of one: see DESIGN.md
    for m in ('ellipsoid', 'greatcircle'):
        for deg in (False, True):
            p, ab = g.displace(d * 1e5, az, degrees=deg, method=m)
            c.position('displaced ' + m, p, s)
            c.num('azimuth_b ' + m, ab, s)


@group
def frame_problems(c):
    x, y, z = [np.minimum(v, 1.5) for v in c.nums]
    s = joint(*c.nshapes)
    for part in c.frame.inverse(x, y, z, 0.3):
        c.num('inverse', part, s)
    for part in c.frame.inverse(x, 0.1, 0.2, y, z=z, degrees=True):
        c.num('inverse', part, s)
    for part in c.frame.direct(x, y, z, 1e5):
        c.num('direct', part, s)
    for part in c.frame.direct(x, 0.2, y, 1e5, z=z, degrees=True):
        c.num('direct', part, s)


@group
def paths(c):
    A, B, C, D = c.objs
    a, b, cc, d = c.shapes
    path = GeoPath(A, B)
    s, s3 = joint(a, b), joint(a, b, cc)
    for m in ('greatcircle', 'euclidean'):
        c.num('cross_track ' + m, path.cross_track_distance(C, method=m), s3)
        c.num('cross_track radius ' + m,
              path.cross_track_distance(C, method=m, radius=c.case['radius']), s3)
    c.num('on_great_circle', path.on_great_circle(C), s3)
    for m in ('greatcircle', 'ellipsoid'):
        c.num('on_path ' + m, path.on_path(C, method=m), s3)
    c.position('closest', path.closest_point_on_great_circle(C), s3)
    x = path.interpolate(c.case['t'])
    c.position('interpolated', x, s)
    c.position('interpolated', x.to_geo_point(), s)
    c.position('interpolated', x.to_ecef_vector(), s)
    if s3 == ():
        c.position('closest on path', path.closest_point_on_path(C), s3)
    s4 = joint(a, b, cc, d)
    x = path.intersect(GeoPath(C, D))
    c.position('intersection', x, s4)
    c.position('intersection', x.to_geo_point(), s4)
    for parts in (path.nvectors(), path.geo_points(), path.ecef_vectors()):
        for y, t in zip(parts, (a, b)):
            c.position('end of path', y, t)


@group
def algebra(c):
    (A, B), (a, b) = c.objs[:2], c.shapes[:2]
    s = joint(a, b)
    n, m = A.to_nvector(), B.to_nvector()
    c.position('Nvector sum', n + m, s)
    c.position('Nvector difference', n - m, s)
    for y in (-n, n * 2.0, 2.0 * n, n / 2.0):
        c.position('Nvector multiple', y, a)
    e, f = A.to_ecef_vector(), B.to_ecef_vector()
    c.vector('ECEF sum', e + f, s)
    c.vector('ECEF difference', e - f, s)
    c.vector('ECEF negative', -e, a)
    c.position('mean', n.mean(), ())
    if a and a[0] > 1:
        x = n.interpolate([0.2, 0.4, 0.5], np.arange(float(a[0])))
        c.position('track', x, (3,))


@facet('C27', 'shapes', make_case(), 4500,
       rule='9 groups of methods on positions that are scalar, vectors of one or of n (2 to 7) in '
            'every mixture, all position types, random chains of conversions: scalar results '
            'exactly if all inputs are scalar, otherwise vectors of n; scalar property; '
            'non-trivial: at least two different shapes or a vector of one')
def shapes(case, rec):
    c = Check(case, rec)
    GROUPS[case['group']](c)
    rec.label(case['group'])
    kinds = {p['shape'] for p in case['p']}
    rec.nontrivial = len(kinds) > 1 or '1' in kinds
