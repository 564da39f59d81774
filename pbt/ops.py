"""Every public operation as a function of one 'problem', for the metamorphic properties.

A problem is plain data (four points with depths, a frame, azimuths, distances, ...). An
operation returns a list of Items in canonical axes; how ill-conditioned each one is is
measured by running the same operation on inputs that differ by a few rounding errors.
"""
import numpy as np
import nvector as nv
from nvector import (FrameB, FrameE, FrameL, FrameN, GeoPath, ECEFvector, Nvector, delta_E,
                     delta_L, delta_N)
from nvector.core import great_circle_normal
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import EPS, LD, Violation, arr, attr
from pbt.nv import ellipsoid_of, mkframe, mkpoint

ANGLES = ('lon', 'az', 'angle')


class Item(object):
    """label, kind, value (last axis: columns), floor of the tolerance, mask of clear columns"""

    def __init__(self, label, kind, val, floor=None, ok=True):
        self.label, self.kind = label, kind
        self.raw = val
        val = np.atleast_1d(arr(val, label))
        self.val = val if val.dtype == bool else val.astype(LD)
        self.floor = (16 * EPS) if floor is None else floor
        self.ok = ok


# ------------------------------------------------------------------ the object API
class ObjProblem(object):
    """Objects for a case. noise: None or a RandomState shaking the inputs by a few EPS."""

    def __init__(self, case, noise=None, amp=8 * EPS, kinds=None, spec=None, scale=None):
        self.case = case
        self.spec = spec = case['frame'] if spec is None else spec
        if scale is not None:           # the same problem on an Earth model of another size
            a, f, axes = ellipsoid_of(spec)
            self.spec = spec = dict(a=a * scale, f=f, axes=axes)
        s = 1.0 if scale is None else scale
        self.a, self.f, self.axes = ellipsoid_of(spec)
        self.C = ref.C[self.axes]
        self.frame = mkframe(spec)
        self.scalar = case['scalar']
        kinds = case['kinds'] if kinds is None else kinds
        self.pts, objs = {}, []
        for name, kind in zip('ABCD', kinds):
            p = dict(case[name], kind=kind, scalar=case['scalar'] or len(case[name]['lat']) == 1
                     and case.get('one') == name)
            p['z'] = [float(np.clip(z * s, -1e3 * self.a, 0.2 * self.a)) for z in p['z']]
            if noise is not None:
                p['lat'] = [x + 57.3 * amp * noise.uniform(-1, 1) for x in p['lat']]
                p['lon'] = [x + 57.3 * amp * noise.uniform(-1, 1) * (1 + abs(x) / 57.3)
                            for x in p['lon']]
                p['z'] = [x + amp * noise.uniform(-1, 1) * (abs(x) + (self.a if kind == 'ecef' else 0))
                          for x in p['z']]
            self.pts[name] = p
            objs.append(mkpoint(p, self.frame, spec, kind))
        self.A, self.B, self.Cc, self.D = objs
        num = lambda key: np.array(case[key], dtype=float)
        self.az, self.dist, self.ti = num('az'), num('dist') * self.a, num('ti')
        if noise is not None:
            sh = lambda x: x + amp * noise.uniform(-1, 1, x.shape) * (1 + np.abs(x))
            self.az, self.dist, self.ti = sh(self.az), sh(self.dist / self.a) * self.a, sh(self.ti)
        if self.scalar:
            self.az, self.dist, self.ti = float(self.az[0]), float(self.dist[0]), float(self.ti[0])
        self.wa, self.ypr, self.v = case['wa'], case['ypr'], s * np.array(case['v'], dtype=float)
        self.zmax = max(abs(z) for p in self.pts.values() for z in p['z'])
        self.size = self.a + self.zmax

    def ref_n(self, name):
        from pbt.nv import canon
        return canon(self.pts[name])


def _geo(P, g, label='point'):
    lat, lon, z = arr(attr(g, 'latitude')), arr(attr(g, 'longitude')), arr(attr(g, 'z'))
    c = np.maximum(np.abs(np.cos(lat)), 1e-300)
    return [Item(label + ' latitude', 'lat', lat), Item(label + ' longitude', 'lon', lon,
                                                        16 * EPS * (1 + 1 / c + np.abs(lon))),
            Item(label + ' depth', 'z', z, 32 * EPS * P.size), _frame(P, g, label, lat.size)]


def _frame(P, x, label, n):
    """whether it is in the frame of the problem"""
    return Item(label + ' in the frame', 'plain', np.full(n, float(bool(attr(x, 'frame') == P.frame))))


def _E(P, label, v, scale=1.0, kind='E'):
    v = arr(v, label)
    return Item(label, kind, P.C.T @ v.astype(LD), 32 * EPS * scale)


def _nvec(P, x, label='n-vector'):
    return [_E(P, label, attr(x, 'normal')),
            Item(label + ' depth', 'z', np.atleast_1d(attr(x, 'z')), 32 * EPS * P.size),
            _frame(P, x, label, np.shape(attr(x, 'normal'))[1])]


def _ecef(P, x, label='ECEF vector'):
    return [_E(P, label, attr(x, 'pvector'), P.size),
            _frame(P, x, label, np.shape(attr(x, 'pvector'))[1])]


def _polar(P, x, label, kind='N'):
    v = attr(x, 'pvector')
    length = np.atleast_1d(np.asarray(np.linalg.norm(v, axis=0), dtype=float))
    hor = np.maximum(np.hypot(v[0], v[1]), 1e-300)
    tiny = np.maximum(length, 1e-300)
    out = [Item(label, kind, v, 64 * EPS * P.size),
           Item(label + ' length', 'len', np.atleast_1d(attr(x, 'length')), 64 * EPS * P.size)]
    if kind == 'N':
        out.append(Item(label + ' azimuth', 'az', np.atleast_1d(attr(x, 'azimuth')),
                        16 * EPS + 64 * EPS * P.size / hor, ok=length > 64 * EPS * P.size))
        out.append(Item(label + ' elevation', 'elev', np.atleast_1d(attr(x, 'elevation')),
                        np.minimum(64 * EPS * (P.size / tiny) * tiny / hor,
                                   1e-7 + 64 * EPS * P.size / tiny),
                        ok=length > 64 * EPS * P.size))
    return out


OBJ = {}


def op(fun):
    OBJ[fun.__name__] = fun
    return fun


@op
def conversions(P):
    out = []
    for X in (P.A, P.B):
        out += _nvec(P, X.to_nvector()) + _ecef(P, X.to_ecef_vector()) + _geo(P, X.to_geo_point())
    return out


@op
def chains(P):
    x = P.A.to_ecef_vector().to_geo_point().to_nvector().to_ecef_vector().to_nvector()
    y = P.A.to_geo_point().to_ecef_vector().to_nvector()
    return _nvec(P, x, 'chain 1') + _geo(P, x.to_geo_point(), 'chain 1') + _nvec(P, y, 'chain 2') \
        + _geo(P, y.to_geo_point().to_nvector().to_geo_point(), 'chain 3')


@op
def degrees(P):
    g = P.A.to_geo_point()
    lat, lon, z = g.latlon_deg
    return [Item('latitude_deg', 'deg', g.latitude_deg, 2e-14),
            Item('latlon_deg 0', 'deg', lat, 2e-14), Item('latlon_deg 2', 'z', z, 32 * EPS * P.size),
            Item('longitude_deg', 'londeg', lon, 2e-14 * (2 + 1 / np.maximum(
                np.abs(np.cos(np.deg2rad(lat))), 1e-300)))]


@op
def op_delta_E(P):
    d = delta_E(P.A, P.B)
    return [_E(P, 'delta_E', attr(d, 'pvector'), 2 * P.size),
            Item('delta_E length', 'len', np.atleast_1d(d.length), 64 * EPS * P.size)]


@op
def op_delta_N(P):
    return _polar(P, delta_N(P.A, P.B), 'delta_N')


@op
def delta_to(P):
    return _polar(P, P.B.delta_to(P.A), 'delta_to')


@op
def op_delta_L(P):
    return _polar(P, delta_L(P.A, P.B, P.wa), 'delta_L', 'L')


@op
def frames(P):
    out = []
    k = np.size(P.pts['A']['lat'])
    for label, F in (('N', FrameN(P.A)), ('L', FrameL(P.A, P.wa)), ('B', FrameB(P.A, *P.ypr))):
        R = arr(F.R_EN).reshape(3, 3, k).astype(LD)
        out.append(Item('R_E' + label, 'R' + label, np.einsum('ji,jkn->ikn', P.C, R), 32 * EPS))
    return out


@op
def body(P):
    F = FrameB(P.A, *P.ypr)
    k = np.size(P.pts['A']['lat'])
    v = np.repeat(P.v.reshape(3, 1), k, axis=1)
    e = F.Pvector(v).to_ecef_vector()
    s = float(np.max(np.abs(P.v)))
    P.size = P.size + s
    x = P.A.to_ecef_vector() + e
    return [_E(P, 'B to E', e.pvector, s + 1e-300)] + _geo(P, x.to_geo_point(), 'added') \
        + _ecef(P, x, 'added')


@op
def change_frame(P):
    out = []
    for label, F in (('N', FrameN(P.A)), ('L', FrameL(P.A, P.wa)), ('B', FrameB(P.A, *P.ypr))):
        p = P.B.to_ecef_vector().change_frame(F)
        out.append(Item('in ' + label, label, p.pvector, 64 * EPS * P.size))
        out.append(_E(P, 'back from ' + label, p.to_ecef_vector().pvector, 4 * P.size))
    return out


@op
def distance_ellipsoid(P):
    return _daz(P, P.A.to_geo_point().distance_and_azimuth(P.B))


def _daz(P, r, deg=False):
    s, a, b = r
    s = np.atleast_1d(s)
    cond = P.size / np.maximum(np.abs(s), 1e-300)
    cos = np.minimum(np.maximum(np.abs(np.cos(np.deg2rad(P.pts['A']['lat']))), 1e-300),
                     np.maximum(np.abs(np.cos(np.deg2rad(P.pts['B']['lat']))), 1e-300))
    fl = EPS * (64 + 64 * cond + 4 / cos)
    # two equally short geodesics
    lat1, lat2 = np.array(P.pts['A']['lat']), np.array(P.pts['B']['lat'])
    dlon = np.abs((np.array(P.pts['A']['lon']) - np.array(P.pts['B']['lon']) + 180) % 360 - 180)
    ok = ~((dlon > 180 - 1e-6) | ((np.abs(lat1 + lat2) < 1e-6) & (dlon > 170)))
    return [Item('distance', 'len', s, 64 * EPS * P.size),
            Item('azimuth_a', 'az', np.atleast_1d(a), fl, ok=ok),
            Item('azimuth_b', 'az', np.atleast_1d(b), fl, ok=ok)]


@op
def distance_greatcircle(P):
    return _daz(P, P.A.to_geo_point().distance_and_azimuth(P.B, method='greatcircle'))


@op
def displace_ellipsoid(P):
    g, az = P.A.to_geo_point().displace(P.dist, P.az)
    c = np.maximum(np.abs(np.cos(np.atleast_1d(g.latitude))), 1e-300)
    return _geo(P, g) + [Item('azimuth_b', 'az', np.atleast_1d(az), EPS * (64 + 64 / c))]


@op
def displace_greatcircle(P):
    g, az = P.A.to_geo_point().displace(P.dist, P.az, method='greatcircle')
    c = np.maximum(np.abs(np.cos(np.atleast_1d(g.latitude))), 1e-300)
    # azimuth_b jumps at zero and at half turns
    s = np.abs(np.sin(np.atleast_1d(P.dist) / _radius(P, 'A')))
    return _geo(P, g) + [Item('azimuth_b', 'az', np.atleast_1d(az),
                              EPS * (64 + 64 / c) + 256 * EPS * P.size / P.a
                              / np.maximum(s, 1e-300), ok=s > 1e-6)]


def _radius(P, name):
    from pbt.nv import canon_p
    return ref.f64(ref.norm(canon_p(P.pts[name], P.spec)))


def _path(P):
    return GeoPath(P.A, P.B)


@op
def track_distance(P):
    p = _path(P)
    return [Item('track ' + m, 'len', np.atleast_1d(p.track_distance(method=m)), 64 * EPS * P.size)
            for m in ('greatcircle', 'euclidean', 'ellipsoidal')] + \
        [Item('track radius', 'len', np.atleast_1d(p.track_distance(radius=3.0)), 64 * EPS)]


@op
def path_parts(P):
    p = _path(P)
    out = []
    for x in p.nvectors():
        out += _nvec(P, x)
    for x in p.geo_points():
        out += _geo(P, x)
    for x in p.ecef_vectors():
        out += _ecef(P, x)
    return out + [_E(P, 'normal', x) for x in p.nvector_normals()]


def _s(P, *names):
    """sine of the length of the path"""
    a, b = [P.ref_n(x) for x in names]
    return ref.f64(ref.norm(ref.cross(a, b)))


@op
def cross_track(P):
    p = _path(P)
    s = _s(P, 'A', 'B')
    fl, ok = 64 * EPS * P.size * (1 + 1 / np.maximum(s, 1e-300)), s > 1e-8
    return [Item('cross track', 'xtd', np.atleast_1d(p.cross_track_distance(P.Cc)), fl, ok),
            Item('cross track euclidean', 'xtd',
                 np.atleast_1d(p.cross_track_distance(P.Cc, method='euclidean')), fl, ok),
            Item('cross track radius', 'xtd',
                 np.atleast_1d(p.cross_track_distance(P.Cc, radius=2.0)), 2 * fl / P.size, ok)]


@op
def intersect(P):
    x = _path(P).intersect(GeoPath(P.Cc, P.D))
    a, b, c, d = [P.ref_n(q) for q in 'ABCD']
    with np.errstate(all='ignore'):
        cr = ref.cross(ref.unit(ref.cross(a, b)), ref.unit(ref.cross(c, d)))
        s = ref.norm(cr)
        tie = np.abs(ref.dot(*np.broadcast_arrays(cr / s, a)))
    fl = 64 * EPS * (1 + (1 / np.maximum(_s(P, 'A', 'B'), 1e-300)
                          + 1 / np.maximum(_s(P, 'C', 'D'), 1e-300)) / np.maximum(s, 1e-300))
    ok = (tie > 1e-6) & (fl < 1e-8)
    out = _nvec(P, x, 'intersection')
    out[0].ok, out[0].floor = ok, np.asarray(fl, dtype=float)
    g = x.to_geo_point()
    lat = Item('intersection latitude', 'lat', g.latitude, np.asarray(fl, dtype=float), ok=ok)
    return out + [lat]


@op
def closest_on_circle(P):
    g = _path(P).closest_point_on_great_circle(P.Cc)
    a, b, c = [P.ref_n(q) for q in 'ABC']
    with np.errstate(all='ignore'):
        cr = ref.unit(ref.cross(a, b))
        cos = ref.norm(ref.cross(*np.broadcast_arrays(cr, c)))
    s = _s(P, 'A', 'B')
    ok = (s > 1e-7) & (cos > 1e-6)
    fl = np.asarray(64 * EPS * (1 + 1 / np.maximum(s, 1e-300)) / np.maximum(cos, 1e-300), dtype=float)
    out = _geo(P, g, 'closest')
    for it in out[:2]:
        it.ok, it.floor = ok, it.floor * fl / EPS / 16
    return out


@op
def closest_on_path(P):
    if np.size(P.pts['A']['lat']) > 1 or np.size(P.pts['C']['lat']) > 1 \
            or np.size(P.pts['B']['lat']) > 1:
        return []                      # documented as not vectorized
    g = _path(P).closest_point_on_path(P.Cc)
    a, b, c = [P.ref_n(q) for q in 'ABC']
    with np.errstate(all='ignore'):
        cr = ref.unit(ref.cross(a, b))
        t = ref.cross(cr, a)
        cos = ref.norm(ref.cross(cr, c))
        th = np.arctan2(ref.dot(b, t), ref.dot(b, a))
        x = np.arctan2(ref.dot(c, t), ref.dot(c, a))
        tie = np.abs(ref.angle(a, c) - ref.angle(b, c))
    s = _s(P, 'A', 'B')
    inside = (x > 1e-6) & (x < th - 1e-6)
    outside = (x < -1e-6) | (x > th + 1e-6)
    ok = (s > 1e-6) & (cos > 1e-4) & (inside | outside & (tie > 1e-6)) & (np.abs(np.abs(x) - ref.PI) > 1e-6)
    out = _geo(P, g, 'closest on path')
    fl = np.asarray(64 * EPS * (1 + 1 / np.maximum(s, 1e-300)) / np.maximum(cos, 1e-300), dtype=float)
    for it in out:
        it.ok = ok
    for it in out[:2]:
        it.floor = it.floor * fl / EPS / 16
    return out


@op
def interpolate(P):
    x = _path(P).interpolate(P.ti)
    a, b = P.ref_n('A'), P.ref_n('B')
    r = ref.norm(a + (b - a) * ref.ld(P.ti))
    fl = np.asarray(64 * EPS * (1 + np.abs(P.ti)) / np.maximum(r, 1e-300), dtype=float)
    out = _nvec(P, x, 'interpolated')
    out[0].floor, out[0].ok = fl, np.asarray(r > 1e-6)
    out[1].floor = np.asarray(32 * EPS * P.size * (1 + np.abs(P.ti)))
    return out


@op
def on_circle(P):
    from pbt.props.c16 import expected
    from pbt.nv import canon_p
    p = _path(P)
    radius = (ref.norm(canon_p(P.pts['A'], P.spec)) + ref.norm(canon_p(P.pts['B'], P.spec))) / 2
    a, b, c = [P.ref_n(q) for q in 'ABC']
    atol = 1e-3 * P.a
    with np.errstate(all='ignore'):
        _x, cc, _y, pc = expected(a, b, c, radius, atol, extra=64.0 * P.size / P.a)
        far = (ref.angle(*np.broadcast_arrays(a, c)) > 1e-6) & (ref.angle(*np.broadcast_arrays(b, c)) > 1e-6)
    ok = _s(P, 'A', 'B') > 1e-5
    zm = (np.array(P.pts['A']['z']) + np.array(P.pts['B']['z'])) / 2
    dz = np.abs(zm - np.array(P.pts['C']['z']))
    clear = (dz < 0.5 * atol) | (dz > 2 * atol)
    return [Item('on_great_circle', 'bool', np.atleast_1d(p.on_great_circle(P.Cc, atol=atol)),
                 ok=cc & ok),
            Item('on_path', 'bool', np.atleast_1d(p.on_path(P.Cc, rtol=0.0, atol=atol)),
                 ok=pc & ok & clear & far)]


@op
def nvector_algebra(P):
    a, b = P.A.to_nvector(), P.B.to_nvector()
    s = 2.5
    return _nvec(P, a + b, 'sum') + _nvec(P, a - b, 'difference') + _nvec(P, -a, 'negative') \
        + _nvec(P, a * s, 'multiple') + _nvec(P, s * a, 'multiple from left') + _nvec(P, a / s, 'quotient')


@op
def ecef_algebra(P):
    a, b = P.A.to_ecef_vector(), P.B.to_ecef_vector()
    return [_E(P, n, x.pvector, 2 * P.size) for n, x in (('sum', a + b), ('difference', a - b),
                                                         ('negative', -a))]


@op
def mean(P):
    n = P.A.to_nvector()
    m = n.mean()
    r = float(ref.norm(np.sum(P.ref_n('A'), axis=1).reshape(3, 1))[0]) / np.size(P.pts['A']['lat'])
    out = _nvec(P, m, 'mean')
    out[0].floor, out[0].ok = 64 * EPS / max(r, 1e-300), r > 1e-9
    return out


@op
def track(P):
    n = P.A.to_nvector()
    k = np.size(P.pts['A']['lat'])
    if k < 2:
        return []
    t = np.arange(k, dtype=float)
    ti = np.clip(np.atleast_1d(P.ti), 0, 1) * (k - 1)
    m = n.interpolate(ti, t)
    a = P.ref_n('A')
    i = np.minimum(ti.astype(int), k - 2)
    w = ti - i
    r = ref.norm(a[:, i] * (1 - w) + a[:, i + 1] * w)
    out = _nvec(P, m, 'track')
    out[0].floor, out[0].ok = np.asarray(64 * EPS * k / np.maximum(r, 1e-300), dtype=float), \
        np.asarray(r > 1e-6)
    return out


@op
def frame_inverse(P):
    q, p = P.A.to_geo_point(), P.B.to_geo_point()
    r = P.frame.inverse(q.latitude_deg, q.longitude_deg, p.latitude_deg, p.longitude_deg,
                        z=q.z, degrees=True)
    r2 = P.frame.inverse(q.latitude, q.longitude, p.latitude, p.longitude)
    return _daz(P, (r[0], np.deg2rad(r[1]), np.deg2rad(r[2]))) + _daz(P, r2)


@op
def frame_direct(P):
    q = P.A.to_geo_point()
    lat, lon, az = P.frame.direct(q.latitude, q.longitude, P.az, P.dist, z=q.z)
    c = np.maximum(np.abs(np.cos(np.atleast_1d(lat))), 1e-300)
    return [Item('latitude', 'lat', np.atleast_1d(lat)),
            Item('longitude', 'lon', np.atleast_1d(lon), EPS * (64 + 64 / c)),
            Item('azimuth_b', 'az', np.atleast_1d(az), EPS * (64 + 64 / c))]


# columns of these are not independent of each other
JOINT = ('mean', 'track')
USES = {'A': 'A', 'B': 'AB'}


def obj_case(build_point=None, names=None, scalar=None, maxn=17, frame=None, lat=None, lon=None,
             z=None):
    lat = gen.lat_deg() if lat is None else lat
    lon = gen.lon_deg() if lon is None else lon
    z = st.one_of(gen.small_depth(), gen.depth(-1e7, 1e6)) if z is None else z
    sep = st.one_of(gen.separation(), gen.moderate_separation(), gen.moderate_separation())
    names = sorted(OBJ) if names is None else sorted(names)

    def build(n, sc):
        def finish(d):
            first = dict(lat=d['p'][0]['lat'], lon=d['p'][0]['lon'], z=d['p'][0]['z'])
            second = dict(lat=d['p'][1]['lat'], lon=d['p'][1]['lon'], z=d['p'][1]['z'])
            q = [dict(lat=x['lat'], lon=x['lon'], z=x['z']) for x in d['q']]
            out = dict(A=first, B=second, C=q[0], D=q[1], scalar=sc, kinds=list(d['kinds']))
            for key in ('frame', 'az', 'dist', 'ti', 'wa', 'ypr', 'v', 'op', 'extra'):
                out[key] = d[key]
            return out
        az = st.one_of(gen.lon_rad(), st.floats(-3.2, 3.2))
        return st.fixed_dictionaries(dict(
            p=gen.pair_n(n, sc, sep=sep, z=z, lat=lat, lon=lon, kinds=('geo',)),
            q=gen.pair_n(n, sc, sep=sep, z=z, lat=lat, lon=lon, kinds=('geo',)),
            kinds=st.tuples(*[st.sampled_from(gen.KINDS)] * 4),
            frame=gen.frame(1e5, 1e8) if frame is None else frame,
            az=gen.vec(az, n), dist=gen.vec(st.one_of(st.floats(0, 4), gen.logu(1e-9, 3.0),
                                                      st.sampled_from([0.0, 1.0, 3.0])), n),
            ti=gen.vec(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 0.5, 1.0]),
                                 st.floats(-0.5, 1.5)), n),
            wa=gen.lon_rad(), ypr=gen.vec(gen.lon_rad(), 3),
            v=gen.vec(st.one_of(st.floats(-1e4, 1e4), gen.signed_logu(1e-3, 1e7)), 3),
            op=st.sampled_from(names), extra=st.integers(0, 2 ** 20))).map(finish)
    return gen.shaped(build, maxn=maxn, scalar=scalar)


# ------------------------------------------------------------------ the functional API
class FunProblem(object):
    """n-vectors and numbers for the functional API"""

    def __init__(self, case, noise=None, amp=8 * EPS, R=None, rotate=None, relative=False,
                 scale=1.0):
        self.case = case
        spec = case['R'] if R is None else R
        Rm, _C = gen.get_R(spec)
        self.kw = {} if Rm is None else dict(R_Ee=Rm)
        self.R = ref.R_E['e'] if Rm is None else Rm
        self.C = ref.mat(self.R)
        self.axes_exact = gen.is_perm(spec)
        self.a, self.f = case['a'] * scale, case['f']
        self.ell = dict(a=self.a, f=self.f)
        self.size = self.a
        num = lambda key: np.array(case[key], dtype=float)
        self.lat, self.lon = num('lat'), num('lon')
        self.z = {}
        for name in 'ABCD':
            g = ref.col(np.array(case['n' + name], dtype=float).T)
            if rotate is not None:
                g = rotate @ g
            n = ref.f64(self.C @ g)
            z = num('z' + name) * scale
            if noise is not None:
                if relative:
                    n = n * (1 + amp * noise.uniform(-1, 1, n.shape))
                else:
                    n = n + amp * noise.uniform(-1, 1, n.shape)
                z = z * (1 + amp * noise.uniform(-1, 1, z.shape))
            setattr(self, 'n' + name, n)
            self.z[name] = z
        self.p = (1 + np.abs(num('p')) * 0) * num('p')
        for key in ('az', 'd', 'ti', 'x', 'y', 'zz'):
            setattr(self, key, num(key))
        self.size = self.a + max(float(np.max(np.abs(v))) for v in self.z.values())
        if noise is not None:
            sh = lambda x: x + amp * noise.uniform(-1, 1, x.shape) * (np.abs(x) if relative
                                                                      else 1 + np.abs(x))
            for key in ('az', 'd', 'ti', 'x', 'y', 'zz', 'lat', 'lon', 'p'):
                setattr(self, key, sh(getattr(self, key)))

    def g(self, name):
        return ref.unit(self.C.T @ getattr(self, 'n' + name).astype(LD))


FUN = {}
FUN_ROT = []          # equivariant under every rotation


def fop(fun, rot=False):
    FUN[fun.__name__] = fun
    return fun


def rotfop(fun):
    FUN_ROT.append(fun.__name__)
    return fop(fun)


def _fE(P, label, v, floor=32 * EPS, ok=True):
    v = arr(v, label)
    if v.ndim != 2 or v.shape[0] != 3:
        raise Violation('%s has shape %s' % (label, v.shape))
    return Item(label, 'E', P.C.T @ v.astype(LD), floor, ok)


def _cosn(n):
    return np.maximum(ref.f64(np.hypot(n[0], n[1])), 1e-300)


@fop
def lat_lon2n_E(P):
    return [_fE(P, 'n_E', nv.lat_lon2n_E(P.lat, P.lon, **P.kw))]


@fop
def n_E2lat_lon(P):
    la, lo = nv.n_E2lat_lon(P.nA, **P.kw)
    return [Item('latitude', 'lat', la, 32 * EPS),
            Item('longitude', 'lon', lo, 32 * EPS * (1 + 1 / _cosn(P.g('A'))))]


@fop
def n_EB_E2p_EB_E(P):
    return [_fE(P, 'p', nv.n_EB_E2p_EB_E(P.nA, P.z['A'], **P.ell, **P.kw), 64 * EPS * P.size)]


@fop
def p_EB_E2n_EB_E(P):
    p = nv.n_EB_E2p_EB_E(P.nA, np.maximum(-1e3 * P.a, np.minimum(P.z['A'], 0.2 * P.a)), **P.ell, **P.kw)
    n, z = nv.p_EB_E2n_EB_E(p, **P.ell, **P.kw)
    return [_fE(P, 'n', n, 64 * EPS), Item('depth', 'z', np.ravel(z), 64 * EPS * P.size)]


@fop
def n_EA_E_and_n_EB_E2p_AB_E(P):
    return [_fE(P, 'p_AB', nv.n_EA_E_and_n_EB_E2p_AB_E(P.nA, P.nB, P.z['A'], P.z['B'], **P.ell,
                                                       **P.kw), 64 * EPS * P.size)]


@fop
def n_EA_E_and_p_AB_E2n_EB_E(P):
    p = ref.f64(P.C @ P.p.T.astype(LD)) * (0.1 * P.a)
    z = np.maximum(-1e3 * P.a, np.minimum(P.z['A'], 0.2 * P.a))
    n, zb = nv.n_EA_E_and_p_AB_E2n_EB_E(P.nA, p, z, **P.ell, **P.kw)
    return [_fE(P, 'n', n, 256 * EPS), Item('depth', 'z', np.ravel(zb), 256 * EPS * P.size)]


@fop
def n_EA_E_and_n_EB_E2azimuth(P):
    az = nv.n_EA_E_and_n_EB_E2azimuth(P.nA, P.nB, **P.ell, **P.kw)
    a, b = P.g('A'), P.g('B')
    pa, pb = ref.ecef(a, ref.ld(0), 1.0, P.f), ref.ecef(b, ref.ld(0), 1.0, P.f)
    _az, hor = ref.chord_azimuth(pa, pb, a)
    hor = np.maximum(ref.f64(hor), 1e-300)
    return [Item('azimuth', 'az', az, 64 * EPS * (1 / hor + 1 / _cosn(a)),
                 ok=np.asarray((hor > 1e-9) & (_cosn(a) > 0)))]


@fop
def n_EA_E_distance_and_azimuth2n_EB_E(P):
    n = nv.n_EA_E_distance_and_azimuth2n_EB_E(P.nA, P.d, P.az, **P.kw)
    return [_fE(P, 'n_B', n, 64 * EPS * (1 + 1 / _cosn(P.g('A'))) * (1 + np.abs(P.d)))]


@fop
def rotations_of_n(P):
    out = []
    k = P.nA.shape[1]
    for label, R in (('n_E2R_EN', nv.n_E2R_EN(P.nA, **P.kw)),
                     ('n_E_and_wa2R_EL', nv.n_E_and_wa2R_EL(P.nA, P.az, **P.kw))):
        R = arr(R).reshape(3, 3, -1).astype(LD)
        out.append(Item(label, 'R', np.einsum('ji,jkn->ikn', P.C, R), 64 * EPS * (
            1 + 1 / _cosn(P.g('A')))))
        for name, fun in (('R_EN2n_E', nv.R_EN2n_E), ('R_EL2n_E', nv.R_EL2n_E)):
            out.append(_fE(P, name, fun(ref.f64(R))))
    return out


@fop
def euler(P):
    out = []
    k = len(P.x)
    for name, make, back in (('xyz', nv.xyz2R, nv.R2xyz), ('zyx', nv.zyx2R, nv.R2zyx)):
        R = arr(make(P.x, P.y, P.zz)).reshape(3, 3, k)
        out.append(Item(name + '2R', 'plain', R, 32 * EPS))
        c = np.maximum(np.abs(np.cos(P.y)), 1e-300)
        for i, ang in enumerate(back(R)):
            out.append(Item('R2%s %d' % (name, i), 'angle', ang, 64 * EPS / c, ok=c > 1e-9))
    return out


@rotfop
def great_circle_distance(P):
    return [Item('distance', 'len', nv.great_circle_distance(P.nA, P.nB, 1.0), 32 * EPS),
            Item('distance R', 'len', nv.great_circle_distance(P.nA, P.nB, radius=2.0), 64 * EPS)]


@rotfop
def euclidean_distance(P):
    return [Item('distance', 'len', nv.euclidean_distance(P.nA, P.nB, 1.0), 32 * EPS)]


def _sab(P, a='A', b='B'):
    return np.maximum(ref.f64(ref.norm(ref.cross(P.g(a), P.g(b)))), 1e-300)


@rotfop
def op_great_circle_normal(P):
    s = _sab(P)
    return [_fE(P, 'normal', great_circle_normal(P.nA, P.nB), 64 * EPS / s, ok=s > 1e-8)]


@rotfop
def op_cross_track(P):
    s = _sab(P)
    fl = 64 * EPS * (1 + 1 / s)
    path = (P.nA, P.nB)
    return [Item('cross track', 'xtd', nv.cross_track_distance(path, P.nC, radius=1.0), fl, s > 1e-8),
            Item('euclidean', 'xtd', nv.cross_track_distance(path, P.nC, method='euclidean',
                                                             radius=1.0), fl, s > 1e-8)]


@rotfop
def op_closest(P):
    s = _sab(P)
    with np.errstate(all='ignore'):
        c = ref.unit(ref.cross(P.g('A'), P.g('B')))
        cos = np.maximum(ref.f64(ref.norm(ref.cross(*np.broadcast_arrays(c, P.g('C'))))), 1e-300)
    return [_fE(P, 'closest', nv.closest_point_on_great_circle((P.nA, P.nB), P.nC),
                64 * EPS * (1 + 1 / s) / cos, ok=(s > 1e-7) & (cos > 1e-6))]


@rotfop
def op_intersect(P):
    s1, s2 = _sab(P), _sab(P, 'C', 'D')
    a, b, c, d = [P.g(q) for q in 'ABCD']
    with np.errstate(all='ignore'):
        cr = ref.cross(ref.unit(ref.cross(a, b)), ref.unit(ref.cross(c, d)))
        s = ref.norm(cr)
        tie = np.abs(ref.dot(*np.broadcast_arrays(cr / s, a)))
        s = np.maximum(ref.f64(s), 1e-300)
    fl = 64 * EPS * (1 + (1 / s1 + 1 / s2) / s)
    return [_fE(P, 'intersection', nv.intersect((P.nA, P.nB), (P.nC, P.nD)), fl,
                ok=np.asarray((tie > 1e-6) & (fl < 1e-8)))]


@rotfop
def op_interpolate(P):
    a, b = P.g('A'), P.g('B')
    r = np.maximum(ref.f64(ref.norm(a + (b - a) * ref.ld(P.ti))), 1e-300)
    return [_fE(P, 'interpolated', nv.interpolate((P.nA, P.nB), P.ti), 64 * EPS * (
        1 + np.abs(P.ti)) / r, ok=r > 1e-6)]


@rotfop
def op_on_circle(P):
    from pbt.props.c16 import expected
    s = _sab(P)
    a, b, c = [P.g(q) for q in 'ABC']
    atol = 1e-3
    with np.errstate(all='ignore'):
        _x, cc, _y, pc = expected(a, b, c, 1.0, atol, extra=64.0)
        far = (ref.angle(*np.broadcast_arrays(a, c)) > 1e-6) \
            & (ref.angle(*np.broadcast_arrays(b, c)) > 1e-6)
    path = (P.nA, P.nB)
    return [Item('on_great_circle', 'bool', nv.on_great_circle(path, P.nC, radius=1.0, atol=atol),
                 ok=cc & (s > 1e-5)),
            Item('on_great_circle_path', 'bool',
                 nv.on_great_circle_path(path, P.nC, radius=1.0, atol=atol),
                 ok=pc & (s > 1e-5) & far)]


@rotfop
def op_mean(P):
    m = nv.mean_horizontal_position(P.nA)
    r = float(ref.norm(np.sum(P.g('A'), axis=1).reshape(3, 1))[0]) / P.nA.shape[1]
    return [_fE(P, 'mean', m, 64 * EPS / max(r, 1e-300), ok=r > 1e-9)]


@rotfop
def op_interp_nvectors(P):
    k = P.nA.shape[1]
    if k < 2:
        return []
    t = np.arange(k, dtype=float)
    ti = np.clip(np.abs(P.ti), 0, 1) * (k - 1)
    i = np.minimum(ti.astype(int), k - 2)
    w = ti - i
    a = P.g('A')
    r = np.maximum(ref.f64(ref.norm(a[:, i] * (1 - w) + a[:, i + 1] * w)), 1e-300)
    return [_fE(P, 'track', nv.interp_nvectors(ti, t, P.nA), 64 * EPS * k / r, ok=r > 1e-6)]


@rotfop
def op_unit(P):
    return [_fE(P, 'unit', nv.unit(P.nA * 3.0), 32 * EPS)]


FUN_JOINT = ('op_mean', 'op_interp_nvectors')
FUN_ONE = {  # arguments that may be a single column while the others have n
    'n_EA_E_and_n_EB_E2p_AB_E': 'AB', 'n_EA_E_and_n_EB_E2azimuth': 'AB',
    'great_circle_distance': 'AB', 'euclidean_distance': 'AB', 'op_great_circle_normal': 'AB',
    'op_cross_track': 'PC', 'op_closest': 'PC', 'op_intersect': 'PQ', 'op_interpolate': 'AB',
    'op_on_circle': 'PC'}


@gen.memo
def _g(n):
    exact = st.sampled_from([[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0],
                             [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0]])
    free = st.builds(lambda la, lo: [float(x) for x in ref.nvec(la, lo)[:, 0]],
                     gen.lat_rad(), gen.lon_rad())
    return gen.vec(st.one_of(free, free, gen.unit_vec(1).map(lambda t: t[0]), exact), n)


def _near_n(first, az, d, use):
    out = []
    for v, a, x, u, w in zip(first, az, d, use[0], use[1]):
        if not u:
            out.append(w)
            continue
        g = ref.unit(ref.col(v))
        h = ref.gc_dest(g, a, x) if float(np.hypot(g[0], g[1])[0]) > 1e-12 else \
            ref.col([np.sin(x), 0, float(g[2, 0]) * np.cos(x)])
        out.append([float(t) for t in ref.f64(h)[:, 0]])
    return out


def fun_case(names=None, maxn=17, R=None):
    names = sorted(FUN) if names is None else sorted(names)

    def build(n):
        sep = st.one_of(gen.separation(), gen.moderate_separation(), gen.moderate_separation())

        def finish(d):
            nA, nC = d['nA'], d['nC']
            out = dict(nA=nA, nC=nC, nB=_near_n(nA, d['s1'], d['s2'], (d['u'], d['fB'])),
                       nD=_near_n(nC, d['s3'], d['s4'], (d['u'][::-1], d['fD'])))
            for key in ('zA', 'zB', 'zC', 'zD', 'lat', 'lon', 'az', 'd', 'ti', 'x', 'y', 'zz', 'a',
                        'f', 'R', 'op', 'extra', 'p'):
                out[key] = d[key]
            return out
        z = st.one_of(gen.small_depth(), gen.depth(-1e7, 1e6))
        ang = st.one_of(gen.lon_rad(), st.floats(-3.2, 3.2))
        return st.fixed_dictionaries(dict(
            nA=_g(n), nC=_g(n), fB=_g(n), fD=_g(n), u=gen.vec(st.booleans(), n),
            s1=gen.vec(ang, n), s2=gen.vec(sep, n), s3=gen.vec(ang, n), s4=gen.vec(sep, n),
            zA=gen.vec(z, n), zB=gen.vec(z, n), zC=gen.vec(z, n), zD=gen.vec(z, n),
            p=gen.vec(st.tuples(*[st.floats(-1, 1)] * 3).map(list), n),
            lat=gen.vec(gen.lat_rad(), n), lon=gen.vec(gen.lon_rad(), n),
            az=gen.vec(ang, n), d=gen.vec(st.one_of(gen.separation(), st.floats(-7, 7)), n),
            ti=gen.vec(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 0.5, 1.0]),
                                 st.floats(-0.5, 1.5)), n),
            x=gen.vec(ang, n), y=gen.vec(st.one_of(gen.lat_rad(), ang), n), zz=gen.vec(ang, n),
            a=gen.semi_major(1e5, 1e8), f=gen.flattening(),
            R=gen.R_Ee() if R is None else R,
            op=st.sampled_from(names), extra=st.integers(0, 2 ** 20))).map(finish)
    return gen.sized(build, gen.size(maxn))


# ------------------------------------------------------------------ comparison
def variation(base, shaken):
    """per item, the largest change seen over the shaken runs (inf where NaN comes and goes)"""
    out = []
    for i, it in enumerate(base):
        worst = np.zeros(it.val.shape, dtype=LD)
        for other in shaken:
            o = other[i]
            if o.val.shape != it.val.shape:
                raise Violation('%s: shape %s, with inputs changed by rounding %s'
                                % (it.label, it.val.shape, o.val.shape))
            if it.kind == 'bool':
                d = (o.val != it.val).astype(LD)
            else:
                d = np.abs(o.val - it.val)
                if it.kind in ANGLES:
                    d = np.mod(d, 2 * ref.PI)
                    d = np.minimum(d, 2 * ref.PI - d)
                elif it.kind == 'londeg':
                    d = np.mod(d, 360)
                    d = np.minimum(d, 360 - d)
                d = np.where(np.isnan(o.val) & np.isnan(it.val), 0, d)
                d = np.where(np.isnan(d), np.inf, d)
            worst = np.maximum(worst, d)
        out.append(worst)
    return out


def compare(rec, name, got, want, vary, factor=8.0, prefix=''):
    """got and want: lists of Items of equal structure"""
    rec.true(name + ' structure', [g.label for g in got] == [w.label for w in want],
             ([g.label for g in got], [w.label for w in want]))
    for g, w, v in zip(got, want, vary):
        label = '%s%s: %s' % (prefix, name, w.label)
        gv = g.val
        if gv.shape != w.val.shape:
            if gv.size != w.val.size:
                rec.fail(label, 'shape %s, expected %s' % (gv.shape, w.val.shape))
            gv = gv.reshape(w.val.shape)
        ok = np.broadcast_to(w.ok, w.val.shape) & np.broadcast_to(g.ok, w.val.shape)
        if w.kind == 'bool':
            rec.true(label, (gv == w.val) | ~ok, (gv, w.val))
            continue
        ok = ok & np.isfinite(v)
        tol = factor * v + np.maximum(np.broadcast_to(w.floor, w.val.shape),
                                      np.broadcast_to(g.floor, w.val.shape))
        a, b = np.where(ok, gv, 0), np.where(ok, w.val, 0)
        if w.kind == 'londeg':
            rec.close(label, np.deg2rad(a), np.deg2rad(b), tol, angle=True)
        else:
            rec.close(label, a, b, np.where(ok, tol, 1), angle=w.kind in ANGLES)
