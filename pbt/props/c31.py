"""C31 the way arguments are written does not matter: units, positions, keywords, integers"""
import warnings

import numpy as np
import nvector as nv
from hypothesis import strategies as st
from nvector import FrameB, FrameE, FrameL, FrameN, GeoPath, GeoPoint

from pbt import calls, gen, hist, ops, ref
from pbt.calls import CALLS, REQ
from pbt.core import EPS, LD, Violation, arr, attr, facet
from pbt.nv import ellipsoid_of, mkframe, mkpoint
from pbt.ops import Item


# ------------------------------------------------------------------ degrees and radians
def _unrolled(P, lat, lon, az):
    c = np.maximum(np.abs(np.cos(np.atleast_1d(lat))), 1e-300)
    fl = EPS * (64 + 64 / c) * 4
    return [Item('latitude', 'lat', np.atleast_1d(lat), 32 * EPS),
            Item('longitude', 'plain', np.atleast_1d(lon), fl),
            Item('azimuth_b', 'az', np.atleast_1d(az), fl)]


def u_point(P, degrees):
    out = []
    for name in 'AB':
        p = P.pts[name]
        la, lo, z = (np.array(p[k], dtype=float) for k in ('lat', 'lon', 'z'))
        if P.scalar:
            la, lo, z = float(la[0]), float(lo[0]), float(z[0])
        make = (lambda *a, **kw: GeoPoint(*a, frame=P.frame, **kw)) if name == 'A' \
            else P.frame.GeoPoint
        g = make(la, lo, z, degrees=True) if degrees else make(np.deg2rad(la), np.deg2rad(lo), z)
        out += [Item('latitude', 'plain', attr(g, 'latitude'), 4 * EPS),
                Item('longitude', 'plain', attr(g, 'longitude'), 8 * EPS * (1 + np.abs(np.deg2rad(lo)))),
                Item('z', 'z', attr(g, 'z'), 0.0),
                Item('latitude_deg', 'deg', g.latitude_deg, 4e-14),
                Item('longitude_deg', 'deg', g.longitude_deg, 4e-14 * (1 + np.abs(lo) / 50))]
    return out


def u_body(P, degrees):
    y = [float(np.rad2deg(x)) for x in P.ypr] if degrees else P.ypr
    F = FrameB(P.A, *y, degrees=True) if degrees else FrameB(P.A, *y)
    k = np.size(P.pts['A']['lat'])
    return [Item('R_EB', 'plain', arr(F.R_EN).reshape(3, 3, k), 32 * EPS * (1 + np.max(np.abs(P.ypr))))] \
        + [Item(n, 'angle', np.atleast_1d(getattr(F, n)), 8 * EPS * (1 + np.abs(x)))
           for n, x in zip(('yaw', 'pitch', 'roll'), P.ypr)]


def _displace(method, unroll):
    def fun(P, degrees):
        kw = dict(method=method)
        if unroll:
            kw['long_unroll'] = True
        if degrees:
            g, az = P.A.to_geo_point().displace(P.dist, np.rad2deg(P.az), degrees=True, **kw)
            az = np.deg2rad(az)
        else:
            g, az = P.A.to_geo_point().displace(P.dist, P.az, **kw)
        if unroll:
            return _unrolled(P, g.latitude, g.longitude, az)
        s = np.abs(np.sin(np.atleast_1d(P.dist) / ops._radius(P, 'A')))
        c = np.maximum(np.abs(np.cos(np.atleast_1d(g.latitude))), 1e-300)
        ok = (s > 1e-6) if method == 'greatcircle' else True
        return ops._geo(P, g) + [Item('azimuth_b', 'az', np.atleast_1d(az),
                                      EPS * (64 + 64 / c) + 256 * EPS * P.size / P.a
                                      / np.maximum(s, 1e-300), ok=ok)]
    return fun


def _inverse(method):
    def fun(P, degrees):
        g = P.A.to_geo_point()
        if not degrees:
            return ops._daz(P, g.distance_and_azimuth(P.B, method=method))
        s, a, b = g.distance_and_azimuth(P.B, degrees=True, method=method)
        return ops._daz(P, (s, np.deg2rad(a), np.deg2rad(b)))
    return fun


def u_frame_inverse(P, degrees):
    q, p = P.A.to_geo_point(), P.B.to_geo_point()
    if degrees:
        s, a, b = P.frame.inverse(q.latitude_deg, q.longitude_deg, p.latitude_deg,
                                  p.longitude_deg, q.z, degrees=True)
        return ops._daz(P, (s, np.deg2rad(a), np.deg2rad(b)))
    return ops._daz(P, P.frame.inverse(q.latitude, q.longitude, p.latitude, p.longitude, q.z))


def _direct(unroll):
    def fun(P, degrees):
        q = P.A.to_geo_point()
        if degrees:
            r = P.frame.direct(q.latitude_deg, q.longitude_deg, np.rad2deg(P.az), P.dist, q.z,
                               long_unroll=unroll, degrees=True)
            r = [np.deg2rad(x) for x in r]
        else:
            r = P.frame.direct(q.latitude, q.longitude, P.az, P.dist, q.z, long_unroll=unroll)
        out = _unrolled(P, *r)
        if not unroll:
            out[1].kind = 'lon'
        return out
    return fun


def u_polar(P, degrees):
    d = nv.delta_N(P.A, P.B)
    if degrees:
        return [Item('azimuth', 'az', np.deg2rad(np.atleast_1d(d.azimuth_deg)), 8 * EPS),
                Item('elevation', 'elev', np.deg2rad(np.atleast_1d(d.elevation_deg)), 8 * EPS)]
    return [Item('azimuth', 'az', np.atleast_1d(d.azimuth), 8 * EPS),
            Item('elevation', 'elev', np.atleast_1d(d.elevation), 8 * EPS)]


UNITS = {'point': u_point, 'body': u_body, 'frame inverse': u_frame_inverse, 'polar': u_polar,
         'displace ellipsoid': _displace('ellipsoid', False),
         'displace ellipsoid unrolled': _displace('ellipsoid', True),
         'displace greatcircle': _displace('greatcircle', False),
         'distance ellipsoid': _inverse('ellipsoid'), 'distance greatcircle': _inverse('greatcircle'),
         'frame direct': _direct(False), 'frame direct unrolled': _direct(True)}


@facet('C31', 'units', ops.obj_case(names=UNITS, maxn=5), 3600,
       rule='11 calls that take or return angles, in radians and with degrees: the same points, '
            'distances and (converted) azimuths; tolerance: 8 x effect of input rounding; '
            'non-trivial: a position off the coordinate axes')
def units(case, rec):
    f = UNITS[case['op']]
    base = f(ops.ObjProblem(case), False)
    vary = ops.variation(base, [f(ops.ObjProblem(case, np.random.RandomState(j + case['extra'])),
                                  False) for j in range(4)])
    ops.compare(rec, case['op'], f(ops.ObjProblem(case), True), base, vary)
    rec.label(case['op'])
    rec.nontrivial = any(x not in (0, 90, -90) for x in case['A']['lat'])


# ------------------------------------------------------------------ values of the arguments
ENAMES = ['WGS84', 'wgs72', 'GRS80', 'Bessel', 'Airy 1858']


@gen.memo
def _ivec(n, lim):
    x = st.one_of(st.integers(-3, 3), st.integers(-lim, lim))
    return gen.vec(st.tuples(x, x, x).map(list).filter(lambda v: any(v)), n)


_AXES = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [-1, 0, 0], [0, -1, 0], [0, 0, -1]]
_PERMS = [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 1], [0, 1, 0], [-1, 0, 0]],
          [[0, -1, 0], [1, 0, 0], [0, 0, 1]], [[1, 0, 0], [0, 0, -1], [0, 1, 0]],
          [[-1, 0, 0], [0, -1, 0], [0, 0, 1]]]
TRACK = 12


@gen.memo
def value(kind, n, ints):
    """strategy for the plain data of an argument; ints: only integers"""
    v = lambda s: gen.vec(s, n)
    if kind == 'lat':
        return v(st.integers(-90, 90)) if ints else v(st.floats(-1.57, 1.57))
    if kind in ('lon', 'num', 'ti'):
        return v(st.integers(-9, 9)) if ints else v(gen.lon_rad())
    if kind == 'num0':
        return gen.vec(st.integers(-9, 9) if ints else gen.lon_rad(), 1)
    if kind == 'z':
        return v(st.integers(-100000, 100000)) if ints else v(gen.depth(-1e6, 1e5))
    if kind == 'dist':
        return v(st.integers(0, 10 ** 7)) if ints else v(st.floats(0, 1e7))
    if kind == 'pos_':
        return v(st.integers(0, 100)) if ints else v(gen.logu(1e-6, 1e6))
    if kind == 'n':
        return v(st.sampled_from(_AXES)) if ints else gen.unit_vec(n)
    if kind == 'npath':
        return st.tuples(value('n', n, ints), value('n', n, ints)).map(list)
    if kind == 'track':
        return value('n', TRACK, ints)
    if kind == 't':
        step = st.integers(1, 5) if ints else st.floats(0.1, 3)
        return st.tuples(st.integers(-5, 5), gen.vec(step, TRACK)).map(
            lambda t: list(np.cumsum([t[0]] + t[1][:-1]).tolist()))
    if kind == 't_i':
        return gen.vec(st.integers(0, 10) if ints else st.floats(0, 10), 5)
    if kind in ('p', 'v'):
        if ints:
            return _ivec(n, 7000000) if kind == 'p' else _ivec(n, 40000)
        big = st.builds(lambda u, r: [x * r for x in u], gen.unit_vec(1).map(lambda t: t[0]),
                        st.floats(6e6, 7e6) if kind == 'p' else st.floats(1.0, 1e6))
        return v(big)
    if kind == 'rot':
        return v(st.sampled_from(_PERMS)) if ints else v(
            gen.quaternion().map(lambda q: ref.f64(ref.quat2R(q)).tolist()))
    if kind == 'a':
        return st.sampled_from([6378137, 6378388, 6371000]) if ints else st.floats(6.3e6, 6.4e6)
    if kind == 'f':
        return st.just(0) if ints else st.floats(0, 0.01)
    if kind == 'R':
        return st.sampled_from(['e', 'E'])
    if kind == 'radius':
        return st.integers(1, 7000000) if ints else gen.logu(1.0, 1e7)
    if kind in ('atol', 'tol'):
        return st.integers(0, 1000) if ints else gen.logu(1e-9, 1e3)
    if kind in ('bool', 'scalar'):
        return st.booleans()
    if kind == 'nzv':
        return st.sampled_from([1, 0]) if ints else st.sampled_from([1.0, 0.0, float('nan')])
    if kind == 'root':
        return st.integers(1, 9)
    choice = dict(m2=['greatcircle', 'euclidean'], m3=['greatcircle', 'euclidean', 'ellipsoidal'],
                  m_disp=['greatcircle', 'ellipsoid'], axes=['e', 'E'], ename=ENAMES,
                  interp=['linear', 'nearest', 'quadratic', 'cubic', 1, 2, 3],
                  window=[0, 5, 7], order=[1, 2, 3], cval=[0, 1, 2],
                  mode=['mirror', 'constant', 'nearest', 'wrap', 'interp'])
    if kind in choice:
        return st.sampled_from(choice[kind])
    if kind == 'local':
        return st.sampled_from(['N', 'L', 'B'])
    if kind == 'pos':
        return st.tuples(st.sampled_from('ABCD'), st.sampled_from(gen.KINDS)).map(list)
    if kind in ('gpos', 'spos'):
        return value('pos', n, ints)
    if kind in ('frame', 'opath'):
        return st.just('it')
    raise KeyError(kind)


VARY = ('lat', 'lon', 'num', 'num0', 'ti', 'z', 'dist', 'pos_', 'n', 'npath', 'track', 't', 't_i',
        'p', 'v', 'rot', 'a', 'f', 'radius', 'atol', 'tol', 'nzv', 'cval')
LISTS = {'GeoPoint': ('latitude', 'longitude', 'z'), 'frame.GeoPoint': ('latitude', 'longitude', 'z'),
         'lat_lon2n_E': ('latitude', 'longitude'), 'interp_nvectors': ('t', 't_i'),
         'Nvector.interpolate': ('t', 't_i'),
         'FrameE.inverse': ('lat_a', 'lon_a', 'lat_b', 'lon_b', 'z')}


LAYOUTS = ['plain', 'zero-dim', 'readonly', 'F', 'strided', 'reversed', 'big-endian', 'unaligned',
           'constant', 'subclass']


@gen.memo
def _one_call(name, n, sc, ints):
    params = [(p, 'pos_' if k == 'pos' and name == 'nthroot' else k, d)
              for p, k, d in CALLS[name][1]]
    lat = st.integers(-80, 80).map(float) if ints else gen.lat_mild()
    lon = st.integers(-180, 180).map(float) if ints else gen.lon_deg()
    z = st.integers(-1000, 1000).map(float) if ints else gen.small_depth()
    pt = gen._point(n, sc, lat, lon, z, ('geo',))
    return st.fixed_dictionaries(dict(
        call=st.just(name), n=st.just(n), scalar=st.just(sc),
        frame=st.one_of(st.just({}), gen.earth_like()), A=pt, B=pt, C=pt, D=pt,
        kinds=st.just(['geo'] * 4), az=gen.vec(gen.lon_rad(), 1), dist=st.just([0.1]), ti=st.just([0.5]),
        wa=gen.lon_rad(), ypr=gen.vec(gen.lon_rad(), 3), v=st.just([0.0, 0.0, 0.0]),
        vals=st.tuples(*[value(k, n, ints) for _p, k, _d in params]).map(list),
        given=gen.vec(st.booleans(), len(params)), omit=gen.vec(st.booleans(), len(params)),
        split=st.integers(0, len(params)), order=st.integers(0, 5039),
        forms=gen.vec(st.sampled_from(['int', 'int32', 'int', 'float', 'list']), len(params)),
        layouts=gen.vec(st.sampled_from(LAYOUTS), len(params))))


def call_case(ints, names=None):
    names = sorted(CALLS) if names is None else sorted(names)

    def build(t):
        name, (n, sc) = t
        if any(k == 'spos' for _p, k, _d in CALLS[name][1]):
            n, sc = 1, True
        return _one_call(name, n, sc, ints)
    return st.tuples(st.sampled_from(names), gen.shape(5)).flatmap(build)


class Env(object):
    """the objects of a case"""

    def __init__(self, case, ints=False):
        self.case = case
        P = ops.ObjProblem(case)
        self.frame = P.frame
        self.pts = {}
        for name in 'ABCD':
            for kind in gen.KINDS:
                self.pts[name, kind] = mkpoint(dict(P.pts[name], kind=kind), P.frame, P.spec, kind)
        A = self.geo = self.pts['A', 'geo']
        self.ecef = self.pts['B', 'ecef']
        self.path = GeoPath(A, self.pts['B', 'nvec'])
        self.opath = GeoPath(self.pts['C', 'geo'], self.pts['D', 'ecef'])
        self.locals = dict(N=FrameN(A), L=FrameL(A, case['wa']), B=FrameB(A, *case['ypr']))
        self.local = self.locals['L']
        lat = np.linspace(-1, 1, TRACK) * 0.9
        self.track = GeoPoint(lat, np.sin(3 * lat) + 0.5, 100 * lat, frame=P.frame).to_nvector()


def cast(form, x, scalar=False):
    """the number or array x in a form"""
    if form == 'float':
        return float(x) if np.ndim(x) == 0 else np.array(x, dtype=float)
    if np.ndim(x) == 0:
        return int(x) if form != 'int32' else np.int32(x)
    if form == 'list' and np.ndim(x) == 1:
        return [int(y) for y in x]
    return np.array(x, dtype=np.int32 if form == 'int32' else np.int64)


def make(env, kind, data, form='float', ints=False, degrees=False):
    """the argument itself"""
    sc, n = env.case['scalar'], env.case['n']
    if kind == 'lat' and ints and not degrees:
        data = [int(np.sign(x)) * (x % 2) for x in data]
    if kind in ('lat', 'lon', 'num', 'ti', 'z', 'dist', 'pos_'):
        return cast(form, data[0] if sc else data)
    if kind == 'num0':
        return cast(form, data[0])
    if kind in ('n', 'p', 'v', 'track'):
        return cast(form, np.array(data).T)
    if kind == 'npath':
        return tuple(cast(form, np.array(x).T) for x in data)
    if kind == 'rot':
        x = np.moveaxis(np.array(data), 0, -1)
        return cast(form, x[:, :, 0] if sc else x)
    if kind in ('t', 't_i'):
        return cast(form, data)
    if kind in ('a', 'f', 'radius', 'atol', 'tol', 'nzv', 'cval'):
        if form == 'float':
            return float(data)
        return cast(form, data)
    if kind == 'R':
        return nv.E_rotation(data)
    if kind == 'scalar':
        return bool(data) and n == 1
    if kind == 'local':
        return env.locals[data]
    if kind in ('pos', 'gpos', 'spos'):
        return env.pts[data[0], data[1]]
    if kind == 'frame':
        return env.frame
    if kind == 'opath':
        return env.opath
    return data


def params_of(name):
    return [(p, 'pos_' if k == 'pos' and name == 'nthroot' else k, d) for p, k, d in CALLS[name][1]]




DOC_DEFAULT = {'R': lambda: nv.E_rotation(), 'frame': lambda: FrameE(name='WGS84')}


@facet('C31', 'positional and by name', call_case(False), 4800,
       rule='54 public calls with all arguments by position, documented defaults written out, '
            'against any split into positional and named arguments in any order with defaults left '
            'out: the same result (1e-12); non-trivial: an argument by name or left out')
def by_name(case, rec):
    name = case['call']
    fn, _ = CALLS[name]
    params = params_of(name)
    env = Env(case)
    given, full = [], []
    for (p, kind, default), data, g in zip(params, case['vals'], case['given']):
        use = default is REQ or g
        given.append(use)
        if use:
            full.append(make(env, kind, data))
        else:
            full.append(DOC_DEFAULT[kind]() if kind in DOC_DEFAULT and case['order'] % 2 else default)
    want = hist.describe(fn(env)(*full))
    k = case['split']
    k = min([k] + [i for i in range(len(params)) if not given[i] and case['omit'][i]])
    args, rest = full[:k], list(range(k, len(params)))
    order = np.random.RandomState(case['order']).permutation(len(rest))
    kw = {}
    for i in [rest[j] for j in order]:
        if given[i] or not case['omit'][i]:
            kw[params[i][0]] = full[i]
    try:
        got = hist.describe(fn(Env(case))(*args, **kw))
    except TypeError as exc:
        raise Violation('%s(%d positional, %s): %s' % (name, k, sorted(kw), exc))
    rec.true(name, hist.equal(got, want, 1e-12), 'args %d, names %s: %r, all by position: %r'
             % (k, sorted(kw), got, want))
    rec.label(name)
    rec.nontrivial = k < len(params)


def leaves(d):
    if isinstance(d, tuple):
        for x in d:
            for y in leaves(x):
                yield y
    else:
        yield d


def equal_values(rec, name, got, want):
    a, b = list(leaves(got)), list(leaves(want))
    rec.true(name + ' structure', len(a) == len(b), (got, want))
    for x, y in zip(a, b):
        if y is None or isinstance(y, str):
            rec.true(name, x == y, (got, want))
            continue
        x, y = np.asarray(x), np.asarray(y)
        rec.true(name + ' shape', x.shape == y.shape, (got, want))
        if y.dtype.kind == 'b':
            rec.true(name, x == y, (got, want))
            continue
        y = y.astype(LD)
        fin = np.isfinite(y)
        scale = np.max(np.abs(np.where(fin, y, 0))) if y.size else 0
        tol = 1e-12 * (scale + 1e-300) + 1e-14
        # -pi and pi: the sign of a zero, which integers do not have
        d, ay = np.abs(arr(x, name).astype(LD) - y), np.abs(y)
        turn = (np.abs(d - 2 * ref.PI) < 1e-12) & (np.abs(ay - ref.PI) < 1e-12) \
            | (np.abs(d - 360) < 1e-9) & (np.abs(ay - 180) < 1e-9)
        rec.close(name, np.where(turn, y, x), y, tol)


@facet('C31', 'integers', call_case(True, [n for n in CALLS if any(k in VARY + ('bool',)
                                                             for _p, k, _d in CALLS[n][1])]),
       4800,
       rule='49 public calls with integer arguments (Python int, int32 and int64 numbers and arrays, '
            'lists of positions; 0, 1 and NumPy booleans for flags) against the same numbers as floats: '
            'equal results (1e-12); '
            'non-trivial: an integer argument')
def integers(case, rec):
    name = case['call']
    fn, _ = CALLS[name]
    params = params_of(name)
    env = Env(case)
    degrees = False
    for (p, kind, default), data, g in zip(params, case['vals'], case['given']):
        if p == 'degrees' and g:
            degrees = data
    want_args, args, some = {}, {}, False
    for (p, kind, default), data, g, form in zip(params, case['vals'], case['given'], case['forms']):
        if default is not REQ and not g:
            continue
        want_args[p] = make(env, kind, data, 'float', True, degrees)
        if kind in VARY:
            form = 'int' if form == 'list' and p not in LISTS.get(name, ()) else form
            if kind in ('t', 't_i', 'lat', 'lon', 'z') or form != 'list':
                args[p] = make(env, kind, data, form, True, degrees)
            else:
                args[p] = make(env, kind, data, 'int', True, degrees)
            some = some or form != 'float'
        elif kind == 'bool':
            args[p] = {'int': int(data), 'int32': np.bool_(data)}.get(form, data)
            some = some or form in ('int', 'int32')
        else:
            args[p] = want_args[p]
    want = hist.describe(fn(env)(**want_args))
    got = hist.describe(fn(Env(case))(**args))
    equal_values(rec, name, got, want)
    rec.label(name)
    rec.nontrivial = some


class Column(np.ndarray):
    """an array type of the user's own"""


def lay(form, x):
    """the same float, or array of floats, kept in memory in another way"""
    if isinstance(x, tuple):
        return tuple(lay(form, y) for y in x)
    if np.ndim(x) == 0:
        if form == 'plain':
            return x
        out = np.array(x, dtype='>f8' if form == 'big-endian' else float)
        if form in ('readonly', 'constant'):
            out.setflags(write=False)
        return out if form in ('zero-dim', 'readonly', 'big-endian', 'constant') else np.float64(x)
    x = np.array(x, dtype=float)
    if form == 'readonly':
        x.setflags(write=False)
    elif form == 'F':
        x = np.asfortranarray(x)
    elif form == 'strided':
        big = np.full(tuple(3 * k for k in x.shape), 1e9)
        view = big[tuple(slice(1, None, 3) for _ in x.shape)]
        view[...] = x
        x = view
    elif form == 'reversed':
        x = x[..., ::-1].copy()[..., ::-1]
    elif form == 'big-endian':
        x = x.astype('>f8')
    elif form == 'unaligned':
        raw = np.zeros(x.nbytes + 1, dtype=np.uint8)[1:].view(float).reshape(x.shape)
        raw[...] = x
        x = raw
    elif form == 'constant':         # a view in which all elements along an axis are one
        first = x[..., :1]
        if np.array_equal(np.broadcast_to(first, x.shape), x):
            x = np.broadcast_to(first.copy(), x.shape)
    elif form == 'subclass':
        x = x.view(Column)
    return x


def with_warnings(fun, kw):
    """described result; what the library warned of"""
    with warnings.catch_warnings(record=True) as seen:
        warnings.resetwarnings()
        warnings.simplefilter('always')
        out = hist.describe(fun(**kw))
    return out, sorted(set(str(w.message)[:30] for w in seen if w.category is UserWarning))


@facet('C31', 'memory', call_case(False, [n for n in CALLS if any(k in VARY for _p, k, _d in CALLS[n][1])]),
       3000,
       rule='public calls with floats as NumPy numbers or zero-dimensional arrays and arrays that are '
            'read-only, Fortran ordered, strided, reversed, big-endian, unaligned, broadcast or of a '
            'subclass, against the same numbers in plain arrays: equal results (1e-12) and the '
            'same warnings; non-trivial: an argument not in the plain form')
def memory(case, rec):
    name = case['call']
    fn, _ = CALLS[name]
    env = Env(case)
    plain, args, some = {}, {}, False
    for (p, kind, default), data, g, form in zip(params_of(name), case['vals'], case['given'],
                                                 case['layouts']):
        if default is not REQ and not g:
            continue
        if kind in VARY and form == 'constant' and isinstance(data, list) and kind not in ('npath', 't'):
            data = [data[0]] * len(data)
        if form in ('big-endian', 'unaligned') and kind in ('t', 't_i', 'track'):
            form = 'strided'         # scipy's splines refuse these
        plain[p] = make(env, kind, data)
        args[p] = lay(form, make(env, kind, data)) if kind in VARY else plain[p]
        some = some or kind in VARY and form != 'plain'
        if kind in VARY:
            rec.label(form)
    want, warned = with_warnings(fn(env), plain)
    got, warned2 = with_warnings(fn(Env(case)), args)
    equal_values(rec, name, got, want)
    rec.true(name + ': warnings', warned == warned2, (warned, warned2))
    rec.label(name)
    rec.nontrivial = some


# ------------------------------------------------------------------ objects made of integers
OBJ_OPS = sorted(n for n, (types, _f) in hist.OPS.items() if n not in hist.SETTERS and types
                 and n not in ('repr', 'positionA')
                 and all(t in ('pos', 'geo', 'nvec', 'ecef', 'pvec', 'path', 'local', 'frame')
                         for t in types))


@gen.memo
def _int_case(n):
    geo = st.fixed_dictionaries(dict(
        lat=gen.vec(st.integers(-89, 89), n), lon=gen.vec(st.integers(-400, 400), n),
        n=gen.vec(st.sampled_from(_AXES), n),
        z=gen.vec(st.one_of(st.integers(-5, 5), st.integers(-20000, 20000)), n)))
    big = st.integers(4000000, 6500000)
    small = st.integers(-6500000, 6500000)
    xyz = st.tuples(big, small, small, st.permutations([0, 1, 2]), st.booleans()).map(
        lambda t: [int((-1 if t[4] else 1) * t[t[3][i]]) for i in range(3)])
    q = st.fixed_dictionaries(dict(
        wa=st.integers(-3, 3), x=st.integers(-3, 3), y=st.integers(-1000, 1000),
        d=st.integers(1, 10 ** 7), t=st.sampled_from([0, 1, 0.5, 0.25, 0.75]), i=st.integers(0, 30), flag=st.booleans(),
        deg=st.booleans(), method=st.sampled_from(['ellipsoid', 'greatcircle'])))
    return st.fixed_dictionaries(dict(
        op=st.sampled_from(OBJ_OPS), q=q, A=geo, B=geo, C=geo, one=st.booleans() if n == 1 else st.just(False),
        p=gen.vec(xyz, n), ypr=gen.vec(st.integers(-9, 9), 3), v=gen.vec(_ivec(1, 40000).map(lambda t: t[0]), n),
        a=st.sampled_from([6378137, 6371000, 6400000]), axes=st.sampled_from('eE'),
        f=st.sampled_from([0, 1 / 298.257223563]), args=gen.vec(st.integers(0, 20), 4),
        form=st.sampled_from(['int', 'int32'])))


def int_pool(case, form):
    """frames, positions of each type, local frames, vectors and paths of integer values"""
    def c(x):
        return cast(form, x[0] if case['one'] else x)

    def m(x):
        return cast(form, np.array(x).T)
    frame = FrameE(a=cast(form, case['a']), f=case['f'], axes=case['axes'])
    A, B, C = case['A'], case['B'], case['C']
    pool = [frame, frame.GeoPoint(c(A['lat']), c(A['lon']), c(A['z']), degrees=True),
            frame.GeoPoint(c([x % 3 - 1 for x in C['lat']]), c([x % 7 for x in C['lon']]), c(C['z'])),
            frame.Nvector(m(B['n']), c(B['z'])), frame.Nvector(m(C['n']), c(A['z'])),
            frame.ECEFvector(m(case['p']))]
    pool.append(FrameB(pool[1], *[cast(form, x) for x in case['ypr']]))
    pool.append(FrameL(pool[3], cast(form, case['ypr'][0])))
    pool.append(FrameB(pool[5], *[cast(form, 10 * x) for x in case['ypr']], degrees=True))
    for local in pool[6:9]:
        pool.append(local.Pvector(m(case['v'])))
    return pool + [GeoPath(pool[1], pool[3]), GeoPath(pool[5], pool[2]), GeoPath(pool[4], pool[3])]


@facet('C31', 'integer objects', st.sampled_from([1, 1, 2, 3, 5]).flatmap(_int_case), 3600,
       rule='%d methods and operators on positions, frames, local frames, vectors and paths made of '
            'integers (depths, degrees, n-vectors along axes, metres, radians; int, int32, int64) '
            'against the same ones made of floats: equal results (1e-12); non-trivial: the '
            'method succeeds' % len(OBJ_OPS))
def integer_objects(case, rec):
    types, fun = hist.OPS[case['op']]
    out = []
    q = case['q']
    for form in (case['form'], 'float'):
        pool = int_pool(case, form)
        args = []
        for t, i in zip(types, case['args']):
            cand = [x for x in pool if t in hist.kind_of(x)]
            args.append(cand[i % len(cand)])
        status, value = hist.perform(case['op'], args, {k: float(v) if form == 'float' and type(v) is int
                                                        and k != 'i' else v for k, v in q.items()})
        out.append((status, hist.describe((value, args)) if status == 'ok' else value))
    rec.true('outcome of ' + case['op'], out[0][0] == out[1][0], out)
    if out[1][0] == 'ok':
        equal_values(rec, case['op'], out[0][1], out[1][1])
    rec.label(case['op'], case['form'])
    rec.nontrivial = out[1][0] == 'ok'


@facet('C31', 'angles', st.fixed_dictionaries(dict(x=st.one_of(
    gen.vec(st.integers(-720, 720), 1), st.lists(st.integers(-720, 720), min_size=1, max_size=6)),
    y=st.lists(gen.lon_deg(), min_size=1, max_size=4), sc=st.booleans())), 1200,
       rule='rad and deg of integers, lists, tuples, arrays and numbers, one or several: as of floats; '
            'non-trivial: more than one')
def angles(case, rec):
    x = case['x']
    f = np.array(x, dtype=float)
    for name, fun in (('rad', nv.rad), ('deg', nv.deg)):
        want = fun(f)
        for form, val in (('list', list(x)), ('tuple', tuple(x)), ('int64', np.array(x)),
                          ('int32', np.array(x, dtype=np.int32))):
            rec.close('%s of %s' % (name, form), fun(val), want, 4 * EPS * np.abs(np.asarray(want, dtype=LD)))
        one = fun(x[0])
        rec.true(name + ' of a number', np.ndim(one) == 0, one)
        rec.close(name + ' of int', one, want[0], 4 * EPS * abs(LD(want[0])))
        y = np.array(case['y'])
        both = fun(x, y)
        rec.true(name + ' of two', isinstance(both, tuple) and len(both) == 2, both)
        rec.close(name + ' first', both[0], want, 4 * EPS * np.abs(np.asarray(want, dtype=LD)))
        rec.close(name + ' second', both[1], fun(y), 0.0)
    rec.nontrivial = len(x) > 1
