"""Generators. A case is plain JSON data (floats, lists, dicts, strings)."""
import ast
import functools
import glob
import hashlib
import math
import os

import numpy as np
from hypothesis import strategies as st

from pbt import env, ref

PI = math.pi


def memo(fun):
    """strategies are built once: rebuilding them for every case is what costs time"""
    cache = {}

    @functools.wraps(fun)
    def wrapper(*args, **kw):
        key = (args, tuple(sorted(kw.items())))
        try:
            hash(key)
        except TypeError:
            key = repr(key)
        if key not in cache:
            cache[key] = fun(*args, **kw)
        return cache[key]
    return wrapper


def sized(build, sizes=None, most=300):
    """build(n) for a generated size n; each build(n) is made once"""
    build = memo(build)
    return or_long((size() if sizes is None else sizes).flatmap(build), lambda: build(UNIT), most)


# ---------------------------------------------------------------- long arrays
UNIT = 7                    # no other list of a case has this length


def or_long(normal, unit, most=300):
    """now and then, the columns of a case of UNIT columns drawn again and again"""
    if not most:
        return normal
    long = st.deferred(lambda: st.tuples(unit(), lengths(most), integer_seed()).map(_widen))
    return st.integers(0, 99).flatmap(lambda k: long if k == 41 else normal)


@memo
def lengths(most):
    near = sorted({n + d for n in [32, 64, 100, 128, 200, 256, 500, 512, 1000, 1024] + LONG
                   for d in (-1, 0, 1) if 18 <= n + d <= most})
    return st.one_of(st.sampled_from(near), st.integers(18, most), st.integers(18, most))


def _widen(t):
    case, m, seed = t
    r = np.random.RandomState(seed)
    idx = np.concatenate([np.arange(UNIT), r.randint(0, UNIT, m - UNIT)])

    def walk(x, key=None):
        if isinstance(x, dict):
            return {k: walk(v, k) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            if len(x) == UNIT:
                if key == 'perm':
                    return [int(i) for i in r.permutation(m)]
                return [x[i] for i in idx]
            return [walk(v, key) for v in x]
        return x
    return walk(case)


# ---------------------------------------------------------------- dictionary
def _fold(node):
    """value of a constant numeric expression or None"""
    if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) \
            and not isinstance(node.value, bool):
        return node.value
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        val = _fold(node.operand)
        return None if val is None else -val
    if isinstance(node, ast.BinOp):
        a, b = _fold(node.left), _fold(node.right)
        if a is None or b is None:
            return None
        try:
            if isinstance(node.op, ast.Add):
                return a + b
            if isinstance(node.op, ast.Sub):
                return a - b
            if isinstance(node.op, ast.Mult):
                return a * b
            if isinstance(node.op, ast.Div):
                return a / b
            if isinstance(node.op, ast.Pow) and abs(b) < 64:
                return a ** b
        except Exception:
            return None
    if isinstance(node, ast.Attribute) and node.attr == 'pi':
        return PI
    return None


def mine_constants():
    """numbers written in the code under test: interesting values for every generator"""
    found = set()
    for path in sorted(glob.glob(os.path.join(env.NV_DIR, '*.py'))):
        if os.path.basename(path) in ('plot.py',):
            continue
        try:
            tree = ast.parse(open(path, encoding='utf-8').read())
        except SyntaxError:
            continue
        for node in ast.walk(tree):
            if isinstance(node, (ast.Constant, ast.BinOp, ast.UnaryOp)):
                val = _fold(node)
                if isinstance(val, (int, float)) and math.isfinite(val) \
                        and 1e-17 <= abs(val) <= 1e10:
                    found.add(float(abs(val)))
    return sorted(found)


CONSTANTS = mine_constants()
LONG = sorted({int(c) for c in CONSTANTS if c == int(c) and 18 <= c <= 3000})
INTS = sorted({int(c) for c in CONSTANTS if c == int(c) and 1 <= c <= 64})


def _dict_values(lo, hi, convert=lambda x: x):
    vals = set()
    for c in CONSTANTS:
        for s in (c, -c):
            try:
                v = convert(s)
            except Exception:
                continue
            for w in (v, v * (1 + 1e-9), v * (1 - 1e-9), v * 1.03, v * 0.97):
                if lo <= w <= hi:
                    vals.add(float(w))
    return sorted(vals, key=lambda x: (abs(x), x))


@memo
def dictionary(lo, hi, convert=lambda x: x):
    vals = _dict_values(lo, hi, convert)
    return st.sampled_from(vals) if vals else st.floats(lo, hi)


# ---------------------------------------------------------------- scalars
@memo
def sgn():
    return st.sampled_from([1.0, -1.0])


@memo
def logu(lo, hi):
    return st.floats(math.log10(lo), math.log10(hi)).map(lambda e: min(hi, max(lo, 10.0 ** e)))


@memo
def signed_logu(lo, hi):
    return st.builds(lambda s, x: s * x, sgn(), logu(lo, hi))


_LAT_SPECIAL = [0.0, -0.0, 90.0, -90.0, 45.0, -45.0, 30.0, -30.0, 60.0, -60.0, 1.0, 89.0, -89.0]
_LON_SPECIAL = [0.0, -0.0, 90.0, -90.0, 180.0, -180.0, 45.0, 135.0, -135.0, 30.0, -60.0, 120.0]


@memo
def lat_deg(poles=True):
    opts = [st.floats(-90, 90), st.floats(-90, 90), st.sampled_from(_LAT_SPECIAL),
            st.builds(lambda s, x: s * (90 - x), sgn(), logu(1e-13, 1.0)),
            st.builds(lambda s, x: s * x, sgn(), logu(1e-15, 1.0)),
            st.integers(-90, 90).map(float),
            dictionary(-90, 90), dictionary(-90, 90, math.degrees)]
    out = st.one_of(*opts)
    if not poles:
        out = out.map(lambda x: max(-89.9, min(89.9, x)))
    return out


@memo
def lat_mild():
    return st.one_of(st.floats(-88, 88), st.integers(-88, 88).map(float),
                     st.sampled_from([0.0, 45.0, -45.0, 1e-9, -1e-6]))


@memo
def lon_deg(wide=True):
    opts = [st.floats(-180, 180), st.floats(-180, 180), st.sampled_from(_LON_SPECIAL),
            st.builds(lambda s, x: s * (180 - x), sgn(), logu(1e-13, 1.0)),
            st.builds(lambda s, x: s * x, sgn(), logu(1e-15, 1.0)),
            st.builds(lambda s, t, x: s * 90 + t * x, sgn(), sgn(), logu(1e-13, 1.0)),
            st.integers(-180, 180).map(float),
            dictionary(-180, 180), dictionary(-180, 180, math.degrees)]
    if wide:
        opts += [st.floats(-720, 720), st.sampled_from([360.0, -360.0, 540.0, 181.0, -181.0, 359.0]),
                 st.builds(lambda k, x: 360.0 * k + x, st.integers(-10, 10),
                           st.one_of(st.floats(-180, 180), st.just(180.0), st.just(0.0)))]
    return st.one_of(*opts)


@memo
def angle_deg(wide=True):
    return lon_deg(wide)


@memo
def lat_rad():
    return st.one_of(lat_deg().map(math.radians), st.floats(-PI / 2, PI / 2),
                     st.builds(lambda s, x: s * (PI / 2 - x), sgn(), logu(1e-16, 1e-2)),
                     st.builds(lambda s, x: s * x, sgn(), logu(1e-300, 1e-2)),
                     st.sampled_from([PI / 2, -PI / 2, 0.0, -0.0]))


@memo
def lon_rad():
    return st.one_of(lon_deg().map(math.radians), st.floats(-PI, PI), st.floats(-4 * PI, 4 * PI),
                     st.builds(lambda s, x: s * (PI - x), sgn(), logu(1e-16, 1e-2)),
                     st.builds(lambda s, x: s * x, sgn(), logu(1e-300, 1e-2)),
                     st.sampled_from([PI, -PI, 0.0, -0.0, PI / 2, -PI / 2]))


@memo
def depth(lo=-1e8, hi=3e6):
    """z [m]: positive down"""
    opts = [st.sampled_from([0.0, 0.0, -0.0, 1.0, -1.0, 100.0, -8848.0, 10994.0]),
            logu(1e-6, hi), logu(1e-6, -lo).map(lambda x: -x), st.floats(-1e4, 1e4),
            st.integers(-1000, 1000).map(float), dictionary(lo, hi)]
    return st.one_of(*opts)


@memo
def small_depth():
    return st.one_of(st.sampled_from([0.0, 0.0, 1.0, -1.0, 100.0, -500.0]), st.floats(-1e4, 1e4))


LABELS = ['mine', ' my own  one ', 'WGS84', 'etrs89', '', "Moon's", 'a=1, f=2', 'wgs 72', 3,
          'An ellipsoid with a name that is rather long, as some are: of the International Union']
NAMES = ['wgs84', 'WGS 72', 'Airy 1858', 'Bessel', 'clarke 1880', 'International', 'NAD27',
         'ETRS89', 'krassovsky', 'everestmodified']


@memo
def flattening(maxf=0.02):
    # |f| below 1e-12 counts as 0: geographiclib itself divides by zero for subnormal flattenings
    return st.one_of(st.sampled_from([0.0, 1 / 298.257223563, 1 / 298.257223563, 1 / 297.0,
                                      min(0.01, maxf), -1 / 298.25]),
                     st.floats(0, maxf), st.floats(-maxf, maxf),
                     signed_logu(1e-12, maxf)).map(lambda x: x if abs(x) >= 1e-12 else 0.0)


@memo
def semi_major(lo=1e3, hi=1e9):
    return st.one_of(st.sampled_from([6378137.0, 6371009.0, 6378388.0]),
                     st.floats(6.3e6, 6.4e6), logu(lo, hi), dictionary(lo, hi))


@memo
def axes():
    return st.sampled_from(['e', 'E'])


@memo
def earth_like():
    """{'a','f','axes'} close to the real Earth"""
    return st.fixed_dictionaries(dict(
        a=st.one_of(st.sampled_from([6378137.0, 6378388.0, 6371009.0]), st.floats(6.3e6, 6.4e6)),
        f=st.one_of(st.sampled_from([1 / 298.257223563, 0.0, 1 / 297.0]), st.floats(0, 0.01)),
        axes=axes()))


@memo
def frame(lo=1e3, hi=1e9, maxf=0.02):
    custom = st.fixed_dictionaries(dict(a=semi_major(lo, hi), f=flattening(maxf), axes=axes()))
    named = st.fixed_dictionaries(dict(name=st.sampled_from(NAMES), axes=axes()))
    # (a name with both numbers given is a label only, whatever it is)
    label = st.tuples(custom, st.sampled_from(LABELS)).map(lambda t: dict(t[0], name=t[1]))
    default = st.just(dict())
    return st.one_of(default, named, custom, label)


@memo
def size(maxn=17):
    big = [n for n in INTS if n <= maxn] or [1]
    return st.one_of(st.sampled_from([1, 1, 2, 3, 3, 4]), st.integers(1, 6),
                     st.integers(1, maxn), st.sampled_from(big))


@memo
def vec(elem, n):
    return st.tuples(*[elem] * n).map(list)


KINDS = ('geo', 'nvec', 'ecef')


@memo
def _point(n, scalar, lat, lon, z, kinds):
    return st.fixed_dictionaries(dict(lat=vec(lat, n), lon=vec(lon, n), z=vec(z, n),
                                      scalar=st.just(scalar), kind=st.sampled_from(kinds)))


@memo
def shape(maxn=17, scalar=None):
    """(n, scalar): scalar positions, vectors of one and longer vectors"""
    vectors = size(maxn).map(lambda k: (k, False))
    if scalar is True:
        return st.just((1, True))
    if scalar is False:
        return vectors
    return st.one_of(st.just((1, True)), st.just((1, False)), vectors, vectors)


def shaped(build, maxn=17, scalar=None, most=300):
    """build(n, scalar) for a generated shape"""
    build = memo(build)
    return or_long(shape(maxn, scalar).flatmap(lambda t: build(*t)), lambda: build(UNIT, False),
                   0 if scalar else most)


@memo
def point(lat=None, lon=None, z=None, n=None, kinds=KINDS, scalar=None):
    """{'lat': [...], 'lon': [...], 'z': [...], 'scalar': bool, 'kind': str}, degrees"""
    lat = lat_deg() if lat is None else lat
    lon = lon_deg() if lon is None else lon
    z = depth() if z is None else z
    if n is not None:
        return _point(n, n == 1 and scalar is not False, lat, lon, z, kinds)
    return shaped(lambda k, sc: _point(k, sc, lat, lon, z, kinds), scalar=scalar)


# separations and paths -------------------------------------------------------
@memo
def separation():
    """angular distance [rad] from coincident to antipodal"""
    return st.one_of(st.floats(0, PI), logu(1e-16, PI), logu(1e-16, 1.0).map(lambda x: PI - x),
                     st.sampled_from([0.0, PI, PI / 2, 1e-9, 1e-7, 2 * PI / 3]),
                     logu(1e-8, 1e-2), dictionary(0, PI), dictionary(0, PI, math.radians),
                     dictionary(0, PI, lambda x: x / 6371009.0))


@memo
def moderate_separation():
    return st.one_of(st.floats(0.01, 3.1), logu(1e-4, 1.0), st.sampled_from([PI / 2, 1.0, 2.5]))


def move(lat, lon, az, d):
    """lat, lon [deg] of the spherical destination, from degrees and radians d (rounded)"""
    n = ref.nvec(np.radians(ref.ld(lat)), np.radians(ref.ld(lon)))
    R = ref.R_EN(np.radians(ref.ld(lat)), np.radians(ref.ld(lon)))
    az = np.radians(ref.ld(az))
    direction = R[:, 0] * np.cos(az) + R[:, 1] * np.sin(az)
    b = n * np.cos(ref.ld(d)) + direction * np.sin(ref.ld(d))
    la, lo = ref.latlon(b)
    la, lo = np.degrees(la), np.degrees(lo)
    out = [max(-90.0, min(90.0, float(x))) for x in la], [float(x) for x in lo]
    return out


def near(pt, az, d, z, kind):
    """point spec at angular distances d [rad] in directions az [deg] from pt"""
    la, lo = move(pt['lat'], pt['lon'], az, d)
    for i, di in enumerate(d):           # exactly coincident / antipodal ones
        if di == 0:
            la[i], lo[i] = pt['lat'][i], pt['lon'][i]
        elif di == PI:
            la[i] = -pt['lat'][i]
            lo[i] = pt['lon'][i] + (180.0 if pt['lon'][i] <= 0 else -180.0)
    return dict(lat=la, lon=lo, z=z, scalar=pt['scalar'], kind=kind)


@memo
def _neighbour(n, scalar, sep, z, kinds, lat, lon, point_z=None):
    first = _point(n, scalar, lat, lon, z if point_z is None else point_z, kinds)
    return st.tuples(first, vec(angle_deg(False), n), vec(sep, n), vec(z, n),
                     st.sampled_from(kinds)).map(
        lambda t: (t[0], near(t[0], t[1], t[2], t[3], t[4])))


@memo
def pair_n(n, scalar, sep=None, z=None, kinds=KINDS, lat=None, lon=None, free=True):
    """two points of the same shape: second anywhere or at a controlled separation"""
    sep = separation() if sep is None else sep
    z = depth() if z is None else z
    lat = lat_deg() if lat is None else lat
    lon = lon_deg() if lon is None else lon
    nb = _neighbour(n, scalar, sep, z, kinds, lat, lon)
    if not free:
        return nb
    pt = _point(n, scalar, lat, lon, z, kinds)
    return st.one_of(nb, nb, st.tuples(pt, pt))


@memo
def pair(sep=None, z=None, kinds=KINDS, lat=None, lon=None, scalar=None, free=True, maxn=17):
    return shaped(lambda n, sc: pair_n(n, sc, sep, z, kinds, lat, lon, free), maxn, scalar)


@memo
def unit_vec(n):
    """n canonical n-vectors (3 lists) as lists of components, not exactly normalised"""
    comp = st.one_of(st.floats(-1, 1), st.sampled_from([0.0, -0.0, 1.0, -1.0]),
                     signed_logu(1e-16, 1.0))

    def fix(v):
        # squares must not underflow: unit() is not meant for vectors of size 1e-160
        a = np.array([c if abs(c) > 1e-100 else 0.0 for c in v], dtype=np.longdouble)
        r = np.sqrt(np.sum(a * a))
        if not r > 1e-12:
            return [1.0, 0.0, 0.0]
        a = a / r
        return [float(x) for x in a]
    return vec(st.tuples(comp, comp, comp).map(fix), n)


@memo
def quaternion():
    c = st.one_of(st.floats(-1, 1), st.sampled_from([0.0, 1.0, -1.0, 0.5]), signed_logu(1e-12, 1.0))

    def fix(q):
        q = [x if abs(x) > 1e-12 else 0.0 for x in q]
        r = math.sqrt(sum(x * x for x in q))
        return [1.0, 0.0, 0.0, 0.0] if r < 1e-6 else [x / r for x in q]
    return st.tuples(c, c, c, c).map(fix)


@memo
def R_Ee():
    """None, 'e', 'E' or a quaternion: orientation of the axes for the functional API"""
    return st.one_of(st.none(), st.just('e'), st.just('E'), st.just('E'), quaternion())


def get_R(spec):
    """matrix to pass (or None) and the canonical->E matrix C"""
    if spec is None:
        return None, ref.C['e']
    if isinstance(spec, str):
        return ref.R_E[spec].copy(), ref.C[spec]
    R = ref.f64(ref.quat2R(spec))
    return R, ref.mat(R)


def is_perm(spec):
    return spec is None or isinstance(spec, str)


def integer_seed():
    """evenly distributed numbers: for choices that Hypothesis would repeat"""
    return st.binary(min_size=8, max_size=8).map(
        lambda b: int.from_bytes(hashlib.sha256(b).digest()[:4], 'little'))


def random_state():
    return integer_seed().map(np.random.RandomState)
