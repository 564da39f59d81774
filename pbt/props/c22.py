"""C22 equality of positions and frames; isclose and allclose"""
from fractions import Fraction

import numpy as np
from nvector import (ECEFvector, FrameB, FrameE, FrameL, FrameN, GeoPath, GeoPoint, Nvector,
                     Pvector)
from nvector.util import allclose, isclose
from hypothesis import strategies as st

from pbt import catalog, gen, ref
from pbt.core import EPS, arr, facet

TWO_PI = 2 * np.pi
TYPES = ('GeoPoint', 'Nvector', 'ECEFvector', 'Pvector', 'FrameE', 'FrameN', 'FrameL', 'FrameB')


def values(case):
    """plain numbers an object of any type is made of"""
    p = case['p']
    if not {case['kind'], case['other']} <= {'GeoPoint', 'Nvector', 'ECEFvector', 'FrameE'}:
        p = dict(p, lat=[x if abs(x) < 89 else 0.9 * x for x in p['lat']])   # axes of local frames
    n = ref.f64(ref.C[case['axes']] @ ref.nvec(np.deg2rad(p['lat']), np.deg2rad(p['lon'])))
    d = dict(lat=np.deg2rad(p['lat']), lon=np.deg2rad(p['lon']), z=np.array(p['z'], dtype=float),
             n=n, v=np.array(case['v']).T, a=np.array(case['a']), f=np.array(case['f']),
             wa=np.array(case['wa']), ypr=np.array(case['ypr']), axes=case['axes'])
    return d


PARTS = dict(GeoPoint='lat lon z a f axes', Nvector='n z a f axes', ECEFvector='v a f axes',
             Pvector='v n a f axes', FrameE='a f axes', FrameN='n a f axes',
             FrameL='n wa a f axes', FrameB='n z ypr a f axes')


def make(kind, d, scalar, local='N', name='WGS84'):
    sc = (lambda x: float(np.ravel(x)[0])) if scalar else (lambda x: np.array(x))
    F = FrameE(a=float(d['a']), f=float(d['f']), axes=d['axes'], name=name)
    if kind == 'GeoPoint':
        return GeoPoint(sc(d['lat']), sc(d['lon']), sc(d['z']), F)
    if kind == 'Nvector':
        return Nvector(np.array(d['n']), sc(d['z']), F)
    if kind == 'ECEFvector':
        return ECEFvector(np.array(d['v']), F, scalar)
    if kind == 'FrameE':
        return F
    x = Nvector(np.array(d['n']), sc(d['z']), F)
    if kind == 'Pvector':
        x = Nvector(np.array(d['n'][:, :1]), 0, F)
        L = FrameN(x) if local == 'N' else FrameL(x, 0.5) if local == 'L' else FrameB(x, 1, .5, .2)
        return Pvector(np.array(d['v']), L)
    if kind == 'FrameN':
        return FrameN(x)
    if kind == 'FrameL':
        return FrameL(x, float(d['wa']))
    return FrameB(x, *[float(q) for q in d['ypr']])


def _spot(x, i, fun):
    y = np.array(x, dtype=float, order='C')
    flat = y.reshape(-1)
    i = i % flat.size
    flat[i] = fun(flat[i], i)
    return y


def alter(d, part, size, i, kind):
    """d with one number changed clearly (relative size)"""
    d = dict(d)
    if part == 'axes':
        d['axes'] = 'E' if d['axes'] == 'e' else 'e'
        return d
    if part in ('lat', 'lon'):
        step = min(max(size, 2e-13), 1.0)
        d[part] = _spot(d[part], i, lambda x, _i: x - step if part == 'lat' and x > 0 else x + step)
    elif part == 'f':
        d['f'] = d['f'] + (-1 if d['f'] > 0 else 1) * max(size * 1e-2, 4e-14)
    elif part == 'n':
        # turn it: a rotated n-vector stays a unit vector
        step = min(max(size, 1e-11), 1.0)
        n = np.array(d['n'])
        k = i % n.shape[1] if kind != 'Pvector' else 0
        j = int(np.argmin(np.abs(n[:, k])))
        v = n[:, k].astype(ref.LD)
        e = np.zeros(3, dtype=ref.LD)
        e[j] = 1
        t = e - v * np.dot(v, e)
        t = t / np.sqrt(np.dot(t, t))
        n[:, k] = ref.f64(np.cos(ref.ld(step)) * v + np.sin(ref.ld(step)) * t)
        d['n'] = n
    else:
        lo = 4e-14 if part != 'ypr' and part != 'wa' else 1e-11
        d[part] = _spot(d[part], i, lambda x, _i: x + max(abs(x) * size, lo))
    return d


def wiggle(d, rs):
    """differences of rounding level in every number"""
    out = dict(d)
    for key in d:
        if key != 'axes':
            out[key] = np.asarray(d[key] * (1 + 2 * EPS * rs.uniform(-1, 1, np.shape(d[key]))))
    for key in ('lat', 'lon'):     # angles: absolute
        out[key] = d[key] + np.clip(out[key] - d[key], -2e-15, 2e-15)
    return out


def eq_case():
    def build(n, scalar):
        comp = st.one_of(st.floats(-1e7, 1e7), gen.signed_logu(1e-3, 1e8), st.just(0.0))
        comp = comp.map(lambda x: x if abs(x) > 1e-30 else 0.0)
        z = gen.small_depth().map(lambda x: x if abs(x) > 1e-30 else 0.0)
        return st.fixed_dictionaries(dict(
            p=gen._point(n, scalar, gen.lat_deg(), gen.lon_deg(), z, ('geo',)),
            v=gen.vec(st.tuples(comp, comp, comp).map(list), n),
            a=gen.semi_major(), f=gen.flattening(), axes=gen.axes(),
            wa=st.floats(-3, 3), ypr=gen.vec(st.floats(-3, 3), 3),
            kind=st.sampled_from(TYPES), other=st.sampled_from(TYPES), local=st.sampled_from('NLB'),
            how=st.sampled_from(['same', 'wiggle', 'turns', 'alter', 'alter', 'alter', 'alter']),
            part=st.integers(0, 100), i=st.integers(0, 200), seed=st.integers(0, 10 ** 6),
            size=st.one_of(gen.logu(4e-12, 1e-2), gen.logu(4e-12, 1e-9)),
            turns=gen.vec(st.integers(-2, 2), n)))
    return gen.shaped(build, maxn=9)


def both(rec, name, x, y, want):
    for tag, p, q in (('', x, y), (' swapped', y, x)):
        e, ne = p == q, p != q
        rec.true('%s ==%s' % (name, tag), np.ndim(e) == 0 and bool(e) == want, (p, q))
        rec.true('%s !=%s' % (name, tag), np.ndim(ne) == 0 and bool(ne) != want, (p, q))


@facet('C22', 'positions and frames', eq_case(), 8000,
       rule='objects of 8 types compared with a rebuilt copy, a copy differing by 2 ulp in every '
            'number, by full turns of longitude, by 4e-12 to 1e-2 relative in exactly one number '
            'of one element (or axes); other frame name; ==, != both ways; non-trivial: not the '
            'identical rebuild')
def equality(case, rec):
    kind, d = case['kind'], values(case)
    sc = case['p']['scalar']
    x = make(kind, d, sc, case['local'])
    both(rec, kind + ' itself', x, x, True)
    parts = PARTS[kind].split()
    part = parts[case['part'] % len(parts)]
    name, want = kind, True
    if case['how'] == 'same':
        y = d
    elif case['how'] == 'wiggle':
        y = wiggle(d, np.random.RandomState(case['seed']))
    elif case['how'] == 'turns':
        y = dict(d)
        if kind == 'GeoPoint':
            y['lon'] = d['lon'] + TWO_PI * np.array(case['turns'])
            ok = np.abs(y['lon']) < 20
            y['lon'] = np.where(ok, y['lon'], d['lon'])
        elif kind == 'FrameL':
            y['wa'] = d['wa'] + TWO_PI * case['turns'][0]
    else:
        y = alter(d, part, case['size'], case['i'], kind)
        if part == 'lon':
            # a change by almost a full turn is no clear change: steps are at most 1 rad
            pass
        name, want = '%s %s altered' % (kind, part), False
    local = case['local']
    both(rec, name + ' ' + case['how'], x, make(kind, y, sc, local, name='NAD27'), want)
    rec.label(kind, name if not want else case['how'])
    rec.nontrivial = case['how'] != 'same'


def foreign(case, d):
    i = case['i']
    other = [None, 0, 1.5, 'x', [], (1, 2), {}, object(), np.zeros(3), np.float64(2), True,
             FrameE, d['lat'], np.nan, Ellipsoid_like(), GeoPath(None, None)]
    return other[i % len(other)]


class Ellipsoid_like(object):
    a, f, name = 6378137.0, 1 / 298.257223563, 'x'


@facet('C22', 'other types and shapes', eq_case(), 3000,
       rule='objects of 8 types compared with objects of another type (position types, frames, '
            'numbers, None, strings, arrays), and with vectors of another length that cannot be '
            'broadcast: unequal, no error, both ways; non-trivial: two nvector objects')
def types(case, rec):
    kind, other, d = case['kind'], case['other'], values(case)
    sc = case['p']['scalar']
    x = make(kind, d, sc, case['local'])
    how = case['part'] % 3
    if how == 0 and case['part'] % 2 and kind[:5] == other[:5] == 'Frame':
        # local frames with the same axes
        d.update(ypr=0 * d['ypr'], wa=0 * d['wa'], z=0 * d['z'])
        x = make(kind, d, sc, case['local'])
        rec.label('frames_with_the_same_axes')
    if how == 0 and kind != other and {kind, other} == {'FrameN', 'FrameL'}:
        y = make(other, d, sc, case['local'])
        rec.true('FrameN and FrameL symmetric', bool(x == y) == bool(y == x)
                 and bool(x != y) == bool(y != x) != bool(x == y), (x == y, y == x))
    elif how == 0 and other != kind and {kind, other} != {'FrameN', 'FrameL'}:
        both(rec, kind + ' and ' + other, x, make(other, d, sc, case['local']), False)
        rec.nontrivial = True
        rec.label('types')
    elif how == 1:
        y = foreign(case, d)
        rec.true(kind + ' == foreign', (x == y) is False or bool(x == y) is False, repr(y))
        rec.true(kind + ' != foreign', bool(x != y) is True, repr(y))
        rec.label('foreign')
    else:
        n = len(case['p']['lat'])
        if n < 2 or kind in ('FrameE',):
            return
        y = {}
        m = n + 1
        for key, val in d.items():
            if key in ('lat', 'lon', 'z', 'n', 'v'):
                val = np.concatenate([val, val[..., :1]], axis=-1)
            y[key] = val
        both(rec, kind + ' of other length', x, make(kind, y, False, case['local']), False)
        rec.label('length')
        rec.nontrivial = True


@facet('C22', 'catalogue pairs', st.tuples(st.integers(1, 1), gen.axes()), 4, 4,
       rule='the 38 frames of the catalogue against each other, exhaustively: equal exactly if '
            'a, f and axes are; non-trivial: all')
def pairs(case, rec):
    ax = case[1]
    for i in catalog.TABLE:
        x = FrameE(name=i, axes=ax)
        for j in catalog.TABLE:
            for ay in 'eE':
                same = catalog.TABLE[i][:2] == catalog.TABLE[j][:2] and ax == ay
                both(rec, '%s%s and %s%s' % (i, ax, j, ay), x, FrameE(name=j, axes=ay), same)
    rec.nontrivial = True


# ------------------------------------------------------------------ isclose, allclose
_VAL = st.one_of(st.floats(-1e3, 1e3), gen.signed_logu(1e-290, 1e290), st.integers(-5, 5).map(float),
                 st.sampled_from([0.0, -0.0, float('inf'), float('-inf'), float('nan'), 1.0]))


def _plain(x):
    return {'Infinity': float('inf'), '-Infinity': float('-inf'), 'NaN': float('nan')}.get(x, x) \
        if isinstance(x, str) else x


def _js(x):
    if x != x:
        return 'NaN'
    return 'Infinity' if x == float('inf') else '-Infinity' if x == float('-inf') else x


def close_case():
    def mk(a, kind, rel, fresh, tol):
        if kind == 0:
            b = fresh
        elif kind == 1:
            b = a
        elif kind == 2:
            b = a * (1 + rel)
        elif kind == 3:
            b = a + rel
        else:
            b = a * (1 + tol[0] * (1 + rel)) + tol[1] * (1 + rel) * (kind == 5)
        if b == b and abs(b) != float('inf') and abs(b) > 1e300:
            b = a
        return [_js(a), _js(b)]
    tol = st.tuples(st.one_of(st.just(0.0), gen.logu(1e-16, 0.5), st.sampled_from([1e-9, 1e-7])),
                    st.one_of(st.just(0.0), gen.logu(1e-300, 1e10), st.sampled_from([1e-14, 1e-8])))

    def build(t):
        pair = st.builds(mk, _VAL, st.integers(0, 5), gen.signed_logu(1e-16, 1.0), _VAL, st.just(t))
        return st.fixed_dictionaries(dict(
            pairs=st.lists(pair, min_size=1, max_size=8), rtol=st.just(t[0]), atol=st.just(t[1]),
            nan=st.booleans(), form=st.sampled_from(['array', 'list', 'one', 'scalar', 'outer',
                                                     'matrix', 'int'])))
    return tol.flatmap(build)


def model(a, b, rtol, atol, nan):
    """True/False, or None within rounding of the limit"""
    if a != a or b != b:
        return bool(nan and a != a and b != b)
    if abs(a) == float('inf') or abs(b) == float('inf'):
        return a == b
    fa, fb = Fraction(a), Fraction(b)
    lhs = abs(fa - fb)
    rhs = max(Fraction(atol), Fraction(rtol) * max(abs(fa), abs(fb)))
    slack = Fraction(4 * EPS) * rhs + Fraction(4 * EPS) * lhs + Fraction(5e-324) * 2
    if lhs == 0 or rhs == 0:
        return lhs <= rhs
    if abs(lhs - rhs) <= slack:
        return None
    return lhs <= rhs


@facet('C22', 'isclose and allclose', close_case(), 8000,
       rule='pairs from 1e-290 to 1e290, zeros, infinities, NaN, differences around the '
            'tolerances; rtol, atol, equal_nan given or defaults; lists, arrays, scalars, '
            'broadcasting, integers; oracle: the documented formula in exact rational '
            'arithmetic; symmetric; allclose = all of isclose; non-trivial: two different '
            'finite numbers')
def closeness(case, rec):
    pairs = [(_plain(p), _plain(q)) for p, q in case['pairs']]
    rtol, atol, nan, form = case['rtol'], case['atol'], case['nan'], case['form']
    if form == 'int':
        pairs = [(int(p), int(q)) for p, q in pairs
                 if abs(p) < 2 ** 50 and abs(q) < 2 ** 50] or [(1, 2)]
    if form in ('one', 'scalar'):
        pairs = pairs[:1]
    a, b = [p for p, _q in pairs], [q for _p, q in pairs]
    if form == 'scalar':
        A, B, ea, eb, shape = a[0], b[0], a, b, ()
    elif form == 'outer':
        A, B = np.array(a).reshape(-1, 1), np.array(b)
        shape = (len(a), len(b))
        ea = [p for p in a for _q in b]
        eb = [q for _p in a for q in b]
    elif form == 'matrix':
        A, B = np.array([a, b]), np.array(b)
        shape, ea, eb = (2, len(b)), a + b, b + b
    else:
        A, B, ea, eb, shape = a, b, a, b, (len(a),)
        if form != 'list':
            A, B = np.array(a), np.array(b)
    for fun, dr, da in ((isclose, 1e-9, 0.0), (allclose, 1e-7, 1e-14)):
        for default in (False, True):
            kw = {} if default else dict(rtol=rtol, atol=atol, equal_nan=nan)
            r, t, nn = (dr, da, False) if default else (rtol, atol, nan)
            want = [model(float(p), float(q), r, t, nn) for p, q in zip(ea, eb)]
            got, back = fun(A, B, **kw), fun(B, A, **kw)
            name = '%s%s' % (fun.__name__, ' default' if default else '')
            if fun is isclose:
                rec.true(name + ' shape', np.shape(got) == shape, np.shape(got))
                got, back = arr(got).ravel(), arr(back).ravel()
                rec.true(name + ' symmetric', got == back, (got, back))
                for p, q, g, w in zip(ea, eb, got, want):
                    rec.true(name, w is None or bool(g) == w, (p, q, g, w, r, t, nn))
            else:
                rec.true(name + ' is one answer', np.ndim(got) == 0, got)
                rec.true(name + ' symmetric', bool(got) == bool(back), (got, back))
                if False in want or None not in want:
                    rec.true(name, bool(got) == (False not in want), (ea, eb, want, r, t, nn))
    fin = [(p, q) for p, q in pairs if p != q and abs(p) < 1e300 and abs(q) < 1e300]
    rec.nontrivial = bool(fin)
    rec.label(form)
