"""C21 positions of different Earth frames are never combined silently"""
import numpy as np
from nvector import (ECEFvector, FrameB, FrameE, FrameL, FrameN, GeoPath, GeoPoint, Nvector,
                     delta_E, delta_L, delta_N, diff_positions)
from hypothesis import strategies as st

from pbt import catalog, gen
from pbt.core import Violation, attr, facet
from pbt.nv import ellipsoid_of, mkframe, mkpoint

SPELL = [str, str.upper, str.lower, lambda s: ' ' + s, lambda s: s[:3] + ' ' + s[3:], str.title]


def _named(key):
    return [n for n in catalog.NAMES if catalog.NAMES[n] == key]


@gen.memo
def spec():
    """a frame as the catalogue number or as numbers"""
    number = st.fixed_dictionaries(dict(key=st.integers(1, 19), axes=gen.axes()))
    free = st.fixed_dictionaries(dict(a=gen.semi_major(1e4, 1e8), f=gen.flattening(),
                                      axes=gen.axes()))
    return st.one_of(st.just(dict(key=18, axes='e')), number, free)


def values(s):
    if 'key' in s:
        a, rf, _n = catalog.TABLE[s['key']]
        return a, 1.0 / rf, s['axes']
    return s['a'], s['f'], s['axes']


def construct(s, how):
    """FrameE with the parameters of s, constructed in one of several ways"""
    a, f, axes = values(s)
    how, extra = divmod(how, 6)
    if 'key' in s:
        if how == 0 and s['key'] == 18 and axes == 'e':
            return None                # the default
        if how in (0, 1):
            names = _named(s['key'])
            return FrameE(name=SPELL[extra](names[extra % len(names)]), axes=axes)
        if how == 2:
            return FrameE(name=s['key'], axes=axes)
        if how == 3:                   # one of the two overridden by its own value
            kw = dict(a=a) if extra % 2 else dict(f=f)
            return FrameE(name=s['key'], axes=axes, **kw)
    if how == 4:
        return FrameE(np.float64(a), np.array(f), 'somewhere', axes)
    if how == 5:
        return FrameE(a=a * (1 + 3e-16), f=f, axes=axes)
    return FrameE(a=a, f=f, axes=axes, name=['WGS84', 'mine', 'WGS 72', 'ED50'][extra % 4])


def alter(s, d):
    """a frame that differs from s clearly, in what d says"""
    a, f, axes = values(s)
    what, size, other = d['what'], d['size'], d['other']
    if 'a' in what:
        a = a * (1 + size) if size < 0.5 else a * 2
    if 'f' in what:
        df = max(2e-12, min(abs(size), 1.0) * 0.01)
        f = f - df if f > 0 else f + df
    if 'x' in what:
        axes = 'E' if axes == 'e' else 'e'
    new = dict(a=a, f=f, axes=axes)
    if what == 'k':
        new = other
    return new


def differ(s, t):
    a, f, x = values(s)
    b, g, y = values(t)
    return (abs(a - b) > 2e-12 * max(a, b) or abs(f - g) > 1.5e-12 or x != y)


def same(s, t):
    a, f, x = values(s)
    b, g, y = values(t)
    return abs(a - b) <= 1e-14 * max(a, b) and abs(f - g) <= 1e-15 and x == y



def make_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            p=gen.pair_n(n, scalar, z=gen.small_depth()),
            s=spec(), other=spec(), what=st.sampled_from(['a', 'f', 'x', 'k', 'af', 'ax', '']),
            size=st.one_of(gen.logu(4e-12, 1e-3), st.floats(1e-3, 0.4)),
            how=st.integers(0, 41), how2=st.integers(0, 41), swap=st.booleans(),
            op=st.integers(0, 10 ** 6), t=st.floats(0, 1)))
    return gen.shaped(build, maxn=4)


def _mk(pt, frame, s):
    a, f, axes = values(s)
    return mkpoint(pt, frame, dict(a=a, f=f, axes=axes))


def operations(A, B, t):
    """(name, call, combines) - combines: None or function giving frame of the result"""
    fr = lambda r: attr(r, 'frame')
    loc = lambda r: attr(attr(attr(r, 'frame'), 'nvector'), 'frame')
    ops = [('delta_E', lambda: delta_E(A, B), fr), ('delta_N', lambda: delta_N(A, B), loc),
           ('delta_L', lambda: delta_L(A, B, 0.3), loc), ('delta_to', lambda: A.delta_to(B), loc),
           ('diff_positions', lambda: diff_positions(A, B), fr)]
    na, nb, ea, eb = A.to_nvector(), B.to_nvector(), A.to_ecef_vector(), B.to_ecef_vector()
    ops += [('Nvector +', lambda: na + nb, fr), ('Nvector -', lambda: na - nb, fr),
            ('ECEF +', lambda: ea + eb, fr), ('ECEF -', lambda: ea - eb, fr)]
    g = A.to_geo_point()
    for m in ('ellipsoid', 'greatcircle'):
        ops += [('distance_and_azimuth ' + m,
                 lambda m=m: g.distance_and_azimuth(B, method=m), None)]
    path = GeoPath(A, B)
    ops += [('GeoPath.interpolate', lambda: path.interpolate(t), fr),
            ('track_distance', lambda: path.track_distance(method='ellipsoidal'), None)]
    for name, F in (('N', lambda: FrameN(B)), ('L', lambda: FrameL(B, 0.2)),
                    ('B', lambda: FrameB(B, 0.3, 0.2, 0.1))):
        ops += [('change_frame ' + name, lambda F=F: ea.change_frame(F()), loc)]
    return ops


@facet('C21', 'combinations', make_case(), 6000,
       rule='17 combining operations on two positions of every type whose frames are equal '
            '(built from names in any spelling, numbers, explicit values, partial overrides, '
            'another label) or differ in a, f, axes (relative 4e-12 up to factors) or are two '
            'catalogue entries; both orders; ValueError exactly when they differ, results in '
            'the frame of the operands; non-trivial: two frames, or equal ones built differently')
def combine(case, rec):
    s = case['s']
    t = alter(s, dict(case, other=case['other'])) if case['what'] else dict(s)
    if 'key' in s and not case['what']:
        t = dict(s)
    one = construct(s, case['how'])
    two = construct(t, case['how2'])
    unequal, equal = differ(s, t), same(s, t)
    if not (unequal or equal):
        return                                # too close to the tolerance to tell
    A = _mk(case['p'][0], one, s)
    B = _mk(case['p'][1], two, t)
    sa, sb = s, t
    if case['swap']:
        A, B, sa, sb = B, A, t, s
    fa, fb = attr(A, 'frame'), attr(B, 'frame')
    rec.true('frames equal', (fa == fb) == equal and (fb == fa) == equal, (fa, fb))
    rec.true('frames differ', (fa != fb) == unequal and (fb != fa) == unequal, (fa, fb))
    ops = operations(A, B, case['t'])
    k = case['op'] % len(ops)
    for name, call, result_frame in (ops[k], ops[(k + 5) % len(ops)], ops[(k + 11) % len(ops)]):
        try:
            r = call()
        except ValueError as exc:
            rec.true('%s of positions of equal frames raises %s' % (name, exc), unequal, (fa, fb))
            continue
        rec.true('%s of positions of different frames is silent' % name, not unequal,
                 (fa, fb))
        if result_frame is not None:
            f = result_frame(r)
            va, vb, vx = values(sa)
            rec.close('frame of result a', f.a, va, 1e-14 * va)
            rec.close('frame of result f', f.f, vb, 1e-16)
            rec.true('frame of result', f == fa and f == fb, (f, fa, fb))
        rec.label(name)
    rec.label('unequal ' + case['what'] if unequal else 'equal')
    rec.nontrivial = unequal or case['how'] != case['how2']


def stay_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            p=gen.pair_n(n, scalar, z=gen.small_depth()), q=gen.pair_n(n, scalar, z=gen.small_depth()),
            s=spec(), how=st.integers(0, 41), other=spec(), t=st.floats(0, 1),
            az=st.floats(-3, 3), d=st.floats(0, 1)))
    return gen.shaped(build, maxn=4)


@facet('C21', 'results stay', stay_case(), 1500,
       rule='every method that returns a position (conversions, displace, intersect, closest '
            'point, interpolate, mean, arithmetic, frame factories with another frame given): the '
            'result carries the frame of the operands; non-trivial: not the default frame')
def stay(case, rec):
    s = case['s']
    frame = construct(s, case['how'])
    a, f, axes = values(s)
    A, B = [_mk(p, frame, s) for p in case['p']]
    C, D = [_mk(p, frame, s) for p in case['q']]
    g, n, e = A.to_geo_point(), A.to_nvector(), A.to_ecef_vector()
    path, path2 = GeoPath(A, B), GeoPath(C, D)
    k = len(case['p'][0]['lat'])
    F = FrameE(a=a, f=f, axes=axes, name='factory')
    other = construct(case['other'], 20)
    results = [('to_geo_point', g), ('to_nvector', n), ('to_ecef_vector', e),
               ('geo', n.to_geo_point()), ('geo', e.to_geo_point()), ('nvec', g.to_nvector()),
               ('nvec', e.to_nvector()), ('ecef', g.to_ecef_vector()), ('ecef', n.to_ecef_vector()),
               ('displace', g.displace(case['d'] * a, case['az'])[0]),
               ('displace gc', g.displace(case['d'] * a, case['az'], method='greatcircle')[0]),
               ('intersect', path.intersect(path2)),
               ('closest', path.closest_point_on_great_circle(C)),
               ('interpolate', path.interpolate(case['t'])), ('mean', n.mean()),
               ('negative', -n), ('times', n * 2.0), ('times', 2.0 * n), ('over', n / 2.0),
               ('negative', -e), ('back', e.change_frame(FrameN(B)).to_ecef_vector()),
               ('back', e.change_frame(FrameB(B, 1, 2, 3)).to_nvector()),
               ('back', delta_L(A, B, 0.1).to_ecef_vector()),
               ('local frame', FrameN(A).nvector), ('local frame', FrameL(A, 0.3).nvector),
               ('local frame', FrameB(A, 0.3).nvector),
               ('factory', F.GeoPoint(0.1, 0.2, 0.3, frame=other)),
               ('factory', F.Nvector(n.normal, z=0, frame=other)),
               ('factory', F.ECEFvector(e.pvector, frame=other))]
    if k == 1:
        results.append(('closest on path', path.closest_point_on_path(C)))
    if k > 1:
        results.append(('track', n.interpolate([0.5], np.arange(float(k)))))
    for part in (path.geo_points(), path.nvectors(), path.ecef_vectors()):
        results += [('path', x) for x in part]
    for name, x in results:
        fr = attr(x, 'frame')
        rec.true(name + ' frame', fr == (F if name == 'factory' else A.frame), (fr, A.frame))
        rec.close(name + ' a', fr.a, a, 1e-14 * a)
        rec.close(name + ' f', fr.f, f, 1e-16)
    rec.nontrivial = frame is not None
