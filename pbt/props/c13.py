"""C13 path intersection"""
import warnings

import numpy as np
import nvector as nv
from nvector import GeoPath, Nvector
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr, attr
from pbt.nv import mkframe, mkpoint, ellipsoid_of, canon, normal, same_frame, flat


def reference(A1, A2, B1, B2, name_tol=1.0):
    """(C, tolerance): the intersection nearest to A1 and how exactly doubles determine it"""
    na, nb = ref.cross(A1, A2), ref.cross(B1, B2)
    sa, sb = ref.norm(na), ref.norm(nb)
    with np.errstate(all='ignore'):
        na, nb = na / sa, nb / sb
        c = ref.cross(na, nb)
        sc = ref.norm(c)
        c = c / sc
        tol = name_tol * 8 * EPS * (1 / sa + 1 / sb + 1) / sc
    side = ref.dot(c, A1)
    return np.where(side < 0, -c, c), tol, side


def judge(rec, name, got, want, tol, side):
    """want and its antipode are equally near when side is within tol of 0"""
    ok = np.isfinite(tol) & (tol < 1e-2)
    tie = np.abs(side) <= 4 * np.where(ok, tol, 1)
    w = np.where(ok, want, 0)
    g = np.where(ok, got, 0)
    flip = np.where(tie & (ref.dot(g, w) < 0), -1, 1)
    g = g * flip
    rec.close(name, g, w, np.where(ok, 2 * tol, 1) + 4 * EPS)
    rec.bound('unit', np.where(ok, ref.norm(got.astype(LD)), 1) - 1, 4 * EPS)
    return ok


def func_case():
    def build(n, scalar):
        nvec = dict(z=st.just(0.0), kinds=('nvec',))
        return st.fixed_dictionaries(dict(
            a=gen.pair_n(n, False, **nvec), b=gen.pair_n(n, False, **nvec),
            axes=gen.axes(), one=st.sampled_from(['no', 'no', 'no', 'a', 'b']),
            same=st.sampled_from(['no'] * 6 + ['same', 'swap', 'shared', 'degenerate', 'antipodal']),
            at=st.integers(0, 16), ints=st.booleans(), stretch=st.floats(0.1, 0.9)))
    return gen.shaped(build)


def nearby_case():
    """paths that start close to each other or cross near the start of the first"""
    def build(n, scalar):
        nvec = dict(z=st.just(0.0), kinds=('nvec',))
        def mk(t):
            pa, az, d, az2, d2 = t
            b1 = gen.near(pa[0], az, d, pa[0]['z'], 'nvec')
            b2 = gen.near(b1, az2, d2, pa[0]['z'], 'nvec')
            return dict(a=pa, b=(b1, b2))
        ang = gen.vec(gen.angle_deg(False), n)
        return st.tuples(
            st.tuples(gen.pair_n(n, False, sep=gen.moderate_separation(), free=False, **nvec), ang,
                      gen.vec(gen.moderate_separation(), n), ang,
                      gen.vec(gen.moderate_separation(), n)).map(mk),
            st.fixed_dictionaries(dict(
                axes=gen.axes(), one=st.sampled_from(['no', 'no', 'no', 'a', 'b']),
                same=st.just('no'), at=st.just(0), ints=st.booleans(),
                stretch=st.floats(0.1, 0.9)))).map(lambda t: dict(t[0], **t[1]))
    return gen.shaped(build)


@facet('C13', 'intersect', st.one_of(func_case(), nearby_case()), 8000,
       rule='intersect of pairs of paths at all lengths and crossing angles, n x n and '
            'one-to-many, either axes, equal/swapped/degenerate/antipodal paths among them (NaN '
            'and warning); oracle: long double cross products, side nearest to A1; reversed second '
            'path, defining points moved along the circle; non-trivial: the intersection is '
            'determined to 1e-2 rad')
def func(case, rec):
    C = ref.C[case['axes']]
    (a1, a2), (b1, b2) = case['a'], case['b']
    A1, A2, B1, B2 = [ref.f64(C @ canon(p)) for p in (a1, a2, b1, b2)]
    n = A1.shape[1]
    at = case['at'] % n
    undefined = np.zeros(n, dtype=bool)
    same = case['same']
    if same == 'same':
        B1[:, at], B2[:, at] = A1[:, at], A2[:, at]
    elif same == 'swap':
        B1[:, at], B2[:, at] = A2[:, at], A1[:, at]
    elif same == 'degenerate':
        B2[:, at] = B1[:, at]
    elif same == 'antipodal':
        A2[:, at] = -A1[:, at]
    elif same == 'shared':
        B1[:, at] = A1[:, at]
    if same in ('same', 'swap', 'degenerate', 'antipodal'):
        undefined[at] = True
    if case['one'] == 'a':
        A1, A2 = A1[:, :1], A2[:, :1]
    elif case['one'] == 'b':
        B1, B2 = B1[:, :1], B2[:, :1]
    if case['one'] != 'no' and undefined.any():
        keep = at == 0
        undefined[:] = False
        if keep:
            undefined[:] = same in ('degenerate',) and case['one'] == 'b'
            undefined |= same == 'antipodal' and case['one'] == 'a'
            undefined[0] = True
        else:
            undefined[at] = (same == 'degenerate' and case['one'] == 'a') or \
                (same == 'antipodal' and case['one'] == 'b')
    k = max(A1.shape[1], B1.shape[1])
    undefined = undefined[:k] if undefined.size >= k else np.resize(undefined, k)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        got = arr(nv.intersect((A1, A2), (B1, B2)))
    rec.true('shape', got.shape == (3, k), got.shape)
    L = [x.astype(LD) for x in (A1, A2, B1, B2)]
    want, tol, side = reference(*L)
    want = want * np.ones((3, k))
    tol, side = tol * np.ones(k), side * np.ones(k)
    rec.true('NaN where undefined', np.isnan(got[:, undefined]), got)
    if np.any(undefined):
        rec.label('undefined_' + same)
        rec.true('warning where undefined', len(caught) > 0, 'no warning')
    tol = np.where(undefined, np.inf, tol)
    ok = judge(rec, 'intersection', got, want, tol, side)
    if np.all(ok):
        rec.true('no warning where defined', len(caught) == 0, [str(w.message) for w in caught])
    rec.bound('on the first circle', np.where(
        ok, ref.dot(got.astype(LD), ref.cross(L[0], L[1])), 0), 8 * EPS + 2 * np.where(ok, tol, 1))
    rec.bound('on the second circle', np.where(
        ok, ref.dot(got.astype(LD), ref.cross(L[2], L[3])), 0), 8 * EPS + 2 * np.where(ok, tol, 1))
    if np.any(ok):
        # direction of the second path, position of its points on the circle
        rev = arr(nv.intersect((A1, A2), (B2, B1)))
        judge(rec, 'reversed second path', rev, want, tol, side)
        s = case['stretch']
        D = ref.unit(L[2] + LD(s) * (L[3] - L[2]))
        _c, tol2, _s = reference(L[0], L[1], D, L[3])
        tol2 = np.where(np.isfinite(tol), 4 * tol2, np.inf) * np.ones(k) + 4 * tol
        moved = arr(nv.intersect((A1, A2), (ref.f64(D), B2)))
        judge(rec, 'second path shortened', moved, want, tol2, side)
        rec.label('defined')
        if case['one'] != 'no' and k > 1:
            rec.label('one_to_many')
    rec.nontrivial = bool(np.any(ok))


def path_case():
    def build(n, scalar):
        pt = gen.pair_n(n, scalar, sep=gen.moderate_separation())
        return st.fixed_dictionaries(dict(
            a=pt, b=pt, frame=gen.frame(), kinds=st.tuples(*[st.sampled_from(gen.KINDS)] * 4),
            one=st.sampled_from(['no', 'no', 'no', 'a', 'b']), dep=st.booleans(),
            equal=st.booleans()))
    return gen.shaped(build, maxn=8)


@facet('C13', 'GeoPath.intersect', path_case(), 5000,
       rule='GeoPath.intersect/intersection for all mixtures of position types, depths, frames, '
            'scalar/vector/one-to-many: same oracle, mean depth of the four points, frame of the '
            'first path; non-trivial: the intersection is determined to 1e-2 rad and depths differ')
def paths(case, rec):
    spec = case['frame']
    a, f, axes = ellipsoid_of(spec)
    pts = []
    for (p, kind) in zip(list(case['a']) + list(case['b']), case['kinds']):
        pts.append(dict(p, kind=kind, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in p['z']]))
    first = lambda p: dict(p, lat=p['lat'][:1], lon=p['lon'][:1], z=p['z'][:1], scalar=True)
    if case['one'] == 'a':
        pts[:2] = [first(p) for p in pts[:2]]
    elif case['one'] == 'b':
        pts[2:] = [first(p) for p in pts[2:]]
    frame = mkframe(spec)
    other = mkframe(spec) if case.get('equal') else frame  # as good a frame, but another one
    obj = [mkpoint(p, frame, spec) for p in pts[:2]] + [mkpoint(p, other, spec) for p in pts[2:]]
    pa, pb = GeoPath(obj[0], obj[1]), GeoPath(obj[2], obj[3])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = pa.intersection(pb) if case['dep'] else pa.intersect(pb)
    same_frame(rec, 'frame', got, frame)
    rec.true('frame of the first path', attr(got, 'frame') is frame, 'another frame object')
    rec.true('type', isinstance(got, Nvector), type(got))
    far = 1.0 + 8 * sum(1 + max(abs(z) for z in p['z']) / a for p in pts if p['kind'] == 'ecef')
    L = [canon(p) for p in pts]
    want, tol, side = reference(*L, name_tol=2 * far)
    k = max(len(p['z']) for p in pts)
    n = normal(got, axes)
    rec.true('number of points', n.shape == (3, k), n.shape)
    ok = judge(rec, 'intersection', n, want * np.ones((3, k)), tol * np.ones(k), side * np.ones(k))
    zs = [ref.ld(p['z']) for p in pts]
    zm = (zs[0] + zs[1] + zs[2] + zs[3]) / 4 * np.ones(k)
    zscale = sum(np.max(np.abs(z)) + (8 * far * a if p['kind'] == 'ecef' else 0)
                 for z, p in zip(zs, pts))
    z = flat(attr(got, 'z'))
    if z.size == 1 and k > 1:
        z = z * np.ones(k)
    rec.close('depth', z, zm, 16 * EPS * zscale)
    rec.label(*['kind_' + x for x in case['kinds']])
    if case['one'] != 'no' and k > 1:
        rec.label('one_to_many')
    rec.nontrivial = bool(np.any(ok)) and len({z for p in pts for z in p['z']}) > 1
