"""C11 interpolation along a path"""
import numpy as np
import nvector as nv
from nvector import GeoPath
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, attr
from pbt.nv import mkframe, mkpoint, ellipsoid_of, canon, normal, same_frame, flat


@gen.memo
def fraction():
    return st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5, 0.25, 0.1, -1.0, 2.0]),
                     st.floats(-2, 3), gen.logu(1e-12, 1e-2), gen.logu(1e-12, 1e-2).map(lambda x: 1 - x),
                     gen.dictionary(-2, 3), st.tuples(gen.logu(3, 1e12), st.sampled_from([1, -1])).map(
                         lambda t: t[0] * t[1]))


def judge(rec, n, A, B, t, tolscale=1.0, given=0.0):
    """n: result for fraction(s) t, A, B canonical long double n-vectors the library was given
    (given: up to so many eps)"""
    t = ref.ld(t)
    v = A + t * (B - A)
    size = ref.norm(v)
    err = tolscale * EPS * (4 + np.abs(t) * (6 * ref.norm(B - A) + given))
    n = np.asarray(n)
    clear = size > 64 * err
    good = np.broadcast_to(clear, n.shape[1:])
    want = v / np.where(clear, size, 1)
    rec.close('A + t(B - A)', np.where(good, n, 0), np.where(good, want, 0) * np.ones(n.shape),
              8 * EPS + 2 * err / np.where(clear, size, 1))
    rec.bound('unit', np.where(good, ref.norm(n.astype(LD)), 1) - 1, 4 * EPS)


def func_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            pair=gen.pair_n(n, False, z=st.just(0.0), kinds=('nvec',)), t=fraction(),
            ts=gen.vec(fraction(), n), tvec=st.booleans(), axes=gen.axes(),
            exact_antipode=st.sampled_from([False, False, False, True])))
    return gen.shaped(build)


@facet('C11', 'interpolate', func_case(), 6000,
       rule='interpolate((A, B), t) for pairs at all separations, t at 0, 1, inside and outside, '
            'scalar or one per path; oracle: long double A + t(B - A); NaN where the direction '
            'is exactly zero; non-trivial: distinct positions and t not 0 or 1')
def func(case, rec):
    pa, pb = case['pair']
    C = ref.C[case['axes']]
    A, B = ref.f64(C @ canon(pa)), ref.f64(C @ canon(pb))
    if case['exact_antipode']:
        B = -A
    k = A.shape[1]
    t = np.array(case['ts']) if case['tvec'] else case['t']
    got = nv.interpolate((A, B), t)
    n = np.asarray(got, dtype=float).reshape(3, k)
    Al, Bl = A.astype(LD), B.astype(LD)
    judge(rec, n, Al, Bl, t)
    tt = t * np.ones(k)
    for i in range(k):
        if tt[i] == 0:
            rec.close('A at t=0', n[:, i], A[:, i], 4 * EPS)
        if tt[i] == 1:
            rec.close('B at t=1', n[:, i], B[:, i], 8 * EPS)
        if np.all(B[:, i] == -A[:, i]) and tt[i] == 0.5:
            rec.label('direction_vanishes')
            rec.true('NaN where the direction vanishes', np.isnan(n[:, i]), n[:, i])
    theta = ref.angle(Al, Bl)
    inside = (tt > 1e-6) & (tt < 1 - 1e-6) & (theta > 1e-6) & (theta < np.pi - 1e-3)
    if np.any(inside):
        rec.label('strictly_inside')
        dA = ref.angle(n.astype(LD), Al)
        dB = ref.angle(n.astype(LD), Bl)
        rec.true('strictly between A and B', np.where(inside, (dA < theta) & (dB < theta), True),
                 (dA, dB, theta))
        rec.bound('on the great circle between', np.where(inside, dA + dB - theta, 0), 1e-12)
    if np.any((tt < 0) | (tt > 1)):
        rec.label('extrapolated')
    if k > 1:
        rec.label('vector_of_paths')
    rec.nontrivial = bool(np.any((theta > 0) & (tt != 0) & (tt != 1)))


def path_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            pair=gen.pair_n(n, scalar), frame=gen.frame(), kindb=st.sampled_from(gen.KINDS),
            t=fraction(), ts=st.lists(fraction(), min_size=1, max_size=6),
            form=st.sampled_from(['scalar', 'scalar', 'times', 'each']),
            one=st.sampled_from(['no', 'no', 'no', 'a', 'b'])))
    return gen.shaped(build, maxn=8)


@facet('C11', 'GeoPath.interpolate', path_case(), 6000,
       rule='GeoPath.interpolate for all position types, frames, depths, scalar paths with a '
            'vector of fractions, vector paths with one or n fractions, one-to-many paths; '
            'n-vector as above, depth z_A + t (z_B - z_A), frame kept; non-trivial: distinct '
            'positions at different depths, t not 0 or 1')
def path_interpolate(case, rec):
    (pa, pb), spec = case['pair'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    clip = lambda p: dict(p, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in p['z']])
    pa, pb = clip(pa), dict(clip(pb), kind=case['kindb'])
    first = lambda p: dict(p, lat=p['lat'][:1], lon=p['lon'][:1], z=p['z'][:1], scalar=True)
    if case['one'] == 'a':
        pa = first(pa)
    elif case['one'] == 'b':
        pb = first(pb)
    k = max(len(pa['lat']), len(pb['lat']))
    frame = mkframe(spec)
    A, B = mkpoint(pa, frame, spec), mkpoint(pb, frame, spec)
    if case['form'] == 'scalar':
        t = case['t']
    elif case['form'] == 'times' and k == 1:
        t = np.array(case['ts'])
        k = t.size
        rec.label('vector_of_times')
    else:
        t = np.resize(case['ts'], k)
    got = GeoPath(A, B).interpolate(t)
    same_frame(rec, 'frame', got, frame)
    n = normal(got, axes)
    rec.true('number of points', n.shape[1] == k, n.shape)
    gA, gB = canon(pa), canon(pb)
    far = 1.0
    for p in (pa, pb):
        if p['kind'] == 'ecef':
            far += 8 * (1 + max(abs(z) for z in p['z']) / a)
    judge(rec, n, gA, gB, t, 2 + far, 1.0)
    zA, zB = ref.ld(pa['z']), ref.ld(pb['z'])
    want = zA + t * (zB - zA) * np.ones(k)
    scale = far * (a * far + np.max(np.abs(zA)) + np.max(np.abs(zB))) \
        if 'ecef' in (pa['kind'], pb['kind']) else np.abs(zA) + np.abs(zB)
    z = flat(attr(got, 'z'))
    if z.size == 1 and k > 1:
        z = z * np.ones(k)       # equal depths
    rec.close('depth', z, want, 64 * EPS * scale * (1 + np.abs(t)) + 1e-300)
    if np.ndim(t) == 0 and pa['scalar'] and pb['scalar']:
        rec.true('scalar', attr(got, 'scalar') == True, 'not scalar')  # noqa: E712
    rec.label('kinds_%s_%s' % (pa['kind'], pb['kind']))
    tt = np.ravel(t)
    rec.nontrivial = bool(np.any((tt != 0) & (tt != 1)) and np.any(ref.angle(gA, gB) > 0)
                          and np.any(zA != zB))
