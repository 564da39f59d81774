"""C12 interpolation of tracks"""
import numpy as np
import nvector as nv
from nvector import Nvector
from hypothesis import strategies as st
from scipy.interpolate import make_interp_spline

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr, attr
from pbt.nv import mkframe, ellipsoid_of, same_frame, rads

MODES = ['interp', 'mirror', 'constant', 'nearest', 'wrap']
STEP = {'zero': 'previous', 0: 'previous', 'previous': 'previous', 'next': 'next',
        'nearest': 'nearest'}
ORDER = {'linear': 1, 'slinear': 1, 1: 1, 'quadratic': 2, 2: 2, 'cubic': 3, 3: 3, 4: 4, 5: 5}


# ---------------------------------------------------------------- reference
def fit_matrix(m, order):
    """orthonormal polynomial basis on m equidistant places, so that Q Q^T y is the fit"""
    x = np.linspace(LD(-1), LD(1), m)
    Q = []
    for p in range(order + 1):
        v = x ** p
        for _ in range(2):
            for q in Q:
                v = v - q * np.sum(q * v)
        Q.append(v / np.sqrt(np.sum(v * v)))
    return np.stack(Q, axis=1)


def smooth(y, window, order, mode, cval):
    """Savitzky-Golay: value of the polynomial fitted to the window around each sample"""
    if window <= 0:
        return y
    m = window + (window + 1) % 2
    h, n = m // 2, y.shape[1]
    Q = fit_matrix(m, order)
    P = Q @ Q.T
    out = np.empty_like(y)

    def sample(j):
        if 0 <= j < n:
            return y[:, j]
        if mode == 'constant':
            return np.full(y.shape[0], LD(cval))
        if mode == 'nearest':
            return y[:, 0] if j < 0 else y[:, n - 1]
        if mode == 'wrap':
            return y[:, j % n]
        if mode == 'mirror':
            j = abs(j) % (2 * n - 2)
            return y[:, j if j < n else 2 * n - 2 - j]
        raise AssertionError(mode)
    for i in range(n):
        if mode == 'interp' and (i < h or i >= n - h):
            first = 0 if i < h else n - m
            out[:, i] = y[:, first:first + m] @ P[i - first]
        else:
            win = np.stack([sample(j) for j in range(i - h, i + h + 1)], axis=1)
            out[:, i] = win @ P[h]
    return out


def interp(ti, t, y, kind):
    """reference values (long double or double for splines); NaN outside the track"""
    order = np.argsort(t)
    t, y = t[order], y[:, order]
    out = np.full((y.shape[0], ti.size), np.nan, dtype=LD)
    spline = None
    if ORDER.get(kind, 1) > 1:
        spline = make_interp_spline(t, ref.f64(y), k=ORDER[kind], axis=1)
    for k, x in enumerate(ti):
        if not t[0] <= x <= t[-1]:
            continue
        hit = np.nonzero(t == x)[0]
        if hit.size:
            out[:, k] = y[:, hit[0]]
            continue
        j = int(np.searchsorted(t, x))         # t[j-1] < x < t[j]
        if kind in STEP:
            how = STEP[kind]
            if how == 'nearest':
                how = 'previous' if x - t[j - 1] < t[j] - x else 'next'
            out[:, k] = y[:, j - 1] if how == 'previous' else y[:, j]
        elif spline is not None:
            out[:, k] = spline(x)
        else:
            w = (LD(x) - LD(t[j - 1])) / (LD(t[j]) - LD(t[j - 1]))
            out[:, k] = y[:, j - 1] + w * (y[:, j] - y[:, j - 1])
    return out


# ---------------------------------------------------------------- generator
@gen.memo
def _track(n):
    fresh = st.tuples(gen.vec(gen.lat_deg(), n), gen.vec(gen.lon_deg(), n))
    walk = st.tuples(gen.lat_mild(), st.floats(-180, 180), gen.vec(gen.logu(1e-6, 20), n),
                     gen.vec(gen.angle_deg(False), n)).map(_walk)
    minord = st.sampled_from(['linear', 'linear', 'nearest', 'zero', 'slinear', 'previous', 'next',
                              0, 1]
                             + (['quadratic', 2] if n > 2 else []) +
                             (['cubic', 'cubic', 3] if n > 3 else [])
                             + ([4] if n > 4 else []) + ([5] if n > 5 else []))
    windows = [0, 0, 0] + [w for w in range(1, 24) if w + (w + 1) % 2 <= n]
    queries = st.lists(st.tuples(st.integers(-1, n), st.one_of(
        st.floats(0.01, 0.49), st.floats(0.51, 0.99), st.just(0.0))), min_size=1, max_size=8)
    return st.fixed_dictionaries(dict(
        pos=st.one_of(walk, walk, fresh), z=gen.vec(gen.small_depth(), n), zscalar=st.booleans(),
        gaps=gen.vec(st.integers(1, 80), n), rhythm=st.sampled_from(RHYTHM),
        start=st.sampled_from([0, 0, 1000, 1600000000, -77]),
        kind=minord, window=st.sampled_from(windows), order=st.integers(0, 5),
        mode=st.sampled_from(MODES), cval=st.sampled_from([0.0, 0.0, 1.0, -0.5]),
        queries=queries, qscalar=st.booleans(), shift=st.integers(-5000, 5000),
        scale=st.sampled_from([1.0, 2.0, 0.5, 1024.0, 2.0 ** -10, 2.0 ** 40, 2.0 ** -40]),
        perm=st.permutations(range(n)),
        axes=gen.axes()))


def _walk(t):
    lat, lon, steps, az = t
    la, lo = [lat], [lon]
    for s, a in list(zip(steps, az))[1:]:
        nla, nlo = gen.move([la[-1]], [lo[-1]], [a], [s * gen.PI / 180])
        la.append(nla[0])
        lo.append(nlo[0])
    return la, lo


def track_case():
    return st.one_of(st.integers(2, 8), st.integers(2, 25), st.just(40)).flatmap(_track)


RHYTHM = ['free', 'free', 'regular', 'almost', 'bursts']


def moments(case, gaps):
    """sample times: irregular, regular, almost regular, or close together with long pauses"""
    gaps = np.asarray(gaps, dtype=float)
    rhythm, shape = case.get('rhythm', 'free'), gaps % 8
    if rhythm != 'free':
        more = {'regular': 0 * shape, 'almost': 2.0 ** -11 * shape, 'bursts': (shape > 5) * 5e3}
        gaps = gaps[0] + more[rhythm]
    return case['start'] + np.concatenate([[0], np.cumsum(gaps)[:-1]]) / 8.0


def times(case):
    t = moments(case, case['gaps'])
    n = t.size
    ti = []
    for i, frac in case['queries']:
        if i < 0:
            ti.append(t[0] - 0.01 - frac)
        elif i >= n or (i == n - 1 and frac > 0):
            ti.append(t[-1] + 0.01 + frac)
        else:
            ti.append(t[i] + frac * (t[min(i + 1, n - 1)] - t[i]))
    return t, np.array(ti)


def args(case):
    w = case['window']
    m = w + (w + 1) % 2
    kw = dict(kind=case['kind'])
    if w:
        kw.update(window_length=w, polyorder=min(case['order'], m - 1), mode=case['mode'],
                  cval=case['cval'])
    return kw


def conditioning(case):
    base = 1e-13 if ORDER.get(case['kind'], 1) == 1 else 1e-9
    return base if not case['window'] else max(base, 1e-11)


def compare(rec, name, got, want, tol):
    """got: unit vectors; want: not normalised reference"""
    size = ref.norm(want)
    ok = np.isnan(size) | (size > 1e3 * tol)
    nan = np.isnan(size)
    ok_ = np.where(nan, False, ok)
    if got.shape != want.shape:
        rec.fail(name, 'shape %s, expected %s' % (got.shape, want.shape))
    rec.true('NaN outside the track', np.isnan(got[:, nan]), got)
    big = np.maximum(1, np.max(np.abs(np.where(np.isnan(want), 0, want)), initial=1))
    safe = np.where(ok_, size, 1)
    rec.close(name, np.where(ok_, got, 0), np.where(ok_, want / safe, 0) * np.ones(got.shape),
              (tol * big) / safe + 8 * EPS)
    rec.bound('unit', np.where(ok_, ref.norm(got.astype(LD)), 1) - 1, 4 * EPS)


def labels(case, rec, ti, t):
    rec.label('kind_%s' % case['kind'], 'smoothed' if case['window'] else 'not_smoothed')
    if case['window']:
        rec.label('mode_' + case['mode'])
        if case['window'] % 2 == 0:
            rec.label('even_window')
    if np.any((ti < t.min()) | (ti > t.max())):
        rec.label('outside')
    if np.any(np.isin(ti, t)):
        rec.label('at_a_sample')
    inside = (ti > t.min()) & (ti < t.max()) & ~np.isin(ti, t)
    rec.nontrivial = bool(np.any(inside)) and len(set(case['pos'][0])) > 1


@facet('C12', 'interp_nvectors', track_case(), 2500,
       rule='interp_nvectors of 2 to 40 samples at irregular, regular or almost regular times or in bursts (walks and arbitrary points), '
            'all kinds, smoothing windows odd/even, orders, edge modes, cval; queries at '
            'samples, between and outside; oracle: own Savitzky-Golay and piecewise reference, '
            'scipy B-splines of the documented order; sample times, time shift and scaling, '
            'reordering; non-trivial: distinct samples and a query strictly between samples')
def func(case, rec):
    n = ref.f64(ref.C[case['axes']] @ ref.nvec(rads(case['pos'][0]), rads(case['pos'][1])))
    t, ti = times(case)
    kw = args(case)
    tol = conditioning(case)
    nl = smooth(n.astype(LD), case['window'], kw.get('polyorder', 0), case['mode'], case['cval'])
    want = interp(ti, t, nl, case['kind'])
    call = ti
    if case['qscalar'] and ti.size == 1:
        call = float(ti[0])
        rec.label('scalar_query')
    got = arr(nv.interp_nvectors(call, t, n, **kw))
    compare(rec, 'interpolated', got, want, tol)
    at = arr(nv.interp_nvectors(t, t, n, **kw))
    compare(rec, 'samples', at, nl, tol)
    # time shift and scale (exact in floating point for the samples)
    s, c = case['scale'], case['shift']
    sel = ~np.isnan(want[0])
    if np.any(sel):
        got2 = arr(nv.interp_nvectors((ti[sel] + c) * s, (t + c) * s, n, **kw))
        want2 = interp((ti[sel] + c) * s, (t + c) * s, nl, case['kind'])
        compare(rec, 'time shifted and scaled', got2, want2, tol)
    ticks = t * 2.0 ** 14                     # whole numbers
    if np.all(np.mod(ticks, 1) == 0) and np.any(sel):
        whole = ticks.astype(np.int64)
        compare(rec, 'integer sample times', arr(nv.interp_nvectors(
            (ti[sel] * 2.0 ** 14), list(map(int, whole)) if case['qscalar'] else whole, n, **kw)),
            interp(ti[sel] * 2.0 ** 14, ticks, nl, case['kind']), tol)
    if not case['window']:
        p = np.array(case['perm'])
        compare(rec, 'reordered samples', arr(nv.interp_nvectors(ti, t[p], n[:, p], **kw)), want, tol)
    labels(case, rec, ti, t)


def obj_case():
    return st.tuples(track_case(), gen.frame()).map(lambda t: dict(t[0], frame=t[1]))


@facet('C12', 'Nvector.interpolate', obj_case(), 2500,
       rule='Nvector.interpolate with scalar or per-sample depth in all frames: same oracle for '
            'the direction and for the depth, which is smoothed and interpolated likewise; '
            'frame kept; non-trivial as above')
def obj(case, rec):
    a, f, axes = ellipsoid_of(case['frame'])
    frame = mkframe(case['frame'])
    n = ref.f64(ref.C[axes] @ ref.nvec(rads(case['pos'][0]), rads(case['pos'][1])))
    z = np.array(case['z'])
    t, ti = times(case)
    kw = args(case)
    tol = conditioning(case)
    if case['zscalar']:
        z = np.full(t.size, z[0])
    y = np.vstack([n.astype(LD), z.astype(LD)])
    yl = smooth(y, case['window'], kw.get('polyorder', 0), case['mode'], case['cval'])
    want = interp(ti, t, yl, case['kind'])
    point = Nvector(n, float(z[0]) if case['zscalar'] else z, frame)
    got = point.interpolate(ti, t, **kw)
    same_frame(rec, 'frame', got, frame)
    rec.true('type', isinstance(got, Nvector), type(got))
    compare(rec, 'interpolated', arr(attr(got, 'normal')), want[:3], tol)
    ticks = t * 2.0 ** 14
    sel = ~np.isnan(want[0])
    if case['qscalar'] and np.all(np.mod(ticks, 1) == 0) and np.any(sel):
        got2 = point.interpolate(ti[sel] * 2.0 ** 14, ticks.astype(np.int64), **kw)
        want2 = interp(ti[sel] * 2.0 ** 14, ticks, yl, case['kind'])
        compare(rec, 'integer sample times', arr(attr(got2, 'normal')), want2[:3], tol)
    zscale = 1 + np.max(np.abs(np.where(np.isnan(want[3]), 0, want[3])), initial=0) + np.max(np.abs(z))
    rec.close('depth', attr(got, 'z'), want[3], tol * zscale)
    labels(case, rec, ti, t)
    if case['zscalar']:
        rec.label('scalar_depth')


def long_case():
    return st.fixed_dictionaries(dict(
        n=st.one_of(st.sampled_from([64, 100, 128, 256, 1000, 1024]), st.integers(41, 1500)),
        m=st.one_of(st.sampled_from([9, 50, 100, 1000, 2000]), st.integers(1, 300)),
        seed=st.integers(0, 2 ** 31 - 1), lat=gen.lat_deg(), lon=gen.lon_deg(),
        speed=st.sampled_from([1e-7, 1e-4, 0.01]), kind=st.sampled_from(
            ['linear', 'linear', 'nearest', 'zero', 'cubic', 'quadratic', 'slinear']),
        window=st.sampled_from([0, 0, 3, 5, 8, 11, 31, 40]), order=st.integers(0, 3),
        mode=st.sampled_from(MODES), cval=st.sampled_from([0.0, 1.0]),
        rhythm=st.sampled_from(RHYTHM), sorted=st.booleans(),
        start=st.sampled_from([0, 0, 1000, 1600000000, -77]), z=gen.small_depth(),
        jump=st.booleans(), frame=gen.frame()))


@facet('C12', 'long tracks', long_case(), 120,
       rule='tracks of 41 to 1500 samples (random walks anywhere, optionally with one jump), up to '
            '2000 queries in any order, all kinds and smoothing; same oracle for interp_nvectors '
            'and Nvector.interpolate; non-trivial: all')
def long(case, rec):
    a, f, axes = ellipsoid_of(case['frame'])
    r = np.random.RandomState(case['seed'])
    k = case['n']
    g = ref.nvec(rads([case['lat']]), rads([case['lon']])).astype(float)
    n = g + np.cumsum(r.randn(3, k), axis=1) * case['speed']
    if case['jump']:
        n[:, k // 2:] += np.array([[0.3], [-0.2], [0.1]])
    n = n / np.sqrt(np.sum(n * n, axis=0))
    n = ref.f64(ref.C[axes] @ n.astype(LD))
    t = moments(case, r.randint(1, 80, k))
    j = r.randint(0, k - 1, case['m'])
    frac = np.where(r.rand(case['m']) < 0.1, 0.0, 0.01 + 0.48 * r.rand(case['m']))
    frac = np.where((frac > 0) & (r.rand(case['m']) < 0.5), frac + 0.5, frac)
    ti = t[j] + frac * (t[j + 1] - t[j])
    if r.rand() < 0.3:
        ti[0], ti[-1] = t[0] - 0.7, t[-1] + 1.3
    if case['sorted']:
        ti = np.sort(ti)
    kw = args(case)
    tol = conditioning(case)
    z = case['z'] + np.cumsum(r.randn(k))
    y = np.vstack([n.astype(LD), z.astype(LD)])
    yl = smooth(y, case['window'], kw.get('polyorder', 0), case['mode'], case['cval'])
    want = interp(ti, t, yl, case['kind'])
    compare(rec, 'interpolated', arr(nv.interp_nvectors(ti, t, n, **kw)), want[:3], tol)
    got = Nvector(n, z, mkframe(case['frame'])).interpolate(ti, t, **kw)
    compare(rec, 'object interpolated', arr(attr(got, 'normal')), want[:3], tol)
    zscale = 1 + np.max(np.abs(np.where(np.isnan(want[3]), 0, want[3]))) + np.max(np.abs(z))
    rec.close('depth', attr(got, 'z'), want[3], tol * zscale)
    rec.label('kind_%s' % case['kind'], 'smoothed' if case['window'] else 'not_smoothed')
    rec.nontrivial = True
