"""C35 missing positions stay missing and touch no other"""
import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import gen, ops, ref
from pbt.core import LD, Violation, arr, facet
from pbt.nv import mkframe, mkpoint, rads
from pbt.props import c12

NAN = float('nan')
# columns that belong together, and a method for single positions
OBJ = sorted(set(ops.OBJ) - {'mean', 'track', 'closest_on_path'})
ELLIPSOID = ('displace_ellipsoid', 'distance_ellipsoid', 'frame_direct', 'frame_inverse',
             'track_distance')
FUN = sorted(set(ops.FUN) - set(ops.FUN_JOINT))
ARGS = ('nA', 'nB', 'nC', 'nD', 'lat', 'lon', 'az', 'd', 'ti', 'x', 'y', 'zz', 'p', 'zA', 'zB')


def judge(rec, name, got, base, vary, cols, must=False):
    """others as without the missing one, the missing one NaN, False or not involved"""
    rec.true(name + ' structure', [g.label for g in got] == [b.label for b in base],
             ([g.label for g in got], [b.label for b in base]))
    hit = False
    for g, b, v in zip(got, base, vary):
        label = '%s: %s' % (name, b.label)
        if g.val.shape != b.val.shape:
            rec.fail(label, 'shape %s, expected %s' % (g.val.shape, b.val.shape))
        miss = np.zeros(b.val.shape, dtype=bool)
        miss[..., cols] = True
        if b.kind == 'bool':
            ok = np.broadcast_to(b.ok, b.val.shape)
            rec.true(label, (g.val == b.val) | miss | ~ok, (g.val, b.val))
            if must:
                rec.true(label + ' of a missing position', ~(g.val & miss), (g.val, b.val))
            hit = True
            continue
        gone = miss & np.isnan(g.val)
        hit = hit or bool(np.any(gone))
        ok = np.broadcast_to(b.ok, b.val.shape) & np.isfinite(v) & ~gone
        tol = 8 * v + np.broadcast_to(b.floor, b.val.shape)
        want, have = np.where(ok, b.val, 0), np.where(ok, g.val, 0)
        if b.kind == 'londeg':
            rec.close(label, np.deg2rad(have), np.deg2rad(want), np.where(ok, tol, 1), angle=True)
        else:
            rec.close(label, have, want, np.where(ok, tol, 1), angle=b.kind in ops.ANGLES)
    return hit


def poison(P, name, cols, keys=('lat', 'lon')):
    p = dict(P.pts[name])
    for k in keys:
        p[k] = [NAN if j in cols else x for j, x in enumerate(p[k])]
    kind = P.case['kinds']['ABCD'.index(name)]
    if P.case['op'] in ELLIPSOID and kind == 'ecef':
        kind = 'nvec'                  # a missing ECEF vector has no depth: refused by Geodesic
    setattr(P, {'C': 'Cc'}.get(name, name), mkpoint(p, P.frame, P.spec, kind))
    return P


def masks():
    return st.lists(st.integers(0, 5), min_size=1, max_size=3)


@facet('C35', 'methods', st.tuples(ops.obj_case(names=OBJ, maxn=6), masks(), st.sampled_from('AABBCD'),
                                     st.integers(0, 3)).map(
    lambda t: dict(t[0], miss=t[1], who=t[2], depth=t[3] == 0)), 4200,
       rule='24 groups of methods with vectors of positions, some of which have NaN as latitude and '
            'longitude, or only as depth (or the n-vector, ECEF vector of such): no exception; results of the other '
            'positions as without the missing ones; results of missing ones NaN (False for yes/no) or, '
            'where the position does not enter, unchanged; non-trivial: something became NaN')
def methods(case, rec):
    f = ops.OBJ[case['op']]
    who = case['who']
    n = max(len(case[k]['lat']) for k in 'ABCD')
    P = ops.ObjProblem(case)
    k = len(P.pts[who]['lat'])
    cols = sorted({j % k for j in case['miss']})
    base = f(P)
    vary = ops.variation(base, [f(ops.ObjProblem(case, np.random.RandomState(j + case['extra'])))
                                for j in range(3)])
    depth = case.get('depth') and case['op'] not in ELLIPSOID   # Geodesic refuses missing depths
    got = f(poison(ops.ObjProblem(case), who, cols, ('z',) if depth else ('lat', 'lon')))
    hit = judge(rec, '%s without %s%s' % (case['op'], 'the depth of ' if depth else '', who), got,
                base, vary, cols if k == n else slice(None), must=who in 'ABC' and not depth)
    rec.label(case['op'])
    rec.nontrivial = hit


@facet('C35', 'functions', st.tuples(ops.fun_case(names=FUN, maxn=6), masks(), st.sampled_from(ARGS)).map(
    lambda t: dict(t[0], miss=t[1], who=t[2])), 3600,
       rule='21 functions with NaN in some columns of an argument (n-vectors, vectors, depths, '
            'angles, distances, times): no exception, other columns as without, these NaN or False; '
            'non-trivial: something became NaN')
def functions(case, rec):
    f = ops.FUN[case['op']]
    who = case['who']
    base = f(ops.FunProblem(case))
    vary = ops.variation(base, [f(ops.FunProblem(case, np.random.RandomState(j + case['extra'])))
                                for j in range(3)])
    P = ops.FunProblem(case)
    k = P.nA.shape[1]
    cols = sorted({j % k for j in case['miss']})
    if who in ('zA', 'zB'):
        P.z[who[1]][cols] = NAN
    elif who == 'p':
        P.p[cols, :] = NAN
    else:
        getattr(P, who)[..., cols] = NAN
    hit = judge(rec, '%s without %s' % (case['op'], who), f(P), base, vary, cols,
                must=who in ('nA', 'nB', 'nC'))
    rec.label(case['op'])
    rec.nontrivial = hit


def joint_case():
    names = ('mean', 'closest_on_path')
    return st.tuples(ops.obj_case(names=names, maxn=5), masks(), st.sampled_from('ABC')).map(
        lambda t: dict(t[0], miss=t[1], who=t[2]))


@facet('C35', 'joint', joint_case(), 800,
       rule='mean of positions and closest point on a path with a missing position among them: all '
            'missing, not the mean of the others or an end point; non-trivial: something became NaN')
def joint(case, rec):
    one = case['op'] != 'mean'
    who = case['who'] if one else 'A'
    if one:
        case = dict(case, **{k: {m: x[:1] for m, x in case[k].items()} for k in 'ABCD'})
    P = ops.ObjProblem(case)
    k = len(P.pts[who]['lat'])
    P = poison(P, who, {j % k for j in case['miss']})
    if one:
        g = nv.GeoPath(P.A, P.B).closest_point_on_path(P.Cc)
        rec.true('closest point on path', np.isnan(arr(g.latitude)) & np.isnan(arr(g.longitude)), g)
    else:
        if case['extra'] % 2:
            z = np.array(np.broadcast_to(arr(P.A.to_nvector().z), (k,)), dtype=float)
            z[[j % k for j in case['miss']]] = NAN
            m = nv.Nvector(P.A.to_nvector().normal, z, P.A.frame).mean()
            rec.true('mean depth', np.all(np.isnan(arr(m.z))), m.z)
        rec.true('mean', np.all(np.isnan(P.A.to_nvector().mean().normal)), P.A)
        rec.true('mean_horizontal_position',
                 np.all(np.isnan(nv.mean_horizontal_position(P.A.to_nvector().normal))), P.A)
    rec.label(case['op'])
    rec.nontrivial = True


# ---------------------------------------------------------------- tracks
def track_case():
    return st.tuples(c12.track_case(), st.lists(st.integers(0, 60), min_size=1, max_size=3),
                     st.sampled_from(['time', 'sample', 'depth']), st.booleans(), gen.frame(),
                     gen.unit_vec(1)).map(
        lambda t: dict(t[0], miss=t[1], what=t[2], object=t[3], frame=t[4], other=t[5][0]))


def run_track(case, frame, ti, t, n, z, kw):
    """rows of n-vector (and depth)"""
    if not case['object']:
        return arr(nv.interp_nvectors(ti, t, n, **kw))
    p = nv.Nvector(n, z, frame).interpolate(ti, t, **kw)
    return np.vstack([arr(p.normal), arr(p.z).reshape(1, -1)])


def near(case, t, ti, cols):
    """queries at which a missing sample may count, if only with weight zero"""
    w, n = case['window'], t.size
    if isinstance(case['kind'], int) or case['kind'] in ('slinear', 'quadratic', 'cubic', 'zero'):
        return np.ones(ti.size, dtype=bool)          # splines are solved for all samples at once
    reach = 1 + (w // 2 + 1 if w else 0)
    out = np.zeros(ti.size, dtype=bool)
    for k, x in enumerate(ti):
        lo, hi = np.searchsorted(t, x, 'left') - 1, np.searchsorted(t, x, 'right')
        edge = w and (lo < w + 1 or hi > n - w - 2)
        out[k] = edge or any(lo - reach < j < hi + reach for j in cols)
    return out


@facet('C35', 'tracks', track_case(), 2500,
       rule='tracks (all kinds, smoothing) asked at some missing times, or with missing samples or '
            'depths of samples, by interp_nvectors and Nvector.interpolate: no exception; a result '
            'that depends on the missing value (it changes with the value put there) is NaN, the '
            'others are as without, or NaN next to it (anywhere for splines); non-trivial: '
            'something became NaN and something did not')
def tracks(case, rec):
    frame = mkframe(case['frame'])
    n = ref.f64(ref.C[case['axes']] @ ref.nvec(rads(case['pos'][0]), rads(case['pos'][1])))
    t, ti = c12.times(case)
    z, kw = np.array(case['z'], dtype=float), c12.args(case)
    args = [frame, ti, t, n, z, kw]
    base = run_track(case, *args)
    what = case['what']
    if what == 'time':
        cols = sorted({j % ti.size for j in case['miss']})
        args[1] = ti.copy()
        args[1][cols] = NAN
        if case['qscalar'] and ti.size == 1:
            args[1] = NAN
        got = run_track(case, *args)
        may = must = np.zeros(base.shape, dtype=bool)
        must[:, cols] = True
        floor = 64 * np.finfo(float).eps
    else:
        cols = sorted({j % t.size for j in case['miss']})
        if what == 'depth' and not case['object']:
            case = dict(case, object=True)
            base = run_track(case, *args)
        at = 3 if what == 'sample' else 4

        def put(normal, depth):
            new = [x.copy() for x in (n, z)]
            if what == 'sample':
                new[0][:, cols] = normal
            else:
                new[1][cols] = depth
            return run_track(case, frame, ti, t, new[0], new[1], kw)
        other = put(np.array(case['other'])[:, None], 1234.5)
        try:
            got = put(NAN, NAN)
        except ValueError:
            if not case['window']:      # the fit at the ends refuses missing samples
                raise
            rec.label('refused')
            return
        scale = np.ones((base.shape[0], 1))
        scale[3:] = 1e3 + np.max(np.abs(z))
        with np.errstate(invalid='ignore'):
            must = np.abs(other - base) > 1e-9 * scale
        may = np.broadcast_to(near(case, t, ti, cols), base.shape)
        
        floor = c12.conditioning(case)
    gone = np.isnan(got)
    name = '%s missing %s' % (case['kind'], what)
    rec.true('%s: shape' % name, got.shape == base.shape, (got.shape, base.shape))
    rec.true('%s: missing' % name, gone | ~must, (got, base))
    rec.true('%s: not missing' % name, ~gone | must | may | np.isnan(base), (got, base))
    ok = ~gone & ~np.isnan(base)
    size = np.maximum(1, np.max(np.abs(z))) if base.shape[0] > 3 else 1
    rec.close('%s: others' % name, np.where(ok, got, 0), np.where(ok, base, 0),
              np.where(np.arange(base.shape[0])[:, None] < 3, floor, floor * size) * np.ones(base.shape))
    rec.label(what, 'smoothed' if case['window'] else 'not smoothed')
    rec.nontrivial = bool(np.any(gone & ~np.isnan(base)) and np.any(ok))
