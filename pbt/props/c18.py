"""C18 vectorized calls give what point-by-point calls give"""
import copy

import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import gen, ops, ref
from pbt.core import facet, EPS, arr

SLICE_N = ['nA', 'nB', 'nC', 'nD']
SLICE_1 = ['az', 'd', 'ti', 'x', 'y', 'zz', 'lat', 'lon']


def take(P, index, scalars=False):
    """functional problem with the columns given by index only (single columns stay single)"""
    Q = copy.copy(P)
    for key in SLICE_N:
        v = getattr(P, key)
        setattr(Q, key, v[:, index] if v.shape[1] > 1 else v)
    Q.z = {k: v[index] if v.size > 1 else v for k, v in P.z.items()}
    for key in SLICE_1:
        v = getattr(P, key)
        v = v[index] if v.size > 1 else v
        setattr(Q, key, float(v[0]) if scalars and v.size == 1 and key in ('az', 'd', 'lat', 'lon',
                                                                           'ti') else v)
    Q.p = P.p[index] if len(P.p) > 1 else P.p
    return Q


def single(P, op, one, first=0):
    """makes some arguments single columns; returns whether it did"""
    groups = {'A': ['A'], 'B': ['B'], 'P': ['A', 'B'], 'C': ['C'], 'Q': ['C', 'D']}
    which = ops.FUN_ONE.get(op)
    if which is None or one == 0:
        return False
    for letter in groups[which[one % 2]]:
        setattr(P, 'n' + letter, getattr(P, 'n' + letter)[:, :1])
        P.z[letter] = P.z[letter][:1]
    return True


def layout(P, how):
    for key in SLICE_N:
        v = getattr(P, key)
        if how == 'fortran':
            v = np.asfortranarray(v)
        elif how == 'strided':
            w = np.zeros((3, 2 * v.shape[1]))
            w[:, ::2] = v
            v = w[:, ::2]
        elif how == 'readonly':
            v = v.copy()
            v.flags.writeable = False
        elif how == 'reversed':
            v = np.ascontiguousarray(v[:, ::-1])[:, ::-1]
        setattr(P, key, v)
    if how == 'readonly':
        for key in SLICE_1 + ['p']:
            v = getattr(P, key).copy()
            v.flags.writeable = False
            setattr(P, key, v)


def special(P, extra):
    """columns with no answer or an arbitrary one beside ordinary columns"""
    k = P.nA.shape[1]
    r = np.random.RandomState(extra)
    for _ in range(r.randint(0, 3) if extra % 3 else r.randint(0, 2 * k + 1)):
        i = r.randint(0, k)
        what = r.randint(0, 6)
        if what == 0:
            P.nB[:, i] = P.nA[:, i]
        elif what == 1:
            P.nB[:, i] = -P.nA[:, i]
        elif what == 2:
            P.nA[:, i] = ref.f64(P.C @ ref.col([0, 0, 1 if r.randint(2) else -1]))[:, 0]
        elif what == 3:
            P.nC[:, i] = P.nA[:, i]
        elif what == 4:
            P.nC[:, i] = P.nA[:, i]
            P.nD[:, i] = P.nB[:, i]
        else:
            P.nC[:, i] = -P.nB[:, i]


@facet('C18', 'functions', ops.fun_case(set(ops.FUN) - set(ops.FUN_JOINT)), 3000,
       rule='20 vectorized functions with n columns (1..17, then the same columns repeated up to '
            '3000 columns; ordinary, coincident, antipodal, polar; Fortran, strided, read-only '
            'arrays; one-to-many) against one call per column; tolerance: 8 x the change that '
            'rounding of the inputs makes; non-trivial: n > 1')
def functions(case, rec):
    extra = case['extra']
    op = case['op']
    f = ops.FUN[op]
    one = [0, 0, 1, 2][extra % 4]
    how = ['plain', 'plain', 'fortran', 'strided', 'readonly', 'reversed'][(extra >> 2) % 6]

    def problem(noise):
        P = ops.FunProblem(case, noise, relative=True)
        special(P, extra)
        if noise is not None:          # keep exact coincidences shaken differently
            for key in SLICE_N:
                v = getattr(P, key)
                setattr(P, key, v * (1 + 4 * EPS * noise.uniform(-1, 1, v.shape)))
        single(P, op, one)
        return P
    P = problem(None)
    if single(P, op, one):
        rec.label('one_to_many')
    k = max(P.nA.shape[1], P.nB.shape[1], P.nC.shape[1])
    vary = ops.variation(f(problem(None)), [f(problem(np.random.RandomState(j + extra)))
                                            for j in range(3)])
    layout(P, how)
    whole = f(P)
    cols = [f(take(P, slice(i, i + 1), (extra >> 6) % 2 == 1)) for i in range(k)]
    for i in range(k):
        part = copy.deepcopy(whole)
        v = []
        for it, w in zip(part, vary):
            n = it.val.shape[-1]
            if n != k:
                rec.fail('%s: %s' % (op, it.label), 'shape %s for %d columns' % (it.val.shape, k))
            cut(it, slice(i, i + 1), k)
            v.append(w[..., i:i + 1])
        ops.compare(rec, op, part, cols[i], v)
    rec.label(op, how)
    reps = [0, 0, 2, 7, 64, 300, 900][(extra >> 8) % 7]
    if reps and 1 < k and k * reps <= 3000:
        index = np.tile(np.arange(k), reps)
        long = f(take(P, index))
        cut_w = [cut(copy.deepcopy(it), index, k) for it in whole]
        ops.compare(rec, op, long, cut_w, [w[..., index] for w in vary], prefix='repeated ')
        rec.label('long')
    if op == 'op_unit':
        zeros(rec, np.tile(P.nA, max(reps, 1)) if reps * k <= 3000 else P.nA, extra)
    rec.nontrivial = k > 1


def zeros(rec, v, extra):
    """unit of columns some, many or all of which are zero"""
    r = np.random.RandomState(extra)
    v = v * (r.uniform(size=v.shape[1]) < r.choice([0.9, 0.5, 0.0]))
    for special in (1, np.nan, 0):
        whole = nv.unit(v, norm_zero_vector=special)
        parts = np.hstack([nv.unit(v[:, i:i + 1], norm_zero_vector=special)
                           for i in range(v.shape[1])])
        rec.true('op_unit: zero columns: shape', whole.shape == parts.shape, whole.shape)
        rec.true('op_unit: zero columns', (np.abs(whole - parts) <= 4 * EPS)
                 | (np.isnan(whole) & np.isnan(parts)), (whole, parts))


def cut(it, index, k):
    it.val = it.val[..., index]
    for name in ('floor', 'ok'):
        v = np.asarray(getattr(it, name))
        if v.ndim and v.shape[-1] == k and k > 1:
            setattr(it, name, v[..., index])
    return it


OBJ_NAMES = set(ops.OBJ) - set(ops.JOINT) - {'closest_on_path'}      # documented: not vectorized
ONE = {'op_delta_E': 'AB', 'op_delta_N': 'AB', 'delta_to': 'AB', 'op_delta_L': 'AB',
       'change_frame': 'B', 'distance_ellipsoid': 'AB', 'distance_greatcircle': 'AB',
       'displace_ellipsoid': 'A', 'displace_greatcircle': 'A', 'frame_direct': 'A',
       'track_distance': 'AB', 'cross_track': 'ABC', 'intersect': 'ABCD', 'on_circle': 'ABC',
       'closest_on_circle': 'ABC', 'interpolate': 'AB', 'ecef_algebra': 'AB',
       'frame_inverse': 'AB'}


def columns(case, index, ones, scalar):
    out = dict(case)
    for name in 'ABCD':
        p = case[name]
        sel = [0] if name in ones else index
        out[name] = {key: [p[key][i] for i in sel] for key in ('lat', 'lon', 'z')}
    for key in ('az', 'dist', 'ti'):
        out[key] = [case[key][i] for i in index]
    out['scalar'] = scalar
    return out


class ManyProblem(ops.ObjProblem):
    """points named in ones are scalar, the others vectors"""

    def __init__(self, case, ones, noise=None):
        self.ones = ones
        super(ManyProblem, self).__init__(case, noise)
        if ones:
            from pbt.nv import mkpoint
            for name, attr_ in zip('ABCD', ('A', 'B', 'Cc', 'D')):
                if name in ones:
                    p = dict(self.pts[name], scalar=True)
                    setattr(self, attr_, mkpoint(p, self.frame, self.spec, p['kind']))


@facet('C18', 'methods', ops.obj_case(names=OBJ_NAMES, scalar=False, maxn=9), 2600,
       rule='26 groups of methods of GeoPoint/Nvector/ECEFvector/Pvector/GeoPath/FrameE/N/L/B with '
            'vectors of n positions of any type (some arguments scalar: one-to-many), against '
            'calls with the single positions, scalar or as vectors of one, and the same columns '
            'repeated up to 200 columns; non-trivial: n > 1')
def methods(case, rec):
    extra = case['extra']
    op = case['op']
    f = ops.OBJ[op]
    k = len(case['az'])
    letters = ONE.get(op, '')
    ones = ''
    if letters and k > 1 and extra % 3 == 0:
        n = (extra >> 2) % (2 ** len(letters))
        ones = ''.join(c for j, c in enumerate(letters) if n >> j & 1)
        if set(ones) >= set('ABCD'[:len(letters)]) and op not in (
                'displace_ellipsoid', 'displace_greatcircle', 'frame_direct', 'interpolate'):
            ones = ones[:-1]
        if op == 'interpolate' and set(ones) != {'A', 'B'}:
            pass
        if op == 'change_frame' and (extra >> 9) % 2:
            ones = ''
    whole_case = columns(case, range(k), ones, False)
    make = lambda noise=None: ManyProblem(whole_case, ones, noise)
    whole = f(make())
    vary = ops.variation(whole, [f(make(np.random.RandomState(j + extra))) for j in range(3)])
    scalar = bool((extra >> 11) % 2)
    for i in range(k):
        want = f(ManyProblem(columns(case, [i], '', scalar) if not ones else
                             one_column(case, i, ones, scalar), ''))
        part, v = [], []
        for it, w in zip(copy.deepcopy(whole), vary):
            n = it.val.shape[-1]
            if n == k:
                part.append(cut(it, slice(i, i + 1), k))
                v.append(w[..., i:i + 1])
            elif n == 1 and ones:
                part.append(it)
                v.append(w)
            else:
                rec.fail('%s: %s' % (op, it.label), 'shape %s for %d columns' % (it.val.shape, k))
        ops.compare(rec, op, part, want, v)
    reps = [0, 0, 0, 0, 0, 4, 11, 40][(extra >> 13) % 8]
    if reps and 1 < k and k * reps <= 200:
        # many columns
        index = np.arange(k * reps) % k
        long = f(ManyProblem(columns(case, index, ones, False), ones))
        cut_w = [cut(copy.deepcopy(it), index, k) if it.val.shape[-1] == k else it for it in whole]
        ops.compare(rec, op, long, cut_w, [w[..., index] if w.shape[-1] == k else w for w in vary],
                    prefix='repeated ')
        rec.label('long')
    rec.label(op, 'one_to_many' if ones else 'n_to_n')
    rec.nontrivial = k > 1


def one_column(case, i, ones, scalar):
    out = columns(case, [i], '', scalar)
    for name in ones:
        out[name] = {key: [case[name][key][0]] for key in ('lat', 'lon', 'z')}
    return out
