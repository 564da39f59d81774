"""C30 lengths scale with the size of the Earth model"""
import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import gen, ops, ref
from pbt.core import facet, EPS, LD

METRES = ('len', 'z', 'xtd', 'N', 'L', 'B')
PLAIN = ('track radius', 'cross track radius')       # the radius is given, not that of the frame
VECTORS = ('ECEF vector', 'delta_E', 'B to E', 'added', 'back from N', 'back from L', 'back from B')


def metric(op, it):
    """does the item count metres?"""
    if it.label in PLAIN:
        return False
    if it.kind in METRES:
        return True
    return it.kind == 'E' and (it.label in VECTORS or op == 'ecef_algebra')


@gen.memo
def factors():
    return st.one_of(st.integers(-20, 20).map(lambda k: 2.0 ** k), gen.logu(1e-6, 1e6),
                     st.sampled_from([1e-3, 0.3048, 1 / 1852.0, 1 / 6378137.0, 1e6, 1e-6]))


def scaled(case, out, s):
    for it in out:
        if metric(case['op'], it):
            it.val = it.val / LD(s)
            it.floor = np.asarray(it.floor, dtype=float) / s
    return out


@facet('C30', 'objects',
       st.tuples(ops.obj_case(maxn=5), factors()).map(lambda t: dict(t[0], s=t[1])), 4000,
       rule='27 groups of methods solved on an ellipsoid, and with semi-major axis, depths, '
            'distances and vectors multiplied by the same factor (powers of two, 1e-6 to 1e6): '
            'lengths, depths, cross track distances and Cartesian components multiply by it; '
            'angles, n-vectors, rotation matrices and yes/no answers stay; tolerance: 8 x effect '
            'of input rounding; non-trivial: a factor other than one')
def obj(case, rec):
    f = ops.OBJ[case['op']]
    base = f(ops.ObjProblem(case))
    vary = ops.variation(base, [f(ops.ObjProblem(case, np.random.RandomState(j + case['extra'])))
                                for j in range(4)])
    other = scaled(case, f(ops.ObjProblem(case, scale=case['s'])), case['s'])
    ops.compare(rec, case['op'], other, base, vary)
    rec.label(case['op'])
    rec.label('smaller' if case['s'] < 1 else 'larger' if case['s'] > 1 else 'same')
    rec.nontrivial = case['s'] != 1


FUNS = ('n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_EA_E_and_n_EB_E2p_AB_E', 'n_EA_E_and_p_AB_E2n_EB_E',
        'n_EA_E_and_n_EB_E2azimuth')


@facet('C30', 'functions',
       st.tuples(ops.fun_case(names=FUNS, maxn=6), factors()).map(lambda t: dict(t[0], s=t[1])),
       2400,
       rule='the functions that take an ellipsoid, with a, depths and vectors multiplied by one '
            'factor; non-trivial: a factor other than one')
def fun(case, rec):
    f = ops.FUN[case['op']]
    base = f(ops.FunProblem(case))
    vary = ops.variation(base, [f(ops.FunProblem(case, np.random.RandomState(j + case['extra'])))
                                for j in range(4)])
    other = f(ops.FunProblem(case, scale=case['s']))
    for it in other:
        if it.kind == 'z' or it.label in ('p', 'p_AB'):
            it.val = it.val / LD(case['s'])
            it.floor = np.asarray(it.floor, dtype=float) / case['s']
    ops.compare(rec, case['op'], other, base, vary)
    rec.label(case['op'])
    rec.nontrivial = case['s'] != 1


@facet('C30', 'radius',
       st.tuples(ops.fun_case(names=['op_cross_track'], maxn=6), factors(), gen.logu(1e-3, 1e9),
                 gen.logu(1e-9, 1.0)).map(lambda t: dict(t[0], s=t[1], r=t[2], tol=t[3])), 2400,
       rule='spherical functions with a given radius r: distances with radius s*r are s times those '
            'with r, and on_great_circle(_path) with radius s*r, atol s*t answers as with r, t; '
            'non-trivial: a factor other than one')
def radius(case, rec):
    P = ops.FunProblem(case)
    s, r = case['s'], case['r']
    path = (P.nA, P.nB)
    fl = 16 * EPS
    for name, f in (('great_circle_distance', lambda q: nv.great_circle_distance(P.nA, P.nB, q)),
                    ('euclidean_distance', lambda q: nv.euclidean_distance(P.nA, P.nB, q)),
                    ('cross_track_distance', lambda q: nv.cross_track_distance(
                        path, P.nC, 'greatcircle', q)),
                    ('cross_track_distance euclidean', lambda q: nv.cross_track_distance(
                        path, P.nC, method='euclidean', radius=q))):
        a, b = np.asarray(f(r), dtype=LD), np.asarray(f(s * r), dtype=LD)
        ok = np.isfinite(a) & np.isfinite(b)
        rec.true(name + ' NaN', np.isnan(a) == np.isnan(b), (a, b))
        rec.close(name, np.where(ok, b / LD(s * r), 0), np.where(ok, a / LD(r), 0), fl)
    xt = np.abs(np.asarray(nv.cross_track_distance(path, P.nC, radius=1.0), dtype=float))
    tol = case['tol']
    clear = np.isfinite(xt) & (np.abs(xt - tol) > 1e-9 * tol + 64 * EPS)
    for name, f in (('on_great_circle', nv.on_great_circle),
                    ('on_great_circle_path', nv.on_great_circle_path)):
        a, b = f(path, P.nC, r, atol=tol * r), f(path, P.nC, s * r, atol=tol * (s * r))
        rec.true(name, (np.asarray(a) == np.asarray(b)) | ~clear, (a, b))
    rec.nontrivial = s != 1
