"""C19 results do not depend on the axes chosen for E"""
import itertools

import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import gen, ops, ref
from pbt.core import facet, EPS


@facet('C19', 'objects', ops.obj_case(maxn=6), 3600,
       rule='27 groups of methods solved in frames with axes "e" and "E" (all position types, '
            'ellipsoids, scalar and vector): geographic results, distances, azimuths, local '
            'components, yes/no answers equal; E vectors and rotation matrices differ by the '
            'rotation between the conventions; tolerance: 8 x effect of input rounding; '
            'non-trivial: a position off the coordinate axes')
def obj(case, rec):
    f = ops.OBJ[case['op']]
    one = dict(case['frame'], axes='e')
    two = dict(case['frame'], axes='E')
    base = f(ops.ObjProblem(case, spec=one))
    vary = ops.variation(base, [f(ops.ObjProblem(case, np.random.RandomState(j + case['extra']),
                                                 spec=one)) for j in range(4)])
    other = f(ops.ObjProblem(case, spec=two))
    ops.compare(rec, case['op'], other, base, vary)
    rec.label(case['op'])
    rec.nontrivial = any(x not in (0, 90, -90) for x in case['A']['lat'])


@facet('C19', 'functions', ops.fun_case(maxn=9, R=st.one_of(st.just('E'), gen.quaternion(), gen.quaternion())), 3000,
       rule='23 functions with R_Ee given (the two conventions, arbitrary rotations) against the '
            'default axes on the same positions; non-trivial: a rotation other than the default')
def fun(case, rec):
    f = ops.FUN[case['op']]
    base = f(ops.FunProblem(case, R='e'))
    perm = gen.is_perm(case['R'])
    amp = 8 * EPS
    vary = ops.variation(base, [f(ops.FunProblem(case, np.random.RandomState(j + case['extra']),
                                                 amp=amp, R='e')) for j in range(4)])
    other = f(ops.FunProblem(case))
    ops.compare(rec, case['op'], other, base, vary)
    rec.label(case['op'], 'axes convention' if perm else 'arbitrary rotation')
    rec.nontrivial = case['R'] not in (None, 'e')


# exactly at the poles, where the direction of east is a choice ---------------------------
PERMS = [(p, s) for p in itertools.permutations(range(3)) for s in itertools.product((1, -1), repeat=3)]


def pole_case():
    column = st.one_of(st.sampled_from([[1.0, 0.0, 0.0], [-1.0, 0.0, 0.0]]),
                       st.sampled_from([[1.0, 0.0, 0.0], [-1.0, -0.0, 0.0], [0.0, 1.0, 0.0]]),
                       gen.unit_vec(1).map(lambda v: v[0]))
    def build(n):
        return st.fixed_dictionaries(dict(
            n=gen.vec(column, n), perm=st.integers(0, len(PERMS) - 1), turn=gen.angle_deg(False),
            b=gen.unit_vec(n), wa=gen.angle_deg(), az=gen.angle_deg(),
            d=gen.moderate_separation()))
    return gen.size(5).flatmap(gen.memo(build))


def pole_axes(perm, turn):
    """rotation with a first row that is exactly a coordinate axis"""
    p, s = PERMS[perm]
    P = np.zeros((3, 3))
    for i in range(3):
        P[i, p[i]] = s[i]
    if np.linalg.det(P) < 0:
        P[2] = -P[2]
    c, s = np.cos(np.deg2rad(turn)), np.sin(np.deg2rad(turn))
    return np.array([[1.0, 0, 0], [0, c, -s], [0, s, c]]) @ P


@facet('C19', 'poles', pole_case(), 2000,
       rule='directions at exactly the poles and elsewhere for E axes with the spin axis along '
            'any coordinate axis, turned about it by any angle: n_E2R_EN, n_E_and_wa2R_EL, '
            'destination and azimuth equal those for the identity, rotated; proper rotations; '
            'non-trivial: a position exactly at a pole')
def poles(case, rec):
    R = pole_axes(case['perm'], case['turn'])
    eye = np.eye(3)
    n = np.array(case['n']).T
    m = R.T @ n
    on_pole = (n[1] == 0) & (n[2] == 0)
    r = np.hypot(n[1], n[2])
    tol = 32 * EPS / np.where(on_pole, 1, np.maximum(r, 1e-300))
    ok = tol < 1e-3
    k = n.shape[1]
    def judge(name, got, want, t=tol):
        got, want = [np.reshape(x, (3, -1, k)) for x in (got, want)]
        for j in range(k):
            if ok[j]:
                rec.close(name, got[..., j], R.T @ want[..., j], t[j])
    axes = nv.n_E2R_EN(m, R_Ee=R)
    judge('n_E2R_EN', axes, nv.n_E2R_EN(n, R_Ee=eye))
    for j in range(k):
        A = np.reshape(axes, (3, 3, k))[..., j]
        rec.close('orthonormal', A.T @ A, eye, 64 * EPS)
        rec.true('right-handed', np.linalg.det(A) > 0, A)
    wa = np.deg2rad(case['wa'])
    judge('n_E_and_wa2R_EL', nv.n_E_and_wa2R_EL(m, wa, R_Ee=R), nv.n_E_and_wa2R_EL(n, wa, R_Ee=eye))
    az = np.deg2rad(case['az'])
    judge('destination', nv.n_EA_E_distance_and_azimuth2n_EB_E(m, case['d'], az, R_Ee=R),
          nv.n_EA_E_distance_and_azimuth2n_EB_E(n, case['d'], az, R_Ee=eye))
    b = np.array(case['b']).T
    far = np.linalg.norm(np.cross(n, b, axis=0), axis=0)
    got = nv.n_EA_E_and_n_EB_E2azimuth(m, R.T @ b, R_Ee=R)
    want = nv.n_EA_E_and_n_EB_E2azimuth(n, b, R_Ee=eye)
    use = ok & (far > 0.02)    # the vertical through the other side is 2 f away
    if np.any(use):
        rec.close('azimuth', got[use], want[use], (64 * tol / np.maximum(far, 0.02))[use], angle=True)
    rec.label('pole' if np.any(on_pole) else 'none')
    rec.nontrivial = bool(np.any(on_pole))
