"""C06 Euler angles <-> rotation matrices"""
import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import tup, flat
from pbt.props.c05 import mat3, judge_rotation


@gen.memo
def middle():
    """middle angle in [-90, 90] deg, at and near the singularity"""
    return st.one_of(gen.lat_rad(), gen.lat_rad(),
                     st.builds(lambda s, x: s * (np.pi / 2 - x), gen.sgn(), gen.logu(1e-16, 1e-3)),
                     st.sampled_from([np.pi / 2, -np.pi / 2]))


def angles_case():
    return gen.sized(lambda n: st.fixed_dictionaries(dict(
        x=gen.vec(gen.lon_rad(), n), y=gen.vec(st.one_of(middle(), gen.lon_rad()), n),
        z=gen.vec(gen.lon_rad(), n), order=st.sampled_from(['xyz', 'zyx']),
        scalar=st.booleans(), mix=st.booleans())))


def product(order, x, y, z):
    if order == 'xyz':
        return np.stack([ref.rot(0, a) @ ref.rot(1, b) @ ref.rot(2, c)
                         for a, b, c in zip(x, y, z)], axis=2)
    return np.stack([ref.rot(2, c) @ ref.rot(1, b) @ ref.rot(0, a)
                     for a, b, c in zip(x, y, z)], axis=2)


@facet('C06', 'angles_to_matrix', angles_case(), 5000,
       rule='xyz2R/zyx2R for arbitrary angles (|angle| up to 4 pi), scalars, vectors and scalar '
            'mixed with vectors; oracle: product of elementary rotations; then back with R2*: '
            'same matrix, documented ranges, same angles off the singularity; non-trivial: three '
            'non-zero angles')
def angles_to_matrix(case, rec):
    x, y, z = [np.array(case[c]) for c in 'xyz']
    k = len(x)
    if case['mix'] and k > 1:
        y = np.full(k, y[0])
        args = [x, float(y[0]), z]
        rec.label('mixed_scalar_vector')
    elif case['scalar'] and k == 1:
        args = [float(x[0]), float(y[0]), float(z[0])]
    else:
        args = [x, y, z]
    order = case['order']
    if order == 'xyz':
        R0 = nv.xyz2R(*args)
    else:
        R0 = nv.zyx2R(*args[::-1])
    R = mat3(R0, k, 'R_AB')
    want = product(order, x, y, z)
    rec.close(order + '2R', R, want, 8 * EPS)
    judge_rotation(rec, order + '2R', R, 12 * EPS)
    back(rec, order, arr(R0), R, k)
    # angles recovered (up to the full turns) where y is inside (-90, 90) deg
    xx, yy, zz = extract(rec, order, arr(R0), k)
    cy = np.cos(ref.ld(y))
    for name, got, ang in (('x', xx, x), ('y', yy, y), ('z', zz, z)):
        sel = cy > 1e-6
        if np.any(sel):
            rec.bound('angle %s recovered' % name, ref.wrap(got - ref.ld(ang))[sel],
                      (16 * EPS / cy + 8 * EPS * np.abs(ang))[sel])
    if np.any(np.abs(cy) < 1e-9):
        rec.label('singular')
    rec.label(order)
    rec.nontrivial = bool(np.any((x != 0) & (y != 0) & (z != 0)))


def extract(rec, order, R, k):
    """angles from matrix in the order x, y, z"""
    if order == 'xyz':
        x, y, z = tup(nv.R2xyz(R), 3)
    else:
        z, y, x = tup(nv.R2zyx(R), 3)
    return flat(x, k, 'x'), flat(y, k, 'y'), flat(z, k, 'z')


def back(rec, order, R64, R, k, tol=24 * EPS):
    x, y, z = extract(rec, order, R64, k)
    rec.true('range of y', np.abs(y) <= np.pi / 2, y)
    rec.true('range of x', np.abs(x) <= np.pi, x)
    rec.true('range of z', np.abs(z) <= np.pi, z)
    rec.close('R2%s reproduces the matrix' % order, product(order, x, y, z), R, tol)


def matrix_case():
    exact = st.sampled_from([[1, 0, 0, 0], [0, 1, 0, 0], [0.5, 0.5, 0.5, 0.5],
                             [0.5, -0.5, 0.5, 0.5], [np.sqrt(.5), 0, np.sqrt(.5), 0],
                             [np.sqrt(.5), 0, -np.sqrt(.5), 0], [0.0, 0.0, 1.0, 0.0],
                             [np.sqrt(.5), np.sqrt(.5), 0, 0]]).map(lambda q: [float(t) for t in q])
    near = st.builds(lambda q, d: [float(t) for t in np.array(q) + np.array(d)],
                     exact, st.tuples(*[gen.signed_logu(1e-17, 1e-3)] * 4).map(list))
    q = st.one_of(gen.quaternion(), exact, near)
    return gen.sized(lambda n: st.fixed_dictionaries(dict(
        q=gen.vec(q, n), order=st.sampled_from(['xyz', 'zyx']), squeeze=st.booleans())))


@facet('C06', 'matrix_to_angles', matrix_case(), 6000,
       rule='R2xyz/R2zyx of arbitrary rotation matrices (random, exact and nearly exact gimbal '
            'lock and axis permutations): the angles reproduce the matrix and are in range; '
            'non-trivial: matrix with no zero element')
def matrix_to_angles(case, rec):
    k = len(case['q'])
    R = ref.f64(np.stack([ref.quat2R(q) for q in case['q']], axis=2))
    R64 = R[:, :, 0] if k == 1 and case['squeeze'] else R
    back(rec, case['order'], R64, R.astype(LD), k)
    rec.label(case['order'])
    if np.any(np.abs(R) > 1 - 1e-12):
        rec.label('singular_or_permutation')
    rec.nontrivial = bool(np.any(np.all(np.abs(R) > 1e-9, axis=(0, 1))))
