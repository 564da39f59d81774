"""C17 mean position"""
import warnings

import numpy as np
import nvector as nv
from nvector import Nvector
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr, attr
from pbt.nv import mkframe, ellipsoid_of, same_frame, normal, rads, flat


@gen.memo
def _set(n):
    anywhere = st.tuples(gen.vec(gen.lat_deg(), n), gen.vec(gen.lon_deg(), n)).map(list)
    equal = st.tuples(gen.lat_deg(), gen.lon_deg()).map(lambda t: [[t[0]] * n, [t[1]] * n])

    def cluster(t):
        lat, lon, d, az = t
        la, lo = gen.move([lat] * n, [lon] * n, az, d)
        return [la, lo]
    near = st.tuples(gen.lat_deg(), gen.lon_deg(), gen.vec(gen.logu(1e-12, 1.2), n),
                     gen.vec(gen.angle_deg(False), n)).map(cluster)
    return st.fixed_dictionaries(dict(
        pos=st.one_of(near, near, anywhere, equal), z=gen.vec(gen.depth(), n),
        perm=st.permutations(range(n)), repeat=st.integers(1, 4), q=gen.quaternion(),
        axes=gen.axes(), frame=gen.frame(), zscalar=st.booleans(), dep=st.booleans()))


def set_case():
    return st.one_of(st.integers(1, 6), st.integers(1, 20), st.sampled_from([1, 2, 3, 4, 60])
                     ).flatmap(_set)


@facet('C17', 'mean_horizontal_position', set_case(), 6000,
       rule='mean_horizontal_position of 1 to 60 positions (clusters of 1e-12 to 1.2 rad '
            'anywhere, equal positions, arbitrary sets whose sum does not vanish): direction of '
            'the sum, unit, order, repetition, rotation of all positions; non-trivial: at least '
            'two different positions')
def func(case, rec):
    n = ref.f64(ref.C[case['axes']] @ ref.nvec(rads(case['pos'][0]), rads(case['pos'][1])))
    k = n.shape[1]
    total = np.sum(n.astype(LD), axis=1, keepdims=True)
    size = ref.norm(total)[0]
    if size < 1e-6 * k:
        rec.label('cancelling')
        return
    tol = 8 * EPS + 4 * EPS * (k + 2) * k / size
    got = arr(nv.mean_horizontal_position(n))
    rec.true('shape', got.shape == (3, 1), got.shape)
    rec.bound('unit', ref.norm(got.astype(LD)) - 1, 4 * EPS)
    rec.close('direction of the sum', got, total / size, tol)
    rec.close('order', arr(nv.mean_horizontal_position(n[:, case['perm']])), got, tol)
    rec.close('repeated set', arr(nv.mean_horizontal_position(np.tile(n, case['repeat']))), got,
              tol * case['repeat'])
    R = ref.quat2R(case['q'])
    rot = nv.mean_horizontal_position(ref.f64(R @ n.astype(LD)))
    rec.close('rotated set', arr(rot), R @ (total / size), tol * 2)
    cosines = np.sum(ref.dot(n.astype(LD), got.astype(LD)))
    rec.bound('largest summed cosine', np.maximum(size - cosines, 0), 8 * EPS * k * (k + 2))
    same = np.all(n == n[:, :1])
    if same and k > 1:
        rec.label('equal_positions')
        rec.close('mean of equal positions', got, n[:, :1], 8 * EPS * (k + 2))
    rec.label('n_%s' % ('1' if k == 1 else '2-6' if k < 7 else '7+'))
    rec.nontrivial = not same


@facet('C17', 'Nvector.mean', set_case(), 4000,
       rule='Nvector.mean (and its deprecated name) in all frames: as above, with the mean depth '
            '(per-point or common depth) and the frame; non-trivial: different positions and '
            'depths')
def obj(case, rec):
    a, f, axes = ellipsoid_of(case['frame'])
    frame = mkframe(case['frame'])
    g = ref.nvec(rads(case['pos'][0]), rads(case['pos'][1]))
    n = ref.f64(ref.C[axes] @ g)
    k = n.shape[1]
    total = np.sum(n.astype(LD), axis=1, keepdims=True)
    size = ref.norm(total)[0]
    z = np.array(case['z'])
    if case['zscalar']:
        z = np.full(k, z[0])
    point = Nvector(n, float(z[0]) if case['zscalar'] else z, frame)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        got = point.mean_horizontal_position() if case['dep'] else point.mean()
    same_frame(rec, 'frame', got, frame)
    rec.true('type', isinstance(got, Nvector), type(got))
    zz = flat(attr(got, 'z'), 1)
    rec.close('mean depth', zz, [np.sum(ref.ld(z)) / k], 4 * EPS * (k + 2) * np.max(np.abs(z)))
    if size < 1e-6 * k:
        rec.label('cancelling')
        return
    m = normal(got, axes)
    rec.true('one point', m.shape == (3, 1), m.shape)
    rec.close('direction of the sum', ref.C[axes] @ m, total / size,
              8 * EPS + 4 * EPS * (k + 2) * k / size)
    rec.bound('unit', ref.norm(m) - 1, 4 * EPS)
    rec.nontrivial = not np.all(n == n[:, :1]) and len(set(z.tolist())) > 1


def long_case():
    return st.fixed_dictionaries(dict(
        n=st.one_of(st.sampled_from([100, 128, 256, 1000, 1024, 4096, 20000]),
                    st.integers(61, 3000)),
        seed=st.integers(0, 2 ** 31 - 1), lat=gen.lat_deg(), lon=gen.lon_deg(),
        spread=st.sampled_from([1e-6, 0.01, 1.0, 2.0]), trend=st.booleans(),
        axes=gen.axes(), z=gen.depth()))


@facet('C17', 'many positions', long_case(), 250,
       rule='mean_horizontal_position and Nvector.mean of 61 to 20000 positions (clusters, with '
            'or without a trend in the order): direction of the sum, mean depth, reversed order; '
            'non-trivial: the mean of the first half differs from that of all')
def many(case, rec):
    r = np.random.RandomState(case['seed'])
    k = case['n']
    g = ref.nvec(rads([case['lat']]), rads([case['lon']])).astype(float)
    steps = r.randn(3, k) * case['spread'] * 0.3
    if case['trend']:
        steps = np.sort(steps, axis=1)
    n = g + steps
    n = ref.f64(ref.C[case['axes']] @ (n / np.sqrt(np.sum(n * n, axis=0))).astype(LD))
    total = np.sum(n.astype(LD), axis=1, keepdims=True)
    size = ref.norm(total)[0]
    if size < 1e-3 * k:
        rec.label('cancelling')
        return
    tol = 8 * EPS + 4 * EPS * (k + 2) * k / size
    got = arr(nv.mean_horizontal_position(n))
    rec.true('shape', got.shape == (3, 1), got.shape)
    rec.close('direction of the sum', got, total / size, tol)
    rec.close('reversed', arr(nv.mean_horizontal_position(n[:, ::-1])), total / size, tol)
    z = case['z'] + np.sort(r.randn(k)) * 100
    point = Nvector(n, z, nv.FrameE(axes=case['axes'])).mean()
    rec.close('direction, object', arr(attr(point, 'normal')), total / size, tol)
    rec.close('mean depth', flat(attr(point, 'z'), 1), [np.sum(ref.ld(z)) / k],
              4 * EPS * (k + 2) * np.max(np.abs(z)))
    half = np.sum(n[:, :k // 2].astype(LD), axis=1, keepdims=True)
    rec.nontrivial = bool(np.max(np.abs(half / ref.norm(half)[0] - total / size)) > 10 * tol)
