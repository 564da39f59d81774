"""C05 local frames N, L, B"""
import numpy as np
import nvector as nv
from nvector import FrameN, FrameL, FrameB, delta_N, delta_L, delta_E
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr, attr
from pbt.nv import (mkframe, mkpoint, ellipsoid_of, canon, canon_p, pvec, same_frame, tup, flat)


def mat3(R, n, name='R_EN'):
    """3 x 3 x n long double array from a (squeezed) rotation matrix result"""
    R = arr(R, name).astype(LD)
    if R.size != 9 * n or R.shape[:2] != (3, 3):
        raise nv_shape(name, R.shape)
    return R.reshape(3, 3, n)


def nv_shape(name, shape):
    from pbt.core import Violation
    return Violation('%s has shape %s' % (name, shape))


def mm(A, B):
    """matrix products item by item (long double)"""
    return np.sum(A[:, :, None, :] * B[None, :, :, :], axis=1)


def judge_rotation(rec, name, R, tol=16 * EPS):
    n = R.shape[2]
    eye = np.eye(3, dtype=LD)[:, :, None] * np.ones(n)
    rec.close(name + ' orthonormal', mm(np.swapaxes(R, 0, 1), R), eye, tol)
    det = ref.dot(R[:, 0], ref.cross(R[:, 1], R[:, 2]))
    rec.close(name + ' right-handed', det, np.ones(n), tol)


def func_case():
    return gen.sized(lambda n: st.fixed_dictionaries(dict(
        lat=gen.vec(gen.lat_rad(), n), lon=gen.vec(gen.lon_rad(), n),
        pole=st.sampled_from([0, 0, 0, 1, -1]), at=st.integers(0, 16),
        wa=gen.vec(gen.lon_rad(), n), wa_scalar=st.booleans(), R=gen.R_Ee())))


@facet('C05', 'functions', func_case(), 6000,
       rule='n_E2R_EN, n_E_and_wa2R_EL, R_EN2n_E, R_EL2n_E for columns at any distance from the '
            'poles and exactly there, wander azimuth scalar or vector, any R_Ee; non-trivial: a '
            'column off the poles with wander azimuth != 0')
def functions(case, rec):
    R, _C = gen.get_R(case['R'])
    C = ref.mat(ref.R_E['e'] if R is None else R)
    kw = {} if R is None else dict(R_Ee=R)
    k = len(case['lat'])
    g = ref.nvec(case['lat'], case['lon'])
    if case['pole']:
        g[:, case['at'] % k] = [0, 0, case['pole']]
        rec.label('exact_pole')
    n = ref.f64(C @ g)
    g = C.T @ n.astype(LD)                # canonical vectors actually given
    wa = np.array(case['wa'])
    if case['wa_scalar']:
        wa = np.full(k, wa[0])
    REN = mat3(nv.n_E2R_EN(n, **kw), k)
    REL = mat3(nv.n_E_and_wa2R_EL(n, float(wa[0]) if case['wa_scalar'] else wa, **kw), k, 'R_EL')
    judge_rotation(rec, 'R_EN', REN)
    judge_rotation(rec, 'R_EL', REL)
    Cn = C[:, :, None] * np.ones(k)
    gu = ref.unit(g)
    rec.close('z of N is down', REN[:, 2], -(C @ gu), 16 * EPS)
    rec.close('z of L is down', REL[:, 2], -(C @ gu), 16 * EPS)
    rec.close('R_EN2n_E', nv.R_EN2n_E(np.asarray(REN, float)), C @ gu, 16 * EPS)
    rec.close('R_EL2n_E', nv.R_EL2n_E(np.asarray(REL, float)), C @ gu, 16 * EPS)
    h = np.hypot(gu[0], gu[1])
    off = h > (0 if gen.is_perm(case['R']) else 1e-12)
    if np.any(off):
        tol = 24 * EPS + (0 if gen.is_perm(case['R']) else 24 * EPS / h[off])
        W = ref.R_EN_n(gu[:, off])
        rec.close('R_EN axes', REN[:, :, off], mm(Cn[:, :, off], W), tol)
        c, s = np.cos(ref.ld(wa)[off]), np.sin(ref.ld(wa)[off])
        WL = np.stack([W[:, 0] * c + W[:, 1] * s, -W[:, 0] * s + W[:, 1] * c, W[:, 2]], axis=1)
        rec.close('R_EL axes', REL[:, :, off], mm(Cn[:, :, off], WL),
                  tol + 8 * EPS * np.abs(wa[off]))
    if np.any(h < 1e-9):
        rec.label('near_pole')
    rec.label('n%d' % min(k, 4))
    rec.nontrivial = bool(np.any((h > 1e-6) & (wa != 0)))


ANG = gen.angle_deg


def obj_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            pair=gen.pair_n(n, scalar), frame=gen.frame(),
            local=st.sampled_from(['N', 'L', 'B', 'B']),
            ypr=st.tuples(ANG(), ANG(), ANG()).map(list), degrees=st.booleans(),
            many=st.booleans(), ang=gen.vec(st.tuples(ANG(), ANG(), ANG()).map(list), n)))
    return gen.shaped(build, maxn=6)


@facet('C05', 'objects', obj_case(), 5000,
       rule='FrameN/FrameL/FrameB at positions of any type; change_frame of the exact difference '
            'to another position (controlled separation) gives the projections on the frame '
            'axes, and to_ecef_vector gives the vector back; delta_N/delta_L/delta_to agree; '
            'non-trivial: B with all angles != 0, or N/L off the poles, different positions')
def objects(case, rec):
    (pa, pb), spec = case['pair'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    clip = [0.2 * a, -1e3 * a]
    pa = dict(pa, z=[max(clip[1], min(clip[0], z)) for z in pa['z']])
    pb = dict(pb, z=[max(clip[1], min(clip[0], z)) for z in pb['z']])
    frame = mkframe(spec)
    A, B = mkpoint(pa, frame, spec), mkpoint(pb, frame, spec)
    k = len(pa['lat'])
    C = ref.C[axes]
    gA = canon(pa)
    if pa['kind'] == 'ecef':
        pass                          # same direction to rounding (conditioning below)
    h = np.hypot(gA[0], gA[1])
    W = ref.R_EN_n(gA)
    deg = case['degrees']
    conv = (lambda x: x) if deg else np.radians
    ypr = np.radians(np.array(case['ypr']))
    if case['local'] == 'N':
        loc = FrameN(A)
    elif case['local'] == 'L':
        if case['many'] and k > 1:
            wa = np.radians([t[0] for t in case['ang']])
        else:
            wa = ypr[0]
        loc = FrameL(A, wander_azimuth=wa)
        c, s = np.cos(ref.ld(wa)), np.sin(ref.ld(wa))
        W = np.stack([W[:, 0] * c + W[:, 1] * s, -W[:, 0] * s + W[:, 1] * c, W[:, 2]], axis=1)
    else:
        if case['many'] and k > 1:
            angs = np.array(case['ang'])
            yaw, pitch, roll = [conv(angs[:, i]) for i in range(3)]
            rows = np.radians(angs)
        else:
            yaw, pitch, roll = [float(conv(x)) for x in case['ypr']]
            rows = np.repeat(ypr[None, :], k, axis=0)
        loc = FrameB(A, yaw, pitch, roll, degrees=deg)
        RNB = np.stack([ref.rot(2, r[0]) @ ref.rot(1, r[1]) @ ref.rot(0, r[2]) for r in rows],
                       axis=2)
        W = mm(W, RNB)
    R = mat3(attr(loc, 'R_EN'), k)
    judge_rotation(rec, 'R_EN', R, 24 * EPS)
    big = 1 + max([abs(x) for x in case['ypr']] + [abs(x) for t in case['ang'] for x in t]) / 57
    tolR = 64 * EPS * big
    Cn = C[:, :, None] * np.ones(k)
    want = mm(Cn, W)
    good = h > 1e-15
    if pa['kind'] == 'ecef':
        tolR = tolR + 0 * h
    if np.any(good):
        rec.close('frame axes', R[:, :, good], want[:, :, good],
                  tolR[good] if np.ndim(tolR) else tolR)
    # difference vector
    d = delta_E(A, B)
    dE = pvec(d)
    size = ref.norm(dE)
    dloc = d.change_frame(loc)
    rec.true('type', isinstance(dloc, nv.Pvector), type(dloc))
    rec.true('frame of the result', attr(dloc, 'frame') is loc or dloc.frame == loc, '')
    comp = pvec(dloc)
    proj = np.stack([ref.dot(R[:, i], dE) for i in range(3)])
    rec.close('components are projections', comp, proj, 16 * EPS * size + 1e-300)
    if np.any(good):
        pw = np.stack([ref.dot(want[:, i], dE) for i in range(3)])
        rec.close('components (exact axes)', comp[:, good], pw[:, good],
                  2 * np.max(tolR) * size[good] + 1e-300)
    back = dloc.to_ecef_vector()
    rec.true('back type', isinstance(back, nv.ECEFvector), type(back))
    same_frame(rec, 'frame of the vector back', back, frame)
    rec.close('there and back', pvec(back), dE, 32 * EPS * size + 1e-300)
    v2 = loc.Pvector(np.asarray(comp, float))
    rec.close('local Pvector to E', pvec(v2.to_ecef_vector()), dE, 32 * EPS * size + 1e-300)
    if case['local'] == 'N':
        for name, v in (('delta_N', delta_N(A, B)), ('delta_to', A.delta_to(B)),
                        ('delta_L with wander azimuth 0', delta_L(A, B))):
            rec.close(name, pvec(v), comp, np.where(good, 96 * EPS, 1e9) * size + 1e-300)
    elif case['local'] == 'L':
        v = delta_L(A, B, wander_azimuth=loc.wander_azimuth)
        rec.close('delta_L', pvec(v), comp, 16 * EPS * size + 1e-300)
    rec.label('frame_' + case['local'], 'kind_' + pa['kind'], 'axes_' + axes)
    if case['many'] and k > 1:
        rec.label('vector_angles')
    rec.nontrivial = bool(np.any(size > 0)) and bool(np.any(h > 1e-6)) and \
        (case['local'] != 'B' or all(x != 0 for x in case['ypr']))
