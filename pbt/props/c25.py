"""C25 all longitudes and both hemispheres are treated alike"""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ops, ref
from pbt.core import facet, EPS, LD


def shifted(case, deg):
    out = dict(case)
    for name in 'ABCD':
        out[name] = dict(case[name], lon=[x + deg for x in case[name]['lon']])
    return out


def shift_items(items, deg):
    """what the results of the shifted problem should be"""
    rad = ref.ld(deg) * ref.PI / 180
    Q = ref.rot(2, rad)
    out = []
    for it in items:
        it = copy.copy(it)
        if it.kind == 'lon':
            it.val = it.val + rad
        elif it.kind == 'londeg':
            it.val = it.val + ref.ld(deg)
        elif it.kind == 'E':
            it.val = Q @ it.val
        elif it.kind[0] == 'R' and it.val.ndim == 3:
            it.val = np.einsum('ij,jkn->ikn', Q, it.val)
        out.append(it)
    return out


def spread(items, vary):
    """E components mix when rotated"""
    out = []
    for it, v in zip(items, vary):
        if it.kind == 'E':
            v = np.broadcast_to(np.max(v, axis=0), v.shape)
        elif it.kind[0] == 'R' and it.val.ndim == 3:
            v = np.broadcast_to(np.max(v, axis=0), v.shape)
        out.append(v)
    return out


def shift_case():
    deg = st.one_of(st.sampled_from([360.0, -360.0, 720.0, 180.0, -180.0, 90.0, 1.0, 1e-7]),
                    st.floats(-360, 360), gen.signed_logu(1e-6, 400), gen.dictionary(-360, 360))
    return st.tuples(ops.obj_case(maxn=5), deg).map(lambda t: dict(t[0], shift=t[1]))


@facet('C25', 'shift', shift_case(), 3600,
       rule='27 groups of methods: all longitudes shifted by the same angle (also full turns); '
            'longitudes shift, everything else stays, E vectors rotate; tolerance: 8 x effect of '
            'input rounding; non-trivial: shift that is no full turn')
def shift(case, rec):
    f = ops.OBJ[case['op']]
    base = f(ops.ObjProblem(case))
    vary = ops.variation(base, [f(ops.ObjProblem(case, np.random.RandomState(j + case['extra'])))
                                for j in range(4)])
    other = f(ops.ObjProblem(shifted(case, case['shift'])))
    want = shift_items(base, case['shift'])
    for it in want:                   # the shifted longitudes are rounded
        it.floor = it.floor * 2
    ops.compare(rec, case['op'], other, want, spread(base, vary))
    rec.label(case['op'])
    if case['shift'] % 360 == 0:
        rec.label('full_turn')
    rec.nontrivial = case['shift'] % 360 != 0


MIRROR = sorted(set(ops.OBJ) - {'op_delta_L', 'body', 'displace_ellipsoid', 'displace_greatcircle',
                                'frame_direct'})


def mirrored(case):
    out = dict(case)
    for name in 'ABCD':
        out[name] = dict(case[name], lat=[-x for x in case[name]['lat']])
    return out


def mirror_items(items):
    out = []
    M = np.array([1, 1, -1], dtype=LD)
    for it in items:
        it = copy.copy(it)
        if it.kind in ('lat', 'deg', 'xtd'):
            it.val = -it.val
        elif it.kind == 'az':
            it.val = ref.PI - it.val
        elif it.kind == 'E':
            it.val = it.val * M[:, None]
        elif it.kind == 'N':
            it.val = it.val * np.array([-1, 1, 1], dtype=LD)[:, None]
        elif it.kind == 'RN':
            it.val = it.val * M[:, None, None] * np.array([-1, 1, 1], dtype=LD)[None, :, None]
        elif it.kind in ('L', 'B', 'RL', 'RB'):
            it.ok = False
        out.append(it)
    return out


@facet('C25', 'mirror', ops.obj_case(names=MIRROR, maxn=5), 2200,
       rule='22 groups of methods: all positions mirrored in the equator; latitudes negated, '
            'azimuth az becomes 180 - az, cross track sign flips, the rest stays; non-trivial: a '
            'position off the equator')
def mirror(case, rec):
    f = ops.OBJ[case['op']]
    base = f(ops.ObjProblem(case))
    vary = ops.variation(base, [f(ops.ObjProblem(case, np.random.RandomState(j + case['extra'])))
                                for j in range(4)])
    other = f(ops.ObjProblem(mirrored(case)))
    ops.compare(rec, case['op'], other, mirror_items(base), vary)
    rec.label(case['op'])
    rec.nontrivial = any(x != 0 for x in case['A']['lat'])


@facet('C25', 'mirror displacement', ops.obj_case(names=['displace_ellipsoid', 'frame_direct',
                                                         'displace_greatcircle'], maxn=4), 900,
       rule='displace and FrameE.direct from the mirrored position with azimuth 180 - az end at '
            'the mirrored position; non-trivial: a positive distance')
def mirror_displace(case, rec):
    f = ops.OBJ[case['op']]
    base = f(ops.ObjProblem(case))
    vary = ops.variation(base, [f(ops.ObjProblem(case, np.random.RandomState(j + case['extra'])))
                                for j in range(4)])
    other = dict(mirrored(case), az=[float(ref.PI - ref.ld(x)) for x in case['az']])
    want = mirror_items(base)
    for it in want:
        it.floor = it.floor * 4
    ops.compare(rec, case['op'], f(ops.ObjProblem(other)), want, vary)
    rec.label(case['op'])
    rec.nontrivial = any(x > 0 for x in case['dist'])


def rot_case():
    return st.tuples(ops.fun_case(names=ops.FUN_ROT, maxn=9), gen.quaternion()).map(
        lambda t: dict(t[0], q=t[1]))


@facet('C25', 'rotation', rot_case(), 2500,
       rule='13 spherical functions: all n-vectors rotated by an arbitrary rotation; vectors '
            'rotate, numbers and answers stay; non-trivial: a rotation other than the identity')
def rotation(case, rec):
    f = ops.FUN[case['op']]
    Q = ref.quat2R(case['q'])
    base = f(ops.FunProblem(case))
    vary = ops.variation(base, [f(ops.FunProblem(case, np.random.RandomState(j + case['extra'])))
                                for j in range(4)])
    other = f(ops.FunProblem(case, rotate=Q))
    want = []
    for it in base:
        it = copy.copy(it)
        if it.kind == 'E':
            it.val = Q @ it.val
        want.append(it)
    ops.compare(rec, case['op'], other, want, spread(base, vary))
    rec.label(case['op'])
    rec.nontrivial = abs(case['q'][0]) < 1
