"""C39 sums, differences, multiples and quotients of positions"""
import fractions
import operator

import numpy as np
import nvector as nv
from nvector import ECEFvector, FrameN, GeoPath, GeoPoint, Nvector, Pvector
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr, attr
from pbt.nv import (mkframe, ellipsoid_of, canon, canon_p, mkpoint, same_frame, flat, normal,
                    is_scalar)


# a value per element: components, depths ------------------------------------------------
@gen.memo
def _number():
    small = st.floats(-2, 2).map(lambda x: x if abs(x) > 1e-30 else 0.0)
    return st.one_of(small, gen.signed_logu(1e-12, 1e12), st.integers(-9, 9),
                     st.sampled_from([0, 0.0, -0.0, 1, -1, 0.5]))


@gen.memo
def _triple():
    return st.tuples(_number(), _number(), _number())


@gen.memo
def _factor():
    return st.one_of(gen.signed_logu(1e-6, 1e6), st.integers(-7, 9).filter(bool),
                     st.sampled_from([2, 0.5, 1, -1, 3.0, 1e3, 1 / 3.]))


@gen.memo
def _operand(n):
    return st.fixed_dictionaries(dict(
        v=gen.vec(_triple(), n), z=gen.vec(_number(), n), one_z=st.booleans(),
        whole=st.sampled_from([False, False, True]), scalar=st.booleans()))


def law_case():
    def build(n, _scalar):
        # a single position against many, many against many
        sizes = st.sampled_from([(n, n, n), (n, n, n), (1, n, n), (n, 1, 1), (1, 1, n)])
        return sizes.flatmap(lambda t: st.fixed_dictionaries(dict(
            ops=st.tuples(*[_operand(k) for k in t]), kind=st.sampled_from(['nvec', 'ecef']),
            factor=gen.vec(_factor(), n), per=st.booleans(), form=st.integers(0, 7),
            frame=gen.frame())))
    return gen.shaped(build)


def _make(kind, spec, frame):
    """object, components and depths as long doubles"""
    v = np.array(spec['v'], dtype=object).T
    z = np.array(spec['z'], dtype=object)
    if spec['whole']:
        v = np.array([[int(round(min(max(x, -1e6), 1e6))) for x in row] for row in v.tolist()],
                     dtype=np.int64)
        z = np.array([int(round(min(max(x, -1e6), 1e6))) for x in z.tolist()], dtype=np.int64)
    else:
        v, z = v.astype(float), z.astype(float)
    if kind == 'ecef':
        one = v.shape[1] == 1
        obj = ECEFvector(v.copy(), frame, scalar=spec['scalar'] if one else None)
        return obj, v.astype(LD), None
    if spec['one_z']:
        z = z[:1]
        return Nvector(v.copy(), z[0].item(), frame=frame), v.astype(LD), z.astype(LD)
    return Nvector(v.copy(), z.copy(), frame=frame), v.astype(LD), z.astype(LD)


def parts(kind, obj):
    if kind == 'ecef':
        return [arr(attr(obj, 'pvector'))]
    return [arr(attr(obj, 'normal')), np.atleast_1d(arr(attr(obj, 'z')))]


@facet('C39', 'componentwise', law_case(), 6000,
       rule='+, -, unary - of Nvector and ECEFvector objects of one or many positions (also one '
            'with many), * and / of Nvector by numbers of all types and by one number per '
            'position, in-place forms and sum(); whole numbers as int64, depths as one number or '
            'one each; oracle: long double componentwise; kind, frame, scalar and operands; '
            'commutes; non-trivial: two different operands, not all zero')
def laws(case, rec):
    kind, frame = case['kind'], mkframe(case['frame'])
    made = [_make(kind, s, frame) for s in case['ops']]
    objs = [m[0] for m in made]
    before = [[p.copy() for p in parts(kind, o)] for o in objs]
    (a, va, za), (b, vb, zb), (c, vc, zc) = made
    cls = type(a)

    def judge(what, got, v, z, size=None, dsize=None, ulps=1.0):
        """size: magnitude of what was added up, for the error of more than one operation"""
        rec.true(what + ': kind', type(got) is cls, type(got))
        same_frame(rec, what + ': frame', got, frame)
        parts_got = parts(kind, got)
        rec.true(what + ': shape', parts_got[0].shape == v.shape,
                 parts_got[0].shape)
        rec.close(what + ': components', parts_got[0], v,
                  ulps * EPS * np.abs(v if size is None else size))
        if kind == 'nvec':
            zz = parts_got[1]
            rec.true(what + ': depths', zz.shape in ((1,), (v.shape[1],)), zz.shape)
            if zz.shape != np.shape(z):      # one depth given for all
                rec.true(what + ': depths', np.size(z) == 1, zz)
                z = np.broadcast_to(z, zz.shape)
            rec.close(what + ': depth', zz, z, ulps * EPS * np.abs(z if dsize is None else dsize))

    def scalar_is(what, got, want):
        if kind == 'ecef':
            rec.true(what + ': scalar', bool(attr(got, 'scalar')) == want, attr(got, 'scalar'))
            n = parts(kind, got)[0].shape[1]
            if n == 1:
                rec.true(what + ': length', is_scalar(got.length) == want, got.length)

    none = LD(0)
    zs = (none, none, none) if kind == 'ecef' else (za, zb, zc)
    sa, sb = (bool(a.scalar), bool(b.scalar)) if kind == 'ecef' else (None, None)
    plus, minus = a + b, a - b
    judge('a + b', plus, va + vb, zs[0] + zs[1])
    judge('b + a', b + a, va + vb, zs[0] + zs[1])
    judge('a - b', minus, va - vb, zs[0] - zs[1])
    judge('a + (-b)', a + (-b), va - vb, zs[0] - zs[1])
    judge('-a', -a, -va, -zs[0])
    judge('-(-a)', -(-a), va, zs[0])
    judge('a - a', a - a, 0 * va, 0 * zs[0])
    for what, got, want in (('a + b', plus, sa and sb), ('a - b', minus, sa and sb), ('-a', -a, sa)):
        scalar_is(what, got, want)
    size = np.abs(va) + np.abs(vb) + np.abs(vc)
    dsize = np.abs(zs[0]) + np.abs(zs[1]) + np.abs(zs[2])
    judge('(a + b) + c', plus + c, va + vb + vc, zs[0] + zs[1] + zs[2], size, dsize, 2)
    judge('a + (b + c)', a + (b + c), va + vb + vc, zs[0] + zs[1] + zs[2], size, dsize, 2)
    judge('a - b + c', minus + c, va - vb + vc, zs[0] - zs[1] + zs[2], size, dsize, 2)
    acc = a
    acc += b
    judge('a += b', acc, va + vb, zs[0] + zs[1])
    acc -= c
    judge('a -= c', acc, va + vb - vc, zs[0] + zs[1] - zs[2], size, dsize, 2)
    if kind == 'nvec':
        n = max(va.shape[1], 1)
        fac = case['factor'][:n]
        if case['per'] and len(fac) == n and n > 1:
            s = np.array(fac, dtype=float)
            ld = s.astype(LD)
            rec.label('factor_each')
            left = False
        else:
            s = fac[0]
            form = case['form']
            if isinstance(s, int):
                s = [s, np.int64(s), np.float64(s), float(s)][form % 4]
            else:
                s = [s, np.float64(s), np.float32(s), np.array(s)][form % 4]
            ld = LD(float(s))
            left = not isinstance(s, (np.ndarray, np.generic))
            rec.label('factor_' + type(s).__name__)
        u = 2.0 if isinstance(s, np.float32) else 1.0
        judge('a * s', a * s, va * ld, za * ld, ulps=u)
        judge('a / s', a / s, va / ld, za / ld, ulps=u)
        if left:
            judge('s * a', s * a, va * ld, za * ld)
        acc = a
        acc *= s
        judge('a *= s', acc, va * ld, za * ld, ulps=u)
        acc = a
        acc /= s
        judge('a /= s', acc, va / ld, za / ld, ulps=u)
        judge('(a * s) / s', (a * s) / s, va, za, ulps=4)
        judge('(a + b) * s', (a + b) * s, (va + vb) * ld, (za + zb) * ld, ulps=4)
        for what, fun in (('a * b', operator.mul), ('a / b', operator.truediv)):
            try:
                fun(a, b)
            except NotImplementedError:
                rec.true(what, True)
            else:
                rec.fail(what, 'accepted')
    for what, o, old in zip('abc', objs, before):
        for got, want in zip(parts(kind, o), old):
            rec.same('operand %s unchanged' % what, got, want)
    rec.label(kind, 'one' if va.shape[1] == vb.shape[1] == 1 else
              'mixed' if va.shape[1] != vb.shape[1] else 'many')
    rec.nontrivial = bool(np.any(va != 0) and np.any(vb != 0)
                          and (va.shape != vb.shape or np.any(va != vb)))


# what the operations mean --------------------------------------------------------------
def geo_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            pair=gen.pair_n(n, scalar, sep=gen.moderate_separation(), z=gen.depth(-1e6, 3e6)),
            frame=gen.earth_like(), t=st.integers(1, 9), s=_factor().map(abs)))
    return gen.shaped(build)


@facet('C39', 'meaning', geo_case(), 3000,
       rule='p_EB - p_EA = delta_to, p_EA + delta = p_EB, delta reversed = -delta, and back to '
            'latitude, longitude and depth; sum of n-vectors weighted (1-t), t = the point on the '
            'line of interpolation; sum / n = mean; non-trivial: the positions differ')
def meaning(case, rec):
    p1, p2 = case['pair']
    spec = case['frame']
    frame = mkframe(spec)
    a, f, axes = ellipsoid_of(spec)
    A, B = mkpoint(p1, frame, spec), mkpoint(p2, frame, spec)
    k = len(p1['lat'])
    e1, e2 = A.to_ecef_vector(), B.to_ecef_vector()
    c1, c2 = canon_p(p1, spec), canon_p(p2, spec)
    tol = 40 * EPS * (LD(a) * 2 + np.max(np.abs(c1)) + np.max(np.abs(c2)))
    C = ref.C[axes]
    d = e2 - e1
    rec.close('p_EB - p_EA', d.pvector, C @ (c2 - c1), tol)
    delta = A.delta_to(B)
    if isinstance(delta, ECEFvector):
        rec.close('delta_to', delta.pvector, d.pvector, tol)
        rec.close('-delta', (-delta).pvector, B.delta_to(A).pvector, tol)
    e3 = e1 + d
    rec.close('p_EA + (p_EB - p_EA)', e3.pvector, C @ c2, tol)
    if k == 1:
        # the same step expressed in the local frame of the first position
        step = d.change_frame(FrameN(A))
        rec.close('step given in N', (e1 + step.to_ecef_vector()).pvector, C @ c2, tol)
    back = e3.to_nvector()
    n2 = canon(p2)
    err = np.linalg.norm((normal(back, axes) - n2).astype(float), axis=0)
    rec.bound('position reached', err, tol / LD(a) * 50)
    v1, v2 = A.to_nvector(), B.to_nvector()
    t = LD(case['t']) / 10
    n1 = canon(p1)
    mix = v1 * (1 - case['t'] / 10.) + v2 * (case['t'] / 10.)
    want = n1 * (1 - t) + n2 * t
    rec.close('weighted sum', mix.normal, C @ want, 40 * EPS)
    z1, z2 = [np.array(q['z'], dtype=LD) for q in (p1, p2)]
    ztol = 40 * EPS * (LD(a) + np.abs(z1) + np.abs(z2))
    rec.close('depth of weighted sum', flat(mix.z, k), z1 * (1 - t) + z2 * t, ztol)
    length = np.sqrt(np.sum(want * want, axis=0))
    if np.all(length > 1e-3):
        mix.unit()
        rec.close('its position', mix.normal, C @ (want / length), 200 * EPS / length)
        if k == 1 and p1['scalar']:
            mid = GeoPath(A, B).interpolate(case['t'] / 10.)
            rec.close('GeoPath.interpolate', mid.to_nvector().normal, mix.normal,
                      200 * EPS / length)
    half = (v1 + v2) / 2
    if k == 1 and np.all(np.abs(n1 + n2).max(axis=0) > 1e-3):
        both = Nvector(np.hstack([v1.normal, v2.normal]), np.hstack([v1.z, v2.z]), frame=frame)
        mean = both.mean()
        half.unit()
        gap = np.sqrt(np.sum((n1 + n2) ** 2))
        rec.close('mean', mean.normal, half.normal, 100 * EPS / gap)
        rec.close('mean depth', flat(mean.z, 1), flat(half.z, 1), ztol)
    rec.label(p1['kind'] + '_' + p2['kind'])
    rec.nontrivial = bool(np.any(c1 != c2))
