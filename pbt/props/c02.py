"""C02 position and depth -> ECEF"""
import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import mkframe, mkpoint, ellipsoid_of, canon, pvec, same_frame


# also bodies far from a sphere
FLAT = st.one_of(*[gen.flattening(0.2)] * 5 + [st.floats(-2, 0.95)])


def func_case():
    return gen.sized(lambda n: st.fixed_dictionaries(dict(
        n=gen.unit_vec(n), z=gen.vec(gen.depth(), n), a=gen.semi_major(), f=FLAT,
        R=gen.R_Ee(), zform=st.sampled_from(['vec', 'row', 'scalar', 'list', 'none']),
        defaults=st.sampled_from(['none', 'none', 'none', 'af', 'f']),
        style=st.sampled_from(['kw', 'pos']))))


@facet('C02', 'function', func_case(), 8000,
       rule='n_EB_E2p_EB_E: random unit n-vectors (also axis-aligned), depth -1e8..3e6 m as '
            'scalar/vector/1 x n row/omitted, a 1e3..1e9, f mostly -0.2..0.2, also -2..0.95, or defaults, any R_Ee; '
            'non-trivial: depth != 0 and f != 0 and a vector off the axes')
def function(case, rec):
    R, C = gen.get_R(case['R'])
    k = len(case['n'])
    nE = ref.f64(C @ ref.ld(case['n']).T)
    Rm = ref.R_E['e'] if R is None else R
    C64 = ref.mat(Rm)
    z = np.array(case['z'])
    zform = case['zform']
    if zform == 'scalar':
        z = np.full(k, z[0])
    elif zform == 'none':
        z = np.zeros(k)
    arg = {'vec': z, 'row': z.reshape(1, -1), 'scalar': float(z[0]), 'list': z,
           'none': 0}[zform]
    a, f = case['a'], case['f']
    kw = {}
    if case['defaults'] == 'af':
        a, f = 6378137.0, 1 / 298.257223563
    elif case['defaults'] == 'f':
        f = 1 / 298.257223563
        kw['a'] = a
    else:
        kw['a'], kw['f'] = a, f
    if R is not None:
        kw['R_Ee'] = R
    if zform != 'none':
        kw['depth'] = arg
    if case['style'] == 'pos' and len(kw) == 4:
        p = nv.n_EB_E2p_EB_E(nE, arg, a, f, R)
    else:
        p = nv.n_EB_E2p_EB_E(nE, **kw)
    # canonical direction of the vector actually passed (R_Ee is orthonormal to rounding)
    g = C64.T @ nE.astype(LD)
    want = C64 @ ref.ecef(g, z, a, f)
    b = a * (1 - f)
    scale = max(a, b, a * a / b, b * b / a) + np.abs(z)      # b, and the radii of curvature
    rec.close('p_EB_E', p, want, 16 * EPS * scale * np.ones((3, 1)))
    rec.label('zform_' + zform, 'defaults_' + case['defaults'], 'R_%s' %
              (case['R'] if gen.is_perm(case['R']) else 'rotated'))
    if f == 0:
        rec.label('sphere')
    if f < 0:
        rec.label('prolate')
    rec.nontrivial = bool(np.any(z != 0)) and f != 0 and \
        any(sum(abs(x) > 1e-6 for x in v) >= 2 for v in case['n'])


def obj_case():
    return st.fixed_dictionaries(dict(p=gen.point(kinds=('geo', 'nvec')), frame=gen.frame(),
                                      bare=st.booleans()))


@facet('C02', 'objects', obj_case(), 4000,
       rule='GeoPoint/Nvector.to_ecef_vector in default, named and custom frames, both axes; '
            'non-trivial: depth != 0 and latitude off equator and poles')
def objects(case, rec):
    pt, spec = case['p'], case['frame']
    a, f, axes = ellipsoid_of(spec)
    if not spec and case['bare']:
        frame = None                      # default frame of the classes
        obj = mkpoint(pt, None, {})
        rec.label('default_frame')
    else:
        frame = mkframe(spec)
        obj = mkpoint(pt, frame, spec)
    v = obj.to_ecef_vector()
    rec.true('type', isinstance(v, nv.ECEFvector), type(v))
    z = np.array(pt['z'])
    want = ref.ecef(canon(pt), z, a, f)
    rec.close('pvector', pvec(v, axes), want, 20 * EPS * (a + np.abs(z)) * np.ones((3, 1)))
    if frame is not None:
        same_frame(rec, 'frame kept', v, frame)
    else:
        rec.close('default a', v.frame.a, 6378137.0, 0)
        rec.close('default f', v.frame.f, 1 / 298.257223563, 4 * EPS * 0.0034)
    rec.label('kind_' + pt['kind'], 'axes_' + axes)
    rec.nontrivial = any(zi != 0 and 0.01 < abs(la) < 89.99 for zi, la in zip(pt['z'], pt['lat']))
