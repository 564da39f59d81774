"""C04 difference vectors"""
import numpy as np
import nvector as nv
from nvector import delta_E
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import (mkframe, mkpoint, ellipsoid_of, canon, canon_p, pvec, same_frame, tup, flat,
                    geo_n, normal)


def func_case():
    return gen.sized(lambda n: st.fixed_dictionaries(dict(
        na=gen.unit_vec(n), nb=gen.unit_vec(n), za=gen.vec(gen.depth(), n),
        zb=gen.vec(gen.depth(), n), a=gen.semi_major(), f=gen.flattening(), R=gen.R_Ee(),
        defaults=st.sampled_from([False, False, True]),
        zform=st.sampled_from(['vec', 'vec', 'row', 'scalar', 'only_a', 'only_b', 'none']),
        one=st.sampled_from(['no', 'no', 'a', 'b']))))


@facet('C04', 'functions', func_case(), 5000,
       rule='n_EA_E_and_n_EB_E2p_AB_E against the exact ECEF difference, then '
            'n_EA_E_and_p_AB_E2n_EB_E back to B; depths in all forms and omitted, one-to-many; '
            'non-trivial: different horizontal positions and depths, f != 0')
def functions(case, rec):
    R, _C = gen.get_R(case['R'])
    C = ref.mat(ref.R_E['e'] if R is None else R)
    nA = ref.f64(C @ ref.ld(case['na']).T)
    nB = ref.f64(C @ ref.ld(case['nb']).T)
    za, zb = np.array(case['za']), np.array(case['zb'])
    if case['one'] == 'a':
        nA, za = nA[:, :1], za[:1]
    elif case['one'] == 'b':
        nB, zb = nB[:, :1], zb[:1]
    a, f = case['a'], case['f']
    kw = dict(a=a, f=f)
    if case['defaults']:
        a, f, kw = 6378137.0, 1 / 298.257223563, {}
    if R is not None:
        kw['R_Ee'] = R
    zf = case['zform']
    if zf in ('only_b', 'none'):
        za = 0 * za
    if zf in ('only_a', 'none'):
        zb = 0 * zb
    if zf == 'scalar':
        za, zb = np.full(za.shape, za[0]), np.full(zb.shape, zb[0])
    zkw = {}
    conv = dict(vec=lambda z: z, row=lambda z: z.reshape(1, -1),
                scalar=lambda z: float(z[0])).get(zf, lambda z: z)
    if zf not in ('only_b', 'none'):
        zkw['z_EA'] = conv(za)
    if zf not in ('only_a', 'none'):
        zkw['z_EB'] = conv(zb)
    p = arr(nv.n_EA_E_and_n_EB_E2p_AB_E(nA, nB, **dict(zkw, **kw)))
    pa = ref.ecef(C.T @ nA.astype(LD), za, a, f)
    pb = ref.ecef(C.T @ nB.astype(LD), zb, a, f)
    scale = a + np.maximum(np.abs(za), np.abs(zb)) * np.ones(max(nA.shape[1], nB.shape[1]))
    rec.close('p_AB_E', p, C @ (pb - pa), 32 * EPS * scale * np.ones((3, 1)))
    # back: B from A and the exact difference
    zb_ok = np.clip(zb, -1e3 * a, 0.2 * a)
    pb2 = ref.ecef(C.T @ nB.astype(LD), zb_ok, a, f)
    pab = ref.f64(C @ (pb2 - pa))
    kz = {} if 'z_EA' not in zkw else dict(z_EA=zkw['z_EA'])
    n2, z2 = tup(nv.n_EA_E_and_p_AB_E2n_EB_E(nA, pab, **dict(kz, **kw)), 2)
    k = pab.shape[1]
    n2, z2 = arr(n2).astype(LD), flat(z2, k)
    scale = np.maximum(a + np.abs(za), np.abs(zb_ok)) * np.ones(k)
    rec.bound('B recovered', ref.norm(ref.ecef(C.T @ n2, z2, a, f) - pb2) / scale, 128 * EPS)
    rec.bound('n_EB_E unit', ref.norm(n2) - 1, 4 * EPS)
    rec.bound('z_EB recovered', (z2 - zb_ok) / scale, 128 * EPS)
    rec.label('zform_' + zf, 'one_' + case['one'])
    rec.nontrivial = f != 0 and case['na'] != case['nb'] and bool(np.any(za != zb))


def chain_case():
    def build(n, scalar):
        pts = st.lists(gen._point(n, scalar, gen.lat_deg(), gen.lon_deg(), gen.depth(), gen.KINDS),
                       min_size=2, max_size=5)
        return st.fixed_dictionaries(dict(pts=pts, frame=gen.frame(),
                                          near=gen.vec(gen.separation(), n),
                                          az=gen.vec(gen.angle_deg(False), n)))
    return gen.shaped(build, maxn=6)


@facet('C04', 'objects', chain_case(), 4000,
       rule='chains of 2..5 positions of mixed types (one pair at a controlled separation): '
            'delta_E and delta_to agree with exact differences, antisymmetry, sums along the '
            'chain, A + delta gives B, negation; non-trivial: >= 2 types or >= 3 points')
def objects(case, rec):
    spec = case['frame']
    a, f, axes = ellipsoid_of(spec)
    frame = mkframe(spec)
    pts = list(case['pts'])
    # deep in the interior the inverse is not defined: keep ECEF based points above
    pts = [dict(p, z=[float(np.clip(z, -1e3 * a, 0.2 * a)) for z in p['z']]) for p in pts]
    la, lo = gen.move(pts[0]['lat'], pts[0]['lon'], case['az'], case['near'])
    pts.append(dict(pts[0], lat=la, lon=lo))
    objs = [mkpoint(p, frame, spec) for p in pts]
    exact = [canon_p(p, spec) for p in pts]
    # an ECEF vector is given rounded: that is its value
    for i, p in enumerate(pts):
        if p['kind'] == 'ecef':
            exact[i] = pvec(objs[i], axes)
    scale = a + max(abs(z) for p in pts for z in p['z'])
    tol = 48 * EPS * scale
    total = None
    for i in range(len(pts) - 1):
        d = delta_E(objs[i], objs[i + 1])
        rec.true('type', isinstance(d, nv.ECEFvector), type(d))
        same_frame(rec, 'frame', d, frame)
        rec.close('delta_E', pvec(d, axes), exact[i + 1] - exact[i], tol)
        rec.close('antisymmetric', delta_E(objs[i + 1], objs[i]).pvector, -pvec(d), 2 * EPS * scale)
        rec.close('negation', (-d).pvector, -pvec(d), 0)
        same_frame(rec, 'frame of the negation', -d, frame)
        ea, eb = objs[i].to_ecef_vector(), objs[i + 1].to_ecef_vector()
        rec.close('subtraction', (eb - ea).pvector, pvec(d), 2 * EPS * scale)
        b = ea + d
        same_frame(rec, 'frame of the difference', eb - ea, frame)
        same_frame(rec, 'frame of the sum', b, frame)
        rec.close('A + delta', pvec(b, axes), exact[i + 1], tol)
        g = b.to_geo_point()
        rec.bound('B horizontal', ref.norm(geo_n(g) - canon(pts[i + 1])), 128 * EPS * scale / a)
        rec.close('B depth', arr(g.z).ravel(), pts[i + 1]['z'], 2 * tol)
        total = d if total is None else total + d
    rec.close('sum along the chain', pvec(total, axes), exact[-1] - exact[0], 5 * tol)
    rec.label('axes_' + axes, *['kind_' + p['kind'] for p in pts])
    rec.nontrivial = len(pts) > 3 or len(set(p['kind'] for p in pts)) > 1
