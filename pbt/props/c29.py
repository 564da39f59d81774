"""C29 only the direction of an n-vector matters"""
import warnings

import numpy as np
import nvector as nv
from nvector import Nvector, FrameN, FrameB
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import mkframe, ellipsoid_of, tup, rads, geo_parts, pvec


@gen.memo
def scale():
    return st.one_of(st.floats(0.9, 1.1), gen.logu(1e-100, 1e100), gen.logu(0.5, 2.0),
                     gen.logu(0.01, 100.0),
                     st.sampled_from([1.0, 0.5, 2.0, 0.95, 1.05, 1.2, 0.8, 1e-6, 1e6, 0.891, 1.109]))


def warned(fun):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        out = fun()
    return out, any('n-vector' in str(w.message) or issubclass(w.category, UserWarning)
                    for w in caught)


def func_case():
    def build(n):
        return st.fixed_dictionaries(dict(
            lat=gen.vec(gen.lat_rad(), n), lon=gen.vec(gen.lon_rad(), n), z=gen.vec(gen.depth(), n),
            scale=gen.vec(scale(), n), R=gen.R_Ee(), wa=gen.lon_rad(), a=gen.semi_major(),
            f=gen.flattening(), az_lat=gen.vec(gen.lat_deg(), n), az_lon=gen.vec(gen.lon_deg(), n),
            fun=st.sampled_from(['n_E2lat_lon', 'n_E2R_EN', 'n_E_and_wa2R_EL', 'n_EB_E2p_EB_E',
                                 'azimuth'])))
    return gen.sized(build)


@facet('C29', 'functions', func_case(), 8000,
       rule='n_E2lat_lon, n_E2R_EN, n_E_and_wa2R_EL, n_EB_E2p_EB_E, n_EA_E_and_n_EB_E2azimuth: '
            'result for columns scaled by 1e-100 to 1e100 against the result for the unit '
            'vectors, any R_Ee; warning exactly when the first column is off by more than 0.1; '
            'non-trivial: a factor other than 1')
def func(case, rec):
    R, _C = gen.get_R(case['R'])
    C = ref.mat(ref.R_E['e'] if R is None else R)
    kw = {} if R is None else dict(R_Ee=R)
    g = ref.nvec(case['lat'], case['lon'])
    n = ref.f64(C @ g)
    s = np.array(case['scale'])
    m = n * s
    k = n.shape[1]
    h = np.hypot(g[0], g[1])
    # rotation by an arbitrary R_Ee rounds: relative to the distance from the poles
    off = h > (0 if gen.is_perm(case['R']) else 1e-9)
    hh = np.where(off, h, 1)
    noise = 16 * EPS if gen.is_perm(case['R']) else 16 * EPS + 32 * EPS / hh
    fun = case['fun']
    if fun == 'n_E2lat_lon':
        (la, lo), w0 = warned(lambda: nv.n_E2lat_lon(n, **kw))
        (la2, lo2), w = warned(lambda: nv.n_E2lat_lon(m, **kw))
        rec.close('latitude', la2, la, 16 * EPS)
        rec.close('longitude', np.where(off, lo2, 0), np.where(off, lo, 0), noise, angle=True)
    elif fun in ('n_E2R_EN', 'n_E_and_wa2R_EL'):
        f = (lambda v: nv.n_E2R_EN(v, **kw)) if fun == 'n_E2R_EN' else \
            (lambda v: nv.n_E_and_wa2R_EL(v, case['wa'], **kw))
        R1, w0 = warned(lambda: f(n))
        R2, w = warned(lambda: f(m))
        R1, R2 = arr(R1).reshape(3, 3, k), arr(R2).reshape(3, 3, k)
        rec.close('rotation matrix', np.where(off, R2, 0), np.where(off, R1, 0), 2 * noise * np.ones(k))
        rec.close('down axis', R2[:, 2], R1[:, 2], 16 * EPS)
    elif fun == 'n_EB_E2p_EB_E':
        a, fl = case['a'], case['f']
        p1, w0 = warned(lambda: nv.n_EB_E2p_EB_E(n, depth=np.array(case['z']), a=a, f=fl, **kw))
        p2, w = warned(lambda: nv.n_EB_E2p_EB_E(m, depth=np.array(case['z']), a=a, f=fl, **kw))
        rec.close('ECEF vector', p2, p1, 32 * EPS * (a + np.abs(case['z'])))
    else:
        gb = ref.nvec(rads(case['az_lat']), rads(case['az_lon']))
        nb = ref.f64(C @ gb)
        a, fl = case['a'], case['f']
        s2 = s[::-1]
        z1, w0 = warned(lambda: nv.n_EA_E_and_n_EB_E2azimuth(n, nb, a=a, f=fl, **kw))
        z2, w = warned(lambda: nv.n_EA_E_and_n_EB_E2azimuth(m, nb * s2, a=a, f=fl, **kw))
        pa, pb = ref.ecef(g, ref.ld(0), 1.0, fl), ref.ecef(gb, ref.ld(0), 1.0, fl)
        _az, hor = ref.chord_azimuth(pa, pb, g)
        ok = off & (hor > 1e-6)
        rec.close('azimuth', np.where(ok, z2, 0), np.where(ok, z1, 0),
                  2 * noise + 64 * EPS / np.where(ok, hor, 1), angle=True)
    rec.label(fun)
    dev = abs(float(ref.norm(m[:, :1].astype(LD))[0]) - 1)
    rec.true('no warning for unit vectors', not w0, 'warned')
    if dev > 0.1 + 1e-9:
        rec.true('warning for length %g' % (dev + 1), w, 'no warning for length %r' % s[0])
        rec.label('warned')
    elif dev < 0.1 - 1e-9 and fun != 'azimuth':
        rec.true('no warning for length within 0.1', not w, 'warned for length %r' % s[0])
    elif dev < 0.1 - 1e-9 and abs(s[::-1][0] - 1) < 0.1 - 1e-9:
        rec.true('no warning for length within 0.1', not w, 'warned')
    rec.nontrivial = bool(np.any(s != 1))


def obj_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            lat=gen.vec(gen.lat_deg(), n), lon=gen.vec(gen.lon_deg(), n), z=gen.vec(gen.depth(), n),
            scale=gen.vec(scale(), n), frame=gen.frame(), scalar=st.just(scalar),
            ypr=gen.vec(gen.angle_deg(), 3)))
    return gen.shaped(build, maxn=8)


@facet('C29', 'objects', obj_case(), 4000,
       rule='Nvector objects with scaled normals: to_geo_point, to_ecef_vector, FrameN and FrameB '
            'axes equal those of the unit vectors; warning as above; non-trivial: a factor other '
            'than 1')
def obj(case, rec):
    a, f, axes = ellipsoid_of(case['frame'])
    frame = mkframe(case['frame'])
    n = ref.f64(ref.C[axes] @ ref.nvec(rads(case['lat']), rads(case['lon'])))
    s = np.array(case['scale'])
    z = np.clip(np.array(case['z']), -1e3 * a, 0.2 * a)
    k = n.shape[1]
    zz = float(z[0]) if case['scalar'] else z
    A, B = Nvector(n, zz, frame), Nvector(n * s, zz, frame)
    dev = abs(float(ref.norm((n * s)[:, :1].astype(LD))[0]) - 1)

    def judge_warning(name, w):
        if dev > 0.1 + 1e-9:
            rec.true('warning from ' + name, w, 'none for length %r' % s[0])
        elif dev < 0.1 - 1e-9:
            rec.true('no warning from ' + name, not w, 'warned for length %r' % s[0])
    ga = A.to_geo_point()
    gb, w = warned(B.to_geo_point)
    judge_warning('to_geo_point', w)
    for name, x, y in zip(('latitude', 'longitude', 'z'), geo_parts(gb), geo_parts(ga)):
        rec.close(name, x, y, 16 * EPS if name != 'z' else 0, angle=name != 'z')
    pa = A.to_ecef_vector()
    pb, w = warned(B.to_ecef_vector)
    judge_warning('to_ecef_vector', w)
    rec.close('ECEF vector', pvec(pb), pvec(pa), 32 * EPS * (a + np.abs(z)))
    (y, p, r) = case['ypr']
    for name, mk in (('FrameN', lambda q: FrameN(q).R_EN),
                     ('FrameB', lambda q: FrameB(q, y, p, r, degrees=True).R_EN)):
        Ra = mk(A)
        Rb, w = warned(lambda: mk(B))
        judge_warning(name, w)
        rec.close(name, arr(Rb).reshape(3, 3, k), arr(Ra).reshape(3, 3, k), 32 * EPS)
    rec.nontrivial = bool(np.any(s != 1))
