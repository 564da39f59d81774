"""C28 length, azimuth and elevation"""
import numpy as np
import nvector as nv
from nvector import ECEFvector, FrameN, FrameL, FrameB, GeoPoint, Pvector
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr, attr
from pbt.nv import mkframe, ellipsoid_of, flat, is_scalar


@gen.memo
def _vec(n):
    comp = st.one_of(st.floats(-1, 1).map(lambda x: x if abs(x) > 1e-18 else 0.0),
                     gen.signed_logu(1e-16, 1.0), st.sampled_from([0.0, -0.0, 1.0, -1.0]))
    return gen.vec(st.tuples(comp, comp, comp, gen.logu(1e-6, 1e9)).map(_fix), n)


def _fix(t):
    v = [float(x * t[3]) for x in t[:3]]
    return v if any(v) else [0.0, 0.0, t[3]]


def vec_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            v=_vec(n), scalar=st.just(scalar), local=st.sampled_from(['E', 'E', 'N', 'L', 'B']),
            lat=gen.lat_deg(), lon=gen.lon_deg(), ypr=gen.vec(gen.angle_deg(), 3),
            whole=st.sampled_from([0, 0, 0, 1, 1000]), frame=gen.frame(), via=st.sampled_from(['direct', 'change', 'pvector'])))
    return gen.shaped(build)


@facet('C28', 'polar form', vec_case(), 8000,
       rule='length, azimuth(_deg) and elevation(_deg) of vectors of 1e-6 to 1e9 m in all '
            'directions (axes, octants, near vertical; also whole metres up to 1e12) in E, N, L and B, scalar and vector; '
            'oracle: long double; ranges; the vector reconstructed from them; non-trivial: at '
            'least two non-zero components')
def polar(case, rec):
    v = np.array(case['v']).T
    if case['whole']:                # whole metres, to interplanetary distances
        v = np.rint(v * case['whole']).astype(np.int64)
        v[2, ~np.any(v, axis=0)] = 1
        rec.label('whole')
    k = v.shape[1]
    frame = mkframe(case['frame'])
    sc = case['scalar']
    point = GeoPoint(case['lat'], case['lon'], 0, frame, degrees=True)
    y, p, r = case['ypr']
    if case['local'] == 'E':
        obj = ECEFvector(v, frame, scalar=sc) if k == 1 else ECEFvector(v, frame)
    else:
        local = {'N': lambda: FrameN(point), 'L': lambda: FrameL(point, np.deg2rad(y)),
                 'B': lambda: FrameB(point, y, p, r, degrees=True)}[case['local']]()
        if case['via'] == 'change':
            src = ECEFvector(v, frame, scalar=sc) if k == 1 else ECEFvector(v, frame)
            obj = src.change_frame(local)
        else:
            obj = local.Pvector(v)
            if k == 1:
                sc = True
    if k == 1 and not (case['local'] != 'E' and case['via'] != 'change'):
        rec.true('scalar property', bool(attr(obj, 'scalar')) == sc, attr(obj, 'scalar'))
    pv = arr(attr(obj, 'pvector'))
    rec.true('3 x n', pv.shape == (3, k), pv.shape)
    if case['local'] != 'E' and case['via'] != 'change' or case['local'] == 'E':
        rec.same('vector kept', pv, v)
    x, yy, z = pv.astype(LD)
    length, az, el = attr(obj, 'length'), attr(obj, 'azimuth'), attr(obj, 'elevation')
    azd, eld = attr(obj, 'azimuth_deg'), attr(obj, 'elevation_deg')
    for name, val in (('length', length), ('azimuth', az), ('elevation', el),
                      ('azimuth_deg', azd), ('elevation_deg', eld)):
        if k == 1 and sc:
            rec.true(name + ' is a scalar', is_scalar(val), repr(val))
        else:
            rec.true(name + ' is a vector', np.shape(val) == (k,), np.shape(val))
    length, az, el, azd, eld = [flat(q, k) for q in (length, az, el, azd, eld)]
    L = np.sqrt(x * x + yy * yy + z * z)
    h = np.hypot(x, yy)
    rec.close('length', length, L, 6 * EPS * L)
    hor = h > 0
    rec.close('azimuth', np.where(hor, az, 0), np.where(hor, np.arctan2(yy, x), 0), 8 * EPS,
              angle=True)
    rec.true('azimuth range', np.abs(az) <= np.pi * (1 + EPS), az)
    # arcsin of a ratio carries eps / cos(elevation), at most sqrt(2 eps ...) near the vertical
    ratio = np.where(h > 0, L / np.where(h > 0, h, 1), LD(1e300))
    tol_el = np.minimum(8 * EPS * ratio, 6e-8)
    rec.close('elevation', el, np.arctan2(z, h), tol_el + 8 * EPS)
    rec.true('elevation range', np.abs(el) <= np.pi / 2 * (1 + EPS), el)
    rec.close('azimuth_deg', azd, az * 180 / ref.PI, 1e-13)
    rec.close('elevation_deg', eld, el * 180 / ref.PI, 1e-13)
    back = length * np.stack([np.cos(el) * np.cos(az), np.cos(el) * np.sin(az), np.sin(el)])
    rec.close('reconstructed', back, np.stack([x, yy, z]), L * (24 * EPS + 2 * tol_el))
    if np.any(ratio > 1e6):
        rec.label('near_vertical')
    rec.label('frame_' + case['local'], 'scalar' if k == 1 and sc else 'vector')
    rec.nontrivial = bool(np.any(np.sum(v != 0, axis=0) > 1))
