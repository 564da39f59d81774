"""C16 on-path and on-great-circle tests"""
import numpy as np
import nvector as nv
from nvector import GeoPath, GeoPoint
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr
from pbt.nv import mkframe, mkpoint, ellipsoid_of, canon, canon_p, flat
from pbt.props.c09 import geod
from pbt.props.c14 import place

R0 = 6371009.0


@gen.memo
def where():
    """place along the path in units of its length"""
    return st.one_of(st.floats(0.02, 0.98), st.floats(0.02, 0.98), st.sampled_from([0.5, 0.001, 0.999]),
                     st.floats(1.001, 3.0), st.floats(-2.0, -0.001), st.floats(-40, 40))


@gen.memo
def factor():
    """cross track offset in units of the tolerance"""
    return st.one_of(st.sampled_from([0.0, 0.0, 0.5, -0.5, 0.9, -0.9, 1.1, -1.1, 2.0, -2.0]),
                     st.floats(-0.9, 0.9), gen.signed_logu(1.1, 1e6))


def func_case():
    def build(n, scalar):
        nvec = dict(z=st.just(0.0), kinds=('nvec',))
        return st.fixed_dictionaries(dict(
            path=gen.pair_n(n, False, free=False, sep=st.one_of(
                st.floats(0.01, 3.0), gen.logu(1e-5, 1.0), st.sampled_from([2.2, 2.9, 2.094395])),
                **nvec),
            where=gen.vec(where(), n), factor=gen.vec(factor(), n), end=st.sampled_from(
                ['no', 'no', 'no', 'A', 'B', 'antiA', 'antimid']),
            atol=gen.logu(1e-9, 1e5), radius=st.one_of(st.none(), gen.semi_major(1.0, 1e9)),
            axes=gen.axes(), one=st.sampled_from(['no', 'no', 'no', 'path'])))
    return gen.shaped(build)


def expected(A, B, P, radius, atol, extra=1.0):
    """(on circle, circle clear, on path, path clear) for long double n-vectors"""
    cr = ref.cross(A, B)
    s = ref.norm(cr)
    c = cr / s
    noise = extra * EPS * (6 + 6 / s)
    d = np.arctan2(np.abs(ref.dot(c, P)), ref.norm(ref.cross(*np.broadcast_arrays(c, P))))
    lim = ref.ld(atol) / radius
    circle = d <= lim
    circle_clear = np.abs(d - lim) > 2 * noise + 1e-13 * lim
    t = ref.cross(c, A)
    th = np.arctan2(ref.dot(B, t), ref.dot(B, A))
    x = np.arctan2(ref.dot(P, t), ref.dot(P, A))
    m = 4 * d ** 2 / s + 64 * extra * EPS / s + 1e-12
    inside = (x >= m) & (x <= th - m)
    x2 = np.where(x < 0, x + 2 * ref.PI, x)
    outside = (x2 > th + m) & (x2 < 2 * ref.PI - m)
    return circle, circle_clear, inside & circle, \
        (circle_clear & ~circle) | (circle_clear & (inside | outside) & (d < 0.1 * s))


@facet('C16', 'functions', func_case(), 8000,
       rule='on_great_circle and on_great_circle_path for paths of 1e-5 rad to 3 rad in all '
            'directions; points at a chosen place along the path (inside, before, beyond, far '
            'side) and a cross track offset of 0 to 1e6 tolerances (never within rounding of the '
            'tolerance), the endpoints themselves; radii and tolerances; non-trivial: a clear '
            'answer for a point other than an endpoint')
def func(case, rec):
    C = ref.C[case['axes']]
    pa, pb = case['path']
    A, B = ref.f64(C @ canon(pa)), ref.f64(C @ canon(pb))
    k = A.shape[1]
    if case['one'] == 'path':
        A, B = A[:, :1], B[:, :1]
    Al, Bl = A.astype(LD), B.astype(LD)
    s = ref.norm(ref.cross(Al, Bl))
    if np.any(s < 5e-6):
        rec.label('degenerate')
        return
    radius = R0 if case['radius'] is None else case['radius']
    kw = {} if case['radius'] is None else dict(radius=radius)
    atol = max(case['atol'], float(np.max(20 * EPS * radius * (6 + 6 / s))))
    th = ref.angle(Al, Bl)
    off = np.clip(np.array(case['factor']) * (atol / radius), -1.5, 1.5)
    along = np.array(case['where']) * th
    P = ref.f64(place(Al, Bl, along, off) * np.ones(k))
    ends = np.zeros(k, dtype=bool)
    if case['end'] in 'AB':
        P[:, 0] = (A if case['end'] == 'A' else B)[:, 0]
        ends[0] = True
        rec.label('endpoint')
    elif case['end'] == 'antiA':
        P[:, 0] = -A[:, 0]
    elif case['end'] == 'antimid':
        P[:, 0] = ref.f64(-ref.unit(Al + Bl))[:, 0]
    circle, cc, path, pc = [np.broadcast_to(v, (k,)) for v in
                            expected(Al, Bl, P.astype(LD), radius, atol)]
    got = arr(nv.on_great_circle((A, B), P, atol=atol, **kw)).ravel()
    rec.true('size', got.size == k, got.shape)
    rec.true('bool', got.dtype == bool, got.dtype)
    rec.true('on_great_circle', (got == circle) | ~cc, (got, circle, cc))
    got = arr(nv.on_great_circle_path((A, B), P, atol=atol, **kw)).ravel()
    rec.true('size', got.size == k, got.shape)
    rec.true('bool', got.dtype == bool, got.dtype)
    rec.true('on_great_circle_path', (got == path) | ~pc | ends, (got, path, pc))
    rec.true('endpoints are on the path', got[ends], got)
    clear = pc & ~ends
    if np.any(clear & path):
        rec.label('on_path')
    if np.any(clear & circle & ~path):
        rec.label('on_the_circle_outside_the_path')
    if np.any(cc & ~circle):
        rec.label('off_the_circle')
    if np.any(th > 2 * np.pi / 3):
        rec.label('longer_than_120_degrees')
    rec.nontrivial = bool(np.any(clear))


def obj_case():
    def build(n, scalar):
        z = st.one_of(st.just(0.0), gen.depth(-1e6, 1e5), st.sampled_from([100.0, -5000.0]))
        return st.fixed_dictionaries(dict(
            path=gen.pair_n(n, scalar, free=False, z=z, sep=st.one_of(
                st.floats(0.01, 3.0), gen.logu(1e-4, 1.0))),
            where=gen.vec(where(), n), factor=gen.vec(factor(), n),
            dz=st.sampled_from([0.0, 0.0, 0.0, 1.0, -1.0, 1e-2, 1e3]),
            atol=gen.logu(1e-8, 1e4), frame=gen.frame(1e5, 1e8),
            tol=st.one_of(st.none(), st.tuples(
                st.one_of(st.just(0.0), gen.logu(1e-12, 1e-3)),
                st.sampled_from([0.0, 0.3, -0.3, 3.0, -3.0])).map(list)),
            kinds=st.tuples(*[st.sampled_from(gen.KINDS)] * 3),
            method=st.sampled_from([None, 'greatcircle', 'great'])))
    return gen.shaped(build, maxn=6)


@facet('C16', 'GeoPath great circle', obj_case(), 5000,
       rule='GeoPath.on_great_circle and on_path(method="greatcircle") for all position types, '
            'frames, depths (point at the mean depth, or off it by a third of or three times the '
            'tolerances, given or default); same oracle with the mean endpoint radius; non-trivial: a clear answer')
def gc_obj(case, rec):
    spec = case['frame']
    a, f, axes = ellipsoid_of(spec)
    pa, pb = [dict(p, kind=kd, z=[float(np.clip(z, -a, 0.1 * a)) for z in p['z']])
              for p, kd in zip(case['path'], case['kinds'])]
    zm = (np.array(pa['z']) + np.array(pb['z'])) / 2
    dz = case['dz']
    if dz:
        dz = np.sign(dz) * max(abs(dz), 1e-3 + 4e-6 * float(np.max(np.abs(zm))),
                               1e-12 * a)
    # the depth of an ECEF position is known to about EPS * a only
    noisy = 'ecef' in case['kinds']
    shy = noisy & (np.abs(zm) * 1e-6 < 1e3 * EPS * a)
    gA, gB = canon(pa), canon(pb)
    s = ref.norm(ref.cross(gA, gB))
    if np.any(s < 5e-5):
        rec.label('degenerate')
        return
    k = len(pa['lat'])
    th = ref.angle(gA, gB)
    radius = (ref.norm(canon_p(pa, spec)) + ref.norm(canon_p(pb, spec))) / 2
    far = 8 * (1 + np.max(np.abs(zm)) / a)
    atol = max(case['atol'], float(np.max(20 * far * EPS * radius * (6 + 6 / s))))
    kw = {} if case['method'] is None else dict(method=case['method'])
    if case.get('tol') is not None:        # a depth within or beyond the given tolerances
        rtol, times = case['tol']
        kw['rtol'] = rtol
        tolz = np.maximum(atol, 1.01 * rtol * np.abs(zm))
        dz = times * tolz
        shy = noisy & (tolz < 1e3 * EPS * a) | (tolz < 1e3 * EPS * np.abs(zm))
    off = np.clip(np.array(case['factor']) * (atol / radius), -1.5, 1.5)
    P = place(gA, gB, np.array(case['where']) * th, off)
    lat, lon = ref.latlon(P)
    pc = dict(lat=[float(x) for x in np.degrees(lat)], lon=[float(x) for x in np.degrees(lon)],
              z=[float(x) for x in zm + dz], scalar=pa['scalar'], kind=case['kinds'][2])
    frame = mkframe(spec)
    A, B, Q = [mkpoint(p, frame, spec) for p in (pa, pb, pc)]
    path = GeoPath(A, B)
    circle, cc, onp, pcl = expected(gA, gB, canon(pc), radius, atol, far)
    got = flat(path.on_great_circle(Q, atol=atol), k)
    rec.true('on_great_circle', (got == circle) | ~cc, (got, circle))
    if case.get('tol') is not None:
        got = flat(path.on_path(Q, atol=atol, **kw), k)
        other = abs(case['tol'][1]) > 1
        rec.label('tolerances given')
    else:
        got = flat(path.on_path(Q, atol=atol, **kw), k) if not dz else \
            flat(path.on_path(Q, atol=min(atol, abs(dz) / 3), **kw), k)
        other = bool(dz)
    if other and case.get('tol') is not None:
        rec.true('not on the path beyond the depth tolerance', (got == 0) | shy, got)
        rec.label('other_depth')
    elif other:
        rec.true('not on the path at another depth', got == 0, got)
        rec.label('other_depth')
    else:
        skip = ~pcl | shy
        rec.true('on_path', (got == onp) | skip, (got, onp))
        if np.any(~skip & onp):
            rec.label('on_path')
        if np.any(~skip & ~onp):
            rec.label('not_on_path')
    rec.nontrivial = bool(np.any(pcl))


def ell_case():
    def build(n, scalar):
        return st.fixed_dictionaries(dict(
            lat=gen.vec(gen.lat_deg(), n), lon=gen.vec(gen.lon_deg(False), n),
            az=gen.vec(st.one_of(gen.angle_deg(False), st.sampled_from(
                [0.0, 180.0, -180.0, 90.0, 179.9999999999, -179.9999999999])), n),
            dist=gen.vec(st.one_of(st.floats(1e-5, 2.5), gen.logu(1e-5, 1.0)), n),
            z=gen.vec(gen.small_depth(), n), dz=st.sampled_from([0.0, 0.0, 1.0, 1e-2, -30.0]),
            zb=st.sampled_from([0.0, 0.0, 10.0, -200.0]),
            tol=st.one_of(st.none(), st.tuples(
                st.one_of(st.just(0.0), gen.logu(1e-12, 1e-3)), gen.logu(1e-9, 1e-3),
                st.sampled_from([0.0, 0.3, -0.3, 3.0, -3.0])).map(list)),
            what=gen.vec(st.sampled_from(['in', 'in', 'in', 'before', 'beyond', 'off', 'off', 'A',
                                          'B']), n),
            w=gen.vec(st.floats(0.02, 0.98), n), delta=gen.vec(gen.signed_logu(1e-4, 3.0), n),
            frame=gen.frame(6e5, 1e8, 0.02), scalar=st.just(scalar),
            kinds=st.tuples(*[st.sampled_from(('geo', 'geo', 'nvec'))] * 3),
            method=st.sampled_from(['ellipsoid', 'ellipsoidal', 'exact', 'el'])))
    return gen.shaped(build, maxn=6)


@facet('C16', 'GeoPath ellipsoid', ell_case(), 4000,
       rule='on_path(method="ellipsoid") on geodesics in all directions up to 2.5 rad: points '
            'on the geodesic (PROJ), before the start, beyond the end, off in azimuth by at '
            'least 1e-4 rad, endpoints, other depths; tolerances given (depths within and beyond '
            'them by a factor of three) or left out; non-trivial: anything but an endpoint')
def ell_obj(case, rec):
    spec = case['frame']
    a, f, axes = ellipsoid_of(spec)
    k = len(case['lat'])
    zA = np.array(case['z'])
    zB = zA + case['zb']
    zm = (zA + zB) / 2
    dz = case['dz']
    rtol, atol, kw = 1e-6, 1e-8, {}
    if case.get('tol') is not None:
        rtol, atol, factor = case['tol']
        kw = dict(rtol=rtol, atol=atol)
        dz = factor * np.maximum(atol, rtol * np.abs(zm) * 1.01)
        dz = np.where(np.abs(dz) > 1e-12 * np.abs(zm), dz, 0.0) if abs(factor) < 1 else dz
        if np.any(dz != 0) and np.any(np.abs(dz) < 1e-14 * np.abs(zm)):
            dz = 0.0
        other = factor != 0 and abs(factor) > 1 and bool(np.all(dz != 0))
        if abs(factor) > 1 and not other:
            dz = 0.0
    elif dz:
        dz = np.sign(dz) * max(abs(dz), 4e-6 * float(np.max(np.abs(zm))) + 1e-3)
        other = True
    else:
        other = False
    latB, lonB, latC, lonC, want = [], [], [], [], []
    slack = abs(case['zb']) / a
    for i in range(k):
        g = geod(a - float(zA[i]), f)
        lat, lon, az = case['lat'][i], case['lon'][i], case['az'][i]
        s = case['dist'][i] * a
        lo, la, _ = g.fwd(lon, lat, az, s)
        latB.append(la)
        lonB.append(lo)
        what, w, delta = case['what'][i], case['w'][i], case['delta'][i]
        if what == 'B' and case['zb']:
            what = 'in'
        ok = True
        if what == 'in':
            d, azc = max(w * s, min(30.0, 0.5 * s)), az
            ok = d < s * (1 - 2 * slack) * 0.999
        elif what == 'before':
            d, azc = w * 0.5 * s, az + 180
        elif what == 'beyond':
            d, azc = (1.001 + 4 * slack + 0.15 * w) * s, az
            ok = None
        elif what == 'off':
            d, azc = w * s, az + np.degrees(delta)
            ok = None
        if what == 'B' and np.any(dz != 0):
            ok = 'skip'                # measured at another depth: just beyond or just before B
        if what == 'A':
            latC.append(lat)
            lonC.append(lon)
        elif what == 'B':
            latC.append(la)
            lonC.append(lo)
        else:
            lo2, la2, _ = g.fwd(lon, lat, azc, d)
            latC.append(la2)
            lonC.append(lo2)
            # all angles as doubles carry about 1e-9 m * a / 6.4e6: azimuths need some distance
            if d < 1e-6 * a * 1.5:
                ok = 'skip'
            turn = max(atol, rtol * abs(np.radians((az + 180) % 360 - 180)))
            if what == 'in' and turn < 1e-8 or what == 'off' and abs(delta) < 4 * turn + 8 * rtol:
                ok = 'skip'
        want.append(dict(A=1, B=1, before=0, beyond=0, off=0).get(what, 1)
                    if ok != 'skip' and ok is not False else -1)
    mk = lambda la, lo, z, kd: dict(lat=[float(x) for x in la], lon=[float(x) for x in lo],
                                    z=[float(x) for x in z], scalar=case['scalar'], kind=kd)
    same = any(w in 'AB' for w in case['what'])
    kinds = ('geo',) * 3 if same else case['kinds']
    frame = mkframe(spec)
    A = mkpoint(mk(case['lat'], case['lon'], zA, kinds[0]), frame, spec)
    B = mkpoint(mk(latB, lonB, zB, kinds[1]), frame, spec)
    Q = mkpoint(mk(latC, lonC, zm + dz, kinds[2]), frame, spec)
    got = flat(GeoPath(A, B).on_path(Q, method=case['method'], **kw), k)
    want = np.array(want)
    if other:
        rec.true('not on the path at another depth', got == 0, (got, dz, kw))
        rec.label('other_depth')
    else:
        rec.true('on_path', (got == want) | (want < 0), (got, want))
        rec.label('tolerances given' if kw else 'default tolerances')
        for w in case['what']:
            rec.label('point_' + w)
    rec.nontrivial = any(w not in 'AB' for w in case['what'])


# the bounds themselves -------------------------------------------------------------------
def bound_case():
    angle = st.one_of(st.floats(-3, 3), st.sampled_from([0.0, 1.0, -1.0, 0.5, 1.5, 2.0]))
    return st.fixed_dictionaries(dict(
        plane=st.integers(0, 2), a=angle, b=angle, c=gen.vec(angle, 3), frame=gen.frame(),
        meridian=st.booleans(), radius=gen.logu(1e-3, 1e9),
        off=gen.logu(1e-9, 0.5), atol=st.one_of(st.just(0.0), st.just(0), gen.logu(1e-30, 1e-10))))


@facet('C16', 'exactly on', bound_case(), 1500,
       rule='paths and points in one coordinate plane, the equator or the meridian of Greenwich, '
            'whose distance is exactly zero: accepted with a tolerance of 0 and up, moved sideways '
            'by 1e-9 to 0.5 rad accepted exactly with a tolerance above that distance; '
            'non-trivial: the path has a length')
def exactly_on(case, rec):
    k = case['plane']
    i, j = (k + 1) % 3, (k + 2) % 3
    a, b, atol, radius = case['a'], case['b'], case['atol'], case['radius']
    if abs(np.sin(a - b)) < 1e-3:
        return

    def at(*t):
        n = np.zeros((3, len(t)))
        n[i], n[j] = np.cos(t), np.sin(t)
        return n
    path = at(a), at(b)
    c = at(*case['c'])
    n = len(case['c'])
    got = nv.on_great_circle(path, c, radius, atol=atol)
    rec.true('on_great_circle', np.shape(got) == (n,) and np.all(got), (got, atol))
    got = nv.on_great_circle_path(path, np.hstack([path[0], path[1]]), radius, atol=atol)
    rec.true('ends on path', got, (got, atol))
    off = case['off']
    side = c * np.cos(off)
    side[k] = np.sin(off) * np.where(np.arange(n) % 2, 1, -1)
    for factor, want in ((1 + 1e-6, True), (1 - 1e-6, False), (0, False)):
        got = nv.on_great_circle(path, side, radius, atol=off * radius * factor)
        rec.true('moved sideways, tolerance %g' % factor, got == want, (got, want))
    frame = mkframe(case['frame'])
    half = [x / 2.01 for x in (a, b) + tuple(case['c'])]     # latitudes stay within 90 degrees
    points = [GeoPoint(x, 0.0, 0, frame) if case['meridian'] else GeoPoint(0.0, x, 0, frame)
              for x in half]
    if abs(np.sin(half[0] - half[1])) < 1e-3:
        return
    geo = GeoPath(points[0], points[1])
    for p in points:
        rec.true('GeoPath.on_great_circle', geo.on_great_circle(p, atol=atol), (p, atol))
    for p in points[:2]:
        rec.true('GeoPath.on_path', geo.on_path(p, atol=atol), (p, atol))
    rec.label('atol_zero' if atol == 0 else 'atol')
    rec.nontrivial = True
