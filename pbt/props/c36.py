"""C36 process-wide settings: neither used nor changed"""
import contextlib
import io
import json
import os
import subprocess
import sys
import warnings

import numpy as np
import nvector as nv
from hypothesis import strategies as st

from pbt import env, gen, hist, ops
from pbt.core import HarnessError, facet
from pbt.nv import mkframe
from pbt.process import difference, modules, settings, under
from pbt.props import c24

MODE = st.sampled_from(['ignore', 'warn', 'raise', 'call'])


def setting():
    return st.fixed_dictionaries(dict(
        divide=MODE, invalid=MODE, over=MODE, under=st.sampled_from(['ignore', 'warn', 'call']),
        filter=st.sampled_from(['error', 'ignore', 'default', 'always', 'once']),
        precision=st.integers(0, 17), threshold=st.sampled_from([0, 1, 5, 1000]),
        edgeitems=st.integers(1, 3), linewidth=st.sampled_from([20, 75, 200]),
        suppress=st.booleans(), sign=st.sampled_from(['-', '+', ' ']),
        nanstr=st.sampled_from(['nan', 'missing']),
        floatmode=st.sampled_from(['maxprec', 'fixed', 'unique', 'maxprec_equal']),
        legacy=st.sampled_from([False, False, '1.13']), decimal=st.integers(1, 40),
        seed=st.integers(0, 2 ** 32 - 1), buffer=st.sampled_from([8192, 16, 1024])))


def _run(name, args, q):
    try:
        return 'ok', hist.OPS[name][1](args, q)
    except Exception as exc:
        return 'error', exc


def base_run(name, args, q):
    """under the default settings; also the categories of the warnings that were given"""
    with warnings.catch_warnings(record=True) as seen:
        warnings.resetwarnings()
        warnings.simplefilter('always')
        with np.errstate(divide='warn', invalid='warn', over='warn', under='ignore'):
            status, value = _run(name, args, q)
    return status, value, [w.category for w in seen]


def case():
    # sometimes a number of an array is missing or infinite
    odd = st.one_of(st.just([]), st.just([]), st.lists(st.tuples(
        st.integers(0, 2), st.integers(0, 4), st.integers(0, 2),
        st.sampled_from([float('nan'), float('inf'), -float('inf'), 0.0])), min_size=1, max_size=4))
    return st.tuples(c24.make_case(), gen.vec(setting(), 3), odd).map(spoil)


def spoil(t):
    case, settings_, odd = t
    arrays = [dict(a, v=[list(v) for v in a['v']]) for a in case['arrays']]
    for i, j, k, x in odd:
        v = arrays[i % len(arrays)]['v']
        v[j % len(v)][k] = x
    return dict(case, arrays=arrays, settings=settings_, steps=case['steps'][:6])


@facet('C36', 'calls', case(), 1500,
       rule='up to 6 calls of %d kinds on a pool of arrays, positions, frames and paths (results '
            'join the pool), each first under the settings Python and numpy start with and then '
            'under generated ones: floating point errors ignored, warned about, raised or '
            'called back, warnings as errors or off, any print options, seeds, buffer size and '
            'decimal precision. Same outcome (an exception only where the first call warned); '
            'settings, modules and standard output untouched; non-trivial: at least two calls '
            'succeed' % len(c24.NAMES))
def calls(case, rec):
    pool = c24.start(case)
    known = modules()
    good = 0
    for k, step in enumerate(case['steps']):
        name = step['op']
        if name in hist.SETTERS or name == 'unit':
            continue
        args = []
        for t, i in zip(hist.OPS[name][0], step['a']):
            cand = [x for x in pool if t in hist.kind_of(x)]
            if not cand:
                break
            args.append(cand[-1 - i % len(cand)])
        if len(args) < len(hist.OPS[name][0]):
            continue
        q, s = step['q'], case['settings'][k % len(case['settings'])]
        what = 'step %d %s' % (k, name)
        before = settings()
        status, value, warned = base_run(name, args, q)
        now = settings()
        rec.true('%s changed %s' % (what, difference(before, now)[0]), now == before,
                 difference(before, now)[1])
        want = hist.describe(value) if status == 'ok' else type(value).__name__
        text = io.StringIO()
        with under(s), contextlib.redirect_stdout(text):
            before = settings()
            status2, value2 = _run(name, args, q)
            now = settings()
        rec.true('%s under other settings changed %s' % (what, difference(before, now)[0]),
                 now == before, difference(before, now)[1])
        rec.true('%s wrote to standard output' % what, not text.getvalue(), text.getvalue()[:200])
        if status2 == 'error' and status == 'ok':
            # only what was a warning may become an exception
            allowed = tuple(warned) + ((FloatingPointError,) if any(
                issubclass(c, RuntimeWarning) for c in warned) else ())
            rec.true('%s under other settings raised' % what, isinstance(value2, allowed or ()),
                     (type(value2).__name__, str(value2)[:200], s))
            rec.label('warned')
        else:
            got = hist.describe(value2) if status2 == 'ok' else type(value2).__name__
            if status == status2 == 'error' and warned:
                continue
            rec.true('%s: outcome under other settings' % what, status == status2, (got, want, s))
            if not hist.equal(got, want):
                rec.label('not bit for bit')
            rec.true('%s: result under other settings' % what,
                     hist.equal(got, want, c24.FALLBACK), (got, want, s))
        rec.label(name)
        if status == 'ok':
            good += 1
            if isinstance(value, np.ndarray) and value.dtype.kind == 'f' and value.ndim == 0:
                value = float(value)
            if len(pool) < 40:
                pool.extend(v for v in (value if isinstance(value, tuple) else (value,))
                            if hist.kind_of(v))
    now = modules()
    rec.true('functions of shared modules replaced', now == known,
             [(k, a) for k in known for a in known[k] if now[k].get(a) != known[k][a]][:5])
    rec.nontrivial = good >= 2


# ------------------------------------------------------------------ silence
def _apart(rec, vectors):
    """positions are pairwise neither equal nor opposite"""
    for i, a in enumerate(vectors):
        for b in vectors[:i]:
            if a.shape != b.shape and 1 not in (a.shape[1], b.shape[1]):
                continue
            d = np.minimum(np.sum((a - b) ** 2, axis=0), np.sum((a + b) ** 2, axis=0))
            if np.any(d < 1e-24):
                return False
    return True


def _same_circle(vectors):
    """great circles through A, B and through C, D coincide: the intersection is undefined"""
    a, b, c, d = np.broadcast_arrays(*vectors)
    n, m = np.cross(a, b, axis=0), np.cross(c, d, axis=0)
    cross = np.sum(np.cross(n, m, axis=0) ** 2, axis=0)
    return np.any(cross <= 1e-24 * np.sum(n * n, axis=0) * np.sum(m * m, axis=0))


def silent(rec, fun, problem, name):
    with warnings.catch_warnings(record=True) as seen:
        warnings.resetwarnings()
        warnings.simplefilter('always')
        with np.errstate(divide='warn', invalid='warn', over='warn', under='ignore'):
            fun(problem)
    here = os.path.dirname(os.path.abspath(ops.__file__))
    loud = [w for w in seen if not os.path.abspath(w.filename).startswith(here)
            and not issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning,
                                            FutureWarning))]
    rec.true('%s warned' % name, not loud, [str(w.message)[:100] for w in loud][:2])
    rec.label(name)


@facet('C36', 'silence of methods', ops.obj_case(maxn=5), 2400,
       rule='28 groups of methods on positions that are pairwise neither equal nor opposite '
            '(elsewhere azimuths and great circles are undefined): no warning; non-trivial: those')
def silence_obj(case, rec):
    P = ops.ObjProblem(case)
    vectors = [np.asarray(P.ref_n(k), dtype=float) for k in 'ABCD']
    if not _apart(rec, vectors):
        rec.label('equal or opposite')
        return
    if case['op'] == 'intersect' and _same_circle(vectors):
        rec.label('same great circle')
        return
    rec.nontrivial = True
    silent(rec, ops.OBJ[case['op']], P, case['op'])


@facet('C36', 'silence of functions', ops.fun_case(maxn=5), 2400,
       rule='24 functions on n-vectors that are pairwise neither equal nor opposite: no warning; '
            'non-trivial: those')
def silence_fun(case, rec):
    P = ops.FunProblem(case)
    vectors = [v for k, v in sorted(vars(P).items()) if k in ('nA', 'nB', 'nC', 'nD')]
    if not _apart(rec, vectors):
        rec.label('equal or opposite')
        return
    if case['op'] == 'op_intersect' and _same_circle(vectors):
        rec.label('same great circle')
        return
    rec.nontrivial = True
    silent(rec, ops.FUN[case['op']], P, case['op'])


VEC = st.tuples(*[st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0]), st.floats(-1e7, 1e7),
                            gen.signed_logu(1e-6, 1e9))] * 3).map(
    lambda v: [0.0 if abs(x) < 1e-6 else x for x in v]).map(lambda v: v if any(v) else [0.0, 0.0, -2.5])


def plain_case():
    return gen.sized(lambda n: st.fixed_dictionaries(dict(
        v=gen.vec(VEC, n), w=gen.vec(VEC, n), lat=gen.vec(gen.lat_rad(), n),
        lon=gen.vec(gen.lon_rad(), n), y=gen.vec(gen.lon_rad(), n), scalar=st.booleans(),
        x=gen.vec(st.one_of(st.just(0.0), st.just(1.0), gen.logu(1e-100, 1e100)), n),
        t=gen.vec(st.integers(1, 50), n), ti=gen.vec(st.floats(-5, 60), 3),
        kind=st.sampled_from(['linear', 'nearest', 'zero']), root=st.integers(2, 9),
        name=st.sampled_from(gen.NAMES), axes=gen.axes(), frame=gen.frame())))


def plain(c):
    """calls which are well defined for all these numbers"""
    v, w = np.array(c['v']).T, np.array(c['w']).T
    lat, lon, y, x = [np.array(c[k]) for k in ('lat', 'lon', 'y', 'x')]
    if c['scalar']:
        v, w, lat, lon, y, x = v[:, :1], w[:, :1], float(lat[0]), float(lon[0]), float(y[0]), x[0]
    frame = mkframe(c['frame'])
    a, b = frame.ECEFvector(v), frame.ECEFvector(w)
    n = nv.lat_lon2n_E(lat, lon)
    pos = frame.Nvector(n)
    local = nv.FrameL(pos, y)
    body = nv.FrameB(pos, y, lat, lon)
    for p in (a, b, a + b, a - b, -a, local.Pvector(v), body.Pvector(w)):
        p.length
        p.azimuth, p.azimuth_deg
        if np.all(p.length > 0):
            p.elevation, p.elevation_deg
        p == a
        repr(p)
        p.to_ecef_vector()
    nv.unit(v), nv.deg(lat), nv.rad(lat, lon), nv.nthroot(x, c['root'])
    R = nv.xyz2R(lat, y, lon)
    nv.R2xyz(R), nv.R2zyx(R), nv.zyx2R(lat, y, lon), nv.mdot(R, R), nv.mdot(local.R_EN, body.R_EN)
    N = nv.n_E2R_EN(n)
    nv.n_E2lat_lon(n), nv.R_EN2n_E(N), nv.n_E_and_wa2R_EL(n, y), nv.n_EB_E2p_EB_E(n, 12.0)
    nv.great_circle_distance(n, n), nv.euclidean_distance(n, n), nv.mean_horizontal_position(n)
    nv.get_ellipsoid(c['name']), nv.E_rotation(c['axes']), frame == nv.FrameE(), repr(frame)
    g = pos.to_geo_point()
    g.latlon_deg, g == pos.to_geo_point(), repr(g), repr(pos), pos == pos + 0 * pos
    g.to_ecef_vector().to_geo_point()
    pos.mean(), g.displace(1000.0, y), g.displace(1000.0, y, method='greatcircle')
    g.distance_and_azimuth(g), g.distance_and_azimuth(g, method='greatcircle')
    if n.shape[1] > 1:
        t = np.cumsum(c['t'])
        nv.interp_nvectors(c['ti'], t, n, kind=c['kind'])
        pos.interpolate(c['ti'], t, kind=c['kind'])


@facet('C36', 'silence of the rest', plain_case(), 2000,
       rule='polar form of vectors of non-zero length (also along axes), rotations, building '
            'blocks, catalogue, printing, comparing, displacing, tracks, at any place: no '
            'warning; non-trivial: all')
def silence_plain(case, rec):
    rec.nontrivial = True
    silent(rec, plain, case, 'call')


# ------------------------------------------------------------------ import
IMPORT = r'''
import json, sys, io, contextlib
src, verif, case = sys.argv[1:]
sys.path.insert(0, src)
sys.path.append(verif)
import numpy, scipy.interpolate, scipy.signal, scipy.ndimage, geographiclib.geodesic
from pbt import process
text = io.StringIO()
with process.under(json.loads(case)), contextlib.redirect_stdout(text):
    a, m = process.settings(), process.modules()
    import nvector
    b, n = process.settings(), process.modules()
print(json.dumps([nvector.__file__, text.getvalue()[:200]] + [k for k in a if a[k] != b[k]]
                 + [k for k in m if m[k] != n[k]]))
'''


@facet('C36', 'import', setting(), 40,
       rule='nvector imported by a new interpreter under generated settings: they, the shared '
            'modules and standard output are as before; non-trivial: all')
def importing(case, rec):
    run = subprocess.run([sys.executable, '-B', '-I', '-X', 'pycache_prefix=' + os.path.join(
        env.VERIF, '.work', 'no-pycache'), '-c', IMPORT, env.REPO_SRC, env.VERIF,
        json.dumps(case)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if run.returncode:
        rec.true('import failed', env.NV_DIR not in run.stderr, run.stderr[-600:])
        raise HarnessError(run.stderr[-2000:])
    where, text, *changed = json.loads(run.stdout)
    if os.path.dirname(where) != env.NV_DIR:
        raise HarnessError('imported %s' % where)
    rec.true('importing nvector changed %s' % changed, not changed)
    rec.true('importing nvector wrote to standard output', not text, text)
    rec.nontrivial = True
