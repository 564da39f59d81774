"""C24 no side effects, no memory"""
import numpy as np
import nvector as nv
from nvector import GeoPath, GeoPoint, Nvector, ECEFvector, Pvector
from hypothesis import strategies as st

from pbt import gen, hist, ref
from pbt.core import LD, Violation, facet
from pbt.pristine import Pristine

STATE = {}
NAMES = sorted(set(hist.OPS) - hist.SETTERS)
SETTERS = sorted(hist.SETTERS)
# object methods as often as functions; the one mutator now and then
WEIGHTED = NAMES + ['unit', 'unit', 'mean', 'path interpolate', 'Nvector +', 'GeoPath', 'GeoPath',
                    'FrameB', 'change_frame', 'to_nvector', 'to_ecef_vector', 'to_geo_point',
                    'E_rotation', 'f n_E2R_EN', 'f n_E_and_wa2R_EL', 'f unit', 'repr', 'repr', 'repr']

_V = np.array([[0.6, 0.0], [0.0, -0.8], [0.8, 0.6]])
_Q = dict(wa=0.3, x=0.7, y=-40.0, d=1e5, t=0.25, i=1, flag=False, deg=False, method='ellipsoid')
FIRST = [dict(), dict(), dict(name=' WGS  84 '), dict(a=6378137.0, f=1 / 298.257223563, name='  own one ')]
_P = ('geo', 0.5, -1.2, 10.0, ('frame', 6378137.0, 1 / 298.257223563, 'WGS84',
                               np.array([[0, 0, 1.0], [0, 1, 0], [-1, 0, 0]])))
PROBES = [('E_rotation', [], dict(_Q, deg=True)), ('E_rotation', [], _Q),
          ('E_rotation default', [], _Q), ('default GeoPoint', [0.2], _Q),
          ('default Nvector', [_V], _Q), ('default ECEFvector', [_V * 7e6], _Q),
          ('f n_EB_E2p_EB_E default', [_V], _Q), ('f n_E2lat_lon', [_V], dict(_Q, i=0)),
          ('f lat_lon2n_E', [0.1, 0.2], dict(_Q, i=0)), ('f p_EB_E2n_EB_E', [_V], dict(_Q, flag=True)),
          ('f n_E2R_EN', [_V], dict(_Q, i=0)), ('f n_E_and_wa2R_EL', [_V, 0.3], dict(_Q, i=2)),
          ('f great_circle_distance', [_V, _V[:, ::-1]], dict(_Q, flag=True)),
          ('f unit', [_V * 2], dict(_Q, flag=True)), ('f mdot', [np.eye(3), np.eye(3)], _Q),
          ('FrameE', [], dict(_Q, i=0)), ('FrameE', [], dict(_Q, i=4)),
          ('displace', [_P], _Q), ('displace', [_P], dict(_Q, method='greatcircle')),
          ('delta_N', [_P, _P], _Q)] \
    + [('get_ellipsoid', [], dict(_Q, i=i)) for i in range(7)]
PROBES = [p + (list(range(len(p[1]))),) for p in PROBES]


def setup():
    if 'server' not in STATE:
        STATE['server'] = Pristine()
        STATE['probes'] = STATE['server'].run(PROBES)


# ------------------------------------------------------------------ generator
def _layout(x, how):
    """the same numbers in another memory layout"""
    if how == 'F':
        return np.asfortranarray(x)
    if how == 'strided':
        big = np.zeros(tuple(2 * k for k in x.shape))
        view = big[tuple(slice(None, None, 2) for _ in x.shape)]
        view[...] = x
        return view
    if how == 'reversed' and x.ndim:
        return np.array(x[..., ::-1])[..., ::-1]
    if how == 'int' and np.all(x == np.round(x)) and np.all(np.abs(x) < 1e9):
        return x.astype(int)
    if how == 'readonly':
        x = np.array(x)
        x.setflags(write=False)
        return x
    return np.array(x)


def make_case(lo=2, hi=14):
    def build(n):
        lay = st.sampled_from(['C', 'C', 'C', 'F', 'strided', 'reversed', 'int', 'readonly'])
        exact = st.sampled_from([[0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [1.0, 0.0, 0.0],
                                 [0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 0.0, 0.0],
                                 [0.0, 3.0, 4.0]])
        free = st.builds(lambda la, lo, s: [float(s * x) for x in ref.nvec(la, lo)[:, 0]],
                         gen.lat_rad(), gen.lon_rad(), st.sampled_from([1.0, 1.0, 1.0, 2.0, 1e-3]))
        col = st.one_of(free, free, free, exact)
        arr = st.fixed_dictionaries(dict(t=st.just('arr'), k=st.sampled_from([1, n, n]),
                                         v=gen.vec(col, n), lay=lay))
        num = st.fixed_dictionaries(dict(t=st.just('num'), scalar=st.booleans(),
                                         v=gen.vec(st.one_of(st.floats(-3, 3), gen.small_depth(),
                                                             st.integers(-3, 3).map(float)), n),
                                         lay=lay))
        mat = st.fixed_dictionaries(dict(t=st.just('mat'), one=st.booleans(),
                                         v=gen.vec(gen.quaternion(), n), lay=lay))
        pos = st.builds(lambda p, f: dict(t='pos', p=p, f=f),
                        gen._point(n, False, gen.lat_deg(), gen.lon_deg(), gen.small_depth(),
                                   gen.KINDS), st.integers(0, 1))
        one = st.builds(lambda p, f: dict(t='pos', p=p, f=f),
                        gen._point(1, True, gen.lat_deg(), gen.lon_deg(), gen.small_depth(),
                                   gen.KINDS), st.integers(0, 1))
        step = st.fixed_dictionaries(dict(
            op=st.one_of(*[st.sampled_from(WEIGHTED)] * 5 + [st.sampled_from(SETTERS)]), a=st.tuples(*[st.integers(0, 60)] * 4).map(list),
            q=st.fixed_dictionaries(dict(
                wa=st.floats(-3, 3), x=st.floats(-3, 3), y=st.floats(-1e3, 1e3),
                d=gen.logu(1e-3, 1e7), t=st.one_of(st.floats(0, 1), st.just(0.5)),
                i=st.integers(0, 30), flag=st.booleans(), deg=st.booleans(),
                method=st.sampled_from(['ellipsoid', 'greatcircle']))),
            scribble=st.booleans()))
        return st.fixed_dictionaries(dict(
            arrays=st.lists(arr, min_size=2, max_size=3), nums=st.lists(num, min_size=2, max_size=3),
            mats=st.lists(mat, min_size=1, max_size=1),
            points=st.tuples(pos, pos, one, pos).map(list),
            frames=st.tuples(st.sampled_from(FIRST), gen.frame(1e6, 1e8)).map(list),
            same=st.booleans(), shared=st.sampled_from([None, None, 0, 1]),
            steps=st.lists(step, min_size=lo, max_size=hi))).map(share)
    return st.sampled_from([1, 2, 2, 4, 5]).flatmap(gen.memo(build))


def share(case):
    """an n-vector made of an array of the pool, the array itself and not a copy: normalize it"""
    if case['shared'] is None:
        return case
    first = dict(case['steps'][0], op='unit', a=[0, 0, 0, 0])
    return dict(case, steps=[first] + case['steps'])


def start(case):
    """the initial pool"""
    from pbt.nv import mkframe, mkpoint
    specs = case['frames']
    if case['same']:
        specs = [specs[1], specs[1]]
    frames = [mkframe(s) for s in specs]
    pool = list(frames)
    for a in case['arrays']:
        pool.append(_layout(np.array(a['v'][:a['k']], dtype=float).T.copy(), a['lay']))
    for a in case['nums']:
        pool.append(float(a['v'][0]) if a['scalar'] else _layout(np.array(a['v']), a['lay']))
    for a in case['mats']:
        R = [ref.f64(ref.quat2R(q)) for q in a['v']]
        pool.append(_layout(R[0] if a['one'] else np.stack(R, axis=2), a['lay']))
    for i, p in enumerate(case['points']):
        j = p['f'] if i else 1
        pool.append(mkpoint(p['p'], frames[j], specs[j]))
    pos = [x for x in pool if 'pos' in hist.kind_of(x)]
    pool.append(GeoPath(pos[0], pos[1]))
    pool.append(GeoPath(pos[1], pos[3]))
    pool.append(nv.FrameB(pos[0], 0.1, 0.2, 0.3))
    pool.append(pool[-1].Pvector(np.array(case['arrays'][0]['v']).T * 1e3))
    if case.get('shared') is not None:
        pool.append(Nvector([x for x in pool if isinstance(x, np.ndarray)][case['shared']],
                            frame=frames[0]))
    return pool


def reaches(x, target, depth=0):
    """x holds the object target"""
    if x is target:
        return True
    if isinstance(x, (tuple, list)):
        return any(reaches(y, target, depth + 1) for y in x)
    if depth < 6 and hasattr(x, '__dict__') and type(x).__module__.startswith('nvector'):
        return any(reaches(y, target, depth + 1) for y in list(vars(x).values()))
    return False


def arrays_in(x, depth=0):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            for z in arrays_in(y, depth + 1):
                yield z
    elif depth < 6 and hasattr(x, '__dict__') and type(x).__module__.startswith('nvector'):
        for y in list(vars(x).values()):
            for z in arrays_in(y, depth + 1):
                yield z


def parts_of(x, out, depth=0):
    """the objects and arrays that x is made of, x first"""
    if any(x is y for y in out) or depth > 6:
        return out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif hasattr(x, '__dict__') and type(x).__module__.startswith('nvector'):
        out.append(x)
        for key, y in list(vars(x).items()):
            if key != 'R_Ee':
                parts_of(y, out, depth + 1)
    return out


def settings_now():
    return (np.geterr(), str(np.get_printoptions()))


FALLBACK = 1e-9


@facet('C24', 'histories', make_case(), 1800,
       rule='2 to 14 operations drawn from %d public functions and methods, applied to a shared '
            'pool of arrays (C, Fortran, strided, reversed, integer, read-only), numbers, positions, frames, '
            'local frames and paths, results joining the pool; after each step every other '
            'object has its value, and the result is that of the same call made first in a '
            'pristine process; returned arrays are overwritten by the caller; at the end 27 '
            'fixed calls and the library defaults as in a pristine process; non-trivial: at '
            'least three operations succeed' % len(hist.OPS), setup=setup)
def histories(case, rec):
    server = STATE['server']
    pool = start(case)
    snaps = [hist.describe(x) for x in pool]
    requests, results = [], []
    before = settings_now()
    good = 0
    for k, step in enumerate(case['steps']):
        name = step['op']
        types = hist.OPS[name][0]
        args, idx = [], []
        for t, i in zip(types, step['a']):
            cand = [j for j, x in enumerate(pool) if t in hist.kind_of(x)]
            if not cand:
                break
            # recently made objects first
            idx.append(cand[-1 - i % len(cand)])
            args.append(pool[idx[-1]])
        if len(args) < len(types):
            continue
        what = 'step %d %s%s' % (k, name, tuple(idx))
        if name in hist.SETTERS:
            # the caller changes one of its objects: later calls see the new values only
            hist.perform(name, args, step['q'])
            snaps = [hist.describe(x) for x in pool]
            rec.label(name)
            continue
        # the same object given twice is one object there as well
        request = (name, [hist.describe(a, True) for a in args], step['q'],
                   [idx.index(i) for i in idx])
        old = hist.describe(args[0]) if name == 'unit' else None
        status, value = hist.perform(name, args, step['q'])
        described = hist.describe(value) if status == 'ok' else value
        rec.true(what + ' changed numpy settings', settings_now() == before, settings_now())
        target = args[0] if name == 'unit' and status == 'ok' else None
        for j, x in enumerate(pool):
            now = hist.describe(x)
            if target is not None and reaches(x, target):
                snaps[j] = now
                continue
            rec.true('%s changed object %d (%s)' % (what, j, type(x).__name__),
                     hist.equal(now, snaps[j]), (now, snaps[j]))
        if target is not None:
            now = hist.describe(target)
            rec.true('unit kept depth and frame', hist.equal(now[2:], old[2:]), (now, old))
            n = np.asarray(old[1], dtype=LD)
            length = np.sqrt(np.sum(n * n, axis=0))
            want = np.where(length > 0, n / np.where(length > 0, length, 1),
                            np.array([[1], [0], [0]]))
            fine = np.isfinite(length)
            rec.close('unit', np.where(fine, target.normal, 0), np.where(fine, want, 0), 1e-15)
        requests.append(request)
        results.append((what, status, described))
        good += status == 'ok'
        rec.label(name)
        if status != 'ok':
            continue
        # the caller may do as it likes with an array it was given
        if step['scribble'] and isinstance(value, np.ndarray) and value.flags.writeable \
                and value.ndim and value.dtype.kind == 'f':
            if not any(np.may_share_memory(value, y) for y in arrays_in(pool)):
                value[...] = 7.25
                rec.label('overwritten')
                continue
        if isinstance(value, np.ndarray) and value.dtype.kind == 'f' and value.ndim == 0:
            value = float(value)
        if len(pool) < 40:
            for v in (value if isinstance(value, tuple) else (value,)):
                if hist.kind_of(v):
                    pool.append(v)
                    snaps.append(hist.describe(v))
    for j, x in enumerate(pool):
        rec.true('object %d (%s) changed' % (j, type(x).__name__),
                 hist.equal(hist.describe(x), snaps[j]), (hist.describe(x), snaps[j]))
    for (what, status, got), (wstatus, want) in zip(results, server.run(requests)):
        rec.true('%s: outcome' % what, status == wstatus, (status, got, wstatus, want))
        if not hist.equal(got, want):
            rec.label('not bit for bit')
            rec.true('%s: as in a pristine process' % what, hist.equal(got, want, FALLBACK),
                     (got, want))
    for (name, args, q, _same), (wstatus, want) in zip(PROBES, STATE['probes']):
        status, value = hist.perform(name, [hist.rebuild(a) for a in args], q)
        got = hist.describe(value) if status == 'ok' else value
        rec.true('afterwards %s(%s): outcome' % (name, q), status == wstatus, (got, want))
        rec.true('afterwards %s: as in a pristine process' % name,
                 hist.equal(got, want, FALLBACK), (got, want))
    rec.nontrivial = good >= 3


def change_case():
    def extend(case):
        return st.fixed_dictionaries(dict(
            op=st.sampled_from(NAMES),
            change=st.lists(st.tuples(st.integers(0, 200), st.integers(0, 60), st.integers(0, 60)),
                            min_size=1, max_size=2).map(lambda v: [list(t) for t in v]),
            a=st.tuples(*[st.integers(0, 60)] * 4).map(list),
            q=st.fixed_dictionaries(dict(
                wa=st.floats(-3, 3), x=st.floats(-3, 3), y=st.floats(-1e3, 1e3),
                d=gen.logu(1e-3, 1e7), t=st.one_of(st.floats(0, 1), st.just(0.5)),
                i=st.integers(0, 30), flag=st.booleans(), deg=st.booleans(),
                method=st.sampled_from(['ellipsoid', 'greatcircle']))),
            warm=st.sampled_from([1, 1, 2, 3]), other=st.booleans())).map(
                lambda d: dict(case, steps=[], **d))
    return make_case().flatmap(extend)


@facet('C24', 'asked, changed, asked again', change_case(), 2400,
       rule='a public function or method is called, then one or two attributes or arrays its '
            'arguments consist of (the frame of an end point of a path, say) are changed by the '
            'caller, then the same call is made again: the result is that of a pristine process '
            'for the changed values; non-trivial: the two results differ', setup=setup)
def changes(case, rec):
    server = STATE['server']
    pool = start(case)
    name, q = case['op'], case['q']
    args, idx = [], []
    for t, i in zip(hist.OPS[name][0], case['a']):
        cand = [j for j, x in enumerate(pool) if t in hist.kind_of(x)]
        if not cand:
            return
        idx.append(cand[-1 - i % len(cand)])
        args.append(pool[idx[-1]])
    same = [idx.index(i) for i in idx]
    for _ in range(case['warm']):
        status, value = hist.perform(name, args, q)
    first = hist.describe(value) if status == 'ok' else value
    if case['other']:
        for other in ('repr', '=='):
            hist.perform(other, [args[0], args[-1]] if args else [1, 1], q)
    for k, obj, second in case['change']:
        parts = []
        for a in args:
            parts_of(a, parts)
        if not parts:
            return
        target = parts[obj % len(parts)]
        fits = [s for s in SETTERS if hist.OPS[s][0][0] in hist.kind_of(target)]
        if not fits:
            continue
        setter = fits[k % len(fits)]
        types = hist.OPS[setter][0]
        more = [x for x in pool if len(types) > 1 and types[1] in hist.kind_of(x)]
        if len(types) > 1 and not more:
            continue
        hist.perform(setter, [target] + ([more[second % len(more)]] if more else []), q)
        rec.label(setter)
    request = (name, [hist.describe(a, True) for a in args], q, same)
    status, value = hist.perform(name, args, q)
    got = hist.describe(value) if status == 'ok' else value
    wstatus, want = server.run([request])[0]
    rec.label(name)
    rec.true('%s after changes: outcome' % name, status == wstatus, (got, want))
    rec.true('%s after changes: as in a pristine process' % name, hist.equal(got, want, FALLBACK),
             (got, want))
    rec.nontrivial = not hist.equal(first, got)
