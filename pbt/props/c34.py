"""C34 copies, pickles and printed forms carry the whole value"""
import ast
import copy
import math
import pickle

import numpy as np
import nvector as nv
from hypothesis import strategies as st
from nvector import GeoPath, GeoPoint
from nvector.util import array_to_list_dict

from pbt import gen, hist
from pbt.core import Violation, facet
from pbt.props import c24
from pbt.props.c32 import q_strategy

OPS = [n for n in c24.NAMES if n != 'unit']
BY_TYPE = {}
for _n in OPS:
    if _n in ('==', '!='):          # identity counts where there is no equality
        continue
    for _i, _t in enumerate(hist.OPS[_n][0]):
        BY_TYPE.setdefault(_t, []).append((_n, _i))


def is_object(x):
    return type(x).__module__.startswith('nvector') and hasattr(x, '__dict__')


def grow(pool, case):
    """some results of calls as well"""
    for step in case['grow']:
        args = []
        for t, i in zip(hist.OPS[step['op']][0], step['a']):
            cand = [x for x in pool if t in hist.kind_of(x)]
            if not cand:
                break
            args.append(cand[-1 - i % len(cand)])
        else:
            status, value = hist.perform(step['op'], args, step['q'])
            for v in (value if isinstance(value, tuple) else (value,)):
                if status == 'ok' and hist.kind_of(v):
                    pool.append(v)
    return pool


def make_case(**more):
    step = st.fixed_dictionaries(dict(op=st.sampled_from(OPS), q=q_strategy(),
                                      a=st.tuples(*[st.integers(0, 60)] * 4).map(list)))
    return st.tuples(c24.make_case(), st.lists(step, max_size=3), st.integers(0, 60),
                     st.fixed_dictionaries(more)).map(
        lambda t: dict(t[0], steps=[], grow=t[1], which=t[2], **t[3]))


HOW = {'copy': copy.copy, 'deepcopy': copy.deepcopy}
for _p in range(pickle.HIGHEST_PROTOCOL + 1):
    HOW['pickle %d' % _p] = lambda x, _p=_p: pickle.loads(pickle.dumps(x, _p))


@facet('C34', 'copies', make_case(
    how=st.sampled_from(sorted(HOW)), warm=st.booleans(),
    calls=st.lists(st.fixed_dictionaries(dict(i=st.integers(0, 500), q=q_strategy(),
                                              a=st.tuples(*[st.integers(0, 60)] * 4).map(list))),
                   min_size=2, max_size=4), change=st.integers(0, 100)), 3000,
       rule='a position, local vector, frame, local frame or path (given or the result of calls) is '
            'copied, deep-copied or pickled (all protocols): same class, same value, equal, the same '
            'results of 2 to 4 calls it is used in; changing the copy leaves the original as it '
            'was; non-trivial: two of the calls succeed')
def copies(case, rec):
    pool = [x for x in grow(c24.start(case), case)]
    objects = [x for x in pool if is_object(x)]
    x = objects[-1 - case['which'] % len(objects)]
    if case['warm']:                        # used before it is copied
        hist.perform('repr', [x], {})
        for key in dir(type(x)):
            if isinstance(getattr(type(x), key), property):
                getattr(x, key)
    before = hist.describe(x)
    how = case['how']
    what = '%s of %s' % (how, type(x).__name__)
    try:
        y = HOW[how](x)
    except Exception as exc:
        raise Violation('%s: %s %s' % (what, type(exc).__name__, exc))
    rec.true(what + ' is another object', y is not x)
    rec.true(what + ' class', type(y) is type(x), type(y))
    rec.true(what + ' value', hist.equal(hist.describe(y), before), (hist.describe(y), before))
    if not isinstance(x, GeoPath):
        if not has_nan(before):
            rec.true(what + ' equal to the original', bool(y == x) and bool(x == y) and not bool(y != x),
                     (x, y))
        rec.true(what + ' printed', repr(y) == repr(x), (repr(y), repr(x)))
    good = 0
    for c in case['calls']:
        fits = [ni for t in hist.kind_of(x) for ni in BY_TYPE.get(t, ())]
        name, at = fits[c['i'] % len(fits)]
        args = []
        for k, (t, i) in enumerate(zip(hist.OPS[name][0], c['a'])):
            cand = [z for z in pool if t in hist.kind_of(z)]
            if not cand:
                break
            args.append(x if k == at else cand[-1 - i % len(cand)])
        else:
            other = [y if k == at else z for k, z in enumerate(args)]
            s1, v1 = hist.perform(name, args, c['q'])
            d1 = hist.describe(v1)
            s2, v2 = hist.perform(name, other, c['q'])
            d2 = hist.describe(v2)
            rec.true('%s with a %s: outcome' % (name, what), s1 == s2, (d1, d2))
            rec.true('%s with a %s' % (name, what), hist.equal(d1, d2, c24.FALLBACK), (d2, d1))
            good += s1 == 'ok'
            rec.label(name)
    # the copy is changed
    fits = [s for s in c24.SETTERS if hist.OPS[s][0][0] in hist.kind_of(y)]
    before = hist.describe(x)
    if fits:
        s = fits[case['change'] % len(fits)]
        more = [z for z in pool if len(hist.OPS[s][0]) > 1 and hist.OPS[s][0][1] in hist.kind_of(z)]
        if len(hist.OPS[s][0]) == 1 or more:
            if isinstance(y, GeoPath) or s != 'set origin' or how != 'copy':
                hist.perform(s, [y] + copy.deepcopy(more[:1]), case['calls'][0]['q'])
    if how != 'copy':
        for part in c24.parts_of(y, []):
            if isinstance(part, np.ndarray) and part.flags.writeable and part.dtype.kind == 'f':
                part[...] = 7.25
    rec.true('changing a %s changes the original' % what, hist.equal(hist.describe(x), before),
             (hist.describe(x), before))
    rec.label(how, type(x).__name__)
    rec.nontrivial = good >= 2


def has_nan(d):
    if isinstance(d, tuple):
        return any(has_nan(y) for y in d)
    try:
        return bool(np.any(np.isnan(d)))
    except TypeError:
        return False


# ------------------------------------------------------------------ printed forms
NAMES = dict(nan=math.nan, inf=math.inf, True_=True)


PUBLIC = dict(GeoPoint=('latitude', 'longitude', 'z', 'frame'), Nvector=('normal', 'z', 'frame'),
              Pvector=('pvector', 'frame', 'scalar'), FrameE=('a', 'f', 'name', 'R_Ee'),
              FrameN=('nvector',), FrameL=('nvector', 'wander_azimuth'),
              FrameB=('nvector', 'yaw', 'pitch', 'roll'))


def matches(node, x, path):
    """the printed expression shows the value x"""
    if is_object(x):
        if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and not node.args
                and node.func.id == type(x).__name__):
            raise Violation('%s: a %s printed as %s' % (path, type(x).__name__, ast.dump(node)[:200]))
        shown = {k.arg: k.value for k in node.keywords}
        want = {k: v for k, v in vars(x).items() if not k.startswith('_')}
        for cls in type(x).__mro__:
            want.update((k, getattr(x, k)) for k in PUBLIC.get(cls.__name__, ()))
        if set(shown) != set(want) or len(shown) != len(node.keywords):
            raise Violation('%s: printed %s, has %s' % (path, sorted(shown), sorted(want)))
        for key, v in want.items():
            matches(shown[key], v, path + '.' + key)
        return
    text = ast.unparse(node)
    try:
        got = eval(compile(ast.Expression(node), '<printed>', 'eval'),
                   {'__builtins__': {}}, dict(nan=math.nan, inf=math.inf))
    except Exception as exc:
        raise Violation('%s printed as %s: %s' % (path, text[:200], exc))
    if x is None or isinstance(x, (str, bool)):
        ok = got == x and type(got) is type(x)
    else:
        want = np.asarray(x)
        ok = np.shape(got) == want.shape
        if ok:
            g = np.asarray(got)
            with np.errstate(all='ignore'):
                ok = bool(np.all((g == want) | ((g != g) & (want != want))))
            ok = ok and (np.ndim(want) == 0) == (not isinstance(got, list))
    if not ok:
        raise Violation('%s: printed %s, is %r' % (path, text[:300], x))


@facet('C34', 'printed', make_case(), 2400,
       rule='repr of every object (given or the result of calls): class name and every public '
            'attribute by name with its exact value (all digits, nan and inf, nested frames), arrays '
            'as lists; printing changes nothing; non-trivial: not only zeros')
def printed(case, rec):
    objects = [x for x in grow(c24.start(case), case) if is_object(x) and not isinstance(x, GeoPath)]
    x = objects[-1 - case['which'] % len(objects)]
    before = hist.describe(x)
    text = repr(x)
    rec.true('repr changed its object', hist.equal(hist.describe(x), before))
    rec.true('repr again', repr(x) == text, text)
    rec.true('str', str(x) == text, (str(x), text))
    try:
        tree = ast.parse(text, mode='eval').body
    except SyntaxError:
        raise Violation('%s: not an expression: %s' % (type(x).__name__, text[:500]))
    matches(tree, x, type(x).__name__)
    rec.checks += 1
    rec.label(type(x).__name__)
    rec.nontrivial = any(ch in text for ch in '123456789')


@facet('C34', 'printed at length', st.fixed_dictionaries(dict(
    n=st.one_of(st.integers(0, 60), st.integers(900, 1200), st.sampled_from([0, 1001, 3001])),
    seed=gen.integer_seed(), kind=st.sampled_from(['geo', 'nvec', 'ecef', 'pvec', 'FrameN', 'FrameB']))), 160,
       rule='repr of objects with 0 to 3001 positions: every value of each; non-trivial: none, or more '
            'than a thousand numbers')
def printed_long(case, rec):
    rng = np.random.RandomState(case['seed'])
    n = case['n']
    if n == 0 and case['kind'] not in ('geo', 'nvec'):
        n = 1
    g = GeoPoint(rng.uniform(-1.5, 1.5, n), rng.uniform(-3, 3, n), rng.uniform(-1e3, 1e3, n))
    x = {'geo': lambda: g, 'nvec': g.to_nvector, 'ecef': g.to_ecef_vector,
         'pvec': lambda: nv.delta_N(g, GeoPoint(0.1, 0.2)), 'FrameN': lambda: nv.FrameN(g),
         'FrameB': lambda: nv.FrameB(g, 0.1)}[case['kind']]()
    matches(ast.parse(repr(x), mode='eval').body, x, case['kind'])
    rec.checks += 1
    rec.label(case['kind'])
    rec.nontrivial = n > 1000 or n == 0


@st.composite
def nested(draw):
    num = st.one_of(st.integers(-5, 5), st.floats(-1e9, 1e9), st.just('text'), st.none(),
                    st.just(float('inf')))
    leaf = st.one_of(num, st.fixed_dictionaries(dict(array=st.lists(st.floats(-9, 9), max_size=4),
                                                     shape=st.sampled_from([0, 1, 2]))))
    return draw(st.recursive(leaf, lambda c: st.one_of(
        st.lists(c, max_size=3), st.dictionaries(st.sampled_from('abcd'), c, max_size=3).map(
            lambda d: dict(d=d)), st.lists(c, max_size=3).map(lambda v: dict(t=v)),
        # one thing many times
        st.tuples(c, st.sampled_from('dtl'), st.integers(4, 40)).map(
            lambda t: dict(d={'k%d' % i: t[0] for i in range(t[2])}) if t[1] == 'd'
            else dict(t=[t[0]] * t[2]) if t[1] == 't' else [t[0]] * t[2])), max_leaves=8))


def build(s):
    """(data, expected)"""
    if isinstance(s, list):
        parts = [build(x) for x in s]
        return [p[0] for p in parts], [p[1] for p in parts]
    if isinstance(s, dict):
        if 'array' in s:
            a = np.array(s['array'], dtype=float)
            if s['shape'] == 0:
                return np.float64(1.5), 1.5
            if s['shape'] == 2:
                a = np.stack([a, 2 * a])
            return a, [[float(v) for v in r] for r in a] if a.ndim == 2 else [float(v) for v in a]
        if 't' in s:
            parts = [build(x) for x in s['t']]
            return tuple(p[0] for p in parts), [p[1] for p in parts]
        parts = {k: build(v) for k, v in s['d'].items()}
        return {k: v[0] for k, v in parts.items()}, {k: v[1] for k, v in parts.items()}
    return s, s


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


@facet('C34', 'array_to_list_dict', nested(), 1200,
       rule='nested dictionaries, lists and tuples of numbers, texts and arrays: arrays, tuples and '
            'NumPy numbers become lists and Python numbers of the same values in the same places; '
            'non-trivial: an array inside')
def lists(case, rec):
    data, want = build(case)
    got = array_to_list_dict(data)
    rec.true('array_to_list_dict', same(got, want), (got, want))
    rec.nontrivial = 'array' in repr(case)
