"""C38 classes derived from those of the library behave like them"""
import abc
import copy
import pickle

import numpy as np
import nvector as nv
from nvector import (ECEFvector, FrameB, FrameE, FrameL, FrameN, GeoPath, GeoPoint, Nvector,
                     Pvector)
from hypothesis import strategies as st

from pbt import hist
from pbt.core import facet
from pbt.props import c24

BASES = [GeoPoint, Nvector, ECEFvector, Pvector, FrameE, FrameN, FrameL, FrameB, GeoPath]


def arguments(x):
    """what the constructor of the library's class was given for x"""
    if isinstance(x, GeoPoint):
        return (x.latitude, x.longitude, x.z), dict(frame=x.frame)
    if isinstance(x, Nvector):
        return (x.normal, x.z), dict(frame=x.frame)
    if isinstance(x, Pvector):
        return (x.pvector, x.frame, x.scalar), {}
    if isinstance(x, FrameE):
        return (x.a, x.f, x.name, 'e' if x.R_Ee[0, 2] == 1 else 'E'), {}
    if isinstance(x, FrameL):
        return (x.nvector,), dict(wander_azimuth=x.wander_azimuth)
    if isinstance(x, FrameN):
        return (x.nvector,), {}
    if isinstance(x, FrameB):
        return (x.nvector, x.yaw, x.pitch, x.roll), {}
    return (x.point_a, x.point_b), {}


class Named(object):
    """adds behaviour of its own"""
    label = 'none'

    def describe_me(self):
        return '%s %s' % (type(self).__name__, self.label)


def _make(base, style):
    """a class derived from base"""
    space = {'__module__': __name__}
    parents = (base,)
    meta = type
    if style == 'signature':         # a constructor that the library cannot call
        def __init__(self, label, source):
            args, kwds = arguments(source)
            base.__init__(self, *args, **kwds)
            self.label = label
            self.notes = ['first', 2]
        space['__init__'] = __init__
    elif style == 'slots':
        space['__slots__'] = ('label',)
    elif style == 'mixin':
        parents, meta = (Named, base), abc.ABCMeta
    elif style == 'hashable':
        space['__hash__'] = lambda self: 7
    elif style == 'empty':           # false when tested for truth
        space['__len__'] = lambda self: 0
    elif style == 'lookup':
        def __getattr__(self, name):
            if name.startswith('extra_'):
                return 12.5
            raise AttributeError(name)
        space['__getattr__'] = __getattr__
    elif style == 'twice':           # derived from a derived class
        parents = (CLASSES[base, 'signature'],)
    name = '%s%s' % (style.capitalize(), base.__name__)
    cls = meta(name, parents, space)
    globals()[name] = cls
    return cls


STYLES = ['plain', 'signature', 'slots', 'mixin', 'hashable', 'empty', 'lookup', 'twice']
CLASSES = {}
for _style in STYLES:
    for _base in BASES:
        CLASSES[_base, _style] = _make(_base, _style)


def base_of(x):
    for cls in type(x).__mro__:
        if cls in BASES:
            return cls
    return None


class Derive(object):
    """the same objects, some of them (and of their parts) instances of derived classes"""

    def __init__(self, styles):
        self.styles, self.count, self.seen, self.made = styles, 0, {}, []

    def __call__(self, x):
        base = base_of(x)
        if base is None:
            return x
        if id(x) in self.seen:
            return self.seen[id(x)][1]
        y = copy.copy(x)
        for key in ('frame', 'nvector', 'point_a', 'point_b'):
            if key in vars(y):
                setattr(y, key, self(getattr(y, key)))
        style = self.styles[self.count % len(self.styles)]
        self.count += 1
        if style:
            cls = CLASSES[base, style]
            if style in ('signature', 'twice'):
                new = cls('mine', y)
            else:
                args, kwds = arguments(y)
                new = cls(*args, **kwds)
                if style in ('slots', 'mixin', 'lookup'):
                    new.label = 'mine'
            y = new
            self.made.append(y)
        self.seen[id(x)] = (x, y)    # x stays alive so that its id is not used again
        return y


def derived_case():
    styles = st.lists(st.sampled_from(STYLES + [None, None]), min_size=2, max_size=7)
    return st.builds(lambda case, styles: dict(case, styles=styles), c24.make_case(3, 12), styles)


def plain_repr(text):
    """printed form, names of derived classes replaced, attributes of their own left out"""
    for (base, _style), cls in CLASSES.items():
        text = text.replace(cls.__name__ + '(', base.__name__ + '(')
    return text.replace(", label='mine', notes=['first', 2]", '').replace(", label='mine'", '')


def outcome(fun, *args):
    try:
        fun(*args)
        return 'ok'
    except Exception as exc:
        return type(exc).__name__


@facet('C38', 'derived', derived_case(), 5000,
       rule='3 to 12 calls of %d kinds on the pool of C24, done with objects of the library\'s '
            'classes and with objects of classes derived from them in 8 ways (nothing added, other '
            'constructor, slots, a second base class, hashable, false when tested for truth, '
            'attribute lookup of its own, derived twice) mixed with plain ones, frames and end '
            'points inside other objects too: same outcomes and results bit for bit; afterwards '
            'the derived objects have their class and own attributes, also copied and pickled; '
            'non-trivial: at least three calls succeed and one had a derived object'
            % len(c24.NAMES))
def derived(case, rec):
    pool = c24.start(case)
    derive = Derive(case['styles'])
    other = [derive(x) for x in pool]
    good = used = 0
    for step in case['steps']:
        name, q = step['op'], step['q']
        types = hist.OPS[name][0]
        idx = []
        for t, i in zip(types, step['a']):
            cand = [j for j, x in enumerate(pool) if t in hist.kind_of(x)]
            if not cand:
                break
            idx.append(cand[-1 - i % len(cand)])
        if len(idx) < len(types) or name in hist.SETTERS:
            continue
        if name in ('==', '!=') and idx[0] == idx[1]:
            continue
        status, want = hist.perform(name, [pool[i] for i in idx], q)
        args = [other[i] for i in idx]
        status2, got = hist.perform(name, args, q)
        kinds = '%s(%s)' % (name, ', '.join(type(x).__name__ for x in args))
        rec.true(kinds + ': outcome', status == status2, (status, want, status2, got))
        if status != 'ok':
            rec.true(kinds + ': error', want == got, (want, got))
            continue
        if name == 'repr' and want is not None:
            rec.true('repr', got.startswith(type(args[0]).__name__ + '('), got)
            rec.true('repr', plain_repr(got) == want, (got, want))
        else:
            a, b = hist.describe(want), hist.describe(got)
            rec.true(kinds, hist.equal(a, b, 1e-12), (b, a))
        good += 1
        if any(base_of(x) not in (None, type(x)) for x in args):
            used += 1
            rec.label(name)
        if isinstance(want, np.ndarray) and want.dtype.kind == 'f' and want.ndim == 0:
            want, got = float(want), float(got)
        if len(pool) < 40:
            pair = zip(want, got) if isinstance(want, tuple) else [(want, got)]
            for v, w in pair:
                if hist.kind_of(v):
                    rec.true(kinds + ': kind of result', hist.kind_of(v) == hist.kind_of(w), (v, w))
                    pool.append(v)
                    other.append(w)
    # refused whatever the class
    pairs = [(x, y) for x, y in zip(pool, other) if isinstance(x, Nvector)][:3]
    for x, y in pairs:
        for x2, y2 in pairs:
            for what, fun in (('times', lambda u, v: u * v), ('over', lambda u, v: u / v),
                              ('plus 1', lambda u, v: u + 1), ('minus frame', lambda u, v: u - v.frame)):
                rec.true('%s %s %s' % (type(y).__name__, what, type(y2).__name__),
                         outcome(fun, x, x2) == outcome(fun, y, y2), outcome(fun, y, y2))
    for x, y in zip(pool, other):
        rec.true('afterwards', hist.equal(hist.describe(x), hist.describe(y), 1e-12), (x, y))
    for y in derive.made[:8]:
        cls = type(y)
        style = [s for (b, s), c in CLASSES.items() if c is cls][0]
        rec.label('style_' + style)
        for form, z in (('itself', y), ('copy', copy.copy(y)), ('deepcopy', copy.deepcopy(y)),
                        ('pickle', pickle.loads(pickle.dumps(y)))):
            what = '%s of %s' % (form, cls.__name__)
            rec.true(what + ': class', type(z) is cls, type(z))
            if style in ('signature', 'twice', 'slots', 'mixin', 'lookup'):
                rec.true(what + ': own attribute', getattr(z, 'label', None) == 'mine', vars(z))
            if style in ('signature', 'twice'):
                rec.true(what + ': own attribute', z.notes == ['first', 2], vars(z))
            if style == 'lookup':
                rec.true(what + ': own lookup', z.extra_x == 12.5 and not hasattr(z, 'no_such'), '')
            rec.true(what + ': value', hist.equal(hist.describe(z), hist.describe(y)), (z, y))
    rec.nontrivial = good >= 3 and used > 0
