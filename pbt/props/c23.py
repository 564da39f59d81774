"""C23 named ellipsoids"""
import warnings

import numpy as np
import nvector as nv
from nvector import FrameE, GeoPoint, get_ellipsoid, select_ellipsoid
from hypothesis import strategies as st

from pbt import catalog, gen, ref
from pbt.core import EPS, facet, attr

ALL = sorted(catalog.NAMES)


def _same(rec, name, e, a, f):
    rec.true(name + ' a', float(attr(e, 'a')) == a, (e.a, a))
    rec.true(name + ' f', abs(float(attr(e, 'f')) - f) <= 2 * EPS * abs(f), (e.f, f))


@facet('C23', 'every name and number', st.tuples(st.integers(0, 0)), 1, 1,
       rule='every documented name and alias as written, in lower, upper and title case, with '
            'every single blank inserted, and every number (int, numpy int, float): exhaustive, '
            'against an independent table; also FrameE and the deprecated select_ellipsoid; '
            'non-trivial: all')
def names(case, rec):
    for name in ALL:
        a, f = catalog.lookup(name)
        key = catalog.NAMES[name]
        canonical = get_ellipsoid(key).name
        for spelling in [name, name.upper(), name.title(), ' ' + name, name + '  '] \
                + [name[:i] + ' ' + name[i:] for i in range(1, len(name))]:
            e = get_ellipsoid(spelling)
            _same(rec, repr(spelling), e, a, f)
            rec.true(spelling + ' name', e.name == canonical, (e.name, canonical))
        _same(rec, 'select_ellipsoid', select_ellipsoid(name), a, f)
        for axes in 'eE':
            fr = FrameE(name=name.title(), axes=axes)
            _same(rec, 'FrameE ' + name, fr, a, f)
            rec.same('R_Ee', fr.R_Ee, ref.R_E[axes])
            rec.true('FrameE keeps the name', fr.name == name.title(), fr.name)
    for key in catalog.TABLE:
        a, f = catalog.lookup(key)
        for k in (key, np.int64(key), float(key)):
            _same(rec, repr(k), get_ellipsoid(k), a, f)
            _same(rec, 'FrameE %r' % k, FrameE(name=k), a, f)
    d = FrameE()
    _same(rec, 'default frame', d, *catalog.lookup('wgs84'))
    rec.same('default axes', d.R_Ee, ref.R_E['e'])
    for p in (GeoPoint(0, 0), nv.Nvector(np.array([[1.0], [0], [0]])),
              nv.ECEFvector(np.array([[1.0], [0], [0]]))):
        _same(rec, 'default frame of %s' % type(p).__name__, p.frame, *catalog.lookup('wgs84'))
        rec.same('default axes', p.frame.R_Ee, ref.R_E['e'])
    rec.nontrivial = True


def spelled(name, blanks, cases):
    out = ''
    for i, c in enumerate(name):
        out += ' ' * blanks[i % len(blanks)] + (c.upper() if cases[i % len(cases)] else c)
    return out


def name_case():
    blank = st.sampled_from([0, 0, 0, 1, 2])
    near = st.tuples(st.sampled_from(ALL), st.integers(0, 60), st.sampled_from('dixsr'),
                     st.sampled_from('abcdefghijklmnopqrstuvwxyz0123456789-_./()'))
    other = st.one_of(st.text(max_size=12), near.map(mutate), near.map(mutate),
                      st.integers(-5, 40).filter(lambda k: not 1 <= k <= 19),
                      st.floats(0, 30).filter(lambda x: x != int(x)),
                      st.sampled_from(['', 'earth', 'sphere', 'None', '18', '1', 'wgs', 'wgs85',
                                       'wgs-84', 'airy', 'everest', 'clarke', 'fisher', None]))
    return st.fixed_dictionaries(dict(
        name=st.sampled_from(ALL), blanks=st.lists(blank, min_size=1, max_size=20),
        cases=st.lists(st.booleans(), min_size=1, max_size=20), other=other,
        a=st.one_of(st.none(), gen.semi_major()), f=st.one_of(st.none(), gen.flattening()),
        axes=gen.axes(), how=st.sampled_from(['known', 'unknown', 'override', 'override'])))


def mutate(t):
    name, i, kind, c = t
    i %= len(name)
    return {'d': name[:i] + name[i + 1:], 'i': name[:i] + c + name[i:],
            'x': name[:i] + c + name[i + 1:], 's': name[i:] + name[:i], 'r': name[::-1]}[kind]


def _known(name):
    try:
        key = name.lower().replace(' ', '') if isinstance(name, str) else name
        return key in catalog.NAMES or (not isinstance(name, str) and key in catalog.TABLE)
    except TypeError:
        return False


@facet('C23', 'spellings and overrides', name_case(), 2500,
       rule='random case and blanks of known names; unknown names (text, names with a letter '
            'missing, added, changed, swapped, other numbers) must raise KeyError in '
            'get_ellipsoid, select_ellipsoid and FrameE; a, f or both given to FrameE override '
            'exactly that one, and the other comes from the named ellipsoid; the earth model is '
            'what positions use; non-trivial: spelling differs or override')
def spelling(case, rec):
    name = spelled(case['name'], case['blanks'], case['cases'])
    a, f = catalog.lookup(case['name'])
    if case['how'] == 'known':
        _same(rec, repr(name), get_ellipsoid(name), a, f)
        _same(rec, 'FrameE %r' % name, FrameE(name=name, axes=case['axes']), a, f)
        _same(rec, 'select', select_ellipsoid(name), a, f)
        rec.nontrivial = name != case['name']
    elif case['how'] == 'unknown':
        other = case['other']
        if _known(other):
            return
        for what, fun in (('get_ellipsoid', get_ellipsoid), ('select_ellipsoid', select_ellipsoid),
                          ('FrameE', lambda x: FrameE(name=x))):
            try:
                r = fun(other)
            except KeyError:
                continue
            rec.fail('%s(%r) does not raise KeyError' % (what, other), r)
        rec.nontrivial = isinstance(other, str)
    else:
        kw = {k: case[k] for k in 'af' if case[k] is not None}
        fr = FrameE(name=name, axes=case['axes'], **kw)
        wa, wf = kw.get('a', a), kw.get('f', f)
        _same(rec, 'override', fr, wa, wf)
        # what positions use: equator and pole
        p = GeoPoint([0.0, np.pi / 2], 0.0, 0, fr).to_ecef_vector().length
        rec.close('equatorial and polar radius', p, [wa, wa * (1 - ref.ld(wf))], 4 * EPS * wa)
        if len(kw) == 2:          # the name does not matter then
            _same(rec, 'unknown name with both', FrameE(name='no such', **kw), wa, wf)
        pos = FrameE(case['a'], case['f'], name, case['axes'])
        _same(rec, 'positional', pos, wa, wf)
        rec.nontrivial = True
    rec.label(case['how'])
