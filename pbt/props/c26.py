"""C26 numeric building blocks"""
import numpy as np
import nvector as nv
from nvector.util import nthroot
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import facet, EPS, LD, arr, Violation


@gen.memo
def comp():
    return st.one_of(st.floats(-1, 1).map(lambda x: x if abs(x) > 1e-18 else 0.0),
                     gen.signed_logu(1e-16, 10.0), st.sampled_from([0.0, 0.0, -0.0, 1.0, -1.0]))


def unit_case():
    def build(n):
        return st.fixed_dictionaries(dict(
            cols=gen.vec(st.tuples(comp(), comp(), comp()).map(list), n),
            scale=gen.vec(st.one_of(st.just(1.0), gen.logu(1e-120, 1e120)), n),
            zero=st.lists(st.integers(0, n - 1), max_size=3),
            norm_zero=st.sampled_from(['default', 'default', 'one', 'nan', 'two']),
            int_=st.booleans()))
    return gen.sized(build)


@facet('C26', 'unit', unit_case(), 8000,
       rule='unit of 3 x n arrays with components over many magnitudes (columns scaled by 1e-120 '
            'to 1e120) and zero columns at any place, norm_zero_vector 1/2/NaN, integer arrays; '
            'oracle: long double; columns one by one; non-trivial: a non-zero column')
def unit(case, rec):
    v = np.array(case['cols']).T * np.array(case['scale'])
    for i in case['zero']:
        v[:, i] = 0
    if case['int_']:
        v = np.clip(np.rint(v), -1000, 1000).astype(int)
        rec.label('integers')
    kw = {'default': {}, 'one': dict(norm_zero_vector=1), 'two': dict(norm_zero_vector=2),
          'nan': dict(norm_zero_vector=np.nan)}[case['norm_zero']]
    before = v.copy()
    got = arr(nv.unit(v, **kw))
    rec.true('shape', got.shape == v.shape, got.shape)
    rec.same('argument unchanged', v, before)
    zero = np.all(v == 0, axis=0)
    vl = v.astype(LD)
    size = np.where(zero, 1, ref.norm(vl))
    want = vl / size
    w = kw.get('norm_zero_vector', 1)
    want[:, zero] = np.array([[1], [0], [0]]) * LD(w)
    rec.close('same direction, unit length', got, want, 4 * EPS)
    rec.bound('length one', np.where(zero, 1, ref.norm(got.astype(LD))) - 1, 4 * EPS)
    for i in range(v.shape[1]):
        one = arr(nv.unit(v[:, i:i + 1], **kw))
        rec.close('column alone', one[:, 0], got[:, i], 2 * EPS)
    if np.any(zero):
        rec.label('zero_column_' + case['norm_zero'])
    if np.any(zero) and not np.all(zero):
        rec.label('mixed')
    rec.nontrivial = not np.all(zero)


def mdot_case():
    el = st.one_of(st.floats(-10, 10), st.sampled_from([0.0, 1.0, -1.0]))

    def build(n):
        return st.fixed_dictionaries(dict(
            a=gen.vec(gen.vec(el, 9), n), b=gen.vec(gen.vec(el, 9), n),
            cols=st.sampled_from([1, 3, 2]), rows=st.sampled_from([3, 3, 1, 2]),
            form=st.sampled_from(['nn', 'nn', 'n1', '1n', 'flat', 'n0', '0n'])))
    return gen.sized(build)


@facet('C26', 'mdot', mdot_case(), 5000,
       rule='mdot for (r x 3 x n)(3 x c x n) and all documented broadcasts (n with 1, 2-d with '
            '3-d, 2-d with 2-d); oracle: long double item by item; non-trivial: n > 1')
def mdot(case, rec):
    n, c, r = len(case['a']), case['cols'], case['rows']
    A = np.array(case['a']).T.reshape(3, 3, n)[:r]
    B = np.array(case['b']).T.reshape(3, 3, n)[:, :c]
    form = case['form']
    a, b = A, B
    if form == 'n1':
        a, b = A, B[:, :, :1]
    elif form == '1n':
        a, b = A[:, :, :1], B
    elif form == 'flat':
        a, b = A[:, :, 0], B[:, :, 0]
    elif form == 'n0':
        a, b = A, B[:, :, 0]
    elif form == '0n':
        a, b = A[:, :, 0], B
    got = arr(nv.mdot(a, b))
    if form == 'flat':
        want = a.astype(LD) @ b.astype(LD)
        mag = np.abs(a) @ np.abs(b)
    else:
        a3 = (a if a.ndim == 3 else a[:, :, None]) * np.ones(n)
        b3 = (b if b.ndim == 3 else b[:, :, None]) * np.ones(n)
        want = np.stack([a3[:, :, i].astype(LD) @ b3[:, :, i].astype(LD) for i in range(n)], axis=2)
        mag = np.stack([np.abs(a3[:, :, i]) @ np.abs(b3[:, :, i]) for i in range(n)], axis=2)
    rec.true('shape', got.shape == want.shape, (got.shape, want.shape))
    rec.close('product', got, want, 8 * EPS * mag + 1e-300)
    rec.label('form_' + form)
    rec.nontrivial = n > 1


def root_case():
    x = st.one_of(gen.logu(1e-30, 1e30), st.sampled_from([0.0, 0.0, 1.0, 8.0, 27.0, 1e-300, 2.0]),
                  st.floats(0, 100).map(lambda v: v if v > 1e-290 else 0.0),
                  st.integers(0, 1000).map(float))
    return st.fixed_dictionaries(dict(
        xs=st.lists(x, min_size=1, max_size=6), n=st.sampled_from([1, 2, 3, 3, 3, 4, 5, 7, 10]),
        scalar=st.booleans()))


@facet('C26', 'nthroot', root_case(), 6000,
       rule='nthroot(x, n) for x = 0 and 1e-300..1e30, n = 1..10, scalars and arrays; oracle: '
            'r is the root to 1.6 eps (x < 1/2 eps, else |log x| eps / n), r**n in long double; non-trivial: x > 0 and n > 1')
def root(case, rec):
    xs, n = case['xs'], case['n']
    x = xs[0] if case['scalar'] else np.array(xs)
    got = arr(nthroot(x, n))
    rec.true('shape', got.shape == np.shape(x), got.shape)
    xl, r = np.ravel(ref.ld(x)), got.astype(LD).ravel()
    rec.true('non-negative', r >= 0, r)
    rec.close('zero', np.where(xl == 0, r, 0), 0 * r, 0)
    ok = xl > 0
    # a power of a double is not sharper than |log x| / 2n ulp: that is corrected up to 1 / eps
    xo = np.where(ok, xl, 1)
    loose = np.where(EPS * xo > 0.5, np.log(xo) / n, 0)
    rec.close('root', np.where(ok, r ** n, 1) / xo, np.where(ok, xl, 1) / xo,
              EPS * n * (1.6 + loose))
    exact = np.array([round(float(v) ** (1 / n)) ** n == v and v < 2 ** 50 for v in xl])
    if np.any(exact):
        want = np.array([round(float(v) ** (1 / n)) for v in xl])
        rec.close('exact powers', np.where(exact, r, 0), np.where(exact, want, 0), 2 * EPS * want)
    if np.any(xl == 0):
        rec.label('zero')
    rec.nontrivial = bool(np.any(ok)) and n > 1


def angle_case():
    x = st.one_of(gen.lon_rad(), gen.lon_deg(), st.floats(-1e6, 1e6), gen.signed_logu(1e-300, 1e300),
                  st.sampled_from([float('inf'), float('-inf'), float('nan')]))
    arg = st.one_of(x, st.lists(x, min_size=1, max_size=4))
    return st.fixed_dictionaries(dict(args=st.lists(arg, min_size=1, max_size=5),
                                      form=st.sampled_from(['array', 'list', '2d'])))


@facet('C26', 'deg and rad', angle_case(), 5000,
       rule='deg and rad with 1 to 5 arguments (scalars, lists, arrays, 2-d) of any size, '
            'infinities and NaN: value, order, kind of result, inverse of each other; '
            'non-trivial: a finite non-zero angle')
def angles(case, rec):
    vals = []
    for x in case['args']:
        if isinstance(x, list):
            x = x if case['form'] == 'list' else np.array(x)
            if case['form'] == '2d':
                x = np.array([x, x])
        vals.append(x)
    for fun, inv, factor in ((nv.deg, nv.rad, 180 / ref.PI), (nv.rad, nv.deg, ref.PI / 180)):
        got = fun(*vals)
        if len(vals) == 1:
            got = (got,)
        elif not isinstance(got, tuple) or len(got) != len(vals):
            raise Violation('%s: %d arguments gave %r' % (fun.__name__, len(vals), got))
        for g, v in zip(got, vals):
            rec.true('shape', np.shape(g) == np.shape(v), (np.shape(g), np.shape(v)))
            want = ref.ld(v) * factor
            big = np.where(np.isfinite(want), np.abs(want), 1)
            over = big > 1e308
            rec.close(fun.__name__, np.where(over, 0, arr(g)), np.where(over, 0, want),
                      3 * EPS * big + LD(1e-320))
            back = arr(inv(g))
            ok = np.isfinite(arr(g)) & (np.abs(arr(g)) > 1e-300) & (np.abs(arr(g)) < 1e300)
            rec.close('inverse', np.where(ok, back, 0), np.where(ok, ref.ld(v), 0),
                      4 * EPS * np.where(ok, np.abs(ref.ld(v)), 1))
    flat = [x for v in vals for x in np.ravel(v)]
    rec.label('args_%d' % len(vals))
    rec.nontrivial = any(np.isfinite(x) and x != 0 for x in flat)
