"""C33 a call that fails half-way leaves nothing behind"""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, hist
from pbt.core import Violation, facet
from pbt.props import c24
from pbt.props.c32 import MET, NAMES, STATE, ask, random_step


def make_case():
    def finish(t):
        pool, rng, keep, turn = t
        steps = [random_step(rng, [NAMES, MET][rng.randint(2)]) for _ in range(6)]
        steps = [s for i, s in enumerate(steps) if keep >> i & 1]
        first = steps[:1 + len(steps) // 2]
        then = [dict(s, op=first[0]['op']) if i == 0 else s
                for i, s in enumerate(steps[1 + len(steps) // 2:])]
        return dict(pool, steps=[], first=first, then=then, turn=turn, most=60,
                    **{'from': int(rng.randint(200))})
    keep = st.one_of(st.integers(1, 63), st.just(63), st.just(63))
    return st.tuples(c24.make_case(), gen.random_state(), keep, st.integers(0, 3)).map(finish)


@facet('C33', 'faults', make_case(), 1500,
       rule='1 to 4 calls (out of %d public functions and methods, on arrays, positions, frames, '
            'paths that share parts), each made again and again with another line of nvector that '
            'computes something failing for want of memory (up to 60 lines each); after each failure '
            'all objects are as before, at the end the settings are, and these calls and others give '
            'what they give without the failures in another process; non-trivial: at least ten '
            'failures' % len(NAMES), setup=c24.setup)
def faults(case, rec):
    (failed, odd, same, results), want = ask(STATE['server'], [('fault', case), ('clean', case)])
    if odd:
        raise Violation('%s failing at %s changed object %d: %r, before %r' % odd)
    what = 'after %s failed' % ', '.join(sorted({op for op, _w in failed}))
    rec.true('%s: settings' % what, same)
    rec.true('calls made', [x[0] for x in results] == [x[0] for x in want], (results, want))
    for x, y in zip(results, want):
        rec.true('%s: outcome of %s' % (what, y[0]), x[1] == y[1], (x, y))
        rec.true('%s: %s' % (what, y[0]), hist.equal(x[2], y[2], c24.FALLBACK),
                 (x[2], y[2]))
    rec.label(*{op for op, _w in failed})
    rec.label('%d failures' % (50 * (len(failed) // 50)))
    rec.nontrivial = len(failed) >= 10


@facet('C33', 'unit', st.integers(1, 4).flatmap(lambda n: st.fixed_dictionaries(dict(
    v=gen.vec(st.tuples(*[st.one_of(gen.signed_logu(1e-6, 1e6), st.integers(-9, 9).map(float))] * 3)
              .map(list), n),
    z=gen.depth(-1e3, 1e3), axes=st.sampled_from('eE')))), 200,
       rule='Nvector.unit, which changes its object, failing at each of its lines: the n-vector is '
            'the old or the new one, depth, frame and the given array are as before; non-trivial: '
            'a line failed', setup=c24.setup)
def unit(case, rec):
    out, before, whole = ask(STATE['server'], [('fault_unit', case)])[0]
    for where, _raised, now, given in out:
        rec.true('unit failing at %s' % where,
                 hist.equal(now, before) or hist.equal(now, whole, c24.FALLBACK), (now, before, whole))
        rec.true('given array', hist.equal(given, np.array(case['v'], dtype=float).T), given)
    rec.nontrivial = bool(out)
