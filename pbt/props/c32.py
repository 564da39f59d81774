"""C32 calls in several threads do not disturb each other"""
from hypothesis import strategies as st

from pbt import gen, hist
from pbt.core import HarnessError, Violation, facet
from pbt.props import c24

NAMES = [n for n in c24.NAMES if n != 'unit']        # Nvector.unit changes its object: documented
STATE = c24.STATE


def ask(server, requests):
    out = []
    for request, (status, value) in zip(requests, server.run(requests)):
        if status == 'died':
            status, value = server.run([request])[0]
            if status == 'died':
                raise Violation('%s does not finish' % request[0])
        if status == 'harness':
            raise HarnessError(value)
        out.append(value)
    return out


def q_strategy():
    return st.fixed_dictionaries(dict(
        wa=st.floats(-3, 3), x=st.floats(-3, 3), y=st.floats(-1e3, 1e3),
        d=gen.logu(1e-3, 1e7), t=st.one_of(st.floats(0, 1), st.just(0.5)),
        i=st.integers(0, 30), flag=st.booleans(), deg=st.booleans(),
        method=st.sampled_from(['ellipsoid', 'greatcircle'])))


# what several threads are likely to share: paths, frames, positions
MET = ['track_distance', 'cross_track_distance', 'on_great_circle', 'on_path', 'intersect',
       'closest_point_on_great_circle', 'closest_point_on_path', 'path interpolate', 'displace',
       'distance_and_azimuth', 'frame.inverse', 'frame.direct', 'delta_N', 'delta_L', 'R_EN',
       'change_frame', 'to_ecef_vector', 'to_geo_point', 'to_nvector', 'mean', 'track',
       'to_ecef_vector of local']


def random_step(rng, names=NAMES):
    """one call, all names equally often"""
    return dict(op=names[rng.randint(len(names))], a=[int(x) for x in rng.randint(0, 61, 4)],
                q=dict(wa=float(rng.uniform(-3, 3)), x=float(rng.uniform(-3, 3)),
                       y=float(rng.uniform(-1e3, 1e3)), d=float(10 ** rng.uniform(-3, 7)),
                       t=float(rng.choice([rng.uniform(), 0.5])), i=int(rng.randint(31)),
                       flag=bool(rng.randint(2)), deg=bool(rng.randint(2)),
                       method=['ellipsoid', 'greatcircle'][rng.randint(2)]))


def step():
    return gen.random_state().map(lambda rng: random_step(rng, [NAMES, MET][rng.randint(2)]))


def make_case():
    count = st.one_of(st.integers(1, 8), st.integers(1, 20), st.integers(1, 100))

    def finish(t):
        pool, one, two, same, schedules, opcodes = t
        if same:                 # both threads in the same code
            two = [dict(s, op=o['op']) for s, o in zip(two, one)] + two[len(one):]
        return dict(pool, steps=[], tasks=[one, two], schedules=schedules, opcodes=opcodes)
    return st.tuples(c24.make_case(), st.lists(step(), min_size=1, max_size=3),
                     st.lists(step(), min_size=1, max_size=3), st.booleans(),
                     st.lists(st.lists(count, min_size=1, max_size=8), min_size=3, max_size=3),
                     st.sampled_from([False, False, True])).map(finish)


@facet('C32', 'schedules', make_case(), 1400,
       rule='two threads with 1 to 3 calls each (out of %d public functions and methods, half the '
            'time the same ones) on shared arrays, positions, frames and paths, changing over at '
            'generated lines or byte code instructions of nvector (3 schedules of up to 8 '
            'changes): results as of each task alone in its own process, shared objects '
            'unchanged; non-trivial: a schedule with at least two changes' % len(NAMES),
       setup=c24.setup)
def schedules(case, rec):
    server = STATE['server']
    requests = [('alone', case, 0), ('alone', case, 1)] \
        + [('together', case, s) for s in case['schedules']]
    answers = ask(server, requests)
    want = [answers[0][0], answers[1][0]]
    most = 0
    for s, (out, pool, switches) in zip(case['schedules'], answers[2:]):
        most = max(most, switches)
        for i in (0, 1):
            if out[i] is None or out[i][:1] == ('raised',):
                raise Violation('schedule %s: thread %d did not finish: %r' % (s, i, out[i]))
            rec.true('calls made', [x[0] for x in out[i]] == [x[0] for x in want[i]],
                     (out[i], want[i]))
            for got, ref in zip(out[i], want[i]):
                rec.true('%s in a thread: outcome' % ref[0], got[1] == ref[1], (s, got, ref))
                rec.true('%s in a thread: as alone' % ref[0],
                         hist.equal(got[2], ref[2], c24.FALLBACK), (s, got[2], ref[2]))
                rec.label(ref[0])
        for j, (now, old) in enumerate(zip(pool, answers[0][1])):
            rec.true('object %d unchanged' % j, hist.equal(now, old), (s, now, old))
    rec.label('bytecode' if case['opcodes'] else 'lines', '%d changes' % min(most, 5))
    rec.nontrivial = most >= 2


# object methods that meet on one object, and calls that may share work space
BUSY = sorted(set(NAMES) - {'==', '!=', 'repr', 'f deg', 'f rad', 'f isclose', 'f allclose',
                            'positionA', 'scalar', 'scalar of geo'})


def random_pair(rng):
    a, b = [random_step(rng, [BUSY, MET][rng.randint(2)]) for _ in range(2)]
    if rng.randint(2):
        b['op'] = a['op']
    much = rng.randint(4)
    if much == 0:                    # the same objects, other numbers
        b['a'] = a['a']
    elif much == 1:                  # other objects, the same numbers
        b['q'] = a['q']
    elif much == 2:                  # the same way of computing
        b['q'] = dict(b['q'], method=a['q']['method'], flag=a['q']['flag'])
    opcodes, by, depth = rng.randint(4) == 0, rng.choice([1, 1, 1, 2, 3]), rng.choice([1, 2, 3, 99])
    return {'first': a, 'second': b, 'opcodes': bool(opcodes), 'by': int(by), 'depth': int(depth),
            'from': int(rng.randint(10 ** 6)), 'most': 80 if opcodes else 60}


def pair_case():
    def finish(t):
        pool, rng, keep = t
        pairs = [random_pair(rng) for _ in range(7)]
        if rng.randint(3):           # positions of one kind in one frame
            kind = ['geo', 'geo', 'nvec', 'ecef'][rng.randint(4)]
            pool = dict(pool, points=[dict(p, f=1, p=dict(p['p'], kind=kind if i < 3 else 'geo'))
                                      for i, p in enumerate(pool['points'])])
        return dict(pool, steps=[], pairs=[p for i, p in enumerate(pairs) if keep >> i & 1])
    keep = st.one_of(st.integers(1, 127), st.just(127), st.just(127))
    return st.tuples(c24.make_case(), gen.random_state(), keep).map(finish)


@facet('C32', 'one inside the other', pair_case(), 1300,
       rule='1 to 7 pairs of calls on shared objects (half the time of the same function; same objects, same '
            'numbers, same method or all different; mostly positions of one kind in one frame): the first one interrupted in front of its k-th line (or byte '
            'code instruction) of nvector (at any depth, or in the outermost 1 to 3 calls) by the '
            'second one, which runs to its end in another thread, for up to 60 (80) k: results as of each alone, objects unchanged; non-trivial: '
            'at least ten interruptions', setup=c24.setup)
def one_inside(case, rec):
    (want, before), (answers, pool) = ask(STATE['server'], [('apart', case), ('inside', case)])
    count = 0
    for p, w, (plain, odd, tried) in zip(case['pairs'], want, answers):
        names = (p['first']['op'], p['second']['op'])
        outs = [('without interruption', plain)] + [
            ('%s interrupted by %s at line %d' % (names + (k,)), out) for k, out in odd]
        for what, out in outs:
            for i in (0, 1):
                if out[i] is None or out[i][:1] == ('raised',):
                    raise Violation('%s: thread %d did not finish: %r' % (what, i, out[i]))
                rec.true('calls made', [x[0] for x in out[i]] == [x[0] for x in w[i]], (out[i], w[i]))
                for got, ref in zip(out[i], w[i]):
                    rec.true('%s: outcome of %s' % (what, ref[0]), got[1] == ref[1], (got, ref))
                    rec.true('%s: %s as alone' % (what, ref[0]),
                             hist.equal(got[2], ref[2], c24.FALLBACK), (got[2], ref[2]))
        count += tried
        if tried:
            rec.label(*names)
    for j, (now, old) in enumerate(zip(pool, before)):
        rec.true('object %d unchanged' % j, hist.equal(now, old), (now, old))
    rec.label('%d interruptions' % (50 * (count // 50)))
    rec.nontrivial = count >= 10
