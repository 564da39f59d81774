"""Two threads in nvector under a generated schedule, and calls in which a line fails.

Everything here runs in a fork of the pristine process.
"""
import ast
import gc
import os
import signal
import sys
import threading
import types
import warnings

import numpy as np

from pbt import env, hist


def _inside(frame):
    return frame.f_code.co_filename.startswith(env.NV_DIR + os.sep)


def _depth(frame):
    n = 0
    while frame is not None:
        n += _inside(frame)
        frame = frame.f_back
    return n


# ------------------------------------------------------------------ schedules
class Steps(object):
    """calls back in front of lines (or byte code instructions) of nvector, in any thread
    (sys.settrace in several threads at a time crashes this version of Python)"""
    TOOL = 4

    def __init__(self, event, opcodes):
        self.mon = sys.monitoring
        todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType)]
        self.codes = set()
        while todo:
            code = todo.pop()
            if code not in self.codes and code.co_filename.startswith(env.NV_DIR + os.sep):
                self.codes.add(code)
                todo += [c for c in code.co_consts if isinstance(c, types.CodeType)]
        self.mon.use_tool_id(self.TOOL, 'pbt')
        for which in (self.mon.events.LINE, self.mon.events.INSTRUCTION):
            self.mon.register_callback(self.TOOL, which, event)
        self.select(opcodes)

    def select(self, opcodes):
        which = self.mon.events.INSTRUCTION if opcodes else self.mon.events.LINE
        for code in self.codes:
            self.mon.set_local_events(self.TOOL, code, which)

    def close(self):
        for code in self.codes:
            self.mon.set_local_events(self.TOOL, code, 0)
        self.mon.free_tool_id(self.TOOL)


class Baton(object):
    """Two threads of which one runs at a time; they change over after given numbers of lines
    (or byte code instructions) of nvector."""

    def __init__(self, schedule):
        self.schedule = list(schedule)
        self.left = self.schedule.pop(0) if self.schedule else None
        self.turn, self.done = 0, [False, False]
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.who = {}
        self.switches = 0

    def event(self, _code, _where):
        me = self.who.get(threading.get_ident())
        if me is None or self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        self.left = self.schedule.pop(0) if self.schedule else None
        other = 1 - me
        if self.done[other]:
            return
        self.switches += 1
        self.turn = other
        self.go[other].release()
        # a thread that waits for a lock the other one holds lets it go on
        self.go[me].acquire(timeout=1.0)
        self.turn = me

    def run(self, me, fun, out):
        self.go[me].acquire(timeout=5.0)
        try:
            self.who[threading.get_ident()] = me
            out[me] = fun()
        except BaseException as exc:
            out[me] = ('raised', repr(exc))
        finally:
            self.who.pop(threading.get_ident(), None)
            self.done[me] = True
            self.go[1 - me].release()


def _args(pool, step):
    args, idx = [], []
    for t, i in zip(hist.OPS[step['op']][0], step['a']):
        cand = [j for j, x in enumerate(pool) if t in hist.kind_of(x)]
        if not cand:
            return None, None
        idx.append(cand[-1 - i % len(cand)])
        args.append(pool[idx[-1]])
    return args, idx


def _perform(name, args, q):
    """as hist.perform, without touching the filters of warnings"""
    try:
        return 'ok', hist.describe(hist.OPS[name][1](args, q))
    except Exception as exc:
        return 'error', type(exc).__name__


def _task(pool, steps):
    out = []
    for step in steps:
        args, _idx = _args(pool, step)
        if args is not None:
            out.append((step['op'],) + _perform(step['op'], args, step['q']))
    return out


def alone(case, which):
    """one task alone: its results, and the pool afterwards"""
    pool = start(case)
    warnings.simplefilter('ignore')
    before = [hist.describe(x) for x in pool]
    out = _task(pool, case['tasks'][which])
    return out, before


def together(case, schedule):
    """both tasks under a schedule"""
    pool = start(case)
    warnings.simplefilter('ignore')
    signal.alarm(60)
    baton = Baton(schedule)
    steps = Steps(baton.event, case['opcodes'])
    out = _threads(pool, case['tasks'], baton)
    steps.close()
    signal.alarm(0)
    return out, [hist.describe(x) for x in pool], baton.switches


def _threads(pool, tasks, baton):
    out = [None, None]
    threads = [threading.Thread(target=baton.run, daemon=True,
                                args=(i, lambda i=i: _task(pool, tasks[i]), out)) for i in (0, 1)]
    for t in threads:
        t.start()
    baton.go[0].release()
    for t in threads:
        t.join(30)
    return out


def _same(p, q):
    return p is not None and q is not None and len(p) == len(q) and all(
        a[:2] == b[:2] and hist.equal(a[2], b[2], 1e-9) if len(a) == len(b) == 3 else a == b
        for a, b in zip(p, q))


class Worker(object):
    """a second thread that does what it is given"""

    def __init__(self):
        self.go, self.ready = threading.Lock(), threading.Lock()
        self.go.acquire()
        self.ready.acquire()
        self.busy = False
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            self.go.acquire()
            try:
                self.out = self.fun()
            except BaseException as exc:
                self.out = ('raised', repr(exc))
            self.ready.release()

    def start(self, fun):
        """waits for the end, but not longer than a second: fun may wait for a lock of the caller"""
        self.fun, self.out, self.busy = fun, None, True
        self.go.release()
        if self.ready.acquire(timeout=1.0):
            self.busy = False

    def result(self):
        if self.busy and self.ready.acquire(timeout=30):
            self.busy = False
        return self.out


class Watch(object):
    """calls back in front of lines (or instructions) of nvector in the thread that made it"""

    def __init__(self):
        self.me, self.on = threading.get_ident(), False
        self.steps = Steps(self.event, False)

    def event(self, code, where):
        if self.on and threading.get_ident() == self.me \
                and (self.depth > 9 or _depth(sys._getframe(1)) <= self.depth):
            self.count += 1
            if self.count == self.k:
                self.worker.start(self.other)

    def run(self, fun, k, other, worker, depth):
        """runs fun, and in front of its k-th line (or instruction) of nvector other in the worker;
        how many steps it took, the results of both"""
        self.count, self.k, self.other, self.worker, self.depth = 0, k, other, worker, depth
        self.on = True
        try:
            out = fun()
        except BaseException as exc:
            out = ('raised', repr(exc))
        self.on = False
        return self.count, out, worker.result() if self.count >= k else None


def inside(case):
    """per pair of calls: the first one again and again, with the second one run in another thread
    in front of its k-th line; what differs from the results without interruption"""
    pool = start(case)
    warnings.simplefilter('ignore')
    signal.alarm(300)
    answers, worker, watch = [], Worker(), Watch()
    for pair in case['pairs']:
        tasks = [[pair['first']], [pair['second']]]
        plain = [_task(pool, t) for t in tasks]
        odd, tried, n = [], 0, 0
        one, two = [lambda t=t: _task(pool, t) for t in tasks]
        watch.steps.select(pair['opcodes'])
        if all(plain):                     # how many steps the first call takes
            n = watch.run(one, 10 ** 9, None, worker, pair['depth'])[0]
        for i in range(min(pair['most'], n)):
            k = 1 + (pair['from'] + i * pair['by']) % n if n > pair['most'] else 1 + i
            steps, *out = watch.run(one, k, two, worker, pair['depth'])
            if worker.busy or steps < k:
                odd += [(k, out)] * worker.busy
                break
            tried += 1
            if not all(_same(o, p) for o, p in zip(out, plain)):
                odd.append((k, out))
                break
        answers.append((plain, odd, tried))
        if worker.busy:
            break
    watch.steps.close()
    signal.alarm(0)
    return answers, [hist.describe(x) for x in pool]


def apart(case):
    """the calls of the pairs, one after the other"""
    pool = start(case)
    warnings.simplefilter('ignore')
    before = [hist.describe(x) for x in pool]
    return [[_task(pool, [p['first']]), _task(pool, [p['second']])] for p in case['pairs']], before


# ------------------------------------------------------------------ faults
class Fault(MemoryError):
    """what fails"""


def _lines():
    """per file the lines on which something can fail: simple statements that compute something,
    outside the clean-up parts of try statements"""
    out = {}
    for name in os.listdir(env.NV_DIR):
        if not name.endswith('.py'):
            continue
        path = os.path.join(env.NV_DIR, name)
        try:
            tree = ast.parse(open(path, encoding='utf-8').read())
        except SyntaxError:
            continue
        lines, banned = set(), set()
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                for part in list(node.finalbody) + list(node.handlers):
                    banned.update(range(part.lineno, part.end_lineno + 1))
            if isinstance(node, (ast.Assign, ast.AugAssign, ast.Return, ast.Expr)) \
                    and any(isinstance(x, (ast.Call, ast.BinOp, ast.Subscript))
                            for x in ast.walk(node)):
                lines.add(node.lineno)
        out[path] = lines - banned
    return out


LINES = _lines()
STILL = ('__exit__', '__enter__', '__del__')


def failing(fun, k):
    """runs fun, in which the k-th line of nvector that can fail does so; how many came"""
    count = [0]
    where = [None]

    def local(frame, event, arg):
        if event == 'line' and frame.f_lineno in LINES.get(frame.f_code.co_filename, ()):
            count[0] += 1
            if count[0] == k:
                where[0] = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise Fault('no memory')
        return local

    def trace(frame, event, arg):
        if _inside(frame) and frame.f_code.co_name not in STILL:
            return local
        return None
    try:
        sys.settrace(trace)
        fun()
        return count[0], where[0], False
    except Exception:
        return count[0], where[0], True
    finally:
        sys.settrace(None)


def start(case):
    """the pool of C24, with local frames of both other kinds and a track"""
    from nvector import FrameL, FrameN, GeoPath
    from pbt.props import c24
    pool = c24.start(case)
    pos = [x for x in pool if 'pos' in hist.kind_of(x)]
    k = case.get('turn', 0)
    centres = [pos[k % len(pos)], pos[(k + 1) % len(pos)]]
    pool.append(FrameL(centres[0], 0.4))
    pool.append(FrameN(centres[1]))
    pool.append(centres[k % 2].to_ecef_vector().change_frame(pool[-2 + k % 2]))
    pool.append(GeoPath(pos[(k + 2) % len(pos)], pos[k % len(pos)]))
    return pool


def fault(case):
    """calls fail at one line after the other; after each everything is looked at, and at the end
    the calls are made again"""
    from pbt.props import c24
    pool = start(case)
    warnings.simplefilter('ignore')
    filters = list(warnings.filters)
    before = [hist.describe(x) for x in pool]
    settings = c24.settings_now()
    failed, odd = [], None
    for step in case['first']:
        args, idx = _args(pool, step)
        if args is None:
            continue
        op, q = step['op'], step['q']
        n = failing(lambda: hist.OPS[op][1](args, q), 10 ** 9)[0]
        for i in range(min(n, case['most'])):
            k = 1 + (case['from'] + i) % n
            _n, where, _raised = failing(lambda: hist.OPS[op][1](args, q), k)
            if where is None:
                continue
            failed.append((op, where))
            for j, x in enumerate(pool):
                now = hist.describe(x)
                if not hist.equal(now, before[j]):
                    odd = (op, where, j, now, before[j])
                    break
            if odd:
                break
        if odd:
            break
    same = c24.settings_now() == settings and list(warnings.filters) == filters
    return failed, odd, same, None if odd else _task(pool, case['first'] + case['then'])


def clean(case):
    """the calls made, without failures before"""
    pool = start(case)
    warnings.simplefilter('ignore')
    return _task(pool, case['first'] + case['then'])


def fault_unit(case):
    """Nvector.unit fails half-way: what the n-vector, the depth and the frame are then"""
    from nvector import FrameE, Nvector
    warnings.simplefilter('ignore')
    out = []
    for k in range(1, 40):
        given = np.array(case['v'], dtype=float).T.copy()
        v = Nvector(given, z=case['z'], frame=FrameE(axes=case['axes']))
        before = hist.describe(v)
        n, where, raised = failing(v.unit, k)
        if where is None:
            break
        out.append((where, raised, hist.describe(v), np.array(given)))
    whole = Nvector(np.array(case['v'], dtype=float).T, z=case['z'], frame=FrameE(axes=case['axes']))
    whole.unit()
    return out, before, hist.describe(whole)


HANDLERS = dict(alone=alone, together=together, inside=inside, apart=apart, fault=fault, fault_unit=fault_unit, clean=clean)
