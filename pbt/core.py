"""Facets, the recorder that judges a case, and the Hypothesis driver."""
import hashlib
import json
import os
import sys
import time
import traceback

from pbt import env
import numpy as np
from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings
from hypothesis import configuration as _hyp_conf

LD = np.longdouble
EPS = float(np.finfo(float).eps)
SUBNORMAL = LD(2e-323)         # a few steps of the smallest double


class Violation(Exception):
    """The property is broken by the case at hand."""


class HarnessError(BaseException):
    """The check itself went wrong (never reported as a violation)."""


class _ShrinkBudget(BaseException):
    pass


def arr(value, name='result'):
    """Real-valued array from something nvector returned, or a violation."""
    try:
        out = np.asarray(value)
        if out.dtype.kind not in 'fiub':
            raise TypeError('dtype %s' % out.dtype)
        return out
    except Exception as exc:
        raise Violation('%s is not a real array: %r (%s)' % (name, value, exc))


def attr(obj, name):
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Violation('%r has no attribute %s' % (type(obj).__name__, name))


class Rec(object):
    """Records and judges what one case shows."""

    def __init__(self):
        self.ratios = {}
        self.labels = set()
        self.nontrivial = False
        self.checks = 0

    def label(self, *names):
        self.labels.update(names)

    def fail(self, name, detail=''):
        raise Violation('%s: %s' % (name, detail))

    def true(self, name, cond, detail=''):
        self.checks += 1
        try:
            ok = bool(np.all(cond))
        except Exception:
            raise Violation('%s: not a truth value: %r' % (name, cond))
        if not ok:
            self.fail(name, detail)

    def _judge(self, name, diff, tol, got, want, nan_bad):
        self.checks += 1
        tol = np.broadcast_to(np.asarray(tol, dtype=LD), diff.shape) + SUBNORMAL
        with np.errstate(all='ignore'):
            ratio = np.where(diff == 0, LD(0), diff / tol)
        ratio = np.where(nan_bad | np.isnan(ratio), LD(np.inf), ratio)
        worst = float(np.max(ratio)) if ratio.size else 0.0
        if worst > self.ratios.get(name, -1.0):
            self.ratios[name] = worst
        if worst > 1:
            i = np.unravel_index(int(np.argmax(ratio)), ratio.shape)
            self.fail(name, 'at index %s got %s, expected %s, difference %s > tolerance %s'
                      % (tuple(int(k) for k in i), _s(got[i]), _s(want[i]),
                         _s(diff[i]), _s(tol[i])))

    def close(self, name, got, want, tol, angle=False):
        """got == want within tol; NaN only where want is NaN. angle: modulo 2 pi."""
        got = arr(got, name)
        want = np.asarray(want, dtype=LD)
        if got.shape != want.shape:
            if got.size != want.size:
                self.fail(name, 'shape %s, expected %s' % (got.shape, want.shape))
            got = got.reshape(want.shape)
        got = got.astype(LD)
        nan_g, nan_w = np.isnan(got), np.isnan(want)
        both = nan_g & nan_w
        same_inf = np.isinf(got) & (got == want)
        with np.errstate(all='ignore'):
            diff = np.abs(got - want)
            if angle:
                two_pi = 2 * PI_LD
                diff = np.mod(diff, two_pi)
                diff = np.minimum(diff, two_pi - diff)
        diff = np.where(both | same_inf, LD(0), diff)
        self._judge(name, diff, tol, got, want, (nan_g != nan_w))

    def bound(self, name, value, tol):
        """0 <= value <= tol (value is already an error measure, no NaN allowed)."""
        value = np.atleast_1d(np.asarray(value, dtype=LD))
        self._judge(name, np.abs(value), tol, value, np.zeros_like(value), np.isnan(value))

    def same(self, name, got, want):
        self.close(name, got, want, 0.0)


PI_LD = LD('3.14159265358979323846264338327950288')


def _s(x):
    try:
        return np.format_float_scientific(x, precision=20, trim='-')
    except Exception:
        return repr(x)


class Facet(object):
    def __init__(self, prop, name, strategy, check, quick, thorough, rule, setup=None):
        self.prop, self.name = prop, name
        self.strategy, self.check = strategy, check
        self.quick, self.thorough = quick, thorough
        self.rule, self.setup = rule, setup


FACETS = {}


def facet(prop, name, strategy, quick, thorough=None, rule='', setup=None):
    """Registers check(case, rec) with its generator as a facet of a property."""
    def deco(fun):
        FACETS.setdefault(prop, []).append(
            Facet(prop, name, strategy, fun, quick, thorough or 25 * quick, rule, setup))
        return fun
    return deco


def _in_nvector(exc):
    for frame, _lineno in traceback.walk_tb(exc.__traceback__):
        if os.path.abspath(frame.f_code.co_filename).startswith(env.NV_DIR + os.sep):
            return True
    return False


def run_case(fct, case):
    """Runs one case. Returns the Rec; raises Violation or HarnessError."""
    rec = Rec()
    try:
        with np.errstate(all='ignore'):
            fct.check(case, rec)
    except Violation as exc:
        exc.rec = rec
        raise
    except Exception as exc:
        if _in_nvector(exc):
            last = traceback.extract_tb(exc.__traceback__)[-1]
            new = Violation('%s raised: %s (at %s:%s)' % (type(exc).__name__, exc,
                                                          os.path.basename(last.filename),
                                                          last.name))
            new.rec = rec
            raise new
        raise HarnessError('%s/%s: %s\ncase: %s' % (fct.prop, fct.name,
                                                    traceback.format_exc(), dumps(case)[:3000]))
    return rec


def dumps(case):
    return json.dumps(case, sort_keys=True)


def derive_seed(*parts):
    text = '/'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.sha256(text.encode()).digest()[:6], 'big')


def longest(x):
    """length of the longest list in a case"""
    if isinstance(x, dict):
        return max([longest(v) for v in x.values()] or [0])
    if isinstance(x, (list, tuple)):
        return max([len(x)] + [longest(v) for v in x if isinstance(v, (dict, list, tuple))])
    return 0


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.ratios = {}
        self.samples = []
        self.checks = 0

    def add(self, case, rec):
        self.evaluations += 1
        self.checks += rec.checks
        if longest(case) >= 18:
            rec.label('long')
        for lab in rec.labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        for name, val in rec.ratios.items():
            if val > self.ratios.get(name, -1.0):
                self.ratios[name] = val
        if rec.nontrivial:
            text = dumps(case)
            h = hashlib.sha256(text.encode()).digest()[:8]
            if h not in self.hashes:
                self.hashes.add(h)
                if len(self.hashes) in (3, 30, 300, 3000) and len(text) < 1500:
                    self.samples.append(case)

    def as_dict(self):
        return dict(evaluations=self.evaluations, hashes=self.hashes, labels=self.labels,
                    ratios=self.ratios, samples=self.samples, checks=self.checks)


def search(fct, examples, seed_value, time_cap, shrink_cap):
    """Drives one shard of a facet with Hypothesis. Returns a result dict."""
    stats = Stats()
    state = dict(fail=None, message=None, first=None, shrinks=0)
    start = time.monotonic()
    if fct.setup is not None:
        fct.setup()

    class _TimeUp(BaseException):
        pass

    def body(case):
        if state['fail'] is None and time.monotonic() - start > time_cap:
            raise _TimeUp()
        if state['fail'] is not None and time.monotonic() - state['first'] > shrink_cap:
            raise _ShrinkBudget()
        try:
            rec = run_case(fct, case)
        except Violation as exc:
            if state['first'] is None:
                state['first'] = time.monotonic()
                stats.add(case, exc.rec)
            state['shrinks'] += 1
            state['fail'], state['message'] = json.loads(dumps(case)), str(exc)
            raise Violation('violation')       # one place: one kind of failure for the shrinker
        if state['fail'] is None:
            stats.add(case, rec)

    def run():
        test = given(fct.strategy)(body)
        test = settings(max_examples=max(1, examples), database=None, deadline=None,
                        report_multiple_bugs=False, print_blob=False,
                        phases=(Phase.generate, Phase.shrink),
                        suppress_health_check=list(HealthCheck))(test)
        test = hyp_seed(seed_value)(test)
        test()

    timed_out = False
    try:
        run()
    except Violation:
        pass
    except _ShrinkBudget:
        pass
    except _TimeUp:
        timed_out = True
    except HarnessError as exc:
        return dict(error=str(exc), facet=fct.name, stats=stats.as_dict())
    except Exception as exc:           # Flaky, Unsatisfiable, ...
        if state['fail'] is None:
            return dict(error='%s/%s: %s' % (fct.prop, fct.name, traceback.format_exc()),
                        facet=fct.name, stats=stats.as_dict())
    out = dict(facet=fct.name, stats=stats.as_dict(), timed_out=timed_out,
               wall=time.monotonic() - start)
    if state['fail'] is not None:
        out['violation'] = dict(case=state['fail'], message=state['message'],
                                failing_runs=state['shrinks'])
    return out


def _fewer_mutations(prob=0.1):
    """Hypothesis spends up to 5 of 6 runs on copies of the case at hand with one part duplicated.
    The generators here build such coincidences on purpose; fresh cases are worth more."""
    original = ConjectureRunner.generate_mutations_from

    def generate_mutations_from(self, data):
        if self.random.random() < prob:
            original(self, data)
    ConjectureRunner.generate_mutations_from = generate_mutations_from


try:
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    _fewer_mutations()
except (ImportError, AttributeError):      # another version: only less efficient
    pass


def _no_mined_constants():
    """Hypothesis mines the sources at hand for constants, so that a new line in nvector would
    change what is generated: the same seed is to give the same cases on every tree."""
    from hypothesis.internal.conjecture import providers
    nothing = providers.Constants()
    providers._get_local_constants = lambda: nothing


try:
    _no_mined_constants()
except (ImportError, AttributeError):
    pass


def set_hypothesis_home(path):
    try:
        _hyp_conf.set_hypothesis_home_dir(path)
    except Exception:
        pass
