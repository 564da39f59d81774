"""Settings common to the whole process: taking stock of them, and working under others.

Does not import nvector (the import itself is checked)."""
import contextlib
import decimal
import gc
import locale
import logging
import os
import random
import sys
import threading
import warnings

import numpy as np

MODULES = {}


def modules():
    """functions of the modules everyone shares"""
    import math
    import scipy.interpolate
    import geographiclib.geodesic
    if not MODULES:
        for m in (np, np.linalg, math, scipy.interpolate, warnings, geographiclib.geodesic):
            MODULES[m.__name__] = m
    return {k: {a: id(v) for a, v in vars(m).items() if not a.startswith('__')}
            for k, m in MODULES.items()}


def settings():
    """everything in the process that is common to all its parts"""
    # values that were only filled in by the first use of something else are left out
    gen_state = np.random.get_state()
    return dict(
        errors=np.geterr(), errcall=id(np.geterrcall()), buffer=np.getbufsize(),
        printing=repr(np.get_printoptions()), filters=repr(warnings.filters),
        showwarning=id(warnings.showwarning), random=hash(random.getstate()),
        numpy_random=(gen_state[2], hash(gen_state[1].tobytes()), gen_state[3], gen_state[4]),
        decimal=repr(decimal.getcontext()), locale=locale.setlocale(locale.LC_ALL),
        cwd=os.getcwd(), environ=hash(frozenset(os.environ.items())), path=tuple(sys.path),
        recursion=sys.getrecursionlimit(), switch=sys.getswitchinterval(), gc=gc.isenabled(),
        gc_threshold=gc.get_threshold(), threads=threading.active_count(),
        hooks=(id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr)),
        logging=(logging.root.level, len(logging.root.handlers), logging.root.manager.disable))


def difference(a, b):
    return [k for k in a if a[k] != b[k]], {k: (a[k], b[k]) for k in a if a[k] != b[k]}




@contextlib.contextmanager
def under(s):
    """the settings of a caller"""
    old_np, old_py = np.random.get_state(), random.getstate()
    old_buffer, old_call = np.getbufsize(), np.geterrcall()
    old_decimal = decimal.getcontext().prec
    printing = dict(precision=s['precision'], threshold=s['threshold'], edgeitems=s['edgeitems'],
                    linewidth=s['linewidth'], suppress=s['suppress'], nanstr=s['nanstr'],
                    sign=s['sign'], floatmode=s['floatmode'], legacy=s['legacy'])
    if s['legacy'] and s['sign'] == ' ':
        printing['sign'] = '-'
    with warnings.catch_warnings(), np.printoptions(**printing), \
            np.errstate(divide=s['divide'], invalid=s['invalid'], over=s['over'],
                        under='ignore' if s['filter'] == 'error' else s['under']):
        warnings.resetwarnings()
        warnings.simplefilter(s['filter'])
        warnings.showwarning = _unheard
        np.seterrcall(_noted)
        np.setbufsize(s['buffer'])
        np.random.seed(s['seed'])
        random.seed(s['seed'])
        decimal.getcontext().prec = s['decimal']
        try:
            yield
        finally:
            decimal.getcontext().prec = old_decimal
            np.setbufsize(old_buffer)
            np.seterrcall(old_call)
            np.random.set_state(old_np)
            random.setstate(old_py)


def _noted(kind, flag):
    pass


def _unheard(*args, **kwargs):
    pass
