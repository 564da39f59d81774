"""C37 the way the interpreter is started and nvector is imported does not matter"""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import zipfile

from hypothesis import strategies as st

from pbt import env, gen, hist, startup
from pbt.core import HarnessError, facet
from pbt.props import c24

CHILD = r'''
import sys
src, verif, decoys, how, inp, out = sys.argv[1:7]
import sys as _sys
_sys.path[:] = [p for p in _sys.path if p and p != src]
_sys.path.insert(0, src)
if decoys:
    _sys.path.insert(0, decoys)
import traceback
code = 0
def load():
    global nvector
    space = {}
    for line in how.split(';'):
        exec(line, space)
    import nvector
try:
    if 'threading' in how:
        how = how.replace('threading;', '')
        import threading
        t = threading.Thread(target=load)
        t.start()
        t.join()
        nvector
    else:
        load()
except BaseException:
    traceback.print_exc()
    code = 3
if not code:
    if decoys:
        _sys.path.remove(decoys)
    _sys.path.append(verif)
    import nvector
    if not nvector.__file__.startswith(src):
        raise SystemExit('harness error: nvector from %s' % nvector.__file__)
    if _sys.stdout is None:
        _sys.stdout = open('/dev/null', 'w')
    from pbt import startup
    startup.main(inp, out)
_sys.exit(code)
'''

HOW = ['import nvector', 'import nvector', 'from nvector import *', 'import nvector.core',
       'import nvector.rotation', 'import nvector.util', 'import nvector.objects',
       'from nvector.util import unit', 'from nvector.objects import GeoPath',
       'threading;import nvector', 'threading;import nvector.util',
       'from nvector._info import __doc__', 'import nvector._examples',
       'import nvector.license', 'import nvector._common',
       'import nvector.core;import nvector.util;from nvector import *',
       'import sys;sys.stdout = None;import nvector',
       'import sys;sys.argv[:] = [];import nvector',
       'import sys;sys.setrecursionlimit(300);import nvector',
       'import numpy;numpy.seterr(all="warn");import nvector',
       'import builtins;builtins._ = str;import nvector',
       'import warnings;warnings.simplefilter("always");import nvector']
DECOYS = ['core', 'rotation', 'objects', 'util', 'license', 'plot', '_common', '_info', '_intro',
          '_documentation', '_installation', '_examples', '_examples_object_oriented',
          '_acknowledgements', '_images', '_info_functional', 'info', 'tests']

DECOY = '''
def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    def other(*args, **kwds):
        raise RuntimeError('not that of nvector')
    return other
'''


def start_case():
    q = st.fixed_dictionaries(dict(
        wa=st.floats(-3, 3), x=st.floats(-3, 3), y=st.floats(-1e3, 1e3), d=gen.logu(1e-3, 1e7),
        t=st.floats(0, 1), i=st.integers(0, 30), flag=st.booleans(), deg=st.booleans(),
        method=st.sampled_from(['ellipsoid', 'greatcircle'])))
    opts = st.fixed_dictionaries(dict(
        optimize=st.sampled_from(['', '', '-O', '-O', '-OO', '-OO']),
        bytes=st.sampled_from(['', '', '-bb']), dev=st.sampled_from([False, False, True]),
        warn=st.sampled_from(['', '', '', 'error', 'ignore', 'always', 'default']),
        seed=st.one_of(st.just('random'), st.integers(0, 4294967295).map(str)),
        utf8=st.sampled_from(['', '0', '1']), locale=st.sampled_from(['C', 'C.UTF-8', 'POSIX', '']),
        zone=st.sampled_from(['', 'UTC', 'Asia/Tokyo']), decoys=st.booleans(),
        zip=st.sampled_from([False, False, False, True]), cwd=st.booleans(),
        frozen=st.booleans(), intdigits=st.sampled_from(['', '0', '640']),
        home=st.booleans(), how=st.sampled_from(HOW)))
    return st.builds(
        lambda case, opts, extra: dict(case, opts=opts, extra=extra),
        c24.make_case(8, 24), opts, st.lists(st.tuples(st.sampled_from(sorted(startup.EXTRA)), q),
                                             min_size=3, max_size=12))


def run(opts, requests, rec):
    """the answers of an interpreter started with these options"""
    work = os.path.join(env.VERIF, '.work')
    os.makedirs(work, exist_ok=True)
    home = tempfile.mkdtemp(prefix='start-', dir=work)
    try:
        inp, out = os.path.join(home, 'in'), os.path.join(home, 'out')
        with open(inp, 'wb') as f:
            pickle.dump(requests, f)
        decoys, src = '', env.REPO_SRC
        if opts['decoys']:
            decoys = os.path.join(home, 'decoys')
            os.mkdir(decoys)
            for name in DECOYS:
                with open(os.path.join(decoys, name + '.py'), 'w') as f:
                    f.write(DECOY)
        if opts['zip']:
            src = os.path.join(home, 'nv.zip')
            with zipfile.ZipFile(src, 'w') as z:
                for where, _, files in os.walk(env.NV_DIR):
                    if '__pycache__' in where:
                        continue
                    for name in files:
                        path = os.path.join(where, name)
                        z.write(path, os.path.join('nvector', os.path.relpath(path, env.NV_DIR)))
        # byte code of numpy and scipy is kept, that of nvector never
        cmd = [sys.executable, '-s', '-P', '-X',
               'pycache_prefix=' + os.path.join(env.VERIF, '.work', 'start-pycache')]
        cmd += [x for x in (opts['optimize'], opts['bytes']) if x]
        if opts['dev']:
            cmd += ['-X', 'dev']
        if opts['frozen']:
            cmd += ['-X', 'frozen_modules=off']
        if opts['intdigits']:
            cmd += ['-X', 'int_max_str_digits=' + opts['intdigits']]
        if opts['utf8']:
            cmd += ['-X', 'utf8=' + opts['utf8']]
        environ = {'PATH': '/usr/bin:/bin', 'PYTHONHASHSEED': opts['seed'],
                   'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1'}
        if opts['home']:
            environ['HOME'] = home
        if opts['locale']:
            environ['LC_ALL'] = opts['locale']
        if opts['zone']:
            environ['TZ'] = opts['zone']
        # other packages warn when they are imported: filters apply from nvector on
        how = opts['how']
        first = 'import numpy, scipy.interpolate, scipy.signal, scipy.ndimage, ' \
            'geographiclib.geodesic, inspect, timeit, doctest' \
            '\n_sys.dont_write_bytecode = True\n_sys.pycache_prefix = %r' % os.path.join(
                env.VERIF, '.work', 'no-pycache')
        if opts['warn']:
            first += '\nimport warnings\nwarnings.simplefilter(%r)' % opts['warn']
        child = CHILD.replace('import traceback\n', 'import traceback\n' + first + '\n', 1)
        done = subprocess.run(cmd + ['-c', child, src, env.VERIF, decoys, how, inp, out],
                              cwd=home if opts['cwd'] else '/', env=environ,
                              stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True)
        if done.returncode == 3:
            rec.true('import fails', False, (opts, done.stderr[-700:]))
        if done.returncode or not os.path.exists(out):
            raise HarnessError('%s %s %s' % (opts, done.returncode, done.stderr[-2000:]))
        rec.true('wrote to standard output', not done.stdout, done.stdout[:200])
        with open(out, 'rb') as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(home, ignore_errors=True)


@facet('C37', 'starts', start_case(), 400,
       rule='a new interpreter with generated options (-O, -OO, -bb, -X dev, warnings as errors, '
            'hash seed, locale, UTF-8 mode, time zone, home, working directory, files named like '
            'the modules of nvector earlier on the path, the package in a zip file) imports '
            'nvector in one of %d ways and does up to 24 calls of %d kinds and up to 12 of %d '
            'further ones, most of which are refused or warned about: outcomes as in this '
            'process; non-trivial: at least four calls succeed and an option differs from the '
            'default' % (len(HOW), len(c24.NAMES), len(startup.EXTRA)))
def starts(case, rec):
    pool = c24.start(case)
    requests, wants = [], []
    good = 0
    for step in case['steps']:
        name, q = step['op'], step['q']
        if name in hist.SETTERS or name == 'unit':
            continue
        args, idx = [], []
        for t, i in zip(hist.OPS[name][0], step['a']):
            cand = [j for j, x in enumerate(pool) if t in hist.kind_of(x)]
            if not cand:
                break
            idx.append(cand[-1 - i % len(cand)])
            args.append(pool[idx[-1]])
        if len(args) < len(hist.OPS[name][0]):
            continue
        request = (name, [hist.describe(a, True) for a in args], q, [idx.index(i) for i in idx])
        status, value = hist.perform(name, args, q)
        requests.append(request)
        wants.append((status, hist.describe(value) if status == 'ok' else value))
        if status == 'ok':
            good += 1
            if getattr(value, 'shape', None) == () and value.dtype.kind == 'f':
                value = float(value)
            if len(pool) < 40:
                pool.extend(v for v in (value if isinstance(value, tuple) else (value,))
                            if hist.kind_of(v))
        rec.label(name)
    for name, q in case['extra']:
        requests.append(('extra', name, q))
        wants.append(startup.perform(requests[-1]))
        rec.label(name)
    opts = case['opts']
    for request, (status, want), (status2, got) in zip(requests, wants, run(opts, requests, rec)):
        what = request[1] if request[0] == 'extra' else request[0]
        rec.true('%s: outcome' % what, status == status2, (got, want, opts))
        if not hist.equal(got, want):
            rec.label('not bit for bit')
        rec.true('%s: result' % what, hist.equal(got, want, c24.FALLBACK), (got, want, opts))
    for key in ('optimize', 'bytes', 'warn', 'utf8'):
        if opts[key]:
            rec.label('%s%s' % (key, opts[key]))
    rec.label(opts['how'])
    rec.label('zip' if opts['zip'] else 'directory')
    rec.nontrivial = good >= 4 and bool(opts['optimize'] or opts['bytes'] or opts['warn'] or opts['zip']
                                        or opts['decoys'] or opts['how'] != HOW[0])
