"""Process set-up: which interpreter paths, which nvector, no stray files."""
import os
import sys
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
TOOL_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_k] = '1'
sys.dont_write_bytecode = True
os.environ.setdefault('HYPOTHESIS_STORAGE_DIRECTORY',
                      os.path.join(VERIF, '.work', 'hypothesis'))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != REPO_SRC]
sys.path.insert(0, REPO_SRC)
if TOOL_SITE not in sys.path:
    sys.path.append(TOOL_SITE)     # at the end: numpy and scipy stay those of the project

warnings.simplefilter('ignore')

import numpy as np                 # noqa: E402
import scipy.interpolate           # noqa: E402,F401
import scipy.signal                # noqa: E402,F401
import geographiclib.geodesic      # noqa: E402,F401

# never reuse byte code that lies beside the sources: compile their current text
_prefix, sys.pycache_prefix = sys.pycache_prefix, os.path.join(VERIF, '.work', 'no-pycache')
import nvector                     # noqa: E402
sys.pycache_prefix = _prefix

warnings.resetwarnings()
warnings.simplefilter('ignore')
np.seterr(all='ignore')

NV_DIR = os.path.dirname(os.path.abspath(nvector.__file__))
if not os.path.abspath(nvector.__file__).startswith(os.path.abspath(REPO_SRC) + os.sep):
    raise SystemExit('harness error: nvector was imported from %s, not %s'
                     % (nvector.__file__, REPO_SRC))
