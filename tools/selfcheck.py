#!/opt/venv/bin/python
"""setup_cmd: nothing has to be built; shows that what the checks need is there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pbt import env                     # noqa: E402
import hypothesis                       # noqa: E402
import numpy as np                      # noqa: E402
import pyproj                           # noqa: E402
import nvector                          # noqa: E402

assert np.finfo(np.longdouble).nmant >= 63, 'no 80-bit long double'
assert os.path.abspath(nvector.__file__).startswith(env.NV_DIR), nvector.__file__
print('ok: hypothesis %s, numpy %s, pyproj %s, nvector %s' % (
    hypothesis.__version__, np.__version__, pyproj.__version__, nvector.__file__))
