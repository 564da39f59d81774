"""Another interpreter, started in another way, does the same calls (C37).

Run by pbt.props.c37 as `python ... -c 'exec(...)' `; nvector is already imported when this is.
"""
import inspect
import pickle
import re
import warnings

import numpy as np
import nvector as nv
from nvector import FrameE, GeoPath, GeoPoint, Nvector, delta_E, delta_L, delta_N

from pbt import hist

MODULES = ['nvector', 'nvector.core', 'nvector.rotation', 'nvector.objects', 'nvector.util']


def _points(q, n=1):
    lat = np.clip([q['x'] * 25, q['x'] * -20], -80, 80)
    lon = np.array([q['wa'] * 50, q['wa'] * 40 + 5])
    a, b = FrameE(name='WGS84'), FrameE(a=6371e3 + 1, f=0)
    return [GeoPoint(lat[i], lon[i], 1.5, f, degrees=True) for f in (a, b) for i in (0, 1)]


def _names(q):
    import importlib
    out = []
    for name in MODULES:
        mod = importlib.import_module(name)
        pub = sorted(getattr(mod, '__all__', ())) if name != 'nvector' else sorted(
            k for k in dir(mod) if not k.startswith('_') and k not in ('plot', 'util'))
        out.append((name, tuple(pub)))
        for k in pub:
            x = getattr(mod, k)
            if callable(x):
                out.append((k, re.sub('0x[0-9a-f]+', '', str(inspect.signature(x))), tuple(
                    m for m in sorted(dir(x)) if not m.startswith('_'))))
    return tuple(out)


def _star(q):
    space = {}
    exec('from nvector import *', space)
    return tuple(sorted(k for k in space if not k.startswith('_') and k not in ('plot', 'util')))


# what is refused, and what is warned about; also calls that must not need an assert statement
EXTRA = {
    'names': _names,
    'star': _star,
    'frames add': lambda q: (lambda a, b, c, d: a.to_nvector() + c.to_nvector())(*_points(q)),
    'frames subtract': lambda q: (lambda a, b, c, d: a.to_nvector() - c.to_nvector())(*_points(q)),
    'frames delta_E': lambda q: (lambda a, b, c, d: delta_E(a, c))(*_points(q)),
    'frames delta_N': lambda q: (lambda a, b, c, d: delta_N(a, d))(*_points(q)),
    'frames delta_L': lambda q: (lambda a, b, c, d: delta_L(a, d, 0.3))(*_points(q)),
    'frames delta_to': lambda q: (lambda a, b, c, d: a.delta_to(c))(*_points(q)),
    'frames distance': lambda q: (lambda a, b, c, d: a.distance_and_azimuth(c))(*_points(q)),
    'frames distance2': lambda q: (lambda a, b, c, d: a.distance_and_azimuth(
        d, method='greatcircle'))(*_points(q)),
    'frames path': lambda q: (lambda a, b, c, d: GeoPath(a, c).track_distance())(*_points(q)),
    'frames path2': lambda q: (lambda a, b, c, d: GeoPath(a, d).ecef_vectors())(*_points(q)),
    'frames path3': lambda q: (lambda a, b, c, d: GeoPath(a, b).cross_track_distance(d))(*_points(q)),
    'frames path4': lambda q: (lambda a, b, c, d: GeoPath(a, b).on_path(c))(*_points(q)),
    'frames path5': lambda q: (lambda a, b, c, d: GeoPath(a, b).intersect(GeoPath(c, d)))(*_points(q)),
    'frames path6': lambda q: (lambda a, b, c, d: GeoPath(a, b).closest_point_on_great_circle(c))(
        *_points(q)),
    'frames path7': lambda q: (lambda a, b, c, d: GeoPath(a, d).interpolate(0.5))(*_points(q)),
    'frames ecef': lambda q: (lambda a, b, c, d: a.to_ecef_vector() + d.to_ecef_vector())(*_points(q)),
    'frames ecef2': lambda q: (lambda a, b, c, d: a.to_ecef_vector() - d.to_ecef_vector())(*_points(q)),
    'frames equal': lambda q: (lambda a, b, c, d: (a == c, a != c, a.frame == c.frame))(*_points(q)),
    'times': lambda q: (lambda a, b, c, d: a.to_nvector() * b.to_nvector())(*_points(q)),
    'over': lambda q: (lambda a, b, c, d: a.to_nvector() / b.to_nvector())(*_points(q)),
    'method': lambda q: (lambda a, b, c, d: a.distance_and_azimuth(b, method='x' + q['method']))(
        *_points(q)),
    'method2': lambda q: (lambda a, b, c, d: GeoPath(a, b).track_distance(method='flat'))(*_points(q)),
    'method3': lambda q: (lambda a, b, c, d: a.displace(q['d'], 0.1, method='flat'))(*_points(q)),
    'method4': lambda q: (lambda a, b, c, d: GeoPath(a, b).cross_track_distance(
        b, method='flat'))(*_points(q)),
    'ellipsoid': lambda q: nv.get_ellipsoid('WGS%d' % q['i']),
    'ellipsoid2': lambda q: nv.FrameE(name='nowhere'),
    'ellipsoid3': lambda q: tuple(nv.get_ellipsoid(k) for k in range(1, 20)),
    'ellipsoid4': lambda q: nv.get_ellipsoid(
        ['clarke', 'everest', 'airy', 'fisher', 'wgs', 'g', 'sad69', 'nad83'][q['i'] % 8]),
    'ellipsoid5': lambda q: nv.get_ellipsoid([18.0, 0, -1, None, '18'][q['i'] % 5]),
    'axes3': lambda q: (nv.E_rotation('e'), nv.E_rotation('E')),
    'axes': lambda q: nv.E_rotation('x'),
    'axes2': lambda q: nv.FrameE(axes='N').R_Ee,
    'shape': lambda q: nv.n_E2lat_lon(np.ones((2, 3)) * q['x']),
    'shape2': lambda q: nv.n_E2R_EN(np.ones((4, 1))),
    'shape3': lambda q: nv.mdot(np.ones((3, 3, 2)), np.ones((3, 3, 3))),
    'shape4': lambda q: nv.great_circle_distance(np.eye(3), np.ones((3, 2))),
    'track': lambda q: nv.interp_nvectors([0.5], [0, 1, 1], np.eye(3)),
    'track2': lambda q: nv.interp_nvectors([0.5], [0, 1, 2], np.eye(3), kind='odd'),
    'track3': lambda q: nv.interp_nvectors([5.0], [0, 1, 2], np.eye(3), extrapolate=False),
    'track4': lambda q: nv.interp_nvectors([0.5], [0, 1], np.eye(3)),
    'deprecated': lambda q: (lambda a, b, c, d: (GeoPath(a, b).positionA, GeoPath(a, b).positionB))(
        *_points(q)),
    'length': lambda q: nv.n_E2lat_lon(np.array([[2.0 + q['x'] ** 2], [0.5], [0]])),
    'same circle': lambda q: nv.intersect((np.eye(3)[:, :1], np.eye(3)[:, 1:2]),
                                          (np.eye(3)[:, :1], np.eye(3)[:, 1:2])),
    'zero': lambda q: nv.unit(np.zeros((3, 1))),
    'root': lambda q: nv.nthroot(np.array([q['x'] ** 2, 8.0]), 3),
    'printed': lambda q: (lambda a, b, c, d: tuple(repr(x) for x in (
        a, a.to_nvector(), a.to_ecef_vector(), c.frame, nv.FrameN(a),
        nv.FrameL(a, 0.25), nv.FrameB(a, 0.1, 0.2, 0.3), nv.FrameN(a).Pvector([[1.], [2], [3]]))))(
        *_points(q)),
}


def extra(name, q):
    """outcome of EXTRA[name], and the warnings that were given"""
    with warnings.catch_warnings(record=True) as seen:
        warnings.resetwarnings()
        warnings.simplefilter('always')
        with np.errstate(divide='ignore', invalid='ignore', over='ignore', under='ignore'):
            try:
                status, value = 'ok', hist.describe(EXTRA[name](q))
            except Exception as exc:
                status, value = 'error', type(exc).__name__
    return status, ('seq', value, tuple(sorted(set(w.category.__name__ for w in seen))))


def perform(request):
    if request[0] == 'extra':
        return extra(*request[1:])
    name, args, q, same = request
    objs = [hist.rebuild(a) for a in args]
    with np.errstate(divide='warn', invalid='warn', over='warn', under='ignore'):
        status, value = hist.perform(name, [objs[i] for i in same], q)
    return status, hist.describe(value) if status == 'ok' else value


def main(inp, out):
    with open(inp, 'rb') as f:
        requests = pickle.load(f)
    answers = [perform(r) for r in requests]
    with open(out, 'wb') as f:
        pickle.dump(answers, f)
