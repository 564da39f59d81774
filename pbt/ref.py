"""Reference model in x86 80-bit long double (eps 1.1e-19), independent of nvector.

Canonical axes used here: x towards lat=lon=0, y towards lat=0 lon=90 deg, z north.
"""
import numpy as np

LD = np.longdouble
EPS = float(np.finfo(float).eps)
PI = LD('3.14159265358979323846264338327950288')
assert np.finfo(LD).eps < 2e-19, 'long double is not extended precision here'

# E axes: rows are the canonical axes expressed so that n_E = C[axes] @ n_canonical
#  'e': z north, x lat=lon=0.   'E': x north, y lon=90 deg, z opposite to lat=lon=0.
C = {'e': np.eye(3, dtype=LD),
     'E': np.array([[0, 0, 1], [0, 1, 0], [-1, 0, 0]], dtype=LD)}
# library matrices R_Ee (for the functional API): n_E = R_Ee.T @ C['E'] @ n_canonical
R_E = {'e': np.array([[0, 0, 1.0], [0, 1.0, 0], [-1.0, 0, 0]]), 'E': np.eye(3)}


def ld(x):
    return np.asarray(x, dtype=LD)


def col(x):
    """3 x n long double array"""
    x = ld(x)
    return x.reshape(3, -1)


def norm(v):
    return np.sqrt(np.sum(v * v, axis=0))


def unit(v):
    return v / norm(v)


def dot(a, b):
    return np.sum(a * b, axis=0)


def cross(a, b):
    a, b = np.broadcast_arrays(a, b)
    return np.stack([a[1] * b[2] - a[2] * b[1],
                     a[2] * b[0] - a[0] * b[2],
                     a[0] * b[1] - a[1] * b[0]])


def mat(R):
    """C such that n_E = C @ n_canonical for a library matrix R_Ee"""
    return ld(R).T @ C['E']


def nvec(lat, lon):
    lat, lon = np.broadcast_arrays(ld(lat).ravel(), ld(lon).ravel())
    c = np.cos(lat)
    return np.stack([c * np.cos(lon), c * np.sin(lon), np.sin(lat)])


def latlon(n):
    n = col(n)
    return np.arctan2(n[2], np.hypot(n[0], n[1])), np.arctan2(n[1], n[0])


def ecef(n, z, a, f):
    """Geodetic formula: point with outward normal n (canonical axes, any length) and depth z."""
    n = unit(col(n))
    a, f, z = LD(a), LD(f), ld(z)
    e2 = f * (2 - f)
    N = a / np.sqrt(1 - e2 * n[2] ** 2)          # radius of curvature in the prime vertical
    return np.stack([(N - z) * n[0], (N - z) * n[1], (N * (1 - e2) - z) * n[2]])


def R_EN(lat, lon):
    """3 x 3 x n, columns north, east, down in canonical axes"""
    lat, lon = np.broadcast_arrays(ld(lat).ravel(), ld(lon).ravel())
    sl, cl, so, co = np.sin(lat), np.cos(lat), np.sin(lon), np.cos(lon)
    north = np.stack([-sl * co, -sl * so, cl])
    east = np.stack([-so, co, 0 * co])
    down = -np.stack([cl * co, cl * so, sl])
    return np.stack([north, east, down], axis=1)


def R_EN_n(n):
    n = unit(col(n))
    east = unit(np.stack([-n[1], n[0], 0 * n[0]]))
    return np.stack([cross(n, east), east, -n], axis=1)


def angle(a, b):
    a, b = col(a), col(b)
    return np.arctan2(norm(cross(a, b)), dot(a, b))


def chord_azimuth(pa, pb, na):
    """azimuth at A of the chord from pa to pb, and its horizontal length"""
    d = pb - pa
    R = R_EN_n(na)
    x, y = dot(R[:, 0], d), dot(R[:, 1], d)
    return np.arctan2(y, x), np.hypot(x, y)


def gc_azimuth(na, nb):
    R = R_EN_n(na)
    nb = col(nb)
    return np.arctan2(dot(R[:, 1], nb), dot(R[:, 0], nb))


def gc_dest(na, az, d):
    """spherical destination; na outside the poles"""
    R = R_EN_n(na)
    az, d = ld(az), ld(d)
    direction = R[:, 0] * np.cos(az) + R[:, 1] * np.sin(az)
    return unit(col(na)) * np.cos(d) + direction * np.sin(d)


def rot(axis, angle_):
    """elementary rotation matrix about axis 0, 1, 2 (right hand rule)"""
    c, s = np.cos(LD(angle_)), np.sin(LD(angle_))
    R = np.zeros((3, 3), dtype=LD)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    R[axis, axis] = 1
    R[i, i] = R[j, j] = c
    R[i, j], R[j, i] = -s, s
    return R


def quat2R(q):
    q = ld(q)
    q = q / np.sqrt(np.sum(q * q))
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]],
                    dtype=LD)


def wrap(x):
    """angle difference to [-pi, pi]"""
    x = np.mod(ld(x) + PI, 2 * PI) - PI
    return x


def f64(x):
    return np.asarray(x, dtype=LD).astype(np.float64)
