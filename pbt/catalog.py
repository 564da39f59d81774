"""Published ellipsoid parameters, written down independently of nvector.util.

Sources: NIMA TR8350.2 / DMA TR 8350.2 tables, EPSG, PROJ's pj_ellps (a, 1/f).
"""
# id: (a, 1/f, names)
TABLE = {
    1: (6377563.396, 299.3249646, ['airy1858']),
    2: (6377340.189, 299.3249646, ['airymodified']),
    3: (6378160.0, 298.25, ['australiannational']),
    4: (6377397.155, 299.1528128, ['bessel', 'bessel1841']),
    5: (6378249.145, 293.465, ['clarke1880']),
    6: (6377276.345, 300.8017, ['everest1830']),
    7: (6377304.063, 300.8017, ['everestmodified']),
    8: (6378166.0, 298.3, ['fisher1960']),
    9: (6378150.0, 298.3, ['fisher1968']),
    10: (6378270.0, 297.0, ['hough1956', 'hough']),
    11: (6378388.0, 297.0, ['international', 'hayford', 'ed50',
         'international(hayford)/europeandatum(ed50)']),
    12: (6378245.0, 298.3, ['krassovsky', 'krassovsky1938']),
    13: (6378145.0, 298.25, ['nwl-9d', 'wgs66', 'nwl-9d(wgs66)']),
    14: (6378160.0, 298.25, ['southamerican1969', 'sad69']),
    15: (6378136.0, 298.257, ['sovietgeod.system1985']),
    16: (6378135.0, 298.26, ['wgs72']),
    17: (6378206.4, 294.9786982138, ['clarke1866', 'nad27', 'clarke1866(nad27)']),
    18: (6378137.0, 298.257223563, ['grs80', 'wgs84', 'nad83', 'grs80/wgs84(nad83)']),
    19: (6378137.0, 298.257222101, ['etrs89']),
}
NAMES = {name: key for key, (_a, _rf, names) in TABLE.items() for name in names}


def lookup(name):
    key = NAMES[name.lower().replace(' ', '')] if isinstance(name, str) else name
    a, rf, _names = TABLE[key]
    return a, 1.0 / rf
