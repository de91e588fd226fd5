"""shared by C17, C18: a float, its surroundings and the mapping driver, on the (virtual) disk"""
import numpy as np

from . import hist

FLOAT = '3901960'
COLS, ROWS = 4320, 2160


def elevation(k):
    """the relief file's cell k: rough, below sea level, so that every position has its own depth"""
    r, c = k // COLS, k % COLS
    return -(2500 + (r * 37 + c * 91) % 1300)


def depth(lon, lat):
    """bilinear depth at a position, straight from the cells (row 0 at 90N, column 0 at 0E)"""
    x, y = (lon % 360) * 12, (90 - lat) * 12
    c, r = int(np.floor(x)), int(np.floor(y))
    u, v = x - c, y - r
    e = lambda i, j: -elevation(i * COLS + j % COLS)                # noqa: E731
    return float((e(r, c) * (1 - u) + e(r, c + 1) * u) * (1 - v) + (e(r + 1, c) * (1 - u) + e(r + 1, c + 1) * u) * v)


def config(T, **over):
    r = T.root
    c = {'FLOAT_SOURCE_DIRECTORY': r + '/source', 'FLOAT_SOURCE_POSTFIX': '.mat', 'CONFIG_DIRECTORY': r + '/const',
         'CONFIG_WMO_BOXES': 'wmo_boxes.mat', 'CONFIG_SAF': 'TypicalProfileAroundSAF.mat', 'CONFIG_MAX_CASTS': 60, 'MAP_USE_PV': 0, 'MAP_USE_SAF': 0,
         'MAPSCALE_LONGITUDE_LARGE': 8, 'MAPSCALE_LONGITUDE_SMALL': 4, 'MAPSCALE_LATITUDE_LARGE': 6, 'MAPSCALE_LATITUDE_SMALL': 3,
         'MAPSCALE_PHI_LARGE': 0.6, 'MAPSCALE_PHI_SMALL': 0.35, 'MAPSCALE_AGE_LARGE': 20, 'MAPSCALE_AGE_SMALL': 5,
         'MAP_P_DELTA': 200, 'MAP_P_EXCLUDE': 100, 'FLOAT_MAPPED_DIRECTORY': r + '/mapped', 'FLOAT_MAPPED_PREFIX': 'map_',
         'FLOAT_MAPPED_POSTFIX': '_m.mat', 'FLOAT_CALIB_DIRECTORY': r + '/calib', 'FLOAT_CALIB_PREFIX': 'cal_',
         'FLOAT_CALSERIES_PREFIX': 'calseries_', 'FLOAT_CALIB_POSTFIX': '_c.mat'}
    c.update(hist.config(T, over.get('MAP_P_DELTA', c['MAP_P_DELTA'])))
    c.update(over)
    return c


def mapped_path(T):
    return f'{T.root}/mapped/set/map_{FLOAT}_m.mat'


def box_table(T, rows):
    """all 648 boxes; only the given box numbers refer to data; rows: index of table row -> (box, type)"""
    t = np.zeros((648, 4))
    t[:, 0] = 1000 + np.arange(648)
    for k, (box, typ) in rows.items():
        t[k, 0], t[k, typ] = box, 1
    T.save(T.root + '/const/wmo_boxes.mat', {'la_wmo_boxes': T.arr(t.tolist(), 'f')})


# casts: (longitude, latitude, date, deepest level used, salinity offset)
CASTS = [(10.3, -44.2, 20010301, 6, 0.0), (11.7, -44.9, 20051115, 6, 0.03), (9.2, -45.6, 20030620, 6, -0.02),
         (12.4, -43.7, 20080505, 6, 0.015), (8.6, -44.4, 19991212, 6, -0.035), (10.9, -45.9, 20101010, 5, 0.025),
         (9.8, -43.3, 20020214, 4, -0.01), (11.2, -46.4, 20060707, 6, 0.04), (13.1, -45.3, 20040404, 6, 0.005),
         (7.9, -45.0, 20070917, 6, -0.015), (10.1, -46.9, 20000130, 6, 0.02), (12.0, -42.8, 20090826, 6, -0.03),
         (10.6, -44.6, 20020801, 6, 0.5)]
PRES = [10.0, 150.0, 400.0, 800.0, 1300.0, 1900.0]
TEMP = [12.0, 9.5, 7.0, 4.5, 3.2, 2.4]
SALT = [34.0, 34.2, 34.35, 34.5, 34.65, 34.72]


def cast(k, shift=0.0, offset=0.0):
    lon, lat, date, deep, off = CASTS[k]
    nan = float('nan')
    t = [TEMP[i] + 0.11 * ((k * 7 + i) % 5) - 0.2 for i in range(6)]
    return dict(lat=lat, long=(lon + shift) % 360, date=float(date), pres=[PRES[i] + 3.0 * k + i if i < deep else nan for i in range(6)],
                ptmp=[t[i] if i < deep else nan for i in range(6)],
                sal=[SALT[i] + offset + off * (1 + 0.1 * i) if i < deep else nan for i in range(6)])


def setup(T, casts, shift, wmo_rows, offset=0.0):
    """write relief, boxes and historical files; returns the casts in file order"""
    T.binfile(T.root + '/const/tbase.int', elevation, COLS * ROWS)
    order, rows = [], {}
    for want_type, lo, hi in ((1, -90, -44.95), (3, -44.95, 90)):
        sel = [k for k in casts if lo < CASTS[k][1] <= hi]
        if not sel:
            continue
        box = 7300 + want_type
        hist.write(T, want_type, box, [cast(k, shift, offset) for k in sel], ['1900001_1'] * len(sel) if want_type == 3 else None)
        rows[wmo_rows[len(rows)]] = (box, want_type)
        order += sel
    box_table(T, rows)
    return [dict(cast(k, shift, offset), no=k) for k in order]


def decimal(date):
    return hist.decimal(int(date))


def in_situ(p):
    """in-situ temperatures of a profile, different from its potential temperatures"""
    return p['in situ'] if 'in situ' in p else [v + 0.12 + 0.03 * i for i, v in enumerate(p['ptmp'])]


def source(T, profiles, levels):
    """profiles: list of dict(no, lat, long, date, pres, ptmp, sal)"""
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    d = {'PROFILE_NO': T.arr([[p['no'] for p in profiles]], 'i'), 'LAT': A([[p['lat'] for p in profiles]]),
         'LONG': A([[p['long'] for p in profiles]]), 'DATES': A([[p['date'] for p in profiles]])}
    for key, k in (('PRES', 'pres'), ('PTMP', 'ptmp'), ('TEMP', 'temp'), ('SAL', 'sal')):
        d[key] = A([[p[k][i] if k != 'temp' else in_situ(p)[i] for p in profiles] for i in range(levels)])
    T.save(f'{T.root}/source/set/{FLOAT}.mat', d)


def saf_table(T):
    from .c10 import TABLE
    T.save(T.root + '/const/TypicalProfileAroundSAF.mat', {k: T.arr([list(map(float, v))], 'f') for k, v in TABLE.items()})
