"""C09: level filter, padding, missing-value synchronisation and removal of empty casts (get_region_data)"""
from . import hist

BOUNDS = ('2..3 selected casts of 2..3 levels in one or two files, every pressure, salinity and temperature symbolic or '
          'missing, symbolic float pressure and margin')
ASSUMES = ['files have at least two levels; pressures within 0..2000']
KEYS = ('sal', 'ptmp', 'pres')


def cases(tier):
    out = [dict(files=[2], levels=[2], nan=n) for n in ('pres', 'sal', 'ptmp', 'all')]
    out += [dict(files=[1, 1], levels=[2, 3], nan=n) for n in ('pres', 'mix')]
    out += [dict(files=[3], levels=[2], nan='pres'), dict(files=[1, 1, 1], levels=[3, 2, 3], nan='some'),
            dict(files=[1, 2], levels=[3, 2], nan='mix', margin=True), dict(files=[1], levels=[3], nan='all')]
    if tier == 'thorough':
        out += [dict(files=[2], levels=[3], nan='all'), dict(files=[3], levels=[3], nan='pres'),
                dict(files=[1, 1, 1], levels=[2, 3, 4], nan='mix'), dict(files=[2, 2], levels=[2, 3], nan='pres')]
    return out


def run(T, case):
    delta = T.real('margin', 0, 400) if case.get('margin') else 250
    cfg = hist.config(T, delta)
    casts, rows = [], []
    mode = case['nan']
    for f, (n, L) in enumerate(zip(case['files'], case['levels'])):
        mine = []
        for j in range(n):
            q = len(casts)
            c = dict(lat=-40.0 + q, long=100.0 + 2 * q, date=20050101 + q)
            for k in KEYS:
                vals = []
                for i in range(L):
                    nan = mode in (k, 'all') or (mode == 'mix' and (i + q + KEYS.index(k)) % 3 == 0) or \
                        (mode == 'some' and k == 'pres' and i == q)
                    if k == 'pres' and mode in ('pres', 'all', 'mix', 'some') or nan:
                        lo, hi = {'sal': (30, 40), 'ptmp': (-2, 30), 'pres': (0, 2000)}[k]
                        vals.append(T.real(f'{k}{q}.{i}', lo, hi, nan=nan))
                    elif k == 'pres':
                        vals.append(300.0 * (i + 1))
                    else:
                        vals.append({'sal': 34.0, 'ptmp': 5.0}[k] + q + i / 8)
                c[k] = vals
            casts.append(c)
            mine.append(c)
        hist.write(T, 1, 7300 + f, mine)
        rows.append([7300 + f, 1, 0, 0])
    fp = T.real('deepest', 100, 1500) if mode != 'all' else 1000.0
    F = T.mod('data.fetchers')
    ok, g = T.attempt(F.get_region_data, T.arr(rows, 'f'), '3901960', cfg, T.arr(list(range(len(casts))), 'i'),
                      T.arr([float('nan'), 50.0, fp, 80.0, float('nan')], 'f'))
    limit = fp + delta
    want, longest = [], 0
    for q, c in enumerate(casts):
        col = []
        usable = False
        for i in range(len(c['pres'])):
            if T.split(T.isnan(c['pres'][i])):
                continue
            if not T.split(c['pres'][i] <= limit):
                continue
            whole = T.split(T.Not(T.Or(T.isnan(c['sal'][i]), T.isnan(c['ptmp'][i]))))
            usable = usable or whole
            col.append((i, whole))
        longest = max(longest, len(col))
        if usable:
            want.append((q, col))
    if not want:
        T.check(not ok or len(T.elems(g['grid_lat'])) == 0, 'no usable level: nothing is returned')
        return
    T.check(ok, 'usable casts are returned')
    if not ok:
        return
    T.observe('sal', g['grid_sal'])
    T.observe('pres', g['grid_pres'])
    n = len(want)
    import numpy as np
    R = np.shape(g['grid_pres'])[0]
    T.check(all(T.shape_is(g['grid_' + k], (R, n)) for k in KEYS) and
            all(T.shape_is(g[k], (n,)) for k in ('grid_lat', 'grid_long', 'grid_dates')),
            'one column, position and date per cast with a usable level')
    if not (np.shape(g['grid_pres']) == (R, n) and np.shape(g['grid_lat']) == (n,)):
        return
    T.check(max(len(c) for _, c in want) <= R <= longest, 'as many rows as the longest column')
    for j, (q, col) in enumerate(want):
        c = casts[q]
        T.check(T.And(T.eq(g['grid_lat'][j], c['lat']), T.eq(g['grid_long'][j], c['long']),
                      T.eq(g['grid_dates'][j], hist.decimal(c['date']))), 'position and date belong to the cast')
        for r in range(R):
            for k in KEYS:
                v = g['grid_' + k][r, j]
                if r < len(col) and col[r][1]:
                    T.check(T.eq(v, c[k][col[r][0]]), 'kept levels are in order and not shifted between variables')
                else:
                    T.check(T.isnan(v), 'incomplete levels and padding are missing in all three variables')
