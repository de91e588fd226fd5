"""C03: the 25 WMO boxes around a position (pyowc.core.finders.find_25boxes)"""

BOUNDS = ('every real longitude in [0, 360) and latitude in (-90, 90) by exhaustive case split over the 36 x 18 boxes, '
          'except positions less than 0.011 degree west or south of a box edge (the code tolerates 0.01 there)')
ASSUMES = ['the box table has 648 rows in box order (its contents here: distinct numbers per row and column)']


def cases(tier):
    out = [dict(lat=r, lon=c) for r in range(18) for c in range(0, 36, 6)]
    return out + [dict(nan=k) for k in ('lon', 'lat', 'both')]


def table(T):
    return T.arr([[1000 + k, 3 * k + 1, 7 * k + 2, 11 * k + 5] for k in range(648)], 'f')


def run(T, case):
    f = T.mod('core.finders').find_25boxes
    tab = table(T)
    if 'nan' in case:
        lon = float('nan') if case['nan'] != 'lat' else T.real('lon', 0, 360, hi_open=True)
        lat = float('nan') if case['nan'] != 'lon' else T.real('lat', -90, 90, lo_open=True, hi_open=True)
        r = T.call(f, lon, lat, {'la_wmo_boxes': tab})
        T.observe('rows', r)
        T.check(T.shape_is(r, (25, 4)), '25 rows of four columns')
        T.check(T.And(*[T.isnan(v) for v in T.elems(r)]), 'missing position gives missing rows')
        return
    lo, row = case['lon'], case['lat']
    lat0 = 80 - 10 * row
    lon = T.real('lon', 10 * lo, 10 * (lo + 6), hi_open=True)
    lat = T.real('lat', lat0, lat0 + 10, lo_open=(row == 17), hi_open=True)
    T.assume(lat <= lat0 + 10 - 0.011)
    col = lo
    while col < lo + 5 and not T.split(lon < 10 * (col + 1)):
        col += 1
    T.assume(lon <= 10 * (col + 1) - 0.011)
    r = T.call(f, lon, lat, {'la_wmo_boxes': tab})
    T.observe('rows', r)
    T.check(T.shape_is(r, (25, 4)), '25 rows of four columns')
    exp = []
    for dr in range(-2, 3):
        for dc in range(-2, 3):
            k = ((col + dc) % 36) * 18 + min(max(row + dr, 0), 17)
            exp.append((1000 + k, 3 * k + 1, 7 * k + 2, 11 * k + 5))
    got = sorted(tuple(float(v) for v in T.elems(r[i])) for i in range(25))
    T.check(got == sorted(tuple(float(v) for v in e) for e in exp), 'rows are the 25 surrounding boxes',
            note=f'column {col} row {row}')
