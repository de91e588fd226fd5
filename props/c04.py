"""C04: depth window of the relief file (pyowc.data.fetchers.get_topo_grid)"""

COLS, ROWS = 4320, 2160
BOUNDS = ('every real window with west edge in [-360, 719], height and width up to 2 cells of 1/12 degree (thorough 4), '
          'latitudes in [-90.8, 90.5]; the relief file is an arbitrary function of the cell position (symbolic mode: '
          'cell k holds the number k)')
ASSUMES = ['min <= max in both directions and the window meets (-89.9, 90]; the file has 2160 rows from 90N, '
           '4320 columns from 0E, 16-bit integers']


def cases(tier):
    m = 2 if tier == 'quick' else 4
    regions = [(-4320, -40), (-40, -1), (-1, 1), (1, 4280), (4280, 4310), (4310, 4325), (4325, 4400), (4400, 8630)]
    return [dict(region=r, m=m, lat=l) for r in regions for l in ((-1090, -1070), (-1070, 1070), (1070, 1085))]


def word(T):
    if T.sym:
        return lambda k: k
    return lambda k: ((k * 40503) ^ (k >> 7)) % 32749


def run(T, case):
    f = T.mod('data.fetchers').get_topo_grid
    w = word(T)
    T.binfile(T.root + '/const/tbase.int', w, COLS * ROWS)
    m = case['m']
    # positions as (whole cells + fraction) / 12
    a, b = case['region']
    ix, fx = T.int('min_long_cell', a, b - 1), T.real('min_long_frac', 0, 1, hi_open=True)
    a, b = case['lat']
    iy, fy = T.int('min_lat_cell', a, b - 1), T.real('min_lat_frac', 0, 1, hi_open=True)
    wx, wy = T.real('width', 0, m), T.real('height', 0, m)
    x0, x1 = (ix + fx) / 12, (ix + fx + wx) / 12
    y0, y1 = (iy + fy) / 12, (iy + fy + wy) / 12
    T.assume(T.And(y0 <= 90, y1 >= -89.9))
    topo, longs, lats = T.call(f, x0, x1, y0, y1, {'CONFIG_DIRECTORY': T.root + '/const'})
    T.observe('size', [topo.shape[0], topo.shape[1]])
    T.observe('longs', longs)
    T.observe('lats', lats)
    sh = tuple(longs.shape)
    T.check(len(sh) == 2 and sh[0] > 0 and sh[1] > 0 and T.shape_is(lats, sh) and T.shape_is(topo, sh),
            'one non-empty two-dimensional shape')
    g = lambda a, i, j: a[i, j]        # noqa: E731
    cs = []
    for i in range(sh[0]):
        for j in range(sh[1]):
            if j:
                cs.append(T.eq((g(longs, i, j) - g(longs, i, j - 1)) * 12, 1.0))
            if i:
                cs.append(T.eq((g(lats, i - 1, j) - g(lats, i, j)) * 12, 1.0))
                cs.append(T.eq(g(longs, i, j), g(longs, 0, j)))
            if j:
                cs.append(T.eq(g(lats, i, j), g(lats, i, 0)))
    T.check(T.And(*cs), 'longitudes ascend and latitudes descend by 1/12 degree')
    T.check(T.And(longs[0, 0] <= x0 + 1e-9, longs[0, sh[1] - 1] >= x1 - 1e-9), 'window covers the longitudes')
    T.check(T.And(lats[0, 0] >= T.ite(y1 > 90, 90.0, y1) - 1e-9,
                  lats[sh[0] - 1, 0] <= T.ite(y0 < -89.91, -89.91, y0) + 1e-9), 'window covers the latitudes')
    T.check(T.And(lats[0, 0] <= 90 + 1e-9, T.Or(longs[0, 0] > x0 - 1 / 12 - 1e-9),
                  longs[0, sh[1] - 1] < x1 + 1 / 12 + 1e-9), 'window is not wider than the request needs')
    cs = []
    for i in range(sh[0]):
        for j in range(sh[1]):
            if T.sym:
                from symx import core
                near = lambda x: core.to_int(core.s_floor(x + 0.5))        # noqa: E731
                y, x = (90 - lats[i, j]) * 12, longs[i, j] * 12
                row, col = near(y), near(x)
                ok = T.And(T.near(y, row, 1e-6), T.near(x, col, 1e-6), T.eq(topo[i, j], row * COLS + col % COLS))
            else:
                row = int(round((90 - lats[i, j]) * 12))
                col = int(round(longs[i, j] * 12)) % COLS
                ok = topo[i, j] == w(row * COLS + col)
            cs.append(ok)
    T.check(T.And(*cs), 'each elevation is the file cell at its coordinates')
