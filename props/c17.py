"""C17: the mapping of one float, end to end (update_salinity_mapping)"""
import os

from . import world
from .world import CASTS, PRES, SALT, TEMP

NAN = float('nan')
BOUNDS = ('1..3 profiles of 2..4 levels, 7..13 casts in two files, relief and box files; symbolic: order of the profile numbers, which '
          'levels and positions are missing, one level pressure, the exclusion pressure, salinities of the casts shifted out of range; with and without '
          'vorticity and frontal filter, float east or west of Greenwich; the positions, temperatures and other pressures are concrete')
ASSUMES = ['at least one historical cast in the region and one with data among those selected',
           'selection, interpolation, variances, objective mapping and the frontal filter are those of C06, C10-C14 (called by the reference)']
QUICK_S = 120

BASE = [(10.1, -44.7, 2005.4), (10.6, -45.2, 2005.6), (11.3, -44.1, 2005.8)]


def cases(tier):
    out = [dict(kind='order', n=2, extra={}), dict(kind='order', n=3, extra={}),
           dict(kind='order', n=2, extra=dict(MAP_USE_PV=1)), dict(kind='order', n=2, extra=dict(CONFIG_MAX_CASTS=8)),
           dict(kind='order', n=2, extra=dict(CONFIG_MAX_CASTS=9, MAP_USE_PV=1)),
           dict(kind='missing', n=2, extra={}), dict(kind='position', n=2, extra={}), dict(kind='pres', n=1, extra={}),
           dict(kind='pres', n=1, extra=dict(MAP_P_DELTA=40)), dict(kind='few', n=2, extra={}), dict(kind='deeper', n=2, extra={}), dict(kind='alone', n=1, extra={}),
           dict(kind='exclude', n=1, extra={}),
           dict(kind='outlier', n=1, extra={}), dict(kind='range', n=1, extra={}), dict(kind='none', n=2, extra=dict(MAPSCALE_LATITUDE_LARGE=3)),
           dict(kind='abstract', n=1, extra={}), dict(kind='saf', n=2, extra=dict(MAP_USE_SAF=1)),
           dict(kind='west', n=1, extra={}, shift=-10.5), dict(kind='west', n=1, extra=dict(MAP_USE_PV=1), shift=-8.0),
           dict(kind='west', n=1, extra={}, shift=-25.0), dict(kind='west', n=1, extra={}, shift=-14.5, fshift=-9.7),
           dict(kind='west', n=1, extra={}, shift=-7.0, fshift=-10.5), dict(kind='west', n=1, extra=dict(MAP_USE_PV=1), shift=-14.5, fshift=-9.7)]
    if tier == 'thorough':
        out += [dict(kind='order', n=4, extra={}), dict(kind='missing', n=3, extra=dict(MAP_USE_PV=1)),
                dict(kind='pres', n=2, extra=dict(MAP_USE_PV=1, CONFIG_MAX_CASTS=8)), dict(kind='outlier', n=2, extra=dict(MAP_USE_PV=1)),
                dict(kind='west', n=2, extra={}, shift=-20.5), dict(kind='west', n=2, extra={}, shift=-4.5)]
    return out


def float_profile(i, no, levels, shift=0.0):
    lon, lat, date = BASE[i % 3]
    return dict(no=no, lat=lat - 0.2 * (i // 3), long=(lon + shift) % 360, date=date,
                pres=[p + 5.0 * i + 11 for p in PRES[1:levels + 1]], ptmp=[t + 0.07 * i + 0.02 for t in TEMP[1:levels + 1]],
                sal=[s + 0.01 * i for s in SALT[1:levels + 1]])


def run(T, case):
    kind, n = case['kind'], case['n']
    cfg = world.config(T, **case['extra'])
    levels = 4 if kind in ('few', 'pres', 'range', 'deeper', 'exclude') else 3
    if kind == 'exclude':
        cfg['MAP_P_EXCLUDE'] = T.real('exclude', 0, 1800)
    shift = case.get('shift', 0.0)
    ks = list(range(12)) if kind in ('order', 'outlier') else list(range(9))
    if kind == 'order' and n == 2:
        ks = list(range(10))
    if kind == 'few':
        ks = [0, 1, 2, 3, 5, 6, 7]
    if kind == 'outlier':
        ks = ks + [12]
    nos = [3, 1, 2, 7][:n]
    if kind == 'order':
        left, nos = [1, 2, 3, 4][:n], []
        for i in range(n):
            nos.append(left.pop(T.int(f'profile {i}', 0, len(left) - 1)) if len(left) > 1 else left.pop())
    if kind == 'alone':
        levels = 1
    fshift = case.get('fshift', shift)
    prof = [float_profile(i, nos[i], levels, fshift) for i in range(n)]
    if kind == 'alone':
        prof[0]['ptmp'][0] += 1.0
    if kind == 'missing':
        for i in range(n):
            for lv in range(levels):
                if i == 0 or lv == 1:
                    what = T.choice(f'missing {i},{lv}', ['', 'sal', 'pres', 'all'] if i == 0 and lv < 2 else ['', 'sal'])
                    for k in {'': [], 'sal': ['sal'], 'pres': ['pres'], 'all': ['sal', 'pres', 'ptmp']}[what]:
                        prof[i][k][lv] = NAN
    if kind == 'deeper':
        first, keep = T.int('first', 0, 1), T.int('levels', 1, 3)
        for k in ('sal', 'pres', 'ptmp'):
            prof[first][k] = prof[first][k][:keep] + [NAN] * (levels - keep)
    if kind == 'position':
        for i in range(n):
            k = T.choice(f'position {i}', ['', 'lat', 'long', 'pres'])
            if k == 'pres':
                prof[i]['pres'] = [NAN] * levels
            elif k:
                prof[i][k] = NAN
    if kind == 'pres':
        prof[0]['pres'][1] = T.real('pressure', 20, 1500)
    if kind == 'none':
        i = T.int('far profile', 0, n - 1)
        prof[i]['lat'] += 17
    if kind == 'saf':
        world.saf_table(T)
        prof[0]['ptmp'] = [[5.5, 5.3, 5.1], [2.9, 2.5, 2.2], [4.4, 4.2, 4.0]][T.int('class', 0, 2)]
    offset = T.choice('offset', [0.0, -4.5, -4.9, 5.35, 6.5]) if kind == 'range' else 0.0
    box = int((10.1 + fshift) % 360 // 10) * 18 + 13                # the float's box and the one north of it hold the casts
    casts = world.setup(T, ks, shift, [box, box - 1], offset)
    world.source(T, prof, levels)
    if kind == 'abstract':
        return abstract(T, cfg)
    conf = {k: str(v) for k, v in cfg.items()}
    T.call(T.mod('calibration').update_salinity_mapping, 'set', cfg, world.FLOAT)
    T.check({k: str(v) for k, v in cfg.items()} == conf, 'the parameters are left as given')
    out = T.load(world.mapped_path(T))
    T.check('la_mapsalerrors' in out and T.shape_is(out['la_mapped_sal'], (levels, n)), 'one column per profile')
    order = sorted(range(n), key=lambda i: nos[i])
    T.check([float(v) for v in T.elems(out['la_profile_no'])] == [float(nos[i]) for i in order], 'sorted by profile number')
    seen = []
    for col, i in enumerate(order):
        ref, used = reference(T, cfg, prof[i], casts, levels)
        seen.append((nos[i], used))
        for key, name in (('la_mapped_sal', 'sal'), ('la_mapsalerrors', 'err'), ('la_noise_sal', 'noise'), ('la_signal_sal', 'signal'),
                          ('la_ptmp', 'ptmp')):
            for lv in range(levels):
                got = out[key][lv, col]
                T.observe(key, got)
                T.check(T.near1(got, ref[lv][name] if ref[lv] else NAN, 1e-6), f'{key} is the value computed for that profile and level')
        if os.environ.get('C17_DEBUG'):
            print(case, [r and r['sal'] for r in ref])
        any_ = any(r is not None for r in ref)
        for key, opt in (('scale_long_large', 'MAPSCALE_LONGITUDE_LARGE'), ('scale_lat_large', 'MAPSCALE_LATITUDE_LARGE'),
                         ('scale_long_small', 'MAPSCALE_LONGITUDE_SMALL'), ('scale_lat_small', 'MAPSCALE_LATITUDE_SMALL'),
                         ('scale_phi_large', 'MAPSCALE_PHI_LARGE'), ('scale_phi_small', 'MAPSCALE_PHI_SMALL'),
                         ('scale_age_large', 'MAPSCALE_AGE_LARGE'), ('scale_age_small', 'MAPSCALE_AGE_SMALL'),
                         ('use_pv', 'MAP_USE_PV'), ('use_saf', 'MAP_USE_SAF'), ('p_delta', 'MAP_P_DELTA'), ('p_exclude', 'MAP_P_EXCLUDE')):
            v = T.elems(out[key])
            T.check(len(v) == n and T.near1(v[col], float(cfg[opt]) if any_ else NAN, 1e-9), f'{key} is stored for mapped profiles')
    sel = out['selected_hist']
    pts = [[float(v) for v in T.elems(sel[i])] for i in range(len(sel))] if T.np.size(sel) else []
    T.check([p[2] for p in pts] == sorted(p[2] for p in pts), 'reference points sorted by profile')
    for no, used in seen:
        for x, y in used:
            T.check(any(abs(p[0] - x) < 1 / 60 + 1e-9 and abs(p[1] - y) < 1 / 60 + 1e-9 for p in pts), 'reference points of mapped levels are recorded')
    allused = [u for _, used in seen for u in used]
    T.check(all(any(abs(p[0] - x) < 1e-9 and abs(p[1] - y) < 1e-9 for x, y in allused) for p in pts), 'recorded points were used')


def abstract(T, cfg):
    """two levels whose objective mapping returns arbitrary values: what is stored of them"""
    vals = []

    def mapping(sal, *a, **k):
        i = len(vals)
        v, e = T.real(f'mapped {i}', -20, 60), T.real(f'error {i}', 0, 5)
        vals.append((v, e))
        return v, e, T.np.zeros(len(sal)), T.np.zeros(len(sal))
    T.mod('calibration')
    T.override('data.wrangling', 'map_data_grid', mapping)
    T.call(T.mod('calibration').update_salinity_mapping, 'set', cfg, world.FLOAT)
    out = T.load(world.mapped_path(T))
    T.check(len(vals) in (4, 6), 'two mappings per level')
    for lv in range(len(vals) // 2):
        (a, e), (b, f) = vals[2 * lv:2 * lv + 2]
        v, q = out['la_mapped_sal'][lv, 0], out['la_mapsalerrors'][lv, 0]
        T.observe('stored', v)
        t = a + b
        T.check(T.iff(T.isnan(v), T.Or(t < 30, t > 40)), 'missing exactly outside 30 to 40')
        if not T.split(T.isnan(v)):
            T.check(T.eq(v, t), 'large-scale plus small-scale estimate')
        T.check(T.And(q >= 0, T.eq(q * q, e * e + f * f)), 'root of the summed squared errors')


def reference(T, cfg, p, casts, levels):
    """the mapped values of one profile, from the casts themselves"""
    none = [None] * levels
    if p['lat'] != p['lat'] or p['long'] != p['long'] or all(T.split(T.isnan(v)) for v in p['pres']):
        return none, []
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    branch = lambda x: x + 360 * round((p['long'] - x) / 360)       # noqa: E731
    # everything on the branch used by the region's data
    lon = [branch(c['long']) for c in casts]
    off = 360 if any(c['long'] >= 320 for c in casts) and p['long'] <= 40 else (
        -360 if p['long'] >= 320 and not any(c['long'] >= 320 for c in casts) else 0)
    lon = [x + off for x in lon]
    plon = p['long'] + off
    z = [world.depth(x, c['lat']) for x, c in zip(lon, casts)]
    pz = world.depth(plon, p['lat'])
    dates = [world.decimal(c['date']) for c in casts]
    lat = [c['lat'] for c in casts]
    idx = T.call(T.mod('core.finders').find_besthist, A(lat), A(lon), A(dates), A(z), p['lat'], plon, p['date'], pz,
                 cfg['MAPSCALE_LATITUDE_LARGE'], cfg['MAPSCALE_LATITUDE_SMALL'], cfg['MAPSCALE_LONGITUDE_LARGE'],
                 cfg['MAPSCALE_LONGITUDE_SMALL'], cfg['MAPSCALE_PHI_LARGE'], cfg['MAPSCALE_PHI_SMALL'], cfg['MAPSCALE_AGE_LARGE'],
                 cfg['MAPSCALE_AGE_SMALL'], cfg['MAP_USE_PV'], cfg['CONFIG_MAX_CASTS'])
    idx = sorted(int(k) for k in T.elems(idx))
    if not idx:
        return none, []
    W = T.mod('data.wrangling')
    g = [casts[k] for k in idx]
    loc = [(lat[k], lon[k], dates[k], z[k]) for k in idx]
    if cfg['MAP_USE_SAF'] == 1:
        grid = {'grid_' + k: A([c[k] for c in g]).T for k in ('sal', 'ptmp', 'pres')}
        grid.update({'grid_' + k: A([q[j] for q in loc]) for j, k in enumerate(('lat', 'long', 'dates', 'z'))})
        r = T.call(T.mod('data.fetchers').frontal_constraint_saf, cfg, grid,
                   {'float_lat': p['lat'], 'float_long': plon, 'float_sal': A(p['sal']), 'float_ptmp': A(p['ptmp']), 'float_pres': A(p['pres']),
                    'float_tmp': A(world.in_situ(p)), 'float_date': p['date'], 'float_z': pz})
        keep = [float(v) for v in T.elems(r['grid_lat'])]
        if len(keep) > 5:
            both = [(c, q) for c, q in zip(g, loc) if q[0] in keep]
            g, loc = [b[0] for b in both], [b[1] for b in both]
    # casts are cut below the float (deepest level plus the window)
    deepest = None
    for v in p['pres']:
        if not T.split(T.isnan(v)) and (deepest is None or T.split(v > deepest)):
            deepest = v
    cut = [[T.split(x == x) and T.split(x <= deepest + cfg['MAP_P_DELTA']) for x in c['pres']] for c in g]
    col = lambda k: A([[c[k][lv] if ok[lv] else NAN for c, ok in zip(g, cut)] for lv in range(6)])       # noqa: E731
    hs, hp = T.call(W.interp_climatology, col('sal'), col('ptmp'), col('pres'), A(p['sal']), A(p['ptmp']), A(p['pres']))
    res, used = [], []
    for lv in range(levels):
        fp = p['pres'][lv]
        if p['sal'][lv] != p['sal'][lv] or T.split(T.isnan(fp)) or not T.split(fp >= cfg['MAP_P_EXCLUDE']):
            res.append(None)
            continue
        rows = []
        for j in range(len(g)):
            s, q = hs[lv, j], hp[lv, j]
            if not T.split(T.isnan(s)) and T.split(T.And(q - fp < cfg['MAP_P_DELTA'], fp - q < cfg['MAP_P_DELTA'])):
                rows.append((float(s), loc[j]))
        if len(rows) <= 5:
            res.append(None)
            continue
        m = sum(r[0] for r in rows) / len(rows)
        sd = (sum((r[0] - m) ** 2 for r in rows) / len(rows)) ** 0.5
        rows = [r for r in rows if abs(r[0] - m) <= 3 * sd]
        s = [r[0] for r in rows]
        S = T.mod('core.stats')
        noise = float(T.call(S.noise_variance, A(s), A([r[1][0] for r in rows]), A([r[1][1] for r in rows])))
        m = sum(s) / len(s)
        signal = sum((v - m) ** 2 for v in s) / len(s)
        here = A([[p['lat'], plon, p['date'], pz]])
        there = A([list(r[1]) for r in rows])
        a = T.call(W.map_data_grid, A(s), here, there, cfg['MAPSCALE_LONGITUDE_LARGE'], cfg['MAPSCALE_LATITUDE_LARGE'],
                   cfg['MAPSCALE_AGE_LARGE'], signal, noise, cfg['MAPSCALE_PHI_LARGE'], cfg['MAP_USE_PV'])
        left = [float(v) - float(w) for v, w in zip(s, T.elems(a[2]))]
        m = sum(left) / len(left)
        b = T.call(W.map_data_grid, A(left), here, there, cfg['MAPSCALE_LONGITUDE_SMALL'], cfg['MAPSCALE_LATITUDE_SMALL'],
                   cfg['MAPSCALE_AGE_SMALL'], sum((v - m) ** 2 for v in left) / len(left), noise, cfg['MAPSCALE_PHI_SMALL'], cfg['MAP_USE_PV'])
        v = float(a[0]) + float(b[0])
        used += [(r[1][1], r[1][0]) for r in rows]
        res.append(dict(sal=v if 30 <= v <= 40 else NAN, err=(float(a[1]) ** 2 + float(b[1]) ** 2) ** 0.5, noise=noise, signal=signal,
                        ptmp=p['ptmp'][lv]))
    return res, used
