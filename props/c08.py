"""C08: locations and fetched profiles address the same casts (get_region_hist_locations, get_region_data)"""
from . import hist

FLOAT = '3901960'
LABEL = {True: 'R3901960_3', False: 'R3901961_3'}
BOUNDS = ('2 boxes x 3 data types, each file disabled, missing or present with 1..2 casts of 2 levels (all 729 patterns), '
          'own profiles among the Argo casts; every subset of up to 6 casts, any of them without measurements, the index list ascending or descending; all '
          'real longitudes in [-180, 360] for up to 3 casts in two files')
ASSUMES = ['concrete distinct dates identify the casts; at least two levels per file']
STATES = ['off', 'missing', 'on']


def cases(tier):
    out = []
    for a in STATES:
        for b in STATES:
            for c in STATES:
                out.append(dict(kind='files', first=[a, b, c], desc=(a == 'on')))
    out += [dict(kind='subset', desc=d, own=o) for d in (False, True) for o in (0, 1, 2)]
    out += [dict(kind='long', n=n) for n in ((2, 3) if tier == 'quick' else (2, 3, 4))]
    out += [dict(kind='boxes', order=o) for o in (0, 1)]
    out += [dict(kind='empty', what=w) for w in ('pres', 'sal', 'all')]
    return out


def cast(T, tag, date, sym=True, lo=41, hi=319):
    k = int(date) % 97
    return dict(lat=T.real(f'lat.{tag}', -60, 60) if sym else -30.0 + k, long=T.real(f'long.{tag}', lo, hi), date=date,
                sal=[T.real(f's.{tag}', 30, 40), 35.0 + k / 100], ptmp=[T.real(f't.{tag}', 0, 20), 4.0 + k / 100],
                pres=[T.real(f'p.{tag}', 0, 900), 1000.0])


def run(T, case):
    kind = case['kind']
    cfg = hist.config(T, 500)
    files = []                                   # (box, type, state, casts, own flags)
    date = 20000101
    if kind == 'files':
        states = case['first'] + [T.choice(f'state{i}', STATES) for i in range(3)]
        lens = [1, 2, 2, 2, 1, 2]
        for i, st in enumerate(states):
            box, typ = (7300, 7301)[i // 3], i % 3 + 1
            own = [False] * lens[i]
            if typ == 3:
                own[0] = True
            files.append((box, typ, st, lens[i], own))
    elif kind == 'empty':
        files = [(7300, 1, 'on', 3, [False] * 3), (7300, 3, 'on', 2, [True, False]), (7301, 2, 'on', 1, [False])]
    elif kind == 'subset':
        own = {0: [False, False], 1: [True, False], 2: [False, True]}[case['own']]
        files = [(7300, 1, 'on', 2, [False] * 2), (7300, 3, 'on', 2, own), (7301, 2, 'on', 2, [False] * 2)]
    elif kind == 'long':
        files = [(7300, 1, 'on', 1, [False]), (7301, 2, 'on', case['n'] - 1, [False] * (case['n'] - 1))]
    else:
        files = [(7300, 1, 'on', 2, [False] * 2), (7301, 1, 'on', 1, [False]), (7210, 2, 'on', 2, [False] * 2),
                 (1009, 3, 'on', 2, [True, False])]
        if case['order']:
            files.reverse()
    rows, want = {}, []
    for i, (box, typ, st, n, own) in enumerate(files):
        casts = []
        for j in range(n):
            date += 7 if date % 100 < 20 else 85
            lo, hi = (-180, 360) if kind == 'long' else (41, 319)
            casts.append(cast(T, f'{i}.{j}', date, kind != 'long', lo, hi))
            if kind == 'empty' and T.split(T.bool(f'empty{i}.{j}')):
                casts[-1]['empty'] = True
                for k in ('sal', 'ptmp', 'pres') if case['what'] == 'all' else (case['what'],):
                    casts[-1][k] = [float('nan')] * 2
        if st == 'on' or st == 'off':
            hist.write(T, typ, box, casts, [LABEL[o] for o in own] if typ == 3 else None)
        rows.setdefault(box, [box, 0, 0, 0])[typ] = 0 if st == 'off' else 1
        if st == 'on':
            want += [(c, box, typ) for c, o in zip(casts, own) if not o]
    order = list(rows)
    want.sort(key=lambda w: (order.index(w[1]), w[2]))
    want = [w[0] for w in want]
    boxes = T.arr([rows[b] for b in order], 'f')
    F = T.mod('data.fetchers')
    ok, r = T.attempt(F.get_region_hist_locations, boxes, FLOAT, cfg)
    if not want:
        T.check(not ok, 'no cast at all is reported as an error')
        return
    T.check(ok, 'locations are returned')
    if not ok:
        return
    lat, lon, dat = r
    T.observe('locations', T.arr(T.elems(lat) + T.elems(lon) + T.elems(dat), 'f'))
    n = len(want)
    T.check(T.shape_is(lat, (n,)) and T.shape_is(lon, (n,)) and T.shape_is(dat, (n,)), 'one location per enabled cast')
    T.check(T.And(*[T.eq(lat[i], c['lat']) for i, c in enumerate(want)]), 'latitudes in box and type order')
    T.check(T.And(*[T.eq(dat[i], hist.decimal(c['date'])) for i, c in enumerate(want)]), 'dates in box and type order')
    if kind != 'long':
        T.check(T.And(*[T.eq(lon[i], c['long']) for i, c in enumerate(want)]), 'longitudes in box and type order')
    if kind == 'empty':
        sel = list(range(n))
    elif kind in ('subset', 'long'):
        sel = [i for i in range(n) if T.split(T.bool(f'select{i}'))]
    else:
        sel = list(range(n)) if kind == 'files' and n % 2 else [i for i in range(n) if i % 3 != 1]
    if not sel:
        return
    idx = sel[::-1] if case.get('desc') else sel
    args = (boxes, FLOAT, cfg, T.arr(idx, 'i'), T.arr([5.0, 800.0], 'f'))
    sel = [i for i in sel if not want[i].get('empty')]
    if not sel:
        # nothing measured at all: reported, or nothing returned
        ok, g = T.attempt(F.get_region_data, *args)
        T.check(not ok or T.np.size(g['grid_lat']) == 0, 'no cast without measurements is returned')
        return
    g = T.call(F.get_region_data, *args)
    T.observe('profiles', g['grid_sal'])
    m = len(sel)
    T.check(all(T.shape_is(g[k], (m,)) for k in ('grid_lat', 'grid_long', 'grid_dates')) and
            all(T.shape_is(g[k], (2, m)) for k in ('grid_sal', 'grid_ptmp', 'grid_pres')),
            'one column per selected cast in every output')
    dates = [float(x) for x in T.elems(g['grid_dates'])]
    for i in sel:
        c = want[i]
        js = [j for j, d in enumerate(dates) if abs(d - hist.decimal(c['date'])) < 1e-6]
        T.check(len(js) == 1, 'each selected cast appears once')
        if len(js) != 1:
            continue
        j = js[0]
        T.check(T.eq(g['grid_lat'][j], lat[i]), 'latitude is the one listed at the index')
        T.check(T.eq(g['grid_long'][j], lon[i]), 'longitude is the one listed at the index')
        T.check(T.And(*[T.eq(g['grid_' + k][q, j], c[k][q]) for k in ('sal', 'ptmp', 'pres') for q in range(2)]),
                'the profile is the one of the listed cast')
