"""C07: own profiles are excluded, in every session history (read_mat_argo and its callers)"""
from . import hist

NAMES = ['3901960', '3901961', '390196']
LABELS = ['3901960_012', 'argo/R3901961_7', 'coriolis', 'D13901960.nc', '390_1960', '3901961']
BOUNDS = ('a file of 2..3 casts of 2 levels with every assignment of 4 source labels (containing, nested in, or unlike the '
          'float name) and symbolic positions and measurements; sessions of up to 3 requests over 3 float names, 2 files '
          'and 3 entry points')
ASSUMES = ['concrete dates; longitudes within 41..319 so that no 0/360 shift occurs (C01)']


def cases(tier):
    out = [dict(kind='place', n=3, f=f, op=op) for f in (0, 1, 2) for op in ('data', 'loc', 'prof')]
    out += [dict(kind='place', n=1, f=0, op=op) for op in ('data', 'loc', 'prof')]
    for op1 in ('data', 'loc', 'prof'):
        for op2 in ('loc', 'prof'):
            out.append(dict(kind='session', ops=[op1, op2]))
    for ops in (['loc', 'prof', 'data'], ['prof', 'loc', 'prof']) if tier == 'quick' else \
            [[a, b, c] for a in ('data', 'loc', 'prof') for b in ('data', 'loc', 'prof') for c in ('data', 'loc', 'prof')]:
        out.append(dict(kind='session', ops=ops))
    return out


def cast(T, tag, date):
    return dict(lat=T.real(f'lat.{tag}', -60, 60), long=T.real(f'long.{tag}', 41, 319), date=date,
                sal=[T.real(f's{i}.{tag}', 30, 40) for i in range(2)],
                ptmp=[T.real(f't{i}.{tag}', 0, 20) for i in range(2)],
                pres=[T.real(f'p{i}.{tag}', 0, 1500) for i in range(2)])


def run(T, case):
    cfg = hist.config(T)
    files = {}
    if case['kind'] == 'place':
        n = case['n']
        src = [T.choice(f'label{i}', LABELS[:4]) for i in range(n)]
        files[7300] = (src, [cast(T, f'a{i}', 20010101 + i) for i in range(n)])
    else:
        files[7300] = ([LABELS[0], LABELS[1], LABELS[2]], [cast(T, f'a{i}', 20010101 + i) for i in range(3)])
        files[7301] = ([LABELS[5], LABELS[4], LABELS[0], LABELS[5]], [cast(T, f'b{i}', 20020201 + i) for i in range(4)])
    for box, (src, casts) in files.items():
        hist.write(T, 3, box, casts, src)
    if case['kind'] == 'place':
        request(T, cfg, files, case['op'], case['f'], [7300], 0)
    else:
        for step, op in enumerate(case['ops']):
            f = T.choice(f'float{step}', [0, 1, 2])
            boxes = T.choice(f'boxes{step}', [[7300], [7301], [7300, 7301]] if op != 'data' else [[7300], [7301]])
            request(T, cfg, files, op, f, boxes, step)


def request(T, cfg, files, op, f, boxes, step):
    F = T.mod('data.fetchers')
    name = NAMES[f]
    want = []
    for b in boxes:
        src, casts = files[b]
        want += [c for s, c in zip(src, casts) if name not in s]
    rows = T.arr([[b, 0, 0, 1] for b in boxes], 'f')
    tag = f'{op} request {step}'
    if op == 'data':
        d = T.call(F.get_data, rows[0], 3, cfg, name)
        T.check(T.shape_is(d['lat'], (len(want),)), f'{tag}: only the other casts are kept')
        for k in ('lat', 'long', 'dates'):
            T.check(T.eq(d[k], T.arr([c[k if k != 'dates' else 'date'] for c in want], 'f')) if want else True,
                    f'{tag}: {k} of the kept casts in file order')
        for k in ('sal', 'ptmp', 'pres'):
            T.check(T.shape_is(d[k], (2, len(want))), f'{tag}: {k} shape')
            for j, c in enumerate(want):
                T.check(T.And(*[T.eq(d[k][i, j], c[k][i]) for i in range(2)]), f'{tag}: {k} stays with its cast')
        T.observe(tag, d['sal'])
        return
    if op == 'loc':
        ok, r = T.attempt(F.get_region_hist_locations, rows, name, cfg)
        if not want:
            T.check(not ok, f'{tag}: no foreign data is an error')
            return
        T.check(ok, f'{tag}: locations are returned')
        if not ok:
            return
        lat, lon, dat = r
        T.observe(tag, lat)
        T.check(T.eq(lat, T.arr([c['lat'] for c in want], 'f')), f'{tag}: latitudes of the other floats only')
        T.check(T.eq(lon, T.arr([c['long'] for c in want], 'f')), f'{tag}: longitudes of the other floats only')
        T.check(T.eq(dat, T.arr([hist.decimal(c['date']) for c in want], 'f')), f'{tag}: dates of the other floats only')
        return
    ok, r = T.attempt(F.get_region_data, rows, name, cfg, T.arr(list(range(len(want))) or [0], 'i'),
                      T.arr([10.0, 1400.0], 'f'))
    if not want:
        T.check(not ok or np_size(r['grid_lat']) == 0, f'{tag}: no foreign data, nothing returned')
        return
    T.check(ok, f'{tag}: profiles are returned')
    if not ok:
        return
    T.observe(tag, r['grid_sal'])
    T.check(T.shape_is(r['grid_lat'], (len(want),)), f'{tag}: one column per foreign cast')
    for j, c in enumerate(want):
        T.check(T.And(T.eq(r['grid_lat'][j], c['lat']), T.eq(r['grid_long'][j], c['long']),
                      T.eq(r['grid_dates'][j], hist.decimal(c['date']))), f'{tag}: position and date of cast')
        for k in ('sal', 'ptmp', 'pres'):
            T.check(T.And(*[T.eq(r['grid_' + k][i, j], c[k][i]) for i in range(2)]), f'{tag}: {k} stays with its cast')


def np_size(x):
    import numpy as np
    return np.size(x)
