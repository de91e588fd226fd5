"""C10: the subantarctic-front filter (frontal_constraint_saf)"""
NAN = float('nan')
BOUNDS = ('float profiles of 3..6 levels with symbolic temperature, salinity, missing levels and latitude; 3 historical '
          'casts of 5 levels, each of 12 kinds (warm, cold, between, within 0.02 degrees of a threshold, not spanning '
          '300 dbar, too short, missing or repeated levels); a table of 4 levels; envelope test with 2 tested depths')
ASSUMES = ['pressures increase downwards', 'historical temperatures come from a finite list (sea-water functions are '
           'evaluated exactly on them)']
QUICK_S = 150

P = [50.0, 200.0, 320.0, 700.0, 1500.0]
# potential temperatures (in-situ temperature at 300 dbar is about 0.02 higher)
KINDS = {
    'warm': ([12, 9, 8, 5, 3], P),
    'cold': ([4, 2.6, 2.5, 2, 1], P),
    'mid': ([6, 4.2, 4, 3, 2], P),
    'warm edge': ([6, 4.99, 4.99, 4, 3], P),
    'below warm edge': ([6, 4.96, 4.96, 4, 3], P),
    'cold edge': ([4, 2.99, 2.99, 2, 1], P),
    'below cold edge': ([4, 2.96, 2.96, 2, 1], P),
    'crossing': ([12, 9, 4.5, 2.5, 1.5], P),
    'shallow': ([12, 9, 8, 7, 6], [10.0, 50.0, 120.0, 200.0, 300.0]),
    'deep': ([12, 9, 8, 7, 6], [310.0, 350.0, 420.0, 500.0, 600.0]),
    'short': ([NAN, 9, 8, NAN, NAN], [NAN, 200.0, 320.0, NAN, NAN]),
    'gaps': ([12, NAN, 8, 7, NAN], [50.0, 200.0, NAN, 700.0, NAN]),
    'gap filled': ([12, 9, NAN, 7, 3], P),
    'warm to the end': ([12, 10, 9, 8, 7], [20.0, 80.0, 160.0, 250.0, 600.0]),
    'padded': ([12, 10, 9, 8, NAN], [20.0, 80.0, 160.0, 600.0, NAN]),
    'repeated': ([12, 9, 9, 8, 2], [50.0, 200.0, 200.0, 700.0, 1500.0]),
}
TABLE = dict(Deph=[0, 50, 100, 250, 800, 1800], T_meanN=[6, 8, 7.5, 7, 5, 2.5], T_stdN=[1, 2, 1.8, 1.5, 1, 0.3],
             S_meanN=[34.1, 34.2, 34.2, 34.3, 34.4, 34.7], S_stdN=[.1, .3, .3, .25, .15, .05],
             T_meanS=[4, 3.5, 3, 2.5, 2.2, 1.8], T_stdS=[1.5, 1.2, 1, .6, .4, .3],
             S_meanS=[33.8, 33.85, 33.9, 34.0, 34.4, 34.7], S_stdS=[.1, .12, .12, .12, .1, .03])


def cases(tier):
    ks = list(KINDS)
    out = [dict(kind='classes', a=a) for a in (ks if tier == 'thorough' else
           ['warm', 'cold', 'mid', 'warm edge', 'below cold edge', 'warm to the end', 'padded', 'gaps', 'repeated'])]
    out += [dict(kind='t300', levels=n, nan=m) for n in (3, 4) for m in (None, 0, 1, 2)]
    out += [dict(kind='t300', levels=5, nan='pres'), dict(kind='t300', levels=6, nan=None, repeat=(1, 2)),
            dict(kind='t300', levels=6, nan=None, repeat=(0, 1)), dict(kind='t300', levels=6, nan=None, repeat=(0, 1, 2))]
    out += [dict(kind='span', below=b) for b in (0, 1)]
    out += [dict(kind='envelope', vary=v) for v in ('north', 'south', 'both', 'salnan')]
    return out


def table(T):
    return {k: [v[2:] for v in (list(map(float, vs)),)][0] for k, vs in TABLE.items()}


def interp(T, x, xs, ys):
    """linear interpolation inside [xs[0], xs[-1]], missing outside"""
    if T.split(T.isnan(x)):
        return NAN
    if T.split(T.Or(x < xs[0], x > xs[-1])):
        return NAN
    for i in range(len(xs) - 1):
        if i == len(xs) - 2 or T.split(x < xs[i + 1]):
            if isinstance(xs[i], float) and isinstance(xs[i + 1], float):
                w = 1.0 / (xs[i + 1] - xs[i])
                return ys[i] + (ys[i + 1] - ys[i]) * ((x - xs[i]) * w)
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


def near(v, a):
    return -1e-7 <= v - a <= 1e-7


def float_class(T, pres, tmp, sal):
    """+1 north, -1 south, 0 undecided"""
    ok = [i for i in range(len(pres)) if not T.split(T.Or(T.isnan(pres[i]), T.isnan(tmp[i])))]
    p, t, s = ([q[i] for i in ok] for q in (pres, tmp, sal))
    if len(p) < 3 or any(T.split(p[i] == p[i + 1]) for i in range(len(p) - 1)):
        return 0
    if not T.split(T.And(p[0] < 300, p[-1] > 300)):
        return 0
    t300 = interp(T, 300.0, p, t)
    T.assume(T.And(T.Or(t300 > 5.0000001, t300 < 4.9999999, t300 == 5), T.Or(t300 > 3.0000001, t300 < 2.9999999, t300 == 3)))
    if T.split(t300 > 5):
        return 1
    if T.split(t300 < 3):
        return -1
    tab = table(T)
    z = tab['Deph']
    inside_n, inside_s = [], []
    line = lambda a, b, q: [a[i] + q * b[i] for i in range(len(a))]         # noqa: E731
    tn, sn = (tab['T_meanN'], tab['T_stdN']), (tab['S_meanN'], tab['S_stdN'])
    ts, ss = (tab['T_meanS'], tab['T_stdS']), (tab['S_meanS'], tab['S_stdS'])
    for d in z:
        if not 150 < d < 1700:
            continue
        si, ti = interp(T, d, p, s), interp(T, d, p, t)
        nlo = interp(T, ti, line(*tn, -1)[::-1], line(*sn, -1)[::-1])
        nhi = interp(T, ti, line(*tn, 1)[::-1], line(*sn, 1)[::-1])
        slo = interp(T, si, line(*ss, -1), line(*ts, -1))
        shi = interp(T, si, line(*ss, 1), line(*ts, 1))
        if any(T.split(T.isnan(v)) for v in (si, slo, shi, nlo, nhi)):
            continue
        eps = 1e-7
        for v, lo, hi in ((si, nlo, nhi), (ti, slo, shi)):
            T.assume(T.And(T.Or(v > lo + eps, v < lo - eps), T.Or(v > hi + eps, v < hi - eps)))
        inside_n.append(T.split(T.And(si > nlo, si < nhi)))
        inside_s.append(T.split(T.And(ti > slo, ti < shi)))
    north, south = bool(inside_n) and all(inside_n), bool(inside_s) and all(inside_s)
    return 0 if north == south else (1 if north else -1)


def cast_class(T, c):
    ok = [i for i in range(len(P)) if not any(v[i] != v[i] for v in (c['pres'], c['ptmp'], c['sal']))]
    p = [c['pres'][i] for i in ok]
    if len(p) < 3 or not p[0] < 300 < p[-1]:
        return 0
    t = []
    for i in ok:
        sa = T.gsw.SA_from_SP(c['sal'][i], c['pres'][i], c['long'], c['lat'])
        t.append(float(T.gsw.t_from_CT(sa, T.gsw.CT_from_pt(sa, c['ptmp'][i]), c['pres'][i])))
    q = [(a, b) for j, (a, b) in enumerate(zip(p, t)) if j == len(p) - 1 or p[j + 1] != a]
    for (p0, t0), (p1, t1) in zip(q, q[1:]):
        if p0 <= 300 <= p1:
            t300 = t0 + (t1 - t0) * (300 - p0) / (p1 - p0)
            return 1 if t300 > 5 else (-1 if t300 < 3 else 0)
    return 0


def run(T, case):
    kind = case['kind']
    if kind == 'classes':
        # the float's side is chosen through one symbolic temperature
        pres = [100.0, 250.0, 350.0, 1000.0]
        v = T.real('tmp', -1, 9)
        tmp = [v, v, v, v]
        sal = [36.0] * 4                           # outside the envelopes: undecided between 3 and 5
        lat = T.real('lat', -70, 10)
        kinds = [case['a'], T.choice('kind1', list(KINDS)), 'cold']
    else:
        lat = -50.0
        kinds = ['warm', 'cold', 'mid']
        if kind == 't300':
            n = case['levels']
            pres = [100.0 + 130.0 * i for i in range(n)] if n < 6 else [100.0 + 90.0 * i for i in range(n)]
            tmp = [T.real(f't{i}', -2, 12, nan=case['nan'] in (i, 'pres')) for i in range(n)]
            if n > 4:
                tmp = [v if i in (1, 2) else 4.0 for i, v in enumerate(tmp)]
            sal = [36.0] * n
            if case['nan'] == 'pres':
                pres[1] = T.choice('p1', [pres[1], NAN])
                pres[2] = T.choice('p2', [pres[2], NAN])
            for i in case.get('repeat', ()):
                pres[i + 1] = T.choice(f'rep{i}', [pres[i + 1], pres[i]])
        elif kind == 'span':
            n = 4
            x = T.real('p', 150, 450)
            pres = [60.0, 100.0, 140.0, x] if case['below'] == 0 else [x, 500.0, 700.0, 900.0]
            tmp, sal = [9.0] * 4, [36.0] * 4
        else:
            pres = [100.0, 200.0, 400.0, 1000.0]
            w = case['vary']
            tmp = [8.0, 4.5, T.real('t2', 3, 4.5), 2.6 if w != 'both' else T.real('t3', 2, 4)]
            sal = [34.0, T.real('s1', 33.6, 34.8), 34.2 if w != 'south' else T.real('s2', 33.8, 34.6), 34.5]
            if w == 'south':
                tmp[1] = 3.4
                tmp[2] = T.real('t2', 2, 4)
            if w == 'salnan':
                sal[3] = T.real('s3', 34.2, 34.8, nan=True)
    config = {'CONFIG_DIRECTORY': T.root + '/const', 'CONFIG_SAF': 'saf.mat'}
    T.save(T.root + '/const/saf.mat', {k: T.arr([list(map(float, v))], 'f') for k, v in TABLE.items()})
    casts = []
    for j, k in enumerate(kinds):
        t, p = KINDS[k]
        casts.append(dict(pres=p, ptmp=t, sal=[NAN if p[i] != p[i] else 34.5 + j / 8 + i / 64 for i in range(5)],
                          lat=-48.0 - j, long=100.0 + j, date=T.real(f'date{j}', 1990, 2010), z=T.real(f'z{j}', 0, 6000)))
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    keys = ('sal', 'ptmp', 'pres')
    grid = {'grid_' + k: A([[c[k][i] for c in casts] for i in range(5)]) for k in keys}
    for k, name in (('lat', 'grid_lat'), ('long', 'grid_long'), ('date', 'grid_dates'), ('z', 'grid_z')):
        grid[name] = A([c[k] for c in casts])
    fd = dict(float_lat=lat, float_pres=A(pres), float_tmp=A(tmp), float_sal=A(sal))
    r = T.call(T.mod('data.fetchers').frontal_constraint_saf, config, grid, fd)
    if T.split(lat >= -30):
        keep = list(range(3))
    else:
        side = float_class(T, pres, tmp, sal)
        keep = [j for j in range(3) if side == 0 or cast_class(T, casts[j]) == side]
    T.observe('kept', r['grid_lat'])
    m = len(keep)
    T.check(all(T.shape_is(r['grid_' + k], (5, m)) for k in keys) and
            all(T.shape_is(r[k], (m,)) for k in ('grid_lat', 'grid_long', 'grid_dates', 'grid_z')),
            'exactly the casts on the float\'s side, in every output')
    if not T.shape_is(r['grid_lat'], (m,)) or not T.shape_is(r['grid_sal'], (5, m)):
        return
    lats = [float(v) for v in T.elems(r['grid_lat'])]
    for j in keep:
        at = [q for q, v in enumerate(lats) if v == casts[j]['lat']]
        T.check(len(at) == 1, 'each cast of the side is returned once')
        if len(at) == 1:
            q, c = at[0], casts[j]
            T.check(T.And(T.eq(r['grid_long'][q], c['long']), T.eq(r['grid_dates'][q], c['date']),
                          T.eq(r['grid_z'][q], c['z'])), 'position, date and depth belong to the cast')
            T.check(T.And(*[T.eq(r['grid_' + k][i, q], c[k][i]) for k in keys for i in range(5)]),
                    'the profile belongs to the cast')
