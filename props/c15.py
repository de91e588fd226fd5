"""C15: level-wise historical data (process_profile_hist_variables, remove_statical_outliers)"""
BOUNDS = ('1..5 casts and 1..3 float levels; every interpolated salinity and pressure symbolic and possibly missing (both or salinity only), '
          'float pressures and the window symbolic; every subset of outliers; positions, dates and depths symbolic')
ASSUMES = ['an interpolated salinity is present only where the interpolated pressure is', 'the window is positive']


def cases(tier):
    out = [dict(kind='win', n=n, lev=m, at=a) for n, m, a in ((1, 1, 0), (2, 2, 1), (3, 1, 0), (3, 3, 1), (4, 2, 0))]
    out += [dict(kind='out', n=n) for n in (1, 2, 4, 6)]
    out += [dict(kind='both', n=3)]
    if tier == 'thorough':
        out += [dict(kind='win', n=5, lev=2, at=1), dict(kind='win', n=6, lev=3, at=2), dict(kind='out', n=8), dict(kind='both', n=5)]
    return out


KEYS = ('hist_sal', 'hist_pres', 'hist_long', 'hist_lat', 'hist_dates', 'hist_z')


def run(T, case):
    H = T.mod('helper')
    n, kind = case['n'], case['kind']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    col = {k: [T.real(f'{k}{i}', 0, 400) for i in range(n)] for k in ('long', 'lat', 'dates', 'z')}
    if kind == 'out':
        v = {'hist_' + k: c for k, c in col.items()}
        v['hist_sal'] = [T.real(f'sal{i}', 30, 40) for i in range(n)]
        v['hist_pres'] = [T.real(f'pres{i}', 0, 2000) for i in range(n)]
        gone = [i for i in range(n) if T.split(T.bool(f'outlier{i}'))]
        r = T.call(H.remove_statical_outliers, T.arr(gone, 'i') if gone else T.np.array([], dtype=int),
                   {k: A(v[k]).reshape((-1, 1)) for k in KEYS})
        return same(T, r, v, [i for i in range(n) if i not in gone], 'after removing outliers')
    lev, at = case.get('lev', 2), case.get('at', 1)
    w = T.real('window', 1, 500)
    fp = [T.real(f'float pressure {k}', 0, 2000) for k in range(lev)]
    sal = [[T.real(f's{k},{i}', 30, 40, nan=k == at) for i in range(n)] for k in range(lev)]
    pres = [[T.real(f'p{k},{i}', 0, 2000, nan=k == at) for i in range(n)] for k in range(lev)]
    for i in range(n):
        T.assume(T.iff(T.isnan(sal[at][i]), T.isnan(pres[at][i])))
    grid = {'grid_' + k: A(c) for k, c in col.items()}
    r = T.call(H.process_profile_hist_variables, grid, A(fp), A(sal), A(pres), at, w)
    keep = []
    for i in range(n):
        if T.split(T.isnan(sal[at][i])):
            continue
        d = pres[at][i] - fp[at]
        if T.split(T.And(d < w, d > -w)):
            keep.append(i)
    v = dict({'hist_' + k: c for k, c in col.items()}, hist_sal=sal[at], hist_pres=pres[at])
    same(T, r, v, keep, 'within the window')
    if kind == 'both' and keep:
        gone = [j for j in range(len(keep)) if T.split(T.bool(f'outlier{j}'))]
        r = T.call(H.remove_statical_outliers, T.arr(gone, 'i') if gone else T.np.array([], dtype=int), r)
        same(T, r, v, [i for j, i in enumerate(keep) if j not in gone], 'after removing outliers')


def same(T, r, v, keep, what):
    for k in KEYS:
        T.observe(k, r[k])
        T.check(len(T.elems(r[k])) == len(keep), f'exactly the expected casts {what}')
        T.check(len(r[k]) == len(keep), 'one row per cast')
        if len(T.elems(r[k])) == len(keep):
            T.check(T.And(*[T.eq(a, v[k][i]) for a, i in zip(T.elems(r[k]), keep)]), f'{k} stays with its cast {what}')
