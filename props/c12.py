"""C12: signal and noise variance (signal_variance, noise_variance)"""
BOUNDS = ('signal: 1..6 salinities, each symbolic and possibly missing, as a vector, a column or a matrix; noise: 2..4 casts with '
          'all salinities and one or both coordinates of up to 3 casts symbolic, including coinciding positions and ties')
ASSUMES = ['noise variance is asked for casts with valid salinity and position']


def cases(tier):
    out = [dict(kind='signal', n=n, nan=True, form=f) for n, f in ((1, 'v'), (2, 'v'), (3, 'v'), (4, 'c'), (4, 'm'), (3, 'l'))]
    out += [dict(kind='signal', n=n, nan=False, form='v') for n in (3, 4, 6)]
    out += [dict(kind='allnan', n=n) for n in (1, 3)]
    out += [dict(kind='noise', n=n, pos=p) for n, p in ((2, 'both'), (3, 'lat'), (3, 'one'), (4, 'one'), (4, 'grid'), (5, 'grid'),
                                                       (4, 'lat'), (1, 'lat'))]
    if tier == 'thorough':
        out += [dict(kind='signal', n=n, nan=True, form='v') for n in (5, 6, 8)]
        out += [dict(kind='noise', n=n, pos=p) for n, p in ((3, 'both'), (5, 'lat'), (5, 'one'), (6, 'grid'))]
    return out


def run(T, case):
    n = case['n']
    if case['kind'] == 'noise':
        return noise(T, case)
    sv = T.mod('core.stats').signal_variance
    if case['kind'] == 'allnan':
        ok, _ = T.attempt(sv, T.arr([float('nan')] * n, 'f'))
        T.check(not ok, 'no valid salinity is an error')
        return
    s = [T.real(f's{i}', 20, 45, nan=case['nan']) for i in range(n)]
    c = T.real('shift', -10, 10)

    def form(v):
        if case['form'] == 'l':
            return list(v)
        a = T.arr(v, 'f')
        return a.reshape((-1, 1)) if case['form'] == 'c' else (a.reshape((2, -1)) if case['form'] == 'm' else a)
    good = [v for v in s if not T.split(T.isnan(v))]
    if not good:
        ok, _ = T.attempt(sv, form(s))
        T.check(not ok, 'no valid salinity is an error')
        return
    r = T.call(sv, form(s))
    T.observe('signal', r)
    m = sum(good) / len(good)
    T.check(T.eq(r, sum((v - m) * (v - m) for v in good) / len(good), 1e-7), 'population variance of the valid salinities')
    T.check(r >= -1e-12, 'never negative')
    T.check(T.eq(T.call(sv, form([v + c for v in s])), r, 1e-7), 'unchanged by a constant')
    T.check(T.eq(T.call(sv, form(s[::-1])), r, 1e-7), 'unchanged by the order')


def noise(T, case):
    n, p = case['n'], case['pos']
    s = [T.real(f's{i}', 30, 40) for i in range(n)]
    lat = [-40.0, -41.5, -39.0, -40.0, -42.0, -38.5][:n]
    lon = [10.0, 11.0, 12.5, 10.0, 9.0, 14.0][:n]
    if p == 'lat':
        lat = [T.real(f'lat{i}', -45, -35) if i < 3 else lat[i] for i in range(n)]
        lon = [10.0] * n
    elif p == 'one':
        lat[1], lon[1] = T.real('lat1', -45, -35), T.real('lon1', 5, 15)
    elif p == 'both':
        lat = [T.real(f'lat{i}', -45, -35) for i in range(n)]
        lon = [T.real(f'lon{i}', 5, 15) for i in range(n)]
    else:
        for i in range(min(n, 4)):
            lat[i] = T.choice(f'lat{i}', [-40.0, -41.0]) if i < 3 else lat[i]
            lon[i] = T.choice(f'lon{i}', [10.0, 12.0])
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    r = T.call(T.mod('core.stats').noise_variance, A(s), A(lat), A(lon))
    T.observe('noise', r)
    total, distinct = 0.0, False
    for i in range(n):
        d = [(lat[i] - lat[j]) * (lat[i] - lat[j]) + (lon[i] - lon[j]) * (lon[i] - lon[j]) for j in range(n)]
        best = None
        for j in range(n):
            if T.split(d[j] == 0):
                continue
            if best is None or T.split(d[j] < d[best]):
                best = j
        if best is not None:
            distinct = True
            total = total + (s[i] - s[best]) * (s[i] - s[best])
    if not distinct:
        T.check(T.eq(r, 0.0), 'zero when all casts coincide')
    else:
        T.check(T.eq(r, total / n / 2, 1e-9), 'half the mean squared difference to the nearest distinct cast')
