"""C28: salinity-temperature diagrams and plots of the chosen levels (theta_sal_plot, t_s_profile_plot)"""

NAN = float('nan')
BOUNDS = ('1..35 profiles (numbered consecutively or not) of 1..4 levels with any salinities, temperatures, mapped values and errors and any missing pattern in chosen samples; '
          'any sample index per profile or none for each of the ten levels; figures closed when shown or not')
ASSUMES = ['mapped values exist at the samples of the chosen levels', 'errors are not negative']
QUICK_S = 60
DEF_S = 30


def cases(tier):
    S = lambda **k: dict(dict(n=2, m=3, plot='diagram', miss=(), idx=(), open=0), **k)      # noqa: E731
    out = [S(idx=((0, 0), (0, 1))), S(n=3, m=4, idx=((1, 2), (9, 0))), S(n=1, m=1, idx=((0, 0),)), S(miss=((0, 0), (1, 1)), idx=((3, 0),)), S(n=35, m=1, free=1, open=2), S(n=35, m=1, free=1, step=1), S(n=3, idx=((0, 1),), step=1)]
    out += [S(plot='levels'), S(plot='levels', n=3, m=4, miss=((0, 0), (2, 1))), S(plot='levels', open=2), S(plot='levels', n=1, m=2, open=1, levels=10), S(plot='levels', levels=0)]
    if tier == 'thorough':
        out += [S(n=3, m=3, idx=tuple((k, j) for k in (0, 4) for j in range(3))), S(plot='levels', n=4, m=4, miss=tuple((i, i) for i in range(4)), levels=7)]
    return out


def run(T, case):
    n, m = case['n'], case['m']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    R = lambda k, lo, hi: [[T.real(f'{k}[{i},{j}]', lo, hi) if j < case.get('free', 9) else lo + 0.01 * j + 0.1 * i for j in range(n)] for i in range(m)]   # noqa: E731
    sal, ptmp = R('sal', 33, 36), R('ptmp', 0, 10)
    for i, j in case['miss']:
        if T.split(T.bool(f'missing[{i},{j}]')):
            sal[i][j] = NAN
            if T.split(T.bool(f'missing ptmp[{i},{j}]')):
                ptmp[i][j] = NAN
    T.plots.closing = case['open'] == 0
    for k in range(case['open']):
        T.plots.figure()
        T.plots.plt.plot([0.0], [5.0])
    cfg = {'FLOAT_PLOTS_DIRECTORY': 'out', 'FLOAT_PLOTS_FORMAT': 'png'}
    mod = T.mod('plot.plots')
    if case['plot'] == 'diagram':
        la = {'sal': R('map', 33, 36), 'ptmp': R('map_ptmp', 0, 10), 'err': R('map_err', 0, 1)}
        index = [[NAN] * n for _ in range(10)]
        for k, j in case['idx']:
            v = T.int(f'index[{k},{j}]', -1, m - 1)
            v = int(v)
            index[k][j] = NAN if v < 0 else v
        nos = [3 + case.get('step', 2) * j for j in range(n)]
        tr = lambda x: A([[x[i][j] for i in range(m)] for j in range(n)])      # noqa: E731
        T.call(mod.theta_sal_plot, tr(sal), tr(ptmp), A(la['sal']), A(la['ptmp']), A(la['err']), A(index), T.arr(nos, 'i'), cfg, 'F1', 'raw')
        items = figure(T, 'F1_raw_theta_sal.png', 1)
        if items is None:
            return
        items = items[0]
        profiles(T, [i for i in items if i['kind'] == 'line'], [([r[j] for r in sal], [r[j] for r in ptmp]) for j in range(n)], 'salinity against temperature of each profile')
        bars = [(x, y, e) for i in items if i['kind'] == 'error' for x, y, e in zip(i['x'], i['y'], i['xerr'])]
        want = [(la['sal'][int(v)][j], la['ptmp'][int(v)][j], la['err'][int(v)][j]) for row in index for j, v in enumerate(row) if v is not NAN]
        same = [[T.And(T.near1(b[0], w[0], 1e-9), T.near1(b[1], w[1], 1e-9), T.near1(b[2][0], w[2], 1e-9), T.near1(b[2][1], w[2], 1e-9)) for w in want] for b in bars]
        T.check(len(bars) >= len(want) and T.And(*[T.Or(*s) for s in same]), 'only mapped values of the chosen samples, with their errors')
        T.check(T.And(*[T.Or(*[s[k] for s in same]) for k in range(len(want))]), 'mapped values of all chosen samples')
        return
    pres = R('pres', 0, 2000)
    k = case.get('levels', 3)
    var, lev = [T.real(f'var{q}', 0, 1) for q in range(4)], [T.real(f'lev{q}', 0, 10) for q in range(4)]
    tl, pl = ([T.real(f'{c}{q}', 0, hi) for q in range(k)] + [NAN] * (10 - k) for c, hi in (('t', 10), ('p', 2000)))
    T.call(mod.t_s_profile_plot, A(sal), A(ptmp), A(pres), A(var), A(lev), A([[v] for v in tl]), A([[v] for v in pl]), 'F1', cfg)
    panels = figure(T, 'F1_salinity_profile.png', 4)
    if panels is None:
        return
    col = lambda x, s=1: [[v if v is NAN else s * v for v in (r[j] for r in x)] for j in range(n)]       # noqa: E731
    want = {'salinity variance against temperature': ([(var, lev)], tl, 1), 'salinity against temperature': (list(zip(col(sal), col(ptmp))), tl, 1),
            'temperature against pressure': (list(zip(col(ptmp), col(pres, -1))), pl, -1), 'salinity against pressure': (list(zip(col(sal), col(pres, -1))), pl, -1)}
    for items, (name, (curves, at, s)) in zip(panels, want.items()):
        profiles(T, [i for i in items if i['kind'] == 'line'], curves, name)
        got = [y for i in items if i['kind'] == 'hline' for y in i['y']]
        got = [y for y in got if T.isnan(y) is not True]
        T.check(T.And(len(got) == k, *[T.near(a, s * b, 1e-9) for a, b in zip(got, at)]), f'{name}: the chosen levels')


def figure(T, name, count):
    saved = T.plots.saved
    T.check(len(saved) == 1 and saved[0][0].endswith(name), 'one figure is saved')
    if len(saved) != 1:
        return None
    panels = sorted(saved[0][1], key=lambda p: p[0])
    T.check(len(panels) == count, 'the panels of this plot and nothing of other figures')
    return [p for _, p in panels] if len(panels) == count else None


def profiles(T, lines, curves, name):
    same = [[pair(T, i, c) for c in curves] for i in lines]
    T.check(len(lines) >= len(curves) and T.And(*[T.Or(*s) for s in same]), f'{name}: nothing else')
    T.check(T.And(*[T.Or(*[s[k] for s in same]) for k in range(len(curves))]), f'{name}: complete')


def pair(T, i, c):
    """the valid points are the wanted ones, in order"""
    wx, wy = c
    ok = [k for k in range(len(wx)) if wx[k] is not NAN and wy[k] is not NAN]
    got = [k for k in range(len(i['x'])) if T.isnan(i['x'][k]) is not True and T.isnan(i['y'][k]) is not True]
    if len(i['x']) != len(i['y']) or len(got) != len(ok):
        return False
    return T.And(*[T.And(T.near1(i['x'][a], wx[b], 1e-9), T.near1(i['y'][a], wy[b], 1e-9)) for a, b in zip(got, ok)])
