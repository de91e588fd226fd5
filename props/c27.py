"""C27: salinity anomaly plot (sal_anom_plot)"""
NAN = float('nan')
BOUNDS = ('2..4 profiles of 3..5 levels; any salinities of chosen samples, any temperature of single samples (within a range of half a degree), '
          'any missing pattern in chosen samples; all 300 temperature steps; any ascending profile numbers in two cases; one or two temperature ranges')
ASSUMES = ['temperatures of one profile are at least 1e-3 degrees apart', 'temperatures are at least 1e-4 degrees from a multiple of 0.1 or concrete',
           'at least one profile has a temperature']
QUICK_S = 90
DEF_S = 40

TEMP = [[9.35, 8.87, 8.41, 8.19, 7.98], [9.28, 8.93, 8.52, 8.22, 7.91], [9.41, 8.78, 8.46, 8.26, 8.03], [9.31, 8.81, 8.49, 8.13, 7.87]]
SAL = [[34.5, 34.53, 34.6, 34.64, 34.67], [34.52, 34.58, 34.59, 34.66, 34.69], [34.41, 34.56, 34.66, 34.62, 34.68], [34.57, 34.52, 34.63, 34.65, 34.66]]


def cases(tier):
    S = lambda **k: dict(dict(n=2, m=4, sal=(), ptmp=(), miss=(), bounds=1), **k)      # noqa: E731
    out = [S(sal=((0, 1), (1, 2)), bounds=2), S(n=3, m=3, sal=((1, 1),), no=True), S(n=3, m=4, sal=((0, 2), (0, 3))), S(n=4, m=3, sal=((3, 2),)), S(ptmp=((0, 1),)), S(n=3, ptmp=((2, 2),)),
           S(n=2, m=3, ptmp=((1, 1),), swap=True), S(n=3, m=5, miss=((0, 1, 'sal'), (1, 2, 'ptmp'), (2, 4, 'both'))),
           S(n=3, m=3, miss=((0, 0, 'ptmp'), (0, 1, 'ptmp'), (0, 2, 'ptmp'), (2, 1, 'sal')), no=True), S(n=4, m=3, step=1, miss=((3, 0, 'both'), (3, 1, 'both'), (3, 2, 'both'), (1, 0, 'sal')))]
    if tier == 'thorough':
        out += [S(n=4, m=4, sal=((0, 1), (1, 1), (2, 1))), S(n=3, m=5, ptmp=((0, 2),), sal=((1, 2),)), S(n=3, m=5, miss=tuple((j, 2, w) for j in range(3) for w in ('sal', 'ptmp')))]
    return out


def run(T, case):
    n, m = case['n'], case['m']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    ptmp, sal = ([[X[j][i] for j in range(n)] for i in range(m)] for X in (TEMP, SAL))
    if case.get('swap'):
        ptmp.reverse()
    for j, i in case['sal']:
        sal[i][j] = T.real(f'sal[{i},{j}]', 33, 36)
    for j, i in case['ptmp']:
        c = ptmp[i][j]
        v = ptmp[i][j] = T.real(f'ptmp[{i},{j}]', c - 0.5, c + 0.3)
        for k in range(m):
            if k != i:
                T.assume(T.Or(v - ptmp[k][j] >= 1e-3, v - ptmp[k][j] <= -1e-3))
        for k in range(int(10 * c) - 6, int(10 * c) + 6):
            T.assume(T.Or(v - k / 10 >= 1e-4, v - k / 10 <= -1e-4))
    for j, i, what in case['miss']:
        if T.split(T.bool(f'missing {what}[{i},{j}]')):
            if what in ('sal', 'both'):
                sal[i][j] = NAN
            if what in ('ptmp', 'both'):
                ptmp[i][j] = NAN
    bounds = [[0, 5], [8, 20]][:case['bounds']]
    nos = [T.int(f'number{j}', 1, 400) if case.get('no') else 4 + case.get('step', 2) * j for j in range(n)]
    T.assume(T.And(True, *[nos[j + 1] > nos[j] for j in range(n - 1)]))
    T.call(T.mod('plot.plots').sal_anom_plot, A(sal), A(ptmp), T.arr([nos], 'i'), {'FLOAT_PLOTS_DIRECTORY': 'out', 'FLOAT_PLOTS_FORMAT': 'png', 'THETA_BOUNDS': bounds}, 'F1', 'calibrated')
    at = [(k + 1) / 10 for k in range(300)]
    inter = []
    for j in range(n):
        pts = [(ptmp[i][j], sal[i][j]) for i in range(m) if ptmp[i][j] is not NAN and sal[i][j] is not NAN]
        row = [NAN] * 300
        if len(pts) >= 3:
            pts = order(T, pts)
            for k, t in enumerate(at):
                if T.split(T.Or(t < pts[0][0], t > pts[-1][0])):
                    continue
                for (t0, s0), (t1, s1) in zip(pts, pts[1:]):
                    if T.split(t <= t1):
                        row[k] = s0 + (s1 - s0) * ((t - t0) / (t1 - t0))
                        break
        inter.append(row)
    want = []
    for k in range(300):
        v = [r[k] for r in inter if r[k] is not NAN]
        med = median(T, v) if v else NAN
        want.append([r[k] - med if r[k] is not NAN else NAN for r in inter])
    saved = T.plots.saved
    T.check(len(saved) == len(bounds), 'one figure per temperature range')
    for name, panels in saved:
        T.check('F1_calibrated_salinity_anomaly' in name, 'named after the float and the kind of data')
        items = [i for _, p in panels for i in p]
        T.check(any(i['kind'] == 'filled' for i in items), 'anomalies are shown')
        for q, i in enumerate(items):
            T.check(T.eq(A(i['x']), A(nos)) and T.near(A(i['y']), A(at), 1e-9), 'profile numbers and temperatures')
            if any(i['z'] is p['z'] for p in items[:q]):
                continue
            z = i['z']
            T.check(T.And(*[T.isnan(z[k, j]) if w is NAN else T.near1(z[k, j], w, 1e-7) for k in range(300) for j, w in enumerate(want[k])]),
                    'anomaly from the median of the profiles at that temperature')


def order(T, pts):
    out = []
    for p in pts:
        k = 0
        while k < len(out) and T.split(out[k][0] < p[0]):
            k += 1
        out.insert(k, p)
    return out


def median(T, v):
    s = []
    for x in v:
        k = 0
        while k < len(s) and T.split(s[k] < x):
            k += 1
        s.insert(k, x)
    h = len(s) // 2
    return s[h] if len(s) % 2 else (s[h - 1] + s[h]) / 2
