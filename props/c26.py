"""C26: calibration curve plot (cal_sal_curve_plot)"""
NAN = float('nan')
BOUNDS = '1..4 profiles (any ascending numbers) of 1..3 levels with any salinities, factors, errors and any missing pattern in chosen samples; figures closed when shown or not, other figures open or not'
ASSUMES = ['errors are not negative']
QUICK_S = 60
DEF_S = 30


def cases(tier):
    S = lambda **k: dict(dict(n=2, m=2, miss=(), open=0), **k)      # noqa: E731
    out = [S(n=1, m=1), S(miss=(('cal', 0, 0), ('cal', 1, 0))), S(n=3, m=1, miss=(('sta', 0, 0), ('sta', 0, 2))), S(m=3, miss=(('sal', 1, 0), ('cal', 2, 0), ('sta', 1, 1))),
           S(n=4, m=1, miss=(('mean', 0, 0), ('mean', 0, 3), ('cal', 0, 1))), S(open=2), S(n=3, open=1, miss=(('fac', 0, 1), ('mean', 0, 1))),
           S(n=2, m=1, miss=(('cal', 0, 0), ('cal', 0, 1)))]
    if tier == 'thorough':
        out += [S(n=4, m=3, miss=(('cal', 0, 0), ('sta', 1, 1), ('sal', 2, 2))), S(n=3, m=3, miss=tuple(('cal', i, 1) for i in range(3)) + (('sta', 0, 1),))]
    return out


def run(T, case):
    n, m = case['n'], case['m']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    R = lambda k, lo, hi, rows=m: [[T.real(f'{k}[{i},{j}]', lo, hi) for j in range(n)] for i in range(rows)]   # noqa: E731
    d = {'sal': R('sal', 33, 36), 'cal': R('cal', 33, 36), 'cal_err': R('cal_err', 0, 1), 'sta': R('sta', 33, 36), 'sta_err': R('sta_err', 0, 1),
         'mean': R('mean', 0.9, 1.1, 1), 'fac': R('fac', 0.9, 1.1, 1), 'fac_err': R('fac_err', 0, 0.1, 1)}
    for k, i, j in case['miss']:
        if T.split(T.bool(f'missing {k}[{i},{j}]')):
            for key in {'cal': ('cal', 'cal_err'), 'sta': ('sta', 'sta_err'), 'sal': ('sal', 'cal', 'cal_err', 'sta', 'sta_err'), 'fac': ('fac', 'fac_err')}.get(k, (k,)):
                d[key][i][j] = NAN
    nos = [T.int(f'number{j}', 1, 400) for j in range(n)]
    T.assume(T.And(True, *[nos[j + 1] > nos[j] for j in range(n - 1)]))
    T.plots.closing = case['open'] == 0
    for k in range(case['open']):
        T.plots.figure()
        T.plots.plt.plot([0.0], [5.0])
    f = T.mod('plot.plots').cal_sal_curve_plot
    T.call(f, A(d['sal']), A(d['cal']), A(d['cal_err']), A(d['sta']), A(d['sta_err']), A(d['mean']), A(d['fac']), A(d['fac_err']), T.arr([nos], 'i'), 'F1',
           {'FLOAT_PLOTS_DIRECTORY': 'out', 'FLOAT_PLOTS_FORMAT': 'png'})
    saved = T.plots.saved
    if all(v is NAN for r in d['cal'] for v in r):
        T.check(not saved, 'nothing is plotted without a calibration')
        return
    T.check(len(saved) == 1 and saved[0][0].endswith('F1_salinity_curve.png'), 'one figure is saved')
    if len(saved) != 1:
        return
    panels = sorted(saved[0][1], key=lambda p: p[0])
    T.check(len(panels) == 2, 'two panels, nothing of other figures')
    if len(panels) != 2:
        return

    def mean(a, b=None):
        out = []
        for j in range(n):
            v = [a[i][j] if b is None else a[i][j] - b[i][j] for i in range(m) if a[i][j] is not NAN and (b is None or b[i][j] is not NAN)]
            out.append(sum(v) / len(v) if v else NAN)
        return out
    curve_panel(T, 'factor', panels[0][1], nos, d['fac'][0], d['fac_err'][0], d['mean'][0])
    curve_panel(T, 'offset', panels[1][1], nos, mean(d['cal'], d['sal']), mean(d['cal_err']), mean(d['sta'], d['sal']))


def curve_panel(T, name, items, nos, y, err, sta):
    lines = [i for i in items if i['kind'] == 'line']
    ref = [i for i in lines if len(i['y']) == 2 and all(isinstance(v, (int, float)) and v == {'factor': 1, 'offset': 0}[name] for v in i['y'])
           and i['x'][0] < min(nos) and i['x'][1] > max(nos)]
    lines = [i for i in lines if not any(i is r for r in ref)]
    A, B = [curve(T, i['x'], i['y'], nos, y) for i in lines], [curve(T, i['x'], i['y'], nos, sta) for i in lines]
    T.check(T.Or(*A), f'{name}: fitted curve')
    T.check(T.Or(*B), f'{name}: value of each profile')
    T.check(T.And(*[T.Or(a, b) for a, b in zip(A, B)]), f'{name}: nothing else')
    bars = [i for i in items if i['kind'] == 'error']
    ok = [curve(T, i['x'], i['y'], nos, y) for i in bars]
    T.check(T.And(*ok), f'{name}: errors are drawn at the fit')
    one = [width(T, i, nos, err, 1) for i in bars]
    two = [width(T, i, nos, err, 2) for i in bars]
    T.check(T.And(T.Or(*one), T.Or(*two), *[T.Or(a, b) for a, b in zip(one, two)]), f'{name}: one and two errors')


def width(T, i, nos, err, k):
    w = [v if v is NAN else k * v for v in err]
    return T.And(curve(T, i['x'], [e[0] for e in i['yerr']], nos, w), curve(T, i['x'], [e[1] for e in i['yerr']], nos, w))


def curve(T, x, y, wx, wy):
    """the points drawn are the valid ones among the wanted, in order"""
    got = [(a, b) for a, b in zip(x, y) if T.isnan(b) is not True]
    want = [(a, b) for a, b in zip(wx, wy) if b is not NAN]
    if len(x) != len(y) or len(got) != len(want):
        return False
    return T.And(*[T.And(T.near(a, c, 1e-9), T.near1(b, d, 1e-7)) for (a, b), (c, d) in zip(got, want)])
