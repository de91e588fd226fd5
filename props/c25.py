"""C25: salinity time series plotted on the chosen temperature levels (sal_var_plot)"""
from . import c20

NAN = c20.NAN
BOUNDS = ('1..3 profiles of 2..5 levels and 1..2 plotted levels at any temperature; any temperatures of single samples or of a whole profile, '
          'any salinities, mapped and calibrated salinities and errors of chosen samples with any missing pattern, any bounds in all combinations; '
          'any ascending profile numbers; pressures concrete; figures closed when shown or not')
ASSUMES = ['chosen levels are at least 1e-3 degrees apart from samples and from midpoints between samples, or equal to a sample',
           'temperatures of one profile are equal or at least 1e-3 degrees apart', 'two profiles at least have a value at one of the plotted levels']
QUICK_S = 90
DEF_S = 40
PRES, TEMP, SAL = c20.PRES, c20.TEMP, c20.SAL


def cases(tier):
    S = lambda **k: dict(dict(n=2, m=3, lev=1, ptmp=(), free=(), miss=(), bounds='', form='mat', at=(5.6, 6.6)), **k)      # noqa: E731
    out = [S(at=(3.0, 10.0), free=((0, 1),)), S(n=1, m=3, ptmp=((0, 1),), at=(6.2, 8.9), inv=True), S(n=2, m=4, ptmp=((0, 1), (0, 2)), at=6.5, inv=True),
           S(n=2, m=4, ptmp=((1, 2),), at=(5.9, 6.1), inv=True), S(n=2, m=4, lev=2, free=((0, 1), (1, 2)), at=(6.4, 6.6)),
           S(miss=((0, 1, 'sal'), (0, 2, 'map'), (1, 1, 'cal')), at=(6.3, 6.9)), S(miss=((0, 1, 'la'), (0, 2, 'la'), (1, 0, 'la'))),
           S(miss=((0, 1, 'ptmp'), (1, 2, 'la'), (1, 2, 'ptmp')), at=(6.3, 7.1)), S(miss=((0, 1, 'cal'), (0, 2, 'cal'), (1, 1, 'cal'), (1, 2, 'cal')), at=(6.4, 6.5)),
           S(n=3, m=3, closing=False, lev=2, at=(6.4, 6.6)), S(n=2, m=4, real=True, free=((0, 1),)), S(n=2, m=4, none=True, at=(6.4, 6.6)), S(n=3)]
    out += [S(n=2, m=4, real=True, bounds=b) for b in ('p<', 'p>', 't<', 't>', 't<p>')]
    out += [S(n=2, m=4, bounds=b, form=f, at=(6.3, 6.5)) for b, f in (('t<', 'mat'), ('t>', 'list'), ('p<', 'mat'), ('p>', 'list'), ('t<>', 'mat'), ('p<>', 'list'), ('t<p>', 'mat'),
                                                                     ('t>p<', 'mat'))]
    if tier == 'thorough':
        out += [S(n=2, m=5, ptmp=((0, 1), (0, 2), (0, 3)), at=6.0, inv=True), S(n=2, m=4, ptmp=((0, 2),), at=(4.9, 7.6), inv=True, miss=((0, 1, 'la'),)),
                S(n=3, m=5, bounds='t<>p<>', at=(5.5, 6.5)), S(n=2, m=4, at=(3.0, 10.0), free=((0, 1), (0, 2), (1, 1)), lev=2)]
    return out


def run(T, case):
    plots = T.mod('plot.plots')
    n, m, levels = case['n'], case['m'], case['lev']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    G = lambda f: [[f(i, j) for j in range(n)] for i in range(m)]     # noqa: E731
    pres, ptmp = G(lambda i, j: float(PRES[j][i])), G(lambda i, j: TEMP[j][i])
    la = G(lambda i, j: TEMP[j][i])
    for j, i in case['ptmp']:
        wide = 2.5 if case.get('inv') else 0
        ptmp[i][j] = T.real(f'ptmp[{i},{j}]', TEMP[j][min(i + 1, 5)] - wide, TEMP[j][max(i - 1, 0)] + wide)
    for j, i in case['ptmp']:
        for k in range(m):
            if k != i:
                d = ptmp[i][j] - ptmp[k][j]
                T.assume(T.Or(d == 0, d >= 1e-3, d <= -1e-3))

    def val(name, base, lo, hi, step):
        return G(lambda i, j: T.real(f'{name}[{i},{j}]', lo, hi) if (j, i) in case['free'] else base + step * (i + 2 * j))
    data = {'sal': G(lambda i, j: T.real(f'sal[{i},{j}]', 33, 36) if (j, i) in case['free'] and not case.get('real') else SAL[j][i]),
            'map': val('map', 34.6, 33, 36, 0.01), 'map_err': val('map_err', 0.01, 0, 1, 0.003),
            'cal': val('cal', 34.5, 33, 36, 0.02), 'cal_err': val('cal_err', 0.02, 0, 1, 0.001)}
    for j, i, what in case['miss']:
        if T.split(T.bool(f'missing {what}[{i},{j}]')):
            for key in {'map': ('map', 'map_err'), 'cal': ('cal', 'cal_err')}.get(what, (what,)):
                ({'la': la, 'ptmp': ptmp}.get(key) or data[key])[i][j] = NAN
    if case.get('none'):
        for j in range(n):
            for i in range(m):
                data['cal'][i][j] = data['cal_err'][i][j] = NAN
    b = case['bounds']
    theta = b.split('p')[0] if 't' in b else ''
    press = 'p' + b.split('p')[1] if 'p' in b else ''
    lim = {'t<': T.real('theta_lt', 2, 10) if '<' in theta else None, 't>': T.real('theta_gt', 2, 10) if '>' in theta else None,
           'p<': T.real('pres_lt', 0, 1300) if '<' in press else None, 'p>': T.real('pres_gt', 0, 1300) if '>' in press else None}

    def arg(k):
        if lim[k] is None:
            return T.arr([], 'f').reshape(0, 0) if case['form'] == 'mat' else []
        return T.arr([[lim[k]]], 'f') if case['form'] == 'mat' else [lim[k]]
    limits = [arg('t<'), arg('t>'), arg('p<'), arg('p>'), T.arr([[0.5]], 'f') if case['form'] == 'mat' else 0.5]
    if case.get('real'):
        ten = T.mod('core.finders').find_10thetas
        tl = T.elems(T.call(ten, A(data['sal']), A(ptmp), A(pres), A(la), *limits)[0])
    else:
        at = case['at']
        tl = []
        for k in range(levels):
            t = T.real(f'level{k}', at[0] - 0.5 * k, at[1] - 0.5 * k) if isinstance(at, tuple) else at - 0.5 * k
            for j in range(n):
                for i in range(m):
                    h = ptmp[i][j]
                    if h is not NAN:
                        T.assume(T.Or(t == h, t - h >= 1e-3, t - h <= -1e-3))
                    for i2 in range(i):
                        h2 = ptmp[i2][j]
                        if h is not NAN and h2 is not NAN:
                            d = (h + h2) / 2 - t
                            T.assume(T.Or(h == h2, d >= 1e-3, d <= -1e-3))
            tl.append(t)
        tl += [NAN] * (10 - levels)

        def ten(sal, ptmp, pres, *a, **k):
            return A([[t] for t in tl]), A([[NAN]] * 10), A([[NAN] * n] * 10), A([NAN]), A([NAN])
        T.override('core.finders', 'find_10thetas', ten)
    nos = [T.int(f'number{j}', 1, 400) for j in range(n)]
    T.assume(T.And(True, *[nos[j + 1] > nos[j] for j in range(n - 1)]))
    T.plots.closing = case.get('closing', True)
    T.plots.figure()
    T.plots.plt.plot([0.0], [7.0])

    # samples that may be used, and the values at the levels
    def beyond(v, lt, gt):
        if lt is None and gt is None:
            return False
        if gt is None:
            return T.split(v > lt)
        if lt is None:
            return T.split(v < gt)
        if T.split(lt < gt):
            return T.split(T.And(v > lt, v < gt))
        return T.split(T.Or(v > lt, v < gt))
    H = G(lambda i, j: NAN)
    V = {k: G(lambda i, j: NAN) for k in data}
    for i in range(m):
        for j in range(n):
            if la[i][j] is NAN or (ptmp[i][j] is not NAN and beyond(ptmp[i][j], lim['t<'], lim['t>'])) or beyond(pres[i][j], lim['p<'], lim['p>']):
                continue
            H[i][j] = ptmp[i][j]
            for k in data:
                V[k][i][j] = data[k][i][j]
    want = []
    for t in tl[:levels]:
        rows = {k: [] for k in data}
        for j in range(n):
            ok = [i for i in range(m) if H[i][j] is not NAN]
            k = None
            if ok and t is not NAN:
                lo, hi = c20.extreme(T, [H[i][j] for i in ok])
                if T.split(T.And(lo < t, t < hi)):
                    k = ok[0]
                    for i in ok[1:]:
                        if T.split(c20.dist(T, H[i][j], t) < c20.dist(T, H[k][j], t)):
                            k = i
            for name in data:
                rows[name].append(NAN if k is None else at_level(T, H, V[name], k, j, t, m))
        want.append(rows)
    if all(v is NAN for r in want for v in r['sal']):
        return
    T.call(plots.sal_var_plot, levels, A(data['sal']), A(pres), A(ptmp), A(data['map']), A(data['map_err']), A(la), A(data['cal']), A(data['cal_err']),
           limits, T.arr([nos], 'i'), 'F1', {'FLOAT_PLOTS_DIRECTORY': 'out', 'FLOAT_PLOTS_FORMAT': 'png'})
    saved = T.plots.saved
    T.check(len(saved) == levels, 'one figure per level')
    for k, rows in enumerate(want):
        hit = [s for s in saved if s[0].endswith(f'F1_salinity_variance_{k + 1}.png')]
        T.check(len(hit) == 1, 'figure of the level')
        if not hit:
            return
        items = [i for _, ax in hit[0][1] for i in ax]
        lines = [i for i in items if i['kind'] == 'line']
        curves = [rows['sal'], rows['map'], rows['cal']]
        for c, name in zip(curves, ('uncalibrated', 'mapped', 'calibrated')):
            T.check(T.Or(*[curve(T, i['x'], i['y'], nos, c) for i in lines]), f'{name} salinity is shown')
        T.check(T.And(*[T.Or(*[curve(T, i['x'], i['y'], nos, c) for c in curves]) for i in lines]), 'nothing else is shown')
        bars = [i for i in items if i['kind'] == 'error']
        T.check(bool(bars) and T.And(*[T.And(curve(T, i['x'], i['y'], nos, rows['map']), curve(T, nos, [e[0] for e in i['yerr']], nos, rows['map_err']),
                                             curve(T, nos, [e[1] for e in i['yerr']], nos, rows['map_err'])) for i in bars]), 'mapped salinity with its error')
        bands = [i for i in items if i['kind'] == 'band']
        T.check(len(bands) == 1, 'band of the calibrated salinity')
        for i in bands:
            got = [j for j in range(n) if rows['cal'][j] is not NAN]
            hi = [rows['cal'][j] + rows['cal_err'][j] for j in got]
            lo = [rows['cal'][j] - rows['cal_err'][j] for j in got]
            x, y1, y2 = keep(i)
            p = [nos[j] for j in got]
            T.check(T.Or(T.And(curve(T, x, y1, p, hi), curve(T, x, y2, p, lo)), T.And(curve(T, x, y1, p, lo), curve(T, x, y2, p, hi))), 'band is one error wide')


def keep(i):
    ok = [k for k in range(len(i['x'])) if not (isinstance(i['y1'][k], float) and i['y1'][k] != i['y1'][k])]
    return [i['x'][k] for k in ok], [i['y1'][k] for k in ok], [i['y2'][k] for k in ok]


def curve(T, x, y, wx, wy):
    """the points (missing ones aside) are the wanted ones, in order"""
    if len(x) != len(y):
        return False
    if len(x) != len(wx):
        return False
    return T.And(*[T.near(a, b, 1e-9) for a, b in zip(x, wx)], *[T.isnan(a) if b is NAN else T.near1(a, b, 1e-7) for a, b in zip(y, wy)])


def at_level(T, H, V, k, j, t, m):
    """value at temperature t next to sample k: interpolated towards the adjacent sample on the other side of t"""
    if V[k][j] is NAN:
        return NAN
    return c20.between(T, H, V, k, j, t, m)
