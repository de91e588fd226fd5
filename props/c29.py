"""C29: the diagnostic plots of a float (plot_diagnostics)"""
from . import c20, world

NAN = float('nan')
BOUNDS = ('2..5 profiles of 4 levels with any positions (0..360 or -180..180), 1..3 recorded historical points with any positions, any calibrated '
          'salinities and errors, factors and mapped values in chosen samples; 1..3 plotted levels; temperatures, pressures and float salinities concrete; '
          'figures closed when shown or not; one and two runs')
ASSUMES = ['the individual plots themselves (C25-C28)', 'no missing positions']
QUICK_S = 60
DEF_S = 30


def cases(tier):
    S = lambda **k: dict(dict(n=2, m=4, levels=1, hist=1, free=((0, 1),), closing=True, float='F1', dir='set'), **k)      # noqa: E731
    out = [S(hist=2, free=()), S(n=4, hist=1, pos=2, free=(), dir='/', closing=False), S(n=5, pos=3, hist=3, free=(), step=1), S(pos=9, hpos=9), S(n=2, pos=9, hpos=9, free=((1, 2),), bounded=True, closing=False),
           S(n=3, levels=2, pos=9, hpos=9, free=((2, 2),), small=0.002)]
    if tier == 'thorough':
        out += [S(n=3, levels=3, pos=9, hpos=9, free=((0, 1), (2, 2)), bounded=True), S(n=5, hist=3), S(n=3, levels=2)]
    return out


def run(T, case):
    n, m, levels = case['n'], case['m'], case['levels']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    G = lambda f: [[f(i, j) for j in range(n)] for i in range(m)]     # noqa: E731
    V = lambda name, base, step: G(lambda i, j: T.real(f'{name}[{i},{j}]', base - w, base + w) if (j, i) in case['free'] else base + step * (i + 2 * j))   # noqa: E731
    E = lambda name: G(lambda i, j: T.real(f'{name}[{i},{j}]', 0, 1) if (j, i) in case['free'] else 0.01 + 0.003 * (i + 2 * j))   # noqa: E731
    D = lambda X: G(lambda i, j: float(X[j % 4][i]) + 0.01 * (j // 4))     # noqa: E731
    w = case.get('small', 1)
    P = lambda k, c, lo, hi: T.real(f'{k}{c}', lo, hi) if case.get('pos', 0) <= c < case.get('pos', 0) + 2 else lo + 10.0 * c + 7     # noqa: E731
    lon, lat = [P('lon', j, -180, 360) for j in range(n)], [P('lat', j, -90, 90) for j in range(n)]
    hist = [[T.real(f'hist lon{k}', -180, 400), T.real(f'hist lat{k}', -90, 90)] if k >= case.get('hpos', 0) and k < case.get('hpos', 0) + 2 else [170.0 + 20 * k, -33.0 + k] for k in range(case['hist'])]
    nos = [T.int(f'number{j}', 1, 400) for j in range(n)] if case.get('no') else [2 + case.get('step', 3) * j for j in range(n)]
    T.assume(T.And(True, *[nos[j + 1] > nos[j] for j in range(n - 1)]))
    src = {'LONG': A([lon]), 'LAT': A([lat]), 'SAL': A(D(c20.SAL)), 'PTMP': A(D(c20.TEMP)), 'PRES': A(D(c20.PRES)), 'PROFILE_NO': T.arr([nos], 'i')}
    gd = {'selected_hist': A([h + [float(nos[0])] for h in hist]), 'la_mapped_sal': A(V('map', 34.6, 0.01)), 'la_ptmp': A(D(c20.TEMP)), 'la_mapsalerrors': A(E('map_err'))}
    row = lambda k, b, s: A([[T.real(f'{k}{j}', b, b + 0.1) if j == 0 else b + s * j for j in range(n)]])      # noqa: E731
    cd = {'cal_SAL': A(V('cal', 34.7, 0.02)), 'cal_SAL_err': A(E('cal_err')), 'sta_SAL': A(V('sta', 34.8, 0.013)), 'sta_SAL_err': A(E('sta_err')), 'sta_mean': row('mean', 1, 0.01),
          'pcond_factor': row('factor', 0.9, 0.02), 'pcond_factor_err': row('factor_err', 0, 0.001)}
    none = T.arr([], 'f').reshape(0, 0)
    cs = {k: none for k in ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt')}
    if case.get('bounded'):
        cs['use_pres_gt'], cs['use_theta_lt'] = A([[150.0]]), A([[8.0]])
    cs['use_percent_gt'] = A([[0.5]])
    name = case['float']
    d = f"/{case['dir']}/" if case['dir'] != '/' else '/'
    files = {f'{T.root}/source{d}{name}.mat': src, f'{T.root}/mapped{d}map_{name}_m.mat': gd, f'{T.root}/calib{d}cal_{name}_c.mat': cd, f'{T.root}/calib{d}calseries_{name}_c.mat': cs}
    for p, x in files.items():
        T.save(p, x)
    T.save(f'{T.root}/source{d}other.mat', {k: A([[1.0]]) for k in src})
    cfg = dict(world.config(T), FLOAT_PLOTS_DIRECTORY='out', FLOAT_PLOTS_FORMAT='png', THETA_BOUNDS=[[0, 5], [5, 20]], FLOAT_MAPPED_DIRECTORY=f'{T.root}/mapped',
               FLOAT_MAPPED_PREFIX='map_', FLOAT_CALIB_PREFIX='cal_', FLOAT_CALSERIES_PREFIX='calseries_')
    f = T.mod('plot.dashboard').plot_diagnostics
    rec = T.plots
    rec.closing = case['closing']
    runs = []
    for _ in range(2):
        rec.saved = []
        T.call(f, case['dir'], name, cfg, levels)
        runs.append(rec.saved)
        for p, x in files.items() if len(runs) == 2 else ():
            now = T.load(p)
            T.check(T.And(*[T.np.shape(now[k]) == T.np.shape(x[k]) and T.eq(now[k], x[k]) for k in x]), 'files are left as they are')
    # what each plot shows on its own
    plots, finders = T.mod('plot.plots'), T.mod('core.finders')
    C = lambda x: x.copy()                                         # noqa: E731
    lim = [cs[k] for k in ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt', 'use_percent_gt')]
    ten = T.call(finders.find_10thetas, C(src['SAL']), C(src['PTMP']), C(src['PRES']), C(gd['la_ptmp']), *lim)
    rec.closing = True
    rec.saved = want = []
    for title, s in (('uncalibrated', src['SAL']), ('calibrated', cd['cal_SAL'])):
        T.call(plots.theta_sal_plot, C(s).T, C(src['PTMP']).T, C(gd['la_mapped_sal']), C(gd['la_ptmp']), C(gd['la_mapsalerrors']), ten[2], src['PROFILE_NO'][0], cfg, name, title)
        T.call(plots.sal_anom_plot, C(s), C(src['PTMP']), src['PROFILE_NO'], cfg, name, title)
    T.call(plots.cal_sal_curve_plot, C(src['SAL']), C(cd['cal_SAL']), C(cd['cal_SAL_err']), C(cd['sta_SAL']), C(cd['sta_SAL_err']), C(cd['sta_mean']), C(cd['pcond_factor']),
           C(cd['pcond_factor_err']), src['PROFILE_NO'], name, cfg)
    T.call(plots.sal_var_plot, levels, C(src['SAL']), C(src['PRES']), C(src['PTMP']), C(gd['la_mapped_sal']), C(gd['la_mapsalerrors']), C(gd['la_ptmp']), C(cd['cal_SAL']),
           C(cd['cal_SAL_err']), lim, src['PROFILE_NO'], name, cfg)
    T.call(plots.t_s_profile_plot, C(src['SAL']), C(src['PTMP']), C(src['PRES']), ten[3], ten[4], ten[0], ten[1], name, cfg)
    for saved in runs:
        T.check(sorted(s[0] for s in saved) == sorted([s[0] for s in want] + [s[0] for s in saved if s[0].endswith('_trajectory.png')]) and len(saved) == len(want) + 1,
                'every plot is saved once')
        for path, panels in want:
            got = [p for q, p in saved if q == path]
            T.check(len(got) == 1 and same_figure(T, got[0], panels), f'{path}: the data of this float')
        track = [p for q, p in saved if q.endswith(f'{name}_trajectory.png')]
        T.check(len(track) == 1 and len(track[0]) == 1, 'one map')
        if len(track) != 1 or len(track[0]) != 1:
            return
        items = track[0][0][1]
        lines = [i for i in items if i['kind'] == 'line']
        home = lambda v: T.ite(v > 180, v - 360, v)                # noqa: E731
        pts = [[(home(a), b) for a, b in zip(lon, lat)], [(home(h[0]), h[1]) for h in hist]]
        T.check(len(lines) == 2, 'the float and the historical data')
        if len(lines) != 2:
            return
        for w, what in zip(pts, ('float profiles', 'historical points')):
            T.check(T.Or(*[len(i['x']) == len(w) and T.And(*[T.And(T.near(x, p, 1e-9), T.near(y, q, 1e-9)) for x, y, (p, q) in zip(i['x'], i['y'], w)]) for i in lines]),
                    f'{what} at their positions, longitudes from -180 to 180')
        texts = [i for i in items if i['kind'] == 'text']
        T.check(T.And(*[T.Or(*[T.And(T.near(i['text'], no, 1e-9), T.near(i['x'][0], p, 1e-9), T.near(i['y'][0], q, 1e-9)) for (p, q), no in zip(pts[0], nos)]) for i in texts]),
                'profile numbers stand at their profiles')
        for k in (0, n - 1):
            T.check(T.Or(*[T.near(i['text'], nos[k], 1e-9) for i in texts]), 'first and last profile are numbered')


def same_figure(T, a, b):
    if len(a) != len(b):
        return False
    r = []
    for (ka, ia), (kb, ib) in zip(sorted(a, key=lambda p: p[0]), sorted(b, key=lambda p: p[0])):
        if ka != kb or len(ia) != len(ib):
            return False
        for p, q in zip(ia, ib):
            if p['kind'] != q['kind']:
                return False
            for k in p:
                if k in ('kind', 'style', 'levels'):
                    continue
                if (p[k] is None) != (q[k] is None):
                    return False
                if p[k] is not None:
                    x, y = T.elems(p[k]), T.elems(q[k])
                    if len(x) != len(y):
                        return False
                    r += [T.near1(u, v, 1e-9) for u, v in zip(x, y)]
    return T.And(*r)
