"""C24: application of the fitted factors (calc_piecewisefit)"""
from . import world

NAN = float('nan')
BOUNDS = ('1..4 profiles of 2..3 levels: every assignment of the profiles to series 0..2 (up to 3 profiles), any factors and errors, salinities and '
          'temperatures of one profile symbolic (and possibly missing); every form of limits, maximum numbers of breaks and prescribed breaks for '
          'up to two series; level choice, covariance and fit are stand-ins that record what they are given')
ASSUMES = ['the source lists the profiles in ascending order, as the mapping and series files do',
           'choice of levels, covariance and fit are those of C20, C22, C23', 'conductivity and salinity conversions of gsw are uninterpreted']
QUICK_S = 90

LIM = ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt')


def cases(tier):
    out = [dict(kind='series', n=n, m=2, sym=s, k=k) for n, s, k in ((1, (), None), (2, (), None), (3, (), None), (2, (1,), (1, 1)), (3, (0,), (2, 1, 2)), (3, (2,), (1, 0, 1)))]
    out += [dict(kind='limits', n=2, m=3, sym=(), k=(1, 1), lim=v) for v in ((0, 0, 0, 0), (1, 0, 1, 0), (0, 1, 0, 1), (1, 1, 1, 1))]
    out += [dict(kind='breaks', n=4, m=2, sym=(), k=k, mb=mb, br=br) for k, mb, br in
            (((1, 1, 2, 2), [[2, 0]], None), ((1, 2, 1, 2), [[2], [1]], None), ((2, 2, 1, 0), [[3]], None), ((1, 1, 1, 1), [[-1]], None),
             ((1, 1, 1, 1), [[2]], [[2.5, 3.5]]), ((1, 1, 2, 2), [[1, 2]], [[1.5, NAN], [3.5, 3.6]]), ((1, 1, 2, 2), [[1], [1]], [[1.5], [NAN]]),
             ((2, 1, 2, 1), [[1, 0]], [[1.5], [NAN]]))]
    out += [dict(kind='refuse', n=4, m=2, sym=(), k=k, mb=mb, br=br) for k, mb, br in
            (((1, 1, 2, 2), [[2, 1, 1]], None), ((1, 1, 2, 2), [[1]], [[1.5]]), ((1, 1, 2, 2), [[1], [2]], [[1.5, 1.7], [3.5, NAN]]),
             ((1, 1, 1, 1), [[1]], [[1.5, 2.5]]), ((1, 1, 1, 0), [[4]], [[1.5], [2.5]]))]
    out += [dict(kind='no reference', n=2, m=2, sym=(), k=(1, 1)), dict(kind='no levels', n=3, m=2, sym=(), k=(1, 2, 1)), dict(kind='no fit', n=3, m=2, sym=(), k=(1, 2, 2)),
            dict(kind='all bad', n=2, m=2, sym=(), k=(0, 0)), dict(kind='crossing', n=3, m=2, sym=(), k=(1, 1, 1)), dict(kind='west', n=2, m=2, sym=(), k=(1, 1)),
            dict(kind='dateline', n=2, m=2, sym=(), k=(1, 1)), dict(kind='rerun', n=2, m=2, sym=(), k=(1, 2))]
    if tier == 'thorough':
        out += [dict(kind='series', n=4, m=2, sym=(), k=None), dict(kind='series', n=3, m=3, sym=(0, 2), k=(1, 2, 1)), dict(kind='series', n=2, m=2, sym=(1,), k=None),
                dict(kind='limits', n=3, m=2, sym=(1,), k=(1, 2, 1), lim=(1, 1, 0, 0))]
    return out


def run(T, case):
    kind, n, m = case['kind'], case['n'], case['m']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    fit_mod = T.mod('calibration')
    cfg = world.config(T)
    T.binfile(T.root + '/const/tbase.int', world.elevation, world.COLS * world.ROWS)
    longs = {'crossing': [359.2, 0.3, 1.1, 1.2], 'west': [349.5, 350.25], 'dateline': [179.4, 180.6]}.get(kind, [10.1, 10.6, 11.3, 11.4])
    nos = [2, 3, 5, 9][:n]
    prof = []
    for j in range(n):
        s = j in case['sym']
        prof.append(dict(no=nos[j], lat=-44.7 - 0.3 * j, long=longs[j], date=2005.0 + j, pres=[200.0 + 300 * i + j for i in range(m)],
                         ptmp=[T.real(f'ptmp[{i},{j}]', 0, 25) if s and i == 0 else 12.0 - 2.5 * i - 0.1 * j for i in range(m)],
                         sal=[T.real(f'sal[{i},{j}]', 33, 37, nan=True) if s else 34.2 + 0.2 * i + 0.01 * j for i in range(m)]))
    if n > 2:
        prof[1]['sal'][0] = NAN
    world.source(T, prof, m)
    mapped = dict(sal=[[34.3 + 0.17 * i + 0.013 * j for j in range(n)] for i in range(m)], err=[[0.01 + 0.002 * i + 0.001 * j for j in range(n)] for i in range(m)],
                  ptmp=[[12.01 - 2.5 * i - 0.1 * j for j in range(n)] for i in range(m)])
    T.save(world.mapped_path(T), {'la_mapped_sal': A(mapped['sal']), 'la_mapsalerrors': A(mapped['err']), 'la_ptmp': A(mapped['ptmp']),
                                  'selected_hist': A([]) if kind == 'no reference' else A([[10.0, -44.0, 3.0]])})
    k = list(case['k']) if case['k'] else [T.int(f'series[{j}]', 0, 2) for j in range(n)]
    lim = {key: A([[T.real(key, -1, 500)]]) if v else A([]) for key, v in zip(LIM, case.get('lim', (0, 0, 0, 0)))}
    pct = T.real('percent', 0, 1) if kind == 'limits' else 0.5
    d = dict(lim, calseries=T.arr([k], 'i'), calib_profile_no=T.arr([nos], 'i'), max_breaks=T.arr(case.get('mb', [[4]]), 'i'),
             breaks=A(case['br']) if case.get('br') else A([]), use_percent_gt=A([[pct]]))
    T.save(f'{T.root}/calib/set/calseries_{world.FLOAT}_c.mat', d)

    # stand-ins
    F, E, M, R = ([T.real(f'{t}[{j}]', lo, hi) for j in range(n)] for t, lo, hi in
                  (('factor', 0.9, 1.1), ('factor error', 0, 0.01), ('profile mean', 0.9, 1.1), ('profile spread', 0, 0.01)))
    thetas, covs, fits = [], [], []

    def pick(no, r):
        """levels chosen for a profile"""
        j = nos.index(no)
        lv = [m - 1, 0][:1 + j % 2] if kind != 'no levels' or k[j] == 2 else []
        return lv[r] if r < len(lv) else NAN

    def series_of(salinity):
        """the profiles whose salinities these are"""
        return [j for j in range(n) if bool(k[j] == order[len(thetas)])]

    def find_10thetas(*a):
        js = series_of(a[0])
        thetas.append((js, a))
        ix = A([[pick(nos[j], r) for j in js] for r in range(10)])
        return A([NAN] * 10), A([NAN] * 10), ix, A([NAN] * 5), A([NAN] * 5)

    def build_cov(ptmp, coords, config):
        covs.append((ptmp, coords, config))
        return 'covariance %d' % len(covs)

    def fit_cond(x, y, err, cov, *args):
        js = thetas[-1][0]
        fits.append((js, x, y, err, cov, {str(args[i]).lower(): args[i + 1] for i in range(0, len(args), 2)}))
        col = [[0.25] for _ in js]
        if kind == 'no fit' and k[js[0]] == 1:
            nan = [NAN] * len(js)
            return A(x[0]), A(nan), A(nan), A([[v] for v in nan]), A([[v] for v in nan]), A([nan]), A([nan]), [], [], []
        return (A([float(nos[j]) for j in js]), A([F[j] for j in js]), A([E[j] for j in js]), A(col), A(col), A([[M[j] for j in js]]), A([[R[j] for j in js]]),
                7.0, A([1.0, 0.5]), A([2.5]))
    T.override('core.finders', 'find_10thetas', find_10thetas)
    T.override('core.stats', 'build_cov', build_cov)
    T.override('core.stats', 'fit_cond', fit_cond)
    kk = [int(v) for v in k]
    k = kk
    order = sorted({v for v in k if v != 0})
    T.call(fit_mod.calc_piecewisefit, 'set', world.FLOAT, cfg)
    if kind == 'rerun':
        thetas, covs, fits = [], [], []
        T.call(fit_mod.calc_piecewisefit, 'set', world.FLOAT, cfg)
    out = T.load(f'{T.root}/calib/set/cal_{world.FLOAT}_c.mat')
    T.observe('calibrated salinity', out['cal_SAL'])
    for key in ('cal_SAL', 'cal_SAL_err', 'cal_COND', 'cal_COND_err', 'sta_SAL', 'sta_SAL_err'):
        T.check(T.shape_is(out[key], (m, n)), f'{key}: one value per sample')
    for key in ('pcond_factor', 'pcond_factor_err', 'time_deriv', 'time_deriv_err', 'sta_mean', 'sta_rms'):
        T.check(T.shape_is(out[key], (1, n)), f'{key}: one value per profile')
    T.check(T.eq(out['PROFILE_NO'], T.arr([nos], 'i')), 'profile numbers')
    if kind == 'refuse':
        T.check(not fits and all(bool(T.isnan(v)) for key in ('cal_SAL', 'pcond_factor', 'cal_COND') for v in T.elems(out[key])),
                'inconsistent break settings: nothing is calibrated')
        return
    series = {v: [j for j in range(n) if k[j] == v] for v in order}
    nolev = {v for v in order if (kind == 'no reference') or all(pick(nos[j], 0) != pick(nos[j], 0) for j in series[v])}
    if kind == 'no reference':
        nolev = set()
    T.check([t[0] for t in thetas] == [series[v] for v in order], 'the levels of each series are chosen once')
    T.check([f[0] for f in fits] == [series[v] for v in order if v not in nolev], 'each series is fitted once')
    if [t[0] for t in thetas] != [series[v] for v in order] or [f[0] for f in fits] != [series[v] for v in order if v not in nolev]:
        return
    for js, a in thetas:
        for got, want in zip(a, (([p['sal'] for p in prof]), [p['ptmp'] for p in prof], [p['pres'] for p in prof])):
            T.check(T.eq(got, A([[want[j][i] for j in js] for i in range(m)])), "levels are chosen from the series' own profiles")
        T.check(T.eq(a[3], A([[mapped['ptmp'][i][j] for j in js] for i in range(m)])), "mapped temperatures of the series' own profiles")
        for got, key in zip(a[4:8], LIM):
            T.check(T.np.size(got) == T.np.size(lim[key]) and T.eq(A(T.elems(got)), A(T.elems(lim[key]))), f'{key} is passed on')
        T.check(T.eq(A(T.elems(a[8])), A([pct])), 'fraction of profiles is passed on')
    C = lambda s, t: T.gsw.C_from_SP(s, t, 0)                         # noqa: E731
    for q, (js, x, y, err, cov, args) in enumerate(fits):
        ptmp, coords, config = covs[q]
        T.check(cov == 'covariance %d' % (q + 1), 'the fit gets the covariance of its series')
        T.check(config is cfg, 'configuration')
        shift = 0
        for c, j in enumerate(js):
            if kind != 'no reference':
                lon = T.elems(coords[c])[1]
                T.check(T.near(T.elems(coords[c])[0], prof[j]['lat'], 1e-9), 'latitude of the profile')
                T.check(T.near((lon - longs[j]) / 360, float(round(float(lon - longs[j]) / 360)), 1e-9), 'longitude of the profile')
                T.check(abs(float(lon) - float(T.elems(coords[0])[1])) < 180, 'positions on one branch of longitude')
                T.check(T.near(T.elems(coords[c])[2], world.depth(longs[j], prof[j]['lat']), 1e-5), 'depth of the profile')
            for r in range(10):
                lv = pick(nos[j], r)
                T.check(T.eq(x[r, c], float(nos[j])), 'abscissa is the profile number')
                if lv != lv:
                    T.check(T.And(T.isnan(y[r, c]), T.isnan(ptmp[r, c])), 'no sample without a level')
                    continue
                s, t = prof[j]['sal'][lv], prof[j]['ptmp'][lv]
                ms, me = mapped['sal'][lv][j], mapped['err'][lv][j]
                T.check(T.eq(ptmp[r, c], t), 'temperature of the chosen level')
                T.check(T.eq(y[r, c], C(ms, t) / C(s, t)), 'ratio of mapped to measured conductivity at the chosen level')
                T.check(T.eq(err[r, c], 100 * T.np.abs(C(ms, t) - C(ms + me / 100, t)) / C(s, t)), 'error of the ratio')
        v = order.index(k[js[0]])
        mb = [z for row in case.get('mb', [[4]]) for z in row]
        T.check(T.eq(A(T.elems(args['max_no_breaks'])), A([float(mb[v] if len(mb) > 1 else mb[0])])), "the series' own maximum number of breaks")
        br = [z for z in case['br'][v] if z == z] if case.get('br') else []
        T.check(T.near(A(T.elems(args.get('breaks', []))), A(br), 1e-12) if br else T.np.size(args.get('breaks', [])) == 0, "the series' own breaks")
        T.check(not br or len(T.np.shape(args['breaks'])) == 1, 'breaks as a list')
    for j in range(n):
        inside = k[j] in order and k[j] not in nolev and not (kind == 'no fit' and k[j] == 1)
        got = {key: [out[key][i, j] for i in range(m)] for key in ('cal_SAL', 'cal_SAL_err', 'cal_COND', 'cal_COND_err', 'sta_SAL', 'sta_SAL_err')}
        if not inside:
            T.check(T.And(*[T.isnan(z) for key in got for z in got[key]], *[T.isnan(out[key][0, j]) for key in ('pcond_factor', 'pcond_factor_err', 'sta_mean', 'time_deriv')]),
                    'profiles outside the series stay missing')
            continue
        for key, want in (('pcond_factor', F[j]), ('pcond_factor_err', E[j]), ('sta_mean', M[j]), ('sta_rms', R[j]), ('time_deriv', 0.25), ('time_deriv_err', 0.25)):
            T.check(T.eq(out[key][0, j], want), f"{key}: the profile's own")
        for i in range(m):
            s, t = prof[j]['sal'][i], prof[j]['ptmp'][i]
            c = C(s, t)
            SP = lambda z: T.gsw.SP_from_C(z, t, 0)                    # noqa: E731
            for key, want in (('cal_COND', c * F[j]), ('cal_COND_err', c * E[j]), ('cal_SAL', SP(c * F[j])), ('cal_SAL_err', T.np.abs(SP(c * F[j]) - SP(c * F[j] + c * E[j]))),
                              ('sta_SAL', SP(c * M[j])), ('sta_SAL_err', T.np.abs(SP(c * M[j]) - SP(c * M[j] + c * R[j])))):
                T.check(T.eq(got[key][i], want), f"{key}: the profile's factor applied to its conductivity")
