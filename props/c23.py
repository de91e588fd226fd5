"""C23: fit of the conductivity ratio (fit_cond)"""
import math

import numpy as np

NAN = float('nan')
BOUNDS = ('1..6 profiles of 1..2 levels, up to 2 samples symbolic (and possibly missing), the others fixed and partly missing; abscissae and errors fixed; '
          'correlation identity or a fixed full matrix; offset, line and prescribed breaks (1 and 2); scaling by a fixed factor and shift by any constant; '
          'Monte-Carlo draws as numpy makes them from a fixed seed')
ASSUMES = ['positive errors', 'enough effective degrees of freedom for the model', 'random draws of two calls seeded alike are alike']
QUICK_S = 90

YS = [1.2, 0.4, 2.0, 0.9, 1.6, -0.3, 0.7, 1.1, 2.4, 0.1, 1.9, -0.8, 0.3, 1.4, 2.2, -0.1]
ES = [0.5, 0.25, 1.0, 0.5, 0.75, 0.3, 0.6, 1.2, 0.5, 0.4, 0.9, 0.35, 0.8, 0.45, 0.55, 0.95]


def cases(tier):
    out = []
    for n, m, sym, miss, model in ((1, 1, (0,), (), 'offset'), (2, 1, (0,), (), 'offset'), (3, 1, (1,), (), 'offset'), (2, 2, (1,), (), 'offset'),
                                   (3, 2, (0,), (1, 4), 'offset'), (5, 1, (2,), (), 'line'), (6, 1, (0,), (), 'line'), (3, 2, (4,), (), 'line'),
                                   (4, 2, (1,), (2, 5), 'line'), (5, 1, (3,), (), 'break'), (6, 1, (0,), (), 'two breaks'), (5, 2, (2,), (0, 1), 'line')):
        for nan in (False, True):
            if not nan or model == 'offset':
                out.append(dict(n=n, m=m, sym=sym, miss=miss, model=model, nan=nan))
    out += [dict(n=3, m=2, sym=(3,), miss=(), model='offset', nan=True, cov=True), dict(n=6, m=1, sym=(2,), miss=(), model='line', nan=False, cov=True, nos=(7, 3, 20, 4, 12, 13)),
            dict(n=3, m=1, sym=(1,), miss=(), model='offset', nan=True, nos=(9, 2, 5), cov=True), dict(n=2, m=1, sym=(), miss=(0, 1), model='line', nan=False),
            dict(n=7, m=1, sym=(3,), miss=(), model='choice', nan=False), dict(n=8, m=1, sym=(4,), miss=(), model='free', nan=False),
            dict(n=8, m=1, sym=(5,), miss=(), model='search', nan=False), dict(n=8, m=1, sym=(), miss=(2,), model='search', nan=False, ys=(1.0, 1.1, 1.3, 1.2, 0.4, -0.7, -1.3, -2.6)),
            dict(n=8, m=1, sym=(3,), miss=(0,), model='free', nan=False, nos=(5, 1, 2, 3, 8, 11, 14, 30)),
            dict(n=6, m=1, sym=(3,), miss=(), model='search', nan=False, ys=(1.0, 1.1, 1.5, 2.2, 2.4, 3.1)), dict(n=5, m=1, sym=(), miss=(), model='search', nan=False, ys=(1.0, 1.3, 2.5, 3.7, 4.0)),
            dict(n=4, m=1, sym=(1,), miss=(), model='search', nan=False)]
    out += [dict(n=4, m=1, sym=(1,), miss=(), model='offset', nan=False, es=(1e-4, 1e-3, 2e-3, 1e-5)), dict(n=6, m=1, sym=(), miss=(2,), model='line', nan=False, es=(1e-3, 1e-4, 2e-4, 2e-3, 1e-4)),
            dict(n=4, m=1, sym=(2,), miss=(), model='offset', nan=False, es=(3.0, 40.0, 7.0))]
    if tier == 'thorough':
        out += [dict(n=3, m=1, sym=(0, 2), miss=(), model='offset', nan=True), dict(n=5, m=1, sym=(1, 2), miss=(), model='line', nan=False),
                dict(n=4, m=3, sym=(5,), miss=(3, 7), model='line', nan=True, cov=True), dict(n=6, m=2, sym=(7,), miss=(2,), model='two breaks', nan=True),
                dict(n=8, m=1, sym=(2,), miss=(), model='choice', nan=True), dict(n=5, m=2, sym=(2,), miss=(), model='free', nan=True)]
    return out


# per-profile statistics with several valid samples in a profile: listed finding, shown on the real code
KNOWN = {'more-than-prescribed': dict(case=dict(n=8, m=2, sym=(), miss=(), model='more', nan=False), inputs={}),
         'sta-several-levels': dict(case=dict(n=2, m=2, sym=(), miss=(), model='offset', nan=False, strict=True), inputs={})}


def run(T, case):
    f = T.mod('core.stats').fit_cond
    n, m, model = case['n'], case['m'], case['model']
    nos = list(case.get('nos') or [3, 4, 7, 12, 13, 20, 22, 30][:n])
    x = [[float(nos[k]) for k in range(n)] for _ in range(m)]
    y = [[0.0] * n for _ in range(m)]
    e = [[0.0] * n for _ in range(m)]
    for k in range(n):
        for i in range(m):
            q = k * m + i
            y[i][k] = T.real(f'y[{i},{k}]', -5, 5, nan=case['nan']) if q in case['sym'] else NAN if q in case['miss'] else case.get('ys', YS)[q]
            e[i][k] = case['es'][q % len(case['es'])] if 'es' in case else ES[q]
    cov = [[1.0 if a == b else ((0.5 if model == 'offset' else 0.02) ** abs(a - b) if case.get('cov') else 0.0) for b in range(n * m)] for a in range(n * m)]
    args = {'offset': ('max_no_breaks', -1), 'line': ('number_breaks', 0), 'choice': ('max_no_breaks', 0), 'free': ('number_breaks', 1), 'search': ('max_no_breaks', 1), 'more': ('breaks', T.arr([6.5], 'f'), 'max_no_breaks', 2), 'break': ('breaks', T.arr([6.5], 'f'), 'max_no_breaks', 1),
            'two breaks': ('breaks', T.arr([6.5, 12.5], 'f'), 'max_no_breaks', 2)}[model] + ('nloops', 2)
    A = lambda v: T.arr(v, 'f')                                    # noqa: E731

    def go(y, e):
        T.np.random.seed(5)
        return T.call(f, A(x), A(y), A(e), A(cov), *args)
    good = [(i, k) for k in sorted(range(n), key=lambda q: nos[q]) for i in range(m) if not bool(T.isnan(y[i][k]))]
    if model in ('free', 'search'):
        # the optimiser: any point, and what the function says about it
        count, u = [0], {}

        def least_squares(fun, x0, *a, **k):
            count[0] += 1
            v = T.arr([u.setdefault('u', T.choice('optimum', [-8.0, 0.0, 3.0])) if count[0] == 1 else [0.5, -1.0, 4.0][count[0] % 3]], 'f')
            fun(T.arr([0.25], 'f'))
            return {'x': v, 'fun': fun(v), 'success': True}
        T.override('core.stats', 'least_squares', least_squares)
    r = go(y, e)
    if model == 'more':
        T.check(any(abs(float(b) - 6.5) < 1e-6 for b in T.elems(r[9])), 'the prescribed break is kept while searching for more')
        return
    T.observe('fit', r[1])
    T.observe('error', r[2])
    T.check(T.near(r[0], A([float(v) for v in sorted(nos)]), 1e-9), 'one abscissa per profile')
    if not good:
        for v in r[1:7]:
            T.check(T.np.size(v) == n, 'one value for each profile, also without any valid sample')
            T.check(T.And(*[T.isnan(u) for u in T.elems(v)]), 'without any valid sample everything is missing')
        return
    fit, err = T.elems(r[1]), T.elems(r[2])
    coef = T.elems(r[8])
    valid = sorted({x[0][k] for i, k in good})
    if model in ('choice', 'search'):
        # the candidates by hand: the one with the smallest corrected Akaike criterion must have been chosen
        ndf = float(len(good))
        xx = [x[i][k] for i, k in good]
        W = np.diag([1 / e[i][k] ** 2 for i, k in good])
        designs = [np.array([[1.0] for _ in xx]), np.array([[1.0, v] for v in xx])]
        nos_ = [1, 2]
        if model == 'search' and len(good) > 7:
            b0 = valid[1] + (valid[-2] - valid[1]) * math.exp(u['u']) / (1 + math.exp(u['u']))
            designs.append(np.array([[1.0, min(v, b0), max(v - b0, 0.0)] for v in xx]))
            nos_.append(4)
        # a line takes 5 samples at least
        designs = designs[:1 if ndf < 5 else None]
        aic = []
        for E, no in zip(designs, nos_):
            R = np.eye(len(xx)) - E @ np.linalg.solve(E.T @ W @ E, E.T @ W)
            rss = 0.0
            for row, (i, k) in zip(R, good):
                d = 0.0
                for c, (a, b) in zip(row, good):
                    d = d + float(c) * y[a][b]
                rss = rss + d * d * (1 / e[i][k] ** 2)
            aic.append(T.np.log(rss / ndf) * ndf + ndf * (ndf + no) / (ndf - no - 2))
        c = len(coef)
        T.check(c in range(1, len(aic) + 1) and T.And(*[aic[c - 1] <= v + 1e-6 for v in aic]), 'the model with the smallest Akaike criterion')
        model = {1: 'offset', 2: 'line', 3: 'free'}[len(coef)]
    brk = [T.elems(r[9])[0]] if model == 'free' and T.np.size(r[9]) == 1 else {'break': [6.5], 'two breaks': [6.5, 12.5]}.get(model, [])
    T.check(len(fit) == n and len(err) == n, 'a fit and an error for each profile')
    T.check(len(coef) == {'offset': 1, 'line': 2}.get(model, 2 + len(brk)), 'the parameters of the model')
    if model == 'free':
        T.check(T.And(brk[0] >= valid[1] - 1e-9, brk[0] <= valid[-2] + 1e-9) if brk else False, 'the break lies between the second and the last but one profile')
        if not brk:
            return
    T.check(T.near(A(T.elems(r[9])), A(brk), 1e-9) if brk else T.np.size(r[9]) == 0, 'the breaks are the prescribed ones')
    xs = [x[0][k] for k in range(n)]
    xmin = valid[0]
    rank = {k: sorted(nos).index(nos[k]) for k in range(n)}
    fit, err, sta = ([v[rank[k]] for k in range(n)] for v in (fit, err, list(zip(T.elems(r[5]), T.elems(r[6])))))

    def basis(v):
        if model == 'offset':
            return [1.0]
        ends = [xmin] + brk
        out = [1.0]
        for j in range(len(ends)):
            q = T.ite(v > ends[j], v, ends[j]) if j > 0 else v
            if j + 1 < len(ends):
                q = T.ite(q < ends[j + 1], q, ends[j + 1])
            out.append(q - ends[j])
        return out
    B = {k: basis(xs[k]) for k in range(n)}
    emin = min(e[i][k] for i, k in good)
    for j in range(len(coef)):
        g = 0.0
        for i, k in good:
            g = g + (y[i][k] - fit[k]) * (B[k][j] * (emin * emin / (e[i][k] * e[i][k])))
        T.check(T.near(g, 0.0, 1e-7), 'the weighted residuals are orthogonal to the model: the weighted least-squares estimate')
    rate, rate_err = ([T.elems(v)[rank[k]] for k in range(n)] for v in (r[3], r[4]))
    M = None
    if model != 'offset' and all(isinstance(b, float) for k in range(n) for b in B[k]):
        # weighted least squares is linear in the ratios: the errors of its parameters follow from those of the samples
        E = np.array([B[k] for i, k in good], float)
        W = np.diag([1 / e[i][k] ** 2 for i, k in good])
        M = np.linalg.solve(E.T @ W @ E, E.T @ W)
        C = np.array([[cov[k * m + i][q * m + j] for j, q in good] for i, k in good])
        var = np.diag(M @ np.diag([e[i][k] ** 2 for i, k in good]) @ C @ M.T)
    for k in range(n):
        ends = [xmin] + brk
        seg = [j for j in range(len(ends)) if bool(xs[k] >= ends[j] - 1e-9 if j else True) and (j + 1 == len(ends) or bool(xs[k] <= ends[j + 1] + 1e-9))]
        if model == 'offset':
            T.check(T.And(T.eq(rate[k], 0.0), T.isnan(rate_err[k])), 'an offset does not change from profile to profile')
        else:
            T.check(T.Or(*[T.near(rate[k], coef[1 + j], 1e-9) for j in seg]), 'the change per profile is the slope of the segment the profile is in')
            if M is not None:
                T.check(T.Or(*[T.near(rate_err[k], math.sqrt(var[1 + j]), 1e-6) for j in seg]), 'its error is the rms error of that slope')
    for k in range(n):
        v = 0.0
        for c, b in zip(coef, B[k]):
            v = v + c * b
        T.check(T.near(fit[k], v, 1e-7), 'the fit is the model at each profile')
        T.check(T.Not(T.isnan(err[k])), 'every profile has an error')
        own = [g for g in good if g[1] == k]
        mean, rms = sta[k]
        if not own:
            T.check(T.And(T.isnan(mean), T.isnan(rms)), 'no statistics without valid samples')
            continue

        def stats(ss):
            w = sum(1 / (e[i][q] * e[i][q]) for i, q in ss)
            mu = 0.0
            for i, q in ss:
                mu = mu + y[i][q] * (1 / (e[i][q] * e[i][q]) / w)
            var = 0.0
            for i, q in ss:
                var = var + (y[i][q] - mu) * (y[i][q] - mu) * (1 / (e[i][q] * e[i][q]) / w)
            return T.And(T.near(mean, mu, 1e-7), rms >= -1e-9, T.near(rms * rms, var, 1e-6))
        ok = stats(own)
        if not case.get('strict'):
            # listed finding: the samples used run from behind the first one of the profile before to the first one of this profile
            before = [g for g in good if nos[g[1]] < nos[k]]
            first = [g for g in before if g[1] == before[-1][1]][0] if before else None
            ok = T.Or(ok, stats([g for g in (good[good.index(first) + 1:] if first else good) if good.index(g) <= good.index(own[0])]))
        T.check(ok, "mean and spread of the profile's own samples")
    if model == 'offset':
        w = {g: 1 / (e[g[0]][g[1]] ** 2) for g in good}
        tot = sum(cov[g[1] * m + g[0]][h[1] * m + h[0]] * w[h] for g in good for h in good)
        T.check(T.And(*[T.near(v * v, tot / sum(w.values()) ** 2, 1e-6) for v in err]), 'the error is that of a weighted mean of correlated samples')
    if model == 'free':
        return
    c = 2.5
    d = T.real('shift', -3, 3) if case['sym'] else 1.25
    r2 = go([[v * c + d for v in row] for row in y], [[v * c for v in row] for row in e])
    T.check(T.And(*[T.near(b, a * c + d, 1e-6) for a, b in zip(fit, [T.elems(r2[1])[rank[k]] for k in range(n)])]), 'scaling and shifting the ratios scales and shifts the fit')
    T.check(T.And(*[T.near(b, a * c, 1e-6) for a, b in zip(err, [T.elems(r2[2])[rank[k]] for k in range(n)])]), 'scaling the ratios scales the errors, shifting does not change them')
