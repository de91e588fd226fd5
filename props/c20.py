"""C20: the ten temperature levels used for fitting (find_10thetas)"""
NAN = float('nan')
BOUNDS = ('1..4 profiles of 2..6 levels; any salinities (several samples at once), any temperature of single samples, any missing pattern of '
          'salinity, mapped temperature and temperature in chosen samples, any bounds in all combinations (single and both sides, '
          'reversed included), any required fraction of profiles; pressures concrete')
ASSUMES = ['temperatures of one profile are equal or at least 1e-4 degrees apart', 'salinity variances that differ by less than 1e-9 count as equal when the order of levels is judged']
QUICK_S = 120
DEF_S = 45

# pressure, temperature (per profile; a missing one is NaN)
PRES = [[100, 300, 500, 700, 900, 1100], [120, 310, 520, 690, 910, 1080], [90, 305, 515, 705, 905, 1120], [110, 320, 480, 710, 890, 1095]]
TEMP = [[9.03, 7.41, 6.17, 5.09, 4.21, 3.37], [8.71, 7.59, 6.02, 5.23, 4.11, 3.51], [9.19, 7.23, 6.31, 4.97, 4.33, 3.29], [8.89, 7.47, 6.23, 5.11, 4.07, 3.43]]
SAL = [[34.5, 34.55, 34.6, 34.64, 34.67, 34.69], [34.52, 34.58, 34.59, 34.66, 34.69, 34.7], [34.41, 34.56, 34.66, 34.62, 34.68, 34.705],
       [34.57, 34.52, 34.63, 34.65, 34.66, 34.695]]


def cases(tier):
    S = lambda **k: dict(dict(n=3, m=4, sal=(), ptmp=(), miss=(), bounds='', pct=0.5, form='mat'), **k)      # noqa: E731
    out = [S(n=2, narrow=(1, 2), sal=((0, 1), (1, 2))), S(n=2, m=5, narrow=(2, 3), sal=((0, 2), (0, 3))), S(n=2, m=5, narrow=(1, 3), sal=((1, 2),)), S(n=2, m=4, narrow=(1, 2), ptmp=((0, 1),)), S(n=2, m=4, narrow=(0, 1), ptmp=((0, 1),), inv=True),
           S(n=2, narrow=(1, 2), sal=((0, 2),), miss=((1, 0, 'la'), (1, 2, 'la'), (1, 1, 'sal'))), S(miss=((0, 1, 'la'), (2, 2, 'la'), (1, 1, 'sal'))), S(m=5, miss=((0, 1, 'ptmp'), (1, 2, 'la'), (2, 0, 'la'), (2, 3, 'sal'))),
           S(n=4, m=4, pct='any', miss=((0, 3, 'la'), (1, 3, 'la'), (2, 0, 'la'))), S(n=3, m=4, pct='any', miss=((0, 0, 'la'), (1, 0, 'la'))), S(n=3, m=3, pct='any', gone=(2,)), S(n=4, m=3, pct=0.6, gone=(0, 2), miss=((1, 1, 'sal'),))]
    out += [S(n=2, m=5, bounds=b) for b in ('t<', 't>', 'p<', 'p>')] + [S(n=2, m=4, bounds=b, form=f) for b, f in
                                                                        (('t<>', 'mat'), ('p<>', 'mat'), ('t<p>', 'list'), ('t>p<', 'mat'))]
    out += [S(n=2, m=3, flat=True), S(n=2, m=3, scale=0.02, sal=((0, 1),)), S(n=2, m=3, scale=0.005, sal=((0, 1),)),
            S(n=2, m=3, miss=tuple((i, j, 'la') for i in range(2) for j in range(3))), S(n=1, m=4, sal=((0, 1),))]
    if tier == 'thorough':
        out += [S(n=2, m=5, narrow=(1, 3), ptmp=((0, 2),), inv=True), S(n=2, m=4, ptmp=((0, 2),), inv=True), S(n=3, m=6, sal=((0, 1), (1, 2), (2, 3))), S(n=4, m=5, sal=((3, 2), (0, 2)), pct='any'), S(n=3, m=4, ptmp=((2, 1),), sal=((2, 1),)),
                S(n=3, m=5, ptmp=((0, 3),), inv=True), S(n=3, m=4, bounds='t<>p<>'), S(n=3, m=4, bounds='t<>', miss=((1, 1, 'la'), (2, 2, 'sal')))]
    return out


def run(T, case):
    f = T.mod('core.finders').find_10thetas
    n, m = case['n'], case['m']
    sc = case.get('scale', 1)
    pres = [[float(PRES[j][i] * sc) for j in range(n)] for i in range(m)]
    ptmp = [[TEMP[j][i] for j in range(n)] for i in range(m)]
    sal = [[SAL[j][i] for j in range(n)] for i in range(m)]
    la = [[ptmp[i][j] for j in range(n)] for i in range(m)]
    for i in range(m):
        if case.get('narrow') and not case['narrow'][0] <= i <= case['narrow'][1]:
            la[i][0] = NAN
    if case.get('flat'):
        ptmp = [[5.03 for _ in range(n)] for _ in range(m)]
    for j, i in case['sal']:
        sal[i][j] = T.real(f'sal[{i},{j}]', 33, 36)
    for j, i in case['ptmp']:
        lo, hi = (ptmp[i + 1][j] - (0.8 if case.get('inv') else 0), ptmp[i - 1][j] + (0.8 if case.get('inv') else 0))
        ptmp[i][j] = T.real(f'ptmp[{i},{j}]', lo, hi)
    for j, i in case['ptmp']:
        for k in range(m):
            if k != i:
                d = ptmp[i][j] - ptmp[k][j]
                T.assume(T.Or(d == 0, d >= 1e-4, d <= -1e-4))
    for j, i, what in case['miss']:
        if T.split(T.bool(f'missing {what}[{i},{j}]')):
            {'la': la, 'sal': sal, 'ptmp': ptmp}[what][i][j] = NAN
    for j in case.get('gone', ()):
        for i in range(m):
            sal[i][j] = la[i][j] = NAN
    b = case['bounds']
    theta = b.split('p')[0] if 't' in b else ''
    press = 'p' + b.split('p')[1] if 'p' in b else ''
    lim = {'t<': T.real('theta_lt', 2, 10) if '<' in theta else None, 't>': T.real('theta_gt', 2, 10) if '>' in theta else None,
           'p<': T.real('pres_lt', 0, 1300) if '<' in press else None, 'p>': T.real('pres_gt', 0, 1300) if '>' in press else None}

    def arg(k):
        if lim[k] is None:
            return T.arr([], 'f').reshape(0, 0) if case['form'] == 'mat' else []
        return T.arr([[lim[k]]], 'f') if case['form'] == 'mat' else [lim[k]]
    pct = T.real('percent', 0, 1) if case['pct'] == 'any' else case['pct']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    r = T.call(f, A(sal), A(ptmp), A(pres), A(la), arg('t<'), arg('t>'), arg('p<'), arg('p>'),
               T.arr([[pct]], 'f') if case['form'] == 'mat' else pct)
    t_lev, p_lev, index, var, theta_lev = r
    T.observe('candidates', theta_lev)
    T.observe('variance', var)
    T.check(T.And(T.shape_is(t_lev, (10, 1)), T.shape_is(p_lev, (10, 1)), T.shape_is(index, (10, n))), 'ten levels, indices per profile')

    # which samples may be used
    def beyond(v, lt, gt):
        if lt is None and gt is None:
            return False
        if gt is None:
            return T.split(v > lt)
        if lt is None:
            return T.split(v < gt)
        if T.split(lt < gt):
            return T.split(T.And(v > lt, v < gt))
        return T.split(T.Or(v > lt, v < gt))
    P, H, S = ([[NAN] * n for _ in range(m)] for _ in range(3))
    for i in range(m):
        for j in range(n):
            if la[i][j] is NAN:
                continue
            if ptmp[i][j] is not NAN and beyond(ptmp[i][j], lim['t<'], lim['t>']):
                continue
            if beyond(pres[i][j], lim['p<'], lim['p>']):
                continue
            P[i][j], H[i][j], S[i][j] = pres[i][j], ptmp[i][j], sal[i][j]
    num = lambda x: x is not NAN                                   # noqa: E731
    ps = [P[i][j] for i in range(m) for j in range(n) if num(P[i][j])]
    hs = [H[i][j] for i in range(m) for j in range(n) if num(H[i][j])]
    levels = []
    if hs and not case.get('flat'):
        lo, hi = extreme(T, hs)
        if T.split(T.np.ceil(lo * 10) < T.np.floor(hi * 10)):
            lo, hi = min(ps), max(ps)
            step = 50.0
            if len(steps(lo, hi, step)) < 10:
                step = max((hi - lo) // 10, 1.0)
            levels = steps(lo, hi, step)
    T.check(len(T.elems(var)) == len(levels) and len(T.elems(theta_lev)) == len(levels), 'one candidate per pressure step')
    if len(T.elems(var)) != len(levels):
        return
    want_t, want_i, at = [], [], []
    for lv in levels:
        ts = []
        for j in range(n):
            ok = [i for i in range(m) if num(P[i][j]) and num(H[i][j])]
            if ok and max(P[i][j] for i in ok) > lv > min(P[i][j] for i in ok):
                k = max(a for a in range(len(ok)) if P[ok[a]][j] < lv or a == 0)
                a, c = ok[k], ok[k + 1]
                ts.append(H[a][j] + (H[c][j] - H[a][j]) * ((lv - P[a][j]) / (P[c][j] - P[a][j])))
        t = sum(ts) / len(ts) if ts else NAN
        want_t.append(t)
        row, vals = [], []
        for j in range(n):
            ok = [i for i in range(m) if num(H[i][j])]
            k = NAN
            if ok and ts:
                lo, hi = extreme(T, [H[i][j] for i in ok])
                if T.split(T.And(lo < t, t < hi)):
                    k = ok[0]
                    for i in ok[1:]:
                        if T.split(dist(T, H[i][j], t) < dist(T, H[k][j], t)):
                            k = i
            row.append(k)
            if num(k) and num(S[k][j]):
                vals.append(between(T, H, S, k, j, t, m))
        want_i.append(row)
        at.append(vals)
    T.check(T.And(*[same(T, a, w) for a, w in zip(T.elems(theta_lev), want_t)]), 'candidates are mean temperatures at pressure steps')
    most = max((len(v) for v in at), default=0)
    want_v = []
    for vals in at:
        if len(vals) > 1 and not T.split(len(vals) / most < pct):
            mean = sum(vals) / len(vals)
            want_v.append(sum((v - mean) * (v - mean) for v in vals) / (len(vals) - 1))
        else:
            want_v.append(NAN)
    T.check(T.And(*[same(T, a, w) for a, w in zip(T.elems(var), want_v)]), 'variance over the profiles seen often enough, missing otherwise')
    # selection
    good = [k for k, v in enumerate(want_v) if num(v)]
    tl, pl = T.elems(t_lev), T.elems(p_lev)
    count = min(10, len(good))
    T.check(T.And(*[T.Not(T.isnan(v)) for v in tl[:count] + pl[:count]]), 'as many levels as are admissible, at most ten')
    T.check(T.And(*[T.isnan(v) for v in tl[count:] + pl[count:]]), 'the rest is missing')
    chosen = []
    for q in range(count):
        hit = [k for k in good if T.split(T.near1(pl[q], levels[k], 1e-6))]
        T.check(len(hit) == 1, 'every level is an admissible one')
        if not hit:
            return
        chosen.append(hit[0])
        T.check(same(T, tl[q], want_t[hit[0]]), 'temperature of that level')
        T.check(T.And(*[T.near1(index[q, j], float(w) if num(w) else NAN, 1e-9) for j, w in enumerate(want_i[hit[0]])]), 'closest sample per profile')
    T.check(len(set(chosen)) == len(chosen), 'levels are different')
    T.check(T.And(*[want_v[a] <= want_v[b] + 1e-9 for a, b in zip(chosen, chosen[1:])]), 'ordered by variance')
    T.check(T.And(*[want_v[chosen[-1]] <= want_v[k] + 1e-9 for k in good if k not in chosen] if chosen else []), 'none with smaller variance is left out')
    for q in range(count, 10):
        T.check(T.And(*[T.isnan(v) for v in T.elems(index[q, :])]), 'no index without a level')


def same(T, a, b):
    return T.isnan(a) if b is NAN else T.near1(a, b, 1e-7)


def steps(lo, hi, d):
    r, k = [], 0
    while lo + k * d < hi:
        r.append(lo + k * d)
        k += 1
    return r


def extreme(T, vs):
    lo = hi = vs[0]
    for v in vs[1:]:
        lo, hi = T.ite(v < lo, v, lo), T.ite(v > hi, v, hi)
    return lo, hi


def dist(T, a, b):
    return T.ite(a > b, a - b, b - a)


def between(T, H, S, k, j, t, m):
    """salinity at temperature t next to sample k: interpolated towards the neighbouring sample on the other side of t"""
    up = T.split(H[k][j] > t)
    if not up and not T.split(H[k][j] < t):
        return S[k][j]
    best = None
    for i in (k - 1, k + 1):
        if 0 <= i < m and H[i][j] is not NAN:
            d = H[k][j] - H[i][j] if up else H[i][j] - H[k][j]
            if T.split(d > 0) and (best is None or T.split(d < best[0])):
                best = (d, i)
    if best is None or S[best[1]][j] is NAN:
        return S[k][j]
    i = best[1]
    return S[k][j] + (S[i][j] - S[k][j]) * ((t - H[k][j]) / (H[i][j] - H[k][j]))
