"""C11: climatology on the float's temperature surfaces (interp_climatology)"""
NAN = float('nan')
BOUNDS = ('1..3 historical casts of 2..5 levels and 1..2 float levels: all temperatures symbolic with fixed pressures and '
          'salinities (including inversions and equal temperatures); all pressures and salinities symbolic for temperature '
          'patterns with up to 4 crossings; every pattern of missing values over 3 levels x 2 casts and the float level')
ASSUMES = ['a pair of equal temperatures is not a crossing; where two crossings are equally close either may be used']


def cases(tier):
    out = [dict(kind='theta', L=L, nf=1) for L in (2, 3, 4)] + [dict(kind='theta', L=3, nf=2)]
    out += [dict(kind='theta2', L=L) for L in (2, 3)]
    pats = [[8, 4], [8, 4, 6], [8, 4, 8, 4], [4, 8, 6, 9, 3], [5, 5, 5], [6, 5, 5, 4], [7, 6, 5], [6, 6, 4, 4], [9, 5, 7, 5, 2]]
    out += [dict(kind='pres', pat=p) for p in pats]
    out += [dict(kind='mask', var=v, L=3, n=2) for v in ('sal', 'theta', 'pres', 'any')]
    out += [dict(kind='mask', var='any', L=2, n=3), dict(kind='mask', var='one', L=3, n=3)]
    out += [dict(kind='float')]
    if tier == 'thorough':
        out += [dict(kind='theta', L=5, nf=1), dict(kind='theta2', L=4), dict(kind='mask', var='any', L=4, n=2),
                dict(kind='mask', var='theta', L=5, n=2), dict(kind='theta', L=4, nf=2)]
    return out


def run(T, case):
    kind = case['kind']
    n = 1
    fs, ft, fp = [34.0], [5.0], [500.0]
    if kind == 'theta':
        L = case['L']
        th = [[T.real(f'theta{i}', 0, 10)] for i in range(L)]
        ft = [T.real(f'float theta{q}', 2, 8) for q in range(case['nf'])]
        fs, fp = [34.0] * len(ft), [500.0, 250.0][:len(ft)]
        pr = [[100.0 + 210.0 * i] for i in range(L)]
        sa = [[34.0 + (i * 5 % 3) / 2] for i in range(L)]
    elif kind == 'theta2':
        L, n = case['L'], 2
        th = [[T.real(f'theta{i}.{j}', 0, 10) for j in range(n)] for i in range(L)]
        pr = [[100.0 + 210.0 * i, 400.0 - 30.0 * i] for i in range(L)]
        sa = [[34.0 + i / 4, 35.0 - i / 8] for i in range(L)]
    elif kind == 'pres':
        L = len(case['pat'])
        th = [[float(v)] for v in case['pat']]
        pr = [[T.real(f'pres{i}', 0, 2000)] for i in range(L)]
        sa = [[T.real(f'sal{i}', 33, 37)] for i in range(L)]
        fp = [T.real('float pres', 0, 2000)]
    elif kind == 'mask':
        L, n = case['L'], case['n']
        th = [[8.0 - 3 * i + j / 2 if L < 4 else [8.0, 4.0, 6.5, 3.0, 2.0][i] for j in range(n)] for i in range(L)]
        pr = [[150.0 + 200 * i + 10 * j for j in range(n)] for i in range(L)]
        sa = [[33.0 + i / 2 + j / 8 for j in range(n)] for i in range(L)]
        for i in range(L):
            for j in range(n):
                v = case['var']
                if v == 'any':
                    v = ('sal', 'theta', 'pres')[(i + j) % 3]
                if v == 'one' and i != 1:
                    continue
                if T.split(T.bool(f'missing{i}.{j}')):
                    ({'sal': sa, 'theta': th, 'pres': pr}.get(v) or th)[i][j] = NAN
    else:
        L, n = 3, 2
        th, pr, sa = [[8.0, 7.0], [6.0, NAN], [2.0, 1.0]], [[100.0, 90.0], [300.0, 200.0], [600.0, 500.0]], \
            [[34.0, 34.5], [35.0, 36.0], [34.25, 33.5]]
        fs = [T.real(f'fs{i}', 33, 36, nan=True) for i in range(2)]
        ft = [T.real(f'ft{i}', 0, 9, nan=True) for i in range(2)]
        fp = [T.real(f'fp{i}', 0, 900, nan=True) for i in range(2)]
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    f = T.mod('data.wrangling').interp_climatology
    S, P = T.call(f, A(sa), A(th), A(pr), A(fs), A(ft), A(fp))
    T.observe('sal', S)
    T.observe('pres', P)
    T.check(T.shape_is(S, (len(ft), n)) and T.shape_is(P, (len(ft), n)), 'one value per float level and cast')
    for q in range(len(ft)):
        for j in range(n):
            if T.split(T.Or(T.isnan(fs[q]), T.isnan(ft[q]), T.isnan(fp[q]))):
                T.check(T.And(T.isnan(S[q, j]), T.isnan(P[q, j])), 'float level with missing data gives missing values')
                continue
            lv = [i for i in range(L) if not any(isnan(T, v[i][j]) for v in (th, pr, sa))]
            cross = []
            for a, b in zip(lv, lv[1:]):
                da, db = th[a][j] - ft[q], th[b][j] - ft[q]
                if T.split(T.And(T.Or(T.And(da <= 0, db >= 0), T.And(da >= 0, db <= 0)), th[a][j] != th[b][j])):
                    w = (ft[q] - th[a][j]) / (th[b][j] - th[a][j])
                    cross.append((pr[a][j] + w * (pr[b][j] - pr[a][j]), sa[a][j] + w * (sa[b][j] - sa[a][j])))
            if not cross:
                T.check(T.And(T.isnan(S[q, j]), T.isnan(P[q, j])), 'no bracketing pair: missing')
                continue
            dist = [absolute(T, c[0] - fp[q]) for c in cross]
            alts = [T.And(T.eq(P[q, j], c[0]), T.eq(S[q, j], c[1]), *[d <= e + 1e-7 for e in dist])
                    for c, d in zip(cross, dist)]
            T.check(T.Or(*alts), 'the crossing closest in pressure, both variables with one weight')


def isnan(T, v):
    return T.split(T.isnan(v))


def absolute(T, x):
    return T.ite(x < 0, -x, x)
