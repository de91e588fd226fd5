"""C14: objective mapping (map_data_grid)"""
import numpy as np

BOUNDS = ('concrete geometries of 1..6 casts (with and without vorticity, clustered, collinear, coinciding casts) with every salinity '
          'symbolic; 2 casts with a symbolic signal variance, noise variance, and position (hence symbolic covariance)')
ASSUMES = ['signal variance non-negative, noise variance non-negative (zero only with all casts at distinct places), scales positive']

GEO = [[-40.0, 10.0, 2005.0, 4000.0], [-41.5, 11.0, 2001.5, 3500.0], [-39.0, 8.75, 2010.25, 4200.0], [-42.0, 12.0, 1999.0, 1000.0],
       [-40.0, 10.0, 2007.0, 4000.0], [-37.5, 9.5, 2004.5, 2500.0], [12.0, 300.0, 2004.5, 2500.0]]
GRID = [-40.5, 9.8, 2006.0, 3800.0]
SCALES = [dict(lat=3, lon=6, age=20, phi=0.5), dict(lat=0.7, lon=1.5, age=0, phi=0.1), dict(lat=4, lon=2, age=5, phi=0.1)]


def cases(tier):
    out = []
    for n, pv, s in ((1, 0, 0), (2, 0, 1), (3, 0, 0), (3, 1, 2), (4, 0, 1), (5, 0, 0), (5, 1, 2), (6, 1, 0), (7, 0, 0), (7, 1, 0)):
        out.append(dict(kind='sal', n=n, pv=pv, s=s, sig=0.04, noi=0.01))
    out += [dict(kind='sal', n=4, pv=0, s=0, sig=0.0, noi=0.02), dict(kind='sal', n=3, pv=0, s=0, sig=25.0, noi=0.0001),
            dict(kind='sal', n=3, pv=0, s=2, sig=0.04, noi=0.0), dict(kind='sal', n=4, pv=1, s=2, sig=0.3, noi=0.0)]
    out += [dict(kind='cov', s=0), dict(kind='cov', s=1), dict(kind='var', s=0), dict(kind='var', s=2)]
    if tier == 'thorough':
        out += [dict(kind='sal', n=n, pv=pv, s=s, sig=g, noi=h) for n in (2, 3, 4, 5, 6, 7) for pv in (0, 1) for s in (0, 1, 2)
                for g, h in ((0.3, 0.05), (0.001, 1.0))]
        out += [dict(kind='cov', s=2), dict(kind='var', s=1)]
    return out


def cov(a, b, s, pv):
    e = ((a[0] - b[0]) / s['lat']) ** 2 + ((a[1] - b[1]) / s['lon']) ** 2
    if s['age']:
        e += ((a[2] - b[2]) / s['age']) ** 2
    if pv:
        p, q = (np.sin(np.radians(x[0])) / x[3] for x in (a, b))
        e += (p - q) ** 2 / (p * p + q * q) / s['phi'] ** 2
    return np.exp(-e)


def run(T, case):
    f = T.mod('data.wrangling').map_data_grid
    s = SCALES[case['s']]
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    if case['kind'] != 'sal':
        return small(T, case, f, s, A)
    n, pv, sg, no = case['n'], case['pv'], case['sig'], case['noi']
    pos = GEO[:n]

    def go(sal, p, call=T.call):
        # callers pass the longitude scale in the argument called lat and the latitude scale in the one called long
        return call(f, A(sal), A(GRID).reshape((-1, 4)), A(p), s['lon'], s['lat'], s['age'], sg, no, s['phi'], pv)
    sal = [T.real(f's{i}', 30, 40) for i in range(n)]
    r = go(sal, pos)
    T.observe('mapped', r[0])
    T.observe('at data', r[2])
    C = np.array([[cov(a, b, s, pv) for b in pos] for a in pos]) * sg
    g = np.array([cov(GRID, b, s, pv) for b in pos]) * sg
    W = np.linalg.inv(C + no * np.eye(n))
    S = W.sum()
    T.check(T.shape_is(r[0], ()) and T.shape_is(r[1], ()) and T.shape_is(r[2], (n,)) and T.shape_is(r[3], (n,)),
            'one mapped value, one estimate per cast')
    m = sum(float(W[:, j].sum() / S) * sal[j] for j in range(n))

    def est(c, mean):
        return mean + sum(float((c @ W)[j]) * (sal[j] - mean) for j in range(n))

    def err(c):
        return float(np.sqrt(sg - c @ W @ c + (1 - (c @ W).sum()) ** 2 / S))
    T.check(T.near(r[0], est(g, m), 1e-6), 'mapped value is the objective estimate')
    for i in range(n):
        T.check(T.near(r[2][i], est(C[i], m), 1e-6), 'data-location estimates')
        if no:                       # with no noise it is the root of a rounding residue, of either sign
            T.check(T.near(r[3][i], err(C[i]), 1e-6), 'data-location errors')
    T.check(T.near(r[1], err(g), 1e-6), 'mapped error')
    # scaling, offset and errors that do not depend on salinity
    a, b = T.real('offset', -5, 5), 2.5
    q = go([a + b * v for v in sal], pos)
    T.check(T.near(q[0], a + b * r[0], 1e-6), 'mapped value scales and shifts with the salinities')
    T.check(T.And(*[T.near(q[2][i], a + b * r[2][i], 1e-6) for i in range(n)]), 'data estimates scale and shift')
    T.check(T.And(T.near(q[1], r[1], 1e-9), *[T.near(q[3][i], r[3][i], 1e-9) for i in range(n) if no]), 'errors do not depend on salinities')
    # reordering
    o = [(2 * k + 1) % n for k in range(n)] if n % 2 else list(range(n))[::-1]
    q = go([sal[k] for k in o], [pos[k] for k in o])
    T.check(T.And(T.near(q[0], r[0], 1e-6), T.near(q[1], r[1], 1e-6)), 'mapped value unchanged by reordering')
    T.check(T.And(*[T.near(q[2][i], r[2][o[i]], 1e-6) for i in range(n)], *[T.near(q[3][i], r[3][o[i]], 1e-6) for i in range(n) if no]),
            'data results follow the casts')


def small(T, case, f, s, A):
    """two casts: a closed form with symbolic covariance or variances"""
    sal = [T.real(f's{i}', 30, 40) for i in range(2)]
    sg, no = 0.5, 0.25
    x = [-40.0, 10.0, 2005.0, 4000.0]
    y = [-40.75, 10.5, 2002.0, 4000.0]
    if case['kind'] == 'cov':
        y[1] = T.real('long', 8, 12)
    else:
        sg, no = T.real('signal', 0.01, 10), T.real('noise', 0.01, 10)
    g = [-40.0, 10.0, 2005.0, 4000.0]                    # at the first cast
    r = T.call(f, A(sal), A(g).reshape((-1, 4)), A([x, y]), s['lon'], s['lat'], s['age'], sg, no, s['phi'], 0)
    T.observe('mapped', r[0])
    c = T.call(T.mod('core.stats').covar_xyt_pv, A([x]), A([y]), s['lon'], s['lat'], s['age'], s['phi'], 0)[0, 0]
    m = (sal[0] + sal[1]) / 2
    # (C + noise)^-1 has eigenvectors (1,1), (1,-1): the residual +-(s0-s1)/2 is divided by sg(1-c) + no
    d = (sal[0] - sal[1]) / 2
    k = sg * (1 - c) + no
    T.check(T.near((r[0] - m) * k, sg * (1 - c) * d, 1e-5), 'mapped value is the objective estimate')
    T.check(T.near((r[2][0] - m) * k, sg * (1 - c) * d, 1e-5), 'estimate at the first cast')
    T.check(T.near((r[2][1] - m) * k, -(sg * (1 - c)) * d, 1e-5), 'estimate at the second cast')
    # the error of the estimate at the first cast
    p, q = sg + sg * c, sg - sg * c
    e2 = sg - (p * p / (p + no) + q * q / (q + no)) / 2 + (1 - p / (p + no)) * (1 - p / (p + no)) * (p + no) / 2
    T.check(T.eq(r[3][0] * r[3][0], e2, 1e-6), 'error at the first cast')
    T.check(T.eq(r[1] * r[1], e2, 1e-6), 'mapped error')
