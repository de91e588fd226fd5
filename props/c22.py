"""C22: error covariance of a series (build_cov, covarxy_pv)"""
import math

BOUNDS = ('1..3 profiles of 1..3 levels; every temperature in -2..30 (some cases: one profile symbolic, the others fixed), any of them missing; '
          'positions of all profiles symbolic; scales at fixed settings or symbolic; vorticity with symbolic depths at fixed latitudes; '
          'the exponential is uninterpreted except for positivity, monotonicity and exp 0 = 1')
ASSUMES = ['temperatures lie within the water-mass table (-2..30)', 'scales are positive, depths non-zero with vorticity; the correlation of a profile exactly at the equator with others is not claimed (that of the others is)']
QUICK_S = 60

PT = [30, 24, 18, 12, 8, 4, 2.5, 1, -2]
DOWN = [6, 6, 6, 4, 4, 1.5, 1.5, 1, 1]
UP = [6, 6, 6, 6, 4, 4, 1.5, 1.5, 1]
NAN = float('nan')
FIX = [[18.3, 12.0, 3.7], [29.0, 2.5, 0.3], [8.0, 8.0, -1.9]]


def cases(tier):
    out = []
    for m, p, sym in ((1, 1, ((0, 0),)), (2, 1, ((0, 0), (1, 0))), (3, 1, ((1, 0),)), (1, 2, ((0, 0), (0, 1))), (2, 2, ((0, 1),)), (2, 2, ((1, 0),)), (3, 2, ((0, 0),)),
                      (2, 3, ((1, 1),))):
        out.append(dict(m=m, p=p, sym=sym, pv=0, scales=[2.0, 0.5, 0.1], nan=(0, 0) not in sym and m < 3))
    out += [dict(m=2, p=2, sym=(), pv=0, scales=None, nan=False), dict(m=3, p=2, sym=((2, 1),), pv=0, scales=[1.3, 4.0, 0.2], nan=True)]
    out += [dict(m=1, p=p, sym=(), pv=1, scales=[2.0, 0.5, 0.1], nan=False) for p in (1, 2, 3)]
    out += [dict(m=2, p=2, sym=(), pv=1, scales=[0.8, 1.5, 0.5], nan=True), dict(m=1, p=3, sym=(), pv=1, scales=[4.0, 3.0, 0.5], nan=False, equator=2)]
    if tier == 'thorough':
        out += [dict(m=3, p=1, sym=((0, 0), (2, 0)), pv=0, scales=[2.0, 0.5, 0.1], nan=True), dict(m=3, p=3, sym=((1, 2),), pv=0, scales=[2.0, 0.5, 0.1], nan=False),
                dict(m=4, p=2, sym=((3, 0),), pv=0, scales=[2.0, 0.5, 0.1], nan=False), dict(m=2, p=2, sym=((0, 0), (1, 1)), pv=0, scales=[2.0, 0.5, 0.1], nan=True)]
    return out


def scale(T, t, table):
    """piecewise linear in the temperature"""
    r = float(table[-1])
    for k in range(len(PT) - 2, -1, -1):
        a, b = PT[k + 1], PT[k]
        v = table[k + 1] + (t - a) / (b - a) * (table[k] - table[k + 1])
        r = T.ite(t >= a, v, r) if k < len(PT) - 2 else v
    return r


def run(T, case):
    m, p, pv = case['m'], case['p'], case['pv']
    f = T.mod('core.stats').build_cov
    t = [[(T.real(f't[{i},{k}]', -2, 30, nan=case['nan'])) if (i, k) in case['sym'] else
          (NAN if case['nan'] and (i + k) % 4 == 3 else FIX[k % 3][i % 3]) for k in range(p)] for i in range(m)]
    lats = [-40.0, 30.0, -42.5]
    if 'equator' in case:
        lats = [4.0, 5.0, 6.0]
        lats[case['equator']] = 0.0
    co = [[lats[k] if pv else T.real(f'lat[{k}]', -80, 80), T.real(f'long[{k}]', -20, 400), T.real(f'z[{k}]', 100, 6000) if pv else 1000.0 + k] for k in range(p)]
    slon, slat, phi = case['scales'] or (T.real('long scale', 0.1, 10), T.real('lat scale', 0.1, 10), 0.5)
    cfg = {'MAPSCALE_LONGITUDE_SMALL': slon, 'MAPSCALE_LATITUDE_SMALL': slat, 'MAPSCALE_PHI_SMALL': phi, 'MAP_USE_PV': pv,
           'MAPSCALE_LONGITUDE_LARGE': 97.0, 'MAPSCALE_LATITUDE_LARGE': 89.0, 'MAPSCALE_PHI_LARGE': 83.0}
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    ta, ca = A(t), A(co)
    r = T.call(f, ta, ca, cfg)
    T.observe('covariance', r)
    T.check(T.shape_is(r, (m * p, m * p)), 'square, one row per sample')
    T.check(T.And(T.eq(ta, A(t)), T.eq(ca, A(co))), 'inputs unchanged')
    om = 2 * 7.292e-5
    for k in range(p):
        for q in range(p):
            if case.get('equator', -1) in (k, q) and k != q:
                continue                             # the relative difference from no vorticity at all is left open
            e = ((co[k][0] - co[q][0]) / slat) * ((co[k][0] - co[q][0]) / slat) + ((co[k][1] - co[q][1]) / slon) * ((co[k][1] - co[q][1]) / slon)
            if pv:
                a, b = (1.0, 1.0) if k == q else (om * math.sin(co[x][0] * math.pi / 180) / co[x][2] for x in (k, q))
                e = e + (a - b) * (a - b) / (a * a + b * b) / (phi * phi)
            lat = T.np.exp(-e)
            for i in range(m):
                for j in range(m):
                    x, y = t[i][k], t[j][k]
                    got = r[k * m + i, q * m + j]
                    if i == j:
                        T.check(T.eq(got, lat, 1e-8), 'same level: the lateral correlation (1 for coinciding profiles)')
                        if k == q:
                            T.check(T.eq(got, 1.0, 1e-8), 'unit diagonal')
                        continue
                    if any(isinstance(v, float) and v != v for v in (x, y)):
                        T.check(T.eq(got, lat, 1e-8), 'missing temperature: vertical correlation 1')
                        continue
                    gone = T.Or(T.isnan(x), T.isnan(y))
                    L = scale(T, x, DOWN if i < j else UP)
                    d = (y - x) / L
                    T.check(T.implies(gone, T.eq(got, lat, 1e-8)), 'missing temperature: vertical correlation 1')
                    v = T.np.exp(-(d * d))
                    same = (T.near(got, lat * v, 1e-8) if isinstance(v, float) else T.eq(got, lat * v, 1e-8))
                    T.check(T.implies(T.Not(gone), same), 'lateral times vertical correlation')
