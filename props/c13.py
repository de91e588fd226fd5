"""C13: point covariance (covar_xyt_pv)"""
import math

BOUNDS = ('1..3 points in each list with every coordinate symbolic; scales fixed at two settings or symbolic; vorticity with symbolic '
          'depths at fixed latitudes; the exponential is uninterpreted except for positivity, monotonicity and exp 0 = 1')
ASSUMES = ['scales are positive (age may be zero), depths and latitudes non-zero with vorticity']


def cases(tier):
    out = []
    for age in (0, 20, 0.5):
        for m, n in ((1, 1), (2, 2), (2, 3), (3, 1)):
            if tier == 'thorough' or (m, n) != (2, 3) or age == 20:
                out.append(dict(m=m, n=n, age=age, pv=0, scales=[3, 0.7, 0.1]))
    out += [dict(m=2, n=1, age=a, pv=0, scales=None) for a in (0, 5)]
    out += [dict(m=m, n=n, age=a, pv=1, scales=[3, 0.7, 0.1]) for m, n, a in ((1, 1, 0), (1, 2, 10), (2, 1, 10), (2, 2, 5))]
    out += [dict(m=1, n=1, age=5, pv=v, scales=[2, 3, 0.5]) for v in (True, False, 2)]
    out += [dict(m=0, n=2, age=5, pv=0, scales=[2, 3, 0.5])]
    return out


def points(T, tag, n, pv, i0):
    rows = []
    for i in range(n):
        lat = T.real(f'{tag}{i}.lat', -80, 80) if not pv else [-40.0, 30.0, -42.5, 12.0][i0 + i]
        rows.append([lat, T.real(f'{tag}{i}.long', 0, 400), T.real(f'{tag}{i}.date', 1950, 2050),
                     T.real(f'{tag}{i}.depth', 100, 6000) if pv else 1000.0 * (i + 1)])
    return rows


def run(T, case):
    m, n, pv, age = case['m'], case['n'], case['pv'], case['age']
    f = T.mod('core.stats').covar_xyt_pv
    if case['scales']:
        slat, slon, phi = case['scales']
    else:
        slat, slon, phi = T.real('lat scale', 0.1, 10), T.real('long scale', 0.1, 10), 0.5
    flat = m == 0                                  # one point given as a plain vector
    a = points(T, 'a', m or 1, pv == 1, 0)
    b = points(T, 'b', n, pv == 1, 2)
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    r = T.call(f, A(a[0] if flat else a), A(b), slat, slon, age, phi, pv)
    T.observe('covariance', r)
    m = m or 1
    T.check(T.shape_is(r, (m, n)), 'one entry per pair')
    om = 2 * 7.292e-5

    def sq(x):
        return x * x

    for i in range(m):
        for j in range(n):
            p, q = a[i], b[j]
            # the scale named lat belongs to the second coordinate and long to the first: callers pass them in that order
            e = sq((p[0] - q[0]) / slon) + sq((p[1] - q[1]) / slat)
            if age != 0:
                e = e + sq((p[2] - q[2]) / age)
            if pv == 1:
                # relative difference of sin(lat)/depth, multiplied through by both depths
                sp, sq_ = math.sin(p[0] * math.pi / 180), math.sin(q[0] * math.pi / 180)
                pva, pvb = om * sp / p[3], om * sq_ / q[3]
                e = e + (pva - pvb) * (pva - pvb) / (pva * pva + pvb * pvb) / (phi * phi)
            T.check(T.eq(r[i, j], T.np.exp(-e), 1e-8), 'exp of minus the scaled squared separations')
            T.check(T.And(r[i, j] >= 0, r[i, j] <= 1), 'between 0 and 1')
    back = T.call(f, A(b), A(a), slat, slon, age, phi, pv)
    T.check(T.And(*[T.eq(back[j, i], r[i, j], 1e-8) for i in range(m) for j in range(n)]), 'symmetric')
    same = T.call(f, A(a), A(a), slat, slon, age, phi, pv)
    T.check(T.And(*[T.eq(same[i, i], 1.0, 1e-8) for i in range(m)]), '1 for identical points')
