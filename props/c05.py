"""C05: ellipse measure, space-time measure and vorticity (find_ellipse, spatial_correlation, potential_vorticity)"""
import math

BOUNDS = ('all real separations, vorticities and (concrete or symbolic positive) scales; scalar arguments; the sine is '
          'uninterpreted except for bounds, monotonicity on [-90, 90], oddness and sin 0 = 0')
ASSUMES = ['scales are non-zero, depth is non-zero, latitudes within [-90, 90]']


def cases(tier):
    out = []
    for fn in ('ellipse', 'corr'):
        for pv in ('off', 'both', 'default', 'one0', 'two0'):
            out.append(dict(fn=fn, pv=pv, scales=[4, 2, 0.5, 10], sym=False))
            out.append(dict(fn=fn, pv=pv, scales=[0.75, 1.5, 0.1, 2], sym=False))
            if pv != 'both' or tier == 'thorough':
                out.append(dict(fn=fn, pv=pv, scales=None, sym=True))
    out += [dict(fn='pv', z=z) for z in ('any', 'zero_lat', 'concrete')]
    return out


def term(T, a, b, c):
    return ((a - b) / c) * ((a - b) / c)


def run(T, case):
    if case['fn'] == 'pv':
        return run_pv(T, case)
    x1, x2, y1, y2 = (T.real(n, -400, 400) for n in ('x1', 'x2', 'y1', 'y2'))
    if case['sym']:
        lx, ly, phi, lt = (T.real(n, 0.05, 20) for n in ('lx', 'ly', 'phi', 'lt'))
    else:
        lx, ly, phi, lt = case['scales']
    pv = case['pv']
    if pv == 'default':
        args = None
        p1 = p2 = 0
    else:
        p1 = 0 if pv in ('off', 'one0') else T.real('p1', -2, 2)
        p2 = 0 if pv in ('off', 'two0') else T.real('p2', -2, 2)
        args = (p1, p2)
    on = T.And(p1 != 0, p2 != 0)
    if pv == 'both':
        on = T.split(on)
    else:
        T.check(T.Not(on), 'harness: vorticity absent')
    pvsq = 0.0
    if on:
        den = p1 * p1 + p2 * p2
        pvsq = (p2 - p1) * (p2 - p1) / den / (phi * phi)
    if case['fn'] == 'ellipse':
        f = T.mod('core.finders').find_ellipse
        r = T.call(f, x1, x2, lx, y1, y2, ly, phi, *(args or ()))
        r2 = T.call(f, x2, x1, lx, y2, y1, ly, phi, *((p2, p1) if args else ()))
        r0 = T.call(f, x1, x1, lx, y1, y1, ly, phi, *((p1, p1) if args else ()))
        want = term(T, x1, x2, lx * 3) + term(T, y1, y2, ly * 3) + pvsq
        T.observe('measure', [r, r2, r0])
        T.check(T.And(T.eq(r, T.np.sqrt(want))), 'measure is the documented root of the sum')
        T.check(T.eq(r, r2), 'measure is symmetric')
        T.check(T.eq(r0, 0.0), 'measure vanishes for coinciding points')
    else:
        f = T.mod('utilities').spatial_correlation
        t1, t2 = T.real('t1', 1950, 2050), T.real('t2', 1950, 2050)
        r = T.call(f, x1, x2, lx, y1, y2, ly, t1, t2, lt, phi, *(args or ()))
        r2 = T.call(f, x2, x1, lx, y2, y1, ly, t2, t1, lt, phi, *((p2, p1) if args else ()))
        r0 = T.call(f, x1, x1, lx, y1, y1, ly, t1, t1, lt, phi, *((p1, p1) if args else ()))
        want = term(T, x1, x2, lx) + term(T, y1, y2, ly) + term(T, t1, t2, lt) + pvsq
        T.observe('measure', [r, r2, r0])
        T.check(T.eq(r, want), 'measure is the documented sum')
        T.check(T.eq(r, r2), 'measure is symmetric')
        T.check(T.eq(r0, 0.0), 'measure vanishes for coinciding points')


def run_pv(T, case):
    f = T.mod('utilities').potential_vorticity
    lat = 0.0 if case['z'] == 'zero_lat' else T.real('lat', -90, 90)
    if case['z'] == 'concrete':
        z = 1000.0
    else:
        z = T.real('z', -9000, 9000)
        T.assume(z != 0)
    r = T.call(f, lat, z)
    T.observe('pv', r)
    rate = 2 * 7.292e-5
    if T.split(lat == 0):
        T.check(T.eq(r * 1e5, 1.0), '1e-5 in place of zero')
        return
    s = T.np.sin(lat * math.pi / 180)
    T.check(T.eq(r * 1e5, rate * s / z * 1e5), 'twice the rotation rate times sine of latitude over depth')
