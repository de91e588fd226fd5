"""C01: longitude normalisation (pyowc.utilities.wrap_longitude)"""

BOUNDS = 'lists of 0..4 (thorough 6) longitudes, each any real in [-720, 720]; 1-d arrays'
ASSUMES = ['longitudes are present (not NaN) and given as a one-dimensional float array, as the callers pass them']


def cases(tier):
    return [dict(n=n) for n in range(0, 5 if tier == 'quick' else 7)]


def run(T, case):
    n = case['n']
    x = T.array('lon', (n,), -720, 720)
    orig = [v for v in T.elems(x)]
    wrap = T.mod('utilities').wrap_longitude
    r = T.call(wrap, x.copy())
    T.observe('out', r)
    T.check(T.shape_is(r, (n,)), 'same number of longitudes')
    first = [T.ite(v < 0, v + 360, v) for v in orig]
    top = T.Or(*[v >= 320 for v in first])
    exp = [T.ite(T.And(top, v <= 40), v + 360, v) for v in first]
    for i, (g, e) in enumerate(zip(T.elems(r), exp)):
        T.check(T.eq(g, e), f'longitude {i} is the documented value')
