"""C21: piecewise-linear fit at prescribed breaks (brk_pt_fit, sorter)"""
NAN = float('nan')
BOUNDS = ('2..8 points and 0..4 breaks: any observations, any positive weights (diagonal, up to 5 points; also a full positive matrix), '
          'any abscissae (up to 2 symbolic points) and any breaks (up to 2 symbolic) in every order relative to each other, '
          'breaks on points and repeated abscissae included; segment search for up to 4 boundaries and 5 points')
ASSUMES = ['abscissae and breaks are sorted, as fit_cond passes them; no break below the first abscissa']
QUICK_S = 90
XS = [-1.0, -0.75, -0.5, 0.0, 0.25, 0.5, 0.875, 1.0]


def cases(tier):
    out = [dict(kind='sorter', m=m, s=s) for m, s in ((1, 3), (2, 2), (2, 3), (3, 2))]
    out += [dict(kind='fit', n=n, b=b, w=w, y='any') for n, b, w in
            ((3, (), None), (4, (), 'any'), (5, (-0.25,), None), (5, (-0.5,), 'any'), (6, (-0.625, 0.0), None), (7, (-0.6, -0.3, 0.3), 'fixed'),
             (8, (-0.6, -0.3, 0.3, 0.7), 'fixed'), (4, (-0.6,), 'full'), (3, (), 'full'))]
    out += [dict(kind='move', n=n, b=b, w=w, x=x, sb=sb) for n, b, w, x, sb in
            ((3, (), None, (1,), ()), (4, (-0.25,), 'fixed', (2,), ()), (5, (-0.6, 0.1), 'fixed', (3,), ()), (5, (-0.25,), None, (), (0,)),
             (5, (-0.6, 0.1), None, (), (1,)), (3, (), 'fixed', (0, 2), ()))]
    out += [dict(kind='bad', n=n, b=b, w=w, why=y) for n, b, w, y in
            ((4, (), None, 'short'), (4, (0.1,), 'fixed', 'long'), (3, (), None, 'same'), (4, (0.3,), 'fixed', 'empty segment'),
             (3, (-0.9, -0.8), None, 'few points'))]
    if tier == 'thorough':
        out += [dict(kind='sorter', m=3, s=3), dict(kind='sorter', m=4, s=3), dict(kind='sorter', m=2, s=5)]
        out += [dict(kind='fit', n=5, b=(-0.5, 0.0), w='any', y='any'), dict(kind='move', n=6, b=(-0.6, 0.1), w='fixed', x=(3,), sb=(1,)),
                dict(kind='move', n=6, b=(-0.6, 0.1), w='fixed', x=(2, 3), sb=()), dict(kind='move', n=6, b=(-0.6, 0.1), w=None, x=(), sb=(0, 1))]
    return out


def run(T, case):
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    if case['kind'] == 'sorter':
        f = T.mod('utilities').sorter
        ms = [T.real(f'boundary {i}', -2, 2) for i in range(case['m'])]
        ss = [T.real(f'site {i}', -2, 2) for i in range(case['s'])]
        T.assume(T.And(*[a <= b for v in (ms, ss) for a, b in zip(v, v[1:])]))
        r = T.call(f, A(ms), A(ss))
        T.observe('segments', r)
        T.check(T.shape_is(r, (case['s'],)), 'one segment per site')
        for i, s in enumerate(ss):
            want = sum(T.ite(b <= s, 1, 0) for b in ms) - 1
            T.check(r[i] == want, 'the segment encloses the site')
        return
    f = T.mod('core.stats').brk_pt_fit
    n = case['n']
    x = list(XS[:n])
    bad = case['kind'] == 'bad'
    if bad and case['why'] == 'same':
        x = [0.5] * n
    for i in case.get('x', ()):
        x[i] = T.real(f'x{i}', -1, 1)
    b = [T.real(f'break {i}', -1, 1) if i in case.get('sb', ()) else v for i, v in enumerate(case['b'])]
    if case['kind'] == 'move':
        T.assume(T.And(*[u <= v for u, v in zip(x, x[1:])]))
        T.assume(T.And(*[u <= v for u, v in zip([x[0]] + b, b)]))
    ny = n + {'short': -1, 'long': 1}.get(case.get('why'), 0)
    y = [T.real(f'y{i}', -3, 3) if case['kind'] != 'move' or case.get('y') == 'any' or i == n - 2 else (i * 7 % 5) / 4 - 0.5 for i in range(ny)]
    if case['w'] is None:
        w = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
        warg = []
    else:
        w = [[0.0] * n for _ in range(n)]
        for i in range(n):
            w[i][i] = T.real(f'w{i}', 0.1, 4) if case['w'] == 'any' else 0.5 + 0.25 * ((i * 3) % 4)
        if case['w'] == 'full':
            for i in range(n - 1):
                w[i][i + 1] = w[i + 1][i] = 0.125 * (i + 1)
        warg = A(w)
    args = (A(x), A(y), warg) + ((A(b),) if b or case.get('sb') else ())
    par, res = T.call(f, *args)
    p, r = T.elems(par), T.elems(res)
    k = len(b) + 2
    T.check(len(p) == k and len(r) == ny, 'intercept and slopes, one residual per observation')
    if len(p) != k or len(r) != ny:
        return
    # basis of continuous piecewise-linear functions: 1 and the distance covered in each segment
    knots = [x[0]] + b
    basis = []
    for v in x:
        row = [1.0]
        for j, kn in enumerate(knots):
            top = v if j + 1 == len(knots) or T.split(v < knots[j + 1]) else knots[j + 1]
            d = top - kn
            row.append(d if T.split(d > 0) else 0.0)
        basis.append(row)
    zero = T.And(*[q == 0 for q in p])
    unchanged = T.And(*[T.near1(u, v, 1e-9) for u, v in zip(r, y)])
    if bad:
        T.check(zero, 'zero parameters for degenerate input')
        T.check(unchanged, 'observations are unchanged')
        return
    T.observe('parameters', par)
    if case['kind'] == 'move':
        # numerically rank-deficient designs are left out: every segment has at least one point well inside it
        seg = [T.Or(*[row[j] > 0.05 for row in basis]) for j in range(1, k)]
        col = T.And(*seg)
        two = T.And(*[T.Or(*[T.And(x[i] > knots[j] + 0.05, *([x[i] <= knots[j + 1]] if j + 1 < len(knots) else [])) for i in range(n)])
                      for j in range(len(knots))])
        if not T.split(T.And(col, two)):
            return
    fit = [sum(q * c for q, c in zip(p, row)) for row in basis]
    T.check(T.And(*[T.near1(r[i], y[i] - fit[i], 1e-7) for i in range(n)]), 'residual is data minus fit')
    for j in range(k):
        g = sum(basis[i][j] * w[i][m] * (y[m] - fit[m]) for i in range(n) for m in range(n))
        T.check(T.near1(g, 0.0, 1e-6), 'weighted residuals are orthogonal to every basis function')
