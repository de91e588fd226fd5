"""C16: recorded reference points (selected_historical_points)"""
BOUNDS = ('1..4 casts and 0..3 points already recorded, of which up to 3 have symbolic coordinates; two successive profiles')
ASSUMES = ['locations and profile numbers are present (not missing)']


def cases(tier):
    # (casts, recorded, symbolic coordinates: which entries have a symbolic longitude / latitude)
    out = [dict(n=n, m=m, form=f, two=t) for n, m, f, t in (
        (1, 0, 'xy', False), (2, 0, 'xy', False), (3, 0, 'x', False), (1, 1, 'xy', False), (2, 1, 'xy', False), (1, 2, 'xy', False),
        (2, 2, 'x', False), (2, 2, 'y', False), (1, 1, 'xy', True), (2, 0, 'y', True), (3, 0, 'xy', False), (2, 2, 'xy', False), (2, 1, 'xy', True))]
    if tier == 'thorough':
        out += [dict(n=n, m=m, form=f, two=t) for n, m, f, t in (
            (3, 1, 'xy', False), (4, 1, 'x', False), (3, 2, 'y', True), (2, 3, 'xy', False), (4, 0, 'xy', False))]
    return out


def run(T, case):
    f = T.mod('helper').selected_historical_points
    n, m, form = case['n'], case['m'], case['form']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731

    def point(tag, i):
        x, y = 10.0 + 0.005 * i, -40.0 + 0.01 * i
        if 'x' in form:
            x = T.real(f'{tag}{i}.x', 9, 11)
        if 'y' in form:
            y = T.real(f'{tag}{i}.y', -41, -39)
        return [x, y]
    rec = [point('recorded', i) + [float(i + 1)] for i in range(m)]
    data = {'selected_hist': A(rec) if m else [], 'la_profile_no': T.arr([4, 7, 5], 'i')}

    def near(p, q):
        dx, dy = p[0] - q[0], p[1] - q[1]
        return T.And(dx < 1 / 60, dx > -1 / 60, dy < 1 / 60, dy > -1 / 60)

    def one(data, rec, casts, k):
        hist = {'hist_long': A([[c[0]] for c in casts]), 'hist_lat': A([[c[1]] for c in casts])}
        r = T.call(f, data, hist, k)
        sel = r['selected_hist']
        T.observe('selected', sel)
        T.check(len(sel) >= len(rec) and T.shape_is(sel, (len(sel), 3)), 'one row of three values per point')
        if len(sel) < len(rec) or not T.shape_is(sel, (len(sel), 3)):
            return r, None
        pts = [[sel[i, j] for j in range(3)] for i in range(len(sel))]
        T.check(T.And(*[T.eq(pts[i][j], rec[i][j]) for i in range(len(rec)) for j in range(3)]), 'recorded points are kept in order')
        for i in range(len(rec), len(pts)):
            T.check(T.eq(pts[i][2], [4.0, 7.0, 5.0][k]), 'added point carries the profile number')
            T.check(T.Or(*[T.And(T.eq(pts[i][0], c[0]), T.eq(pts[i][1], c[1])) for c in casts]), 'added point is a cast used')
            T.check(T.And(*[T.Not(near(pts[i], pts[j])) for j in range(i)]), 'added point is not near a recorded one')
        for c in casts:
            T.check(T.Or(*[near(c, q) for q in pts]), 'every cast used is represented')
        return r, pts

    data, rec = one(data, rec, [point('cast', i) for i in range(n)], 1)
    if case['two'] and rec:
        one(data, rec, [point('later', i) for i in range(1)], 2)
