"""C19: calibration series settings (set_calseries)"""
from . import world

NAN = float('nan')
BOUNDS = ('1..5 profiles of 1..3 levels: any profile numbers for up to 3 profiles (every order), any missing values in chosen profiles '
          '(others complete or partly missing); earlier files holding any subset of the profiles with any series 0..4, '
          'bounds absent, single or repeated (as row or column), with or without use_percent_gt; one and two runs')
ASSUMES = ['profile numbers are distinct', 'an earlier file holds at least one profile of the float']
QUICK_S = 60

BND = ('use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt')


def cases(tier):
    out = [dict(n=1, m=2, old=None, sym=(0,)), dict(n=3, m=1, old=None, sym=()), dict(n=2, m=1, old=None, sym=(0, 1)), dict(n=3, m=1, old=None, sym=(2,))]
    for n, keep, sym, bnd, pct in ((2, (0,), (1,), (0, 1, 0, 1), True), (2, (1,), (), (1, 2, 0, 0), True), (3, (0, 2), (1,), (3, 0, 1, 0), False),
                                   (3, (0,), (), (0, 3, 2, 1), True), (3, (2, 1), (), (2, 2, 3, 3), False), (3, (0, 1, 2), (0,), (1, 1, 1, 1), True),
                                   (3, (1,), (2,), (0, 0, 0, 3), True)):
        out.append(dict(n=n, m=1 if sym else 2, old=keep, sym=sym, bnd=bnd, pct=pct))
    out += [dict(n=4, m=1, nos=(7, 3, 9, 5), old=k, sym=(), bnd=(0, 0, 1, 0), pct=True) for k in ((1, 3), (0,), (2, 1, 0))]
    out += [dict(n=5, m=2, nos=(1, 2, 3, 4, 5), old=(0, 3), sym=(1,), bnd=(1, 0, 0, 0), pct=True), dict(n=5, m=2, nos=(5, 4, 1, 2, 3), old=None, sym=(3,))]
    if tier == 'thorough':
        out += [dict(n=4, m=1, old=k, sym=s, bnd=(0, 1, 0, 0), pct=True) for k, s in (((0, 1), (2,)), ((3,), (0,)), ((2, 0), ()))]
        out += [dict(n=3, m=2, old=None, sym=(0, 1)), dict(n=2, m=3, old=None, sym=(1,)), dict(n=3, m=1, old=None, sym=(0, 1, 2))]
    return out


def run(T, case):
    f = T.mod('configuration').set_calseries
    n, m = case['n'], case['m']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    nos = list(case['nos']) if case.get('nos') else [T.int(f'no[{i}]', 1, 400) for i in range(n)]
    if not case.get('nos'):
        T.assume(T.And(*[nos[i] != nos[j] for i in range(n) for j in range(i)]))
    data = {}
    for key in ('SAL', 'TEMP', 'PRES'):
        data[key] = [[T.real(f'{key}[{lv},{i}]', 0, 40, nan=True) if i in case['sym'] else
                      (NAN if (i + lv) % 3 == 2 and m > 1 else 1.0 + lv) for i in range(n)] for lv in range(m)]
    src = {k: A(v) for k, v in data.items()}
    src['PROFILE_NO'] = T.arr([nos], 'i')
    T.save(f'{T.root}/source/set/{world.FLOAT}.mat', src)
    path = f'{T.root}/calib/set/calseries_{world.FLOAT}_c.mat'
    T.save(f'{T.root}/calib/set/other.mat', {'x': A([[1.0]])})
    old, bounds = {}, {}
    if case['old'] is not None:
        keep = case['old']
        old = {i: T.int(f'series[{i}]', 0, 4) for i in keep}
        d = {'breaks': A([[T.real('break', 1, 400)]]), 'max_breaks': T.arr([[T.int('max_breaks', -1, 4)]], 'i'),
             'calseries': T.arr([[old[i] for i in keep]], 'i'), 'calib_profile_no': T.arr([[nos[i] for i in keep]], 'i')}
        if case['pct']:
            d['use_percent_gt'] = A([[T.real('percent', 0, 1)]])
        for k, form in zip(BND, case['bnd']):
            v = [T.real(f'{k}.{j}', -2, 2000) for j in range(min(form, 2))]
            bounds[k] = v if len(v) < 2 else []
            d[k] = A([v] if form < 3 else [[x] for x in v]) if v else []
        T.save(path, d)
        saved = T.load(path)
    T.call(f, 'set', world.FLOAT, world.config(T))
    out = T.load(path)
    got_no, got = T.elems(out['calib_profile_no']), T.elems(out['calseries'])
    T.observe('series', out['calseries'])
    T.check(len(got_no) == n and len(got) == n, 'exactly one entry per profile')
    if len(got_no) != n or len(got) != n:
        return
    T.check(T.And(*[got_no[i] < got_no[i + 1] for i in range(n - 1)]), 'sorted by profile number')
    T.check(T.And(*[T.Or(*[g == no for g in got_no]) for no in nos]), 'every profile of the float is there')
    none = [T.Or(*[T.And(*[T.isnan(data[k][lv][i]) for lv in range(m)]) for k in data]) for i in range(n)]
    want = {}
    for i in range(n):
        if not old:
            v = 1
        elif i in old:
            v = old[i]
        else:
            v = want[i - 1] if i > 0 else old[case['old'][0]]
        want[i] = v
    for i in range(n):
        w = T.ite(none[i], 0, want[i])
        T.check(T.And(*[T.implies(got_no[j] == nos[i], got[j] == w) for j in range(n)]),
                'series as before, of the previous profile, or 0 without any data')
    for k in BND:
        v = T.elems(out[k])
        w = bounds.get(k, [])
        T.check(len(v) == len(w) and T.And(*[T.eq(a, b) for a, b in zip(v, w)]), f'{k}: kept, dropped when repeated')
    if case['old'] is not None:
        for k in ('breaks', 'max_breaks') + (('use_percent_gt',) if case['pct'] else ()):
            T.check(T.eq(out[k], saved[k]), f'{k} kept')
    else:
        T.check(len(T.elems(out['breaks'])) == 0 and T.eq(out['max_breaks'], A([[4.0]])), 'defaults')
    if case['old'] is None or not case['pct']:
        T.check(T.eq(out['use_percent_gt'], A([[0.5]])), 'default of use_percent_gt')
    T.call(f, 'set', world.FLOAT, world.config(T))
    again = T.load(path)
    for k in BND + ('breaks', 'max_breaks', 'calseries', 'calib_profile_no', 'use_percent_gt'):
        T.check(T.np.shape(again[k]) == T.np.shape(out[k]) and T.eq(again[k], out[k]), f'{k} unchanged by another run')
