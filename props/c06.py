"""C06: selection of historical casts (find_besthist)"""
import itertools
import math

BOUNDS = ('2..9 candidate casts of which up to 4 have symbolic latitude and date and symbolic or fixed longitude, '
          'configured maximum 1..7; vorticity off, or on with depths from a short list; scales fixed at two settings; '
          'the pseudo-random draw is executed with the real seeded generator')
ASSUMES = ['scales are positive, depths non-zero']
QUICK_S = 200

# name: (n, max, symbolic rows, positions of the fixed rows as (lon, lat, date))
FIX = [(10.5, -40.2, 2001.0), (9.0, -39.0, 2003.5), (11.5, -41.0, 1999.0), (10.0, -40.5, 2008.25), (8.5, -40.0, 2000.5),
       (12.0, -39.5, 2006.0), (10.25, -41.5, 2004.75), (9.5, -38.75, 2002.0), (70.0, -40.0, 2004.0)]
FLOAT = (10.0, -40.0, 2005.0)
SET = [dict(lax=3, las=1, lox=5, los=2, phx=0.5, phs=0.1, agx=20, ags=5),
       dict(lax=1, las=2, lox=2, los=4, phx=0.1, phs=0.5, agx=5, ags=10)]


def cases(tier):
    out = []
    for s in (0, 1):
        for n, mx in ((2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2), (4, 3)):
            out.append(dict(n=n, mx=mx, free=2, s=s, mode='lat', again=n == 3))
        for n, mx in ((5, 3), (6, 4), (8, 5), (8, 6), (9, 6), (9, 7)):
            out.append(dict(n=n, mx=mx, free=3, s=s, mode='alt', again=False))
        for n, mx in ((3, 1), (4, 3)):
            out.append(dict(n=n, mx=mx, free=2, s=s, mode='lon', again=False))
        for n, mx in ((4, 3), (6, 4)):
            out.append(dict(n=n, mx=mx, free=2, s=s, mode='pv', again=True))
    if tier == 'thorough':
        for s in (0, 1):
            for n, mx in ((3, 2), (4, 3), (5, 3), (5, 4), (6, 5)):
                out.append(dict(n=n, mx=mx, free=3, s=s, mode='lat', again=False))
            for n, mx in ((7, 3), (9, 4), (9, 5)):
                out.append(dict(n=n, mx=mx, free=3, s=s, mode='lon', again=False))
            out.append(dict(n=6, mx=4, free=3, s=s, mode='pv', again=False))
    return out


def run(T, case):
    f = T.mod('core.finders').find_besthist
    n, mx, free, mode = case['n'], case['mx'], case['free'], case['mode']
    p = SET[case['s']]
    lons, lats, dates, zs = [], [], [], []
    seen = 0
    for i in range(n):
        lo, la, da = FIX[i]
        z = 3000.0
        # symbolic rows are spread over the list
        if i in [(3 * k + 1) % n for k in range(n)][:free] if n % 3 else i < free:
            if mode == 'pv':
                z = T.choice(f'z{i}', [1000.0, 4000.0, 2500.0])
                la = T.choice(f'lat{i}', [-40.0, -42.0, -39.5])
                da = T.real(f'date{i}', 1990, 2015)
            else:
                seen += 1
                if mode == 'alt':
                    if seen % 2:
                        la = T.real(f'lat{i}', -60, -20)
                    else:
                        da = T.real(f'date{i}', 1990, 2015)
                else:
                    la = T.real(f'lat{i}', -60, -20)
                if mode == 'lon':
                    lo = T.real(f'lon{i}', -20, 40)
                elif mode == 'lat':
                    da = T.real(f'date{i}', 1990, 2015)
        lons.append(lo)
        lats.append(la)
        dates.append(da)
        zs.append(z)
    pv = 1 if mode == 'pv' else 0
    lon0, lat0, date0 = FLOAT
    z0 = 2000.0
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    args = (A(lats), A(lons), A(dates), A(zs), lat0, lon0, date0, z0, p['lax'], p['las'], p['lox'], p['los'],
            p['phx'], p['phs'], p['agx'], p['ags'], pv, mx)
    T.perturb_rng(11, 6)
    sel = T.call(f, *args)
    sel = [int(v) for v in T.elems(sel)]
    T.observe('selection', [float(v) for v in sel])
    T.check(len(set(sel)) == len(sel), 'selected casts are distinct')
    T.check(all(0 <= v < n for v in sel), 'indices address listed casts')

    om = 2 * 7.292e-5

    def pvterm(i, phi):
        if not pv:
            return 0.0
        a = om * math.sin(lats[i] * math.pi / 180) / zs[i]
        b = om * math.sin(lat0 * math.pi / 180) / z0
        return ((b - a) / math.sqrt(a * a + b * b) / phi) ** 2

    def sq(v):
        return v * v

    ell = [sq((lons[i] - lon0) / (3 * p['lox'])) + sq((lats[i] - lat0) / (3 * p['lax'])) + pvterm(i, p['phx'])
           for i in range(n)]
    inside = [T.split(ell[i] < 1) for i in range(n)]
    E = [i for i in range(n) if inside[i]]
    T.check(set(sel) <= set(E), 'every selected cast lies inside the large ellipse')
    if len(E) <= mx:
        T.check(set(sel) == set(E), 'all casts of the ellipse when they do not exceed the maximum')
    else:
        T.check(len(sel) == mx, 'exactly the maximum number of casts')
        if len(set(sel)) == mx and set(sel) <= set(E):
            large = {i: sq((lons[i] - lon0) / p['lox']) + sq((lats[i] - lat0) / p['lax']) +
                     sq((dates[i] - date0) / p['agx']) + pvterm(i, p['phx']) for i in E}
            small = {i: sq((lons[i] - lon0) / p['los']) + sq((lats[i] - lat0) / p['las']) +
                     sq((dates[i] - date0) / p['ags']) + pvterm(i, p['phs']) for i in E}
            T.check(ranked(T, E, sel, mx, large, small), 'a random third, then best by large, then best by small scales')
    if case['again']:
        T.perturb_rng(29, 40)
        sel2 = [int(v) for v in T.elems(T.call(f, *args))]
        T.check(sel2 == sel, 'the same selection on every run')


def ranked(T, E, sel, mx, large, small):
    k = math.ceil(mx / 3)
    memo = {}

    def le(kind, d, a, b):
        if (kind, a, b) not in memo:
            memo[kind, a, b] = d[a] - d[b] <= 1e-9
        return memo[kind, a, b]

    alts = []
    for np_ in range(1, k + 1):
        nl = min(2 * k - np_, mx - np_)
        for P in itertools.combinations(sel, np_):
            rest = [x for x in sel if x not in P]
            for L in itertools.combinations(rest, nl):
                M = [x for x in rest if x not in L]
                ok = True
                for x in E:
                    if x not in P and x not in L:
                        ok = T.And(ok, *[le('l', large, a, x) for a in L])
                        if x not in M:
                            ok = T.And(ok, *[le('s', small, a, x) for a in M])
                if ok is True:
                    return True
                alts.append(ok)
    return T.Or(*alts)
