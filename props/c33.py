"""C33: a constant conductivity error of the float is removed by its calibration (calc_piecewisefit)"""
from . import world

NAN = float('nan')
BOUNDS = ('2..5 profiles of 2 levels in 1..2 series, each series measured with its own conductivity factor, any in (0.9, 1.1), against the same '
          'series without it; samples missing or not; offsets and lines; positions, salinities and mapped values are concrete; the levels '
          'chosen are the same (stand-in)')
ASSUMES = ['the same levels are chosen with and without the factor (C20 decides which)', 'factors are compared for lines, factors and errors for offsets '
           '(the others vary with the random numbers drawn)', 'conversions between conductivity and salinity are uninterpreted inverse functions']
QUICK_S = 60


def cases(tier):
    out = [dict(n=n, k=k, mb=mb, br=None) for n, k, mb in ((2, (1, 1), [[-1]]), (3, (1, 1, 1), [[-1]]), (3, (1, 0, 1), [[-1]]), (4, (1, 1, 2, 2), [[-1]]),
                                                           (4, (1, 2, 2, 1), [[-1]]), (4, (1, 1, 1, 1), [[0]]))]
    out += [dict(n=4, k=(1, 2, 0, 1), mb=[[-1]], br=None), dict(n=5, k=(1, 2, 1, 2, 1), mb=[[-1]], br=None)]
    if tier == 'thorough':
        out += [dict(n=5, k=(1, 1, 1, 1, 1), mb=[[0]], br=None), dict(n=5, k=(1, 2, 1, 2, 2), mb=[[-1]], br=None)]
    return out


def run(T, case):
    n, k, m = case['n'], case['k'], 2
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    cfg = world.config(T)
    T.binfile(T.root + '/const/tbase.int', world.elevation, world.COLS * world.ROWS)
    nos = [2, 3, 5, 9, 11][:n]
    noise = [0.011, -0.006, 0.003, -0.014, 0.008, 0.002, -0.01, 0.013, 0.004, -0.005]
    prof = [dict(no=nos[j], lat=-44.7 - 0.3 * j, long=10.1 + 0.4 * j, date=2005.0 + j, pres=[200.0 + 300 * i + j for i in range(m)],
                 ptmp=[12.0 - 2.5 * i - 0.1 * j for i in range(m)], sal=[34.2 + 0.2 * i + 0.01 * j for i in range(m)]) for j in range(n)]
    for j in range(n):
        if j in (1, 3) and T.split(T.bool(f'missing {j}')):
            prof[j]['sal'][j // 2] = NAN
    T.save(world.mapped_path(T), {'la_mapped_sal': A([[prof[j]['sal'][i] + 0.03 + noise[2 * j + i] for j in range(n)] for i in range(m)]),
                                  'la_mapsalerrors': A([[0.01 + 0.002 * i + 0.001 * j for j in range(n)] for i in range(m)]),
                                  'la_ptmp': A([[p['ptmp'][i] for p in prof] for i in range(m)]), 'selected_hist': A([[10.0, -44.0, 3.0]])})
    T.save(f'{T.root}/calib/set/calseries_{world.FLOAT}_c.mat',
           dict(calseries=T.arr([list(k)], 'i'), calib_profile_no=T.arr([nos], 'i'), max_breaks=T.arr(case['mb'], 'i'), breaks=A(case['br'] or []),
                use_percent_gt=A([[0.5]]), use_theta_lt=A([]), use_theta_gt=A([]), use_pres_lt=A([]), use_pres_gt=A([])))

    def find_10thetas(*a):
        cols = T.np.shape(a[0])[1]
        return A([NAN] * 10), A([NAN] * 10), A([[float(r) if r < m else NAN for _ in range(cols)] for r in range(10)]), A([NAN] * 5), A([NAN] * 5)

    def go(profiles):
        world.source(T, profiles, m)
        T.override('core.finders', 'find_10thetas', find_10thetas)
        T.call(T.mod('calibration').calc_piecewisefit, 'set', world.FLOAT, cfg)
        out = T.load(f'{T.root}/calib/set/cal_{world.FLOAT}_c.mat')
        T.new_session()
        return out
    base = go(prof)
    r = {s: T.real(f'conductivity factor of series {s}', 0.9, 1.1) for s in sorted(set(k))}
    scaled = []
    for j, p in enumerate(prof):
        sal = [T.gsw.SP_from_C(r[k[j]] * float(T.gsw.C_from_SP(s, t, 0)), t, 0) if s == s else NAN for s, t in zip(p['sal'], p['ptmp'])]
        scaled.append(dict(p, sal=sal))
    got = go(scaled)
    offset = case['mb'] == [[-1]]
    for j in range(n):
        f, g = base['pcond_factor'][0, j], got['pcond_factor'][0, j]
        T.check(T.Not(T.isnan(f)) if k[j] else T.isnan(f), 'the profiles of the series are calibrated')
        T.observe('factor', g)
        if not k[j]:
            T.check(T.isnan(g), 'others are not')
            continue
        T.check(T.near1(g * r[k[j]], f, 1e-8), "the factor undoes the float's own")
        if offset:
            T.check(T.near1(got['pcond_factor_err'][0, j] * r[k[j]], base['pcond_factor_err'][0, j], 1e-8), 'so does its error')
        for i in range(m):
            keys = ('cal_SAL', 'cal_COND') + (('cal_SAL_err', 'cal_COND_err') if offset else ())
            for key in keys:
                T.check(T.near1(got[key][i, j], base[key][i, j], 1e-7), f'{key} is as without the factor')
