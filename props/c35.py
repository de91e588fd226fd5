"""C35: changes that must not matter, or only shift the result, do so (mapping and calibration)"""
from . import hist, world
from .c17 import float_profile
from .c32 import compare

NAN = float('nan')
BOUNDS = ('one mapping of 1..2 profiles with 2..3 levels and 8..13 casts (one of them an outlier), or one calibration (offset) of 3 profiles with 2 levels, compared with the same after one change: any '
          'constant in (-1.5, 1.5) added to all historical salinities, these spread by any factor in (0.2, 2), all dates moved by whole years, any height of a flat or sloping relief and any cross-isobath scales while '
          'vorticity is off, any in-situ temperatures (also missing) without frontal filter, profile numbers moved by any whole number up to 400, '
          'dates of the calibrated profiles any real; levels missing or not; at Greenwich and elsewhere')
ASSUMES = ['the frontal filter is off', 'salinities stay between 30 and 40 (others are discarded by design)', 'dates are valid before and after']
QUICK_S = 150

AT = {'east': 0.0, 'greenwich': -10.4}
PV = dict(MAP_USE_PV=1, CONFIG_MAX_CASTS=6)


def cases(tier):
    out = [dict(step='map', what='offset', n=n, extra=x) for n, x in ((1, {}), (2, {}), (1, PV))]
    out += [dict(step='map', what='spread', n=1, extra=x) for x in ({}, PV)]
    out += [dict(step='map', what='spread', n=1, casts=13, extra={}), dict(step='map', what='offset', n=1, casts=13, extra={})]
    out += [dict(step='map', what='years', n=n, extra=x) for n, x in ((1, {}), (2, PV))]
    out += [dict(step='map', what='depths', n=2, at=a) for a in AT] + [dict(step='map', what='depths', n=1, extra=dict(CONFIG_MAX_CASTS=6))]
    out += [dict(step='map', what='temperature', n=2, extra=x) for x in ({}, PV)]
    out += [dict(step='map', what='numbers', n=2)]
    out += [dict(step='fit', what=w, n=3) for w in ('temperature', 'numbers', 'depths')] + [dict(step='fit', what='numbers', n=3, extra=PV)]
    if tier == 'thorough':
        out += [dict(step='map', what=w, n=3, at=a, extra=dict(x)) for w in ('offset', 'years', 'temperature', 'numbers') for a in AT for x in ({}, PV)]
        out += [dict(step='fit', what=w, n=4, at=a) for w in ('temperature', 'numbers', 'depths') for a in AT]
    return out


def run(T, case):
    step, what, n, extra = case['step'], case['what'], case['n'], case.get('extra', {})
    shift = AT[case.get('at', 'east')]
    cfg = world.config(T, **extra)
    levels = 3 if step == 'map' and n == 1 else 2
    ks = list(range(case.get('casts', 8 if n == 1 else 9)))
    nos = [3, 5, 9, 10][:n]
    prof = [float_profile(i, nos[i], levels, shift) for i in range(n)]
    for i in range(n if step == 'fit' else 1):
        if T.split(T.bool(f'missing {i}')):
            prof[i]['sal'][[1, 0, 1, 0][i]] = NAN
    box = int((10.1 + shift) % 360 // 10) * 18 + 13
    world.setup(T, ks, shift, [box, box - 1])
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731

    spread = T.real('factor', 0.2, 2) if what == 'spread' else 1.0
    add = T.real('constant', -1.5, 1.5) if what == 'offset' else 0.0
    moved = lambda v: 34.5 + (v - 34.5) * spread + add              # noqa: E731
    calls, run_no = [], [0]

    def map_data_grid(sal, grid_pos, data_pos, lat, long, age, signal_variance, noise_variance, phi, map_pv_use):
        """any estimate that follows a change of its data as an estimate does (C14)"""
        given = (T.elems(sal), T.elems(grid_pos) + T.elems(data_pos) + [lat, long, age, phi, map_pv_use], T.elems(signal_variance) + T.elems(noise_variance))
        res = abs(float(given[0][-1])) < 10 if run_no[0] == 1 else calls[0][3]
        q = len(calls)
        if run_no[0] == 1:
            lo, hi = (-0.5, 0.5) if res else (33.5, 35.5)
            value, err, fit = T.real(f'estimate {q}', lo, hi), T.real(f'error {q}', 0, 1), [lo + 0.1 + 0.01 * (i * 7 % 5) for i in range(len(given[0]))]
            if q == 0:
                fit[0] = T.real('estimate at the first cast', 33, 36)
            calls.append((given, (value, err, fit), q, res))
        else:
            if not calls:
                T.fail('nothing more is mapped')
            before, (value, err, fit), _, res = calls.pop(0)
            g = (lambda v: v * spread) if res else moved            # noqa: E731
            T.check([len(v) for v in given] == [len(v) for v in before], 'as much data is mapped')
            T.check(T.And(*[T.near1(u, g(v), 1e-7) for u, v in zip(given[0], before[0])]), 'the mapped data change by what they should')
            T.check(T.And(*[T.near1(u, v, 1e-7) for u, v in zip(given[1], before[1])]), 'places and scales are the same')
            T.check(T.And(*[T.near1(u, v * spread ** 2, 1e-7) for u, v in zip(given[2], before[2])]), 'the variances change by what they should')
            value, err, fit = g(value), err * spread, [g(v) for v in fit]
        return value, err, A(fit), A([0.1] * len(fit))

    def go(profiles):
        run_no[0] += 1
        if what in ('offset', 'spread'):
            T.override('data.wrangling', 'map_data_grid', map_data_grid)
        world.source(T, profiles, levels)
        if step == 'fit':
            val = lambda f: A([[f(i, r) for i in range(n)] for r in range(levels)])    # noqa: E731
            T.save(world.mapped_path(T), {'la_mapped_sal': val(lambda i, r: prof[i]['sal'][r] + 0.01 + 0.004 * i), 'la_mapsalerrors': val(lambda i, r: 0.02 + 0.01 * r),
                                          'la_ptmp': val(lambda i, r: prof[i]['ptmp'][r]), 'selected_hist': A([[10.0, -44.0, 3.0]])})
            T.save(f'{T.root}/calib/set/calseries_{world.FLOAT}_c.mat',
                   dict(breaks=A([]), max_breaks=T.arr([[-1]], 'i'), calseries=T.arr([[1] * n], 'i'), calib_profile_no=T.arr([[p['no'] for p in profiles]], 'i'),
                        use_percent_gt=A([[0.5]]), use_theta_lt=A([]), use_theta_gt=A([]), use_pres_lt=A([]), use_pres_gt=A([])))
            T.call(T.mod('calibration').calc_piecewisefit, 'set', world.FLOAT, cfg)
            path = f'{T.root}/calib/set/cal_{world.FLOAT}_c.mat'
        else:
            T.call(T.mod('calibration').update_salinity_mapping, 'set', cfg, world.FLOAT)
            path = world.mapped_path(T)
        out = T.load(path)
        T.remove(path)
        T.new_session()
        return out

    def rewrite(change):
        for typ, lo, hi in ((1, -90, -44.95), (3, -44.95, 90)):
            sel = [change(world.cast(k, shift)) for k in ks if lo < world.CASTS[k][1] <= hi]
            hist.write(T, typ, 7300 + typ, sel, ['1900001_1'] * len(sel) if typ == 3 else None)

    base = go(prof)
    if prof[0]['sal'][0] == prof[0]['sal'][0]:
        T.check(T.Not(T.isnan(base['la_mapped_sal' if step == 'map' else 'cal_SAL'][0, 0])), 'there is a result')
    number = 0
    if what in ('offset', 'spread'):
        rewrite(lambda c: dict(c, sal=[moved(v) for v in c['sal']]))
        got = go(prof)
    elif what == 'years':
        years = T.choice('years', [-104, -9, 1, 60])
        rewrite(lambda c: dict(c, date=c['date'] + 10000 * years))
        got = go([dict(p, date=p['date'] + years) for p in prof])
    elif what == 'depths':
        deep, rise = T.int('height', -9000, 6000), T.choice('rise', [0, 40, -25])
        T.binfile(T.root + '/const/tbase.int', lambda k: deep + rise * (k % world.COLS % 300), world.COLS * world.ROWS)
        for k in ('LARGE', 'SMALL'):
            cfg['MAPSCALE_PHI_' + k] = T.real('cross-isobath ' + k.lower(), 0, 5, lo_open=True)
        got = go(prof)
    elif what == 'temperature':
        other = [dict(p) for p in prof]
        for i, p in enumerate(other):
            p['in situ'] = [T.real(f'in-situ temperature {i},{r}', -2, 35, nan=i == 0) for r in range(levels)]
            if step == 'fit':
                p['date'] = T.real(f'date {i}', 1900, 2100)
        got = go(other)
    else:
        number = T.choice('numbers later', [None, 6, 95])
        if number is None:
            number = T.int('by', -2, 400)
        got = go([dict(p, no=p['no'] + number) for p in prof])
    if what not in ("offset", "spread", "numbers"):
        return compare(T, base, got, step, levels, list(range(n)), None)
    if step == 'fit':
        keys = {'cal_SAL': (0, 0), 'cal_SAL_err': (0, 0), 'cal_COND': (0, 0), 'pcond_factor': (0, 0), 'pcond_factor_err': (0, 0), 'sta_SAL': (0, 0), 'sta_mean': (0, 0),
                'time_deriv': (0, 0), 'PROFILE_NO': (1, 0)}
    else:
        keys = {'la_mapped_sal': (0, 1), 'la_mapsalerrors': (0, 2), 'la_noise_sal': (0, 3), 'la_signal_sal': (0, 3), 'la_ptmp': (0, 0), 'la_profile_no': (1, 0)}
    for key, (num, how) in keys.items():
        a, b = T.elems(base[key]), T.elems(got[key])
        T.check(len(a) == len(b), f'{key}: as many values')
        for u, v in zip(a, b):
            want = u + number if num else (u, moved(u), u * spread, u * spread ** 2)[how]
            T.check(T.near1(v, want, 1e-6), f'{key} changes by what it should')
            T.observe(key, v)
    if step == 'map':
        T.check(not calls or what == 'numbers', 'as much is mapped')
        T.check(T.shape_is(got['selected_hist'], T.np.shape(base['selected_hist'])), 'as many historical points')
