"""C32: the reference values do not depend on the float's own salinities or on how the data are laid out"""
import os

from . import hist, world
from .c17 import float_profile

NAN = float('nan')
BOUNDS = ('one mapping, or fit of an offset, of 2..3 profiles with 2..3 levels, 8..9 casts, compared with the same after one change: all present float '
          'salinities any real in (2, 42); longitudes of profiles or casts given with another full turn (-180..180 or 0..360) at Greenwich, at the '
          'date line and elsewhere; rows without data at any depth of the float (fit: above or below its data) or of the historical files; profiles or casts in any order in '
          'their file; profiles on their own; levels missing or not; the other positions, dates and values are concrete')
ASSUMES = ['no frontal filter (where the temperature does not decide on which side of the front a profile is, its salinity does)',
           'changed order of the casts: all casts of the region are used (the random draw among too many goes by their order)']
QUICK_S = 150

AT = {'east': 0.0, 'greenwich': -10.4, 'date line': 169.6}


def cases(tier):
    out = [dict(step='map', what='salinity', extra=x) for x in ({}, dict(MAP_USE_PV=1, CONFIG_MAX_CASTS=6))]
    out += [dict(step=s, what='turn', at=a) for s in ('map', 'fit') for a in AT]
    out += [dict(step='map', what='cast turn', at=a) for a in AT]
    out += [dict(step=s, what='padding') for s in ('map', 'fit')]
    out += [dict(step='map', what=w) for w in ('order', 'cast order', 'cast padding', 'alone')]
    if tier == 'thorough':
        out += [dict(step=s, what='turn', at=a, n=3) for s in ('map', 'fit') for a in AT]
        out += [dict(step=s, what='padding', n=3) for s in ('map', 'fit')]
        out += [dict(step='map', what=w, n=3) for w in ('order', 'cast order', 'alone')]
        out += [dict(step='map', what=w, at=a, extra=dict(MAP_USE_PV=1)) for w in ('turn', 'cast turn') for a in ('greenwich', 'date line')]
    return out


def run(T, case):
    step, what, n = case['step'], case['what'], case.get('n', 2)
    shift = AT[case.get('at', 'east')]
    cfg = world.config(T, **case.get('extra', {}))
    levels = 2 if step == 'fit' or what != 'salinity' else 3
    ks = list(range(8))
    nos = [3, 5, 9][:n]
    prof = [float_profile(i, nos[i], levels, shift) for i in range(n)]
    for i in range(n):
        lv = [1, 0, 1][i]
        if case.get('at') != 'date line' and T.split(T.bool(f'missing {i}')):
            prof[i]['sal'][lv] = NAN
    box = int((10.1 + shift) % 360 // 10) * 18 + 13
    boxes = [box, box - 1]
    world.setup(T, ks, shift, boxes)

    def go(profiles, rows=None):
        """rows: the level of each row of the file, or -1"""
        rows = list(range(levels)) if rows is None else rows
        filled = [dict(p, **{k: [p[k][r] if r >= 0 else NAN for r in rows] for k in ('pres', 'ptmp', 'sal')}) for p in profiles]
        world.source(T, filled, len(rows))
        if step == 'fit':
            A = lambda x: T.arr(x, 'f')                            # noqa: E731
            val = lambda f: A([[f(i, r) if r >= 0 else NAN for i in range(n)] for r in rows])    # noqa: E731
            T.save(world.mapped_path(T), {'la_mapped_sal': val(lambda i, r: prof[i]['sal'][r] + 0.01 + 0.004 * i), 'la_mapsalerrors': val(lambda i, r: 0.02 + 0.01 * r),
                                          'la_ptmp': val(lambda i, r: prof[i]['ptmp'][r]), 'selected_hist': A([[10.0, -44.0, 3.0]])})
            T.save(f'{T.root}/calib/set/calseries_{world.FLOAT}_c.mat',
                   dict(breaks=A([]), max_breaks=T.arr([[-1]], 'i'), calseries=T.arr([[1] * n], 'i'), calib_profile_no=T.arr([nos], 'i'),
                        use_percent_gt=A([[0.5]]), use_theta_lt=A([]), use_theta_gt=A([]), use_pres_lt=A([]), use_pres_gt=A([])))
            T.call(T.mod('calibration').calc_piecewisefit, 'set', world.FLOAT, cfg)
            path = f'{T.root}/calib/set/cal_{world.FLOAT}_c.mat'
        else:
            T.call(T.mod('calibration').update_salinity_mapping, 'set', cfg, world.FLOAT)
            path = world.mapped_path(T)
        out = T.load(path)
        T.remove(path)
        T.new_session()
        return out

    def rewrite(change):
        """the historical files again, their casts changed"""
        for typ, box, lo, hi in ((1, 7301, -90, -44.95), (3, 7303, -44.95, 90)):
            sel = [world.cast(k, shift) for k in ks if lo < world.CASTS[k][1] <= hi]
            sel = change(typ, sel)
            hist.write(T, typ, box, sel, ['1900001_1'] * len(sel) if typ == 3 else None)

    base = go(prof)
    if what != 'salinity' and step == 'map' and prof[0]['sal'][0] == prof[0]['sal'][0]:
        T.check(T.Not(T.isnan(base['la_mapped_sal'][0, 0])), 'something is mapped')
    cols, rows = list(range(n)), None
    if what == 'salinity':
        other = [dict(p, sal=[T.real(f'salinity {p["no"]},{i}', 2, 42) if v == v else NAN for i, v in enumerate(p['sal'])]) for p in prof]
        got = go(other)
    elif what == 'turn':
        other = []
        for i, p in enumerate(prof):
            lon = p['long']
            forms = [v for v in (lon - 360, lon, lon + 360) if -180 <= v <= 360]
            other.append(dict(p, long=T.choice(f'turn {i}', forms) if len(forms) > 1 else lon))
        got = go(other)
    elif what == 'cast turn':
        west = [T.split(T.bool(f'file {t} is -180..180')) for t in (1, 3)]
        one = T.int('cast with a turn of its own', 0, 4) if case['at'] != 'date line' else 0
        def turn(typ, sel):
            for j, c in enumerate(sel):
                if west[typ // 2] != (j == one) and c['long'] > 180:
                    c['long'] -= 360
            return sel
        rewrite(turn)
        got = go(prof)
    elif what == 'padding':
        at = T.choice('row', [0, levels]) if step == 'fit' else T.int('row', 0, levels)
        rows = list(range(levels))
        rows[at:at] = T.choice('rows', [[-1], [-1, -1]])
        got = go(prof, rows)
    elif what == 'order':
        left, cols = list(range(n)), []
        while left:
            cols.append(left.pop(T.int(f'place {len(left)}', 0, len(left) - 1)) if len(left) > 1 else left.pop())
        got = go([prof[i] for i in cols])
        cols = list(range(n))                                     # results are sorted by profile number
    elif what == 'cast order':
        a, b = T.int('first', 0, 2), T.int('second', 0, 2)
        def swap(typ, sel):
            sel = list(sel)
            sel[a], sel[b] = sel[b], sel[a]
            return sel if typ == 1 else sel[::-1]
        rewrite(swap)
        got = go(prof)
    elif what == 'cast padding':
        at = T.int('depth', 1, 6)
        typ1 = T.choice('type', [1, 3])
        def pad(typ, sel):
            if typ == typ1:
                for c in sel:
                    for k in ('pres', 'ptmp', 'sal'):
                        c[k] = c[k][:at] + [NAN] + c[k][at:]
            return sel
        rewrite(pad)
        got = go(prof)
    else:
        i = T.int('profile', 0, n - 1)
        got, cols = go([prof[i]]), [i]
    compare(T, base, got, step, levels, cols, rows)


def compare(T, base, got, step, levels, cols, rows):
    rows = list(range(levels)) if rows is None else rows
    keep = [rows.index(r) for r in range(levels)]
    many = (('la_mapped_sal', 'la_mapsalerrors', 'la_noise_sal', 'la_signal_sal', 'la_ptmp') if step == 'map' else
            ('cal_SAL', 'cal_SAL_err', 'cal_COND', 'sta_SAL', 'sta_SAL_err'))
    one = (('la_profile_no', 'scale_long_large', 'use_pv', 'p_delta') if step == 'map' else ('pcond_factor', 'pcond_factor_err', 'sta_mean', 'sta_rms'))
    for k in many:
        T.check(T.shape_is(got[k], (len(rows), len(cols))), f'{k}: one row per level, one column per profile')
        for j, c in enumerate(cols):
            for lv in range(levels):
                T.check(T.near1(got[k][keep[lv], j], base[k][lv, c], 1e-6), f'{k} is the same')
                T.observe(k, got[k][keep[lv], j])
            for r, lv in enumerate(rows):
                if lv < 0:
                    T.check(T.isnan(got[k][r, j]), f'{k}: nothing at empty levels')
    for k in one:
        a, b = T.elems(base[k]), T.elems(got[k])
        T.check(len(b) == len(cols) and T.And(*[T.near1(b[j], a[c], 1e-6) for j, c in enumerate(cols)]), f'{k} is the same')
    if step == 'map':
        pts = lambda d: sorted([round(float(v), 6) for v in T.elems(d['selected_hist'][i])] for i in range(len(d['selected_hist']))) if T.np.size(d['selected_hist']) else []    # noqa: E731
        if len(cols) == len(T.elems(base['la_profile_no'])):
            a, b = pts(base), pts(got)
            T.check({(round(x[0] % 360, 5), x[1]) for x in a} == {(round(x[0] % 360, 5), x[1]) for x in b}, 'the recorded historical points are the same')
