"""C30: failing steps leave the stored results as they were (update_salinity_mapping, set_calseries, calc_piecewisefit)"""
import os

from . import world
from .c17 import float_profile

NAN = float('nan')
BOUNDS = ('one float of 2..3 profiles with 2 levels, 8 casts, with or without results of an earlier run (some of their values symbolic), then one step '
          'during which one thing fails: any one input file cannot be read, one variable is missing in the source, the result cannot be written, or the run is interrupted at any '
          'line it prints; then the same step again without failure, in the same session or a new one. Positions, dates and profile data are concrete')
ASSUMES = ['a write that fails, fails before the file is changed (a file cut off by a crash in the middle of writing it is outside the claim)',
           'historical files are readable (the library skips those it cannot read)']
QUICK_S = 120

RESULT = {'map': ('mapped', 'map_%s_m.mat'), 'series': ('calib', 'calseries_%s_c.mat'), 'fit': ('calib', 'cal_%s_c.mat')}


def cases(tier):
    out = [dict(step=s, earlier=e, n=2, what=w) for s in ('map', 'series', 'fit') for e in (True, False) for w in ('read', 'write', 'print', 'incomplete')]
    if tier == 'thorough':
        out += [dict(step=s, earlier=True, n=3, what=w) for s in ('map', 'fit') for w in ('read', 'write', 'print')]
    return out


class Broken(Exception):
    """an interrupt from the keyboard, as an ordinary exception"""


def run(T, case):
    step, n = case['step'], case['n']
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    cfg = world.config(T)
    nos = [3, 5, 9][:n]
    prof = [float_profile(i, nos[i], 2) for i in range(n)]
    prof[-1]['sal'][0] = NAN
    world.setup(T, list(range(8)), 0.0, [31, 30])
    world.source(T, prof, 2)
    where, name = RESULT[step]
    path = f'{T.root}/{where}/set/{name % world.FLOAT}'
    v = lambda k, lo=33, hi=36: T.real(k, lo, hi)                  # noqa: E731
    if step == 'map' and case['earlier']:
        early = {k: A([[v(f'{k}[{i}]')] for i in range(2)]) for k in ('la_mapped_sal', 'la_mapsalerrors', 'la_noise_sal', 'la_signal_sal', 'la_ptmp')}
        early.update({k: A([[v(k)]]) for k in ('scale_long_large', 'scale_lat_large', 'scale_long_small', 'scale_lat_small', 'scale_phi_large',
                                               'scale_phi_small', 'scale_age_large', 'scale_age_small', 'use_pv', 'use_saf', 'p_delta', 'p_exclude')})
        early.update(la_profile_no=T.arr([nos[:1]], 'i'), selected_hist=A([[11.0, -44.0, float(nos[0])]]))
        T.save(path, early)
    series = dict(breaks=A([]), max_breaks=T.arr([[-1]], 'i'), calseries=T.arr([[1] * n], 'i'), calib_profile_no=T.arr([nos], 'i'),
                  use_percent_gt=A([[0.5]]), use_theta_lt=A([]), use_theta_gt=A([]), use_pres_lt=A([]), use_pres_gt=A([]))
    if step == 'series' and case['earlier']:
        T.save(path, dict(series, calseries=T.arr([[2]], 'i'), calib_profile_no=T.arr([nos[:1]], 'i'), use_percent_gt=A([[v('percent', 0, 1)]]),
                          use_pres_gt=A([[v('pressure', 100, 900)]])))
    if step == 'fit':
        T.save(f'{T.root}/calib/set/calseries_{world.FLOAT}_c.mat', series)
        T.save(world.mapped_path(T), {'la_mapped_sal': A([[p['sal'][i] + 0.01 for p in prof] for i in range(2)]), 'la_mapsalerrors': A([[0.02] * n] * 2),
                                      'la_ptmp': A([[p['ptmp'][i] for p in prof] for i in range(2)]), 'selected_hist': A([[10.0, -44.0, 3.0]])})
        if case['earlier']:
            T.save(path, {k: A([[v(f'{k}[{i},{j}]') for j in range(n)] for i in range(2)]) for k in ('cal_SAL', 'cal_SAL_err', 'sta_SAL')})
    T.save(f'{T.root}/calib/set/other.mat', {'x': A([[1.0]])})
    before = T.snapshot()
    conf = {k: str(x) for k, x in cfg.items()}

    def go(c):
        try:
            if step == 'map':
                T.mod('calibration').update_salinity_mapping('set', c, world.FLOAT)
            elif step == 'series':
                T.mod('configuration').set_calseries('set', world.FLOAT, c)
            else:
                T.mod('calibration').calc_piecewisefit('set', world.FLOAT, c)
        except KeyboardInterrupt as ex:
            raise Broken() from ex
    # the undisturbed run, then the files as they were
    T.call(go, cfg)
    good = T.snapshot()
    T.check(path in good, 'the result is saved')
    inputs = [p for p in good if p != path]
    same(T, before, good, inputs, 'nothing but the result is written')
    for k in good:
        if k not in before:
            T.remove(k)
    for k, d in before.items():
        T.save(k, d)
    T.new_session()

    what, k = case['what'], None
    if what == 'read':
        files = {'map': ['source', 'boxes', 'relief', 'earlier'], 'series': ['source', 'earlier'], 'fit': ['source', 'mapped', 'series', 'relief']}[step]
        target = T.choice('file', [f for f in files if f != 'earlier' or case['earlier']])
        target = {'source': f'{T.root}/source/set/{world.FLOAT}.mat', 'boxes': T.root + '/const/wmo_boxes.mat', 'relief': T.root + '/const/tbase.int',
                  'mapped': world.mapped_path(T), 'series': f'{T.root}/calib/set/calseries_{world.FLOAT}_c.mat', 'earlier': path}[target]
    if what == 'incomplete':
        src = f'{T.root}/source/set/{world.FLOAT}.mat'
        part = T.choice('field', ['PRES', 'PTMP', 'SAL', 'PROFILE_NO'] + {'map': ['LAT', 'LONG', 'DATES', 'TEMP'], 'series': ['TEMP'], 'fit': ['LAT', 'LONG']}[step])
        whole = before[src]
        T.save(src, {a: b for a, b in whole.items() if a != part})
        before = T.snapshot()
    error = T.choice('error', [OSError] if what == 'incomplete' else [OSError, PermissionError, ValueError, MemoryError] if what == 'read' else [OSError, PermissionError] if what == 'write' else
                     [BrokenPipeError, KeyboardInterrupt])
    if what == 'print':
        k = T.int('line', 0, {'map': 22, 'series': 3, 'fit': 3}[step])

    def guard(mode, p):
        if what == 'read' and mode == 'r' and p == os.path.normpath(target) or what == 'write' and mode == 'w':
            raise error('fault')

    def printed(n):
        if what == 'print' and n == k:
            raise error('fault')
    with T.faults(guard, printed):
        ok, res = T.attempt(go, cfg)
    after = T.snapshot()
    if ok:
        T.check(what != 'write', 'a result that cannot be saved is reported')
        same(T, good, after, [p for p in good if what != 'incomplete' or p != src], 'a run that reports no error gives the same result')
    else:
        T.check(sorted(after) == sorted(before), 'a failing run leaves the stored files')
        same(T, before, after, list(before), 'a failing run leaves the stored results')
    if what == 'incomplete':
        T.save(src, whole)
    T.check({a: str(b) for a, b in cfg.items()} == conf, 'the configuration is left as given')
    if T.split(T.bool('new session')):
        T.new_session()
    T.call(go, cfg)
    same(T, good, T.snapshot(), list(good), 'repeating the step completes it')


def same(T, a, b, paths, what):
    T.check(all(p in b and p in a for p in paths), what)
    for p in paths:
        if p not in a or p not in b:
            continue
        keys = sorted(k for k in a[p] if k[:2] != '__' and k != 'profile_index')
        T.check(keys == sorted(k for k in b[p] if k[:2] != '__' and k != 'profile_index'), what)
        for k in keys:
            if k not in b[p]:
                continue
            x, y = a[p][k], b[p][k]
            if x is y:
                continue
            T.check(T.np.shape(x) == T.np.shape(y), what)
            xs, ys = T.elems(x), T.elems(y)
            if len(xs) == len(ys):
                T.check(T.And(*[equal(T, v, w) for v, w in zip(xs, ys)]), f'{os.path.basename(p)}: {k}: {what}')


def equal(T, v, w):
    if isinstance(v, str) or isinstance(w, str):
        return str(v) == str(w)
    if T.np.ndim(v) or T.np.ndim(w):
        vs, ws = T.elems(v), T.elems(w)
        return len(vs) == len(ws) and T.And(*[equal(T, p, q) for p, q in zip(vs, ws)])
    return T.near1(v, w, 1e-9)
