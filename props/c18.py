"""C18: mapping a float again after earlier profiles were mapped (update_salinity_mapping, load_varibales_from_file)"""
from . import world
from .c17 import float_profile

NAN = float('nan')
BOUNDS = ('2..4 profiles of 2..4 levels; every subset mapped first (with fewer levels or the same), every order of profile numbers, missing '
          'levels; earlier files with arbitrary stored values (symbolic, within 30 to 40 for the mapped salinity), with or without '
          'the use_saf entry; the casts and positions are concrete')
ASSUMES = ['the configuration and the historical data are the same in both runs; the earlier run held profiles of the same float']
QUICK_S = 120

LA = ('la_mapped_sal', 'la_mapsalerrors', 'la_noise_sal', 'la_signal_sal', 'la_ptmp')
SET = ('scale_long_large', 'scale_lat_large', 'scale_long_small', 'scale_lat_small', 'scale_phi_large', 'scale_phi_small',
       'scale_age_large', 'scale_age_small', 'use_pv', 'use_saf', 'p_delta', 'p_exclude')


def cases(tier):
    out = [dict(kind='split', n=3, first=2, then=3, order=o) for o in ((1, 2, 3), (3, 1, 2), (2, 3, 1), (3, 2, 1))]
    out += [dict(kind='split', n=2, first=3, then=3, order=(2, 1)), dict(kind='split', n=2, first=1, then=3, order=(1, 2))]
    out += [dict(kind='three', n=3, first=2, then=3, order=(2, 3, 1))]
    out += [dict(kind='stored', n=3, keep=k, first=a, then=b, saf=s, order=o) for k, a, b, s, o in
            (((0,), 2, 2, True, (1, 2, 3)), ((1,), 1, 3, True, (3, 2, 1)), ((0, 2), 2, 3, False, (3, 1, 2)), ((1, 2), 3, 3, True, (2, 3, 1)),
             ((0, 1, 2), 2, 2, True, (2, 1, 3)), ((0, 1, 2), 2, 3, False, (1, 2, 3)))]
    if tier == 'thorough':
        out += [dict(kind='split', n=4, first=2, then=4, order=o) for o in ((1, 2, 3, 4), (4, 2, 3, 1), (3, 1, 4, 2))]
        out += [dict(kind='stored', n=4, keep=k, first=2, then=3, saf=True, order=o) for k in ((0, 3), (1, 2, 3), (2,)) for o in
                ((1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3))]
    return out


def snapshot(out):
    return {k: out[k] for k in LA + SET + ('la_profile_no', 'selected_hist')}


def same(T, a, b, keys, what):
    for k in keys:
        x, y = T.elems(a[k]), T.elems(b[k])
        T.check(len(x) == len(y) and T.np.shape(a[k]) == T.np.shape(b[k]), f'{k}: same size {what}')
        if len(x) == len(y):
            T.check(T.And(*[T.near1(v, w, 1e-9) for v, w in zip(x, y)]), f'{k}: {what}')


def run(T, case):
    n, nos = case['n'], case['order']
    first, then = case['first'], case['then']
    world.setup(T, list(range(8)), 0.0, [31, 30])
    prof = [float_profile(i, nos[i], then) for i in range(n)]
    if case['kind'] != 'stored':
        for i in range(n):
            if T.split(T.bool(f'missing {i}')):
                prof[i]['sal'][0] = NAN
    cut = lambda p, m: dict(p, **{k: p[k][:m] for k in ('pres', 'ptmp', 'sal')})                     # noqa: E731
    cfg = world.config(T)
    if case['kind'] == 'stored':
        return stored(T, case, cfg, prof)

    def go(cfg, ps, m):
        T.new_session()
        world.source(T, [cut(p, m) for p in ps], m)
        T.call(T.mod('calibration').update_salinity_mapping, 'set', cfg, world.FLOAT)
        return snapshot(T.load(world.mapped_path(T) if cfg['FLOAT_MAPPED_DIRECTORY'].endswith('/mapped') else
                               f'{T.root}/once/set/map_{world.FLOAT}_m.mat'))
    chosen = [T.split(T.bool(f'early {i}')) for i in range(n)]
    early = [p for p, c in zip(prof, chosen) if c]
    T.assume(bool(early))
    # levels the early run did not have are missing in the profiles it held, in the single run as well
    for p in early:
        for k in ('pres', 'ptmp', 'sal'):
            p[k] = p[k][:first] + [NAN] * (then - first)
    once = go(dict(cfg, FLOAT_MAPPED_DIRECTORY=T.root + '/once'), prof, then)
    go(cfg, early, first)
    if case['kind'] == 'three':
        more = [p for p, c in zip(prof, chosen) if not c][:1]
        go(cfg, early + more, then)
    two = go(cfg, prof, then)
    T.observe('mapped', two['la_mapped_sal'])
    same(T, two, once, LA + SET + ('la_profile_no',), 'as mapped at once')
    if sorted(chosen, reverse=True) == chosen and case['kind'] == 'split':
        same(T, two, once, ('selected_hist',), 'as mapped at once')
    same(T, go(cfg, prof, then), two, LA + SET + ('la_profile_no', 'selected_hist'), 'unchanged by another run')


def stored(T, case, cfg, prof):
    n, nos, first, then = case['n'], case['order'], case['first'], case['then']
    kept = sorted((nos[i] for i in case['keep']))
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    m = len(kept)
    old = {k: [[T.real(f'{k}[{lv},{j}]', 30, 40, nan=lv == 0 and j == 0) for j in range(m)] for lv in range(first)] for k in LA}
    sets = {k: [T.real(f'{k}[{j}]', 0, 20, nan=j == 0 and k == 'use_pv') for j in range(m)] for k in SET}
    d = {k: A(v) for k, v in old.items()}
    d.update({k: A([v]) for k, v in sets.items()})
    d['la_profile_no'] = T.arr([kept], 'i')
    d['selected_hist'] = A([[11.0, -44.0, float(kept[0])], [50.0, 3.0, float(kept[-1])]])
    if not case['saf']:
        d.pop('use_saf')
        sets['use_saf'] = [0.0] * m
    T.save(world.mapped_path(T), d)
    world.source(T, prof, then)
    T.call(T.mod('calibration').update_salinity_mapping, 'set', cfg, world.FLOAT)
    out = T.load(world.mapped_path(T))
    T.check([float(v) for v in T.elems(out['la_profile_no'])] == [float(v) for v in sorted(nos)], 'sorted by profile number')
    for k in LA:
        T.check(T.shape_is(out[k], (max(first, then), n)), 'extended to the new profiles and levels')
        for j, no in enumerate(kept):
            c = sorted(nos).index(no)
            for lv in range(max(first, then)):
                T.check(T.near1(out[k][lv, c], old[k][lv][j] if lv < first else NAN, 1e-9), f'{k}: stored values unchanged')
        T.observe(k, out[k])
    for k in SET:
        v = T.elems(out[k])
        T.check(len(v) == n, 'one setting per profile')
        if len(v) == n:
            T.check(T.And(*[T.near1(v[sorted(nos).index(no)], sets[k][j], 1e-9) for j, no in enumerate(kept)]), f'{k}: stored settings unchanged')
    new = [sorted(nos).index(no) for no in nos if no not in kept]
    for c in new:
        T.check(T.Not(T.isnan(out['la_mapped_sal'][0, c])), 'the others are mapped')
    sel = [[float(v) for v in T.elems(r)] for r in out['selected_hist']]
    T.check(all(p in sel for p in ([11.0, -44.0, float(kept[0])], [50.0, 3.0, float(kept[-1])])), 'recorded points are kept')
    T.check([p[2] for p in sel] == sorted(p[2] for p in sel), 'sorted by profile')
