"""C31: what ran before in a session does not matter (update_salinity_mapping, set_calseries, calc_piecewisefit)"""
from . import hist, world
from .c17 import float_profile
from .c30 import same

NAN = float('nan')
BOUNDS = ('one step (mapping, series, fit, or all three) for a float of 2 profiles with 2..3 levels after any one or two others in the same session: for another '
          'float, for the float of the same name in another directory, with other parameters, other historical files or other constants, or for an earlier '
          'state of its source; each level missing or not, the first profile with or without position, any state of the random generator; positions, dates and values are concrete')
ASSUMES = ['offset-only fits (Monte Carlo errors of lines and breaks vary with the random numbers drawn)',
           'reference data, relief and tables are not replaced under the same path within a session']
QUICK_S = 150

OTHER = '5900123'


def cases(tier):
    out = [dict(step=s, before=b) for s in ('map', 'series', 'fit') for b in (('float',), ('directory',), ('config',), ('changed',))]
    out += [dict(step='map', before=('history',)), dict(step='map', before=('tables',)), dict(step='fit', before=('tables',)), dict(step='map', before=('failed',)), dict(step='map', before=('float', 'directory')),
            dict(step='all', before=('float',)), dict(step='all', before=('directory',)), dict(step='fit', before=('failed',)),
            dict(step='map', before=('tables',), extra=dict(MAP_USE_PV=1, CONFIG_MAX_CASTS=60)), dict(step='fit', before=('tables',), extra=dict(MAP_USE_PV=1)),
            dict(step='map', before=('front',), extra=dict(MAP_USE_SAF=1, CONFIG_MAX_CASTS=60))]
    if tier == 'thorough':
        out += [dict(step='all', before=('config', 'float')), dict(step='map', before=('history', 'changed')), dict(step='fit', before=('directory', 'config')),
                dict(step='all', before=('failed', 'changed'))]
    return out


def profiles(T, tag, k, symbolic, levels=2):
    """two profiles, different for each k"""
    out = []
    for i in range(2):
        p = float_profile((i + k) % 3, [4, 2][i] + 10 * k, levels)
        p['sal'] = [s + 0.02 * k for s in p['sal']]
        p['lat'] -= 0.15 * k
        out.append(p)
    for i in range(2):
        if symbolic and T.split(T.bool(f'missing {tag}{i}')):
            out[i]['sal'][i] = NAN
    return sorted(out, key=lambda p: p['no'])


def source(T, where, name, prof):
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    d = {'PROFILE_NO': T.arr([[p['no'] for p in prof]], 'i'), 'LAT': A([[p['lat'] for p in prof]]), 'LONG': A([[p['long'] for p in prof]]),
         'DATES': A([[p['date'] for p in prof]])}
    for key, k in (('PRES', 'pres'), ('PTMP', 'ptmp'), ('TEMP', 'temp'), ('SAL', 'sal')):
        d[key] = A([[p[k][i] if k != 'temp' else world.in_situ(p)[i] for p in prof] for i in range(len(prof[0]['sal']))])
    T.save(f'{T.root}/source/{where}/{name}.mat', d)


def results(T, cfg, where, name):
    m, c = cfg['FLOAT_MAPPED_DIRECTORY'], cfg['FLOAT_CALIB_DIRECTORY']
    return [f'{m}/{where}/map_{name}_m.mat', f'{c}/{where}/calseries_{name}_c.mat', f'{c}/{where}/cal_{name}_c.mat']


def prepare(T, cfg, step, where, name, prof, k):
    """the files a step reads besides the source"""
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    T.save(f"{cfg['FLOAT_CALIB_DIRECTORY']}/{where}/other.mat", {'x': A([[1.0]])})
    r = results(T, cfg, where, name)
    if step == 'fit':
        T.save(r[0], {'la_mapped_sal': A([[p['sal'][i] + 0.01 + 0.01 * k for p in prof] for i in range(2)]), 'la_mapsalerrors': A([[0.02 + 0.01 * k] * 2] * 2),
                      'la_ptmp': A([[p['ptmp'][i] for p in prof] for i in range(2)]), 'selected_hist': A([[10.0 + k, -44.0, 3.0]])})
    if step in ('fit', 'all'):
        T.save(r[1], dict(breaks=A([]), max_breaks=T.arr([[-1]], 'i'), calseries=T.arr([[1, 1]], 'i'), calib_profile_no=T.arr([[p['no'] for p in prof]], 'i'),
                          use_percent_gt=A([[0.5]]), use_theta_lt=A([]), use_theta_gt=A([]), use_pres_lt=A([]), use_pres_gt=A([])))


def go(T, cfg, step, where, name):
    if step in ('map', 'all'):
        T.mod('calibration').update_salinity_mapping(where, cfg, name)
    if step in ('series', 'all'):
        T.mod('configuration').set_calseries(where, name, cfg)
    if step in ('fit', 'all'):
        T.mod('calibration').calc_piecewisefit(where, name, cfg)


def run(T, case):
    step = case['step']
    extra = dict(dict(CONFIG_MAX_CASTS=7), **case.get('extra', {}))
    cfg = world.config(T, **extra)
    conf = {k: str(v) for k, v in cfg.items()}
    if cfg['MAP_USE_SAF']:
        world.saf_table(T)
    world.setup(T, list(range(8)), 0.0, [31, 30])
    own = profiles(T, 'own', 0, True, 3 if cfg['MAP_USE_SAF'] else 2)
    if step == 'map' and T.split(T.bool('no position')):
        own[0]['lat'] = NAN
    mappable = own[0]['lat'] == own[0]['lat']
    source(T, 'set', world.FLOAT, own)
    prepare(T, cfg, step, 'set', world.FLOAT, own, 0)
    fresh = T.snapshot()
    kept = {k: v for k, v in fresh.items()}

    def fetch():
        got = T.snapshot()
        return {p: got[p] for p in results(T, cfg, 'set', world.FLOAT) if p in got}

    T.perturb_rng(1)
    given = dict(cfg)
    T.call(go, T, given, step, 'set', world.FLOAT)
    T.check({k: str(v) for k, v in given.items()} == conf, 'the parameters are left as given')
    good = fetch()
    T.check(len(good) >= {'map': 1, 'series': 1, 'fit': 3, 'all': 3}[step], 'results are saved')
    if step == 'map' and mappable:
        v = good[results(T, cfg, 'set', world.FLOAT)[0]]['la_mapped_sal']
        T.check(T.Or(*[T.Not(T.isnan(x)) for x in T.elems(v)]), 'something is mapped')
    for p in good:
        if p in kept:
            T.save(p, kept[p])
        else:
            T.remove(p)
    T.new_session()
    state = T.choice('random state', [0, 1])
    T.perturb_rng([2, 7][state], drawn=[0, 3][state])
    for j, what in enumerate(case['before']):
        before(T, cfg, step, what, j + 1, own)
    # the files of the float as they were
    for p in results(T, cfg, 'set', world.FLOAT):
        if T.exists(p):
            T.remove(p)
    for p in [f'{T.root}/source/set/{world.FLOAT}.mat'] + results(T, cfg, 'set', world.FLOAT):
        if p in kept:
            T.save(p, kept[p])
    T.call(go, T, cfg, step, 'set', world.FLOAT)
    now = fetch()
    same(T, good, now, list(good), 'as in a session of its own')
    T.check({k: str(v) for k, v in cfg.items()} == conf, 'the parameters are left as given by each run')
    for p in good:
        for k in sorted(good[p]):
            if k in ('la_mapped_sal', 'calseries', 'cal_SAL') and p in now:
                T.observe(k, now[p][k])


def before(T, cfg, step, what, k, own):
    where, name, c, prof = 'set', world.FLOAT, cfg, own
    if what == 'float':
        name, prof = OTHER, profiles(T, 'other', k, k == 1, len(own[0]['sal']))
    elif what == 'front':
        name, prof = OTHER, profiles(T, 'other', k, False, 3)
        prof[0]['ptmp'], prof[1]['ptmp'] = [5.5, 5.3, 5.1], [2.9, 2.5, 2.2]
    elif what == 'directory':
        where, prof = 'set2', profiles(T, 'other', k, k == 1)
    elif what == 'config':
        c = dict(cfg, MAPSCALE_LONGITUDE_LARGE=6, MAPSCALE_LATITUDE_SMALL=2.5, MAP_P_DELTA=150, CONFIG_MAX_CASTS=6, FLOAT_MAPPED_DIRECTORY=T.root + '/mapped2',
                 FLOAT_CALIB_DIRECTORY=T.root + '/calib2')
    elif what == 'history':
        c = dict(cfg, HISTORICAL_DIRECTORY=T.root + '/elsewhere', FLOAT_MAPPED_DIRECTORY=T.root + '/mapped2')
        for typ, box, lo, hi in ((1, 7301, -90, -44.95), (3, 7303, -44.95, 90)):
            sel = [world.cast(i, 0.0, 0.15) for i in range(8) if lo < world.CASTS[i][1] <= hi][1:]
            real = T.root
            tmp = hist.path(T, typ, box)
            keep = T.load(tmp)
            hist.write(T, typ, box, sel, ['1900001_1'] * len(sel) if typ == 3 else None)
            T.save(tmp.replace(real + '/hist/', real + '/elsewhere/'), {a: b for a, b in T.load(tmp).items() if a[:2] != '__'})
            T.save(tmp, {a: b for a, b in keep.items() if a[:2] != '__'})
    elif what == 'tables':
        c = dict(cfg, CONFIG_DIRECTORY=T.root + '/const2', FLOAT_MAPPED_DIRECTORY=T.root + '/mapped2', FLOAT_CALIB_DIRECTORY=T.root + '/calib2')
        T.binfile(T.root + '/const2/tbase.int', lambda q: world.elevation(q + 11) // 2 - 400, world.COLS * world.ROWS)
        t = T.load(T.root + '/const/wmo_boxes.mat')['la_wmo_boxes'].copy()
        t[30, 1:] = 0
        T.save(T.root + '/const2/wmo_boxes.mat', {'la_wmo_boxes': t})
    elif what == 'changed':
        prof = profiles(T, 'other', k, k == 1)
    source(T, where, name, prof)
    prepare(T, c, step, where, name, prof, k)
    if what == 'failed':
        def guard(mode, p):
            if mode == 'w':
                raise OSError('fault')
        with T.faults(guard):
            T.attempt(go, T, c, step, where, name)
    else:
        T.call(go, T, c, step, where, name)
