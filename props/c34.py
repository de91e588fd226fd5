"""C34: historical data that must not be used have no influence on the mapping"""
from . import hist, world
from .c17 import float_profile
from .c32 import compare

NAN = float('nan')
BOUNDS = ('one mapping of 1..2 profiles with 3 levels and 8..9 casts compared with the same after one addition to the historical data: a cast outside '
          'the ellipse of every profile (six places, as first, middle or last cast of either file; two places at the date line), own profiles of the float next to it (any place in the Argo file), a file of a '
          'type that is switched off for its box or of a box elsewhere, or levels below the depth limit (any one cast, one or two levels); salinities, temperatures and pressures of what is added are '
          'any real or missing; at Greenwich, at the date line and elsewhere; with and without vorticity and with more casts in reach than the maximum')
ASSUMES = ['the frontal filter is off']
QUICK_S = 150

AT = {'east': 0.0, 'greenwich': -10.4, 'date line': 169.6}
FAR = [(32.5, -58.5), (-11.5, -58.0), (-10.5, -30.5), (29.5, -31.0), (34.0, -36.0), (10.0, -68.0)]


def cases(tier):
    out = [dict(what='far', at=a, n=1) for a in AT] + [dict(what='far', at='east', n=2, extra=dict(CONFIG_MAX_CASTS=6)), dict(what='far', at='greenwich', n=1, extra=dict(MAP_USE_PV=1, CONFIG_MAX_CASTS=6))]
    out += [dict(what='own', at='east', n=2), dict(what='own', at='greenwich', n=1, extra=dict(CONFIG_MAX_CASTS=6))]
    out += [dict(what='off', at='east', n=1), dict(what='off', at='greenwich', n=1, extra=dict(MAP_USE_PV=1))]
    out += [dict(what='deep', at='east', n=n) for n in (1, 2)]
    if tier == 'thorough':
        out += [dict(what=w, at=a, n=2, extra=dict(MAP_USE_PV=1, CONFIG_MAX_CASTS=7)) for w in ('far', 'own', 'off', 'deep') for a in AT]
    return out


def run(T, case):
    what, n = case['what'], case['n']
    shift = AT[case['at']]
    cfg = world.config(T, **case.get('extra', {}))
    levels = 3
    ks = list(range(8 if n == 1 else 9))
    prof = [float_profile(i, [3, 5][i], levels, shift) for i in range(n)]
    if what != 'far' and T.split(T.bool('missing')):
        prof[0]['sal'][1] = NAN
    box = int((10.1 + shift) % 360 // 10) * 18 + 13
    world.setup(T, ks, shift, [box, box - 1])
    world.source(T, prof, levels)

    def go():
        T.call(T.mod('calibration').update_salinity_mapping, 'set', cfg, world.FLOAT)
        out = T.load(world.mapped_path(T))
        T.remove(world.mapped_path(T))
        T.new_session()
        return out

    def files():
        return {typ: [world.cast(k, shift) for k in ks if lo < world.CASTS[k][1] <= hi] for typ, lo, hi in ((1, -90, -44.95), (3, -44.95, 90))}

    def anything(tag, lon, lat, date=20020815.0):
        return dict(lat=lat, long=lon, date=date, pres=[T.real(f'pressure {tag},{i}', 0, 3000, nan=i == 1) if i < 2 else 500.0 * i for i in range(6)],
                    ptmp=[T.real(f'temperature {tag},{i}', -2, 25, nan=i == 2) if 1 <= i < 3 else 9.0 - i for i in range(6)],
                    sal=[T.real(f'salinity {tag},{i}', 0, 45, nan=True) if i < 4 else 20.0 + i for i in range(6)])

    def put(f, typ, labels=None, box=None):
        hist.write(T, typ, box or 7300 + typ, f[typ], labels or (['1900001_1'] * len(f[typ]) if typ == 3 else None))
    f = files()
    if what == 'deep':
        typ = T.choice('type', [1, 3])
        at = T.int('cast', 0, len(f[typ]) - 1)
        if T.split(T.bool('a short cast')):                     # a cast that ends above the deepest level of the float
            for k in ('pres', 'ptmp', 'sal'):
                f[typ][at][k] = f[typ][at][k][:3] + [NAN] * 3
            put(f, typ)
    base = go()
    if prof[0]['sal'][0] == prof[0]['sal'][0]:
        T.check(T.Not(T.isnan(base['la_mapped_sal'][0, 0])), 'something is mapped')
    if what == 'far':
        few = case['at'] == 'date line' and 'extra' not in case         # reads relief around the globe
        lon, lat = FAR[T.choice('place', [0, 3] if few else list(range(len(FAR))))]
        typ = T.choice('type', [1, 3])
        at = T.choice('position', [len(f[typ]) // 2] if few else [0, len(f[typ]) // 2, len(f[typ])])
        f[typ].insert(at, anything('far', (lon + shift) % 360, lat, 20020815.0 if at else 0.0))
        put(f, typ)
    elif what == 'own':
        at = T.int('position', 0, len(f[3]))
        two = T.split(T.bool('two'))
        labels = ['1900001_1'] * len(f[3])
        for q in range(2 if two else 1):
            f[3].insert(at * (1 - q), anything(f'own{q}', prof[0]['long'] + 0.25 * q, prof[0]['lat'] + 0.1))
            labels.insert(at * (1 - q), [f'R{world.FLOAT}_007.nc', f'aoml/{world.FLOAT}'][q])
        put(f, 3, labels)
    elif what == 'off':
        typ = T.choice('type', [1, 2, 3])
        where = T.choice('box', [7301, 7303, 7399])
        if where - 7300 == typ:
            where = 7399
        f = {typ: [anything('off', prof[0]['long'] + 0.3, prof[0]['lat']), dict(world.cast(0, shift))]}
        put(f, typ, box=where)
    else:
        limit = max(p['pres'][-1] for p in prof) + cfg['MAP_P_DELTA']
        rows = T.choice('levels', [1, 2])
        for j, c in enumerate(f[typ]):
            for q in range(rows):
                c['pres'] = c['pres'] + [T.real(f'pressure {q}', limit + 1, limit + 5000) if j == at else NAN]
                c['ptmp'] = c['ptmp'] + [T.real(f'temperature {q}', -2, 25, nan=True) if j == at else NAN]
                c['sal'] = c['sal'] + [T.real(f'salinity {q}', 0, 45, nan=True) if j == at else NAN]
        put(f, typ)
    compare(T, base, go(), 'map', levels, list(range(n)), None)
