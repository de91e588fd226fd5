"""shared by C07-C09: historical files on the (virtual) disk"""
import numpy as np

PREFIX = {1: 'hist_ctd/ctd_', 2: 'hist_bot/bot_', 3: 'hist_argo/argo_'}


def config(T, delta=200):
    return {'HISTORICAL_DIRECTORY': T.root + '/hist', 'HISTORICAL_CTD_PREFIX': '/' + PREFIX[1],
            'HISTORICAL_BOTTLE_PREFIX': '/' + PREFIX[2], 'HISTORICAL_ARGO_PREFIX': '/' + PREFIX[3],
            'MAP_P_DELTA': delta}


def path(T, typ, box):
    return f'{T.root}/hist//{PREFIX[typ]}{box}.mat'


def labels(names):
    o = np.empty((1, len(names)), dtype=object)
    for i, n in enumerate(names):
        o[0, i] = n
    return o


def write(T, typ, box, casts, sources=None):
    """casts: list of dict(lat, long, date, sal, ptmp, pres) with equally long level lists"""
    A = lambda x: T.arr(x, 'f')                                    # noqa: E731
    levels = len(casts[0]['pres'])
    d = dict(lat=A([[c['lat'] for c in casts]]), long=A([[c['long'] for c in casts]]),
             dates=A([[c['date'] for c in casts]]))
    for k in ('sal', 'ptmp', 'pres'):
        d[k] = A([[c[k][i] for c in casts] for i in range(levels)])
    d['temp'] = d['ptmp'] + 0.25
    if sources:
        d['source'] = labels(sources)
    T.save(path(T, typ, box), d)


def decimal(date):
    """decimal year of a concrete YYYYMMDD date"""
    cum = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
    y, m, d = date // 10000, date // 100 % 100, date % 100
    return y + (cum[m - 1] + d - 1) / 365
