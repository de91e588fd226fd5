"""C02: calendar dates to decimal years (pyowc.utilities.change_dates, cal2dec)"""

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
GARBAGE = ['nan', 'empty', 'word', 'zero', 'short', 'negative', 'dashed', 'fraction']
BOUNDS = ('numbers of 1..14 digits with every digit symbolic (as integers and as the doubles the .mat files hold); '
          'lists of up to 3 entries mixing one or two symbolic dates (of different or of one kind) with malformed entries of 8 kinds')
ASSUMES = ['hours 0-23 and minutes 0-59 where a date carries them',
           'numbers whose digit count is none of 8, 10, 12, 14: only isolation (and 0 when there is no day) is claimed']


def cases(tier):
    out = []
    for form in ('int', 'float', 'array'):
        for n in (8, 10, 12, 14):
            out.append(dict(form=form, n=n, before=None, after=None))
        for n in (1, 4, 5, 6, 7, 9, 11, 13):
            if tier == 'thorough' or n in (4, 6, 7, 9, 13):
                out.append(dict(form=form, n=n, before=None, after=None))
    for i, g in enumerate(GARBAGE):
        for n in ((8, 10, 12, 14) if tier == 'thorough' else ((8, 14), (14, 12), (10, 8))[i % 3]):
            out.append(dict(form='int', n=n, before=g, after=GARBAGE[(i + 3) % 8]))
            out.append(dict(form='int', n=n, before=g, after='date'))
    for form, n in (('int', 12), ('int', 14), ('float', 10), ('array', 14)):
        out.append(dict(form=form, n=n, before=None, after='twin'))
    return out


def garbage(T, kind):
    return {'nan': float('nan'), 'empty': '', 'word': 'unknown', 'zero': 0, 'short': 1997, 'negative': -19970102,
            'dashed': '1997-01-02', 'fraction': 0.5}[kind]


def expected(T, ds):
    n = len(ds)
    num = lambda a, b: sum(d * 10 ** (b - 1 - i) for i, d in enumerate(ds[:b]) if i >= a)     # noqa: E731
    year, month, day = num(0, 4), num(4, 6), num(6, 8)
    hour = num(8, 10) if n >= 10 else 0
    minute = num(10, 12) if n >= 12 else 0
    T.assume(T.And(hour <= 23, minute <= 59))
    ok = T.And(month >= 1, month <= 12, day >= 1, day <= 31)
    if not T.split(ok):
        return 0.0
    cum = 0
    for k in range(12):
        cum = T.ite(month == k + 1, CUM[k], cum)
    return year + (cum + day - 1 + hour / 24 + minute / 1440) / 365


def run(T, case):
    f = T.mod('utilities').change_dates
    n = case['n']
    x, ds = T.digits('date', n)
    entries, exp = [], []
    for k in (case['before'], 'it', case['after']):
        if k is None:
            continue
        if k == 'it':
            entries.append(x)
            exp.append(('it', ds))
        elif k in ('date', 'twin'):
            y, ds2 = T.digits('other', 8 if k == 'date' else n)
            entries.append(y)
            exp.append(('it', ds2))
        else:
            entries.append(garbage(T, k))
            exp.append((k, None))
    if case['form'] == 'float':
        entries = [T.np.float64(v) for v in entries]
    elif case['form'] == 'array':
        entries = T.arr(entries, 'f')
    r = T.call(f, entries)
    T.observe('dates', r)
    T.check(T.shape_is(r, (len(exp),)), 'one result per entry')
    for i, (k, d) in enumerate(exp):
        if k == 'it':
            if len(d) in (8, 10, 12, 14):
                T.check(T.eq(r[i], expected(T, d), 1e-10, 1e-12), f'{len(d)}-digit date at position {i}')
            elif len(d) <= 6:
                T.check(T.eq(r[i], 0.0), f'{len(d)}-digit entry without a day gives 0')
            else:
                T.check(T.Not(T.isnan(r[i])), 'a value is returned')
        else:
            T.check(T.eq(r[i], 0.0), f'malformed entry ({k}) gives 0')
