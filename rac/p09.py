import calendar
import datetime as dtm
import numpy as np
from common import oracle, close, arr, raises
from chaosmagpy import data_utils as du

EPOCH = dtm.datetime(2000, 1, 1).toordinal()


def mjd(y, m=1, d=1, h=0, mi=0, s=0, us=0, ns=0):
    return dtm.date(y, m, d).toordinal() - EPOCH + (
        h*3600 + mi*60 + s + us*1e-6 + ns*1e-9)/86400


EDGE = [1, 4, 5, 50, 99, 100, 400, 999, 1000, 1582, 1600, 1677, 1678, 1700,
        1899, 1900, 1901, 1969, 1970, 1999, 2000, 2001, 2004, 2015, 2020,
        2038, 2100, 2262, 2263, 2400, 4000, 9998, 9999]


def gen_dates(rng, k):
    shapes = [(), (3,), (2, 2), (1,), (1, 4)]
    n = int(rng.integers(1, 9)) if k > 8 else k
    n = max(n, 1)
    shp = shapes[k % 5] if k else ()
    cnt = int(np.prod(shp)) if shp else 1
    rows = []
    for _ in range(cnt):
        y = int(rng.choice(EDGE)) if rng.random() < .6 else int(
            rng.integers(1, 10000))
        m = int(rng.integers(1, 13))
        last = calendar.monthrange(y, m)[1]
        d = int(rng.choice([1, last, int(rng.integers(1, last + 1))]))
        rows.append([y, m, d, *[int(rng.choice([0, hi, int(rng.integers(
            0, hi + 1))])) for hi in (23, 59, 59, 999999, 999)]])
    return {'rows': rows, 'shape': list(shp), 'n': n,
            'dtype': ['int64', 'int32', 'uint16', 'list'][k % 4]}


@oracle('dates of integers', gen_dates, n=150)
def dates(case):
    n, shp = case['n'], tuple(case['shape'])
    cols = np.array(case['rows'], dtype=int).reshape(-1, 8)
    dt = case['dtype']

    def put(c, j):
        a = c.reshape(shp)
        if shp == ():
            return int(a[()])
        if dt == 'list':
            return a.tolist()
        return a.astype('int32' if j == 6 and dt == 'uint16' else dt)
    args = [put(cols[:, j], j) for j in range(n)]
    if n < 3:
        cols[:, 2] = 1
    if n < 2:
        cols[:, 1] = 1
    want = np.array([mjd(*[int(v) for v in r[:max(n, 3)]])
                     for r in cols]).reshape(shp)
    e = close(du.mjd2000(*args), want, 0, 2e-9, 'mjd2000')
    if e:
        return e
    names = ['year', 'month', 'day', 'hour', 'minute', 'second',
             'microsecond', 'nanosecond']
    return close(du.mjd2000(**dict(zip(names, args))), want, 0, 2e-9,
                 'mjd2000 with keywords')


@oracle('broadcast dates', lambda rng, k: {'k': k, 'y': sorted(int(x) for x in
        rng.integers(1, 10000, 3)), 'd': [int(x) for x in rng.integers(
            1, 29, 2)], 'h': int(rng.integers(0, 24))}, n=20)
def broad(case):
    y, d = np.array(case['y'])[:, None], np.array(case['d'])
    m = case['k'] % 12 + 1
    want = np.array([[mjd(int(a), m, int(b), case['h']) for b in d]
                     for a in y[:, 0]])
    return close(du.mjd2000(y, m, d, case['h']), want, 0, 1e-9, 'mjd2000') \
        or close(du.mjd2000(case['y'], m, 1, case['h']), np.array(
            [mjd(a, m, 1, case['h']) for a in case['y']]), 0, 1e-9, 'list') \
        or close(du.mjd2000(case['y'][0], m, 1, np.arange(24)), np.array(
            [mjd(case['y'][0], m, 1, h) for h in range(24)]), 0, 1e-9,
            'hours')


@oracle('datetime objects', gen_dates, n=60)
def objects(case):
    shp = tuple(case['shape'])
    obs = [dtm.datetime(*r[:7]) for r in case['rows']]
    want = np.array([mjd(*r[:7]) for r in case['rows']]).reshape(shp)
    if shp == ():
        forms = [obs[0]]
    else:
        a = np.empty(len(obs), dtype=object)
        a[:] = obs
        forms = [a.reshape(shp)] if len(obs) else []
        if len(shp) == 1 and obs:
            forms.append(obs)
    for f in forms:
        e = close(du.mjd2000(f), want, 0, 2e-9, 'datetime objects')
        if e:
            return e
    for u in ('us', 'ms', 's', 'm', 'h', 'D'):
        a = np.array(obs, dtype='datetime64[us]').astype(
            f'datetime64[{u}]').reshape(shp)
        w = np.array([_trunc(r, u) for r in case['rows']]).reshape(shp)
        e = close(du.mjd2000(a), w, 0, 2e-9, f'datetime64[{u}]')
        if e:
            return e
    return None


def _trunc(r, u):
    n = {'D': 3, 'h': 4, 'm': 5, 's': 6, 'ms': 7, 'us': 7}[u]
    r = list(r[:n])
    if u == 'ms':
        r[6] = r[6]//1000*1000
    return mjd(*r)


@oracle('timestamps', lambda rng, k: {'t': [0., .53245, -106000., 94000.,
        *[float(x) for x in rng.uniform(-106000, 94000, 4)],
        *[float(x) for x in rng.integers(-106000, 94000, 3)]],
    'k': k}, n=20)
def stamps(case):
    t = arr(case['t'])
    r = du.timestamp(t)
    if r.dtype != np.dtype('datetime64[ns]') or r.shape != t.shape:
        return f'type {r.dtype}'
    ref = np.datetime64('2000-01-01', 'ns').astype('int64')
    e = close(r.astype('int64') - ref, t*86400e9, 0, 2000., 'nanoseconds')
    if e:
        return e
    whole = t == np.floor(t)
    if ((r.astype('int64') - ref)[whole] != (t[whole]*86400).astype(
            'int64')*10**9).any():
        return 'whole days are not exact'
    e = close(du.mjd2000(r), t, 0, 3e-11, 'mjd2000 of timestamp')
    if e:
        return e
    for x in t[:5]:
        q = du.timestamp(x)
        if np.shape(q) != () or q != du.timestamp(np.array([x]))[0]:
            return 'scalar differs from array'
    return close(du.timestamp(t.reshape(1, -1)).astype('int64')[0],
                 r.astype('int64'), 0, 0, 'two axes')


@oracle('early-timestamps', lambda rng, k: {'t': -110000. - 100*k},
        n=3, weight=.1)
def early(case):
    if np.isnat(du.timestamp(case['t'])):
        return 'not a time for a date that nanosecond timestamps represent'
    return None


@oracle('leap years', lambda rng, k: {'t': ['int64', 'int32', 'int16',
        'uint16', 'uint32', 'uint64', 'list', 'int'][k % 8]}, n=8)
def leap(case):
    y = list(range(1, 10000)) if case['t'] != 'int' else [
        1896, 1900, 1904, 2000, 2001, 2100, 4, 400, 500]
    want = np.array([calendar.isleap(v) for v in y])
    if case['t'] == 'list':
        g = du.is_leap_year(y)
    elif case['t'] == 'int':
        g = np.array([du.is_leap_year(v) for v in y])
    else:
        g = du.is_leap_year(np.array(y, dtype=case['t']))
    if np.asarray(g).dtype != bool:
        return 'not a boolean'
    if not raises(lambda: du.is_leap_year(2000.), TypeError) or not raises(
            lambda: du.is_leap_year(np.array([2000.])), TypeError):
        return 'decimal year accepted'
    return close(g, want, 0, 0, 'leap')


def gen_dy(rng, k):
    f = [0., .25, .5, .999999, 1/366, 1/365, 59/365, 60/366]
    return {'y': [int(rng.choice(EDGE[:-1])) for _ in range(6)],
            'f': [float(rng.choice(f)) if rng.random() < .6 else
                  float(rng.random()) for _ in range(6)],
            'leap': [None, True, False][k % 3],
            'shape': [[6], [2, 3], [], [6, 1]][k % 4]}


@oracle('decimal years', gen_dy, n=80)
def dyears(case):
    y, f = np.array(case['y']), arr(case['f'])
    shp = tuple(case['shape'])
    if shp == ():
        y, f = y[:1], f[:1]
    x = y + f
    f = x - y
    kw = {} if case['leap'] is None else {'leap_year': case['leap']}
    if case['leap'] is False:
        want = (x - 2000)*365.25
    else:
        n = np.array([366 if calendar.isleap(int(v)) else 365 for v in y])
        want = np.array([mjd(int(v)) for v in y]) + f*n
    x, want, y = x.reshape(shp), want.reshape(shp), y.reshape(shp)
    if shp == ():
        x = float(x)
    g = du.dyear_to_mjd(x, **kw)
    e = close(g, want, 0, 1e-6, 'dyear_to_mjd')
    if e:
        return e
    b = du.mjd_to_dyear(g, **kw)
    # rounding may fall on either side of the new year
    e = close(b, x, 0, 1e-8, 'mjd_to_dyear of dyear_to_mjd')
    if e:
        return e
    e = close(du.dyear_to_mjd(b, **kw), want, 0, 1e-5,
              'dyear_to_mjd of mjd_to_dyear')
    if e:
        return e
    if case['leap'] is not False:
        e = close(du.mjd_to_dyear(np.array([mjd(int(v)) for v in y.flat],
                                           dtype=float)), y.ravel(), 0, 0,
                  'January 1')
        if e:
            return e
        e = close(du.dyear_to_mjd(y.ravel().tolist()), np.array(
            [mjd(int(v)) for v in y.flat]), 0, 0, 'integer years')
        if e:
            return e
    t = np.sort(np.ravel(g))
    t = np.concatenate((t, t + .5, t + 365, t + 366))
    t = t[t < mjd(9999) + 364]        # the calendar of the oracle ends there
    t.sort()
    z = du.mjd_to_dyear(t, **kw)
    if (np.diff(z) < -1e-9).any():
        return 'not increasing'
    if case['leap'] is False:
        return close(z, t/365.25 + 2000, 0, 1e-9, 'mjd_to_dyear')
    w = []
    for v in t:
        dy = (dtm.date.fromordinal(int(np.floor(v)) + EPOCH)).year
        w.append(dy + (v - mjd(dy))/(366 if calendar.isleap(dy) else 365))
    return close(z, np.array(w), 0, 1e-9, 'mjd_to_dyear')


def gen_small(rng, k):
    return {'us': int(rng.choice([0, 1, 999999, int(rng.integers(1000000))])),
            'ns': int(rng.choice([1, 999, int(rng.integers(1000))])),
            's': int(k % 3 == 0)}


@oracle('small units of time', gen_small, n=20)
def small(case):
    s, us, ns = case['s'], case['us'], case['ns']
    w = (s*10**9 + us*1000 + ns)/86400e9
    return close(du.mjd2000(2000, 1, 1, 0, 0, s, us, ns), w, 1e-12, 0,
                 'mjd2000') or close(
        du.mjd2000(2000, 1, 1, second=np.array([s, 0]), microsecond=us,
                   nanosecond=ns), [w, w - s/86400.], 1e-9, 1e-18, 'mjd2000')
