"""P09: calendar dates, modified Julian dates and decimal years."""
import numpy as np
from pydv import core, extract
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, b_and, b_or, b_not, sym
from pydv.dates import J, YEAR, CIVIL, PyDate, DT
from pydv.registry import Registry

R = Registry('P09')
TRUSTED = ['proleptic Gregorian calendar of numpy datetime64 (parsing of '
           'ISO dates, J(y) days to January 1, unit conversions by '
           'truncation towards the past), 64-bit overflow is an obligation',
           'datetime objects convert to microseconds exactly']
ASSUMPTIONS = ['numpy.char.add and zfill render integers as in Python',
               'days of a month other than January are one uninterpreted '
               'function of year, month and day']
FM = ['data_utils.mjd2000']
FT = ['data_utils.timestamp', 'data_utils.mjd2000']
FL = ['data_utils.is_leap_year']
FD = ['data_utils.dyear_to_mjd', 'data_utils.is_leap_year',
      'data_utils.mjd2000']
FI = ['data_utils.mjd_to_dyear', 'data_utils.is_leap_year',
      'data_utils.mjd2000']
MAXDAYS = {1: 31, 2: 29, 3: 31, 4: 30, 5: 31, 6: 30, 7: 31, 8: 31, 9: 30,
           10: 31, 11: 30, 12: 31}
DAY = 86400*10**9


def load(ctx):
    return extract.load('data_utils', {})


def ints(ctx, name, shape, lo, hi):
    def one(lab):
        x = core.integer(lab, lo=lo, hi=hi)
        ctx.assume(b_and(x >= lo, x <= hi))
        return x
    if shape == ():
        return one(name)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = one(name + ''.join(f'_{k}' for k in i))
    return out


def civil_bounds(ctx, y, m, d):
    """The days of a year lie in the year (fact about CIVIL)."""
    c = CIVIL(y, m, d)
    ctx.assume(b_and(c >= J(y), c < J(sym(y) + 1)))
    return c


def frac(h, mi, s, us, ns):
    return sym(h)/24 + sym(mi)/1440 + sym(s)/86400 + sym(us)/(
        86400*10**6) + sym(ns)/DAY


RANGES = [('year', 1, 9999), ('month', 1, 12), ('day', 1, 31),
          ('hour', 0, 23), ('minute', 0, 59), ('second', 0, 59),
          ('microsecond', 0, 999999), ('nanosecond', 0, 999)]


def mjd_case(shapes, given, kw=False):
    """Integer arguments: shapes per argument, `given` how many."""
    def body(ctx):
        M = load(ctx)
        args = [ints(ctx, n, s, lo, hi)
                for (n, lo, hi), s in zip(RANGES, shapes)][:given]
        full = list(args) + [sym(x) for x in (1, 1, 1, 0, 0, 0, 0, 0)[given:]]
        arrs = np.broadcast_arrays(*[objarr(a) for a in full])
        for i in np.ndindex(arrs[0].shape):
            civil_bounds(ctx, *[a[i] for a in arrs[:3]])
        names = [n for n, _, _ in RANGES]
        if kw:
            st, r = outcome(M.ns['mjd2000'], args[0],
                            **dict(zip(names[1:], args[1:])))
        else:
            st, r = outcome(M.ns['mjd2000'], *args)
        post_true(ctx, f'a date of valid integers converts ({r!r})'[:120],
                  st == 'ok')
        if st != 'ok':
            return
        want = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(want.shape):
            v = [a[i] for a in arrs]
            want[i] = CIVIL(*v[:3]) - 10957 + frac(*v[3:])
        post_eq(ctx, 'days since 2000-01-01 00:00', r, want)
    return verify(f'mjd2000{tuple(shapes[:given])}{" keywords" if kw else ""}',
                  body, FM, fail_fast=False)


@R.contract('mjd2000 of integers is the number of days since 2000-01-01, '
            'scalars and broadcast arrays', FM, modes=('proof',))
def mjd_ints(mode, tier):
    S, V = (), (2,)
    out = [mjd_case((S,)*8, k) for k in range(1, 9)]
    out += [mjd_case((V,)*8, 8), mjd_case((V,) + (S,)*7, 3),
            mjd_case((S,) + (V,)*2 + (S,)*5, 3),
            mjd_case((S, S, S) + (V,)*5, 8),
            mjd_case((S,)*7 + (V,), 8),
            mjd_case(((2, 1), (1, 2), S, S, (2,), S, S, S), 8),
            mjd_case((S,)*8, 8, True), mjd_case((V,)*8, 5, True),
            mjd_case(((1,),)*8, 4)]
    return out


@R.contract('mjd2000 of datetime objects', FM, modes=('proof',))
def mjd_objects(mode, tier):
    out = []
    for shape in ((), (2,), (2, 1)):
        def body(ctx, shape=shape):
            M = load(ctx)
            day = ints(ctx, 'day', shape, -719162, 2932896)
            us = ints(ctx, 'us', shape, 0, 86400*10**6 - 1)
            if shape == ():
                arg = PyDate(day, us)
            else:
                arg = np.empty(shape, dtype=object)
                for i in np.ndindex(*shape):
                    arg[i] = PyDate(day[i], us[i])
            st, r = outcome(M.ns['mjd2000'], arg)
            post_true(ctx, f'datetime objects convert ({r!r})'[:120],
                      st == 'ok')
            if st == 'ok':
                post_eq(ctx, 'days since 2000-01-01 00:00', r,
                        day - 10957 + us*(sym(1)/(86400*10**6)))
        out.append(verify(f'mjd2000 of datetime objects {shape}', body, FM,
                          fail_fast=False))
    return out


@R.contract('mjd2000 of datetime64 in any unit', FM, modes=('proof',))
def mjd_dt64(mode, tier):
    from pydv.dates import NS
    out = []
    lo, hi = -719162, 2932896
    for unit in ('Y', 'D', 'h', 'm', 's', 'ms', 'us', 'ns'):
        for shape in ((), (2,)):
            def body(ctx, shape=shape, unit=unit):
                M = load(ctx)
                if unit == 'Y':
                    n = ints(ctx, 'years', shape, -1969, 8029)
                    want = np.vectorize(lambda x: J(x + 1970),
                                        otypes=[object])(objarr(n))
                else:
                    per = DAY//NS[unit]
                    a, b = (lo*per, hi*per) if unit != 'ns' else (
                        -106000*DAY, 106000*DAY)
                    n = ints(ctx, 'count', shape, a, b)
                    want = objarr(n)/sym(per)
                st, r = outcome(M.ns['mjd2000'], DT('M', unit, n))
                post_true(ctx, f'dates convert ({r!r})'[:120], st == 'ok')
                if st == 'ok':
                    post_eq(ctx, 'days since 2000-01-01 00:00', r,
                            want - 10957)
            out.append(verify(f'mjd2000 of datetime64[{unit}] {shape}', body,
                              FM, fail_fast=False))
    return out


@R.contract('mjd2000 rejects a month that does not exist', FM,
            modes=('proof',))
def mjd_reject(mode, tier):
    def body(ctx):
        M = load(ctx)
        y = ints(ctx, 'year', (), 1, 9999)
        m = ints(ctx, 'month', (), 0, 99)
        ctx.assume(b_or(m < 1, m > 12))
        st, r = outcome(M.ns['mjd2000'], y, m, 1)
        post_true(ctx, 'an invalid month is rejected', st == 'raise')
    return verify('mjd2000 of invalid months', body, FM, fail_fast=False)


def times(ctx, shape, lo, hi, name='t'):
    return reals(name, shape, lo=lo, hi=hi)


@R.contract('timestamp is the date in nanoseconds and mjd2000 inverts it',
            FT, modes=('proof',))
def stamp(mode, tier):
    out = []
    for shape in ((), (2,), (1, 2)):
        def body(ctx, shape=shape):
            M = load(ctx)
            t = times(ctx, shape, -106000, 95000)
            st, r = outcome(M.ns['timestamp'], t)
            post_true(ctx, f'times convert ({r!r})'[:120], st == 'ok'
                      and isinstance(r, DT) and r.kind == 'M')
            if st != 'ok' or not isinstance(r, DT):
                return
            post_true(ctx, 'nanoseconds', r.unit == 'ns')
            post_true(ctx, 'shape', r.shape == shape)
            for i in np.ndindex(*r.shape):
                e = sym(r.vals[i]) - (objarr(t)[i] + 10957)*DAY
                ctx.oblige('within a nanosecond of the time',
                           b_and(e > -1, e < 1), 'post', True)
            b = M.ns['mjd2000'](r)
            post_true(ctx, 'shape of the inverse', np.shape(b) == shape)
            for i in np.ndindex(*shape):
                e = (objarr(b)[i] - objarr(t)[i])*DAY
                ctx.oblige('mjd2000 inverts timestamp to a nanosecond',
                           b_and(e > -1, e < 1), 'post', True)
        out.append(verify(f'timestamp {shape}', body, FT, fail_fast=False))

        def exact(ctx, shape=shape):
            M = load(ctx)
            k = ints(ctx, 'ns', shape, -106000*DAY, 95000*DAY)
            v = M.ns['mjd2000'](DT('M', 'ns', k + 10957*DAY))
            st, r = outcome(M.ns['timestamp'], v)
            post_true(ctx, 'times convert', st == 'ok' and isinstance(r, DT))
            if st == 'ok' and isinstance(r, DT):
                post_eq(ctx, 'timestamp inverts mjd2000', r.to('ns').vals,
                        k + 10957*DAY)
        out.append(verify(f'timestamp of mjd2000 {shape}', exact, FT,
                          fail_fast=False))
    return out


def leap(y):
    """4 | y and not 100 | y, or 400 | y."""
    def div(k):
        return sym(y) - k*core.floor(sym(y)/k) == 0
    return b_or(b_and(div(4), b_not(div(100))), div(400))


INTS = ('int64', 'int32', 'int16', 'uint16', 'uint32', 'uint64')


@R.contract('leap years are divisible by 4 and not by 100, or by 400', FL,
            modes=('proof',))
def leap_years(mode, tier):
    out = []
    for tn in INTS:
        for shape in ((), (2,), (1, 2)):
            def body(ctx, tn=tn, shape=shape):
                ctx.data['int_type'] = getattr(np, tn)
                M = load(ctx)
                y = ints(ctx, 'year', shape, 1, 9999)
                st, r = outcome(M.ns['is_leap_year'], y)
                post_true(ctx, f'years of type {tn} are accepted ({r!r})'
                          [:150], st == 'ok')
                if st != 'ok':
                    return
                r = np.asarray(r, dtype=object)
                post_true(ctx, 'shape', r.shape == shape)
                for i in np.ndindex(*r.shape):
                    g, w = r[i], leap(objarr(y)[i])
                    g = g if isinstance(g, core.SBool) else bool(g)
                    ctx.oblige('leap year', b_or(
                        b_and(g, w), b_and(b_not(g), b_not(w))), 'post',
                        True)
            out.append(verify(f'is_leap_year {tn} {shape}', body, FL,
                              fail_fast=False))

    def lists(ctx):
        M = load(ctx)
        y = list(ints(ctx, 'year', (2,), 1, 9999))
        st, r = outcome(M.ns['is_leap_year'], y)
        post_true(ctx, f'a list of years ({r!r})'[:150], st == 'ok')
        if st == 'ok':
            for g, v in zip(np.asarray(r, dtype=object), y):
                w = leap(v)
                ctx.oblige('leap year', b_or(
                    b_and(g, w), b_and(b_not(g), b_not(w))), 'post', True)
    out.append(verify('is_leap_year of a list', lists, FL, fail_fast=False))

    def floats(ctx):
        M = load(ctx)
        for x in (reals('y', ()), reals('y', (2,)), [2000.5],
                  np.array([2004.25])):
            st, e = outcome(M.ns['is_leap_year'], x)
            post_true(ctx, 'years that are not integers are rejected',
                      st == 'raise' and isinstance(e, TypeError))
    out.append(verify('is_leap_year of decimal years', floats, FL,
                      fail_fast=False))
    return out


def length(y):
    return J(sym(y) + 1) - J(y)


def is_leap(y):
    """The leap years as decided by is_leap_year (its contract above)."""
    return core.uf('LEAP', sym(y)) == 1


def days_in(y):
    """366 or 365, the distance to the next January 1 (lemma above)."""
    n = Sym.const(366 if CTX.fork(is_leap(y)) else 365)
    CTX.cur.assume(length(y) == n)
    return n


def leap_contract(y):
    y = objarr(y)
    out = np.empty(y.shape, dtype=object)
    for i in np.ndindex(*y.shape):
        if not sym(y[i]).is_int():
            raise TypeError('Expected integer values as the input year.')
        out[i] = is_leap(y[i])
        days_in(y[i])
    return out if y.shape else out[()]


def dyear_spec(x, leap_year):
    """Days since 2000 of the decimal year x."""
    if leap_year is False:
        return (x - 2000)*Sym.const(365.25)
    y = core.floor(x)
    return J(y) - 10957 + (x - y)*days_in(y)


def inverse_spec(t, leap_year):
    if leap_year is False:
        return t/Sym.const(365.25) + 2000
    y = YEAR(core.floor(t) + 10957)
    return y + (t - (J(y) - 10957))/days_in(y)


def vec(f, x, *a):
    x = objarr(x)
    out = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        out[i] = f(x[i], *a)
    return out


@R.contract('the length of a year is 366 days in leap years, 365 otherwise '
            '(lemma on the calendar)', FL, modes=('proof',))
def year_length(mode, tier):
    def body(ctx):
        y = ints(ctx, 'year', (), 1, 9999)
        n = length(y)
        if CTX.fork(leap(y)):
            ctx.oblige('366 days', n == 366, 'post', True)
        else:
            ctx.oblige('365 days', n == 365, 'post', True)
    return verify('length of a year', body, FL, fail_fast=False)


LEAP = (None, True, False)


@R.contract('dyear_to_mjd adds the fraction of the year in days', FD,
            modes=('proof',))
def dyear_mjd(mode, tier):
    out = []
    for ly in LEAP:
        for shape in ((), (2,), (1, 2)):
            def body(ctx, ly=ly, shape=shape):
                M = load(ctx)
                M.ns['is_leap_year'] = leap_contract
                x = times(ctx, shape, 1, 9999, 'x')
                kw = {} if ly is None else {'leap_year': ly}
                st, r = outcome(M.ns['dyear_to_mjd'], x, **kw)
                post_true(ctx, f'decimal years convert ({r!r})'[:120],
                          st == 'ok')
                if st == 'ok':
                    post_eq(ctx, 'days since 2000', r,
                            vec(dyear_spec, x, ly))
            out.append(verify(f'dyear_to_mjd {shape} leap_year={ly}', body,
                              FD, fail_fast=False))

        def ints_(ctx, ly=ly):
            M = load(ctx)
            M.ns['is_leap_year'] = leap_contract
            x = ints(ctx, 'year', (2,), 1, 9999)
            st, r = outcome(M.ns['dyear_to_mjd'], x, leap_year=ly)
            post_true(ctx, f'integer years convert ({r!r})'[:120],
                      st == 'ok')
            if st == 'ok':
                post_eq(ctx, 'days since 2000', r, vec(dyear_spec, x, ly))
        out.append(verify(f'dyear_to_mjd of integers leap_year={ly}', ints_,
                          FD, fail_fast=False))
    return out


T0, T1 = -730119., 2921575.       # years 1 to 9998


@R.contract('mjd_to_dyear is the year plus the elapsed part of it', FI,
            modes=('proof',))
def mjd_dyear(mode, tier):
    out = []
    for ly in LEAP:
        for shape in ((), (2,), (1, 2)):
            def body(ctx, ly=ly, shape=shape):
                M = load(ctx)
                M.ns['is_leap_year'] = leap_contract
                t = times(ctx, shape, T0, T1)
                kw = {} if ly is None else {'leap_year': ly}
                st, r = outcome(M.ns['mjd_to_dyear'], t, **kw)
                post_true(ctx, f'dates convert ({r!r})'[:120], st == 'ok')
                if st == 'ok':
                    post_eq(ctx, 'decimal years', r,
                            vec(inverse_spec, t, ly))
            out.append(verify(f'mjd_to_dyear {shape} leap_year={ly}', body,
                              FI, fail_fast=False))
    return out


@R.contract('the decimal year conversions are mutually inverse, increasing '
            'and continuous (over the contracts)', FD + FI,
            modes=('proof',))
def inverse(mode, tier):
    out = []
    for ly in (True, False):
        def there(ctx, ly=ly):
            x = times(ctx, (), 1, 9999, 'x')
            t = dyear_spec(x, ly)
            if ly:
                y = core.floor(x)
                ctx.oblige('the day is in its year', b_and(
                    core.floor(t) + 10957 >= J(y),
                    core.floor(t) + 10957 < J(y + 1)), 'post', True)
                # YEAR of that day is y: it is the only year containing it
                z = YEAR(core.floor(t) + 10957)
                for a, b in ((y, z), (z, y)):
                    if CTX.fork(a < b):
                        # lemma below: the days before a year increase
                        ctx.assume(J(sym(a) + 1) <= J(b))
                ctx.oblige('year of the day', z == y, 'post', True)
                ctx.assume(z == y)
                ctx.oblige('mjd_to_dyear inverts dyear_to_mjd',
                           (t - (J(y) - 10957)) == (x - y)*length(y), 'post',
                           True)
                ctx.oblige('length is not zero', length(y) > 0, 'post', True)
            else:
                ctx.oblige('mjd_to_dyear inverts dyear_to_mjd',
                           inverse_spec(t, ly) == x, 'post', True)
        out.append(verify(f'mjd_to_dyear of dyear_to_mjd leap_year={ly}',
                          there, FD + FI, fail_fast=False))

        def back(ctx, ly=ly):
            t = times(ctx, (), T0, T1)
            x = inverse_spec(t, ly)
            if ly:
                y = YEAR(core.floor(t) + 10957)
                f = (t - (J(y) - 10957))/length(y)
                d = t - (J(y) - 10957)
                n = length(y)
                ctx.oblige('elapsed part in [0, 1)', b_and(
                    d >= 0, d < n), 'post', True)
                ctx.oblige('length is positive', n > 0, 'post', True)
                ctx.oblige('decimal year in the year', x - y == f, 'post',
                           True)
                # so floor(x) = y and the fraction is f
                ctx.oblige('dyear_to_mjd inverts mjd_to_dyear',
                           J(y) - 10957 + f*n == t, 'post', True)
            else:
                ctx.oblige('dyear_to_mjd inverts mjd_to_dyear',
                           dyear_spec(x, ly) == t, 'post', True)
        out.append(verify(f'dyear_to_mjd of mjd_to_dyear leap_year={ly}',
                          back, FD + FI, fail_fast=False))

    def mono(ctx):
        a, b = (ints(ctx, n, (), -10, 10010) for n in 'ab')
        ctx.assume(a < b)
        k = b - a
        for d in (4, 400):
            ctx.oblige(f'more multiples of {d}', core.floor((a + k - 1)/d)
                       >= core.floor(a/sym(d)), 'post', True)
        ctx.oblige('the days before a year increase', J(a + 1) <= J(b),
                   'post', True)
    out.append(verify('the days before a year increase', mono, FD,
                      fail_fast=False))

    def cont(ctx):
        y = ints(ctx, 'year', (), 1, 9998)
        x = times(ctx, (), 1, 9999, 'x')
        ctx.assume(core.floor(x) == y)
        # the linear piece of the year y ends where the next year begins
        ctx.oblige('continuous at the end of the year',
                   J(y) + length(y) == J(y + 1), 'post', True)
        ctx.oblige('increasing in the year', length(y) >= 365, 'post', True)
        ctx.oblige('every time of the year is before the next year',
                   J(y) + (x - y)*length(y) < J(y + 1), 'post', True)
    out.append(verify('continuity of decimal years', cont, FD,
                      fail_fast=False))
    return out
