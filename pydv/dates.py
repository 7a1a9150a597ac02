"""Dates of NumPy (datetime64, timedelta64, strings of dates) on symbolic
integers: counts of a unit since 1970-01-01, proleptic Gregorian calendar.
Every conversion generates the obligation that 64-bit integers suffice."""
import numpy as _np
from . import core
from .core import CTX, Sym, Unsupported, b_and, sym

NS = {'W': 7*86400*10**9, 'D': 86400*10**9, 'h': 3600*10**9, 'm': 60*10**9,
      's': 10**9, 'ms': 10**6, 'us': 10**3, 'ns': 1}
LIM = 2**63


def J(y):
    """Days from 1970-01-01 to January 1 of the year y."""
    y = sym(y)
    return 365*(y - 1970) + core.floor((y - 1)/4) - core.floor(
        (y - 1)/100) + core.floor((y - 1)/400) - 477


def YEAR(d):
    """The year of the day d (since 1970-01-01): J(y) <= d < J(y+1)."""
    d = sym(d)
    v = d.value()
    if v is not None:
        y = 1970 + int(v)//366 - 2
        while J(y + 1).value() <= v:
            y += 1
        return Sym.const(y)
    import z3
    r = core.uf('YEAR', d, is_int=True)
    a = core.T.atoms[next(iter(r.num))[0][0]]
    if not a.facts:
        lo, hi = J(r), J(r + 1)
        a.facts = [core.b_z3(lo <= d), core.b_z3(d < hi)]
        for s in (lo, hi, d):
            for i in s.atom_ids():
                a.facts.extend(core.T.atoms[i].facts)
    return r


def CIVIL(y, m, d):
    """Days from 1970-01-01 to a date (opaque unless January 1)."""
    m, d = sym(m), sym(d)
    if m.value() == 1:
        return J(y) + d - 1
    return core.uf('CIVIL', sym(y), m, d, is_int=True)


def arr(x):
    if isinstance(x, _np.ndarray):
        return x
    a = _np.empty((), dtype=object)
    a[()] = x
    return a


def emap(f, *xs):
    xs = _np.broadcast_arrays(*[arr(x) for x in xs])
    out = _np.empty(xs[0].shape, dtype=object)
    for i in _np.ndindex(*xs[0].shape):
        out[i] = f(*[x[i] for x in xs])
    return out


def fits(v, what):
    CTX.oblige(f'64-bit integers suffice for {what}',
               b_and(sym(v) > -LIM, sym(v) < LIM), 'pre')
    return v


class DT:
    """Array of datetime64 (kind M) or timedelta64 (kind m)."""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, kind, unit, vals):
        self.kind, self.unit, self.vals = kind, unit, arr(vals)
        if unit not in NS and not (kind == 'M' and unit == 'Y'):
            raise Unsupported(f'date unit {unit}')

    @property
    def shape(self):
        return self.vals.shape

    @property
    def ndim(self):
        return self.vals.ndim

    @property
    def size(self):
        return self.vals.size

    def __getitem__(self, k):
        return DT(self.kind, self.unit, self.vals[k])

    def __len__(self):
        return len(self.vals)

    def copy(self):
        return DT(self.kind, self.unit, self.vals.copy())

    def reshape(self, *s):
        return DT(self.kind, self.unit, self.vals.reshape(*s))

    def to(self, unit):
        if unit == self.unit:
            return self
        if self.unit == 'Y':
            r = DT('M', 'D', emap(lambda y: J(y + 1970), self.vals))
            return r.to(unit)
        if unit == 'Y':
            if self.kind != 'M':
                raise Unsupported('duration in years')
            d = self.to('D')
            return DT('M', 'Y', emap(lambda v: YEAR(v) - 1970, d.vals))
        if unit not in NS:
            raise Unsupported(f'date unit {unit}')
        a, b = NS[self.unit], NS[unit]
        if a % b == 0:
            return DT(self.kind, unit, emap(
                lambda v: fits(v*(a//b), f'a date in units of {unit}'),
                self.vals))
        if self.kind == 'm':
            raise Unsupported('duration in a coarser unit')
        return DT(self.kind, unit, emap(
            lambda v: core.floor(sym(v)*a/b), self.vals))

    def finer(self, o):
        if self.unit == 'Y' or o.unit == 'Y':
            u = 'D' if self.unit == o.unit == 'Y' else (
                o.unit if self.unit == 'Y' else self.unit)
            u = u if NS[u] <= NS['D'] else 'D'
        else:
            u = self.unit if NS[self.unit] <= NS[o.unit] else o.unit
        return self.to(u), o.to(u), u

    def __add__(self, o):
        if not isinstance(o, DT):
            raise Unsupported('sum of a date and a number')
        if self.kind == o.kind == 'M':
            raise TypeError('sum of two dates')
        a, b, u = self.finer(o)
        return DT('M' if 'M' in (self.kind, o.kind) else 'm', u, emap(
            lambda x, y: fits(x + y, 'a sum of dates'), a.vals, b.vals))
    __radd__ = __add__

    def __sub__(self, o):
        if not isinstance(o, DT):
            raise Unsupported('difference of a date and a number')
        if self.kind == 'm' and o.kind == 'M':
            raise TypeError('duration minus date')
        a, b, u = self.finer(o)
        return DT('M' if self.kind != o.kind else 'm', u, emap(
            lambda x, y: fits(x - y, 'a difference of dates'),
            a.vals, b.vals))

    def __neg__(self):
        return DT('m', self.unit, emap(lambda x: -x, self.vals))

    def __mul__(self, o):
        if self.kind != 'm' or isinstance(o, DT):
            raise TypeError('product of dates')
        return DT('m', self.unit, emap(
            lambda x, y: fits(core.trunc(sym(x)*sym(y)),
                              'a multiple of a duration'), self.vals, o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, DT) or self.kind != 'm' or o.kind != 'm':
            raise Unsupported('quotient of dates')
        a, b, _ = self.finer(o)
        r = emap(lambda x, y: sym(x)/sym(y), a.vals, b.vals)
        return r[()] if r.shape == () else r

    def astype(self, t):
        from . import npx
        t = npx.dt(t)
        if isinstance(t, str) or isinstance(t, _np.dtype) and t.kind in 'mM':
            k, u = kind_unit(t)
            if k != self.kind:
                raise Unsupported('date type')
            return self.to(u) if u else self
        if t in (int, _np.int64, 'int', 'i8', 'int64'):
            return self.vals.copy()
        raise Unsupported('conversion of a date')

    def __repr__(self):
        return f'DT({self.kind}8[{self.unit}], {self.vals!r})'


def kind_unit(t):
    """('M' or 'm', unit) of a dtype name, or None."""
    if isinstance(t, _np.dtype) and t.kind in 'mM':
        u = _np.datetime_data(t)
    elif isinstance(t, str) and t[:1] != 'm' + '8' and (
            'datetime64' in t or 'timedelta64' in t
            or t.lstrip('<>=')[:2] in ('M8', 'm8')):
        d = _np.dtype(t)
        t, u = d, _np.datetime_data(d)
    else:
        return None
    if u[1] != 1:
        raise Unsupported('date unit')
    return t.kind, None if u[0] == 'generic' else u[0]


class Str:
    """Array of strings: tuples of literals and (integer, width) parts."""
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, vals):
        self.vals = arr(vals)

    @property
    def shape(self):
        return self.vals.shape

    @property
    def ndim(self):
        return self.vals.ndim

    @property
    def size(self):
        return self.vals.size

    def __getitem__(self, k):
        return Str(self.vals[k])

    def astype(self, t):
        ku = kind_unit(t)
        if ku and ku[0] == 'M' and ku[1]:
            return DT('M', 'D', emap(parse, self.vals)).to(ku[1])
        if t in (str, _np.str_, 'str', 'U'):
            return self
        raise Unsupported('conversion of strings')


def to_str(x):
    if isinstance(x, Str):
        return x

    def one(v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, str):
            return (v,)
        v = sym(v)
        if not v.is_int():
            raise ValueError('date of a number that is not an integer')
        return ((v, 1),)
    return Str(emap(one, arr(x)) if not isinstance(x, list)
               else emap(one, _np.array(x, dtype=object)))


def parse(parts):
    """Days since 1970-01-01 of an ISO date YEAR-MM-DD."""
    if len(parts) == 1 and isinstance(parts[0], str):
        v = _np.datetime64(parts[0], 'D')
        return Sym.const(int(v.astype('int64')))
    p = [x for x in parts]
    if len(p) != 5 or p[1] != '-' or p[3] != '-' or any(
            isinstance(p[k], str) for k in (0, 2, 4)):
        raise ValueError('Error parsing datetime string')
    (y, _), (m, wm), (d, wd) = p[0], p[2], p[4]
    for v, w in ((m, wm), (d, wd)):
        if w > 2:
            raise ValueError('Error parsing datetime string')
        if w < 2 and not CTX.fork(v >= 10):
            raise ValueError('Error parsing datetime string')
    if not CTX.fork(b_and(m >= 1, m <= 12)):
        raise ValueError('Month out of range in datetime string')
    return CIVIL(y, m, d)


class Char:
    """np.char"""
    @staticmethod
    def zfill(a, width):
        def one(p):
            if len(p) != 1 or isinstance(p[0], str):
                raise Unsupported('zfill of a composed string')
            v, w = p[0]
            if v.value() is None:
                CTX.oblige('zfill of a number that is not negative',
                           v >= 0, 'pre')
            return ((v, max(w, int(width))),)
        return Str(emap(one, to_str(a).vals))

    @staticmethod
    def add(a, b):
        return Str(emap(lambda x, y: _join(x + y), to_str(a).vals,
                        to_str(b).vals))

    def __getattr__(self, n):
        raise Unsupported(f'np.char.{n} is not modelled')


def _join(p):
    out = []
    for x in p:
        if out and isinstance(x, str) and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return tuple(out)


class PyDate:
    """A datetime object: day (since 1970) and microsecond of the day."""

    def __init__(self, day, us):
        self.day, self.us = day, us

    def count(self, unit):
        if unit != 'us':
            raise Unsupported('datetime objects in this unit')
        return self.day*86400*10**6 + self.us


class Scalar64:
    """np.datetime64 / np.timedelta64 as seen by verified code."""
    kind = None
    real = None

    def __new__(cls, v, unit=None):
        if isinstance(v, DT):
            return v.to(unit) if unit else v
        if isinstance(v, (Sym, _np.ndarray)) and cls.kind == 'm':
            if not sym(arr(v)[()]).is_int():
                raise ValueError('duration of a number not an integer')
            return DT('m', unit, v)
        if isinstance(v, Sym):
            raise Unsupported('date of a number')
        if isinstance(v, PyDate):
            return from_objects(arr(v)).to(unit or 'us')
        x = cls.real(v, unit) if unit else cls.real(v)
        u, k = _np.datetime_data(x.dtype)
        if k != 1 or u == 'generic':
            raise Unsupported('date unit')
        return DT(cls.kind, u, Sym.const(int(x.astype('int64'))))


class datetime64(Scalar64):
    kind, real = 'M', _np.datetime64


class timedelta64(Scalar64):
    kind, real = 'm', _np.timedelta64


def from_objects(a):
    """Array of datetime objects as datetime64[us]."""
    return DT('M', 'us', emap(lambda o: o.count('us'), a))


def is_objects(x):
    return isinstance(x, PyDate) or isinstance(x, _np.ndarray) and \
        x.dtype == object and x.size and all(
            isinstance(e, PyDate) for e in x.flat)


def convert(x, dtype):
    """np.asarray(x, dtype) for dates and strings, or None."""
    ku = kind_unit(dtype) if dtype is not None else None
    if isinstance(x, (DT, Str)):
        return x if dtype is None else x.astype(dtype)
    if dtype is _np.str_ or dtype is str:
        return to_str(x)
    if ku is None:
        return None
    if is_objects(x):
        return from_objects(arr(x)).astype(dtype)
    from .npx import objarr
    if isinstance(x, str) or isinstance(x, list) and x and isinstance(
            x[0], str):
        return to_str(x).astype(dtype)
    if ku[0] == 'M':
        raise Unsupported('dates of numbers')
    v = objarr(x)
    for e in v.flat:
        if not sym(e).is_int():
            raise ValueError('duration of a number that is not an integer')
    return DT('m', ku[1], v.copy())


class FakeDtype:
    """dtype of a symbolic array."""
    names = None

    def __init__(self, kind):
        self.kind = kind
        self.type = {'i': CTX.data.get('int_type', _np.int64)
                     if getattr(CTX, 'cur', None) is not None else _np.int64,
                     'f': _np.float64, 'c': _np.complex128,
                     'O': _np.object_, 'M': _np.datetime64,
                     'm': _np.timedelta64, 'U': _np.str_}[kind]

    def issub(self, t):
        t = {datetime64: _np.datetime64, timedelta64: _np.timedelta64}.get(
            t, t)
        return _np.issubdtype(self.type, t)

    def __eq__(self, o):
        if isinstance(o, FakeDtype):
            return self.kind == o.kind
        if o in (datetime64, timedelta64):
            return False
        k = getattr(o, 'kind', None)
        if isinstance(k, type):
            o = k
        try:
            return _np.dtype(self.type) == _np.dtype(o)
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.kind)


def dtype_of(x):
    if isinstance(x, DT):
        return FakeDtype(x.kind)
    if isinstance(x, Str):
        return FakeDtype('U')
    if isinstance(x, Sym):
        return FakeDtype('i' if x.is_int() else 'f')
    if isinstance(x, _np.ndarray) and x.dtype == object and x.size:
        if all(isinstance(e, Sym) for e in x.flat):
            return FakeDtype('i' if all(e.is_int() for e in x.flat) else 'f')
        if any(isinstance(e, core.SComplex) for e in x.flat):
            return FakeDtype('c')
        if is_objects(x):
            return FakeDtype('O')
    return x.dtype
