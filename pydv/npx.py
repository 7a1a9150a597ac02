"""NumPy stand-in for symbolic execution.

Real NumPy does all shape work (broadcasting, indexing, stacking, matmul, ...)
on dtype=object arrays whose elements are `Sym`; only the functions that need
the element type (elementary functions, allocation with a dtype, comparisons
that must fork, norms, FFT, ...) are replaced here.  `SymTable` is an array
with symbolic dimensions.
"""
import builtins
import math
from fractions import Fraction
import numpy as _np
from . import core
from .core import (Sym, SBool, SComplex, Unsupported, CTX, sym, coerce, T,
                   b_and, b_or, b_not)

OBJ = _np.dtype(object)


# ------------------------------------------------------------ conversions

def dt(d):
    """Resolve the stand-ins of `int`, `float`, `complex`."""
    k = getattr(d, 'kind', None)
    return k if isinstance(k, type) else d


def _is_float_dtype(d):
    d = dt(d)
    if d in (float, 'float', 'f8', 'd', _np.float64, _np.floating):
        return True
    try:
        t = _np.dtype(d)
    except TypeError:
        return False
    if t.kind == 'f' and t.itemsize < 8:
        raise Unsupported('numbers of less than double precision')
    return t.kind == 'f'


def _is_complex_dtype(d):
    d = dt(d)
    try:
        return d is complex or _np.dtype(d).kind == 'c'
    except TypeError:
        return False


def _is_int_dtype(d):
    d = dt(d)
    try:
        return _np.dtype(d).kind in 'iu'
    except TypeError:
        return False


def _has_sym(x):
    if isinstance(x, (Sym, SComplex, SBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == OBJ
    if isinstance(x, (list, tuple)):
        return any(_has_sym(y) for y in x)
    return False


def objarr(x):
    """ndarray(dtype=object) of Sym/SComplex from nested data."""
    if isinstance(x, _np.ndarray):
        if x.dtype == OBJ:
            return x
        out = _np.empty(x.shape, dtype=object)
        for i in _np.ndindex(x.shape):
            out[i] = elem(x[i])
        return out
    if isinstance(x, (list, tuple)):
        parts = [objarr(y) for y in x]
        if not parts:
            return _np.empty((0,), dtype=object)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError('setting an array element with a sequence.')
        out = _np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if sh else p[()]
        return out
    out = _np.empty((), dtype=object)
    out[()] = elem(x)
    return out


def elem(x):
    if isinstance(x, (Sym, SComplex, SBool)):
        return x
    if isinstance(x, (complex, _np.complexfloating)):
        return SComplex.of(x)
    r = coerce(x)
    if r is NotImplemented:
        if isinstance(x, (tuple, list)):
            raise Unsupported(f'array of {type(x).__name__}')
        if type(x).__module__.split('.')[0] in ('pydv', 'contracts', 'types'):
            raise Unsupported(f'array of {type(x).__name__}')
        raise TypeError(f'not a number: {type(x).__name__}')
    return r


def scalar(a):
    """0-d results become scalars as in NumPy ufuncs."""
    if isinstance(a, _np.ndarray) and a.shape == () and a.dtype == OBJ:
        return a[()]
    return a


def is_num(x):
    return isinstance(x, (Sym, SComplex, int, float, complex, _np.number))


def _plainargs(name, k, a=(), ok=()):
    """Refuse arguments that the model of a function would ignore."""
    if a:
        raise Unsupported(f'positional arguments of {name}')
    for n, v in k.items():
        if v is None or v is False or n in ok:
            continue
        if n == 'dtype' and _is_float_dtype(dt(v)):
            continue
        if n in ('order', 'casting', 'subok', 'optimize', 'copy', 'like',
                 'device'):
            continue
        raise Unsupported(f'argument {n} of {name}')


def lift1(f):
    def g(x, *a, **k):
        _plainargs(getattr(f, '__name__', 'an operation'), k, a)
        if isinstance(x, SymTable):
            return x.map(f)
        if isinstance(x, (Sym, SComplex)) or (
                is_num(x) and not isinstance(x, bool)):
            return f(elem(x))
        x = x if isinstance(x, _np.ndarray) else objarr(x)
        out = _np.empty(x.shape, dtype=object)
        for i in _np.ndindex(x.shape):
            out[i] = f(elem(x[i]))
        return scalar(out)
    return g


def lift2(f):
    def g(x, y, *a, **k):
        _plainargs(getattr(f, '__name__', 'an operation'), k, a)
        if isinstance(x, SymTable) or isinstance(y, SymTable):
            return _tab2(x, y, f)
        x, y = objarr(x), objarr(y)
        b = _np.broadcast(x, y)
        out = _np.empty(b.shape, dtype=object)
        xx, yy = _np.broadcast_to(x, b.shape), _np.broadcast_to(y, b.shape)
        for i in _np.ndindex(b.shape):
            out[i] = f(xx[i], yy[i])
        return scalar(out)
    return g


def tobool(x):
    """Concrete bool array; forks on symbolic conditions."""
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, (SBool, Sym)):
        return bool(x)
    x = _np.asarray(x)
    if x.dtype != OBJ:
        return x.astype(bool)
    out = _np.empty(x.shape, dtype=bool)
    for i in _np.ndindex(x.shape):
        out[i] = bool(x[i])
    return out


# -------------------------------------------------------------- SymTable

def _and(*bs):
    return b_and(*bs)


def _same_key(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(_same_key, a, b))
    if isinstance(a, slice) and isinstance(b, slice):
        return all(x is y for x, y in zip((a.start, a.stop, a.step),
                                          (b.start, b.stop, b.step)))
    return a is b


class SymTable:
    """Array with symbolic dimensions: axes are ints or Syms.

    Content = base function of the symbolic indices, overlaid by a write log.
    Values have the shape of the concrete axes (object ndarray, or a bare
    element when there are none)."""
    __array_priority__ = 1000
    __array_ufunc__ = None
    dtype = _np.dtype(float)

    def __init__(self, axes, base, name='tab'):
        self.axes = tuple(axes)
        self.base = base
        self.log = []
        self.name = name
        self.sym = [k for k, d in enumerate(self.axes)
                    if isinstance(d, Sym) and d.value() is None]
        self.axes = tuple(d.value() if isinstance(d, Sym)
                          and d.value() is not None else d for d in self.axes)
        self.writable = True
        self.parent = None      # the array of which this is a view
        self.key = None
        self.stale = None       # written through a view

    def _view(self, new, key=None):
        if not isinstance(self, SymList):
            new.parent, new.key = self, key
            new.mark = (self.base, len(self.log))
        return new

    def _current(self):
        """Views read what the array held when they were made."""
        v = self
        while v.parent is not None:
            p = v.parent
            if p.base is not v.mark[0] or len(p.log) != v.mark[1]:
                raise Unsupported(f'{p.name} was written after a view of it '
                                  'was made')
            v = p

    def _touch(self):
        if not self.writable:
            CTX.events.append(('write', self.name))
        p, v = self.parent, self
        while p is not None:
            p.stale = (p.stale or set()) | {id(v)}
            p, v = p.parent, p

    @property
    def shape(self):
        return self.axes

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        s = 1
        for d in self.axes:
            s = s*d
        return s

    @property
    def cshape(self):
        return tuple(d for k, d in enumerate(self.axes) if k not in self.sym)

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self.map(lambda z: z.re if isinstance(z, SComplex) else z)

    @property
    def imag(self):
        return self.map(lambda z: z.im if isinstance(z, SComplex)
                        else Sym.const(0))

    def transpose(self, *perm):
        n = self.ndim
        if not perm:
            perm = tuple(range(n))[::-1]
        if len(perm) == 1 and isinstance(perm[0], tuple):
            perm = perm[0]
        axes = [self.axes[p] for p in perm]
        src = self.snapshot()
        symo = self.sym
        new = SymTable(axes, None, self.name)
        # order of symbolic / concrete axes under the permutation
        smap = [symo.index(p) for p in perm if p in symo]
        conc = [p for p in range(n) if p not in symo]
        cmap = [conc.index(p) for p in perm if p not in symo]

        def base(ix):
            src_ix = [None]*len(symo)
            for k, s in enumerate(smap):
                src_ix[s] = ix[k]
            v = src.read(tuple(src_ix), check=False)
            return _np.transpose(v, cmap) if len(cmap) > 1 else v
        new.base = base
        return self._view(new)

    def astype(self, dtype, *_a, **_k):
        dtype = dt(dtype)
        if _is_int_dtype(dtype):
            return self.map(core.trunc)
        if not (_is_float_dtype(dtype) or dtype is complex
                or dtype == OBJ or _is_complex_dtype(dtype)):
            raise Unsupported('astype of a symbolic array')
        return self.snapshot()

    def copy(self):
        return self.snapshot()

    def snapshot(self):
        self._current()
        t = SymTable(self.axes, self.base, self.name)
        t.log = list(self.log)
        t.stale = self.stale
        return t

    def __len__(self):
        if isinstance(self.axes[0], Sym):
            raise Unsupported('len() of a symbolic dimension')
        return self.axes[0]

    def __iter__(self):
        raise Unsupported('iteration over a symbolic array')

    def __bool__(self):
        raise Unsupported('truth value of a symbolic array')

    def read(self, ix, check=True):
        if self.stale:
            raise Unsupported(f'{self.name} was written through a view')
        self._current()
        if check:
            for i, k in zip(ix, self.sym):
                d = self.axes[k]
                CTX.oblige(f'index in bounds of {self.name}',
                           _and(sym(i) >= 0, sym(i) < d), 'bounds')
        for ent, val, ck in reversed(self.log):
            conds = []
            off = []
            for i, e in zip(ix, ent):
                if e[0] == 'pt':
                    conds.append(sym(i) == e[1])
                else:
                    conds.append(_and(sym(i) >= e[1], sym(i) < e[2]))
                    off.append(sym(i) - e[1])
            c = _and(*conds)
            if c is False:
                continue
            if c is True or CTX.fork(c):
                v = val(tuple(off)) if callable(val) else val
                if ck is None:
                    return v
                raise Unsupported('partial write to a symbolic array')
        return self.base(ix)

    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        n = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in key if not isinstance(k, _np.ndarray)]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key = key[:p] + (slice(None),)*(self.ndim - n) + key[p+1:]
        else:
            key = key + (slice(None),)*(self.ndim - n)
        return key

    def _norm(self, i, d):
        i = sym(i)
        v = i.value()
        if v is not None:
            return d + v if v < 0 else i
        if CTX.decide(i < 0) is True:
            return d + i
        return i

    def __getitem__(self, key):
        k0 = key
        if self.ndim == 1 and self.sym == [0] and isinstance(key, SymTable):
            return self._take(key)
        if self.ndim == 1 and self.sym == [0] and isinstance(
                key, slice) and (key.start, key.stop, key.step) == (
                    None, None, -1):
            src, d = self.snapshot(), self.axes[0]
            return self._view(SymTable((d,), lambda ix: src.read(
                (d - 1 - sym(ix[0]),), check=False), self.name))
        key = self._key(key)
        newaxes = []       # (kind, ...)
        fix = {}
        ckey = []
        ax = 0
        plan = []          # for each symbolic axis
        hasnone = any(k is None for k in key)
        for k in key:
            if k is None:
                newaxes.append(('new',))
                ckey.append(None)
                continue
            d = self.axes[ax]
            if ax in self.sym:
                if isinstance(k, slice):
                    if (k.start, k.stop, k.step) == (None, None, -1):
                        plan.append((d - 1, d, -1))
                        newaxes.append(('sym', d))
                        ax += 1
                        continue
                    if k.step not in (None, 1):
                        if self.ndim != 1 or k.start is not None or \
                                k.stop is not None:
                            raise Unsupported('slice step on a symbolic axis')
                        return self._every(k.step)
                    lo = sym(0) if k.start is None else self._norm(k.start, d)
                    hi = d if k.stop is None else self._norm(k.stop, d)
                    if k.stop is not None and (hi <= d) is not True:
                        if not CTX.fork(hi <= d):
                            hi = d
                    plan.append((lo, hi - lo, 1))
                    newaxes.append(('sym', hi - lo))
                elif isinstance(k, (int, Sym, _np.integer)):
                    plan.append(self._norm(k, d))
                else:
                    raise Unsupported('index kind on a symbolic axis')
            else:
                ckey.append(k)
                if isinstance(k, slice):
                    newaxes.append(('con', len(range(*k.indices(d)))))
                elif isinstance(k, (int, _np.integer)):
                    pass
                else:
                    raise Unsupported('index kind')
            ax += 1
        trivial = all(isinstance(k, slice) and k == slice(None) for k in ckey)

        def conc(v):
            if trivial or not ckey:
                return v
            if not isinstance(v, _np.ndarray):
                v = objarr(v)
            r = v[tuple(ckey)]
            return r
        if not any(isinstance(p, tuple) for p in plan):
            return conc(self.read(tuple(plan)))
        axes = []
        for a in newaxes:
            axes.append({'new': lambda: 1, 'sym': lambda: a[1],
                         'con': lambda: a[1]}[a[0]]())
        src = self.snapshot()
        for p, k in zip(plan, self.sym):
            if isinstance(p, tuple) and p[2] == 1:
                CTX.oblige(f'slice in bounds of {self.name}',
                           _and(p[0] >= 0), 'bounds')

        # if every sliced axis turned out concrete, materialise
        lens = [p[1] for p in plan if isinstance(p, tuple)]
        new = SymTable(axes, None, self.name)
        concsym = [ln.value() if isinstance(ln, Sym) else ln for ln in lens]

        def base(ix):
            ix = list(ix)
            full = []
            for p in plan:
                if isinstance(p, tuple):
                    full.append(p[0] + p[2]*ix.pop(0))
                else:
                    full.append(p)
            return conc(src.read(tuple(full), check=False))
        if all(c is not None for c in concsym):
            if len(concsym) == 1:
                vals = [base((k,)) for k in range(int(concsym[0]))]
                pos = [i for i, a in enumerate(newaxes) if a[0] == 'sym'][0]
                arr = objarr([objarr(v) for v in vals]) if vals else \
                    _np.empty((0,) + tuple(a[1] if a[0] == 'con' else 1
                                           for a in newaxes
                                           if a[0] != 'sym'), dtype=object)
                return _np.moveaxis(arr, 0, pos)
            raise Unsupported('several concrete slices of symbolic axes')
        if any(c is not None for c in concsym):
            raise Unsupported('mixed slices')
        new.base = base
        return self._view(new, k0)

    def _every(self, step):
        """a[::step]: ceil(len/step) elements."""
        d, p = self.axes[0], sym(step)
        if CTX.decide(p > 0) is not True:
            raise Unsupported('slice step')
        q = (d - 1)/p
        if CTX.decide(d >= 1) is not True or not q.is_int():
            raise Unsupported('length of a slice with a step')
        src = self.snapshot()
        return self._view(SymTable((q + 1,), lambda ix: src.read(
            (p*ix[0],), check=False), self.name), ('every', p))

    def _take(self, key):
        src, k, d = self.snapshot(), key.snapshot(), self.axes[0]
        at = tuple(core.integer(f'@t{q}', lo=0) for q in range(len(k.sym)))
        v = sym(k.read(at, check=False))
        inside = _and(*[_and(a >= 0, a < k.axes[q])
                        for a, q in zip(at, k.sym)])
        CTX.oblige(f'index array in bounds of {self.name}', core.b_or(
            core.b_not(inside), _and(v >= 0, v < d)), 'bounds')
        return SymTable(k.axes, lambda ix: src.read(
            (sym(k.read(ix, check=False)),), check=False), self.name)

    def __setitem__(self, key, value):
        self._touch()
        if self.stale and isinstance(value, SymTable) and \
                value.parent is self and _same_key(value.key, key):
            # a[key] op= x stores the view that it has changed
            self.stale = self.stale - {id(value)} or None
        key = self._key(key)
        ent = []
        ck = []
        ax = 0
        shape = []
        for k in key:
            if k is None:
                raise Unsupported('newaxis in assignment')
            d = self.axes[ax]
            if ax in self.sym:
                if isinstance(k, slice):
                    if k.step not in (None, 1):
                        raise Unsupported('assignment to a slice with a step '
                                          'on a symbolic axis')
                    lo = sym(0) if k.start is None else self._norm(k.start, d)
                    hi = d if k.stop is None else self._norm(k.stop, d)
                    ent.append(('rg', lo, hi))
                    shape.append(hi - lo)
                    CTX.oblige(f'written slice in bounds of {self.name}',
                               _and(lo >= 0, hi <= d), 'bounds')
                else:
                    i = self._norm(k, d)
                    CTX.oblige(f'written index in bounds of {self.name}',
                               _and(i >= 0, i < d), 'bounds')
                    ent.append(('pt', i))
            else:
                ck.append(k)
                if isinstance(k, slice):
                    shape.append(len(range(*k.indices(d))))
            ax += 1
        triv = all(isinstance(k, slice) and k == slice(None) for k in ck)
        if any(e[0] == 'rg' for e in ent):
            if not triv:
                if all(isinstance(k, (int, _np.integer)) for k in ck) and \
                        isinstance(value, SymTable) and len(value.sym) == \
                        value.ndim == sum(e[0] == 'rg' for e in ent):
                    self._part(ent, tuple(ck), value.snapshot())
                    return
                raise Unsupported('partial slice write')
            value = value.snapshot() if isinstance(value, SymTable) else value
            cs = self.cshape
            if isinstance(value, SymTable):
                if len(value.sym) != sum(e[0] == 'rg' for e in ent):
                    raise Unsupported('shape of assigned slice')
                r = [e for e in ent if e[0] == 'rg']
                for e, k in zip(r, value.sym):
                    CTX.oblige('length of assigned slice',
                               (e[2] - e[1]) == value.axes[k], 'bounds')
                self.log.append((tuple(ent),
                                 lambda off: value.read(off, check=False),
                                 None))
            else:
                v = objarr(value)
                nr = sum(e[0] == 'rg' for e in ent)
                if nr == 1 and v.ndim == len(shape) and v.size == 0:
                    for d, e in zip(v.shape, shape):
                        CTX.oblige('length of assigned slice',
                                   sym(d) == sym(e), 'bounds')
                    return
                if v.shape == cs + (1,)*0 or v.ndim == 0:
                    if nr and v.ndim and v.ndim >= 1 and cs and \
                            v.shape[-1:] != (1,) and v.ndim == len(cs):
                        raise Unsupported('broadcast of assigned slice')
                    if v.ndim == 0 and cs:
                        v = _np.broadcast_to(v, cs)
                    vv = v if cs else v[()]
                    self.log.append((tuple(ent), lambda off: vv, None))
                else:
                    raise Unsupported('shape of assigned slice')
            return
        cs = self.cshape
        if not triv:
            # read-modify-write of the concrete part
            old = _np.array(self.read(tuple(e[1] for e in ent), check=False),
                            dtype=object)
            old[tuple(ck)] = value
            self.log.append((tuple(ent), old, None))
            return
        if cs:
            v = _np.empty(cs, dtype=object)
            v[...] = value
        else:
            v = value
            if isinstance(v, _np.ndarray):
                v = v[()] if v.shape == () else v.reshape(())[()]
            v = elem(v) if not isinstance(v, (Sym, SComplex)) else v
        self.log.append((tuple(ent), v, None))

    def _part(self, ent, ck, value):
        """self[.., ck, .., lo:hi, ..] = value (one element per index)."""
        old = self.snapshot()
        for e, k in zip([e for e in ent if e[0] == 'rg'], value.sym):
            CTX.oblige('length of assigned slice',
                       (e[2] - e[1]) == value.axes[k], 'bounds')

        def base(ix):
            v = old.read(ix, check=False)
            conds, off = [], []
            for i, e in zip(ix, ent):
                if e[0] == 'pt':
                    conds.append(sym(i) == e[1])
                else:
                    conds.append(_and(sym(i) >= e[1], sym(i) < e[2]))
                    off.append(sym(i) - e[1])
            c = _and(*conds)
            if c is False or (c is not True and not CTX.fork(c)):
                return v
            v = objarr(v).copy()
            v[ck] = value.read(tuple(off), check=False)
            return v
        self.base, self.log = base, []

    # elementwise
    def map(self, f):
        src = self.snapshot()
        g = lift1(f)
        return SymTable(self.axes, lambda ix: g(src.read(ix, check=False)),
                        self.name)

    def _op(self, o, f):
        return _tab2(self, o, f)

    def __add__(self, o): return _tab2(self, o, lambda a, b: a + b)
    def __radd__(self, o): return _tab2(o, self, lambda a, b: a + b)
    def __sub__(self, o): return _tab2(self, o, lambda a, b: a - b)
    def __rsub__(self, o): return _tab2(o, self, lambda a, b: a - b)
    def __mul__(self, o): return _tab2(self, o, lambda a, b: a*b)
    def __rmul__(self, o): return _tab2(o, self, lambda a, b: a*b)
    def __truediv__(self, o): return _tab2(self, o, lambda a, b: a/b)
    def __rtruediv__(self, o): return _tab2(o, self, lambda a, b: a/b)
    def __neg__(self): return self.map(lambda a: -a)
    def __pow__(self, k): return self.map(lambda a: a**k)
    def __abs__(self): return self.map(abs)

    def _inplace(self, o, f):
        r = _tab2(self, o, f)
        self._touch()
        self.base, self.log = r.base, []
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a*b)
    def __itruediv__(self, o): return self._inplace(o, lambda a, b: a/b)

    # comparisons give tables of the 0/1 indicator
    def __lt__(self, o): return _tab2(self, o, lambda a, b: ind_lt(a - b))
    def __gt__(self, o): return _tab2(self, o, lambda a, b: ind_lt(b - a))
    def __le__(self, o): return _tab2(self, o, lambda a, b: 1-ind_lt(b - a))
    def __ge__(self, o): return _tab2(self, o, lambda a, b: 1-ind_lt(a - b))

    def __rmatmul__(self, o):
        return np_dot(o, self)

    def __eq__(self, o):
        return _tab2(self, o, lambda a, b: 1 - ind_lt(a - b) - ind_lt(b - a))

    def __ne__(self, o):
        return _tab2(self, o, lambda a, b: ind_lt(a - b) + ind_lt(b - a))
    __hash__ = object.__hash__

    def sum(self, axis=None, **k):
        _plainargs('sum', k)
        return tab_sum(self, axis)

    def mean(self, axis=None, **k):
        return np_mean(self, axis, **k)

    def dot(self, o):
        return np_dot(self, o)

    def __matmul__(self, o):
        return np_dot(self, o)

    def ravel(self, *a):
        if self.ndim != 1:
            raise Unsupported('ravel of a symbolic array')
        return self

    def flatten(self, *a):
        return self.ravel().snapshot()

    def reshape(self, *sh):
        """A vector gets axes of length one."""
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if self.ndim == 1 and len(self.sym) == 1 and sum(
                1 for d in sh if not (isinstance(d, int) and d == 1)) == 1:
            p = [k for k, d in enumerate(sh)
                 if not (isinstance(d, int) and d == 1)][0]
            if (isinstance(sh[p], int) and sh[p] == -1) or (
                    sym(sh[p]) - self.axes[0]).value() == 0:
                return self[(None,)*p + (slice(None),)
                            + (None,)*(len(sh) - p - 1)]
        if self.ndim == 1 and len(self.sym) == 1 and len(sh) == 2:
            a, b = sh
            if isinstance(a, (int, _np.integer)) and a == -1:
                a = sym(self.axes[0])/sym(b)
            elif isinstance(b, (int, _np.integer)) and b == -1:
                b = sym(self.axes[0])/sym(a)
            CTX.oblige(f'reshape of {self.name}: number of elements',
                       sym(a)*sym(b) == sym(self.axes[0]), 'bounds')
            src = self.snapshot()
            if all(isinstance(d, Sym) and d.value() is None for d in (a, b)):
                return SymTable((a, b), lambda ix: src.read(
                    (ix[0]*sym(b) + ix[1],), check=False), self.name)
        raise Unsupported('reshape of a symbolic array')

    def __repr__(self):
        return f'SymTable({self.name}, {self.axes})'


class SymList(SymTable):
    """A Python list of symbolic length (concatenation, repetition)."""

    def __add__(self, o):
        if not isinstance(o, (list, SymList)):
            raise TypeError('can only concatenate list to list')
        return _concat(self, o)

    def __radd__(self, o):
        if not isinstance(o, (list, SymList)):
            raise TypeError('can only concatenate list to list')
        return _concat(o, self)

    def __mul__(self, n):
        raise Unsupported('repetition of a symbolic list')
    __rmul__ = __mul__

    def copy(self):
        return SymList(self.axes, self.base, self.name)
    snapshot = copy

    def extend(self, o):
        r = _concat(self, o)
        self.axes, self.base, self.log = r.axes, r.base, []
        self.sym = r.sym

    def append(self, x):
        self.extend([x])

    def __iadd__(self, o):
        self.extend(o)
        return self


def list_repeat(x, n):
    if len(x) != 1:
        raise Unsupported('repetition of several elements')
    n = sym(n)
    if not CTX.fork(n >= 0):
        n = sym(0)
    if n.value() is not None:
        return x*int(n.value())
    v = elem(x[0])
    return SymList((n,), lambda ix: v, 'list')


def as_list(t):
    if t.ndim != 1 or t.sym != [0]:
        raise Unsupported('list of a symbolic array')
    s = t.snapshot()
    return SymList(t.axes, lambda ix: s.read(ix, check=False), 'list')


def _concat(a, b):
    def part(x):
        if isinstance(x, SymTable):
            s = x.snapshot()
            return s.axes[0], lambda k: s.read((k,), check=False)
        y = [elem(v) for v in x]

        def get(k):
            k = sym(k)
            if k.value() is not None:
                return y[int(k.value())]
            for i, v in enumerate(y[:-1]):
                if CTX.fork(k == i):
                    return v
            return y[-1]
        return len(y), get
    na, fa = part(a)
    nb, fb = part(b)
    if isinstance(nb, int) and nb == 0:
        return SymList((na,), lambda ix: fa(ix[0]), 'list')
    if isinstance(na, int) and na == 0:
        return SymList((nb,), lambda ix: fb(ix[0]), 'list')
    return SymList((sym(na) + nb,), lambda ix: fa(ix[0]) if CTX.fork(
        sym(ix[0]) < na) else fb(sym(ix[0]) - na), 'list')


def _tab2(x, y, f):
    """Elementwise operation with broadcasting of symbolic arrays."""
    if isinstance(x, SymTable) and isinstance(y, SymTable):
        nx, ny = x.ndim, y.ndim
    tx = x.snapshot() if isinstance(x, SymTable) else objarr(x)
    ty = y.snapshot() if isinstance(y, SymTable) else objarr(y)
    ax = tuple(tx.axes) if isinstance(tx, SymTable) else tx.shape
    ay = tuple(ty.axes) if isinstance(ty, SymTable) else ty.shape
    n = max(len(ax), len(ay))
    px, py = (1,)*(n - len(ax)) + ax, (1,)*(n - len(ay)) + ay
    axes = []
    use = []
    for a, b in zip(px, py):
        va = a.value() if isinstance(a, Sym) else a
        vb = b.value() if isinstance(b, Sym) else b
        if va == 1 and not isinstance(a, Sym):
            axes.append(b)
            use.append((False, True))
        elif vb == 1 and not isinstance(b, Sym):
            axes.append(a)
            use.append((True, False))
        else:
            if isinstance(a, Sym) or isinstance(b, Sym):
                c = sym(a) == sym(b)
                if c is not True:
                    if not CTX.fork(c):
                        raise ValueError('operands could not be broadcast')
            elif a != b:
                raise ValueError('operands could not be broadcast')
            axes.append(a if isinstance(a, Sym) else b)
            use.append((True, True))
    out = SymTable(axes, None, 'expr')
    symaxes = out.sym

    def getter(t, padded, which):
        pad = n - (len(t.axes) if isinstance(t, SymTable) else t.ndim)

        def get(ix):
            # value with full concrete rank (broadcastable)
            pos = dict(zip(symaxes, ix))
            if isinstance(t, SymTable):
                sub = tuple(pos[k + pad] for k in t.sym)
                v = t.read(sub, check=False)
                cdims = [k + pad for k in range(t.ndim) if k not in t.sym]
            else:
                v = t
                # concrete array: its axes at symbolic positions must be 1
                key = []
                cdims = []
                for k in range(t.ndim):
                    if k + pad in symaxes:
                        key.append(0)
                    else:
                        key.append(slice(None))
                        cdims.append(k + pad)
                v = t[tuple(key)] if t.ndim else t[()]
            # axes of size one at symbolic output positions were dropped for
            # concrete arrays; insert missing leading ones
            if not isinstance(v, _np.ndarray):
                return v
            sh = []
            j = 0
            for k in range(n):
                if k in symaxes:
                    if k in cdims:
                        j += 1     # size one axis of a table
                    continue
                if k in cdims:
                    sh.append(v.shape[j])
                    j += 1
                else:
                    sh.append(1)
            return v.reshape(tuple(sh))
        return get
    gx, gy = getter(tx, px, 0), getter(ty, py, 1)

    def base(ix):
        a, b = gx(ix), gy(ix)
        if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
            r = lift2(f)(a, b)
            cs = out.cshape
            if isinstance(r, _np.ndarray):
                return r.reshape(cs) if cs else r.reshape(())[()]
            return _np.broadcast_to(objarr(r), cs) if cs else r
        r = f(elem(a), elem(b))
        return _np.broadcast_to(objarr(r), out.cshape) if out.cshape else r
    out.base = base
    return out


def ind_lt(x):
    """Indicator of x < 0 (an opaque 0/1 value)."""
    x = sym(x)
    v = x.value()
    if v is not None:
        return Sym.const(1 if v < 0 else 0)
    if isinstance(x < 0, bool):
        return Sym.const(1 if (x < 0) else 0)
    # positive factors do not matter
    if x.den == core.ONE:
        pid = core.PI_id()
        while x.num and all(any(j == pid and e > 0 for j, e in m)
                            for m in x.num):
            x = x/core.PI()
        x = x/abs(x.num[core._lead(x.num)])
    def facts(a):
        a.facts = [core.z3.If(core.b_z3(x < 0), a.z3 == 1, a.z3 == 0)]
    return core._uf('IND', x, facts=facts)


def BOUND(k):
    return core.integer(f'@k{k}')


def tab_sum(t, axis):
    """Sum over a symbolic axis: canonical SUM(length, body(@k))."""
    if axis is None:
        if t.ndim != 1:
            raise Unsupported('sum over all axes')
        axis = 0
    axis = int(axis)
    if axis < 0:
        axis += t.ndim
    if axis not in t.sym:
        raise Unsupported('sum over a concrete axis of a symbolic array')
    if len(t.sym) != 1:
        raise Unsupported('sum over one of several symbolic axes')
    k = BOUND(0)
    n = t.axes[axis]
    v = t.read((k,), check=False)
    inner = _sums(v)
    if inner and inner - _sums(t.read((core.integer('@probe'),),
                                      check=False)):
        raise Unsupported('nested sums')
    return lift1(lambda e: SUM(n, e))(v)


def _sums(v):
    """Sum symbols in the elements of v."""
    return {i for e in objarr(v).flat for x in (
        (e.re, e.im) if isinstance(e, SComplex) else (e,))
        for i in x.atom_ids() if T.atoms[i].fn == 'SUM'}


def SUM(n, body):
    """sum_{@k0=0}^{n-1} body, constants and coefficients factored."""
    if isinstance(body, SComplex):
        return SComplex(SUM(n, body.re), SUM(n, body.im))
    n, body = sym(n), sym(body)
    kid = BOUND(0)
    out = Sym.const(0)
    kk = T.var('@k0', True).id
    if body.den != core.ONE:
        if kk in {i for m in body.den for i, _ in m} or _depends(
                Sym(body.den), kk):
            a, _ = T.app('SUM', (n, body))
            return Sym.atom(a)
        return SUM(n, Sym(body.num))/Sym(body.den)
    for m, c in body.num.items():
        dep = tuple((i, e) for i, e in m if i == kk or
                    _dep_atom(i, kk))
        ind = tuple((i, e) for i, e in m if not (i == kk or _dep_atom(i, kk)))
        coef = Sym({ind: c})
        if not dep:
            out = out + coef*n
        else:
            a, _ = T.app('SUM', (n, Sym({dep: 1})))
            out = out + coef*Sym.atom(a)
    return out


_depcache = {}


def _dep_atom(i, kk):
    a = T.atoms[i]
    key = (id(a), kk)
    if key not in _depcache:
        # a sum binds its index: only the length can depend on it
        args = a.args[:1] if a.fn == 'SUM' else a.args
        _depcache[key] = (a, i == kk or any(
            _depends(x, kk) for x in args if isinstance(x, Sym)))
    return _depcache[key][1]


def _depends(s, kk):
    return any(_dep_atom(i, kk) for i in s.atom_ids())


# -------------------------------------------------------------- the proxy

def _np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if ndmin:
        r = _np_array(x, dtype, copy, **k)
        while r.ndim < ndmin:
            r = r[None]
        return r
    dtype = dt(dtype)
    if isinstance(x, SymList):
        return SymTable(x.axes, x.base, x.name)
    if isinstance(dtype, (str, _np.dtype)) or dtype in (str, _np.str_) or \
            isinstance(x, (dates.DT, dates.Str)):
        r = dates.convert(x, dtype)
        if r is not None:
            return r
    if isinstance(x, SymTable):
        return x.snapshot() if copy else x
    if dtype is None:
        if _has_sym(x):
            if isinstance(x, _np.ndarray):
                return x.copy() if copy else x
            return objarr(x)
        if isinstance(x, (list, tuple)) and any(
                isinstance(y, (SymTable,)) for y in x):
            raise Unsupported('array of symbolic arrays')
        r = _np.array(x, **k) if copy else _np.asarray(x)
        if r.dtype.kind == 'f':
            return objarr(r)
        if r.dtype.kind == 'c':
            return objarr(r)
        return r
    if _is_float_dtype(dtype) or dtype == OBJ and _has_sym(x):
        if isinstance(x, _np.ndarray) and x.dtype == OBJ:
            if _is_float_dtype(dtype):
                for e in x.flat:
                    if not isinstance(e, Sym):
                        if coerce(e) is NotImplemented:
                            raise TypeError('could not convert to float')
            return x.copy() if copy else x
        try:
            return objarr(x) if not copy else objarr(x).copy()
        except TypeError:
            r = _np.array(x, dtype=dtype)
            return objarr(r)
    if _is_complex_dtype(dtype):
        a = objarr(x)
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape):
            out[i] = SComplex.of(a[i])
        return out
    if _is_int_dtype(dtype):
        if _has_sym(x):
            return lift1_arr(core.trunc)(x)
        return _np.array(x, dtype=dtype)
    return _np.array(x, dtype=dtype, **k)


def lift1_arr(f):
    def g(x):
        a = objarr(x)
        out = _np.empty(a.shape, dtype=object)
        for i in _np.ndindex(a.shape):
            out[i] = f(a[i])
        return out
    return g


def _shape(shape):
    if isinstance(shape, (int, Sym, _np.integer)):
        shape = (shape,)
    out = []
    for d in shape:
        if isinstance(d, Sym):
            v = d.value()
            out.append(int(v) if v is not None else d)
        else:
            out.append(int(d))
    return tuple(out)


def _fill(shape, val, dtype):
    shape = _shape(shape)
    dtype = dt(dtype)
    if dtype is not None and _is_int_dtype(dtype):
        return _np.full(shape, int(val() if callable(val) else val),
                        dtype=dtype)
    if any(isinstance(d, Sym) for d in shape):
        cs = tuple(d for d in shape if not isinstance(d, Sym))

        def base(ix):
            if not cs:
                return val()
            a = _np.empty(cs, dtype=object)
            for i in _np.ndindex(cs):
                a[i] = val()
            return a
        for d in shape:
            if isinstance(d, Sym) and not CTX.fork(d >= 0):
                raise ValueError('negative dimensions are not allowed')
        return SymTable(shape, base, 'array')
    a = _np.empty(shape, dtype=object)
    for i in _np.ndindex(shape):
        a[i] = val()
    return a


_uninit = [0]


def _fresh_uninit():
    _uninit[0] += 1
    return core.real(f'uninit!{_uninit[0]}')


def np_zeros(shape, dtype=None, **k):
    if dtype is not None and _is_complex_dtype(dtype):
        return _fill(shape, lambda: SComplex(0), None)
    return _fill(shape, lambda: Sym.const(0), dtype)


def np_ones(shape, dtype=None, **k):
    return _fill(shape, lambda: Sym.const(1), dtype)


def np_full(shape, v, dtype=None, **k):
    return _fill(shape, lambda: elem(v), dtype)


def np_empty(shape, dtype=None, **k):
    if dtype is not None and _is_complex_dtype(dtype):
        return _fill(shape, lambda: SComplex(_fresh_uninit(),
                                             _fresh_uninit()), None)
    if dtype is not None and _is_int_dtype(dtype):
        raise Unsupported('np.empty of integers')
    return _fill(shape, _fresh_uninit, None)


def np_append(a, b, axis=None):
    if isinstance(a, SymTable) or isinstance(b, SymTable):
        if axis is not None:
            raise Unsupported('np.append along an axis')

        def flat(x):
            if isinstance(x, SymTable):
                if x.ndim != 1:
                    raise Unsupported('np.append of a symbolic matrix')
                return x
            return list(objarr(x).ravel())
        t = _concat(flat(a), flat(b))
        return SymTable(t.axes, t.base, 'append')
    return _np.append(objarr(a), objarr(b), axis=axis)


def np_repeat(a, n, axis=None):
    if isinstance(n, Sym) and n.value() is None:
        x = objarr(a)
        if x.size != 1 or axis is not None:
            raise Unsupported('symbolic repetition of an array')
        if not CTX.fork(n >= 0):
            raise ValueError('repeats may not contain negative values.')
        v = x.reshape(-1)[0]
        return SymTable((n,), lambda ix: v, 'repeat')
    if isinstance(a, SymTable):
        raise Unsupported('repetition of a symbolic array')
    return _np.repeat(a, int(sym(n).value()) if isinstance(n, Sym) else n,
                      axis=axis)


def np_linspace(a, b, num=50, endpoint=True, **k):
    if k:
        raise Unsupported('options of np.linspace')
    n = sym(num).value()
    if n is None:
        m, a, b = sym(num), sym(a), sym(b)
        d = m - 1 if endpoint else m
        return SymTable((m,), lambda ix: a + (b - a)*ix[0]/d, 'linspace')
    n = int(n)
    d = n - 1 if endpoint else n
    return objarr([sym(a) + (sym(b) - sym(a))*Fraction(i, d or 1)
                   for i in range(n)])


def np_arange(*a, **k):
    if any(isinstance(x, Sym) and x.value() is None for x in a):
        if len(a) == 1:
            n = a[0]
            return SymTable((n,), lambda ix: sym(ix[0]), 'arange')
        if len(a) == 2 and k.get('step', 1) == 1 and a[0].is_int():
            lo, hi = sym(a[0]), sym(a[1])
            return SymTable((hi - lo,), lambda ix: lo + ix[0], 'arange')
        start, stop = sym(a[0]), sym(a[1])
        step = sym(a[2]) if len(a) > 2 else sym(k.get('step', 1))
        # number of elements ceil((stop-start)/step) decided by forking
        q = (stop - start)/step
        v = q.value()
        if v is None:
            raise Unsupported('arange with symbolic length')
        n = math.ceil(v)
        out = _np.empty((max(n, 0),), dtype=object)
        for i in range(n):
            out[i] = start + i*step
        return out
    a = [x.value() if isinstance(x, Sym) else x for x in a]
    if any(isinstance(x, Fraction) for x in a):
        start, stop = (0, a[0]) if len(a) == 1 else a[:2]
        step = a[2] if len(a) > 2 else 1
        n = math.ceil(Fraction(stop - start)/step)
        return objarr([Sym.const(start + i*step) for i in range(n)])
    r = _np.arange(*a, **k)
    return objarr(r) if r.dtype.kind == 'f' else r


def np_where(c, *ab):
    if not ab:
        return _np.where(tobool(c))
    a, b = ab
    if isinstance(c, SymTable):
        m, n = c, 1 - c
    else:
        c = tobool(c)
        m = n = None
    if m is not None or isinstance(a, SymTable) or isinstance(b, SymTable):
        # selection as arithmetic on the 0/1 indicator (all finite)
        if m is None:
            m = lift1(lambda v: Sym.const(1 if v else 0))(c)
            n = lift1(lambda v: Sym.const(0 if v else 1))(c)
        return _tab2(_tab2(m, a, lambda x, y: x*y),
                     _tab2(n, b, lambda x, y: x*y), lambda x, y: x + y)
    if _has_sym(a) or _has_sym(b) or True:
        a, b = objarr(a), objarr(b)
    return _np.where(c, a, b)


def np_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported('norm order')
    x = objarr(x)
    if axis is None and x.ndim > 1:
        x = x.reshape(-1)
        axis = 0
    s = _np.sum(x*x, axis=axis, keepdims=keepdims)
    return lift1(core.sqrt)(s)


def np_fft(x, n=None, axis=-1, **k):
    x = objarr(x)
    N = x.shape[axis]
    if k.get('norm') not in (None, 'backward') or n is not None and (
            sym(n).value() != N):
        raise Unsupported('np.fft.fft with these arguments')
    _plainargs('fft', k, ok=('norm',))
    x = _np.moveaxis(x, axis, -1)
    out = _np.empty(x.shape, dtype=object)
    tw = [(core.cos(core.PI()*2*k/N), core.sin(core.PI()*2*k/N))
          for k in range(N)]
    for i in _np.ndindex(x.shape[:-1]):
        for m in range(N):
            s = SComplex(0)
            for j in range(N):
                c, sn = tw[(j*m) % N]
                s = s + SComplex.of(x[i][j])*SComplex(c, -sn)
            out[i + (m,)] = s
    return _np.moveaxis(out, -1, axis)


def np_clip(x, lo, hi, **k):
    _plainargs('clip', k)

    def f(v):
        if lo is not None and bool(v < lo):
            return sym(lo)
        if hi is not None and bool(v > hi):
            return sym(hi)
        return v
    return lift1(f)(x)


def np_extremum(which):
    def f(x, axis=None, **k):
        _plainargs('an extremum', k)
        if isinstance(x, SymTable):
            raise Unsupported('extremum of a symbolic array')
        x = objarr(x)
        if x.size == 0:
            raise ValueError('zero-size array to reduction operation '
                             'minimum/maximum which has no identity')
        if axis is not None:
            raise Unsupported('extremum along an axis')
        fl = list(x.flat)
        if getattr(CTX, 'lazy_extrema', False) and len(fl) > 1:
            return lazy_extremum(which, fl)
        best = fl[0]
        for v in fl[1:]:
            if bool((v < best) if which == 'min' else (v > best)):
                best = v
        return best
    return f


def lazy_extremum(which, fl):
    """The extremum by its characterisation, without a case distinction."""
    import z3
    r = core.uf(which.upper(), *[sym(v) for v in fl])
    if r.value() is None and len(r.num) == 1:
        a = core.T.atoms[next(iter(r.num))[0][0]]
        if a.fn == which.upper() and not a.facts:
            z = [core.to_z3(sym(v)) for v in fl]
            a.facts = [(a.z3 <= v) if which == 'min' else (a.z3 >= v)
                       for v in z] + [z3.Or(*[a.z3 == v for v in z])]
    return r


def np_all(x, axis=None, **k):
    _plainargs('all', k)
    if isinstance(x, SymTable):
        raise Unsupported('all() over a symbolic array')
    return _np.all(tobool(x), axis=axis)


def np_any(x, axis=None, **k):
    _plainargs('any', k)
    if isinstance(x, SymTable):
        raise Unsupported('any() over a symbolic array')
    return _np.any(tobool(x), axis=axis)


def np_sum(x, axis=None, **k):
    if isinstance(x, SymTable):
        _plainargs('sum', k)
        return tab_sum(x, axis)
    if isinstance(x, (Sym, SComplex)):
        return x
    x = x if isinstance(x, _np.ndarray) else objarr(x)
    if x.dtype.kind == 'f':
        x = objarr(x)
    if x.size == 0 and x.dtype == OBJ:
        x = x.reshape(x.shape)
        r = _np.sum(x, axis=axis, **k)
        return objarr(r) if isinstance(r, _np.ndarray) else sym(r)
    return _np.sum(x, axis=axis, **k)


def np_mean(x, axis=None, **k):
    if not isinstance(x, SymTable):
        x = objarr(x)
    n = x.size if axis is None else x.shape[axis]
    if k.get('keepdims') or isinstance(axis, tuple):
        raise Unsupported('np.mean with these arguments')
    return np_sum(x, axis=axis)/n


def np_dot(a, b):
    if isinstance(a, SymTable) or isinstance(b, SymTable):
        if len(a.shape) != 1 or len(b.shape) != 1:
            raise Unsupported('np.dot of symbolic arrays')
        return np_sum(_tab2(a, b, lambda x, y: x*y))
    return scalar(_np.dot(objarr(a), objarr(b)))


def np_inner(a, b):
    if isinstance(a, SymTable) or isinstance(b, SymTable):
        return np_dot(a, b)
    return scalar(_np.inner(objarr(a), objarr(b)))


def np_copyto(dst, src, where=True, **k):
    if where is not True:
        raise Unsupported('np.copyto with a mask')
    dst[...] = src


def exp(x):
    if isinstance(x, SComplex):
        m = exp(x.re)
        return SComplex(m*core.cos(x.im), m*core.sin(x.im))
    if sym(x).value() == 0:
        return Sym.const(1)
    return core._uf('exp', x)


UFUNCS = ('cos', 'sin', 'tan', 'arccos', 'arcsin', 'arctan', 'radians',
          'degrees', 'deg2rad', 'rad2deg', 'cbrt', 'arctan2', 'hypot', 'sqrt',
          'square', 'exp', 'floor', 'ceil', 'rint', 'abs', 'absolute', 'fabs',
          'remainder', 'mod', 'power', 'maximum', 'minimum', 'clip', 'conj',
          'conjugate', 'equal', 'not_equal', 'less', 'less_equal', 'greater',
          'greater_equal', 'logical_and', 'logical_or', 'logical_not',
          'multiply', 'add', 'subtract', 'divide', 'true_divide', 'negative',
          'positive', 'reciprocal', 'fmax', 'fmin', 'trunc', 'sign', 'sum',
          'mean', 'matmul', 'cumsum')


class ufunc:
    """A function with the arguments out and where of NumPy."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __call__(self, *a, out=None, where=True, **k):
        if where is not True and where is not None:
            raise Unsupported(f'np.{self.name} with where')
        if isinstance(out, tuple):
            out, = out
        r = self.f(*a, **k)
        if out is None:
            return r
        if not isinstance(out, (SymTable, _np.ndarray)):
            raise TypeError('return arrays must be of ArrayType')
        if isinstance(out, _np.ndarray) and out.shape != _np.shape(r) and \
                not isinstance(r, SymTable):
            raise Unsupported(f'np.{self.name} into another shape')
        out[...] = r
        return out

    def __getattr__(self, k):
        return getattr(self.f, k)


def np_roll(a, shift, axis=None):
    return _np.roll(objarr(a) if not isinstance(a, _np.ndarray) else a,
                    shift, axis=axis)


def np_real(x):
    return lift1(lambda e: e.re if isinstance(e, SComplex) else e)(x)


def np_imag(x):
    return lift1(lambda e: e.im if isinstance(e, SComplex)
                 else Sym.const(0))(x)


def np_abs(x):
    if isinstance(x, _np.ndarray) and x.dtype != OBJ:
        return _np.abs(x)
    return lift1(abs)(x)


def np_mod(a, b):
    if not (_has_sym(a) or _has_sym(b)) and not (
            isinstance(a, float) or isinstance(b, float)):
        return _np.remainder(a, b)
    return lift2(lambda x, y: x % y)(a, b)


def np_sqrt(x):
    return lift1(core.sqrt)(x)


def cmp2(op):
    import operator
    f = getattr(operator, op)

    def g(a, b):
        if not _has_sym(a) and not _has_sym(b):
            return {'eq': _np.equal, 'ne': _np.not_equal, 'lt': _np.less,
                    'le': _np.less_equal, 'gt': _np.greater,
                    'ge': _np.greater_equal}[op](a, b)
        r = lift2(lambda x, y: bool(f(x, y)))(a, b)
        if isinstance(r, _np.ndarray):
            return r.astype(bool)
        return _np.bool_(bool(r))
    return g


def np_floor(x):
    if isinstance(x, _np.ndarray) and x.dtype.kind in 'iu':
        return objarr(x)
    return lift1(core.floor)(x)


def np_issubdtype(d, t):
    if isinstance(d, FakeDtype):
        return d.issub(t)
    t = {dates.datetime64: _np.datetime64,
         dates.timedelta64: _np.timedelta64}.get(t, t)
    return _np.issubdtype(d, t)


from . import dates                # noqa: E402
from .dates import FakeDtype        # noqa: E402


class Poly:
    class legendre:
        @staticmethod
        def leggauss(n):
            return CTX.data['leggauss'](n)


class Linalg:
    norm = staticmethod(np_norm)


class FFT:
    fft = staticmethod(np_fft)


class NP:
    """The object the verified code sees as `np`."""
    linalg = Linalg
    fft = FFT
    newaxis = None
    ndarray = _np.ndarray
    inf = math.inf

    class polynomial:
        legendre = Poly.legendre

    def __init__(self):
        d = self.__dict__
        d['array'] = _np_array
        d['asarray'] = lambda x, dtype=None, **k: _np_array(x, dtype,
                                                            False)
        d['asanyarray'] = d['asarray']
        d['ascontiguousarray'] = d['asarray']
        d['copy'] = lambda x, **k: _np_array(x)
        d['zeros'], d['ones'] = np_zeros, np_ones
        d['empty'], d['full'] = np_empty, np_full

        def like(f):
            return lambda x, dtype=None, **k: f(
                x.shape if hasattr(x, 'shape') else _np.shape(x))
        d['zeros_like'] = like(np_zeros)
        d['empty_like'] = like(np_empty)
        d['ones_like'] = like(np_ones)
        d['full_like'] = lambda x, v, **k: np_full(x.shape, v)
        d['arange'] = np_arange
        d['repeat'] = np_repeat
        d['datetime64'], d['timedelta64'] = dates.datetime64, \
            dates.timedelta64
        d['char'] = dates.Char()
        for n in ('cos', 'sin', 'tan', 'arccos', 'arcsin', 'arctan',
                  'radians', 'degrees', 'cbrt'):
            d[n] = lift1(getattr(core, n))
        d['deg2rad'], d['rad2deg'] = d['radians'], d['degrees']
        d['arctan2'] = lift2(core.arctan2)
        d['hypot'] = lift2(lambda x, y: core.sqrt(x*x + y*y))
        d['sqrt'] = np_sqrt
        d['square'] = lift1(lambda x: x*x)
        d['exp'] = lift1(exp)
        d['floor'] = np_floor
        d['ceil'] = lift1(lambda x: -core.floor(-x))
        d['rint'] = lift1(lambda x: x.rint())
        d['abs'] = d['absolute'] = d['fabs'] = np_abs
        d['remainder'] = d['mod'] = np_mod
        d['power'] = lift2(lambda x, y: x**y)
        d['maximum'] = lift2(lambda x, y: x if bool(x >= y) else y)
        d['minimum'] = lift2(lambda x, y: x if bool(x <= y) else y)
        d['clip'] = np_clip
        d['amin'] = d['min'] = np_extremum('min')
        d['amax'] = d['max'] = np_extremum('max')
        d['all'], d['any'] = np_all, np_any
        d['sum'] = np_sum
        d['where'] = np_where
        d['roll'] = np_roll
        d['real'], d['imag'] = np_real, np_imag
        d['conj'] = d['conjugate'] = lift1(lambda z: z.conjugate())
        d['isnan'] = lambda x: _np.zeros(_np.shape(x), dtype=bool) if \
            isinstance(x, _np.ndarray) else False
        d['isfinite'] = lambda x: _np.ones(_np.shape(x), dtype=bool) if \
            isinstance(x, _np.ndarray) else True
        for n, op in (('equal', 'eq'), ('not_equal', 'ne'), ('less', 'lt'),
                      ('less_equal', 'le'), ('greater', 'gt'),
                      ('greater_equal', 'ge')):
            d[n] = cmp2(op)
        d['logical_and'] = lambda a, b: _np.logical_and(tobool(a), tobool(b))
        d['logical_or'] = lambda a, b: _np.logical_or(tobool(a), tobool(b))
        d['logical_not'] = lambda a: _np.logical_not(tobool(a))
        d['multiply'] = Outer(lift2(lambda a, b: a*b))
        d['meshgrid'] = np_meshgrid
        d['add'] = lift2(lambda a, b: a + b)
        d['subtract'] = lift2(lambda a, b: a - b)
        d['divide'] = d['true_divide'] = lift2(lambda a, b: a/b)
        d['negative'] = lift1(lambda a: -a)
        d['issubdtype'] = np_issubdtype
        d['mean'] = np_mean
        d['positive'] = lift1(lambda a: a)
        d['reciprocal'] = lift1(lambda a: 1/a)
        d['float_power'] = d['power']
        d['fmax'], d['fmin'] = d['maximum'], d['minimum']
        d['trunc'] = d['fix'] = lift1(core.trunc)
        d['sign'] = lift1(lambda a: sym(1 if bool(a > 0) else
                                        -1 if bool(a < 0) else 0))
        d['count_nonzero'] = lambda x: int(_np.sum(tobool(
            x if not _has_sym(x) else cmp2('ne')(x, 0))))
        d['logical_xor'] = lambda a, b: _np.logical_xor(tobool(a), tobool(b))
        d['copyto'] = np_copyto
        d['inner'] = np_inner
        d['linspace'] = np_linspace
        d['shape'] = lambda x: x.shape if hasattr(x, 'shape') else _np.shape(x)
        d['ndim'] = lambda x: x.ndim if hasattr(x, 'ndim') else _np.ndim(x)
        d['size'] = lambda x: x.size if hasattr(x, 'size') else _np.size(x)
        d['outer'] = lambda a, b: objarr(a).reshape(-1, 1)*objarr(b).reshape(
            1, -1)
        d['cross'] = np_cross
        d['dot'] = np_dot
        d['broadcast'] = np_broadcast
        d['broadcast_to'] = np_broadcast_to
        d['einsum'] = np_einsum
        d['isclose'] = None
        d['allclose'] = None
        d['append'] = np_append
        d['transpose'] = lambda x, axes=None: x.transpose(*(
            axes or ())) if isinstance(x, SymTable) else _np.transpose(
                objarr(x) if _has_sym(x) else x, axes)
        d['reshape'] = lambda x, *sh, **k: x.reshape(*sh, **k) if isinstance(
            x, SymTable) else _np.reshape(
                objarr(x) if _has_sym(x) else x, *sh, **k)
        for n in ('stack', 'concatenate', 'vstack', 'hstack', 'column_stack'):
            d[n] = _seqfn(n)
        for n in ('isclose', 'allclose'):
            d.pop(n)
        for n in UFUNCS:
            if n in d:
                d[n] = ufunc(n, d[n])

    @property
    def pi(self):
        return core.PI()

    def __getattr__(self, n):
        if n in _PASS:
            f = getattr(_np, n)
            if callable(f) and not isinstance(f, type):
                def g(*a, **k):
                    if any(isinstance(x, SymTable) for x in a):
                        v = _flip(n, *a, **k)
                        if v is None:
                            raise Unsupported(f'np.{n} of a symbolic array')
                        return v
                    a = [objarr(x) if isinstance(x, (Sym, SComplex)) or (
                        isinstance(x, (list, tuple)) and _has_sym(x)
                        and n not in ('meshgrid',)) else x for x in a]
                    return f(*a, **k)
                return g
            return f
        raise Unsupported(f'np.{n} is not modelled')


def _flip(n, a, *rest, **k):
    """np.flip, moveaxis, swapaxes of a symbolic array (None: something
    else)."""
    if not isinstance(a, SymTable):
        return None

    def norm(axes):
        axes = axes if isinstance(axes, (tuple, list)) else (axes,)
        r = [int(x) + a.ndim if x < 0 else int(x) for x in axes]
        return r if all(0 <= x < a.ndim for x in r) and len(
            set(r)) == len(r) else None
    if n in ('moveaxis', 'swapaxes') and len(rest) == 2 and not k:
        src, dst = norm(rest[0]), norm(rest[1])
        if src is None or dst is None or len(src) != len(dst):
            return None
        if n == 'swapaxes':
            perm = list(range(a.ndim))
            perm[src[0]], perm[dst[0]] = dst[0], src[0]
        else:
            perm = [x for x in range(a.ndim) if x not in src]
            for d, x in sorted(zip(dst, src)):
                perm.insert(d, x)
        return a.transpose(*perm)
    if n not in ('flip', 'flipud', 'fliplr') or len(rest) + len(k) > 1 or \
            set(k) - {'axis'}:
        return None
    axis = rest[0] if rest else k.get('axis')
    if n != 'flip':
        if rest or k:
            return None
        axis = 0 if n == 'flipud' else 1
    rev = norm(tuple(range(a.ndim)) if axis is None else axis)
    if rev is None:
        return None
    return a[tuple(slice(None, None, -1) if x in rev else slice(None)
                   for x in range(a.ndim))]


_PASS = {'reshape', 'ravel', 'squeeze', 'expand_dims', 'transpose',
         'swapaxes', 'moveaxis', 'matmul', 'meshgrid', 'repeat', 'tile',
         'ndindex', 'atleast_3d', 'dstack', 'array_split', 'split', 'diag',
         'insert', 'delete', 'copyto', 'rot90', 'fliplr', 'flipud',
         'diagonal', 'kron', 'rollaxis', 'resize', 'atleast_1d', 'atleast_2d', 'prod', 'cumsum', 'diff',
         'flip', 'broadcast_arrays', 'float64', 'int64', 'integer',
         'floating', 'number', 'bool_', 'dtype', 'errstate', 'triu', 'tril',
         'eye', 'ix_', 'flatnonzero', 'nonzero', 'unique', 'sort', 'argsort',
         'searchsorted', 'complex128', 'vdot',
         'trace', 'identity', 'take', 'iterable', 'isscalar', 'result_type',
         'str_', 'e', 'index_exp', 's_', 'shares_memory', 'array_equal'}


class Outer:
    """A binary ufunc with its outer method."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def outer(self, a, b):
        if not isinstance(a, SymTable):
            a = objarr(a)
        if not isinstance(b, SymTable):
            b = objarr(b)
        return self.f(a[(Ellipsis,) + (None,)*b.ndim] if b.ndim else a, b)

    def __getattr__(self, k):
        raise Unsupported(f'{k} of a ufunc')


def np_meshgrid(*x, indexing='xy', **k):
    if not any(isinstance(v, SymTable) for v in x):
        return _np.meshgrid(*x, indexing=indexing, **k)
    if len(x) != 2 or k or any(v.ndim != 1 for v in x):
        raise Unsupported('np.meshgrid of these arguments')
    a, b = [v if isinstance(v, SymTable) else objarr(v) for v in x]
    if indexing == 'ij':
        b, a = np_meshgrid(b, a)
        return a, b
    z = lambda v: v*0
    return a[None, :] + z(b[:, None]), b[:, None] + z(a[None, :])


def _seqfn(n):
    def g(seq, axis=0 if n in ('stack', 'concatenate') else None, **k):
        seq = list(seq)
        if n in ('concatenate', 'hstack') and not k and axis in (0, None) \
                and any(isinstance(x, SymTable) for x in seq) and all(
                    x.ndim == 1 if hasattr(x, 'ndim') else True for x in seq):
            out = seq[0]
            for x in seq[1:]:
                out = np_append(out, x)
            return out
        seq = [objarr(x) for x in seq]
        if n in ('stack', 'concatenate'):
            return getattr(_np, n)(seq, axis=axis, **k)
        return getattr(_np, n)(seq, **k)
    return g


def np_cross(a, b, axis=-1, **k):
    _plainargs('cross', k)
    a, b = objarr(a), objarr(b)
    a, b = _np.broadcast_arrays(a, b)
    a, b = _np.moveaxis(a, axis, -1), _np.moveaxis(b, axis, -1)
    if a.shape[-1] != 3:
        raise Unsupported('cross of vectors that are not 3-D')
    out = _np.stack([a[..., 1]*b[..., 2] - a[..., 2]*b[..., 1],
                     a[..., 2]*b[..., 0] - a[..., 0]*b[..., 2],
                     a[..., 0]*b[..., 1] - a[..., 1]*b[..., 0]], axis=-1)
    return _np.moveaxis(out, -1, axis)


def _plain(x):
    if isinstance(x, SymTable):
        raise Unsupported('broadcast with a symbolic array')
    return objarr(x)


def np_broadcast(*a):
    return _np.broadcast(*[_plain(x) for x in a])


def np_broadcast_to(x, shape):
    return _np.broadcast_to(objarr(x), _shape(shape))


def np_einsum(spec, *ops, **k):
    _plainargs('einsum', k)
    ops = [objarr(o) for o in ops]
    # through explicit loops over letters; ellipsis axes broadcast
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = [c for c in ins.replace('...', '') if c.isalpha()]
        out = ('...' if '...' in ins else '') + ''.join(
            sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = [s.strip() for s in ins.split(',')]
    out = out.strip()
    dims, ell = {}, []
    for s, o in zip(ins, ops):
        core_l = s.replace('...', '')
        ne = o.ndim - len(core_l)
        if '...' in s:
            p = s.index('...')
            ell.append(o.shape[p:p + ne])
            lab = list(s[:p]) + [None]*ne + list(s[p+3:])
        else:
            if ne:
                raise ValueError('einsum: too many axes')
            ell.append(())
            lab = list(s)
        for c, d in zip(lab, o.shape):
            if c is not None:
                if dims.setdefault(c, d) != d:
                    raise ValueError('einsum: dimension mismatch')
    es = _np.broadcast_shapes(*ell)
    outl = out.replace('...', '')
    sumd = [c for c in dims if c not in outl]
    osh = [dims[c] for c in outl]
    epos = out.index('...') if '...' in out else None
    res = _np.empty(tuple(es) + tuple(osh), dtype=object)
    for ei in _np.ndindex(*es):
        for oi in _np.ndindex(*osh):
            t = Sym.const(0)
            val = dict(zip(outl, oi))
            for si in _np.ndindex(*[dims[c] for c in sumd]):
                val.update(zip(sumd, si))
                p = None
                for s, o, el in zip(ins, ops, ell):
                    idx = []
                    e2 = list(ei[len(ei) - len(el):])
                    e2 = [0 if d == 1 else x for x, d in zip(e2, el)]
                    i = 0
                    while i < len(s):
                        if s[i] == '.':
                            idx.extend(e2)
                            i += 3
                        else:
                            idx.append(val[s[i]])
                            i += 1
                    f = o[tuple(idx)]
                    p = f if p is None else p*f
                t = t + p
            res[tuple(ei) + tuple(oi)] = t
    if epos:
        raise Unsupported('einsum output layout')
    return scalar(res)
