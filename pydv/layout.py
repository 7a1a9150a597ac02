"""Arrays of symbolic sizes that are only rearranged (reshape, transpose,
squeeze, ravel, stack, ...): every dimension is a row-major product of atomic
axes, an element is a function of the atomic indices.

Rearrangements regroup the atomic axes; a regrouping that the sizes do not
prove row-major equal raises Unsupported.  `squeeze` splits the path on the
sizes that may be one."""
import itertools

import numpy as np

from . import core
from .core import CTX, Sym, Unsupported, sym

_count = itertools.count()


class Axis:
    """One atomic axis; `size` a Sym (symbolic) or an int."""

    def __init__(self, size, name=''):
        v = sym(size).value()
        self.size = int(v) if v is not None else size
        self.name = name or f'axis{next(_count)}'

    @property
    def concrete(self):
        return isinstance(self.size, int)

    def is_one(self, split=False):
        if self.concrete:
            return self.size == 1
        b = sym(self.size) == 1
        return CTX.cur.fork(b) if split else CTX.cur.decide(b) is True


def same_size(a, b):
    """True if the path proves that the sizes are equal."""
    d = (sym(a) - sym(b)).value()
    if d is not None:
        return d == 0
    return CTX.cur.decide(sym(a) == sym(b)) is True


def product(axes):
    r = sym(1)
    for a in axes:
        r = r*sym(a.size)
    v = r.value()
    return int(v) if v is not None else r


class LArr:
    """groups: per dimension the atomic axes; fn({axis: index}) -> element."""

    def __init__(self, groups, fn):
        self.groups = [[a for a in g if not a.is_one()] for g in groups]
        self.fn = fn

    __class__ = property(lambda s: np.ndarray)
    __array_ufunc__ = None

    # --- attributes
    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def ndim(self):
        return len(self.groups)

    @property
    def shape(self):
        return tuple(product(g) for g in self.groups)

    @property
    def size(self):
        return product(self.flat())

    @property
    def T(self):
        return self.transpose()

    def flat(self):
        return [a for g in self.groups for a in g]

    def __len__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported('len of an array of symbolic size')
        return n

    def __bool__(self):
        raise Unsupported('truth value of an array')

    # --- rearrangements
    def transpose(self, *perm):
        if perm:
            raise Unsupported('transpose with axes')
        return LArr(self.groups[::-1], self.fn)

    def ravel(self):
        return LArr([self.flat()], self.fn)

    flatten = ravel

    def copy(self):
        return LArr(self.groups, self.fn)

    def astype(self, dtype=float, **k):
        if not (dtype is float or getattr(dtype, 'kind', None) is float):
            raise Unsupported(f'astype {dtype}')
        return self.copy()

    def squeeze(self):
        out = []
        for g in self.groups:
            g = [a for a in g if not a.is_one(split=True)]
            if g:
                out.append(g)
        return LArr(out, self.fn)

    def item(self):
        if all(a.is_one(split=True) for a in self.flat()):
            return self.fn({})
        raise ValueError('can only convert an array of size 1')

    def reshape(self, *shape, **k):
        if k:
            raise Unsupported('reshape order')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        axes = [a for a in self.flat() if not a.is_one()]

        def rest(s):
            return isinstance(s, (int, np.integer)) and s == -1
        cut = [i for i, s in enumerate(shape) if rest(s)]
        if len(cut) > 1:
            raise Unsupported('reshape')
        head = shape[:cut[0]] if cut else shape
        tail = shape[cut[0] + 1:] if cut else ()

        def take(axes, s):
            if same_size(s, 1):
                return [], axes
            for n in range(1, len(axes) + 1):
                if same_size(product(axes[:n]), s):
                    return axes[:n], axes[n:]
            raise Unsupported(f'reshape across the axes {[x.size for x in axes]} {s!r}')
        groups = []
        for s in head:
            g, axes = take(axes, s)
            groups.append(g)
        if cut:
            end = []
            axes = axes[::-1]
            for s in tail[::-1]:
                g, axes = take(axes, s)
                end.append(g[::-1])
            groups.append(axes[::-1])
            groups += end[::-1]
        elif axes:
            raise Unsupported('reshape to another size')
        return LArr(groups, self.fn)

    def __getitem__(self, key):
        if isinstance(key, list):
            # chosen elements of a vector
            if self.ndim != 1:
                raise Unsupported('list index')
            out = np.empty((len(key),), dtype=object)
            for i, k in enumerate(key):
                out[i] = self[k]
            return out
        key = key if isinstance(key, tuple) else (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            n = self.ndim - sum(k is not None for k in key) + 1
            key = key[:i] + (slice(None),)*n + key[i + 1:]
        groups, fix = [], {}
        pos = 0
        for k in key:
            if k is None:
                groups.append([])
                continue
            if pos >= self.ndim:
                raise IndexError('too many indices for array')
            g = self.groups[pos]
            pos += 1
            if isinstance(k, slice):
                groups.append(self._slice(g, k))
                continue
            if not isinstance(k, (int, np.integer, Sym)):
                raise Unsupported(f'index {k!r}')
            if not g:
                if same_size(k, 0) or same_size(k, -1):
                    continue
                raise Unsupported('index of a dimension of size one')
            if len(g) > 1 or isinstance(k, Sym):
                raise Unsupported('index of a product of axes')
            a, n = g[0], sym(g[0].size)
            i = sym(int(k)) if k >= 0 else n + int(k)
            ok = CTX.cur.decide(core.b_and(i >= 0, i < n))
            if ok is not True:
                raise Unsupported(f'index not proved inside the array {i} {n} {g}')
            v = i.value()
            fix[a] = int(v) if v is not None else i
        groups += self.groups[pos:]
        fn = self.fn
        if fix:
            def fn(ix, old=self.fn):
                return old({**ix, **fix})
        if not groups:
            return fn({})
        return LArr(groups, fn)

    def _slice(self, g, s):
        if s.step is not None:
            raise Unsupported('slice with a step')
        n = product(g)
        if s.start is not None and not same_size(s.start, 0) and \
                not same_size(sym(s.start) + sym(n), 0):
            raise Unsupported('slice')
        if s.stop is not None and not same_size(s.stop, n):
            raise Unsupported('slice')
        return g

    def __setitem__(self, key, value):
        raise Unsupported('assignment to an array of symbolic sizes')

    def __iter__(self):
        raise Unsupported('iteration over an array of symbolic size')

    def _no(self, *a, **k):
        raise Unsupported('arithmetic on an array of symbolic sizes')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = __pow__ = __neg__ = __abs__ = _no
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no
    __hash__ = object.__hash__


def is_layout(x):
    return type(x) is LArr


def array(name, *sizes):
    """Model array with its own symbols as elements."""
    axes = [Axis(s, f'{name}{k}') for k, s in enumerate(sizes)]

    def fn(ix):
        return core.uf(name, *[sym(ix.get(a, 0)) for a in axes])
    return LArr([[a] for a in axes], fn)


def stack(arrays, axis):
    """np.stack / np.concatenate along a new trailing axis."""
    first = arrays[0]
    for x in arrays[1:]:
        if not aligned(first, x):
            raise Unsupported('stack of arrays of other shapes')
    new = Axis(len(arrays))
    flat = [x.flat() for x in arrays]

    def fn(ix):
        k = ix.get(new, 0)
        if isinstance(k, Sym):
            k = int(k.value())
        return arrays[k].fn({b: ix[a] for a, b in zip(flat[0], flat[k])
                             if a in ix})
    if axis not in (-1, first.ndim):
        raise Unsupported('stack along another axis')
    return LArr(first.groups + [[new]], fn)


def aligned(x, y):
    """The dimensions consist of atomic axes of equal sizes."""
    if x.ndim != y.ndim:
        return False
    for g, h in zip(x.groups, y.groups):
        g = [a for a in g if not a.is_one()]
        h = [a for a in h if not a.is_one()]
        if len(g) != len(h) or not all(same_size(a.size, b.size)
                                       for a, b in zip(g, h)):
            return False
    return True


def elements(x, y):
    """Pairs of elements at the same arbitrary index of aligned arrays."""
    X = [a for a in x.flat() if not a.is_one()]
    Y = [a for a in y.flat() if not a.is_one()]
    ranges = []
    for a in X:
        if a.concrete:
            ranges.append(range(a.size))
        else:
            i = core.integer(f'i_{a.name}', lo=0)
            CTX.cur.assume(i >= 0)
            CTX.cur.assume(i < sym(a.size))
            ranges.append([i])
    for ix in itertools.product(*ranges):
        yield x.fn(dict(zip(X, ix))), y.fn(dict(zip(Y, ix)))


def install(ns_np):
    """numpy functions on arrays of symbolic sizes."""
    def over(name, f):
        old = getattr(ns_np, name)

        def g(x, *a, **k):
            items = x if isinstance(x, (list, tuple)) and \
                name in ('stack', 'concatenate', 'column_stack') else [x]
            if not any(is_layout(y) for y in items):
                return old(x, *a, **k)
            if not all(is_layout(y) for y in items):
                raise Unsupported(f'np.{name} of mixed arrays')
            return f(x, *a, **k)
        setattr(ns_np, name, g)

    def isfloat(d):
        return d is None or d is float or getattr(d, 'kind', None) is float

    def conv(x, dtype=None, **k):
        if not isfloat(dtype) or k:
            raise Unsupported('np.array with these arguments')
        return x.copy()

    def append(x, y, axis=None):
        if axis is not None or not (is_layout(x) and is_layout(y)):
            raise Unsupported('np.append')
        if not all(a.is_one() for a in x.flat() + y.flat()):
            raise Unsupported('np.append')
        out = np.empty((2,), dtype=object)
        out[0], out[1] = x.fn({}), y.fn({})
        return out

    def concat(xs, axis=0):
        if axis not in (-1, xs[0].ndim - 1) or any(x.groups[-1] for x in xs):
            raise Unsupported('np.concatenate')
        return stack([LArr(x.groups[:-1], x.fn) for x in xs], -1)

    def expand(x, axis):
        if axis == 0:
            return LArr([[]] + x.groups, x.fn)
        if axis in (-1, x.ndim):
            return LArr(x.groups + [[]], x.fn)
        raise Unsupported('np.expand_dims')

    def plain(x, *a, **k):
        if a or k:
            raise Unsupported('arguments of a numpy function')
        return x

    for n in ('asarray', 'array'):
        over(n, conv)
    over('copy', lambda x: x.copy())
    over('ravel', lambda x: x.ravel())
    over('transpose', lambda x: x.transpose())
    over('squeeze', lambda x: x.squeeze())
    over('reshape', lambda x, s: x.reshape(s))
    over('append', append)
    over('stack', lambda xs, axis=0: stack(list(xs), axis))
    over('concatenate', concat)
    over('column_stack', lambda xs: stack([x if x.ndim == 1 else _no()
                                           for x in xs], -1))
    over('expand_dims', expand)
    over('mean', lambda x: core.real(f'mean{next(_count)}'))
    over('size', lambda x: x.size)
    over('ndim', lambda x: x.ndim)
    over('shape', lambda x: x.shape)


def _no():
    raise Unsupported('layout')
