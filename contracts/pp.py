"""scipy PPoly by its contract, for the spline models.

A piecewise polynomial is opaque: its nu-th derivative at time t inside the
break points is the symbol BV_d(nu, t).  Pieces added with `extend` keep
their coefficient tables; the value of the nu-th derivative of such a piece
at local coordinate u is XV<piece>_d(nu, u), tied to the table (whose entries
the contract of the caller inspects), or the explicit polynomial when the
order is concrete."""
from pydv import core
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, Unsupported, b_and, sym
from pydv.npx import SymTable


def NAN():
    return core.real('NaN')


def bv(prefix, d, nu, t):
    return core.uf(f'{prefix}BV_{d}', sym(nu), sym(t))


def falling(k, nu):
    r = 1
    for i in range(nu):
        r *= k - i
    return r


class Piece:
    def __init__(self, table, origin):
        self.table, self.origin = table, origin


class PPolyStub:
    """contract of scipy.interpolate.PPoly on a model (see module text)."""
    made = None           # log, set per path
    prefix = ''

    def __init__(self, c, x, extrapolate=None, axis=0):
        self.c, self.x = c, x
        self.extrapolate = True if extrapolate is None else extrapolate
        self.nu = sym(0)
        self.pre, self.post = None, None
        self.root = self
        if axis != 0:
            raise Unsupported('PPoly axis')
        if type(self).made is not None:
            type(self).made.append(self)

    @classmethod
    def construct_fast(cls, c, x, extrapolate=None, axis=0):
        return cls(c, x, extrapolate, axis)

    @property
    def trailing(self):
        return tuple(int(d) for d in self.c.shape[2:])

    def derivative(self, nu=1):
        CTX.oblige('PPoly.derivative: order >= 0', sym(nu) >= 0, 'pre')
        new = object.__new__(type(self))
        new.__dict__.update(self.__dict__)
        new.nu = self.nu + nu
        return new

    def extend(self, c, x, right=None):
        x = objarr(x)
        if x.shape != (1,):
            raise Unsupported('extend by several pieces')
        post_eq(CTX.cur, 'extension: order of the new piece',
                sym(c.shape[0]), sym(self.c.shape[0]), kind='pre')
        if c.shape[1] != 1 or tuple(c.shape[2:]) != tuple(self.c.shape[2:]):
            post_true(CTX.cur, 'extension: shape of the new piece', False,
                      kind='pre')
        t = c.snapshot() if isinstance(c, SymTable) else c.copy()
        if self.nu.value() != 0:
            raise Unsupported('extend of a derivative')
        lo, hi = sym(self.x[0]), sym(self.x[-1])
        if CTX.fork(sym(x[0]) >= hi):
            post_eq(CTX.cur, 'extension at the last break point', x[0], hi,
                    kind='pre')
            if self.post:
                raise Unsupported('extended twice')
            self.post = Piece(t, hi)
        else:
            post_eq(CTX.cur, 'extension at the first break point', x[0], lo,
                    kind='pre')
            if self.pre:
                raise Unsupported('extended twice')
            self.pre = Piece(t, lo)

    def _ext(self, which, p, d, nu, u):
        if isinstance(p.table, SymTable):
            return core.uf(f'{self.prefix}XV{which}' + ''.join(
                f'_{k}' for k in d), nu, u)
        n = p.table.shape[0]
        if nu.value() is None:
            # at most n-1 derivatives do not vanish
            for k in range(n):
                if CTX.fork(nu == k):
                    nu = sym(k)
                    break
            else:
                return Sym.const(0)
        nu = int(nu.value())
        r = Sym.const(0)
        for k in range(nu, n):
            r = r + sym(p.table[(n - 1 - k, 0) + d])*falling(k, nu)*u**(
                k - nu)
        return r

    def _value(self, t, d, nu):
        lo, hi = sym(self.x[0]), sym(self.x[-1])
        ex = self.extrapolate
        if CTX.fork(t < lo):
            if not ex:
                return NAN()
            if self.pre:
                return self._ext('pre', self.pre, d, nu, t - lo)
            return core.uf(f'{self.prefix}BXL' + ''.join(
                f'_{k}' for k in d), nu, t)
        if CTX.fork(t < hi):
            return self.base(d, nu, t)
        if self.post and (ex or not CTX.fork(t > hi)):
            return self._ext('post', self.post, d, nu, t - hi)
        if CTX.fork(t > hi):
            if not ex:
                return NAN()
            return core.uf(f'{self.prefix}BXR' + ''.join(
                f'_{k}' for k in d), nu, t)
        return self.base(d, nu, hi)

    def base(self, d, nu, t):
        n = sym(self.c.shape[0])
        nu = sym(nu)
        if CTX.fork(nu >= n):
            return Sym.const(0)
        return core.uf(f'{self.prefix}BV' + ''.join(f'_{k}' for k in d), nu,
                       sym(t))

    def __call__(self, x, nu=0, extrapolate=None):
        if extrapolate is not None:
            new = self.derivative(0)
            new.extrapolate = extrapolate
            return new(x, nu)
        x = objarr(x)
        out = np.empty(x.shape + self.trailing, dtype=object)
        for i in np.ndindex(*x.shape):
            for d in np.ndindex(*self.trailing):
                out[i + d] = self._value(sym(x[i]), d, self.nu + nu)
        return out


def base_value(prefix, d, nu, t, order):
    """Spec: nu-th derivative of component d of the model at t."""
    if CTX.fork(sym(nu) >= sym(order)):
        return Sym.const(0)
    return core.uf(f'{prefix}BV' + ''.join(f'_{k}' for k in d), sym(nu),
                   sym(t))


def make_stub(prefix=''):
    return type('PPoly', (PPolyStub,), {'made': [], 'prefix': prefix})


class SipStub:
    def __init__(self, stub, **kw):
        self.PPoly = stub
        self.__dict__.update(kw)


def load_chaos(ctx, stub=None, **stubs):
    """The module chaos with its siblings and scipy replaced."""
    from pydv import extract
    st = {'scipy.interpolate': SipStub(stub)}
    st.update(stubs)
    M = extract.load('chaos', st)
    if stub is not None:
        M.ns['sip'] = SipStub(stub)
    return M


def model_table(order, pieces, dim, name='C'):
    """Coefficients (order, pieces, dim) and break points of a model."""
    def base(ix):
        out = np.empty((dim,), dtype=object)
        for d in range(dim):
            out[d] = core.uf(f'{name}_{d}', *ix)
        return out
    if isinstance(order, Sym) or isinstance(pieces, Sym):
        if isinstance(order, Sym) and isinstance(pieces, Sym):
            return SymTable((order, pieces, dim), base, name)
    out = np.empty((order, pieces, dim), dtype=object)
    for i in np.ndindex(order, pieces, dim):
        out[i] = core.real(f'{name}_{i[0]}_{i[1]}_{i[2]}')
    return out


class Breaks(SymTable):
    """Break points: symbolic number, increasing."""

    def __init__(self, pieces, start, end):
        super().__init__((pieces + 1,), lambda ix: core.uf('brk', ix[0]),
                         'breaks')
        self.start, self.end = start, end

    def __getitem__(self, key):
        if isinstance(key, (int, np.integer)) and key in (0, -1):
            return self.start if key == 0 else self.end
        return super().__getitem__(key)

    def astype(self, *_a, **_k):
        return self

    def snapshot(self):
        return self

    copy = snapshot
