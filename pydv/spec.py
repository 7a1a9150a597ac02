"""Specification functions shared by the contracts (mathematics only)."""
from fractions import Fraction
import numpy as np
from . import core
from .core import Sym, sym, uf, b_and, b_or, CTX, sqrt, radians
from .npx import objarr


def PF(n, m, th):
    """Schmidt semi-normalised P_n^m(cos th), th in degrees."""
    return uf('P', sym(n), sym(m), sym(th))


def DF(n, m, th):
    """Derivative of PF with respect to the colatitude in radians."""
    return uf('D', sym(n), sym(m), sym(th))


def _case(*cs):
    for c, v in cs[:-1]:
        if c is True or (c is not False and CTX.fork(c)):
            return v()
    return cs[-1]()


def PN(n, m, th):
    """PF with the closed forms of degree 1 filled in."""
    k = (sym(n).value(), sym(m).value())
    if k == (0, 0):
        return Sym.const(1)
    if k == (1, 0):
        return core.cos(radians(th))
    if k == (1, 1):
        return core.sin(radians(th))
    return PF(n, m, th)


def P_def(n, m, th):
    """Defining recurrence of the Schmidt functions (DLMF 14.10.3 with the
    Schmidt factor; see lemmas in contracts/p02.py)."""
    n, m = sym(n), sym(m)
    c, s = core.cos(radians(th)), core.sin(radians(th))
    return _case(
        (b_and(n == 0, m == 0), lambda: Sym.const(1)),
        (b_and(n == 1, m == 1), lambda: s),
        (n == m, lambda: s*sqrt(2*n - 1)*PF(n - 1, n - 1, th)/sqrt(2*n)),
        (n == m + 1, lambda: c*sqrt(2*m + 1)*PF(m, m, th)),
        lambda: ((2*n - 1)*c*PF(n - 1, m, th)
                 - sqrt((n - 1)*(n - 1) - m*m)*PF(n - 2, m, th)
                 )/sqrt(n*n - m*m))


def D_def(n, m, th):
    """Ladder relation of the colatitude derivative (lemma in p02)."""
    n, m = sym(n), sym(m)
    return _case(
        (m == 0, lambda: -sqrt((n*n + n)/2)*PF(n, 1, th)),
        (b_and(m == 1, n == 1), lambda: PF(1, 0, th)),
        (m == 1, lambda: (sqrt(2*(n*n + n))*PF(n, 0, th)
                          - sqrt(n*n + n - 2)*PF(n, 2, th))/2),
        (m == n, lambda: sqrt(2*n)*PF(n, n - 1, th)/2),
        lambda: (sqrt((n + m)*(n - m + 1))*PF(n, m - 1, th)
                 - sqrt((n + m + 1)*(n - m))*PF(n, m + 1, th))/2)


def grid(f, *arrs):
    """Elementwise over broadcast object arrays (scalars stay scalars)."""
    arrs = [objarr(a) for a in arrs]
    b = np.broadcast(*arrs) if len(arrs) > 1 else arrs[0]
    if b.shape == ():
        return f(*[a[()] for a in arrs])
    out = np.empty(b.shape, dtype=object)
    bb = [np.broadcast_to(a, b.shape) for a in arrs]
    for i in np.ndindex(b.shape):
        out[i] = f(*[a[i] for a in bb])
    return out


class LegendreFamily:
    """Invariants of loops that fill the table
    T[n, m] = P(n, m), T[m, n+1] = D(n, m)."""

    def __init__(self, th):
        self.th = th

    def terms(self, loop):
        return []

    def value(self, ix):
        a, b = sym(ix[0]), sym(ix[1])
        if CTX.fork(b <= a):
            return grid(lambda t: PF(a, b, t), self.th)
        return grid(lambda t: DF(b - 1, a, t), self.th)

    def definition(self, ix):
        a, b = sym(ix[0]), sym(ix[1])
        if CTX.fork(b <= a):
            return grid(lambda t: P_def(a, b, t), self.th)
        return grid(lambda t: D_def(b - 1, a, t), self.th)

    def tables(self, loop):
        lower = lambda a, b: b <= a
        one = lambda a, b: b_and(a == 1, b == 1)

        def der(n):
            return lambda a, b: b_or(b <= a, b_and(b >= 2, b - 1 < n))
        if loop.depth == 0:
            yield 'P complete, D rows below', (
                lambda i, s: der(i)(s[0], s[1])), self
            yield 'P columns left of m', (
                lambda i, s: b_and(s[1] <= s[0], b_or(
                    s[1] < i, b_and(s[0] == i, s[1] == i),
                    one(*s)))), self
            yield 'P rows below n', (
                lambda i, s: b_and(s[1] <= s[0], s[0] < i)), self
            yield 'P rows below n, D rows below n', (
                lambda i, s: b_or(b_and(s[1] <= s[0], s[0] < i),
                                  b_and(s[1] >= 2, s[0] < s[1],
                                        s[1] - 1 < i))), self
            yield 'P diagonal', (
                lambda i, s: b_and(s[0] == s[1], s[0] < i)), self
        elif loop.depth == 1:
            o = loop.outer[0]
            yield 'P complete, D rows below n and left of m', (
                lambda i, s: b_or(s[1] <= s[0], b_and(
                    s[1] >= 2, b_or(s[1] - 1 < o, b_and(
                        s[1] - 1 == o, s[0] < i))))), self
            yield 'P columns left of m and rows below n', (
                lambda i, s: b_and(s[1] <= s[0], b_or(
                    s[1] < o, b_and(s[1] == o, s[0] < i),
                    b_and(s[0] == o, s[1] == o),
                    b_and(s[0] == o + 1, s[1] == o + 1), one(*s)))), self
            yield 'P columns left of m and rows below n (b)', (
                lambda i, s: b_and(s[1] <= s[0], b_or(
                    s[1] < o, b_and(s[1] == o, s[0] < i),
                    b_and(s[0] == o, s[1] == o), one(*s)))), self
            yield 'P rows below n and columns left of m', (
                lambda i, s: b_and(s[1] <= s[0], b_or(
                    s[0] < o, b_and(s[0] == o, s[1] < i)))), self


# ---- closed forms (Rodrigues) used by the bounded stand-ins --------------

_Q = {}


def _leg_poly(n, m):
    """Coefficients (power -> Fraction) of d^m/dx^m P_n(x)."""
    if (n, m) in _Q:
        return _Q[n, m]
    if m == 0:
        # P_n = 2^-n sum_k (-1)^k C(n,k) C(2n-2k,n) x^(n-2k)
        from math import comb
        r = {n - 2*k: Fraction((-1)**k*comb(n, k)*comb(2*n - 2*k, n), 2**n)
             for k in range(n//2 + 1)}
    else:
        r = {p - 1: c*p for p, c in _leg_poly(n, m - 1).items() if p > 0}
    _Q[n, m] = r
    return r


def _schmidt2(n, m):
    from math import factorial
    if m == 0:
        return Fraction(1)
    return Fraction(2*factorial(n - m), factorial(n + m))


def P_expl(n, m, c, s):
    """Schmidt P_n^m from Rodrigues' formula, c = cos, s = sin."""
    if m < 0 or m > n:
        return Sym.const(0)
    r = Sym.const(0)
    for p, k in _leg_poly(n, m).items():
        r = r + Sym.const(k)*c**p
    return sqrt(Sym.const(_schmidt2(n, m)))*s**m*r


def D_expl(n, m, c, s):
    """dP_n^m/dtheta by differentiating the closed form."""
    r = Sym.const(0)
    q = _leg_poly(n, m)
    for p, k in q.items():
        if m:
            r = r + Sym.const(k*m)*s**(m - 1)*c**(p + 1)
        if p:
            r = r - Sym.const(k*p)*s**(m + 1)*c**(p - 1)
    return sqrt(Sym.const(_schmidt2(n, m)))*r


def D_over_s(n, m, c, s):
    """P_n^m/sin(theta) for m >= 1 (a polynomial, defined at the poles)."""
    r = Sym.const(0)
    for p, k in _leg_poly(n, m).items():
        r = r + Sym.const(k)*c**p
    return sqrt(Sym.const(_schmidt2(n, m)))*s**(m - 1)*r


# ---- partial sums as loop invariants -------------------------------------

class Acc:
    """base + sum of inc over [start, i) as a function symbol.

    at(i) is the symbol, entry(lo) its value at the start (0), step(i) one
    unfolding of its definition."""

    def __init__(self, name, start, inc, shape=(), base=None, args=()):
        self.name, self.start, self.inc = name, start, inc
        self.shape, self.base, self.args = shape, base, tuple(args)

    def sym(self, i):
        """The sum without the base."""
        def one(ix):
            return uf(self.name + ''.join(f'_{k}' for k in ix), *self.args,
                      sym(i))
        if self.shape == ():
            return one(())
        out = np.empty(self.shape, dtype=object)
        for ix in np.ndindex(*self.shape):
            out[ix] = one(ix)
        return out

    def _add(self, x):
        return x if self.base is None else self.base + x

    def at(self, i):
        return self._add(self.sym(i))

    def entry(self, lo):
        if (sym(lo) - sym(self.start)).value() != 0:
            return None
        z = Sym.const(0)
        if self.shape:
            z = np.full(self.shape, z, dtype=object)
        return self._add(z)

    def step(self, i):
        inc = self.inc(sym(i) - 1)
        return self._add(self.sym(sym(i) - 1) + inc)


class FromZero:
    """The sum over orders of an Acc with start 1, for a loop that also
    goes through order zero; before is the value before that."""

    def __init__(self, acc, before):
        self.acc, self.before = acc, before

    def at(self, i):
        if CTX.fork(sym(i) == 0):
            return self.before
        if CTX.fork(sym(i) == 1):
            return self.acc.entry(1)
        return self.acc.at(i)

    def entry(self, lo):
        return self.before if sym(lo).value() == 0 else None

    def step(self, i):
        if CTX.fork(sym(i) == 1):
            return self.acc.entry(1)
        if CTX.fork(sym(i) == 2):
            return self.acc.entry(1) + self.acc.inc(sym(1))
        return self.acc.step(i)


class FieldFamily:
    """Invariants of the degree/order loops of field synthesis.

    x, th, ph: radius/reference, colatitude, longitude (arrays of the output
    shape); g(num): array of coefficients; setup per path by the contract."""

    def __init__(self, source, x, th, ph, g, nmin, nmax, mmax):
        self.source, self.nmin, self.nmax, self.mmax = source, nmin, nmax, mmax
        self.x, self.th, self.ph = x, th, ph
        self.shape = np.shape(th) if isinstance(th, np.ndarray) else ()
        self.g = g

    def radial(self, n, x):
        if self.source == 'internal':
            return core.pow_sym(x, -(sym(n) + 2))
        return core.pow_sym(x, sym(n) - 1)

    def cnt(self, n):
        """Number of coefficients of degrees nmin .. n-1."""
        n, nmin, M = sym(n), sym(self.nmin), sym(self.mmax)
        if CTX.fork(M >= nmin):
            if CTX.fork(n - 1 <= M):
                return n*n - nmin*nmin
            return (M + 1)*(M + 1) - nmin*nmin + (n - 1 - M)*(2*M + 1)
        return (n - nmin)*(2*M + 1)

    def mtop(self, n):
        n, M = sym(n), sym(self.mmax)
        return n if CTX.fork(n < M) else M

    # contribution of (n, m) to the three components at every point
    def term(self, n, m, comp):
        num = self.cnt(n) + (0 if isinstance(m, int) and m == 0 else 2*sym(m) - 1)
        zonal = isinstance(m, int) and m == 0
        g = self.g(num)
        h = None if zonal else self.g(num + 1)
        return self.basis(n, m, comp, g, h)

    def basis(self, n, m, comp, g, h):
        n = sym(n)
        zonal = h is None

        def one(x, t, p, gg, hh):
            r = self.radial(n, x)
            if comp == 'r':
                f = (n + 1) if self.source == 'internal' else -n
                Y = PN(n, m, t)*(gg if zonal else (
                    gg*core.cos(m*core.radians(p))
                    + hh*core.sin(m*core.radians(p))))
                return f*r*Y
            if comp == 't':
                return -r*DF(n, m, t)*(gg if zonal else (
                    gg*core.cos(m*core.radians(p))
                    + hh*core.sin(m*core.radians(p))))
            if zonal:
                return Sym.const(0)
            return r*m*over_sin(n, m, t)*(
                gg*core.sin(m*core.radians(p))
                - hh*core.cos(m*core.radians(p)))
        z = Sym.const(0)
        return grid(one, self.x, self.th, self.ph, g, z if h is None else h)

    def inner(self, n, comp):
        return Acc('IN' + comp, 1, lambda m: self.term(n, m, comp),
                   self.shape, self.outer(comp).sym(n)
                   + self.term(n, 0, comp), (n,))

    def outer(self, comp):
        def inc(n):
            M = self.mtop(n)
            r = self.term(n, 0, comp)
            if CTX.fork(M >= 1):
                r = r + Acc('IN' + comp, 1, None, self.shape,
                            args=(n,)).sym(M + 1)
            return r
        return Acc('S' + comp, self.nmin, inc, self.shape)

    def result(self, comp):
        return self.outer(comp).sym(sym(self.nmax) + 1)

    def terms(self, loop):
        if loop.depth == 0:
            for c in 'rtp' if self.g else '':
                yield f'sum over degrees ({c})', self.outer(c)
            yield 'radial power', lambda n: grid(
                lambda x: self.radial(n, x), self.x0)
            yield 'number of coefficients', self.cnt
        elif loop.depth == 1:
            n = loop.outer[0]
            for c in 'rtp' if self.g else '':
                acc = self.inner(n, c)
                if self.zero(loop):
                    acc = FromZero(acc, self.outer(c).sym(n))
                yield f'sum over orders ({c})', acc
            yield 'number of coefficients', (
                lambda m: self.cnt(n) + self.off(loop, m))

    def zero(self, loop):
        """Does the loop over orders start at order zero?"""
        return sym(loop.rng.lo).value() == 0

    def off(self, loop, m):
        """Number of coefficients of orders below m."""
        if self.zero(loop) and CTX.fork(sym(m) == 0):
            return sym(0)
        return 2*sym(m) - 1

    # columns of the design matrices: COL(j) is defined by
    # COL(cnt(n)) = zonal column, COL(cnt(n)+2m-1), COL(cnt(n)+2m) the others
    def column(self, j, comp):
        j = sym(j)
        if self.shape == ():
            return uf('COL' + comp, j)
        out = np.empty(self.shape, dtype=object)
        for ix in np.ndindex(*self.shape):
            out[ix] = uf('COL' + comp + ''.join(f'_{k}' for k in ix), j)
        return out

    def unit(self, n, m, comp, which):
        one, nul = Sym.const(1), Sym.const(0)
        if isinstance(m, int) and m == 0:
            return self.basis(n, 0, comp, one, None)
        return self.basis(n, m, comp, one if which == 'cos' else nul,
                          one if which == 'sin' else nul)

    def tables(self, loop):
        if loop.depth > 1:
            return
        fam = self
        for comp in 'rtp':
            class Val:
                timed = True

                def __init__(self, comp):
                    self.comp = comp

                def bound(self, i):
                    if loop.depth == 0:
                        return fam.cnt(i)
                    return fam.cnt(loop.outer[0]) + fam.off(loop, i)

                def value(self, ix, i):
                    j = sym(ix[0])
                    if CTX.fork(j < self.bound(i)):
                        return fam.column(j, self.comp)
                    z = Sym.const(0)
                    return z if fam.shape == () else np.full(
                        fam.shape, z, dtype=object)

                def definition(self, ix):
                    j = sym(ix[0])
                    n = loop.outer[0] if loop.depth else loop.index
                    c = fam.cnt(n)
                    if CTX.fork(j == c):
                        return fam.unit(n, 0, self.comp, 'cos')
                    if loop.depth:
                        m = loop.index
                        if fam.zero(loop) and CTX.fork(m == 0):
                            return fam.column(j, self.comp)
                        if CTX.fork(j == c + 2*m - 1):
                            return fam.unit(n, m, self.comp, 'cos')
                        if CTX.fork(j == c + 2*m):
                            return fam.unit(n, m, self.comp, 'sin')
                    return fam.column(j, self.comp)
            yield (f'columns ({comp}) of the coefficients so far',
                   lambda i, s: True, Val(comp))


def over_sin(n, m, t):
    """P_n^m/sin theta, with its limit D_n^m cos theta at the poles."""
    if CTX.fork(b_or(sym(t) == 0, sym(t) == 180)):
        return DF(n, m, t)*core.cos(core.radians(t))
    return PN(n, m, t)/core.sin(core.radians(t))


def legendre_contract(ctx, calls=None):
    """Stand-in for legendre_poly by its contract (property P02)."""
    from .npx import SymTable

    def legendre_poly(nmax, theta):
        th = theta
        if isinstance(th, np.ndarray) and th.shape == ():
            th = th[()]
        for t in objarr(th).flat:
            core.CTX.cur.oblige('legendre_poly: 0 <= theta <= 180',
                                b_and(sym(t) >= 0, sym(t) <= 180), 'pre')
        core.CTX.cur.oblige('legendre_poly: nmax >= 1', sym(nmax) >= 1,
                            'pre')
        fam = LegendreFamily(th)

        def base(ix):
            a, b = sym(ix[0]), sym(ix[1])
            if (a.value(), b.value()) in ((0, 0), (1, 0), (1, 1)):
                return grid(lambda t: PN(a, b, t), th)
            v = fam.value(ix)
            if isinstance(v, np.ndarray):
                return v.copy()
            return v
        shape = np.shape(th) if isinstance(th, np.ndarray) else ()
        N = sym(nmax)
        if calls is not None:
            calls.append((nmax, th))
        if N.value() is not None:
            N = int(N.value())
            out = np.empty((N + 1, N + 2) + shape, dtype=object)
            for a in range(N + 1):
                for b in range(N + 2):
                    if b > a and b < 2:
                        out[a, b] = npx_fresh()
                    else:
                        out[a, b] = base((a, b))
            return out
        return SymTable((N + 1, N + 2) + shape, base, 'Legendre table')
    return legendre_poly


def npx_fresh():
    from .npx import _fresh_uninit
    return _fresh_uninit()
