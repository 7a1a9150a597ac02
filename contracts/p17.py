"""P17: harmonic analysis and rotation of Gauss coefficients.

The quadrature of the code is specified by its kernel: every coefficient is
the Gauss-Legendre sum over the colatitude nodes of the discrete Fourier
coefficient in longitude times the Schmidt function and the weight, and the
grid satisfies the inequalities under which this sum is the integral over the
sphere for all functions of the stated band limit."""
import types
import numpy as np
from pydv import core, extract, npx, spec
from pydv.contract import *       # noqa
from pydv.core import (CTX, Sym, SComplex, T, Unsupported, b_and, b_or,
                       sym)
from pydv.npx import SymTable
from pydv.registry import Registry

R = Registry('P17')
TRUSTED = ['numpy.polynomial.legendre.leggauss(N): nodes and weights that '
           'integrate polynomials of degree 2N-1 exactly',
           'numpy.fft.fft: the discrete Fourier transform along an axis; '
           'numpy.argsort: a permutation',
           'discrete orthogonality: with N equispaced longitudes, orders '
           'm + l < N are separated; with 2N-1 >= n+k the Gauss sum of '
           'P_n^m P_k^m is their integral, which is orthogonal with norm '
           '2/(2n+1) (m = 0) and 4/(2n+1) (m > 0)',
           'a rotated spherical harmonic of degree k is a combination of the '
           'harmonics of degree k (so that the quadrature gives a '
           'block-diagonal orthogonal matrix, the identity for the '
           'geographic base vectors)',
           'the inverse of the discrete Fourier transform of a real '
           'sequence',
           'legendre_poly by contract (P02), geo_to_base by contract (P12), '
           'basevectors_gsm/sm by contract (P11)']
ASSUMPTIONS = ['nmax, kmax >= 1', 'representative shapes of the time axes',
               'the function analysed is evaluated elementwise and keeps '
               'the shape of its arguments']
FA = ['coordinate_utils.sh_analysis']
FR = ['coordinate_utils.rotate_gauss']
FF = ['coordinate_utils.rotate_gauss_fft']
KF = '@kf'


# ------------------------------------------------------------- the contracts

def dft(n, m, f):
    """sum_i f(i) exp(-2 pi i m i/n), i = 0 .. n-1, as symbols of f."""
    body = f(core.integer(KF))
    z = SComplex.of(body)
    re = core.uf('DFTC', sym(n), sym(m), z.re)
    im = -core.uf('DFTS', sym(n), sym(m), z.re)
    if z.im.value() == 0:
        return SComplex(re, im)
    return SComplex(re + core.uf('DFTS', sym(n), sym(m), z.im),
                    im + core.uf('DFTC', sym(n), sym(m), z.im))


def dft_sum(n, m, vals):
    """The same for n given values."""
    s = SComplex(0)
    for i, v in enumerate(vals):
        a = core.PI()*2*m*i/n
        s = s + SComplex.of(v)*SComplex(core.cos(a), -core.sin(a))
    return s


def _lim(a, lo, hi):
    a.facts = [a.z3 > lo, a.z3 < hi]


def gx(n, j):
    return core._uf('gx', n, j, facts=lambda a: _lim(a, -1, 1))


def gw(n, j):
    return core.uf('gw', sym(n), sym(j))


def node(n, j):
    """Colatitude of a node in degrees."""
    return core.degrees(core.arccos(gx(n, j)))


class Grid:
    """Contracts of leggauss and fft; remembers the sizes."""

    def __init__(self):
        self.nt = []
        self.np = None

    def size(self, N):
        """Number of longitudes: that of every transform."""
        if self.np is None:
            self.np = sym(N)
        else:
            post_eq(CTX.cur, 'transform over the longitudes of the grid',
                    sym(N), self.np, refutable=False)

    def grid(self, a):
        sh = [sym(d) for d in a.shape]
        if len(sh) == 2 and self.nt and self.np is None:
            self.size(sh[1] if (sh[0] - self.nt[0]).value() == 0 else sh[0])

    def leggauss(self, deg):
        n = sym(deg)
        CTX.oblige('leggauss: a positive number of nodes', b_and(
            n >= 1, n.is_int()), 'pre')
        self.nt.append(n)
        if n.value() is not None:
            k = range(int(n.value()))
            return (objarr([gx(n, j) for j in k]),
                    objarr([gw(n, j) for j in k]))
        return (SymTable((n,), lambda ix: gx(n, ix[0]), 'nodes'),
                SymTable((n,), lambda ix: gw(n, ix[0]), 'weights'))

    def fft(self, a, n=None, axis=-1, norm=None):
        if n is not None or norm not in (None, 'backward'):
            raise Unsupported('options of np.fft.fft')
        if not isinstance(a, SymTable):
            a = objarr(a)
            N = a.shape[axis]
            self.size(N)
            b = np.moveaxis(a, axis, -1)
            out = np.empty(b.shape, dtype=object)
            for i in np.ndindex(*b.shape):
                out[i] = dft_sum(N, i[-1], b[i[:-1]])
            return np.moveaxis(out, -1, axis)
        axis = int(axis) % a.ndim
        N = a.axes[axis]
        self.size(N)
        src = a.snapshot()
        if axis not in a.sym:
            raise Unsupported('fft along a concrete axis')
        p = a.sym.index(axis)

        def base(ix):
            def get(e):
                return lambda i: e(src.read(
                    tuple(ix[:p]) + (i,) + tuple(ix[p + 1:]), check=False))
            if not src.cshape:
                return dft(N, ix[p], get(lambda v: v))
            out = np.empty(src.cshape, dtype=object)
            for c in np.ndindex(*src.cshape):
                out[c] = dft(N, ix[p], get(lambda v, c=c: v[c]))
            return out
        return SymTable(a.axes, base, 'fft')

    def install(self, M):
        npp = M.ns['np']
        npp.polynomial = types.SimpleNamespace(
            legendre=types.SimpleNamespace(leggauss=self.leggauss))
        npp.fft = types.SimpleNamespace(fft=self.fft)


def legendre(nmax, theta):
    """legendre_poly by contract (P02) for arrays of symbolic size."""
    if not isinstance(theta, SymTable):
        return spec.legendre_contract(CTX.cur)(nmax, theta)
    th = theta.snapshot()
    N = sym(nmax)
    CTX.oblige('legendre_poly: nmax >= 1', N >= 1, 'pre')
    j = [core.integer(f'@t{k}', lo=0) for k in range(th.ndim)]
    v = sym(th.read(tuple(j), check=False))
    CTX.oblige('legendre_poly: 0 <= theta <= 180',
               b_and(v >= 0, v <= 180), 'pre')

    def base(ix):
        a, b = sym(ix[0]), sym(ix[1])
        t = th.read(tuple(ix[2:]), check=False)
        if CTX.fork(b <= a):
            return spec.PN(a, b, t)
        return spec.DF(b - 1, a, t)
    return SymTable((N + 1, N + 2) + tuple(th.axes), base, 'Legendre table')


def load(ctx, **stubs):
    c = ConfigModule({})
    M = extract.load('coordinate_utils', dict({
        'config_utils': c, 'basicConfig': c.basicConfig,
        'model_utils': types.SimpleNamespace(legendre_poly=legendre)},
        **stubs))
    G = Grid()
    G.install(M)
    return M, G


def pos(n, m=0, which='cos'):
    """Position of the coefficient (n, m)."""
    n = sym(n)
    if isinstance(m, int) and m == 0:
        return n*n - 1
    return n*n - 1 + 2*sym(m) - (1 if which == 'cos' else 0)


def places(n, m):
    """Positions written for (n, m) (m None: the zonal one)."""
    if m is None:
        return [(pos(n), 0, 'cos')]
    return [(pos(n, m, w), m, w) for w in ('cos', 'sin')]


def quad(nt, np_, n, m, which, f):
    """Coefficient (n, m, which) of f(j, i) on the grid by the quadrature."""
    def term(j):
        if isinstance(m, int) and m == 0:
            c = DF(np_, 0, lambda i: f(j, i)).re
        else:
            z = DF(np_, m, lambda i: f(j, i))
            c = 2*(z.re if which == 'cos' else -z.im)
        return c/np_*spec.PN(n, m, node(nt, j))*gw(nt, j)
    zonal = isinstance(m, int) and m == 0
    k = sym(2*sym(n) + 1)/(2 if zonal else 4)
    v = sym(nt).value()
    if v is None:
        return npx.SUM(nt, term(npx.BOUND(0)))*k
    s = sym(0)
    for j in range(int(v)):
        s = s + term(j)
    return s*k


def DF(n, m, f):
    v = sym(n).value()
    if v is None:
        return dft(n, m, f)
    return dft_sum(int(v), int(sym(m).value()), [f(i) for i in range(int(v))])


def longitude(np_, i):
    return 360*sym(i)/np_


def exact(ctx, G, n, k):
    """The grid resolves products of degree n and k."""
    post_true(ctx, 'one grid', len(G.nt) == 1 and G.np is not None)
    if len(G.nt) != 1 or G.np is None:
        return False
    nt, np_ = G.nt[0], G.np
    post_true(ctx, 'Gauss-Legendre sum exact for all products',
              2*nt - 1 >= n + k)
    post_true(ctx, 'longitudes separate the orders', np_ > n + k)
    return True


# ------------------------------------------------------------- sh_analysis

class FamA:
    """Rows written so far."""
    val = None

    def terms(self, loop):
        if loop.depth == 0:
            yield 'n^2 - 1', lambda n: pos(n)
        if loop.depth == 1:
            n = loop.outer[0]
            yield 'n^2 + 2m - 2', lambda m: self.start(loop, n, m)

    @staticmethod
    def start(loop, n, m):
        """Row of order m; the loop may begin with the order zero."""
        if sym(loop.rng.lo).value() == 0 and CTX.fork(sym(m) <= 0):
            return pos(n)
        return pos(n, m)

    def tables(self, loop):
        fam = self

        class Val:
            def value(self, ix):
                return core.uf('VAL', sym(ix[0]))

            def definition(self, ix):
                r = sym(ix[0])
                n = loop.outer[0] if loop.depth else loop.index
                at = places(n, None)
                if loop.depth and not (sym(loop.rng.lo).value() == 0 and
                                       CTX.fork(sym(loop.index) <= 0)):
                    at = at + places(n, loop.index)
                for p, m, w in at:
                    if CTX.fork(r == p):
                        return fam.val(n, m, w)
                return core.uf('VAL', r)
        if loop.depth == 0:
            yield 'coefficients of the degrees so far', (
                lambda i, s: s[0] < pos(i) if len(s) == 1 else None), Val()
        if loop.depth == 1:
            n = loop.outer[0]
            yield 'coefficients of the orders so far', (
                lambda i, s: s[0] < fam.start(loop, n, i) if len(s) == 1
                else None), Val()


class Func:
    """The function analysed: opaque values of the angles."""

    def __init__(self):
        self.calls = []

    def __call__(self, theta, phi):
        post_true(CTX.cur, 'shape of the arguments',
                  len(theta.shape) == len(phi.shape), kind='pre')
        self.calls.append((theta, phi))
        f = npx.lift2(lambda t, p: core.uf('F', t, p))
        return f(theta, phi)


def analysis_case(kgiven, N=None):
    fam = FamA()

    def body(ctx):
        M, G = load(ctx)
        if N is None:
            nmax = core.integer('nmax', lo=1, hi=5)
            kmax = core.integer('kmax', lo=0, hi=7)
            ctx.assume(b_and(nmax >= 1, kmax >= 0))
        else:
            nmax, kmax = N
        f = Func()
        fam.val = lambda n, m, w: quad(
            G.nt[0], G.np, n, m, w, lambda j, i: core.uf(
                'F', node(G.nt[0], j), longitude(G.np, i)))

        def func(theta, phi):
            G.grid(theta)
            return f(theta, phi)
        kw = {'kmax': kmax} if kgiven else {}
        c = M.ns['sh_analysis'](func, nmax, **kw)
        L = sym(nmax)
        if kgiven and CTX.fork(sym(kmax) > nmax):
            L = sym(kmax)
        if not exact(ctx, G, sym(nmax), L):
            return
        dim = sym(nmax)*(sym(nmax) + 2)
        post_true(ctx, 'one axis', len(c.shape) == 1)
        post_eq(ctx, 'number of coefficients', sym(c.shape[0]), dim)
        if N is None:
            j = core.integer('j', lo=0, hi=20)
            ctx.assume(b_and(j >= 0, j < dim))
            post_eq(ctx, 'every coefficient is its quadrature', c[j],
                    core.uf('VAL', j), refutable=False)
            return
        for n in range(1, nmax + 1):
            for m in range(n + 1):
                for p, _, w in places(n, m or None):
                    post_eq(ctx, f'coefficient ({n}, {m}, {w})',
                            c[int(p.value())], fam.val(n, m, w))
    return verify(f'sh_analysis{", kmax given" if kgiven else ""}'
                  + (f' {N}' if N else ''), body, FA, family=fam,
                  fail_fast=False, mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'(nmax, kmax) = {N}')


for _k in (False, True):
    @R.contract('sh_analysis: quadrature exact up to the analysed degree'
                + (', kmax given' if _k else ''), FA)
    def analysis(mode, tier, _k=_k):
        if mode == 'proof':
            return analysis_case(_k)
        return [analysis_case(_k, N=n) for n in (
            (1, 1), (2, 2), (2, 1), (1, 2), (3, 0))]


# ------------------------------------------------------------ rotate_gauss

def ref_angles(b, t, p):
    """geo_to_base by contract (P12): angles of the direction in the
    rotated system."""
    lim = lambda lo, hi: lambda a: setattr(
        a, 'facts', [a.z3 >= lo, a.z3 <= hi])
    b = [x for v in b for x in v]
    return (core._uf('tref', *b, t, p, facts=lim(0, 180)),
            core._uf('pref', *b, t, p, facts=lim(-180, 180)))


def geo_to_base(theta, phi, base_1, base_2, base_3, inverse=None):
    b = [objarr(x) for x in (base_1, base_2, base_3)]
    if inverse or any(x.shape != (3,) for x in b):
        raise Unsupported('geo_to_base with these arguments')
    return tuple(npx.lift2(lambda t, p, k=k: ref_angles(b, t, p)[k])(theta, phi)
                 for k in range(2))


class FamR:
    """Rows and columns of the matrix written so far; norms."""
    val = None
    sym = True

    def terms(self, loop):
        o = loop.outer
        if loop.depth == 0:
            yield 'column k^2 - 1', lambda k: pos(k)
        if loop.depth == 1:
            yield 'column k^2 + 2l - 2', lambda ll: pos(o[0], ll)
            yield 'row n^2 - 1', lambda n: pos(n)
        if loop.depth == 2:
            yield 'row n^2 - 1', lambda n: pos(n)
            yield 'row n^2 + 2m - 2', lambda m: pos(o[1], m)
        if loop.depth == 3:
            yield 'row n^2 + 2m - 2', lambda m: pos(o[2], m)

    @staticmethod
    def low(n):
        return (sym(n)*n + n)/2 - 1

    def norms(self, loop):
        fam = self

        class Val:
            def value(self, ix):
                j = sym(ix[0])
                for lp in reversed(CTX.cur.loops):
                    n = sym(lp.index)
                    d = j - fam.low(n)
                    if any(sum(e for _, e in m) > 1 for m in d.num):
                        continue
                    if CTX.decide(d == 0) is True:
                        return sym(2)/(2*n + 1)
                    if CTX.decide(b_and(d > 0, d <= n)) is True:
                        return sym(4)/(2*n + 1)
                return core.uf('NORM', j)

            def definition(self, ix):
                j, n = sym(ix[0]), loop.index
                if CTX.fork(j < fam.low(n)):
                    return core.uf('NORM', j)
                if CTX.fork(j == fam.low(n)):
                    return sym(2)/(2*sym(n) + 1)
                return sym(4)/(2*sym(n) + 1)
        yield 'norms of the degrees so far', (
            lambda i, s: s[0] < fam.low(i) if len(s) == 1 else None), Val()

    def tables(self, loop):
        if loop.depth == 0:
            yield from self.norms(loop)
        fam, o, name = self, loop.outer, self.name()

        def cand(label, cols, rows, k, ll, n, m):
            """All rows left of cols(i)[0]; of the columns cols(i) the rows
            above rows(i)."""
            class Val:
                def value(self, ix):
                    return core.uf(name, sym(ix[0]), sym(ix[1]))

                def definition(self, ix):
                    r, c = sym(ix[0]), sym(ix[1])
                    i = loop.index
                    for pc, l_, wc in places(k(i), ll(i)):
                        if not CTX.fork(c == pc):
                            continue
                        if CTX.fork(r == pos(n(i))):
                            return fam.val(n(i), 0, 'cos', k(i), l_, wc)
                        for pr, m_, wr in (places(n(i), m(i))
                                           if m(i) is not None else []):
                            if CTX.fork(r == pr):
                                return fam.val(n(i), m_, wr, k(i), l_, wc)
                    return core.uf(name, r, c)

            def region(i, s):
                if len(s) != 2:
                    return None
                cs = cols(i)
                return b_or(s[1] < cs[0], b_and(b_or(*[
                    s[1] == c for c in cs]), s[0] < rows(i)))
            return label, region, Val()
        zon = lambda i: None
        if loop.depth == 0:
            def left(bound):
                class Val:
                    def value(self, ix):
                        return core.uf(name, sym(ix[0]), sym(ix[1]))
                return (lambda i, s: s[1] < bound(i) if len(s) == 2
                        else None), Val()
            yield ('columns of the degrees so far',) + left(lambda k: pos(k))
        if loop.depth == 1:
            k = o[0]

            class Val:
                def value(self, ix):
                    return core.uf(name, sym(ix[0]), sym(ix[1]))
            yield 'columns of the orders so far', (
                lambda i, s: s[1] < pos(k, i) if len(s) == 2
                else None), Val()
            yield cand('rows of the degrees so far, zonal column',
                       lambda i: [pos(k)], lambda n: pos(n),
                       lambda i: k, zon, lambda i: i, zon)
        if loop.depth == 2:
            k, q = o
            yield cand('rows of the degrees so far, two columns',
                       lambda i: [pos(k, q), pos(k, q) + 1],
                       lambda n: pos(n),
                       lambda i: k, lambda i: q, lambda i: i, zon)
            yield cand('rows of the orders so far, zonal column',
                       lambda i: [pos(k)], lambda m: pos(q, m),
                       lambda i: k, zon, lambda i: q, lambda i: i)
        if loop.depth == 3:
            k, ll, n = o
            yield cand('rows of the orders so far, two columns',
                       lambda i: [pos(k, ll), pos(k, ll) + 1],
                       lambda m: pos(n, m),
                       lambda i: k, lambda i: ll, lambda i: n, lambda i: i)


def rotation_case(tshape, N=None):
    fam = FamR()

    def body(ctx):
        M, G = load(ctx)

        def to_base(theta, phi, *a, **k):
            G.grid(theta)
            return geo_to_base(theta, phi, *a, **k)
        M.ns['geo_to_base'] = to_base
        b = [objarr(reals(f'b{k}', tshape + (3,))) for k in range(3)]
        if N is None:
            nmax = core.integer('nmax', lo=1, hi=3)
            kmax = core.integer('kmax', lo=1, hi=3)
            ctx.assume(b_and(nmax >= 1, kmax >= 1))
        else:
            nmax, kmax = N
        cur = [()]
        fam.name = lambda i=None: 'MAT' + '_'.join(
            map(str, cur[0] if i is None else i))

        def val(n, m, w, k, ll, wl, index=None):
            index = cur[0] if index is None else index
            nt, np_ = G.nt[0], G.np
            base = [x[index] for x in b]

            def f(j, i):
                t, p = ref_angles(base, node(nt, j), longitude(np_, i))
                P = spec.PN(k, ll, t)
                if isinstance(ll, int) and ll == 0:
                    return P
                a = sym(ll)*core.radians(p)
                return P*(core.cos(a) if wl == 'cos' else core.sin(a))
            return quad(nt, np_, n, m, w, f)
        fam.val = val
        # the instance of the time index being computed
        ind = M.ns['np'].ndindex

        def ndindex(*sh):
            for i in ind(*sh):
                cur[0] = i
                yield i
        M.ns['np'].ndindex = ndindex
        A = M.ns['rotate_gauss'](nmax, kmax, *b)
        if not exact(ctx, G, sym(nmax), sym(kmax)):
            return
        dn, dk = sym(nmax)*(sym(nmax) + 2), sym(kmax)*(sym(kmax) + 2)
        post_true(ctx, 'number of axes', len(A.shape) == len(tshape) + 2)
        post_true(ctx, 'time axes', tuple(A.shape[:-2]) == tshape)
        post_eq(ctx, 'number of rows', sym(A.shape[-2]), dn)
        post_eq(ctx, 'number of columns', sym(A.shape[-1]), dk)
        if N is None:
            i, j = core.integer('i', lo=0), core.integer('j', lo=0)
            ctx.assume(b_and(i >= 0, i < dn, j >= 0, j < dk))
            for t in np.ndindex(*tshape):
                post_eq(ctx, 'every element is its quadrature',
                        A[t + (i, j)], core.uf(fam.name(t), i, j), refutable=False)
            return
        for t in np.ndindex(*tshape):
            for n in range(1, nmax + 1):
                for m in range(n + 1):
                    for k in range(1, kmax + 1):
                        for ll in range(k + 1):
                            for r, _, w in places(n, m or None):
                                for c, _, wl in places(k, ll or None):
                                    post_eq(
                                        ctx, f'element ({n}, {m}, {w}; {k}, '
                                        f'{ll}, {wl})', A[t + (
                                            int(r.value()), int(c.value()))],
                                        val(n, m, w, k, ll, wl, t))
    return verify(f'rotate_gauss times {tshape}' + (f' {N}' if N else ''),
                  body, FR, family=fam, fail_fast=False, budget=300,
                  mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'(nmax, kmax) = {N}')


def _rot(tshape, small):
    @R.contract(f'rotate_gauss: elements are exact quadratures, times '
                f'{tshape}', FR)
    def f(mode, tier):
        if mode == 'proof':
            return rotation_case(tshape)
        return [rotation_case(tshape, N=n) for n in small]


_rot((), [(1, 1), (2, 2), (1, 2), (2, 1)])
_rot((2,), [(1, 1)])


# -------------------------------------------------------- rotate_gauss_fft

MATRIX = 'X'


def opaque(name, axes, cshape=()):
    """Table of opaque values."""
    def base(ix):
        if not cshape:
            return core.uf(name, *ix)
        out = np.empty(cshape, dtype=object)
        for c in np.ndindex(*cshape):
            out[c] = core.uf(f'{name}{"_".join(map(str, c))}', *ix)
        return out
    return SymTable(tuple(axes) + cshape, base, name)


def table_eq(ctx, name, a, b, kind='post'):
    """Equality at a fresh index of the symbolic axes."""
    if not isinstance(a, SymTable) or len(a.shape) != len(b.shape) or \
            a.sym != b.sym:
        raise Unsupported(f'form of {name}')
    ix = []
    for q in b.sym:
        CTX.oblige(f'{name}: size', sym(a.axes[q]) == sym(b.axes[q]), kind)
        i = core.integer(f'@e{q}', lo=0)
        ctx.assume(b_and(i >= 0, i < b.axes[q]))
        ix.append(i)
    post_eq(ctx, name, a.read(tuple(ix), check=False),
            b.read(tuple(ix), check=False), refutable=False)


class Fourier:
    """What the four arrays hold: for each row k, column l and place p the
    frequency and Fourier coefficient with the (p+1)-th largest modulus."""

    def __init__(self, N, step, qfunc):
        self.N, self.step, self.qfunc = sym(N), step, qfunc
        self.half = core.trunc(self.N/2 + 1)

    def frequency(self, i):
        """In Hz."""
        return sym(i)/(self.N*self.step*3600)

    def element(self, kind, i, k, ll):
        z = dft(self.N, i, lambda t: core.uf(MATRIX, t, k, ll))/self.N
        if kind:
            z = self.response(i, k)*z
        return z

    def response(self, i, k):
        f = self.frequency(i)
        if self.qfunc:
            return SComplex(core.uf('RESPre', f, k), core.uf('RESPim', f, k))
        n = core.floor(core.sqrt(sym(k) + 1)) - 1
        return SComplex(core.uf('QRE', n, i), core.uf('QIM', n, i))

    def place(self, kind, k, ll, p):
        """Index of the (p+1)-th largest modulus."""
        h = self.half

        def facts(a):
            a.facts = [a.z3 >= 0, core.b_z3(Sym.atom(a) < h)]
        return core._uf('PERM', kind, k, ll, h - 1 - sym(p), is_int=True,
                        facts=facts)

    def value(self, which, ix):
        p, k, ll = ix
        kind = int(which.endswith('_ind'))
        i = self.place(kind, k, ll, p)
        if which.startswith('freq'):
            return 24*3600*self.frequency(i)
        return self.element(kind, i, k, ll)


class FamF:
    four = None

    def terms(self, loop):
        return iter(())

    def tables(self, loop):
        fam = self

        def val(which):
            class Val:
                def value(self, ix):
                    return fam.four.value(which, [sym(i) for i in ix])
                definition = value
            return Val()
        for which in ('frequency', 'frequency_ind', 'spectrum',
                      'spectrum_ind'):
            if loop.depth == 0:
                yield f'{which} of the rows so far', (
                    lambda i, s: s[1] < i if len(s) == 3 else None), val(which)
            if loop.depth == 1:
                k = loop.outer[0]
                yield f'{which} of the columns so far', (
                    lambda i, s: b_or(s[1] < k, b_and(s[1] == k, s[2] < i))
                    if len(s) == 3 else None), val(which)


def fourier_case(reference, scaled, qgiven, defaults, save):
    fam = FamF()

    def body(ctx):
        N = core.integer('N', lo=1, hi=9)
        step, start = core.real('step', lo=1, hi=3), core.real('start')
        nmax = core.integer('nmax', lo=1, hi=2)
        kmax = core.integer('kmax', lo=1, hi=2)
        ctx.assume(b_and(N >= 1, nmax >= 1, kmax >= 1, step > 0))
        kw = {}
        if defaults == 'all':
            N, step, start = int(8*365.25*24), sym(1), sym(0)
        else:
            kw = {'N': N, 'step': step, 'start_date': start}
        four = fam.four = Fourier(N, step, qgiven)
        half = four.half
        keep = half
        if not defaults:
            keep = core.integer('filter', lo=1, hi=5)
            ctx.assume(b_and(keep >= 1, keep <= half))
            kw['filter'] = keep
        if reference:
            kw['reference'] = reference
        if scaled is not None:
            kw['scaled'] = scaled
        sysname = 'sm' if (reference or '').lower() == 'sm' else 'gsm'
        dn, dk = nmax*(nmax + 2), kmax*(kmax + 2)
        axes = (sym(N),)

        def vectors(name):
            def f(time, dipole=None):
                if dipole is not None:
                    raise Unsupported('dipole argument')
                post_true(ctx, 'reference system', name == sysname)
                if not isinstance(time, SymTable):
                    post_true(ctx, 'number of times', time.shape == (N,))
                    for i in (0, 1, N//2, N - 1):
                        post_eq(ctx, f'time {i}', time[i],
                                start + i*step/24)
                    raise Sampled()
                table_eq(ctx, 'times', time, SymTable(axes, lambda ix: (
                    start + sym(ix[0])*step/24), 'times'))
                return tuple(opaque(f'{name}{k}', axes, (3,))
                             for k in range(3))
            return f

        def rotate(n, k, b1, b2, b3):
            post_eq(ctx, 'nmax', sym(n), nmax)
            post_eq(ctx, 'kmax', sym(k), kmax)
            for q, b in enumerate((b1, b2, b3)):
                table_eq(ctx, f'base vector {q + 1}', b, opaque(
                    f'{sysname}{q}', axes, (3,)))
            return opaque(MATRIX, axes + (dn, dk))

        def frequencies(f):
            table_eq(ctx, 'frequencies', f, SymTable(
                (half,), lambda ix: four.frequency(ix[0]), 'frequencies'))

        def q_response(frequency, n):
            post_true(ctx, 'q_response only without qfunc', not qgiven)
            post_eq(ctx, 'degrees of q_response', sym(n), nmax)
            frequencies(frequency)
            return SymTable((nmax, half), lambda ix: SComplex(
                core.uf('QRE', *ix), core.uf('QIM', *ix)), 'responses')

        def qfunc(freq, k):
            frequencies(freq)
            fr = freq.snapshot()

            def base(ix):
                f = fr.read(ix, check=False)
                return SComplex(core.uf('RESPre', f, k),
                                core.uf('RESPim', f, k))
            return SymTable((half,), base, 'response')
        M, G = load(ctx, )
        M.ns['config_utils'].basicConfig['params.dipole'] = 'DIPOLE'
        G.np = sym(N)
        M.ns.update(basevectors_gsm=vectors('gsm'),
                    basevectors_sm=vectors('sm'), rotate_gauss=rotate,
                    q_response=q_response, print=lambda *a, **k: None)

        def argsort(a, axis=-1, **kk):
            if not isinstance(a, SymTable) or a.ndim != 1 or kk:
                raise Unsupported('argsort with these arguments')
            src = a.snapshot()
            CTX.oblige('all frequencies sorted', sym(a.axes[0]) == half,
                       'post')
            i = core.integer('@s', lo=0)
            CTX.cur.assume(b_and(i >= 0, i < half))
            got = sym(src.read((i,), check=False))
            lp = [lp.index for lp in CTX.cur.loops]
            if len(lp) != 2:
                raise Unsupported('argsort outside of the loops')
            for kind in (0, 1):
                z = four.element(kind, i, *lp)
                sq = z.re*z.re + z.im*z.im
                for key, sign in ((abs(z), 1), (sq, 1), (-abs(z), -1),
                                  (-sq, -1)):
                    if CTX.decide(got == key) is True:
                        def base(ix):
                            p = sym(ix[0])
                            return four.place(kind, *lp, half - 1 - p
                                              if sign == 1 else p)
                        return SymTable((half,), base, 'order')
            raise Unsupported('key of argsort')
        npp = M.ns['np']
        npp.argsort = argsort
        saved = []
        npp.savez = lambda file, **a: saved.append((file, a))
        if qgiven:
            kw['qfunc'] = qfunc
        if save:
            kw['save_to'] = 'FILE.npz'
        if reference == 'mag':
            kind, r = outcome(M.ns['rotate_gauss_fft'], nmax, kmax, **kw)
            post_true(ctx, 'unknown reference refused',
                      kind == 'raise' and isinstance(r, ValueError))
            return
        if defaults == 'all':
            try:
                M.ns['rotate_gauss_fft'](nmax, kmax, **kw)
            except Sampled:
                return
            post_true(ctx, 'base vectors used', False)
            return
        out = M.ns['rotate_gauss_fft'](nmax, kmax, **kw)
        post_true(ctx, 'four arrays', len(out) == 4)
        p, k, ll = (core.integer(x, lo=0) for x in 'pkl')
        ctx.assume(b_and(p >= 0, p < keep, k >= 0, k < dn, ll >= 0, ll < dk))
        arrays = dict(zip(('frequency', 'spectrum', 'frequency_ind',
                           'spectrum_ind'), out))
        want = {}
        for which, a in arrays.items():
            post_true(ctx, 'three axes', len(a.shape) == 3)
            for q, d in enumerate((keep, dn, dk)):
                post_eq(ctx, f'size of {which}', sym(a.shape[q]), d)
            w = four.value(which, (p, k, ll))
            if which.startswith('spectrum') and scaled:
                f = four.value(which.replace('spectrum', 'frequency'),
                               (p, k, ll))
                w = w*(1 + npx.ind_lt(f) + npx.ind_lt(-f))
            want[which] = w
            post_eq(ctx, which, a[p, k, ll], w, refutable=False)
        post_true(ctx, 'file only on request', len(saved) == int(save))
        if not save:
            return
        file, data = saved[0]
        post_true(ctx, 'name of the file', str(file) == 'FILE.npz')
        post_true(ctx, 'entries of the file', set(want) <= set(data))
        for which, w in want.items():
            post_eq(ctx, f'saved {which}', data[which][p, k, ll], w,
                    refutable=False)
        post_true(ctx, 'saved settings', str(data['reference']).lower()
                  == sysname and bool(data['scaled']) == bool(scaled)
                  and data['dipole'] == 'DIPOLE')
        for key, v in (('step', step), ('N', N), ('filter', keep),
                       ('start_date', start)):
            post_eq(ctx, f'saved {key}', sym(data[key]), sym(v))
    return verify(f'rotate_gauss_fft {reference} scaled={scaled} qfunc='
                  f'{qgiven} defaults={defaults} saved={save}', body, FF,
                  family=fam, fail_fast=False)


class Sampled(Exception):
    """The default sampling has been seen."""


for _case in ((None, None, True, False, False),
              ('GSM', False, False, False, True),
              ('sm', True, True, False, True),
              ('gsm', True, False, 'filter', False),
              (None, None, False, 'all', False),
              ('mag', None, True, False, False)):
    @R.contract('rotate_gauss_fft: the largest Fourier coefficients, '
                'reference %s, scaled=%s, qfunc=%s, defaults=%s, saved=%s'
                % _case, FF)
    def fourier(mode, tier, _case=_case):
        if mode == 'proof':
            return fourier_case(*_case)
        return []
