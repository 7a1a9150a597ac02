"""P08: degree-wise statistics."""
from pydv import core, extract, npx
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, b_and, sym
from pydv.npx import SymTable
from pydv.registry import Registry
from contracts import pp

R = Registry('P08')
TRUSTED = ['degree n owns the coefficients n^2-1 .. n^2+2n-1 (definition)',
           'finite sums are linear, and a sum of squares is not negative '
           '(axioms of the sum symbol)',
           'BaseModel.synth_coeffs by its contract (verified as P04, P05)']
ASSUMPTIONS = ['representative numbers and positions of array axes stand '
               'for all', 'radius and reference radius positive']
FP = ['model_utils.power_spectrum']
FC = ['model_utils.degree_correlation']
FS = ['model_utils.sensitivity']


def load(ctx):
    rs = core.real('r_surf', lo=3000, hi=7000)
    ctx.assume(rs > 0)
    return extract.load('model_utils', {'config_utils': ConfigModule(
        {'params.r_surf': rs})}), rs


def total(n, f):
    """Sum of f(j) over the coefficients j of degree n."""
    n = sym(n)
    v = n.value()
    if v is not None:
        s = Sym.const(0)
        for j in range(int(v)**2 - 1, int(v)**2 + 2*int(v)):
            s = s + f(sym(j))
        return s
    return npx.SUM(2*n + 1, f(n*n - 1 + npx.BOUND(0)))


class Fam:
    """Tables over degrees: value(n) is right below the current degree."""
    tabs = ()
    perdegree = ()
    conc = ()

    def terms(self, loop):
        return []

    def tables(self, loop):
        if loop.depth:
            return
        for label, f in self.tabs:
            for d in (1, 0):
                class Val:
                    def __init__(self, f, d):
                        self.f, self.d = f, d

                    def value(self, ix):
                        return self.f(sym(ix[0]) + 1)

                    def definition(self, ix):
                        # the degree in this iteration
                        n = loop.index + (1 - self.d)
                        if CTX.fork(sym(ix[0]) + 1 == n):
                            return self.f(n)
                        return self.f(sym(ix[0]) + 1)
                yield (f'{label} of the degrees below (index offset {d})',
                       lambda i, s, d=d: sym(s[0]) < sym(i) - d, Val(f, d))
        for label, first, last, done in self.perdegree:
            for d in (0, 1):
                class Pos:
                    """done(j) replaces first(j), degree by degree."""
                    timed = True

                    def __init__(self, *a):
                        self.first, self.last, self.done, self.d = a

                    def deg(self, i):
                        return sym(i) + self.d

                    def value(self, ix, i):
                        n = self.deg(i)
                        if CTX.fork(sym(ix[0]) < n*n - 1):
                            return self.done(sym(ix[0]))
                        return self.first(sym(ix[0]))

                    def definition(self, ix):
                        j, n = sym(ix[0]), self.deg(loop.index)
                        if CTX.fork(j < n*n - 1):
                            return self.done(j)
                        if CTX.fork(j < n*n + 2*n):
                            return self.last(j, n)
                        return self.first(j)
                yield (f'{label} of the coefficients so far (offset {d})',
                       lambda i, s: True, Pos(first, last, done, d))


# ---------------------------------------------------------- power spectrum

def factor(source, n, x):
    if source == 'external':
        return n*core.pow_sym(x, -(2*sym(n) - 2))
    if source == 'toroidal':
        return n*(n + 1)/(2*sym(n) + 1)
    return (n + 1)*core.pow_sym(x, 2*sym(n) + 4)


def table(name, N, shape):
    """Coefficients with a symbolic axis (marked None in shape)."""
    cs = tuple(d for d in shape if d is not None)

    def base(ix):
        if not cs:
            return core.uf(name, ix[0])
        out = np.empty(cs, dtype=object)
        for c in np.ndindex(*cs):
            out[c] = core.uf(name + ''.join(f'_{k}' for k in c), ix[0])
        return out
    return SymTable(tuple(N*N + 2*N if d is None else d for d in shape),
                    base, name), base


def spectrum_case(shape, axis, source, radius, lim, N=None):
    fam = Fam()

    def body(ctx):
        M, rs = load(ctx)
        p = [k for k, d in enumerate(shape) if d is None][0]
        cs = tuple(d for d in shape if d is not None)
        if N is None:
            n_ = core.integer('N', lo=1, hi=6)
            ctx.assume(n_ >= 1)
            C, base = table('c', n_, shape)
        else:
            n_ = N
            sh = tuple(N*(N + 2) if d is None else d for d in shape)
            C = reals('c', sh)
            M_ = np.moveaxis(C, p, 0)

            def base(ix):
                v = M_[int(sym(ix[0]).value())]
                return v
        kw = {}
        if axis is not None:
            kw['axis'] = axis
        if source:
            kw['source'] = source
        x = Sym.const(1)
        if radius:
            r = core.real('radius', lo=3000, hi=9000)
            ctx.assume(r > 0)
            kw['radius'] = r
            x = rs/r
        top = sym(n_)
        if lim:
            kw['nmax'] = core.integer('nmax', lo=1, hi=8) if N is None \
                else lim
            nm = sym(kw['nmax'])
            ctx.assume(nm >= 1)
            if not CTX.fork(nm > top):
                top = nm

        def value(n):
            def one(c):
                return total(n, lambda j: (objarr(base((j,)))[c])**2)*factor(
                    source, n, x)
            if not cs:
                return one(())
            out = np.empty(cs, dtype=object)
            for c in np.ndindex(*cs):
                out[c] = one(c)
            return out
        fam.tabs = [('spectrum', value)]
        W = M.ns['power_spectrum'](C, **kw)
        post_true(ctx, 'number of axes', len(W.shape) == len(shape))
        if len(W.shape) != len(shape):
            return
        for k, d in enumerate(W.shape):
            post_eq(ctx, f'length of axis {k}', sym(d),
                    top if k == p else sym(shape[k]))
        if N is None:
            n = core.integer('n', lo=1, hi=6)
            ctx.assume(b_and(n >= 1, n <= top))
            key = tuple(n - 1 if k == p else slice(None)
                        for k in range(len(shape)))
            post_eq(ctx, 'power of degree n', W[key], value(n),
                    refutable=False)
        else:
            if W.shape[p] != top.value():
                return
            for n in range(1, int(top.value()) + 1):
                key = tuple(n - 1 if k == p else slice(None)
                            for k in range(len(shape)))
                post_eq(ctx, f'power of degree {n}', W[key], value(n))
    return verify(f'power_spectrum shape {shape}, axis {axis}, {source}, '
                  f'radius {radius}, degree limit {lim}'
                  + ('' if N is None else f', degree {N}'), body, FP,
                  family=fam, fail_fast=False,
                  mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'degree {N}, all coefficients')


def _spec(shape, axis, source, radius, lim):
    @R.contract(f'power_spectrum: shape {shape}, axis {axis}, source '
                f'{source or "default"}' + (', radius' if radius else '')
                + (', degree limit' if lim else ''), FP)
    def f(mode, tier):
        if mode == 'proof':
            return spectrum_case(shape, axis, source, radius, lim)
        return [spectrum_case(shape, axis, source, radius, k if lim else None,
                              n) for n, k in ((1, 1), (2, 1), (3, 4), (2, 2))]


_spec((None,), None, None, True, False)
_spec((2, None), None, 'internal', True, True)
_spec((None, 2), 0, 'external', True, True)
_spec((2, None, 1), 1, 'external', True, False)
_spec((2, None, 1), -2, 'toroidal', True, True)
_spec((None,), -1, 'toroidal', False, False)
_spec((None, 1, 2), 0, 'internal', False, True)
_spec((1, None), -1, 'external', False, False)


@R.contract('power_spectrum rejects an unknown source', FP, modes=('proof',))
def unknown(mode, tier):
    def body(ctx):
        M, rs = load(ctx)
        for s in ('intern', '', 'external '):
            st, _ = outcome(M.ns['power_spectrum'], reals('c', (8,)),
                            source=s)
            post_true(ctx, f'source {s!r}', st == 'raise')
    return verify('unknown source', body, FP, fail_fast=False)


@R.contract('BaseModel.power_spectrum is the spectrum of the coefficients '
            'at that time', ['chaos.BaseModel.power_spectrum'],
            modes=('proof',))
def model_spectrum(mode, tier):
    def body(ctx):
        rs = core.real('r_surf', lo=3000, hi=7000)
        log = []

        class MU:
            @staticmethod
            def power_spectrum(coeffs, radius=None, *, nmax=None,
                               source=None, axis=None):
                log.append((coeffs, radius, nmax, source, axis))
                return objarr([core.real('W1'), core.real('W2')])
        M = pp.load_chaos(ctx, pp.make_stub(), model_utils=MU,
                          config_utils=ConfigModule({'params.r_surf': rs}))
        C = M.ns['BaseModel']
        coeffs = reals('c', (2, 8))
        calls = []

        def synth_coeffs(self, time, *, nmax=None, deriv=None,
                         extrapolate=None):
            calls.append((time, nmax, deriv, extrapolate))
            return coeffs
        C.synth_coeffs = synth_coeffs
        o = object.__new__(C)
        source = 'internal' if ctx.choose() else 'external'
        o.__dict__.update(source=source, nmax=2, name='m')
        t = reals('t', (2,))
        a, kw = [], {}
        r = rs
        if ctx.choose():
            r = core.real('radius', lo=3000, hi=9000)
            kw['radius'] = r
        opt = {}
        if ctx.choose():
            opt = {'nmax': core.integer('nmax', lo=1, hi=3),
                   'deriv': core.integer('deriv', lo=0, hi=3),
                   'extrapolate': 'cubic'}
        W = C.power_spectrum(o, t, **kw, **opt)
        post_true(ctx, 'one evaluation', len(log) == 1 and len(calls) == 1)
        if not (len(log) == len(calls) == 1):
            return
        post_eq(ctx, 'time of the coefficients', calls[0][0], t)
        for k, g in zip(('nmax', 'deriv', 'extrapolate'), calls[0][1:]):
            w = opt.get(k)
            if isinstance(w, Sym):
                post_eq(ctx, f'option {k}', g, w)
            else:
                post_true(ctx, f'option {k}', g == w or (
                    k == 'deriv' and w is None and g == 0))
        c, rad, nm, s, ax = log[0]
        post_eq(ctx, 'coefficients', c, coeffs)
        post_eq(ctx, 'radius', rs if rad is None else rad, r)
        post_true(ctx, 'source of the model', (s or 'internal') == source)
        post_true(ctx, 'all degrees', nm is None)
        post_true(ctx, 'last axis', ax is None or ax in (-1, 1))
        post_eq(ctx, 'result', W, objarr([core.real('W1'),
                                          core.real('W2')]))
    return verify('BaseModel.power_spectrum', body,
                  ['chaos.BaseModel.power_spectrum'], fail_fast=False)


# ------------------------------------------------------------- correlation

def corr_terms(a, b):
    def rr(n):
        return total(n, lambda j: a(j)**2)

    def ss(n):
        return total(n, lambda j: b(j)**2)

    def cc(n):
        return total(n, lambda j: a(j)*b(j))
    return rr, ss, cc


def vec(name, N):
    return table(name, N, (None,)) if isinstance(N, Sym) else None


def corr(a, b):
    rr, ss, cc = corr_terms(a, b)
    return lambda n: cc(n)/core.sqrt(rr(n)*ss(n))


def run_corr(ctx, fam, M, A, fa, B, fb):
    rr, ss, cc = corr_terms(fa, fb)
    fam.tabs = [('correlation', corr(fa, fb)), ('power 1', rr),
                ('power 2', ss), ('cross product', cc),
                ('norm', lambda n: core.sqrt(rr(n)*ss(n)))]
    return M.ns['degree_correlation'](A, B)


def positive(ctx, n, *fs):
    """The sums of squares of these vectors in degree n are positive."""
    for f in fs:
        ctx.assume(total(n, lambda j: f(j)**2) > 0)


def corr_case(N=None):
    fam = Fam()

    def body(ctx):
        M, _ = load(ctx)
        if N is None:
            n_ = core.integer('N', lo=1, hi=6)
            ctx.assume(n_ >= 1)
            A, fa = table('a', n_, (None,))
            B, fb = table('b', n_, (None,))
            fa_, fb_ = (lambda j: fa((j,))), (lambda j: fb((j,)))
        else:
            n_ = N
            A, B = reals('a', (N*(N+2),)), reals('b', (N*(N+2),))
            fa_, fb_ = (lambda j: A[int(sym(j).value())]), (
                lambda j: B[int(sym(j).value())])
        C = run_corr(ctx, fam, M, A, fa_, B, fb_)
        post_true(ctx, 'one axis', len(C.shape) == 1)
        post_eq(ctx, 'number of degrees', sym(C.shape[0]), sym(n_))
        if N is None:
            n = core.integer('n', lo=1, hi=6)
            ctx.assume(b_and(n >= 1, n <= n_))
            positive(ctx, n, fa_, fb_)
            post_eq(ctx, 'correlation of degree n', C[n - 1],
                    corr(fa_, fb_)(n), refutable=False)
        else:
            if C.shape != (N,):
                return
            for n in range(1, N + 1):
                positive(ctx, n, fa_, fb_)
                post_eq(ctx, f'correlation of degree {n}', C[n - 1],
                        corr(fa_, fb_)(n))
    return verify('degree_correlation' + ('' if N is None else
                                          f', degree {N}'), body, FC,
                  family=fam, fail_fast=False,
                  mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'degree {N}, all coefficients')


@R.contract('degree_correlation is the normalised cross product of exactly '
            'the coefficients of each degree', FC)
def correlation(mode, tier):
    if mode == 'proof':
        return corr_case()
    return [corr_case(n) for n in (1, 2, 3)]


@R.contract('the degree correlation is symmetric, scale invariant, at most '
            'one in size and one for a model with itself (lemmas)', FC,
            modes=('proof',))
def laws(mode, tier):
    def body(ctx):
        n = core.integer('n', lo=1, hi=6)
        ctx.assume(n >= 1)

        def a(j):
            return core.uf('a', sym(j))

        def b(j):
            return core.uf('b', sym(j))
        positive(ctx, n, a, b)
        C = corr(a, b)(n)
        post_eq(ctx, 'symmetric', C, corr(b, a)(n))
        post_eq(ctx, 'one with itself', corr(a, a)(n), sym(1))
        k = core.real('k', lo=0.1, hi=9)
        ctx.assume(k > 0)
        rr, ss, cc = [f(n) for f in corr_terms(a, b)]
        # sqrt((k^2 r) s) = k sqrt(r s)
        q, q2 = core.sqrt(rr*ss), core.sqrt(k*k*rr*ss)
        C2 = corr(lambda j: k*a(j), b)(n)
        post_eq(ctx, 'scaled cross product',
                corr_terms(lambda j: k*a(j), b)[2](n), k*cc)
        post_eq(ctx, 'scaled norm', q2, k*q)
        post_eq(ctx, 'scale invariant', C2, C)
        # Cauchy-Schwarz from the sum of squares of s a - c b
        e = total(n, lambda j: (ss*a(j) - cc*b(j))**2)
        post_eq(ctx, 'sum of squares', e, ss*(ss*rr - cc*cc))
        x = core.real('x')
        ctx.assume(ss*x >= 0)
        post_true(ctx, 'positive factor', x >= 0)
        ctx.assume(ss*rr - cc*cc >= 0)
        z = core.real('root')      # sqrt(rr*ss)
        ctx.assume(b_and(z > 0, z*z == ss*rr))
        post_true(ctx, 'correlation at most one', cc <= z)
        post_true(ctx, 'correlation at least minus one', cc >= -z)
    return verify('laws of the correlation', body, [], fail_fast=False)


# ------------------------------------------------------------- sensitivity

def sens_case(N=None):
    fam = Fam()

    def body(ctx):
        M, _ = load(ctx)
        if N is None:
            n_ = core.integer('N', lo=1, hi=6)
            ctx.assume(n_ >= 1)
            A, fa = table('a', n_, (None,))
            T, ft = table('t', n_, (None,))
            a, t = (lambda j: fa((j,))), (lambda j: ft((j,)))
        else:
            n_ = N
            A, T = reals('a', (N*(N+2),)), reals('t', (N*(N+2),))
            a, t = (lambda j: A[int(sym(j).value())]), (
                lambda j: T[int(sym(j).value())])

        def rms(n):
            return core.sqrt(total(n, lambda j: t(j)**2)/(2*sym(n) + 1))

        def diff(j):
            return a(j) - t(j)

        def last(j, n):
            return diff(j)/rms(n)

        def done(j):
            return core.uf('SENS', j)
        fam.perdegree = [('sensitivity', diff, last, done)]
        fam.tabs = [('rms', rms), ('power', lambda n: total(
            n, lambda j: t(j)**2))]
        S = M.ns['sensitivity'](A, T)
        post_true(ctx, 'one axis', len(S.shape) == 1)
        post_eq(ctx, 'number of coefficients', sym(S.shape[0]),
                sym(n_)*n_ + 2*sym(n_))
        if N is None:
            # SENS(j) is defined degree by degree as last(j, degree of j)
            j = core.integer('j', lo=0, hi=30)
            ctx.assume(b_and(j >= 0, j < sym(n_)*n_ + 2*n_))
            post_eq(ctx, 'sensitivity of every coefficient', S[j], done(j),
                    refutable=False)
        else:
            if S.shape != (N*(N + 2),):
                return
            for n in range(1, N + 1):
                positive(ctx, n, t)
                for j in range(n*n - 1, n*n + 2*n):
                    post_eq(ctx, f'sensitivity of coefficient {j}', S[j],
                            last(sym(j), n))
    return verify('sensitivity' + ('' if N is None else f', degree {N}'),
                  body, FS, family=fam, fail_fast=False,
                  mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'degree {N}, all coefficients')


@R.contract('sensitivity is the difference divided by the root mean square '
            'of the true coefficients of the degree', FS)
def sensitivity(mode, tier):
    if mode == 'proof':
        return sens_case()
    return [sens_case(n) for n in (1, 2, 3)]


@R.contract('sensitivity and correlation reject vectors that do not match',
            FC + FS, modes=('proof',))
def rejected(mode, tier):
    def body(ctx):
        M, _ = load(ctx)
        for f in ('degree_correlation', 'sensitivity'):
            g = M.ns[f]
            for s1, s2 in (((8,), (3,)), ((3,), (8,)), ((1, 8), (8,)),
                           ((8,), (8, 1)), ((), (3,))):
                st, _ = outcome(g, objarr(reals('a', s1)),
                                objarr(reals('b', s2)))
                post_true(ctx, f'{f}: shapes {s1} and {s2}', st == 'raise')
    return verify('rejected vectors', body, FC + FS, fail_fast=False)
