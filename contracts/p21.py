"""P21: response of a layered conducting sphere.

With the imaginary frequency i w as the variable s of the Laplace transform
the code is arithmetic on real functions of s > 0 (`1.0j` is the symbol `s1`),
and its results for s = i w are the analytic continuation of these."""
import numpy as np
from pydv import core, extract, npx
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, T, Unsupported, b_and, sym
from pydv.npx import SymTable
from pydv.registry import Registry

R = Registry('P21')
TRUSTED = ['numpy.sqrt of complex numbers: the branch with positive real '
           'part',
           'analytic continuation from s > 0 to s = i w of identities '
           'between rational functions of s, the square roots b_k and the '
           'powers (r_k/r_(k+1))^(2 b_k)']
ASSUMPTIONS = ['radii decrease and are positive, conductivities are not '
               'negative, periods are positive, degree >= 1',
               'no overflow of (r_k/r_(k+1))^(2 b_k) other than to nan as '
               'handled by the code (floating point is real arithmetic)']
FN = ['coordinate_utils.q_response_1D']
FQ = ['coordinate_utils.q_response']


class Fam:
    """Admittances of the layers done so far."""
    f = None

    def terms(self, loop):
        return self.f.terms(loop) if self.f else []

    def tables(self, loop):
        return self.f.tables(loop) if self.f else []

    def late(self, loop):
        return self.f.late(loop) if self.f and hasattr(
            self.f, 'late') else []


class Model:
    """Conductivity model with N layers; lengths in km, as given."""

    def __init__(self, ctx, N, n, nper, sigma=None, radius=None):
        self.ctx, self.N, self.n = ctx, sym(N), sym(n)
        self.sig = sigma or (lambda k: core.uf('sigma', sym(k)))
        self.rad = radius or (lambda k: core._uf(
            'radius', sym(k), facts=lambda a: setattr(a, 'facts',
                                                      [a.z3 > 0])))
        self.T = [core.real(f'T{m}', lo=1, hi=9) for m in range(nper)]
        for t in self.T:
            ctx.assume(t > 0)
        self.s1 = core.real('s1', lo=1, hi=2)
        ctx.assume(self.s1 > 0)
        ctx.laplace, ctx.real_pow = self.s1, True

    def smu(self, m):
        """s mu_0, with s = i w = 2 pi i/T"""
        return 2*core.PI()*self.s1/self.T[m]*4*core.PI()/10**7

    def r(self, k):
        return 1000*self.rad(k)

    def arrays(self):
        def vec(f, name):
            if self.N.value() is None:
                return SymTable((self.N,), lambda ix: f(ix[0]), name)
            return objarr([f(k) for k in range(int(self.N.value()))])
        return vec(self.sig, 'sigma'), vec(self.rad, 'radius')


class Quadratic(Model):
    """sigma(r) = sigma_k (r_k/r)^2 for r_k >= r > r_(k+1).

    The field is r^2 G'' = (n (n+1) + s mu sigma_k r_k^2) G, solved by
    G = p r^(1/2 + b) + q r^(1/2 - b)."""

    def b(self, m, k):
        return core.sqrt((self.n + sym(1)/2)**2 + self.smu(m)*self.sig(k)
                         * self.r(k)**2)

    def Y(self, m, k):
        """G'/(s mu G) at r_k"""
        if CTX.fork(sym(k) == self.N - 1):
            return self.core(m, self.N - 1)
        return core.uf(f'Y{m}', sym(k))

    def core(self, m, k):
        """Regular in the centre: q = 0."""
        return (sym(1)/2 + self.b(m, k))/(self.smu(m)*self.r(k))

    def definition(self, m, k):
        if CTX.fork(sym(k) == self.N - 1):
            return self.core(m, self.N - 1)
        return self.up(m, k, self.Y(m, sym(k) + 1))/(self.smu(m)*self.r(k))

    def up(self, m, k, Yb):
        """r G'/G at r_k of the solution with G'/G continuous below."""
        b, half = self.b(m, k), sym(1)/2
        v = self.smu(m)*self.r(sym(k) + 1)*Yb       # r G'/G at r_(k+1)
        # the parts p r^(1/2 + b) and q r^(1/2 - b) at r_(k+1) (times 2 b)
        p, q = b + (v - half), b - (v - half)
        z = core.pow_sym(self.r(k)/self.r(sym(k) + 1), 2*b)
        if overflow(z):     # limit of large z
            return half + b
        return half + b*(p*z - q)/(p*z + q)

    def terms(self, loop):
        fam = self

        class Below:
            rank, quick = 1, True

            def layer(self, i):
                return fam.N - 1 - (sym(i) - loop.rng.lo)

            def all(self, f, i):
                return objarr([f(m, self.layer(i))
                               for m in range(len(fam.T))])

            def entry(self, i):
                return self.all(fam.definition, i)

            def at(self, i):
                return self.all(fam.Y, i)
            step = entry
        yield 'admittance of the layer below', Below()

    def tables(self, loop):
        fam = self

        class Val:
            def value(self, ix):
                return objarr([fam.Y(m, ix[0]) for m in range(len(fam.T))])

            def definition(self, ix):
                return objarr([fam.definition(m, ix[0])
                               for m in range(len(fam.T))])
        yield ('admittances of the layers below',
               lambda i, s: sym(s[0]) >= self.N - 1 - sym(i)
               if len(s) == 1 else None, Val())


def overflow(z):
    """The power z exceeds the floating point numbers."""
    if is_power(z):
        (m, _), = z.num.items()
        base = [T.atoms[i] for i, e in m if e > 0]
        base = {next(iter(x.args[0].atom_ids())) if x.fn == 'pow'
                else x.id for x in base}
        base = [T.atoms[i] for i in base]
        if len(base) == 1 and base[0].fn == 'radius':
            # by the period and the layer
            t = [i for i in all_ids(z) if T.atoms[i].name in ('T0', 'T1')]
            if len(t) <= 1:
                return CTX.fork(core.uf('OVERFLOW', *[
                    Sym.atom(T.atoms[i]) for i in t],
                    base[0].args[0]) > 0)
    raise Unsupported(f'overflow of this power {z!r}'[:200])


def all_ids(z, out=None):
    out = set() if out is None else out
    for i in z.atom_ids():
        if i not in out:
            out.add(i)
            for x in T.atoms[i].args or ():
                if isinstance(x, Sym):
                    all_ids(x, out)
    return out


def flags(test):
    def g(x):
        if not isinstance(x, (np.ndarray, Sym)):
            raise Unsupported('isnan, isinf of this value')
        a = objarr(x)
        out = np.zeros(a.shape, dtype=bool)
        for i in np.ndindex(*a.shape):
            out[i] = test(sym(a[i]))
        return out if isinstance(x, np.ndarray) else bool(out[()])
    return g


def is_power(z):
    return len(z.num) == 1 and any(T.atoms[i].fn == 'pow'
                                   for i in z.atom_ids())


def isinf(x):
    return is_power(x) and overflow(x)


def isnan(x):
    """inf/inf: the ratio (1 - z)/(1 + z) of an infinite power z."""
    for s in (1, -1):
        if (1 + s*x).value() == 0:
            continue
        z = (1 - s*x)/(1 + s*x)
        if is_power(z):
            return overflow(z)
    return False


def stubs(ctx, M):
    """abs and angle of the response: symbols of it."""
    M.ns['np'].isnan, M.ns['np'].isinf = flags(isnan), flags(isinf)
    M.ns['np'].isfinite = flags(lambda x: not (isnan(x) or isinf(x)))
    one = lambda name: lambda x: npx.lift1(
        lambda v: core.uf(name, sym(v)))(x)
    ab, an = one('ABS'), one('ARG')
    M.ns['np'].abs = M.ns['np'].absolute = ab
    M.ns['np'].angle = lambda z, deg=False: an(z)*(
        180/core.PI() if deg else 1)


def load(ctx):
    M = extract.load('coordinate_utils', {
        'config_utils': ConfigModule({}), 'data_utils': DU,
        'model_utils': DU})
    stubs(ctx, M)
    return M


class DU:
    def __getattr__(self, k):
        raise Unsupported(k)


DU = DU()


def quad_case(nper, N=None, n=None, scalar=False):
    fam = Fam()

    def body(ctx):
        nn = core.integer('n', lo=1, hi=5) if n is None else n
        NN = core.integer('N', lo=1, hi=5) if N is None else N
        if n is None:
            ctx.assume(nn >= 1)
        if N is None:
            ctx.assume(NN >= 1)
        q = fam.f = Quadratic(ctx, NN, nn, nper)
        M = load(ctx)
        sig, rad = q.arrays()
        T = q.T[0] if scalar else objarr(q.T)
        kind = {} if ctx.choose('default kind') else {'kind': 'quadratic'}
        st, r = outcome(M.ns['q_response_1D'], T, sig, rad, nn, **kind)
        post_true(ctx, f'result ({r!r})'[:100], st == 'ok')
        if st != 'ok':
            return
        C, rho, phi, Q = r
        a = q.rad(0)
        for x in (C, phi, Q):
            post_true(ctx, 'one value for each period',
                      np.shape(x) == (nper,))
            if np.shape(x) != (nper,):
                return
        for m in range(nper):
            Y = q.Y(m, 0) if q.N.value() is None else None
            if Y is None:
                # all layers
                Y = q.definition(m, int(q.N.value()) - 1)
                for k in range(int(q.N.value()) - 2, -1, -1):
                    Y = q.up(m, k, Y)/(q.smu(m)*q.r(k))
            c = 1/(q.smu(m)*Y*1000)     # G/G' at the surface, in km
            post_eq(ctx, f'C-response {m}', C[m], c)
            post_eq(ctx, f'Q-response {m}', Q[m], sym(nn)/(sym(nn) + 1) * (
                1 - (sym(nn) + 1)*c/a)/(1 + sym(nn)*c/a))
            post_eq(ctx, f'phase {m}', phi[m], 90 + sym(573)/10*core.uf(
                'ARG', sym(C[m])))
    return verify(f'q_response_1D quadratic, {nper} periods'
                  + (', scalar' if scalar else '')
                  + (f', {N} layers' if N else ''), body, FN, family=fam,
                  mode='proof' if N is None else 'bounded', fail_fast=False,
                  bound='' if N is None else f'{N} layers')


@R.contract('quadratic layers: continuity of the field at the interfaces',
            FN)
def quadratic(mode, tier):
    if mode == 'proof':
        return [quad_case(1), quad_case(2), quad_case(1, scalar=True)]
    return [quad_case(2, N=k, n=j) for k in (1, 2, 3) for j in (1, 2, 5)]


# --- consequences of the contract -----------------------------------------

def quad(ctx, nper=1, N=None, sigma=None):
    n = core.integer('n', lo=1, hi=5)
    ctx.assume(n >= 1)
    q = Quadratic(ctx, core.integer('N', lo=3, hi=6) if N is None else N, n,
                  nper, sigma=sigma)
    return q, n


def ode(ctx):
    """p r^(1/2 + b) and q r^(1/2 - b) solve r^2 G'' = (n (n + 1) + s mu
    sigma_k r_k^2) G, as sigma(r) r^2 = sigma_k r_k^2 within the layer."""
    q, n = quad(ctx)
    k = core.integer('k', lo=0, hi=2)
    b = q.b(0, k)
    for s in (1, -1):
        c = sym(1)/2 + s*b
        post_eq(ctx, f'solution {s:+d} of the induction equation',
                c*(c - 1), n*(n + 1) + q.smu(0)*q.sig(k)*q.r(k)**2)
    # up: r G'/G of G = p + q at the lower, p z + q (up to a common factor)
    # at the upper interface
    v = core.real('v', lo=1, hi=5)
    p, m = b + v - sym(1)/2, b - v + sym(1)/2
    post_eq(ctx, 'continuity of G\'/G', (sym(1)/2 + b)*p
            + (sym(1)/2 - b)*m, v*(p + m))
    CTX.assume(core.uf('OVERFLOW', q.T[0], sym(k)) <= 0)
    z = core.pow_sym(q.r(k)/q.r(k + 1), 2*b)
    u = q.up(0, k, v/(q.smu(0)*q.r(k + 1)))
    post_eq(ctx, 'r G\'/G above', u*(p*z + m),
            (sym(1)/2 + b)*p*z + (sym(1)/2 - b)*m)


def subdivision(ctx):
    """An interface within a layer: same sigma(r) r^2 on both sides."""
    q, n = quad(ctx)
    s0 = core.real('sigma0', lo=0, hi=2)
    ctx.assume(s0 >= 0)
    k = core.integer('k', lo=0, hi=1)
    v = core.real('v', lo=1, hi=5)
    r0, r1, r2 = q.r(k), q.r(k + 1), q.r(k + 2)
    # same sigma(r) r^2
    S = s0*r0**2
    q.sig = lambda j: S/q.r(j)**2
    post_eq(ctx, 'same exponents', q.b(0, k), q.b(0, k + 1))
    b, half = q.b(0, k), sym(1)/2

    def step(v, ra, rb):
        z = core.pow_sym(ra/rb, 2*b)
        p, m = b + (v - half), b - (v - half)
        return half + b*(p*z - m)/(p*z + m)
    for j in (k, k + 1):
        CTX.assume(core.uf('OVERFLOW', q.T[0], sym(j)) <= 0)
    up = lambda j, v: q.up(0, j, v/(q.smu(0)*q.r(j + 1)))
    post_eq(ctx, 'the layer', up(k, v), step(v, r0, r1))
    post_eq(ctx, 'the layer below', up(k + 1, v), step(v, r1, r2))
    post_eq(ctx, 'both', up(k, up(k + 1, v)), step(v, r0, r2))
    # within the inner sphere
    c = half + b
    post_eq(ctx, 'inner sphere', up(k, c), c)


def surface(ctx):
    """Potential a (r/a)^n + Q a (a/r)^(n+1) outside: r B_r is proportional
    to G, the tangential components to r dG/dr, both continuous at r = a."""
    n = core.integer('n', lo=1, hi=5)
    ctx.assume(n >= 1)
    u = core.real('u', lo=1, hi=50)      # r G'/G at the surface
    a = core.real('a', lo=1, hi=9)
    ctx.assume(u > 0)
    ctx.assume(a > 0)
    C = a/u
    Q = n/(n + 1)*(1 - (n + 1)*C/a)/(1 + n*C/a)
    # B_r = -dV/dr = -(n - (n + 1) Q) Y, B_t = -(1 + Q) dY; the field inside
    # B_r = n (n + 1) G/r^2 Y, B_t = G'/r dY
    post_eq(ctx, 'matching at the surface',
            -(n - (n + 1)*Q)*u, -(1 + Q)*n*(n + 1))
    post_eq(ctx, 'distance to the perfect conductor', n/(n + 1) - Q,
            n*(2*n + 1)/((n + 1)*(u + n)))
    post_true(ctx, 'below the perfect conductor', Q < n/(n + 1))


def limits(ctx):
    """b, v, z as real variables: b > 1/2, z > 1."""
    b, v, z = (core.real(x, lo=2, hi=9) for x in 'bvz')
    half = sym(1)/2
    ctx.assume(b > half)
    ctx.assume(v > half)
    ctx.assume(z > 1)
    p, m = b + (v - half), b - (v - half)
    post_true(ctx, 'p > 0', p > 0)
    post_true(ctx, 'p - q > 0', p - m > 0)
    post_true(ctx, 'p + q > 0', p + m > 0)
    ctx.assume(p*z > p)
    post_true(ctx, 'defined', p*z + m > 0)
    # (p z - q)/(p z + q) >= (z - 1)/(z + 1), cross multiplied:
    # the difference is 2 z (p - q)
    post_eq(ctx, 'difference', (p*z - m)*(z + 1) - (z - 1)*(p*z + m),
            2*z*(p - m))
    post_true(ctx, 'r G\'/G is at least 1/2 + b (z - 1)/(z + 1)',
              z*(p - m) > 0)


@R.contract('lemmas: field equation, continuity, subdivision, limits', FN,
            modes=('proof',))
def lemmas(mode, tier):
    return [verify('lemma: ' + name, f, FN, fail_fast=False)
            for name, f in [('induction equation', ode),
                            ('subdividing a layer', subdivision),
                            ('surface', surface), ('limits', limits)]]


class Insulator(Quadratic):
    """Potential field: G = r^(n + 1)."""

    def Y(self, m, k):
        return (self.n + 1)/(self.smu(m)*self.r(k))

    def definition(self, m, k):
        return self.Y(m, k)


@R.contract('quadratic layers: no response of an insulator', FN,
            modes=('proof',))
def insulator(mode, tier):
    fam = Fam()

    def body(ctx):
        nn, NN = core.integer('n', lo=1, hi=5), core.integer('N', lo=1, hi=5)
        ctx.assume(nn >= 1)
        ctx.assume(NN >= 1)
        q = fam.f = Insulator(ctx, NN, nn, 1, sigma=lambda k: sym(0))
        M = load(ctx)
        sig, rad = q.arrays()
        st, r = outcome(M.ns['q_response_1D'], objarr(q.T), sig, rad, nn)
        post_true(ctx, f'result ({r!r})'[:100], st == 'ok')
        if st == 'ok':
            post_eq(ctx, 'Q-response', r[3][0], 0)
            post_eq(ctx, 'C-response', r[0][0], q.rad(0)/(nn + 1))
    return verify('q_response_1D quadratic, insulator', body, FN, family=fam,
                  fail_fast=False)


# --- layers of constant conductivity --------------------------------------

class Rec:
    """The value X(t) after t iterations: X(0) = first, X(t) = next(t)."""
    quick = True        # by algebra

    def __init__(self, loop, at, first, step, rank=2):
        self.rank = rank
        self.lo, self.X, self.first, self.next = loop.rng.lo, at, first, step

    def entry(self, i):
        return objarr(sym(self.first))

    def at(self, i):
        return objarr(sym(self.X(sym(i) - self.lo)))

    def step(self, i):
        return objarr(sym(self.next(sym(i) - self.lo)))


class Element:
    """One element of an array follows the recurrence."""
    quick = True

    def __init__(self, rec, ix, v=None):
        self.rec, self.ix, self.v = rec, ix, v
        self.rank = rec.rank

    def bind(self, v):
        return Element(self.rec, self.ix, v)

    def _put(self, x):
        if x is None or self.v.shape != (2,):
            return None
        out = self.v.copy()
        out[self.ix] = x[()]
        return out

    def entry(self, i):
        v = self.v[self.ix] if self.v.shape == (2,) else None
        x = self.rec.entry(i)
        if not isinstance(v, (int, Sym)) or (sym(v) - x[()]).value() != 0:
            return None
        return self._put(x)

    def at(self, i):
        return self._put(self.rec.at(i))

    def step(self, i):
        return self._put(self.rec.step(i))


class Constant(Model):
    """sigma(r) = sigma_k for r_k >= r > r_(k+1), k < N - 1; perfect
    conductor below r_(N-1).

    The field G = r f, f(r) a combination of the spherical modified Bessel
    functions of x = K_k r of degree n, K_k^2 = s mu sigma_k."""

    def K(self, m, k):
        return core.sqrt(self.smu(m)*self.sig(k))

    def z(self, m, k, end):
        """Argument at the upper (0) and lower (1) interface of layer k"""
        return self.K(m, k)*self.r(sym(k) + end)

    def name(self, m, k, end, t):
        return self.T[m], sym(k), sym(end), sym(t)

    # small arguments: power series
    def term(self, kind, m, k, e, t, step=False):
        """TP(t) = TP(t-1) x^2/2/t/(2t+1+2n), TQ(t) likewise."""
        if not step:
            return core.uf('T' + kind, *self.name(m, k, e, t))
        x2 = self.z(m, k, e)**2
        c = 2*t + 1 + 2*self.n if kind == 'P' else 2*t - 1 - 2*self.n
        return self.term(kind, m, k, e, t - 1)*x2/2/t/c

    def power(self, kind, t):
        """Exponent of x in the t-th term"""
        return 2*t + self.n if kind == 'P' else 2*t - self.n - 1

    def series(self, loop, m, k, e):
        for kind in 'PQ':
            T = lambda t, kind=kind, **o: self.term(kind, m, k, e, t, **o)
            yield f'term {kind}{e}', Rec(loop, T, 1,
                                         lambda t, T=T: T(t, step=True), 1)
            for d in (False, True):
                nm = 'S' + kind + 'd'*d

                def w(t, d=d, kind=kind):
                    return self.power(kind, t) if d else 1

                def at(t, nm=nm):
                    if getattr(loop, 'state', None) == 'exit':
                        self.count[e] = t
                    return core.uf(nm, *self.name(m, k, e, t))
                r = Rec(loop, at, w(sym(0)),
                        lambda t, nm=nm, T=T, w=w:
                        core.uf(nm, *self.name(m, k, e, t - 1))
                        + T(t, step=True)*w(t))
                yield f'sum {nm}{e}', r
                for ix in (0, 1):
                    yield f'sum {nm}{e} [{ix}]', Element(r, (ix,))

    # large arguments: finite series
    def asym(self, loop, m, k, e):
        z2 = 2*self.z(m, k, e)
        D = lambda t: core.uf('D', *self.name(m, k, e, t))

        def step(t):
            return D(t - 1)*(self.n + 1 - t)*(self.n + t)/t/z2
        sg = lambda t: core.pow_sym(sym(-1), t)
        yield f'term D{e}', Rec(loop, D, 1, step, 1)
        sign = Rec(loop, sg, 1, lambda t: -sg(t - 1), .5)
        sign.anytype = True
        yield 'sign', sign
        for nm, s, d in (('RP', 0, 0), ('RM', 1, 0), ('RPd', 0, 1),
                         ('RMd', 1, 1)):
            r = lambda t, nm=nm: core.uf(nm, *self.name(m, k, e, t))
            yield f'sum {nm}{e}', Rec(
                loop, r, 1, lambda t, r=r, s=s, d=d: r(t - 1) + step(t)
                * (-sg(t - 1) if s else 1)*(t + 1 if d else 1))

    def layer(self, loop):
        return loop.outer_loops[-1].target if loop.outer_loops else None

    def terms(self, loop):
        k = self.layer(loop)
        if k is None:
            return
        m, out = self.period(loop.outer_loops[-1]), []
        # the second execution is probably the one for the lower interface
        for e in (1, 0) if self.occ(loop) % 2 else (0, 1):
            if loop.var.startswith('_dv_w'):
                out += self.series(loop, m, k, e)
            else:
                out += self.asym(loop, m, k, e)
        # first the terms, then the sums of these
        yield from sorted(out, key=lambda x: x[1].rank)

    def tables(self, loop):
        return []

    def BB(self, m, k):
        return core.uf('B', self.T[m], sym(k))

    def late(self, loop):
        if loop.outer_loops:
            return
        yield "f'/f", Late(self, loop, self.period(loop))

    @staticmethod
    def occ(loop):
        return int((str(loop.lid) + '.0').split('.')[1])

    def period(self, loop):
        """The loop over the layers is executed for every period."""
        return min(self.occ(loop), len(self.T) - 1)

    # solutions P, Q and derivatives at the upper and lower interface
    def functions(self, m, k, e):
        z, n = self.z(m, k, e), self.n
        if self.count:      # the power series were summed up
            J = self.count.get(e)
            if J is None:
                raise Unsupported('power series at one interface only')
            S = lambda nm: core.uf(nm, *self.name(m, k, e, J))
            u = core.pow_sym(z, n)
            return S('SP')*u, S('SPd')*u/z, S('SQ')/u/z, S('SQd')/u/z**2
        t = n
        S = lambda nm: core.uf(nm, *self.name(m, k, e, t))
        E, sg = self.exp(m, k, e), core.pow_sym(sym(-1), n)
        z2 = 2*z
        P = (S('RM')*E - sg*S('RP')/E)/z2
        Pd = (S('RM')*E + sg*S('RP')/E)/z2 - 2*(
            S('RMd')*E - sg*S('RPd')/E)/z2**2
        Q = S('RP')/E/z2
        Qd = -Q - 2*S('RPd')/E/z2**2
        return P, Pd, Q, Qd

    def exp(self, m, k, e):
        return core.uf('EXP', self.z(m, k, e))

    def definition(self, m, k):
        """f'/f at r_k"""
        K = self.K(m, k)
        P0, Pd0, Q0, Qd0 = self.functions(m, k, 0)
        P1, Pd1, Q1, Qd1 = self.functions(m, k, 1)
        if CTX.fork(sym(k) == self.N - 2):      # f = 0 below
            p, q = Q1, -P1
        else:       # f'/f continuous
            B = self.BB(m, sym(k) + 1)
            p, q = K*Qd1 - B*Q1, -(K*Pd1 - B*P1)
        return K*(p*Pd0 + q*Qd0)/(p*P0 + q*Q0)


class Late:
    quick = True

    def __init__(self, model, loop, m):
        self.model, self.loop, self.m = model, loop, m

    def layer(self, i):
        """the layer treated last"""
        return self.loop.rng.at(sym(i) - 1)

    def __call__(self, i):
        return self.model.BB(self.m, self.layer(i))

    def step(self, i):
        return self.model.definition(self.m, self.layer(i))


def exponential(model):
    """exp(sum of c z) as the product of exp(z)^c, z a multiple of r_k."""
    def unit(x):
        (m, c), = x.num.items()
        (d, e), = x.den.items()
        return core.Fraction(c)/e

    def one(x):
        x = sym(x)
        if x.value() == 0:
            return sym(1)
        if len(x.den) != 1:
            raise Unsupported('exponential')
        out, c0 = sym(1), unit(model.z(0, 0, 0))
        for m, c in x.num.items():
            z = Sym({m: c})/Sym(x.den)
            k = unit(z)/c0
            if k.denominator != 1:
                raise Unsupported('exponential')
            out = out*core.uf('EXP', z/int(k))**k.numerator
        return out
    return lambda x: npx.lift1(one)(x) if isinstance(
        x, np.ndarray) else one(x)


def const_case(nper):
    fam = Fam()

    def body(ctx):
        nn, NN = core.integer('n', lo=1, hi=5), core.integer('N', lo=2, hi=5)
        ctx.assume(nn >= 1)
        ctx.assume(NN >= 2)
        ctx.cut_while = True
        pos = lambda a: setattr(a, 'facts', [a.z3 > 0])
        q = fam.f = Constant(ctx, NN, nn, nper, sigma=lambda k: core._uf(
            'sigma', sym(k), facts=pos))
        q.count = {}
        ctx.small_factorial = None
        M = load(ctx)
        M.ns['np'].exp = exponential(q)
        sig, rad = q.arrays()
        st, r = outcome(M.ns['q_response_1D'], objarr(q.T), sig, rad, nn,
                        kind='constant')
        post_true(ctx, f'result ({r!r})'[:100], st == 'ok')
        if st != 'ok':
            return
        C, rho, phi, Q = r
        a = q.rad(0)
        for x in (C, phi, Q):
            post_true(ctx, 'one value for each period',
                      np.shape(x) == (nper,))
            if np.shape(x) != (nper,):
                return
        for m in range(nper):
            c = 1/(1/a + 1000*q.BB(m, 0))
            post_eq(ctx, f'C-response {m}', C[m], c)
            post_eq(ctx, f'Q-response {m}', Q[m], sym(nn)/(sym(nn) + 1) * (
                1 - (sym(nn) + 1)*c/a)/(1 + sym(nn)*c/a))
            post_eq(ctx, f'phase {m}', phi[m], 90 + sym(573)/10*core.uf(
                'ARG', sym(C[m])))
    return verify(f'q_response_1D constant, {nper} periods', body, FN,
                  family=fam, mode='proof', fail_fast=False)


@R.contract('constant layers: continuity of the field at the interfaces', FN,
            modes=('proof',))
def constant(mode, tier):
    return [const_case(1)]


@R.contract('constant layers: two periods', FN, modes=('proof',))
def constant2(mode, tier):
    return [const_case(2)]


def bessel(ctx):
    """f = sum of a_j x^(2j + n) (and x^(2j - n - 1)) and e^(sx) sum of
    d_j (2x)^(-j - 1), s = +-1, solve x^2 f'' + 2 x f' = (x^2 + n (n + 1)) f
    term by term; G = r f(K r) the induction equation."""
    n, j, k = (core.integer(x, lo=1, hi=4) for x in 'njk')
    for x in (n, j):
        ctx.assume(x >= 1)
    q = Constant(ctx, core.integer('N', lo=6, hi=8), n, 1,
                 sigma=lambda k: core._uf('sigma', sym(k), facts=lambda a:
                                          setattr(a, 'facts', [a.z3 > 0])))
    z = q.z(0, k, 0)
    post_eq(ctx, 'K^2', q.K(0, k)**2, q.smu(0)*q.sig(k))
    for kind in 'PQ':
        e = q.power(kind, j)
        # a_j e (e + 1) - n (n + 1) a_j = a_(j-1), T = a_j x^(2j)
        post_eq(ctx, f'power series {kind}',
                q.term(kind, 0, k, 0, j, step=True)*(e*(e + 1) - n*(n + 1)),
                q.term(kind, 0, k, 0, j - 1)*z**2)
        e = q.power(kind, sym(0))
        post_eq(ctx, f'first term of {kind}', e*(e + 1), n*(n + 1))
    # asymptotic series: d_j = D(j) (-s)^j, D(j) from the code
    D1 = core.real('D', lo=1, hi=5)
    D = D1*(n + 1 - j)*(n + j)/j/2
    for s in (1, -1):
        post_eq(ctx, f'series of exp({s:+d} x)',
                -2*s*j*(-s*D) + D1*(j*(j - 1) - n*(n + 1)), 0)
    end = CTX.fork(j == n + 1)
    if end:
        post_eq(ctx, 'last term', D, 0)


@R.contract('lemmas: spherical Bessel functions', FN, modes=('proof',))
def lemmas2(mode, tier):
    return [verify('lemma: spherical Bessel functions', bessel, FN,
                   fail_fast=False)]


# --- q_response -----------------------------------------------------------

def response(freq, case):
    """freq: signs of the frequencies"""
    fam = Fam()

    def body(ctx):
        nmax, N = (core.integer(x, lo=1, hi=4) for x in ('nmax', 'N'))
        ctx.assume(nmax >= 1)
        ctx.assume(N >= 1)
        F = len(freq)
        f = [core.real(f'f{i}', lo=1, hi=2)*s for i, s in enumerate(freq)]
        for i, s in enumerate(freq):
            if s:
                ctx.assume(core.real(f'f{i}') > 0)
        model = lambda k, c: core.uf('model', sym(k), sym(c))
        path = object()
        M = extract.load('coordinate_utils', {
            'config_utils': ConfigModule({'file.Earth_conductivity': path}),
            'data_utils': DU, 'model_utils': DU})
        used = []

        def loadtxt(p, *a, **k):
            if a or not k.items() <= {'ndmin': 2}.items():
                raise Unsupported('np.loadtxt options')
            post_true(ctx, 'file of the configuration', p is path)
            if not k and CTX.fork(N == 1):      # one line is a vector
                return objarr([model(0, 0), model(0, 1)])
            return SymTable((N, 2), lambda ix: objarr(
                [model(ix[0], 0), model(ix[0], 1)]), 'file')
        M.ns['np'].loadtxt = loadtxt

        def q1(periods, sigma, radius, n, kind=None):
            post_true(ctx, 'quadratic layers', kind in (None, 'quadratic'))
            k = core.integer('layer', lo=0, hi=3)
            ctx.assume(b_and(k >= 0, k < N))
            for x in (sigma, radius):
                post_true(ctx, 'one value for each layer',
                          isinstance(x, SymTable) and len(x.axes) == 1
                          and x.axes[0] == N)
            post_eq(ctx, 'conductivity', sigma[k], model(k, 1))
            post_eq(ctx, 'radius from depth', radius[k],
                    sym(63712)/10 - model(k, 0))
            used.append(1)
            one = lambda name: objarr([core.uf(name, sym(p), sym(n))
                                       for p in periods])
            return tuple(one(x) for x in ('C', 'RHO', 'PHI', 'Q'))
        M.ns['q_response_1D'] = q1

        def want(n, i):
            return core.uf('Q', 1/f[i], sym(n) + 1) if freq[i] > 0 else sym(0)

        class Val:
            def value(self, ix):
                return objarr([want(ix[0], i) for i in range(F)])

        class Zeros:
            timed = True

            def __init__(self, lo):
                self.lo = lo

            def value(self, ix, i):
                if CTX.fork(sym(ix[0]) < sym(i) - self.lo):
                    return Val().value(ix)
                return objarr([sym(0)]*F)

        class Family:
            def terms(self, loop):
                return []

            def tables(self, loop):
                yield ('responses so far, then zeros', lambda i, s: sym(
                    s[0]) < nmax if len(s) == 1 else None, Zeros(
                        loop.rng.lo))
                yield ('responses so far', lambda i, s: s[0] < i - loop.rng.lo
                       if len(s) == 1 else None, Val())
        fam.f = Family()
        st, r = outcome(M.ns['q_response'], objarr(f), nmax)
        post_true(ctx, f'result ({r!r})'[:100], st == 'ok')
        if st != 'ok':
            return
        n = core.integer('row', lo=0, hi=3)
        ctx.assume(b_and(n >= 0, n < nmax))
        post_true(ctx, 'rows and columns', isinstance(r, SymTable)
                  and r.shape[0] == nmax and r.shape[1] == F)
        for i in range(F):
            post_eq(ctx, f'row n - 1 is degree n, frequency {i}', r[n, i],
                    want(n, i))
    return verify(f'q_response, {case}', body, FQ, family=fam,
                  fail_fast=False)


@R.contract('responses of the configured model by degree and frequency', FQ,
            modes=('proof',))
def responses(mode, tier):
    return [response((0, 1, 1, -1), 'zero and two-sided frequencies'),
            response((1,), 'one frequency'), response((0,), 'mean only')]
