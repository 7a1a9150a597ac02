"""P03: design matrices."""
from pydv import core, extract, spec
from pydv.contract import *       # noqa
from pydv.core import CTX, b_and, b_or, sym
from pydv.npx import SymTable
from pydv.registry import Registry

R = Registry('P03')
TRUSTED = ['legendre_poly by its contract (verified as property P02)',
           'columns are defined by the position of (n, m): the enumeration '
           'cnt(n) + 2m - 1 of orders is injective',
           'scipy BSpline evaluates sum_j c_j N_j^(nu)(x) (assumed contract)']
ASSUMPTIONS = ['radius > 0 and reference radius > 0',
               'representative array shapes stand for all shapes']
FG = ['model_utils.design_gauss']


class Fam:
    f = None

    def terms(self, loop):
        return self.f.terms(loop) if self.f else []

    def tables(self, loop):
        return self.f.tables(loop) if self.f else []


def gauss_case(label, rshape, tshape, pshape, source, N=None,
               given=('nmin', 'mmax'), budget=150):
    fam = Fam()

    def body(ctx):
        rs = core.real('r_surf', lo=1000, hi=7000)
        ctx.assume(rs > 0)
        M = extract.load('model_utils',
                         {'config_utils': ConfigModule({'params.r_surf': rs})})
        M.ns['legendre_poly'] = spec.legendre_contract(ctx)
        r = reals('r', rshape, assume=False, lo=3000, hi=8000)
        for v in objarr(r).flat:
            ctx.assume(v > 0)
        th = reals('th', tshape, lo=0, hi=180)
        ph = reals('ph', pshape)
        if N is None:
            nmin = core.integer('nmin', lo=1, hi=4) if 'nmin' in given \
                else sym(1)
            nmax = core.integer('nmax', lo=1, hi=9)
            mmax = core.integer('mmax', lo=0, hi=9) if 'mmax' in given \
                else nmax
            ctx.assume(b_and(nmin >= 1, nmax >= nmin, mmax >= 0,
                             mmax <= nmax))
        else:
            nmin, nmax, mmax = N
        F = spec.FieldFamily(source or 'internal', None, None, None, None,
                             nmin, nmax, mmax)
        b = np.broadcast(objarr(r), objarr(th), objarr(ph))
        full = lambda a: (np.broadcast_to(objarr(a), b.shape)
                          if b.shape else objarr(a)[()])
        F.x, F.th, F.ph = full(objarr(r)/rs), full(th), full(ph)
        F.x0 = objarr(r)/rs if rshape else r/rs
        F.shape = b.shape
        F.g = None
        fam.f = F
        kw = {}
        if 'nmin' in given:
            kw['nmin'] = nmin
        if 'mmax' in given:
            kw['mmax'] = mmax
        if source:
            kw['source'] = source
        A = M.ns['design_gauss'](r, th, ph, nmax, **kw)
        if not (isinstance(A, tuple) and len(A) == 3):
            post_true(ctx, 'three matrices', False)
            return
        dim = F.cnt(sym(nmax) + 1)
        if N is not None:
            dim = int(sym(dim).value())
        for comp, a in zip('rtp', A):
            lab = {'r': 'A_radius', 't': 'A_theta', 'p': 'A_phi'}[comp]
            post_true(ctx, f'{lab}: number of dimensions',
                      len(a.shape) == len(b.shape) + 1)
            post_true(ctx, f'{lab}: shape', a.shape[:-1] == b.shape)
            post_eq(ctx, f'{lab}: number of columns', sym(a.shape[-1]),
                    sym(dim), refutable=N is not None)
            if N is None:
                j = core.integer('j', lo=0, hi=20)
                sub = b_and(j >= 0, j < dim)
                ctx.assume(sub)
                post_eq(ctx, f'{lab}: every column is that of its '
                        'coefficient', a[..., j], F.column(j, comp),
                        refutable=False)
            else:
                if a.shape[-1] != dim:
                    return
                k = 0
                for n in range(nmin, nmax + 1):
                    post_eq(ctx, f'{lab}: column ({n},0)', a[..., k],
                            F.unit(n, 0, comp, 'cos'))
                    k += 1
                    for m in range(1, min(n, mmax) + 1):
                        for w in ('cos', 'sin'):
                            post_eq(ctx, f'{lab}: column ({n},{m},{w})',
                                    a[..., k], F.unit(n, m, comp, w))
                            k += 1
    return verify(f'{label}: r{rshape} theta{tshape} phi{pshape}, '
                  f'{source or "default"} source'
                  + (f', (nmin, nmax, mmax) = {N}' if N else ', all degrees'),
                  body, FG, family=fam, fail_fast=False, budget=budget,
                  mode='proof' if N is None else 'bounded',
                  bound='' if N is None else
                  f'(nmin, nmax, mmax) = {N}, all real inputs')


SMALL = [(1, 1, 1), (1, 2, 2), (2, 3, 3), (1, 3, 1), (3, 4, 1), (1, 2, 0)]


def _reg(label, rshape, tshape, pshape, source, given=('nmin', 'mmax'),
         small=SMALL, budget=150):
    @R.contract(label, FG)
    def f(mode, tier):
        if mode == 'proof':
            return gauss_case(label, rshape, tshape, pshape, source,
                              given=given, budget=budget)
        return [gauss_case(label, rshape, tshape, pshape, source, N=n,
                           given=given) for n in small]


_reg('design_gauss, internal', (), (), (), 'internal')
_reg('design_gauss, external', (), (), (), 'external')
_reg('design_gauss, defaults', (), (), (), None, given=(),
     small=[(1, 1, 1), (1, 3, 3)])
_reg('design_gauss, array batch', (2,), (2,), (2,), 'internal',
     small=[(1, 2, 2), (2, 3, 1)], budget=300)
_reg('design_gauss, broadcasting', (), (2, 1), (1,), 'external',
     small=[(1, 2, 2)], budget=300)



# ----------------------------------------------------- the temporal variant

class Kron:
    """Invariants of the loop over coefficients: KR(j) is defined by
    KR(i*nseg + s) = A(i)*N(s) for 0 <= s < nseg."""

    def __init__(self, nseg, ntd, A, N):
        self.nseg, self.ntd, self.A, self.N = nseg, ntd, A, N
        self.shape = (2,)

    def kr(self, comp, j):
        return objarr([core.uf(f'KR{comp}_{d}', sym(j)) for d in range(2)])

    def terms(self, loop):
        yield 'i*nseg', lambda i: sym(i)*self.nseg

    def tables(self, loop):
        fam = self
        for comp in 'rtp':
            class Val:
                timed = True

                def __init__(self, comp):
                    self.comp = comp

                def value(self, ix, i):
                    return fam.kr(self.comp, ix[0])

                def definition(self, ix):
                    j, i = sym(ix[0]), sym(loop.index)
                    lo = i*fam.nseg
                    if CTX.fork(j >= lo):
                        return objarr([
                            fam.A(self.comp, i)[d]*fam.N(j - lo)[d]
                            for d in range(2)])
                    return fam.kr(self.comp, j)
            yield (f'Kronecker columns ({comp}) of the coefficients so far',
                   lambda i, s: sym(s[0]) < sym(i)*fam.nseg, Val(comp))


def matrix_case(ntd_c=None, nst_given='both', source='internal', N=None):
    """design_matrix against the contracts of design_gauss and colloc_matrix.
    nst_given: 'both' (n_static > n_tdep), 'equal', 'none'."""
    fam = Fam()

    def body(ctx):
        M = extract.load('model_utils',
                         {'config_utils': ConfigModule({'params.r_surf':
                                                        6371.2})})
        log = {}
        t = reals('t', (2,))
        r = reals('r', (2,), lo=3000, hi=8000)
        th = reals('th', (2,), assume=False, lo=1, hi=179)
        for x in th:
            ctx.assume(b_and(x > 0, x < 180))
        ph = reals('ph', (2,))
        knots = objarr([core.real(f'k{i}') for i in range(4)])
        order = core.integer('order', lo=1, hi=6)
        ctx.assume(order >= 1)
        if N is None:
            ntd = core.integer('ntd', lo=1, hi=4)
            nst = core.integer('nst', lo=1, hi=8)
            nseg = core.integer('nseg', lo=1, hi=6)
            ctx.assume(b_and(ntd >= 1, nseg >= 1))
            if nst_given == 'both':
                ctx.assume(nst > ntd)
        else:
            ntd, nst, nseg = N
        if nst_given != 'both':
            nst = ntd

        def A(comp, j):
            return objarr([core.uf(f'A{comp}_{d}', sym(j)) for d in range(2)])

        def B(s):
            return objarr([core.uf(f'N_{d}', sym(s)) for d in range(2)])

        def gauss(radius, theta, phi, nmax, *, nmin=None, mmax=None,
                  source=None):
            log['gauss'] = (radius, theta, phi, nmax, nmin, mmax, source)
            dim = sym(nmax)*(sym(nmax) + 2)
            out = []
            for comp in 'rtp':
                if dim.value() is None:
                    out.append(SymTable((2, dim),
                                        lambda ix, c=comp: A(c, ix[0])))
                else:
                    out.append(np.stack([A(comp, j) for j in
                                         range(int(dim.value()))], axis=1))
            return tuple(out)

        def colloc(x, k, o, deriv=None):
            log['colloc'] = (x, k, o, deriv)
            if N is None:
                return SymTable((2, nseg), lambda ix: B(ix[0]))
            return np.stack([B(s) for s in range(nseg)], axis=1)
        M.ns['design_gauss'], M.ns['colloc_matrix'] = gauss, colloc
        fam.f = Kron(nseg, ntd, A, B)
        kw = {}
        if nst_given == 'both' or nst_given == 'equal':
            kw['n_static'] = nst
        if source:
            kw['source'] = source
        G = M.ns['design_matrix'](knots, order, ntd, t, r, th, ph, **kw)
        g = log.get('gauss')
        post_true(ctx, 'design_gauss and colloc_matrix are used',
                  g is not None and 'colloc' in log)
        for lab, a, b in zip(('radius', 'theta', 'phi'), g, (r, th, ph)):
            post_eq(ctx, f'design_gauss: {lab} passed on', a, b)
        post_eq(ctx, 'design_gauss: degree', sym(g[3]), sym(nst))
        post_true(ctx, 'design_gauss: no lower degree limit', g[4] is None
                  or sym(g[4]).value() == 1)
        if g[5] is not None:
            post_eq(ctx, 'design_gauss: no order limit', sym(g[5]), sym(nst))
        post_true(ctx, 'design_gauss: source',
                  (g[6] or 'internal') == (source or 'internal'))
        c = log['colloc']
        post_eq(ctx, 'colloc_matrix: times', c[0], t)
        post_eq(ctx, 'colloc_matrix: knots', c[1], knots)
        post_eq(ctx, 'colloc_matrix: order', sym(c[2]), order)
        post_true(ctx, 'colloc_matrix: no derivative', c[3] is None
                  or sym(c[3]).value() == 0)
        if not (isinstance(G, tuple) and len(G) == 3):
            post_true(ctx, 'three matrices', False)
            return
        ct, cs = sym(ntd)*(sym(ntd) + 2), sym(nst)*(sym(nst) + 2)
        for comp, a in zip('rtp', G):
            post_true(ctx, 'rows', a.shape[0] == 2)
            post_eq(ctx, 'number of columns', sym(a.shape[1]),
                    ct*nseg + cs - ct)
            if N is None:
                i = core.integer('i', lo=0, hi=8)
                s = core.integer('s', lo=0, hi=5)
                ctx.assume(b_and(i >= 0, i < ct, s >= 0, s < nseg))
                # i*nseg + s < ct*nseg (product of the bounds)
                ctx.assume(i*nseg + s < ct*nseg)
                post_eq(ctx, f'time-dependent columns ({comp})',
                        a[:, i*nseg + s], fam.f.kr(comp, i*nseg + s))
                j = core.integer('j', lo=0, hi=8)
                ctx.assume(b_and(j >= 0, j < cs - ct))
                post_eq(ctx, f'static columns ({comp})', a[:, ct*nseg + j],
                        A(comp, ct + j))
            else:
                c0, c1 = int(ct.value()), int(cs.value())
                if a.shape[1] != c0*nseg + c1 - c0:
                    return
                for i in range(c0):
                    for s in range(nseg):
                        post_eq(ctx, f'column ({i},{s})', a[:, i*nseg + s],
                                A(comp, i)*B(s))
                for j in range(c1 - c0):
                    post_eq(ctx, f'static column {j}', a[:, c0*nseg + j],
                            A(comp, c0 + j))
    return verify(f'design_matrix, n_static {nst_given}, '
                  f'{source or "default"} source'
                  + (f', sizes {N}' if N else ''), body,
                  ['model_utils.design_matrix'], family=fam,
                  fail_fast=False, mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'(n_tdep, n_static, n_segment)'
                  f' = {N}, all real inputs')


def _mat(nst_given, source):
    @R.contract(f'design_matrix, n_static {nst_given}, '
                f'{source or "default"} source',
                ['model_utils.design_matrix'])
    def f(mode, tier):
        if mode == 'proof':
            return matrix_case(nst_given=nst_given, source=source)
        return [matrix_case(nst_given=nst_given, source=source, N=n)
                for n in ((1, 2, 3), (2, 3, 1), (1, 1, 2))
                if (n[1] > n[0]) == (nst_given == 'both') or
                nst_given != 'both']


_mat('both', 'internal')
_mat('both', None)
_mat('none', 'external')
_mat('equal', 'internal')


@R.contract('design_matrix rejects a smaller static field',
            ['model_utils.design_matrix'], modes=('proof',))
def small_static(mode, tier):
    def body(ctx):
        M = extract.load('model_utils', {
            'config_utils': ConfigModule({'params.r_surf': 6371.2})})
        ntd, nst = core.integer('ntd'), core.integer('nst')
        ctx.assume(b_and(nst >= 1, nst < ntd))
        th = reals('th', (2,), assume=False)
        for x in th:
            ctx.assume(b_and(x > 0, x < 180))
        st, _ = outcome(M.ns['design_matrix'], reals('k', (4,)), 2, ntd,
                        reals('t', (2,)), reals('r', (2,)), th,
                        reals('p', (2,)), n_static=nst)
        post_true(ctx, 'raises an error', st == 'raise')
    return verify('design_matrix rejects a smaller static field', body,
                  ['model_utils.design_matrix'], fail_fast=False)


class BSplineStub:
    """scipy BSpline by its contract: value = sum_j c_j N_j^(nu)(x)."""
    log = None

    @classmethod
    def construct_fast(cls, knots, c, degree, extrapolate=True, axis=0):
        return cls(knots, c, degree, extrapolate)

    def __init__(self, knots, c, degree, extrapolate=True, axis=0):
        self.knots, self.c, self.degree = knots, c, degree
        self.extrapolate = extrapolate

    def __call__(self, x, nu=0, extrapolate=None):
        type(self).log.append((self, x, nu))
        x1 = objarr(x)

        def one(xx, j):
            return core.uf('N', sym(j), sym(nu), xx)
        c = self.c
        out = np.empty(x1.shape, dtype=object)
        for ix in np.ndindex(*x1.shape):
            if isinstance(c, SymTable):
                # a multiple of a unit vector: zero at every index but one
                pts = [ent[0][1] for ent, _, _ in c.log if ent[0][0] == 'pt']
                ctx = core.CTX.cur
                k = core.integer('@bg')
                ctx.assume(b_and(k >= 0, k < c.axes[0]))
                if len({sym(q).key() for q in pts}) > 1:
                    raise core.Unsupported('coefficients that are not a '
                                           'unit vector')
                if not (pts and core.CTX.fork(k == pts[-1])):
                    post_eq(ctx, 'zero background of the unit vector',
                            c.read((k,), check=False), 0)
                a = core.Sym.const(0)
                if pts:
                    a = c.read((sym(pts[-1]),))*one(x1[ix], pts[-1])
                out[ix] = a
            else:
                cc = objarr(c)
                a = core.Sym.const(0)
                for j in range(cc.shape[0]):
                    a = a + cc[j]*one(x1[ix], j)
                out[ix] = a
        return out if x1.shape else out[()]


class CollFam:
    def __init__(self, nu, x):
        self.nu, self.x = nu, x

    def val(self, j):
        return objarr([core.uf('N', sym(j), sym(self.nu), v)
                       for v in objarr(self.x).reshape(-1)])

    def terms(self, loop):
        return []

    def tables(self, loop):
        fam = self

        class Val:
            def value(self, ix):
                return fam.val(ix[0])
        yield ('basis function columns so far',
               lambda i, s: sym(s[0]) < sym(i), Val())


def colloc_case(xshape, nu, order_c=None, N=None):
    fam = Fam()

    def body(ctx):
        stub = type('Stub', (BSplineStub,), {'log': []})
        M = extract.load('model_utils', {
            'config_utils': ConfigModule({'params.r_surf': 6371.2}),
            'scipy': type('S', (), {'interpolate': None}),
            'scipy.interpolate': type('S', (), {'BSpline': stub,
                                                'PPoly': None})})
        M.ns['BSpline'] = stub
        x = reals('x', xshape)
        if N is None:
            order = core.integer('order', lo=1, hi=5)
            size = core.integer('size', lo=2, hi=12)
            ctx.assume(b_and(order >= 1, size > order))
            knots = SymTable((size,), lambda ix: core.uf('knot', ix[0]))
        else:
            order, size = N
            knots = reals('k', (size,))
        deriv = None if nu is None else core.integer('nu', lo=0, hi=5)
        if nu is not None:
            ctx.assume(deriv >= 0)
        nn = 0 if nu is None else deriv
        fam.f = CollFam(nn, x)
        C = M.ns['colloc_matrix'](objarr(x), knots, order, deriv)
        rows = max(objarr(x).size, 1)
        post_true(ctx, 'rows', C.shape[0] == rows)
        post_eq(ctx, 'columns', sym(C.shape[1]), sym(size) - order)
        for b, xx, k in stub.log:
            post_true(ctx, 'knots passed on', b.knots is knots)
            post_eq(ctx, 'degree of the B-splines', sym(b.degree),
                    sym(order) - 1)
            post_eq(ctx, 'derivative', sym(k), sym(nn))
            post_true(ctx, 'no extrapolation', b.extrapolate is False)
        cols = [core.integer('j')] if N is None else range(size - order)
        for j in cols:
            if N is None:
                ctx.assume(b_and(j >= 0, j < sym(size) - order))
            if core.CTX.fork(sym(nn) >= order):
                want = [0]*rows
            else:
                want = fam.f.val(j)
            post_eq(ctx, 'column of the basis function', C[:, j],
                    objarr(want))
    return verify(f'colloc_matrix x{xshape}, '
                  f'{"default" if nu is None else "any"} derivative'
                  + (f', (order, knots) = {N}' if N else ''), body,
                  ['model_utils.colloc_matrix'], family=fam, fail_fast=False,
                  mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'(order, knots) = {N}, '
                  'all real inputs and derivatives')


def _col(xshape, nu):
    @R.contract(f'colloc_matrix x{xshape}, '
                f'{"default" if nu is None else "any"} derivative',
                ['model_utils.colloc_matrix'])
    def f(mode, tier):
        if mode == 'proof':
            return colloc_case(xshape, nu)
        return [colloc_case(xshape, nu, N=n) for n in ((1, 3), (2, 5),
                                                       (4, 6))]


_col((2,), None)
_col((2,), 1)
_col((), 1)
