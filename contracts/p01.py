"""P01: synth_values is minus the gradient of the potential."""
from pydv import core, extract, spec
from pydv.contract import *       # noqa
from pydv.core import b_and, b_or, sym
from pydv.npx import SymTable
from pydv.registry import Registry

R = Registry('P01')
TRUSTED = ['legendre_poly by its contract (verified as property P02)',
           "l'Hospital: P_n^m/sin(theta) -> dP_n^m/dtheta cos(theta) at the "
           'poles (m >= 1)',
           'partial sums over degree and order are defined by their '
           'recursion (no closed form needed)']
ASSUMPTIONS = ['radius > 0 and reference radius > 0',
               'representative array shapes stand for all shapes '
               '(elementwise code)']
FN = ['model_utils.synth_values']


class Fam:
    """Delegates to the FieldFamily of the current path."""
    f = None

    def terms(self, loop):
        return self.f.terms(loop)

    def tables(self, loop):
        return []


def coeff_table(shape, dim, name='g'):
    def base(ix):
        if shape == ():
            return core.uf(name, ix[0])
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = core.uf(name + ''.join(f'_{k}' for k in i), ix[0])
        return out
    return SymTable(shape + (dim,), base, 'coefficients')


def synth_case(label, rshape, tshape, pshape, cshape, source, grid=False,
               given=('nmin', 'nmax', 'mmax'), N=None, budget=150):
    """U mode (N None) or bounded mode with concrete (nmin, nmax, mmax)."""
    fam = Fam()

    def body(ctx):
        rs = core.real('r_surf', lo=1000, hi=7000)
        ctx.assume(rs > 0)
        M = extract.load('model_utils',
                         {'config_utils': ConfigModule({'params.r_surf': rs})})
        M.ns['legendre_poly'] = spec.legendre_contract(ctx)
        r = reals('r', rshape, assume=False, lo=3000, hi=8000)
        for v in objarr(r).flat:
            ctx.assume(v > 0)
        th = reals('th', tshape, lo=0, hi=180)
        ph = reals('ph', pshape)
        if N is None:
            nmin = core.integer('nmin', lo=1, hi=4) if 'nmin' in given \
                else sym(1)
            nmax = core.integer('nmax', lo=1, hi=9)
            mmax = core.integer('mmax', lo=0, hi=9) if 'mmax' in given \
                else nmax
            ctx.assume(b_and(nmin >= 1, nmax >= nmin, mmax >= 0))
            if 'nmax' not in given:
                ctx.assume(mmax <= nmax)
        else:
            nmin, nmax, mmax = N
        F = spec.FieldFamily(source or 'internal', None, None, None, None,
                             nmin, nmax, mmax)
        # dimension: at least (nmax given) or exactly the coefficients
        need = F.cnt(sym(nmax) + 1)
        if N is not None:
            need = int(sym(need).value())
        if 'nmax' in given:
            extra = core.integer('extra', lo=0, hi=5) if N is None else 2
            if N is None:
                ctx.assume(extra >= 0)
            dim = need + extra
        else:
            dim = need
        if N is None:
            c = coeff_table(cshape, sym(dim))
            row = lambda k: c.base((sym(k),))
        else:
            c = np.empty(cshape + (dim,), dtype=object)
            for i in np.ndindex(*c.shape):
                c[i] = core.real('g' + ''.join(f'_{k}' for k in i))
            row = lambda k: c[..., int(sym(k).value())]
        # the point of every output element
        T, P_ = objarr(th), objarr(ph)
        if grid:
            T, P_ = np.expand_dims(T, -1), np.expand_dims(P_, -2)
        b = np.broadcast(objarr(r), T, P_, np.empty(cshape))
        full = lambda a: (np.broadcast_to(objarr(a), b.shape)
                          if b.shape else objarr(a)[()])
        F.x = full(objarr(r)/rs)
        F.x0 = objarr(r)/rs if rshape else r/rs
        F.th, F.ph = full(T), full(P_)
        F.shape = b.shape
        F.g = lambda num: full(row(num)) if b.shape else row(num)
        fam.f = F
        kw = {}
        if 'nmin' in given:
            kw['nmin'] = nmin
        if 'nmax' in given:
            kw['nmax'] = nmax
        if 'mmax' in given:
            kw['mmax'] = mmax
        if source:
            kw['source'] = source
        if grid:
            kw['grid'] = True
        B = M.ns['synth_values'](c, r, th, ph, **kw)
        if not (isinstance(B, tuple) and len(B) == 3):
            post_true(ctx, 'three components', False)
            return
        for comp, v in zip('rtp', B):
            if N is None:
                want = F.result(comp)
            else:
                want = 0
                for n in range(nmin, nmax + 1):
                    want = want + F.term(n, 0, comp)
                    for m in range(1, min(n, mmax) + 1):
                        want = want + F.term(n, m, comp)
            post_eq(ctx, {'r': 'B_radius', 't': 'B_theta',
                          'p': 'B_phi'}[comp] + ' = -grad V', v, want,
                    refutable=N is not None)
    shapes = f'r{rshape} theta{tshape} phi{pshape} coeffs{cshape}+(dim,)'
    return verify(f'{label}: {shapes}, {source or "default"} source'
                  + (', grid' if grid else '')
                  + (f', (nmin, nmax, mmax) = {N}' if N else ', all degrees'),
                  body, FN, family=fam, fail_fast=False, budget=budget,
                  mode='proof' if N is None else 'bounded',
                  bound='' if N is None else
                  f'(nmin, nmax, mmax) = {N}, all real inputs')


SMALL = [(1, 1, 1), (1, 2, 2), (2, 3, 3), (1, 3, 1), (3, 4, 1), (1, 2, 0)]


def _reg(label, rshape, tshape, pshape, cshape, source, grid=False,
         given=('nmin', 'nmax', 'mmax'), small=SMALL, thorough_only=False):
    @R.contract(label, FN, thorough_only=thorough_only)
    def f(mode, tier):
        if mode == 'proof':
            return synth_case(label, rshape, tshape, pshape, cshape, source,
                              grid, given)
        return [synth_case(label, rshape, tshape, pshape, cshape, source,
                           grid, given, N=n) for n in small]


_reg('synth_values, internal', (), (), (), (), 'internal')
_reg('synth_values, external', (), (), (), (), 'external')
_reg('synth_values, default source and degrees from the coefficients', (),
     (), (), (), None, given=(), small=[(1, 1, 1), (1, 2, 2), (1, 3, 3)])
_reg('synth_values, degree from coefficients and order limit', (), (), (),
     (), 'internal', given=('nmin', 'mmax'),
     small=[(1, 2, 1), (2, 4, 2), (3, 4, 1), (1, 3, 0)])
_reg('synth_values, array batch', (2,), (2,), (2,), (), 'internal',
     small=[(1, 2, 2), (2, 3, 1)])
_reg('synth_values, coefficients per point', (), (2,), (2,), (2,),
     'external', small=[(1, 2, 2)])
_reg('synth_values, broadcasting', (), (2, 1), (2,), (), 'internal',
     small=[(1, 2, 2)])
_reg('synth_values, regular grid', (), (2,), (2,), (), 'internal', True,
     small=[(1, 2, 2)])


def _reject(name, setup):
    @R.contract(f'synth_values rejects {name}', FN, modes=('proof',))
    def f(mode, tier):
        def body(ctx):
            rs = core.real('r_surf', lo=1000, hi=7000)
            ctx.assume(rs > 0)
            M = extract.load('model_utils', {
                'config_utils': ConfigModule({'params.r_surf': rs})})
            M.ns['legendre_poly'] = spec.legendre_contract(ctx)
            a, k = setup(ctx)
            st, v = outcome(M.ns['synth_values'], *a, **k)
            post_true(ctx, f'{name}: raises an error', st == 'raise')
        return [verify(f'synth_values rejects {name}', body, FN,
                       fail_fast=False)]


def _th(ctx, i, lo):
    th = reals('th', (3,), assume=False, lo=-90, hi=270)
    ctx.assume((th[i] < 0) if lo else (th[i] > 180))
    return (objarr([1., 2., 3.]), reals('r', ()), th, reals('ph', (3,))), {}


for _i in range(3):
    for _lo in (True, False):
        _reject(f'colatitude {_i} ' + ('below 0' if _lo else 'above 180'),
                lambda ctx, i=_i, lo=_lo: _th(ctx, i, lo))


def _deg(ctx):
    nmin = core.integer('nmin', lo=1, hi=9)
    nmax = core.integer('nmax', lo=0, hi=9)
    ctx.assume(b_and(nmin >= 1, nmax < nmin))
    c = coeff_table((), core.integer('dim', lo=9, hi=50))
    return (c, reals('r', ()), angle('th'), reals('ph', ())), {
        'nmin': nmin, 'nmax': nmax}


def _nmin(ctx):
    nmin = core.integer('nmin', lo=-5, hi=0)
    ctx.assume(nmin <= 0)
    c = coeff_table((), core.integer('dim', lo=9, hi=50))
    return (c, reals('r', ()), angle('th'), reals('ph', ())), {
        'nmin': nmin, 'nmax': core.integer('nmax', lo=-2, hi=5)}


def _src(ctx):
    return (objarr([1., 2., 3.]), reals('r', ()), angle('th'),
            reals('ph', ())), {'source': 'int'}


_reject('an empty degree range', _deg)
_reject('a minimum degree below 1', _nmin)
_reject('an unknown source', _src)


@R.contract('spec: limit of P/sin(theta) at the poles', [], modes=('proof',))
def pole_lemma(mode, tier):
    def pair(n, m, c):
        return lambda: (spec.D_over_s(n, m, sym(c), sym(0)),
                        spec.D_expl(n, m, sym(c), sym(0))*c)
    return lemma('pole limit, degrees 1 to 12', [
        (f'P({n},{m})/sin at cos = {c}', pair(n, m, c))
        for n in range(1, 13) for m in range(1, n + 1) for c in (1, -1)])
