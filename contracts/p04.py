"""P04: time-dependent coefficients are the piecewise polynomial."""
from pydv import core, extract
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, Unsupported, b_and, b_or, sym
from pydv.npx import SymTable
from pydv.registry import Registry
from contracts import pp

R = Registry('P04')
TRUSTED = ['scipy PPoly by its contract: value and derivative of a piecewise '
           'polynomial (contracts/pp.py)',
           'scipy BSpline and PPoly.from_spline by their contract: the '
           'coefficients of a piece are its Taylor coefficients at the left '
           'break point',
           'model_utils.synth_values by its contract (verified as P01)']
ASSUMPTIONS = ['first break point < last break point, order >= 1, '
               'derivative order >= 0', 'times are not NaN',
               'representative array shapes stand for all shapes']
FN = ['chaos.Base.synth_coeffs']


def base_obj(M, cls, C, order, pieces, dim, br, **kw):
    obj = object.__new__(M.ns[cls])
    obj.__dict__.update(name='m', breaks=br, pieces=pieces, order=order,
                        coeffs=C, dim=dim, meta=None, **kw)
    return obj


def setup_model(ctx, dim, prefix='', N=None):
    """(order, pieces, table, breaks, lo, hi) of an arbitrary model."""
    if N is None:
        order = core.integer('order', lo=1, hi=6)
        pieces = core.integer('pieces', lo=1, hi=5)
        ctx.assume(b_and(order >= 1, pieces >= 1))
    else:
        order, pieces = N
    C = pp.model_table(order, pieces, dim)
    lo, hi = core.real('start', lo=-10, hi=10), core.real('end', lo=11, hi=40)
    ctx.assume(lo < hi)
    br = pp.Breaks(sym(pieces), lo, hi)
    return order, pieces, C, br, lo, hi


def same_table(ctx, name, got, want, order, pieces):
    if isinstance(want, SymTable):
        a, b = core.integer('a'), core.integer('b')
        ctx.assume(b_and(a >= 0, a < order, b >= 0, b < pieces))
        post_eq(ctx, name, got[a, b], want[a, b], refutable=False)
    else:
        post_eq(ctx, name, got, want)


def inside(tshape, dimarg, derivarg, N=None, aslist=False):
    """Base.synth_coeffs for times inside the model period."""
    def body(ctx):
        stub = pp.make_stub()
        M = pp.load_chaos(ctx, stub)
        dim = 3
        order, pieces, C, br, lo, hi = setup_model(ctx, dim, N=N)
        t = reals('t', tshape)
        for x in objarr(t).flat:
            ctx.assume(b_and(x >= lo, x <= hi))
        obj = base_obj(M, 'Base', C, order, pieces, dim, br)
        kw = {}
        nd = sym(0)
        if derivarg:
            nd = kw['deriv'] = core.integer('deriv', lo=0, hi=3)
            ctx.assume(nd >= 0)
        if dimarg:
            kw['dim'] = dimarg
        n = min(dimarg or dim, dim)
        if N is not None and derivarg:
            kw['deriv'] = nd = sym(next((j for j in range(3)
                                         if ctx.choose()), 3))
            kw['deriv'] = int(nd.value())
        got = objarr(M.ns['Base'].synth_coeffs(
            obj, list(t) if aslist else t, **kw))
        post_true(ctx, 'shape: times plus one coefficient axis',
                  got.shape == tshape + (n,))
        if got.shape != tshape + (n,):
            return
        post_true(ctx, 'a warning exactly when the limit exceeds the model',
                  (len(ctx.warned) > 0) == bool(dimarg and dimarg > dim))
        scale = core.pow_sym(core.sym(365.25), nd)
        T = objarr(t)
        for i in np.ndindex(*tshape):
            for d in range(n):
                post_eq(ctx, f'coefficient {d} at time {list(i)}',
                        got[i + (d,)], pp.base_value('', (d,), nd, T[i],
                                                     order)*scale)
        for p in stub.made:
            same_table(ctx, 'the coefficients of the model are evaluated',
                       p.c, C[..., :n], order, pieces)
            post_eq(ctx, 'first break point', p.x[0], lo)
            post_eq(ctx, 'last break point', p.x[-1], hi)
    return verify(f'Base.synth_coeffs inside, times {tshape}, dim {dimarg}'
                  + (f', (order, pieces) = {N}' if N else ''), body, FN,
                  fail_fast=False, mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'(order, pieces) = {N}, all '
                  'coefficients, break points and times')


def _ins(*a, **k):
    @R.contract(f'synth_coeffs inside the period, times {a[0]}, dim {a[1]}, '
                f'{"any" if a[2] else "default"} derivative' + str(k or ''),
                FN)
    def f(mode, tier):
        if mode == 'proof':
            return inside(*a, **k)
        return [inside(*a, N=n, **k) for n in ((1, 1), (2, 3), (4, 2))]


_ins((), None, False)
_ins((), None, True)
_ins((), 2, True)
_ins((), 3, True)
_ins((), 5, True)
_ins((2,), None, True)
_ins((1, 2), 1, True)


@R.contract('synth_coeffs rejects a model without coefficients', FN,
            modes=('proof',))
def missing(mode, tier):
    def body(ctx):
        M = pp.load_chaos(ctx, pp.make_stub())
        C = None if ctx.choose() else np.empty((1, 0, 3), dtype=object)
        lo, hi = core.real('start'), core.real('end')
        ctx.assume(lo < hi)
        obj = base_obj(M, 'Base', C, 1, 0, None if C is None else 3,
                       pp.Breaks(sym(1), lo, hi))
        st, _ = outcome(M.ns['Base'].synth_coeffs, obj, core.real('t'))
        post_true(ctx, 'raises an error', st == 'raise')
    return verify('missing coefficients', body, FN, fail_fast=False)


class Tok:
    """An opaque value: a function symbol applied to arguments."""

    def __init__(self, kind, **args):
        self.kind, self.args = kind, args


def same(ctx, name, a, b):
    if isinstance(a, (Sym, int, float)) and isinstance(b, (Sym, int, float)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        post_eq(ctx, name, sym(a), sym(b))
    elif isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        post_eq(ctx, name, a, b)
    elif isinstance(a, Tok) and isinstance(b, Tok):
        post_true(ctx, name, a.kind == b.kind)
        if a.kind == b.kind:
            for k in a.args:
                same(ctx, f'{name}: {k}', a.args[k], b.args[k])
    else:
        post_true(ctx, name, a is b or (type(a) is type(b) and a == b))


def base_contract(M):
    """Base.synth_coeffs by its contract, defaults resolved."""
    def synth_coeffs(self, time, *, dim=None, deriv=None, extrapolate=None):
        own = self.dim
        if dim is None:
            dim = own
        elif CTX.fork(sym(dim) > sym(own)):
            CTX.warned.append('dim')
            dim = own
        return Tok('coeffs', model=self.name, time=time, dim=sym(dim),
                   deriv=sym(0 if deriv is None else deriv),
                   extrapolate='linear' if extrapolate is None
                   else extrapolate)
    M.ns['Base'].synth_coeffs = synth_coeffs


def sv_contract(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
                mmax=None, source=None, grid=None):
    """model_utils.synth_values by its contract, defaults resolved."""
    if not isinstance(coeffs, Tok):
        raise Unsupported('coefficients passed on are not tracked')
    dim = coeffs.args['dim']
    if nmax is None:
        n = core.integer('nmax@inferred')
        CTX.cur.assume(b_and(n*(n + 2) == dim, n >= 0))
        nmax = n
    CTX.oblige('synth_values: enough coefficients for nmax',
               sym(nmax)*(sym(nmax) + 2) <= dim, 'pre')
    used = Tok('coeffs', **dict(coeffs.args, dim=sym(nmax)*(sym(nmax) + 2)))
    a = dict(coeffs=used, radius=radius, theta=theta, phi=phi, nmax=sym(nmax),
             nmin=sym(1 if nmin is None else nmin),
             mmax=sym(nmax if mmax is None else mmax),
             source='internal' if source is None else source,
             grid=bool(grid))
    return tuple(Tok(c, **a) for c in ('B_radius', 'B_theta', 'B_phi'))


def model_case(what, given, source='internal'):
    """BaseModel.synth_coeffs / synth_values for any degree."""
    def body(ctx):
        M = pp.load_chaos(ctx, pp.make_stub(), model_utils=type(
            'mu', (), {'synth_values': staticmethod(sv_contract)}))
        base_contract(M)
        own = core.integer('own', lo=1, hi=20)
        ctx.assume(own >= 1)
        obj = base_obj(M, 'BaseModel', None, 4, 5, own*(own + 2), None,
                       nmax=own, source=source)
        t = core.real('t')
        kw, n = {}, own
        if 'nmax' in given:
            n = kw['nmax'] = core.integer('nmax', lo=1, hi=25)
            ctx.assume(n >= 1)
        nd, ex = sym(0), 'linear'
        if 'deriv' in given:
            nd = kw['deriv'] = core.integer('deriv', lo=0, hi=4)
        if 'extrapolate' in given:
            ex = kw['extrapolate'] = ['off', 'spline', False][
                0 if ctx.choose() else 1 if ctx.choose() else 2]
        cut = CTX.fork(sym(n) > own)
        m = own if cut else n
        want = Tok('coeffs', model='m', time=t, dim=sym(m)*(sym(m) + 2),
                   deriv=nd, extrapolate=ex)
        if what == 'synth_coeffs':
            got = M.ns['BaseModel'].synth_coeffs(obj, t, **kw)
            same(ctx, 'coefficients', got, want)
        else:
            r, th, ph = [reals(k, (2,)) for k in ('r', 'th', 'ph')]
            g = False
            if 'grid' in given:
                g = kw['grid'] = ctx.choose()
            got = M.ns['BaseModel'].synth_values(obj, t, r, th, ph, **kw)
            post_true(ctx, 'three components', isinstance(got, tuple)
                      and len(got) == 3)
            if not (isinstance(got, tuple) and len(got) == 3):
                return
            a = dict(coeffs=want, radius=r, theta=th, phi=ph, nmax=sym(m),
                     nmin=sym(1), mmax=sym(m), source=source, grid=g)
            for k, c in enumerate(('B_radius', 'B_theta', 'B_phi')):
                same(ctx, c, got[k], Tok(c, **a))
        post_true(ctx, 'a warning exactly when the limit exceeds the model',
                  (len(ctx.warned) > 0) == cut)
    return verify(f'BaseModel.{what}, {"/".join(given) or "defaults"}', body,
                  [f'chaos.BaseModel.{what}'], fail_fast=False)


def _mod(what, given, source='internal'):
    @R.contract(f'BaseModel.{what}, {"/".join(given) or "defaults"} '
                f'({source})', [f'chaos.BaseModel.{what}'],
                modes=('proof',))
    def f(mode, tier):
        return model_case(what, given, source)


_mod('synth_coeffs', ())
_mod('synth_coeffs', ('nmax', 'deriv', 'extrapolate'))
_mod('synth_values', ())
_mod('synth_values', ('nmax', 'deriv', 'extrapolate', 'grid'))
_mod('synth_values', ('nmax', 'deriv'), 'external')


def from_pp(given, N=None):
    """model_utils.synth_from_pp."""
    def body(ctx):
        stub = pp.make_stub()
        log = []
        M = extract.load('model_utils', {
            'config_utils': ConfigModule({'params.r_surf': 6371.2}),
            'scipy.interpolate': pp.SipStub(stub, BSpline=None)})
        M.ns['PPoly'] = stub

        def sv(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
               mmax=None, source=None, grid=None):
            log.append((coeffs, radius, theta, phi, nmax, nmin, mmax,
                        source or 'internal', bool(grid)))
            return tuple(core.real(f'B{k}') for k in range(3))
        M.ns['synth_values'] = sv
        own = 2
        dim = own*(own + 2)
        order, pieces, C, br, lo, hi = setup_model(ctx, dim, N=N)
        t = reals('t', (2,))
        for x in t:
            ctx.assume(b_and(x >= lo, x <= hi))
        r, th, ph = [reals(k, (2,)) for k in ('r', 'th', 'ph')]
        kw, n, nd, src, g = {}, own, sym(0), 'internal', False
        if 'nmax' in given:
            n = kw['nmax'] = 1 if ctx.choose() else 2 if ctx.choose() else 3
        if 'deriv' in given:
            nd = kw['deriv'] = core.integer('deriv', lo=0, hi=3)
            ctx.assume(nd >= 0)
            if N is not None:
                nd = sym(next((j for j in range(3) if ctx.choose()), 3))
                kw['deriv'] = int(nd.value())
        if 'source' in given:
            src = kw['source'] = 'external' if ctx.choose() else 'internal'
        if 'grid' in given:
            g = kw['grid'] = ctx.choose()
        B = M.ns['synth_from_pp'](br, order, C, t, r, th, ph, **kw)
        m = min(n, own)
        post_true(ctx, 'one synthesis', len(log) == 1)
        if len(log) != 1:
            return
        c, lr, lt, lp, ln, l0, lm, ls, lg = log[0]
        c = objarr(c)
        k = m*(m + 2)
        post_true(ctx, 'coefficients of the degrees',
                  c.shape == (2, k) or (c.shape[0] == 2 and c.shape[1] >= k
                                        and ln is not None))
        scale = core.pow_sym(core.sym(365.25), nd)
        for i in range(2):
            for d in range(min(k, c.shape[-1])):
                post_eq(ctx, f'coefficient {d} at time {i}', c[i, d],
                        pp.base_value('', (d,), nd, t[i], order)*scale)
        post_eq(ctx, 'radius', lr, r)
        post_eq(ctx, 'theta', lt, th)
        post_eq(ctx, 'phi', lp, ph)
        if ln is not None:
            post_eq(ctx, 'nmax', sym(ln), sym(m))
        post_true(ctx, 'nmin', l0 in (None, 1))
        post_true(ctx, 'mmax', lm in (None, m))
        post_true(ctx, 'source', ls == src)
        post_true(ctx, 'grid', lg == g)
        post_true(ctx, 'three components', isinstance(B, tuple)
                  and len(B) == 3)
        for k, b in enumerate(B):
            post_eq(ctx, f'component {k}', b, core.real(f'B{k}'))
        post_true(ctx, 'a warning exactly when the limit exceeds the model',
                  (len(ctx.warned) > 0) == (n > own))
        for p in stub.made:
            same_table(ctx, 'the given coefficients are evaluated',
                       p.c, C[..., :m*(m + 2)], order, pieces)
            post_eq(ctx, 'first break point', p.x[0], lo)
            post_eq(ctx, 'last break point', p.x[-1], hi)
    return verify(f'synth_from_pp, {"/".join(given) or "defaults"}'
                  + (f', (order, pieces) = {N}' if N else ''), body,
                  ['model_utils.synth_from_pp'], fail_fast=False,
                  mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'(order, pieces) = {N}')


def _fpp(given):
    @R.contract(f'synth_from_pp, {"/".join(given) or "defaults"}',
                ['model_utils.synth_from_pp'])
    def f(mode, tier):
        if mode == 'proof':
            return from_pp(given)
        return [from_pp(given, N=n) for n in ((1, 1), (3, 2))]


_fpp(())
_fpp(('nmax', 'deriv'))
_fpp(('nmax', 'deriv', 'source', 'grid'))


# ------------------------------------------------------------ knots

def mu_load():
    return extract.load('model_utils', {
        'config_utils': ConfigModule({'params.r_surf': 6371.2}),
        'scipy.interpolate': pp.SipStub(None, BSpline=None)})


def augment(kind, N=None):
    def body(ctx):
        M = mu_load()
        if N is None:
            n = core.integer('n', lo=1, hi=6)
            order = core.integer('order', lo=1, hi=6)
            ctx.assume(b_and(n >= 1, order >= 1))
            b = SymTable((n,), lambda ix: core.uf('brk', ix[0]), 'breaks')
            at = lambda k: core.uf('brk', k)
        else:
            order, n = N
            b = reals('brk', (n,))
            at = lambda k: b[int(sym(k).value())]
            if kind == 'list':
                b = list(b)
        got = M.ns['augment_breaks'](b, order)
        deg = sym(order) - 1
        post_eq(ctx, 'number of knots', sym(got.shape[0]), sym(n) + 2*deg)
        post_true(ctx, 'one dimension', len(got.shape) == 1)
        if N is None:
            k = core.integer('k', lo=0, hi=12)
            ctx.assume(b_and(k >= 0, k < sym(n) + 2*deg))
            want = at(sym(0)) if CTX.fork(k < deg) else (
                at(k - deg) if CTX.fork(k < deg + n) else at(sym(n) - 1))
            post_eq(ctx, 'knot', got[k], want, refutable=False)
        else:
            if got.shape != (n + 2*(order - 1),):
                return
            for k in range(got.shape[0]):
                j = min(max(k - (order - 1), 0), n - 1)
                post_eq(ctx, f'knot {k}', got[k], at(j))
    return verify(f'augment_breaks of {kind}'
                  + (f', (order, breaks) = {N}' if N else ''), body,
                  ['model_utils.augment_breaks'], fail_fast=False,
                  mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'(order, breaks) = {N}')


@R.contract('augment_breaks repeats the end points',
            ['model_utils.augment_breaks'])
def aug(mode, tier):
    if mode == 'proof':
        return augment('an array')
    return [augment(k, n) for k in ('an array', 'list')
            for n in ((1, 2), (2, 2), (4, 3), (6, 5), (3, 1))]


@R.contract('augment_breaks rejects matrices', ['model_utils.augment_breaks'],
            modes=('proof',))
def aug2(mode, tier):
    def body(ctx):
        M = mu_load()
        order = core.integer('order', lo=1, hi=6)
        st, _ = outcome(M.ns['augment_breaks'], reals('b', (1, 3)), order)
        post_true(ctx, 'raises an error', st == 'raise')
    return verify('augment_breaks rejects matrices', body,
                  ['model_utils.augment_breaks'], fail_fast=False)


class Knots(SymTable):
    """Clamped knots over distinct break points."""

    def __init__(self, pieces, degree):
        self.pieces, self.degree = pieces, degree

        def base(ix):
            k = sym(ix[0]) - degree
            if CTX.fork(k < 0):
                k = sym(0)
            elif CTX.fork(k > pieces):
                k = sym(pieces)
            return core.uf('brk', k)
        super().__init__((pieces + 1 + 2*degree,), base, 'knots')

    def snapshot(self):
        return self

    copy = snapshot

    def unique(self):
        return SymTable((self.pieces + 1,), lambda ix: core.uf('brk', ix[0]),
                        'breaks')


class SplineStub:
    """BSpline and PPoly.from_spline: the coefficient of power k of the piece
    that starts at knot i is the k-th derivative of the spline there over k
    factorial; the derivatives are linear in the coefficients."""
    order = None
    want = None

    def __init__(self, knots, c, degree, extrapolate=True, axis=0):
        self.knots, self.c, self.degree = knots, c, degree


def deriv_value(c, trail, nu, x, ncoef):
    """nu-th derivative at x of the spline with coefficients c[:, trail]."""
    if isinstance(ncoef, Sym) and ncoef.value() is None:
        j = core.integer('@j')
        e = c[(j,) + trail] if not isinstance(c, SymTable) or len(
            c.sym) > 1 or trail else c[j]
        e = sym(objarr(e)[()] if objarr(e).shape == () else objarr(e)[trail])
        ids = e.atom_ids()
        for i in ids:
            a = core.T.atoms[i]
            if a.fn == 'cB' and sym(e - Sym.atom(a)).value() == 0 and \
                    sym(a.args[0] - j).value() == 0:
                return core.uf('S', a.args[1], sym(nu), sym(x))
        raise Unsupported('coefficients of the spline are not a column of '
                          'the given ones')
    s = Sym.const(0)
    for j in range(int(sym(ncoef).value())):
        s = s + sym(c[(j,) + trail])*core.uf('NB', sym(j), sym(nu), sym(x))
    return s


def fact(k):
    return core.factorial(k)


def make_ppoly(order, pieces, ncoef):
    class P:
        @classmethod
        def from_spline(cls, tck, extrapolate=None):
            self = object.__new__(cls)
            post_eq(CTX.cur, 'degree of the spline', sym(tck.degree),
                    sym(order) - 1, kind='pre')
            k = sym(order) - 1
            c = tck.c
            c = c.snapshot() if isinstance(c, SymTable) else c.copy()
            trail = tuple(c.shape[1:])
            nk = tck.knots.shape[0]
            kn = tck.knots

            def val(m, i, tr):
                x = kn.base((sym(i),)) if isinstance(kn, SymTable) else kn[i]
                nu = k - m
                return deriv_value(c, tr, nu, x, ncoef)/fact(nu)
            if any(isinstance(a, Sym) and sym(a).value() is None
                   for a in (order, nk) + trail):
                # concrete trailing axes are not used here
                if any(not isinstance(a, Sym) for a in trail):
                    raise Unsupported('mixed axes of spline coefficients')
                self.c = SymTable((sym(order), sym(nk) - 1) + trail,
                                  lambda ix: val(ix[0], ix[1],
                                                 tuple(ix[2:])), 'pp.c')
            else:
                self.c = np.empty((order, nk - 1) + trail, dtype=object)
                for ix in np.ndindex(*self.c.shape):
                    self.c[ix] = val(ix[0], ix[1], ix[2:])
            self.x = kn
            return self
    return P


class PPFam:
    f = None

    def terms(self, loop):
        return []

    def tables(self, loop):
        fam = self

        class Val:
            def value(self, ix):
                return fam.f(*ix)
        for k in range(3):
            yield (f'converted columns so far (axis {k})',
                   lambda i, s, k=k: sym(s[k]) < sym(i) if len(s) == 3
                   else None, Val())


def convert(N=None):
    fam = PPFam()

    def body(ctx):
        if N is None:
            order = core.integer('order', lo=1, hi=5)
            pieces = core.integer('pieces', lo=1, hi=5)
            dim = core.integer('dim', lo=1, hi=5)
            ctx.assume(b_and(order >= 1, pieces >= 1, dim >= 1))
            deg = order - 1
            kn = Knots(pieces, deg)
            nc = pieces + deg
            C = SymTable((nc, dim), lambda ix: core.uf('cB', ix[0], ix[1]),
                         'c')
            S = lambda d, nu, x: core.uf('S', sym(d), sym(nu), x)
            brk = lambda j: core.uf('brk', sym(j))
            uniq = lambda x: x.unique()
        else:
            order, pieces, dim = N
            deg = order - 1
            b = reals('brk', (pieces + 1,))
            for x, y in zip(b[:-1], b[1:]):
                ctx.assume(x < y)
            kn = objarr([b[0]]*deg + list(b) + [b[-1]]*deg)
            nc = pieces + deg
            C = reals('c', (nc, dim))
            S = lambda d, nu, x: deriv_value(C, (d,), nu, x, nc)
            brk = lambda j: b[j]

            def uniq(x):
                post_eq(ctx, 'unique: of the knots', x, kn, kind='pre')
                return b.copy()
        M = mu_load()
        M.ns['BSpline'] = SplineStub
        M.ns['PPoly'] = make_ppoly(order, pieces, nc)
        M.ns['np'].unique = uniq
        fam.f = lambda m, j, d: S(d, deg - sym(m), brk(j))/fact(deg - sym(m))
        out = M.ns['pp_from_bspline'](C, kn, order)
        post_true(ctx, 'coefficients and break points',
                  isinstance(out, tuple) and len(out) == 2)
        got, x = out
        post_true(ctx, 'axes', len(got.shape) == 3 and len(x.shape) == 1)
        for k, n in enumerate((order, pieces, dim)):
            post_eq(ctx, f'axis {k}', sym(got.shape[k]), sym(n))
        post_eq(ctx, 'number of break points', sym(x.shape[0]),
                sym(pieces) + 1)
        if N is None:
            m, j, d = [core.integer(k) for k in 'mjd']
            ctx.assume(b_and(m >= 0, m < order, j >= 0, j < pieces, d >= 0,
                             d < dim))
            post_eq(ctx, 'break point', x[j], brk(j), refutable=False)
            post_eq(ctx, 'coefficient', got[m, j, d], fam.f(m, j, d),
                    refutable=False)
        else:
            if got.shape != (order, pieces, dim):
                return
            post_eq(ctx, 'break points', x, b)
            for m, j, d in np.ndindex(order, pieces, dim):
                post_eq(ctx, f'coefficient {m, j, d}', got[m, j, d],
                        fam.f(m, j, d))
    return verify('pp_from_bspline' + (f', (order, pieces, dim) = {N}' if N
                                       else ''), body,
                  ['model_utils.pp_from_bspline'], family=fam,
                  fail_fast=False, mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'(order, pieces, dim) = {N}')


@R.contract('pp_from_bspline represents the same function',
            ['model_utils.pp_from_bspline'])
def conv(mode, tier):
    if mode == 'proof':
        return convert()
    return [convert(n) for n in ((1, 2, 1), (2, 3, 2), (4, 2, 3), (6, 1, 2))]


# ------------------------------------------------------------ constructors

def init_case(what):
    def body(ctx):
        M = pp.load_chaos(ctx, pp.make_stub(), model_utils=type(
            'mu', (), {'pp_from_bspline': staticmethod(
                lambda c, k, o: (log.append((c, k, o)) or
                                 reals('pp', (o, 2, 3)), reals('x', (3,))))}))
        log = []
        cls = M.ns['BaseModel']
        own = 1
        C = reals('c', (3, 2, 3))
        b = reals('b', (3,))
        if what == 'order given':
            k = [1, 2, 3, 5][0 if ctx.choose() else 1 if ctx.choose() else
                             2 if ctx.choose() else 3]
            m = cls('m', breaks=b, order=k, coeffs=C, source='external',
                    meta={'a': 1})
            n = min(k, 3)
            post_true(ctx, 'order', m.order == n)
            post_eq(ctx, 'lowest powers kept', m.coeffs, C[3 - n:])
            post_true(ctx, 'source', m.source == 'external')
            post_true(ctx, 'meta', m.meta == {'a': 1})
        elif what == 'defaults':
            m = cls('m', breaks=b, coeffs=C)
            post_true(ctx, 'order', m.order == 3)
            post_eq(ctx, 'coefficients', m.coeffs, C)
            post_true(ctx, 'source', m.source == 'internal')
        elif what == 'single break':
            c1 = reals('c', (1, 1, 3))
            m = cls('m', breaks=reals('b', (1,)), order=1, coeffs=c1)
            post_eq(ctx, 'break points', m.breaks, objarr([core.real('b_0')]*2))
            post_true(ctx, 'one piece', m.pieces == 1)
            post_eq(ctx, 'coefficients', m.coeffs, c1)
            return
        elif what == 'empty':
            m = cls('m')
            post_true(ctx, 'nothing stored', m.coeffs is None
                      and m.breaks is None and m.dim is None
                      and m.nmax is None and m.pieces is None)
            return
        else:
            c, kn = reals('bs', (4, 3)), reals('kn', (7,))
            m = cls.from_bspline('m', kn, c, 3, source='external',
                                 meta={'b': 2})
            post_true(ctx, 'one conversion', len(log) == 1)
            post_eq(ctx, 'coefficients converted', log[0][0], c)
            post_eq(ctx, 'knots', log[0][1], kn)
            post_eq(ctx, 'order', sym(log[0][2]), 3)
            post_eq(ctx, 'coefficients', m.coeffs, reals('pp', (3, 2, 3)))
            post_eq(ctx, 'break points', m.breaks, reals('x', (3,)))
            post_true(ctx, 'source', m.source == 'external')
            post_true(ctx, 'meta', m.meta == {'b': 2})
            post_true(ctx, 'order', m.order == 3)
            return
        post_eq(ctx, 'break points', m.breaks, b)
        post_true(ctx, 'pieces', m.pieces == 2)
        post_true(ctx, 'dimension', m.dim == 3)
        post_eq(ctx, 'degree', sym(m.nmax), own)
        post_true(ctx, 'name', m.name == 'm')
    return verify(f'constructor: {what}', body,
                  ['chaos.Base.__init__', 'chaos.BaseModel.__init__',
                   'chaos.BaseModel.from_bspline'], fail_fast=False)


for _w in ('order given', 'defaults', 'single break', 'empty',
           'from_bspline'):
    def _c(w):
        @R.contract(f'constructor: {w}',
                    ['chaos.Base.__init__', 'chaos.BaseModel.__init__'] + (
                        ['chaos.BaseModel.from_bspline']
                        if w == 'from_bspline' else []), modes=('proof',))
        def f(mode, tier):
            return init_case(w)
    _c(_w)


# ------------------------------------------------------------ Euler angles

@R.contract('synth_euler_angles evaluates the model of the satellite',
            ['chaos.CHAOS.synth_euler_angles'], modes=('proof',))
def euler(mode, tier):
    def body(ctx):
        M = pp.load_chaos(ctx, pp.make_stub())
        log = []

        class Model:
            def __init__(self, name, pre):
                self.name, self.meta = name, {'Euler_prerotation': pre}

            def synth_coeffs(self, time, *, dim=None, deriv=None,
                             extrapolate=None):
                log.append((self.name, time, dim, deriv, extrapolate))
                return angles[self.name]
        names = ['champ', 'swarm_a', 'oersted']
        angles = {n: reals(n, (2, 3)) for n in names}
        pre = ctx.choose()
        m = object.__new__(M.ns['CHAOS'])
        m.model_euler = {n: Model(n, reals('pre', (3,)) if pre else None)
                         for n in names}
        m.name, m.meta = 'M', None
        before = list(m.model_euler)
        t = reals('t', (2,))
        if ctx.choose():
            st, r = outcome(M.ns['CHAOS'].synth_euler_angles, m, t, 'swarm')
            post_true(ctx, 'an unknown satellite is rejected', st == 'raise')
            return
        who = names[0 if ctx.choose() else 1 if ctx.choose() else 2]
        kw = {}
        if ctx.choose():
            kw['dim'] = 2 if ctx.choose() else 3
        if ctx.choose():
            kw['deriv'] = 0 if ctx.choose() else 1
        if ctx.choose():
            kw['extrapolate'] = 'off' if ctx.choose() else 'constant'
        st, r = outcome(M.ns['CHAOS'].synth_euler_angles, m, t, who, **kw)
        post_true(ctx, f'a known satellite is accepted ({r!r})'[:90],
                  st == 'ok')
        if st != 'ok':
            return
        post_eq(ctx, 'angles of the satellite, no prerotation applied', r,
                reals(who, (2, 3)))
        post_true(ctx, 'one model evaluated', [x[0] for x in log] == [who])
        for _, tt, dim, deriv, ex in log[:1]:
            post_eq(ctx, 'at the times given', tt, reals('t', (2,)))
            post_true(ctx, 'number of angles', (dim or 3) == kw.get(
                'dim', 3))
            post_true(ctx, 'derivative', (deriv or 0) == kw.get('deriv', 0))
            post_true(ctx, 'extrapolation', (ex or 'linear') == kw.get(
                'extrapolate', 'linear'))
        post_true(ctx, 'satellites unchanged', list(m.model_euler) == before)
    return verify('synth_euler_angles', body,
                  ['chaos.CHAOS.synth_euler_angles'], fail_fast=False)
