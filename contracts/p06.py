"""P06: the full model is the sum of the requested sources."""
import itertools
from pydv import core
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, Unsupported, b_and, sym
from pydv.registry import Registry
from contracts import pp

R = Registry('P06')
TRUSTED = ['BaseModel.synth_values and BaseModel.synth_coeffs by their '
           'contracts (verified as P04 and P05)',
           'synth_coeffs_gsm and synth_coeffs_sm by their contracts (verified '
           'as P07), for the contracts of the synthesis functions',
           'model_utils.synth_values by its contract: linear in the '
           'coefficients (verified as P01)']
ASSUMPTIONS = ['representative array shapes and coefficient numbers stand '
               'for all']
FN = ['chaos.CHAOS.__call__']
COMP = ('B_radius', 'B_theta', 'B_phi')


class ModelStub:
    """A spline model by its contract: opaque values per point."""

    def __init__(self, name, nmax=3):
        self.name, self.nmax = name, nmax
        self.breaks = objarr([core.real(name + '_start'),
                              core.real(name + '_end')])
        CTX.cur.assume(self.breaks[0] < self.breaks[1])
        self.calls = []
        self.order = 1 if name == 'static' else 6
        self.source = 'internal'

    def limit(self, nmax):
        """The degree in effect, as a value."""
        if nmax is None:
            return sym(self.nmax)
        if CTX.fork(sym(nmax) > sym(self.nmax)):
            CTX.warned.append('nmax')
            return sym(self.nmax)
        return sym(nmax)

    def time(self, t):
        """A static field is the same at all times."""
        return sym(0) if self.name == 'static' else sym(t)

    def synth_values(self, time, radius, theta, phi, *, nmax=None,
                     deriv=None, grid=None, extrapolate=None):
        n = self.limit(nmax)
        if deriv is not None and sym(deriv).value() != 0:
            n = n + 1000*sym(deriv)
        return field(self.name, time, radius, theta, phi, n, grid,
                     'linear' if extrapolate is None else extrapolate,
                     self.name == 'static')

    def synth_coeffs(self, time, *, nmax=None, deriv=None, extrapolate=None):
        n = self.limit(nmax)
        return ('coeffs', self.name, time, n, deriv or 0,
                'linear' if extrapolate is None else extrapolate)


def field(name, t, r, th, ph, n, grid, extra, static=False):
    t, r, th, ph = [objarr(x) for x in (t, r, th, ph)]
    if grid:
        th, ph = np.expand_dims(th, -1), np.expand_dims(ph, -2)
    sh = np.broadcast(t, r, th, ph).shape
    a = [np.broadcast_to(x, sh) for x in (t, r, th, ph)]
    out = []
    for c in COMP:
        o = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            o[i] = core.uf(f'{name}_{c}_{extra}', *(
                [] if static else [sym(a[0][i])]), *[sym(x[i])
                                                     for x in a[1:]], sym(n))
        out.append(o)
    return tuple(out)


OWN = 2      # degree of the magnetospheric stubs


def mag_coeffs(frame, source, t, n, rc):
    """Coefficient array of synth_coeffs_gsm / sm (opaque)."""
    t = objarr(t)
    K = n*(n + 2)
    sh = t.shape
    rcb = None
    if rc is not None:
        rcb = np.broadcast_to(objarr(rc), t.shape)
    out = np.empty(sh + (K,), dtype=object)
    for i in np.ndindex(*sh):
        for k in range(K):
            a = [sym(t[i])] + ([sym(rcb[i])] if rc is not None else [])
            out[i + (k,)] = core.uf(
                f'{frame}_{source}_{"rc" if rc is not None else ""}{k}', *a)
    return out


def mag_limit(nmax):
    if nmax is None:
        return OWN
    v = sym(nmax).value()
    if v is None:
        raise Unsupported('symbolic degree of the magnetospheric field')
    if v > OWN:
        CTX.warned.append('nmax')
        return OWN
    return int(v)


def synth_coeffs_gsm(self, time, *, nmax=None, source=None):
    if self.coeffs_gsm is None:
        raise ValueError('missing')
    source = 'external' if source is None else source
    if source not in ('external', 'internal'):
        raise ValueError('source')
    return mag_coeffs('gsm', source, time, mag_limit(nmax), None)


def synth_coeffs_sm(self, time, *, nmax=None, source=None, rc=None):
    if self.coeffs_sm is None:
        raise ValueError('missing')
    source = 'external' if source is None else source
    if source not in ('external', 'internal'):
        raise ValueError('source')
    return mag_coeffs('sm', source, time, mag_limit(nmax), rc)


def mu_synth_values(coeffs, radius, theta, phi, *, nmax=None, nmin=None,
                    mmax=None, source=None, grid=None):
    """Contract of model_utils.synth_values: linear in the coefficients."""
    c = objarr(coeffs)
    r, th, ph = objarr(radius), objarr(theta), objarr(phi)
    if mmax is not None:
        raise Unsupported('order limit')
    source = 'internal' if source is None else source
    if source not in ('internal', 'external'):
        raise ValueError('source')
    lo = 1 if nmin is None else int(sym(nmin).value())
    K = c.shape[-1]
    off = lo**2 - 1
    if nmax is not None:
        n = int(sym(nmax).value())
        if n*(n + 2) - off > K:
            raise ValueError('coefficients are missing')
        K = n*(n + 2) - off
    if grid:
        th, ph = np.expand_dims(th, -1), np.expand_dims(ph, -2)
    sh = np.broadcast(np.empty(c.shape[:-1]), r, th, ph).shape
    cc = np.broadcast_to(c, sh + c.shape[-1:])
    a = [np.broadcast_to(x, sh) for x in (r, th, ph)]
    out = []
    for comp in COMP:
        o = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            s = Sym.const(0)
            for k in range(K):
                s = s + sym(cc[i + (k,)])*core.uf(
                    f'Y_{comp}_{source}_{k + off}', *[sym(x[i]) for x in a])
            o[i] = s
        out.append(o)
    return tuple(out)


class MU:
    synth_values = staticmethod(mu_synth_values)


def load(ctx):
    M = pp.load_chaos(ctx, pp.make_stub(), model_utils=MU,
                      config_utils=ConfigModule({}))
    M.ns['CHAOS'].synth_coeffs_gsm = synth_coeffs_gsm
    M.ns['CHAOS'].synth_coeffs_sm = synth_coeffs_sm
    return M


def obj_of(M, have=('tdep', 'static', 'gsm', 'sm'), nstat=90):
    o = object.__new__(M.ns['CHAOS'])
    K = OWN*(OWN + 2)
    o.__dict__.update(
        name='CHAOS', timestamp='', meta=None,
        model_tdep=ModelStub('tdep', 20) if 'tdep' in have else None,
        model_static=ModelStub('static', nstat) if 'static' in have else None,
        coeffs_gsm=reals('g', (K,)) if 'gsm' in have else None,
        coeffs_sm=reals('s', (K,)) if 'sm' in have else None,
        n_gsm=OWN if 'gsm' in have else None,
        n_sm=OWN if 'sm' in have else None)
    return o


def mag_field(frame, parts, t, r, th, ph, n=OWN, rc_e=None, rc_i=None,
              grid=False):
    out = [0, 0, 0]
    for s in parts:
        c = mag_coeffs(frame, s, t, n, None if frame == 'gsm' else
                       rc_e if s == 'external' else rc_i)
        for k, v in enumerate(mu_synth_values(c, r, th, ph, source=s,
                                              grid=grid)):
            out[k] = out[k] + v
    return out


SHAPES = [((2,), (2,), (2,), (2,)), ((2, 1), (), (2,), (1, 2)),
          ((), (), (), ()), ((), (2,), (), (2,)), ((1, 2), (2, 2), (), ())]


def call_case(shapes, how, nst, rc, verbose=False):
    """CHAOS.__call__ for every subset of the sources."""
    def body(ctx):
        M = load(ctx)
        o = obj_of(M, nstat=core.integer('N_static', lo=20, hi=120))
        ctx.assume(o.model_static.nmax >= 1)
        t, r, th, ph = [reals(k, s) for k, s in zip(('t', 'r', 'th', 'ph'),
                                                    shapes)]
        want_src = ['tdep', 'static', 'gsm', 'sm']
        kw = {}
        if how in ('internal', 'external'):
            kw['source_list'] = how
            want_src = want_src[:2] if how == 'internal' else want_src[2:]
        elif how == 'single':
            k = 0 if ctx.choose() else 1 if ctx.choose() else 2 \
                if ctx.choose() else 3
            want_src = want_src[k:k+1]
            kw['source_list'] = want_src[0]
        elif how == 'subset':
            want_src = [s for s in want_src[::-1] if ctx.choose()]
            if not want_src:
                want_src = ['static', 'tdep']
            kw['source_list'] = list(want_src)
        n85 = sym(85)
        if nst:
            n85 = kw['nmax_static'] = core.integer('nmax_static', lo=1,
                                                   hi=130)
            ctx.assume(n85 >= 1)
        rc_e = rc_i = None
        if rc:
            rc_e = kw['rc_e'] = reals('rc_e', shapes[0])
            if rc == 'both':
                rc_i = kw['rc_i'] = core.real('rc_i')
        if verbose:
            kw['verbose'] = True
        B = M.ns['CHAOS'].__call__(o, t, r, th, ph, **kw)
        post_true(ctx, 'three components', isinstance(B, tuple)
                  and len(B) == 3)
        if not (isinstance(B, tuple) and len(B) == 3):
            return
        sh = np.broadcast_shapes(*shapes)
        want = [np.full(sh, Sym.const(0), dtype=object) for _ in COMP]

        def add(f):
            for k in range(3):
                want[k] = want[k] + np.broadcast_to(objarr(f[k]), sh)
        nt = len(ctx.warned)
        if 'tdep' in want_src:
            add(field('tdep', t, r, th, ph, sym(20), False, 'linear'))
        if 'static' in want_src:
            add(field('static', sym(0), r, th, ph,
                      o.model_static.limit(n85), False, 'linear', True))
        if 'gsm' in want_src:
            add(mag_field('gsm', ('external', 'internal'), t, r, th, ph))
        if 'sm' in want_src:
            add(mag_field('sm', ('external', 'internal'), t, r, th, ph,
                          rc_e=rc_e, rc_i=rc_i))
        for k, c in enumerate(COMP):
            post_eq(ctx, c, B[k], objarr(want[k]))
    return verify(f'CHAOS.__call__ {how}, shapes {shapes}, nmax_static '
                  f'{nst}, RC {rc}', body, FN, fail_fast=False)


def _call(*a, **k):
    @R.contract(f'CHAOS.__call__: {a[1]} sources, shapes {a[0]}'
                + (', static degree given' if a[2] else '')
                + (f', RC index {a[3]}' if a[3] else '')
                + (', verbose' if k else ''),
                FN + ['chaos.CHAOS.synth_values_tdep',
                      'chaos.CHAOS.synth_values_static',
                      'chaos.CHAOS.synth_values_gsm',
                      'chaos.CHAOS.synth_values_sm'], modes=('proof',))
    def f(mode, tier):
        return call_case(*a, **k)


_call(SHAPES[0], 'default', False, None)
_call(SHAPES[1], 'default', True, 'both')
_call(SHAPES[2], 'default', False, 'rc_e')
_call(SHAPES[3], 'subset', True, 'both')
_call(SHAPES[4], 'subset', False, None)
_call(SHAPES[0], 'internal', False, 'both')
_call(SHAPES[0], 'external', False, 'both')
_call(SHAPES[2], 'single', True, 'both')
_call(SHAPES[0], 'default', False, 'both', verbose=True)


def mag_case(frame, source, rc, grid, nmax):
    """synth_values_gsm / synth_values_sm."""
    fn = f'synth_values_{frame}'

    def body(ctx):
        M = load(ctx)
        o = obj_of(M)
        t = reals('t', () if grid else (2,))
        r, th, ph = [reals(k, (2,)) for k in ('r', 'th', 'ph')]
        if grid:
            r = reals('r', ())
        kw = {}
        if source is not None:
            kw['source'] = source
        n = OWN
        if nmax:
            n = kw['nmax'] = 1 if ctx.choose() else 2
        if grid:
            kw['grid'] = True
        rc_e = rc_i = None
        if rc:
            rc_e = kw['rc_e'] = reals('rc_e', objarr(t).shape)
            rc_i = kw['rc_i'] = reals('rc_i', objarr(t).shape)
        B = getattr(M.ns['CHAOS'], fn)(o, t, r, th, ph, **kw)
        parts = ('external', 'internal') if source in (None, 'all') else (
            source,)
        want = mag_field(frame, parts, t, r, th, ph, n, rc_e, rc_i, grid)
        post_true(ctx, 'three components', isinstance(B, tuple)
                  and len(B) == 3)
        for k, c in enumerate(COMP):
            post_eq(ctx, c, B[k], objarr(want[k]))
    return verify(f'{fn}, source {source}, RC {rc}, grid {grid}', body,
                  [f'chaos.CHAOS.{fn}'], fail_fast=False)


def _mag(*a):
    @R.contract(f'synth_values_{a[0]}: source {a[1] or "default"}'
                + (', RC index given' if a[2] else '')
                + (', grid' if a[3] else '')
                + (', degree limit' if a[4] else ''),
                [f'chaos.CHAOS.synth_values_{a[0]}'], modes=('proof',))
    def f(mode, tier):
        return mag_case(*a)


for _fr in ('gsm', 'sm'):
    for _k, _s in enumerate((None, 'all', 'external', 'internal')):
        _mag(_fr, _s, _fr == 'sm' and _k != 1, _k % 2 == 1, _k in (0, 3))


@R.contract('unknown and missing sources are rejected',
            FN + [f'chaos.CHAOS.synth_values_{f}'
                  for f in ('gsm', 'sm', 'tdep', 'static')]
            + ['chaos.CHAOS.synth_coeffs_tdep',
               'chaos.CHAOS.synth_coeffs_static'], modes=('proof',))
def rejected(mode, tier):
    def body(ctx):
        M = load(ctx)
        C = M.ns['CHAOS']
        a = [core.real(k) for k in ('t', 'r', 'th', 'ph')]
        full = obj_of(M)
        for f in ('gsm', 'sm'):
            st, _ = outcome(getattr(C, f'synth_values_{f}'), full, *a,
                            source='extern')
            post_true(ctx, f'{f}: unknown part raises an error',
                      st == 'raise')
        every = ['tdep', 'static', 'gsm', 'sm']
        for miss in every:
            o = obj_of(M, [x for x in every if x != miss])
            for lst in (miss, [miss], None):
                st, _ = outcome(C.__call__, o, *a, source_list=lst)
                post_true(ctx, f'missing {miss} raises an error',
                          st == 'raise')
            rest = [x for x in every if x != miss]
            st, _ = outcome(C.__call__, o, *a, source_list=rest)
            post_true(ctx, f'without {miss}: the others work', st == 'ok')
            st, _ = outcome(getattr(C, f'synth_values_{miss}'), o,
                            *(a[1:] if miss == 'static' else a))
            post_true(ctx, f'synth_values_{miss} raises an error',
                      st == 'raise')
            st, _ = outcome(getattr(C, f'synth_coeffs_{miss}'), o,
                            *([] if miss == 'static' else a[:1]))
            post_true(ctx, f'synth_coeffs_{miss} raises an error',
                      st == 'raise')
    return verify('rejected sources', body, FN, fail_fast=False)


@R.contract('synth_values_tdep, synth_coeffs_tdep and the static versions '
            'are those of the models',
            ['chaos.CHAOS.synth_values_tdep', 'chaos.CHAOS.synth_coeffs_tdep',
             'chaos.CHAOS.synth_values_static',
             'chaos.CHAOS.synth_coeffs_static'], modes=('proof',))
def dispatch(mode, tier):
    def body(ctx):
        M = load(ctx)
        C = M.ns['CHAOS']
        o = obj_of(M)
        r, th, ph = [reals(k, (2,)) for k in ('r', 'th', 'ph')]
        t = reals('t', (2,))
        kw, nd, ex, g = {}, sym(0), 'linear', False
        n = None
        if ctx.choose():
            n = kw['nmax'] = core.integer('nmax', lo=1, hi=30)
            ctx.assume(n >= 1)
        if ctx.choose():
            nd = kw['deriv'] = core.integer('deriv', lo=0, hi=3)
            ctx.assume(nd >= 1)
        if ctx.choose():
            ex = kw['extrapolate'] = 'cubic'
        cw = dict(kw)
        if ctx.choose():
            g = kw['grid'] = True
        lim = o.model_tdep.limit(n)
        got = C.synth_values_tdep(o, t, r, th, ph, **kw)
        if g:
            t1 = t
        want = field('tdep', t, r, th, ph, lim + 1000*nd if 'deriv' in kw
                     else lim, g, ex)
        for k, c in enumerate(COMP):
            post_eq(ctx, c, got[k], want[k])
        got = C.synth_coeffs_tdep(o, t, **cw)
        post_true(ctx, 'coefficients of the model', got[:2] == (
            'coeffs', 'tdep') and got[2] is t and got[5] == ex)
        post_eq(ctx, 'degree', got[3], lim)
        post_eq(ctx, 'derivative', sym(got[4]), nd)
        kw.pop('deriv', None)
        kw.pop('extrapolate', None)
        lim = o.model_static.limit(n)
        got = C.synth_values_static(o, r, th, ph, **kw)
        want = field('static', sym(0), r, th, ph, lim, g, 'linear', True)
        for k, c in enumerate(COMP):
            post_eq(ctx, f'static {c}', got[k], want[k])
        got = C.synth_coeffs_static(o, nmax=n)
        post_true(ctx, 'coefficients of the static model', got[:2] == (
            'coeffs', 'static'))
        tt = sym(objarr(got[2])[()])
        post_true(ctx, 'time inside the period of the static model',
                  b_and(tt >= o.model_static.breaks[0],
                        tt <= o.model_static.breaks[1]))
        post_eq(ctx, 'degree', got[3], lim)
    return verify('dispatch to the models', body,
                  ['chaos.CHAOS.synth_values_tdep'], fail_fast=False)
