"""P07: magnetospheric coefficients."""
from pydv import core, extract, npx
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, SComplex, Unsupported, b_and, b_or, sym
from pydv.npx import SymTable
from pydv.registry import Registry
from contracts import pp

R = Registry('P07')
TRUSTED = ['numpy.load, h5py and the linear interpolation of scipy '
           '(interp1d) by their contracts',
           'scipy PPoly of order one: the coefficient of the bin that '
           'contains the time (end bins beyond the break points)',
           'synth_rotate_gauss by its contract (verified below) in the '
           'contracts of synth_coeffs_gsm and synth_coeffs_sm']
ASSUMPTIONS = ['representative array shapes and matrix sizes stand for all',
               'first break point < last break point']
FN = ['coordinate_utils.synth_rotate_gauss']


# ------------------------------------------------------------ Fourier series

def fourier(tshape, fdim, scaled, N=None):
    K, L = 2, 1

    def body(ctx):
        M = extract.load('coordinate_utils', {'config_utils':
                                              ConfigModule({})})
        if N is None:
            nf = core.integer('nf', lo=1, hi=4)
            ctx.assume(nf >= 1)

            def freq(ix):
                if fdim == 1:
                    return core.uf('f', ix[0])
                return objarr([[core.uf(f'f{i}{j}', ix[0]) for j in range(L)]
                               for i in range(K)])

            def spec(ix):
                out = np.empty((K, L), dtype=object)
                for i, j in np.ndindex(K, L):
                    out[i, j] = SComplex(core.uf(f'sr{i}{j}', ix[0]),
                                         core.uf(f'si{i}{j}', ix[0]))
                return out
            F = SymTable((nf,) if fdim == 1 else (nf, K, L), freq, 'frequency')
            S = SymTable((nf, K, L), spec, 'spectrum')
        else:
            F = reals('f', (N,) if fdim == 1 else (N, K, L))
            S = np.empty((N, K, L), dtype=object)
            for i in np.ndindex(N, K, L):
                lab = ''.join(map(str, i))
                S[i] = SComplex(core.real('sr' + lab), core.real('si' + lab))
        t = objarr(reals('t', tshape))
        kw = {} if scaled is None else {'scaled': scaled}
        G = objarr(M.ns['synth_rotate_gauss'](t, F, S, **kw))
        post_true(ctx, 'shape', G.shape == tshape + (K, L))
        if G.shape != tshape + (K, L):
            return
        pi = core.PI()

        def term(f, s, tt):
            s = SComplex.of(s)
            a = 2*pi*f*tt
            v = s.re*core.cos(a) - s.im*core.sin(a)
            return v if scaled else v*(1 + npx.ind_lt(-f)) if N is None \
                else v*(2 if CTX.fork(f > 0) else 1)
        for i in np.ndindex(*tshape):
            for n, m in np.ndindex(K, L):
                if N is None:
                    k = npx.BOUND(0)
                    f = freq((k,))
                    f = f if fdim == 1 else f[n, m]
                    want = npx.SUM(nf, term(f, spec((k,))[n, m], t[i]))
                else:
                    want = Sym.const(0)
                    for k in range(N):
                        want = want + term(F[k] if fdim == 1 else F[k, n, m],
                                           S[k, n, m], t[i])
                post_eq(ctx, f'element {n, m} at time {list(i)}',
                        G[i + (n, m)], want, refutable=N is not None)
    return verify(f'synth_rotate_gauss times {tshape}, {fdim}-D frequency, '
                  f'scaled {scaled}', body, FN, fail_fast=False,
                  mode='proof' if N is None else 'bounded',
                  bound='' if N is None else f'{N} frequencies, all values')


def _fou(*a):
    @R.contract(f'synth_rotate_gauss: times {a[0]}, {a[1]}-D frequency, '
                f'scaled {a[2]!r}', FN)
    def f(mode, tier):
        if mode == 'proof':
            return fourier(*a)
        return [fourier(*a, N=n) for n in (1, 2)]


_fou((2,), 3, True)
_fou((2,), 3, None)
_fou((), 3, False)
_fou((1, 2), 1, None)
_fou((2,), 1, np.bool_(True))
_fou((), 3, np.bool_(False))


# ------------------------------------------------------------ coefficients

class Mark:
    """A stored array, known by its name only."""

    def __init__(self, name):
        self.name = name


class Spectrum(dict):
    """Contents of a spectrum file."""

    def __init__(self, frame):
        super().__init__()
        for k in ('frequency', 'spectrum', 'frequency_ind', 'spectrum_ind',
                  'scaled'):
            self[k] = Mark(frame + ':' + k)
        self['dipole'] = reals(frame + 'dip', (3,))
        self.files = list(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


K8 = 8


def rot(frame, t, ind):
    """Spec: rotation matrices (opaque elements)."""
    t = objarr(t)
    out = np.empty(t.shape + (K8, K8), dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = core.uf(f'R{frame}{"ind" if ind else "ext"}_{i[-2]}_{i[-1]}',
                         sym(t[i[:-2]]))
    return out


def rotate_contract(time, frequency, spectrum, scaled=None):
    f, s = frequency.name.split(':'), spectrum.name.split(':')
    ok = f[0] == s[0] and (f[1], s[1]) in (
        ('frequency', 'spectrum'), ('frequency_ind', 'spectrum_ind'))
    post_true(CTX.cur, 'frequencies and spectrum belong together', ok,
              kind='pre')
    post_true(CTX.cur, 'scaling flag of the file is passed on',
              isinstance(scaled, Mark) and scaled.name == f[0] + ':scaled',
              kind='pre')
    if not ok:
        raise core.PathEnd('precondition')
    return rot(f[0], time, f[1].endswith('_ind'))


class CU:
    synth_rotate_gauss = staticmethod(rotate_contract)


class PP1:
    """PPoly of order one by its contract."""

    def __init__(self, c, x, extrapolate=None, axis=0):
        self.c, self.x = c, x
        self.extrapolate = extrapolate is None or bool(extrapolate)

    @classmethod
    def construct_fast(cls, c, x, extrapolate=None, axis=0):
        return cls(c, x, extrapolate, axis)

    def __call__(self, t):
        t = objarr(t)
        out = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            if not self.extrapolate and not CTX.fork(
                    b_and(t[i] >= self.x[0], t[i] <= self.x[-1])):
                out[i] = core.real('NaN')
                continue
            b = core.uf('bin_' + self.x.name, sym(t[i]), is_int=True)
            out[i] = sym(objarr(self.c.read((b,), check=False)).reshape(-1)[0])
        return out


class Interp:
    """interp1d (linear) of the RC index by its contract."""

    def __init__(self, x, y, kind='linear', bounds_error=None, **kw):
        if kind != 'linear' or kw:
            raise Unsupported('interpolation')
        self.x, self.y, self.be = x, y, bounds_error
        self.lo, self.hi = core.real('RC_start'), core.real('RC_end')

    def _check_bounds(self, t):
        t = objarr(t)
        a = np.zeros(t.shape, dtype=bool)
        b = np.zeros(t.shape, dtype=bool)
        for i in np.ndindex(*t.shape):
            a[i] = CTX.fork(sym(t[i]) < self.lo)
            b[i] = CTX.fork(sym(t[i]) > self.hi)
        return a, b

    def __call__(self, t):
        a, b = self._check_bounds(t)
        if (a.any() or b.any()) and self.be in (None, True):
            raise ValueError('out of bounds')
        t = objarr(t)
        if self.x.name != 'RC:time':
            raise Unsupported('abscissa of the RC index')
        out = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            out[i] = core.real('NaN') if a[i] or b[i] else core.uf(
                self.y.name, sym(t[i]))
        return out


class RCFile(dict):
    def __init__(self):
        super().__init__(time=Mark('RC:time'), RC_e=Mark('RC:RC_e'),
                         RC_i=Mark('RC:RC_i'), RC=Mark('RC:RC'))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def files(M, ctx, h5=True):
    """np.load, h5py and the reader of RC files."""
    log = {'loaded': [], 'rc': []}
    spectra = {'GSM.npz': Spectrum('gsm'), 'SM.npz': Spectrum('sm')}

    def np_load(f, *a, **k):
        log['loaded'].append(f)
        if f not in spectra:
            raise FileNotFoundError(f)
        return spectra[f]
    M.ns['np'].load = np_load

    class H5:
        @staticmethod
        def File(f, mode='r'):
            log['rc'].append(f)
            if not h5:
                raise OSError('not HDF5')
            return RCFile()
    M.ns['h5py'] = H5

    def dat(f, *a, **k):
        log['rc'].append(f)
        return RCFile()
    M.ns['du'].load_RC_datfile = dat
    return log, spectra


def load(ctx, h5=True, default_rc=True):
    dip = reals('dipole', (3,))
    cfg = ConfigModule({'file.GSM_spectrum': 'GSM.npz',
                        'file.SM_spectrum': 'SM.npz',
                        'file.RC_index': 'RC.h5' if default_rc else 'my.h5',
                        'params.dipole': dip, 'params.CHAOS_version': '7.18',
                        'params.version': '7.18'})
    cfg.basicConfig.defaults = {'file.RC_index': ('RC.h5', None)}
    du = type('DU', (), {})
    M = pp.load_chaos(ctx, PP1, config_utils=cfg, coordinate_utils=CU,
                      data_utils=du)
    M.ns['sip'] = pp.SipStub(PP1, interp1d=Interp)
    log, spectra = files(M, ctx, h5)
    return M, log, spectra, dip


class Brk(SymTable):
    def __init__(self, name):
        n = core.integer('n_' + name, lo=1, hi=9)
        CTX.cur.assume(n >= 1)
        self.n = n
        super().__init__((n + 1,), lambda ix: core.uf(name, ix[0]), name)

    def snapshot(self):
        return self

    copy = snapshot


def chaos_obj(M, ctx, which='static'):
    o = object.__new__(M.ns['CHAOS'])
    lo, hi = core.real('start'), core.real('end')
    ctx.assume(lo < hi)
    m = type('Model', (), {})()
    m.breaks = objarr([lo, hi])
    bd, cd = {}, {}
    for k in ('q10', 'q11', 's11'):
        b = Brk('brk_' + k)
        bd[k] = b
        cd[k] = SymTable((1, b.n), lambda ix, k=k: objarr(
            [core.uf('delta_' + k, ix[0])]), 'delta_' + k)
    o.__dict__.update(
        name='C', meta=None, coeffs_gsm=reals('g', (K8,)),
        coeffs_sm=reals('s', (K8,)), n_gsm=2, n_sm=2, breaks_delta=bd,
        coeffs_delta=cd, model_static=m if which == 'static' else None,
        model_tdep=None if which == 'static' else m)
    return o, lo, hi


def dot(A, v, i):
    s = Sym.const(0)
    for j in range(len(v)):
        s = s + A[i, j]*v[j]
    return s


def check_mismatch(ctx, st, spectra, frame, dip):
    """True when the path is one of a spectrum for another dipole."""
    d = spectra[frame.upper() + '.npz']['dipole']
    for a, b in zip(d, dip):
        if not CTX.fork(a == b):
            post_true(ctx, 'a spectrum for another dipole is rejected',
                      st == 'raise')
            return True
    return False


def gsm(tshape, source, nmax, which='static'):
    def body(ctx):
        M, log, spectra, dip = load(ctx)
        o, lo, hi = chaos_obj(M, ctx, which)
        t = reals('t', tshape)
        kw, n = {}, 2
        if source:
            kw['source'] = source
        if nmax:
            kw['nmax'] = nmax
            n = min(nmax, 2)
        st, v = outcome(M.ns['CHAOS'].synth_coeffs_gsm, o, t, **kw)
        if check_mismatch(ctx, st, spectra, 'gsm', dip):
            return
        if st == 'raise':
            raise v
        post_true(ctx, 'the GSM spectrum is used',
                  set(log['loaded']) == {'GSM.npz'})
        v = objarr(v)
        post_true(ctx, 'shape', v.shape == tshape + (n*(n + 2),))
        if v.shape != tshape + (n*(n + 2),):
            return
        A = rot('gsm', t, source == 'internal')
        out = False
        for i in np.ndindex(*tshape):
            x = objarr(t)[i]
            for k in range(n*(n + 2)):
                post_eq(ctx, f'coefficient {k} at time {list(i)}',
                        v[i + (k,)], dot(A[i], o.coeffs_gsm, k))
            if not CTX.fork(b_and(x >= lo, x <= hi)):
                out = True
        post_true(ctx, 'a warning for times outside or large degrees',
                  (len(ctx.warned) > 0) == (out or bool(nmax and nmax > 2)))
    return verify(f'synth_coeffs_gsm times {tshape}, source {source}, nmax '
                  f'{nmax}', body, ['chaos.CHAOS.synth_coeffs_gsm'],
                  fail_fast=False)


def _gsm(*a, **k):
    @R.contract(f'synth_coeffs_gsm: times {a[0]}, {a[1] or "default"} part, '
                f'nmax {a[2]}' + (', time-dependent model only' if k else ''),
                ['chaos.CHAOS.synth_coeffs_gsm'], modes=('proof',))
    def f(mode, tier):
        return gsm(*a, **k)


_gsm((2,), None, None)
_gsm((), 'external', 1)
_gsm((2,), 'internal', None)
_gsm((1, 2), 'internal', 1)
_gsm((2,), 'external', 3, which='tdep')


def sm(tshape, source, nmax, rc, h5=True, default_rc=True):
    """rc: None (from the file), 'scalar' or 'array'."""
    def body(ctx):
        ctx.lazy_extrema = True
        M, log, spectra, dip = load(ctx, h5, default_rc)
        spectra['SM.npz']['dipole'] = dip      # otherwise: see below
        o, lo, hi = chaos_obj(M, ctx)
        t = reals('t', tshape)
        kw, n = {}, 2
        if source:
            kw['source'] = source
        if nmax:
            kw['nmax'] = nmax
            n = min(nmax, 2)
        T = objarr(t)
        rcv = None
        if rc:
            kw['rc'] = reals('rc', tshape if rc == 'array' else ())
            rcv = np.broadcast_to(objarr(kw['rc']), tshape)
        st, v = outcome(M.ns['CHAOS'].synth_coeffs_sm, o, t, **kw)
        if not rc:
            out = False
            for i in np.ndindex(*tshape):
                if CTX.fork(b_or(T[i] < core.real('RC_start'),
                                 T[i] > core.real('RC_end'))):
                    out = True
            if out:
                post_true(ctx, 'times outside of the RC index are rejected',
                          st == 'raise')
                return
        if st == 'raise':
            raise v
        post_true(ctx, 'the SM spectrum is used',
                  set(log['loaded']) == {'SM.npz'})
        if not rc:
            post_true(ctx, 'the configured RC index is used', set(
                log['rc']) == {'RC.h5' if default_rc else 'my.h5'})
        v = objarr(v)
        post_true(ctx, 'shape', v.shape == tshape + (n*(n + 2),))
        if v.shape != tshape + (n*(n + 2),):
            return
        internal = source == 'internal'
        A = rot('sm', t, False)
        I_ = rot('sm', t, True)
        for i in np.ndindex(*tshape):
            r = rcv[i] if rc else core.uf(
                'RC:RC_i' if internal else 'RC:RC_e', T[i])
            d = []
            for k in ('q10', 'q11', 's11'):
                b = core.uf('bin_brk_' + k, T[i], is_int=True)
                d.append(core.uf('delta_' + k, b))
            s = list(o.coeffs_sm)
            for k in range(n*(n + 2)):
                if internal:
                    want = dot(I_[i], d + s[3:], k)
                    if k < 3:
                        want = want + dot(A[i], [r*x for x in s[:3]], k)
                else:
                    want = dot(A[i], [r*x + y for x, y in zip(s[:3], d)]
                               + s[3:], k)
                post_eq(ctx, f'coefficient {k} at time {list(i)}',
                        v[i + (k,)], want)
    return verify(f'synth_coeffs_sm times {tshape}, source {source}, nmax '
                  f'{nmax}, RC {rc}', body, ['chaos.CHAOS.synth_coeffs_sm'],
                  fail_fast=False)


def _sm(*a, **k):
    @R.contract(f'synth_coeffs_sm: times {a[0]}, {a[1] or "default"} part, '
                f'nmax {a[2]}, RC index {a[3] or "of the file"}'
                + (f' {k}' if k else ''),
                ['chaos.CHAOS.synth_coeffs_sm'], modes=('proof',))
    def f(mode, tier):
        return sm(*a, **k)


_sm((2,), None, None, 'array')
_sm((2,), 'external', 1, 'scalar')
_sm((), 'external', None, None)
_sm((2,), 'internal', None, 'array')
_sm((), 'internal', 3, 'scalar')
_sm((), 'internal', None, None)
_sm((1, 2), 'internal', 1, None, h5=False)
_sm((2,), 'external', None, None, h5=False, default_rc=False)


@R.contract('synth_coeffs_sm: a spectrum for another dipole is rejected',
            ['chaos.CHAOS.synth_coeffs_sm'], modes=('proof',))
def sm_dipole(mode, tier):
    def body(ctx):
        ctx.lazy_extrema = True
        M, log, spectra, dip = load(ctx)
        o, lo, hi = chaos_obj(M, ctx)
        kw = {'source': 'internal'} if ctx.choose() else {}
        st, v = outcome(M.ns['CHAOS'].synth_coeffs_sm, o, core.real('t'),
                        rc=core.real('rc'), **kw)
        if not check_mismatch(ctx, st, spectra, 'sm', dip):
            post_true(ctx, 'the same dipole is accepted', st == 'ok')
    return verify('dipole of the SM spectrum', body,
                  ['chaos.CHAOS.synth_coeffs_sm'], fail_fast=False)


@R.contract('unknown parts and missing coefficients are rejected',
            ['chaos.CHAOS.synth_coeffs_gsm', 'chaos.CHAOS.synth_coeffs_sm'],
            modes=('proof',))
def rejected(mode, tier):
    def body(ctx):
        M, log, spectra, dip = load(ctx)
        for s in spectra.values():
            s['dipole'] = dip
        o, lo, hi = chaos_obj(M, ctx)
        C = M.ns['CHAOS']
        t = core.real('t')
        st, _ = outcome(C.synth_coeffs_gsm, o, t, source='all')
        post_true(ctx, 'GSM: unknown part', st == 'raise')
        st, _ = outcome(C.synth_coeffs_sm, o, t, source='all',
                        rc=core.real('rc'))
        post_true(ctx, 'SM: unknown part', st == 'raise')
        o.coeffs_gsm = o.coeffs_sm = None
        st, _ = outcome(C.synth_coeffs_gsm, o, t)
        post_true(ctx, 'GSM: missing', st == 'raise')
        st, _ = outcome(C.synth_coeffs_sm, o, t, rc=core.real('rc'))
        post_true(ctx, 'SM: missing', st == 'raise')
    return verify('rejected parts', body, ['chaos.CHAOS.synth_coeffs_sm'],
                  fail_fast=False)
