import warnings
import numpy as np
import common
from common import close, arr, raises
import p07
from p07 import gen as gen7, want_gsm, want_sm
import ref
from chaosmagpy import chaos, model_utils as mu

common.ORACLES.clear()
oracle = common.oracle
SRC = ['tdep', 'static', 'gsm', 'sm']


def gen(rng, k):
    c = gen7(rng, 1)
    sh = [((3,), (3,), (3,), (3,)), ((), (), (2,), (2,)),
          ((2, 1), (), (2,), (1, 2)), ((), (), (), ()),
          ((2, 1), (1, 2), (), ())][k % 5]
    c['t'] = rng.uniform(c['lo'], c['hi'], sh[0])
    c['r'] = rng.uniform(6400, 7000, sh[1])
    c['th'] = ref.angles(rng, sh[2])
    c['ph'] = rng.uniform(-180, 360, sh[3])
    c['rc_e'] = rng.normal(size=sh[0])
    c['rc_i'] = rng.normal(size=sh[0])
    c['nst'] = [86, 20, 90, 3][k % 4]
    c['nmax_static'] = [None, None, 1, 87, 2][k % 5]
    c['tdep'] = rng.normal(size=(4, 3, 15))
    for j in range(4):
        c['tdep'][3 - j] /= 300.**j
    c['seed'] = k
    if k % 3 == 0:
        c['list'] = None
    elif k % 3 == 1:
        c['list'] = ['internal', 'external', 'tdep', 'gsm', 'sm', 'static'][
            (k//3) % 6]
    else:
        n = 1 + k % 4
        c['list'] = [SRC[i] for i in rng.permutation(4)[:n]]
    return c


def model(case, drop=()):
    br = {k: arr(v) for k, v in case['breaks'].items()}
    co = {k: arr(v) for k, v in case['delta'].items()}
    nb = np.linspace(case['lo'], case['hi'], 4)
    N = case['nst']
    st = np.random.default_rng(case['seed']).normal(size=(1, 1, N*(N + 2)))
    d = dict(coeffs_tdep=arr(case['tdep']), coeffs_static=st,
             coeffs_sm=arr(case['sm']), coeffs_gsm=arr(case['gsm']))
    for k in drop:
        d['coeffs_' + k] = None
    return chaos.CHAOS(nb, order=4, breaks_delta=br, coeffs_delta=co, **d), \
        st[0, 0], nb


def synth(c, r, th, ph, source):
    """Sum over unit fields; c has the coefficients in its last axis."""
    b = np.broadcast(np.empty(c.shape[:-1]), r, th, ph)
    out = np.empty((3,) + b.shape)
    cc = np.broadcast_to(c, b.shape + c.shape[-1:])
    n = int(round((c.shape[-1] + 1)**0.5)) - 1
    a = [np.broadcast_to(x, b.shape) for x in (r, th, ph)]
    for i in np.ndindex(*b.shape):
        out[(slice(None),) + i] = ref.field(cc[i], a[0][i], a[1][i], a[2][i],
                                            1, n, None, source, 6371.2)
    return out


def expected(case, src, st, nb, nmag=2, parts=('external', 'internal')):
    t, r, th, ph = [arr(case[k]) for k in ('t', 'r', 'th', 'ph')]
    sh = np.broadcast(t, r, th, ph).shape
    B = np.zeros((3,) + sh)
    if 'tdep' in src:
        from p04 import poly
        c = arr(case['tdep'])
        v = np.empty(t.shape + (15,))
        for i in np.ndindex(*t.shape):
            j = min(np.searchsorted(nb, t[i], side='right') - 1, 2)
            v[i] = poly(c[:, j], t[i] - nb[j], 0)
        B = B + synth(v, r, th, ph, 'internal')
    if 'static' in src:
        n = min(85 if case['nmax_static'] is None else case['nmax_static'],
                case['nst'])
        B = B + synth(st[:n*(n + 2)], r, th, ph, 'internal')
    for which in ('gsm', 'sm'):
        for p in parts:
            if which in src:
                v = want_gsm(case, p) if which == 'gsm' else want_sm(
                    case, p, case['rc_e' if p == 'external' else 'rc_i'])
                B = B + synth(v[..., :nmag*(nmag + 2)], r, th, ph, p)
    return B


@oracle('sum of the sources', gen, n=40, weight=4)
def total(case):
    m, st, nb = model(case)
    a = [arr(case[k]) for k in ('t', 'r', 'th', 'ph')]
    src = {None: SRC, 'internal': SRC[:2], 'external': SRC[2:]}.get(
        case['list'] if not isinstance(case['list'], list) else 0,
        case['list'])
    if isinstance(src, str):
        src = [src]
    kw = {k: case[k] for k in ('nmax_static',) if case[k] is not None}
    B = m(*a, rc_e=arr(case['rc_e']), rc_i=arr(case['rc_i']),
          source_list=case['list'], **kw)
    W = expected(case, src, st, nb)
    for k in range(3):
        e = close(B[k], W[k], 1e-6, 1e-6, f'component {k} of {case["list"]}')
        if e:
            return e
    return None


def gen_large(rng, k):
    c = gen(rng, 3)
    c['nst'] = max(common.size(rng, k, [100, 87], 130), 2)
    c['nmax_static'] = c['nst'] - 1
    c['list'] = ['static']
    return c


@oracle('degree of the static field', gen_large, n=12)
def static(case):
    return total(case)


@oracle('magnetospheric sources', gen, n=30, weight=2)
def mag(case):
    m, st, nb = model(case)
    a = [arr(case[k]) for k in ('t', 'r', 'th', 'ph')]
    n = 1 + case['seed'] % 2
    for src, parts in ((None, ('external', 'internal')),
                       ('all', ('external', 'internal')),
                       ('external', ('external',)),
                       ('internal', ('internal',))):
        for which in ('gsm', 'sm'):
            kw = {} if which == 'gsm' else {'rc_e': arr(case['rc_e']),
                                            'rc_i': arr(case['rc_i'])}
            B = getattr(m, f'synth_values_{which}')(*a, source=src, nmax=n,
                                                    **kw)
            W = expected(case, [which], st, nb, n, parts)
            for k in range(3):
                e = close(B[k], W[k], 1e-6, 1e-6,
                          f'{which} {src} component {k}')
                if e:
                    return e
    return None


@oracle('coefficients and fields of one internal source', gen, n=30)
def single(case):
    m, st, nb = model(case)
    t, r, th, ph = [arr(case[k]) for k in ('t', 'r', 'th', 'ph')]
    n = [None, 1, 2][case['seed'] % 3]
    d = min(case['nst'], 3) if n is None else n
    kw = {} if n is None else {'nmax': n}
    s = np.array(st)
    if n is None:
        d = case['nst']
    e = close(m.synth_coeffs_static(**kw), s[:d*(d + 2)], 1e-9, 1e-12,
              'static coefficients')
    if e:
        return e
    q = dict(case, nmax_static=d)
    if d <= 20:
        W = expected(dict(q, t=0.), ['static'], st, nb)
        for b, w in zip(m.synth_values_static(r, th, ph, **kw), W):
            e = close(b, w, 1e-7, 1e-7, 'static field')
            if e:
                return e
    from p04 import poly
    c = arr(case['tdep'])
    v = np.empty(t.shape + (15,))
    nu = [None, 1, 2, 0][case['seed'] % 4]
    for i in np.ndindex(*t.shape):
        j = min(np.searchsorted(nb, t[i], side='right') - 1, 2)
        v[i] = poly(c[:, j], t[i] - nb[j], nu or 0)*365.25**(nu or 0)
    d = n or 3
    if nu is not None:
        kw['deriv'] = nu
    e = close(m.synth_coeffs_tdep(t, **kw), v[..., :d*(d + 2)], 1e-8,
              1e-9*np.abs(v).max(), 'time-dependent coefficients')
    if e:
        return e
    W = synth(v[..., :d*(d + 2)], r, th, ph, 'internal')
    for b, w in zip(m.synth_values_tdep(t, r, th, ph, **kw), W):
        e = close(b, w, 1e-7, 1e-8*(1 + np.abs(v).max()),
                  'time-dependent field')
        if e:
            return e
    # outside of the period: as the model of the time-dependent field
    far = np.array([nb[0] - 100., nb[-1] + 250.])
    p = [np.ravel(x)[0] for x in (r, th, ph)]
    kw['extrapolate'] = [None, 'linear', 'quadratic', 'cubic', 'spline',
                         'constant', 'off'][case['seed'] // 4 % 7]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        w = m.model_tdep.synth_coeffs(far, **kw)
        e = close(m.synth_coeffs_tdep(far, **kw), w, 1e-9, 1e-9,
                  f'coefficients outside of the period {kw}')
        if e:
            return e
        sc = 1 + np.abs(np.nan_to_num(w)).max()
        for b, x in zip(m.synth_values_tdep(far, *p, **kw),
                        mu.synth_values(w, *p)):
            e = close(b, x, 1e-7, 1e-8*sc,
                      f'field outside of the period {kw}')
            if e:
                return e
    return None


@oracle('missing and unknown sources', lambda rng, k: dict(
    gen(rng, 3), drop=SRC[k % 4]), n=4)
def missing(case):
    m, st, nb = model(case, [case['drop']])
    a = [arr(case[k]) for k in ('t', 'r', 'th', 'ph')]
    kw = dict(rc_e=1., rc_i=1.)
    for lst in (None, [case['drop']], case['drop']):
        if not raises(lambda: m(*a, source_list=lst, **kw)):
            return f'{case["drop"]} is missing but {lst} is evaluated'
    m(*a, source_list=[s for s in SRC if s != case['drop']], **kw)
    m, st, nb = model(case)
    for f in (m.synth_values_gsm, m.synth_values_sm):
        if not raises(lambda: f(*a, source='everything'), ValueError):
            return 'unknown part accepted'
    return None
