import contextlib
import io
import os
import tempfile
import numpy as np
from common import oracle, close, arr, raises
import ref
from chaosmagpy import data_utils as du, model_utils as mu, chaos as ch

TOL = 6e-9


def rows(nmin, nmax):
    out = []
    for n in range(nmin, nmax + 1):
        for m in [0] + [s*k for k in range(1, n + 1) for s in (1, -1)]:
            out.append((n, m, n*n - 1 + (0 if m == 0 else 2*m - 1 if m > 0
                                         else -2*m)))
    return out


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


HEADERS = [None, '', '# one\n', '# one\n#  two 1 2 3\n\n', '# no end']


def gen(rng, k):
    nmin = [1, 1, 2, 3, 1, 5][k % 6]
    nmax = nmin + int(rng.integers(0, 5))
    N = int(rng.integers(1, 7))
    return {'nmin': nmin, 'nmax': nmax, 'N': N,
            'extra': int(rng.integers(0, 3)), 'seed': int(rng.integers(1e6)),
            'leap': [None, True, False][k % 3], 'order': [None, 1, 4, 6][
                int(rng.integers(4))], 'hd': int(rng.integers(5)),
            'flat': bool(rng.integers(2)), 'scale': float(rng.choice(
                [1., 1e-6, 40000.])), 'give': bool(rng.integers(2)),
            'comment': [None, '#'][k % 2]}


@oracle('series', gen, n=120)
def series(case):
    rng = np.random.default_rng(case['seed'])
    N, nmin, nmax = case['N'], case['nmin'], case['nmax']
    t = np.sort(rng.uniform(-20000, 20000, N))
    if case['seed'] % 3 == 0:
        t = np.round(t)
    K = nmax + case['extra']
    g = rng.normal(size=(N, K*(K + 2)))*case['scale']
    g0, t0 = g.copy(), t.copy()
    kw = {}
    if case['order'] is not None:
        kw['order'] = case['order']
    if nmin > 1 or case['give']:
        kw['nmin'] = nmin
    if case['extra'] or case['give']:
        kw['nmax'] = nmax
    if case['leap'] is not None:
        kw['leap_year'] = case['leap']
    if HEADERS[case['hd']] is not None:
        kw['header'] = HEADERS[case['hd']]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.shc')
        quiet(du.save_shcfile, t, g[0] if N == 1 and case['flat'] else g,
              filepath=f, **kw)
        kw = {} if case['leap'] is None else {'leap_year': case['leap']}
        if case['comment']:
            kw['comment'] = case['comment']
        time, c, par = du.load_shcfile(f, **kw)
        with open(f) as h:
            text = [x for x in h.read().split('\n')
                    if x.strip() and not x.strip().startswith('#')]
    got = [tuple(float(x) for x in ln.split()[:2]) for ln in text[2:]]
    if got != [(n, m) for n, m, _ in rows(nmin, nmax)]:
        return f'degree and order of the rows {got}'
    if not (np.array_equal(g, g0) and np.array_equal(t, t0)):
        return 'arguments changed'
    od = 1 if case['order'] is None else case['order']
    if {k: v for k, v in par.items() if k != 'SHC'} != dict(
            nmin=nmin, nmax=nmax, N=N, order=od, step=od - 1):
        return f'parameters {par}'
    want = np.stack([g[:, p] for _, _, p in rows(nmin, nmax)])
    return close(time, t, 0, 4e-6, 'times') or close(c, want, 1e-15, TOL,
                                                     'coefficients')


def gen_m(rng, k):
    order = k % 8 + 1
    pieces = int(rng.integers(1, 6))
    return {'order': order, 'seed': int(rng.integers(1e6)),
            'breaks': np.cumsum(rng.uniform(30, 500, pieces + 1)).tolist(),
            't0': float(rng.uniform(-15000, 5000)), 'nmax': int(
                rng.integers(1, 4)), 'leap': [None, True, False][k % 3],
            'range': int(rng.integers(4)), 'name': [None, 'abc'][k % 2],
            'source': [None, 'internal', 'external'][int(rng.integers(3))]}


def spline(case):
    rng = np.random.default_rng(case['seed'])
    b = arr(case['breaks']) + case['t0']
    nmax, order = case['nmax'], case['order']
    if order == 1:
        return ch.BaseModel('m', b, 1, rng.normal(
            size=(1, b.size - 1, nmax*(nmax + 2)))*100, source='internal')
    kn = mu.augment_breaks(b, order)
    c = rng.normal(size=(kn.size - order, nmax*(nmax + 2)))*100
    return ch.BaseModel.from_bspline('m', kn, c, order, source='internal')


def limits(case):
    n = case['nmax']
    return [(None, None), (min(2, n), None), (None, max(1, n - 1)),
            (n, n)][case['range']]


def inside(b):
    u = np.linspace(0, 1, 9)[1:-1]
    return np.sort(np.concatenate([b[:-1] + x*np.diff(b) for x in u]))


def agree(m, o, lo, hi, order):
    """The model o is m for the degrees lo to hi."""
    if o.order != order:
        return f'order {o.order}'
    b = m.breaks
    t = inside(b)
    a = m.synth_coeffs(t)[:, :hi*(hi + 2)].copy()
    a[:, :lo*lo - 1] = 0
    got = o.synth_coeffs(t)
    # sensitivity to the printed precision of the times (4e-6 days)
    da = np.abs(np.diff(a, axis=0)).max() if a.shape[0] > 1 else 0.
    tol = 1e-6 + 1e-3*da/np.diff(b).min()
    if order > 1:
        if o.breaks.shape != b.shape:
            return f'{o.breaks.size} break points'
        e = close(o.breaks, b, 0, 1e-5, 'break points')
        if e:
            return e
    return close(got, a, 0, tol, 'coefficients of the model')


@oracle('models', gen_m, n=120, weight=2)
def models(case):
    m = spline(case)
    nmin, nmax = limits(case)
    kw = {} if case['leap'] is None else {'leap_year': case['leap']}
    kr = dict(kw)
    if nmin is not None:
        kw['nmin'] = nmin
    if nmax is not None:
        kw['nmax'] = nmax
    if case['name']:
        kr['name'] = case['name']
    if case['source']:
        kr['source'] = case['source']
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.shc')
        quiet(m.to_shc, f, **kw)
        o = ch.BaseModel.from_shc(f, **kr)
    if o.name != (case['name'] or 'x') or o.source != (
            case['source'] or 'internal'):
        return f'{o.name} {o.source}'
    return agree(m, o, nmin or 1, nmax or case['nmax'], case['order'])


@oracle('full models', gen_m, n=40)
def full(case):
    case = dict(case, order=max(case['order'], 2))
    m = spline(case)
    n = case['nmax']
    rng = np.random.default_rng(case['seed'] + 1)
    sta = rng.normal(size=(1, 1, (n + 2)*(n + 4)))
    if case['range'] == 0:
        sta[..., :n*(n + 2)] = 0
    o = ch.CHAOS(m.breaks, order=m.order, coeffs_tdep=m.coeffs,
                 coeffs_static=sta)
    kw = {} if case['leap'] is None else {'leap_year': case['leap']}
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'x.shc')
        quiet(o.save_shcfile, f, **kw)
        a = ch.load_CHAOS_shcfile(f, **kw)
        g = os.path.join(d, 'y.shc')
        quiet(o.save_shcfile, g, model='static', **kw)
        b = ch.load_CHAOS_shcfile(g, name='st', **kw)
        c = ch.CHAOS.from_shc(f, name='fs', **kw)
    if a.model_static is not None or b.model_tdep is not None:
        return 'parts of the loaded model'
    if b.name != 'st' or a.name != 'x':
        return 'names'
    e = agree(m, a.model_tdep, 1, n, m.order)
    if e:
        return e
    if c.name != 'fs' or c.model_static is not None:
        return 'name or parts from CHAOS.from_shc'
    e = agree(m, c.model_tdep, 1, n, m.order)
    if e:
        return f'CHAOS.from_shc: {e}'
    want = sta.copy()
    want[..., :n*(n + 2)] = 0
    return close(b.model_static.coeffs, want, 0, TOL, 'static')
