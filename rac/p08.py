import numpy as np
import common
from common import oracle, close, arr, raises, size
from chaosmagpy import chaos, model_utils as mu
from chaosmagpy.config_utils import basicConfig


def deg(n):
    return slice(n*n - 1, n*n + 2*n)


def gen(rng, k):
    N = size(rng, k, [1, 2, 3, 4, 6, 10], 60)
    ax = [None, 0, 1, -1, -2, 2][k % 6]
    nd = {None: 1 + k % 3, 0: 1 + k % 3, 1: 2 + k % 2, -1: 1 + k % 3,
          -2: 2 + k % 2, 2: 3}[ax]
    sh = [int(x) for x in rng.integers(1, 4, nd)]
    sh[-1 if ax is None else ax] = N*(N + 2)
    return {'c': rng.normal(size=sh), 'axis': ax, 'N': N,
            'source': [None, 'internal', 'external', 'toroidal'][(k//2) % 4],
            'radius': [None, 6371.2, 3485., 7000.5][(k//3) % 4],
            'nmax': [None, 1, N, N + 3, max(1, N - 1)][k % 5]}


def spectrum(c, axis, source, radius, nmax, a=6371.2):
    c = np.moveaxis(c, -1 if axis is None else axis, 0)
    x = 1. if radius is None else a/radius
    out = []
    for n in range(1, nmax + 1):
        f = {'internal': (n + 1)*x**(2*n + 4),
             'external': n*(1/x)**(2*n - 2),
             'toroidal': n*(n + 1)/(2*n + 1)}[source or 'internal']
        out.append(f*(c[deg(n)]**2).sum(axis=0))
    return np.moveaxis(np.array(out), 0, -1 if axis is None else axis)


@oracle('power spectrum', gen, n=80)
def power(case):
    kw = {k: case[k] for k in ('source', 'nmax', 'axis')
          if case[k] is not None}
    c = arr(case['c'])
    top = min(case['N'], case['nmax'] or case['N'])
    for a in (None, 6500.):
        if a:
            basicConfig['params.r_surf'] = a
        try:
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                g = mu.power_spectrum(c, case['radius'], **kw)
        finally:
            basicConfig.reset('params.r_surf')
        e = close(g, spectrum(c, case['axis'], case['source'],
                              case['radius'], top, a or 6371.2), 1e-9, 0,
                  'spectrum')
        if e:
            return e
    if not raises(lambda: mu.power_spectrum(c, source='core'), ValueError):
        return 'unknown source accepted'
    return None


def gen2(rng, k):
    N = size(rng, k, [1, 2, 3, 5, 13], 60)
    return {'a': rng.normal(size=N*(N + 2)), 'b': rng.normal(
        size=N*(N + 2)), 'N': N, 's': float(rng.uniform(0.1, 40))}


@oracle('degree correlation', gen2, n=40)
def correlation(case):
    a, b, N = arr(case['a']), arr(case['b']), case['N']
    W = np.array([a[deg(n)] @ b[deg(n)]/np.sqrt(
        (a[deg(n)] @ a[deg(n)])*(b[deg(n)] @ b[deg(n)]))
        for n in range(1, N + 1)])
    g = mu.degree_correlation(a, b)
    return (close(g, W, 1e-9, 1e-11, 'correlation')
            or close(mu.degree_correlation(b, a), W, 1e-9, 1e-11, 'swapped')
            or close(mu.degree_correlation(case['s']*a, b), W, 1e-9, 1e-11,
                     'scaled')
            or close(mu.degree_correlation(a, a), np.ones(N), 1e-9, 0,
                     'with itself')
            or (None if (np.abs(g) <= 1 + 1e-12).all() else 'above one'))


@oracle('sensitivity', gen2, n=40)
def sens(case):
    a, t, N = arr(case['a']), arr(case['b']), case['N']
    W = np.empty(a.shape)
    for n in range(1, N + 1):
        W[deg(n)] = (a - t)[deg(n)]/np.sqrt((t[deg(n)]**2).mean())
    a0, t0 = a.copy(), t.copy()
    g = mu.sensitivity(a, t)
    if (a != a0).any() or (t != t0).any():
        return 'inputs are modified'
    return close(g, W, 1e-9, 1e-11, 'sensitivity')


@oracle('vectors that do not match', lambda rng, k: {'k': k}, n=4)
def reject(case):
    s1, s2 = [((8,), (3,)), ((1, 8), (8,)), ((8,), (8, 1)), ((3,), (8,))][
        case['k'] % 4]
    for f in (mu.degree_correlation, mu.sensitivity):
        if not raises(lambda: f(np.ones(s1), np.ones(s2)), ValueError):
            return f'{f.__name__} accepts {s1} and {s2}'
    return None


def gen3(rng, k):
    br = np.array([0., 400., 900.])
    return {'br': br, 'c': rng.normal(size=(3, 2, 15)),
            't': rng.uniform(-200, 1100, [(), (3,), (2, 2)][k % 3]),
            'source': ['internal', 'external'][k % 2],
            'radius': [None, 6371.2, 5000.][k % 3],
            'nmax': [None, 2, 3][(k//2) % 3], 'deriv': [None, 1, 0][k % 3]}


@oracle('spectrum of a model', gen3, n=24)
def model(case):
    import warnings
    m = chaos.BaseModel('m', breaks=arr(case['br']), coeffs=arr(case['c']),
                        source=case['source'])
    kw = {k: case[k] for k in ('nmax', 'deriv') if case[k] is not None}
    t = arr(case['t'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        c = m.synth_coeffs(t, **kw)
        g = m.power_spectrum(t, case['radius'], **kw)
    return close(g, spectrum(c, -1, case['source'], case['radius'],
                             case['nmax'] or 3), 1e-9, 0, 'model spectrum')
