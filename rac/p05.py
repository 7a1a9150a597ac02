import warnings
import numpy as np
from math import factorial
from common import oracle, close, arr, raises
from p04 import poly, model
import common
from chaosmagpy import chaos

common.ORACLES.clear()

METH = [(None, 2), ('linear', 2), ('quadratic', 3), ('cubic', 4),
        ('constant', 1), ('spline', 99), ('off', 0), (False, 0), (True, 2),
        (0, 0), (1, 1), (2, 2), (3, 3), (5, 5), (9, 9)]


def gen(rng, k):
    order = [1, 2, 3, 4, 6, 5, 4][k % 7]
    nmax = 1 + k % 2
    pieces = int(rng.integers(1, 5))
    br, c = model(rng, nmax, order, pieces)
    sh = [(), (3,), (2, 2), (1,)][k % 4]
    t = np.array(rng.uniform(br[0] - 900, br[-1] + 900, sh))
    f = t.reshape(-1)
    f[0] = [br[0] - 500., br[-1] + 700.25, br[0] - 1e-3, br[-1] + 1e-3][
        (k//4) % 4]
    if f.size > 1:
        f[1] = [br[0], br[-1]][k % 2]
    return {'breaks': br, 'coeffs': c, 't': t,
            'method': METH[k % len(METH)][0], 'terms': METH[k % len(METH)][1],
            'deriv': [None, 0, 1, 2, 3][(k//3) % 5]}


def value(case, t):
    br, c = arr(case['breaks']), arr(case['coeffs'])
    order = c.shape[0]
    nu = case['deriv'] or 0
    key = min(case['terms'], order)
    if br[0] <= t <= br[-1]:
        j = min(np.searchsorted(br, t, side='right') - 1, c.shape[1] - 1)
        return poly(c[:, j], t - br[j], nu)*365.25**nu
    if key == 0:
        return np.full(c.shape[2], np.nan)
    o, j, x = (br[0], 0, 0.) if t < br[0] else (br[-1], -1, br[-1] - br[-2])
    v = np.zeros(c.shape[2])
    for k in range(nu, key):
        v = v + poly(c[:, j], x, k)/factorial(k-nu)*(t - o)**(k-nu)
    return v*365.25**nu


@oracle('extrapolation against Taylor polynomials', gen, n=150)
def extra(case):
    t = arr(case['t'])
    W = np.empty(t.shape + (arr(case['coeffs']).shape[2],))
    for i in np.ndindex(*t.shape):
        W[i] = value(case, t[i])
    m = chaos.BaseModel('m', breaks=arr(case['breaks']),
                        coeffs=arr(case['coeffs']))
    kw = {} if case['deriv'] is None else {'deriv': case['deriv']}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        g = m.synth_coeffs(t, extrapolate=case['method'], **kw)
    br = arr(case['breaks'])
    if bool(w) != bool(((t < br[0]) | (t > br[-1])).any()):
        return f'{len(w)} warnings'
    if (np.isnan(W) != np.isnan(g)).any():
        return 'pattern of undefined values'
    return close(g, W, 1e-8, 1e-9*(1 + np.nanmax(np.abs(W), initial=0)),
                 f'method {case["method"]}')


@oracle('unknown methods', lambda rng, k: {'m': ['quartic', 'Linear', '',
                                                 'none'][k % 4]}, n=4)
def unknown(case):
    m = chaos.BaseModel('m', breaks=[0., 1.], coeffs=np.ones((2, 1, 3)))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if not raises(lambda: m.synth_coeffs(2., extrapolate=case['m'])):
            return 'accepted'
    return None


@oracle('field values are extrapolated alike', gen, n=40)
def values(case):
    t = arr(case['t'])
    m = chaos.BaseModel('m', breaks=arr(case['breaks']),
                        coeffs=arr(case['coeffs']))
    kw = {} if case['deriv'] is None else {'deriv': case['deriv']}
    from chaosmagpy import model_utils as mu
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        B = m.synth_values(t, 6400., 50., 20., extrapolate=case['method'],
                           **kw)
        W = np.empty(t.shape + (arr(case['coeffs']).shape[2],))
        for i in np.ndindex(*t.shape):
            W[i] = value(case, t[i])
        V = mu.synth_values(W, 6400., 50., 20.)
    for k in range(3):
        e = close(B[k], V[k], 1e-8, 1e-9*(1 + np.nanmax(np.abs(W),
                                                       initial=0)),
                  f'component {k}')
        if e:
            return e
    return None
