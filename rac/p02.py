import numpy as np
import math
from common import oracle, close, arr, size
from ref import schmidt as _schmidt
from chaosmagpy import model_utils as mu


def schmidt(n, th):
    return _schmidt(n, th)[:2]



def gen(rng, k):
    sizes = [1, 2, 3, 4, 5, 8, 13, 20, 40, 65, 90, 7, 6, 10, 133, 180]
    nmax = size(rng, k, sizes, 260)
    sh = [(), (3,), (2, 3), (1,), (2, 1), (0,)][k % 6]
    th = rng.uniform(0, 180, sh)
    th = np.asarray(th)
    if th.size:
        f = th.reshape(-1)
        for i in range(f.size):
            r = rng.integers(0, 9)
            if r == 0:
                f[i] = 0.
            elif r == 1:
                f[i] = 180.
            elif r == 2:
                f[i] = 10.**-rng.integers(1, 12)
            elif r == 3:
                f[i] = 180. - 10.**-rng.integers(1, 12)
            elif r == 4:
                f[i] = 90.
            elif r == 5:
                f[i] = float(rng.integers(0, 181))
        th = f.reshape(sh)
    return {'nmax': nmax, 'theta': th.tolist(), 'int': bool(k % 7 == 5)}


@oracle('legendre_poly', gen, n=96, weight=3)
def table(case):
    n = case['nmax']
    th = arr(case['theta'])
    if case['int']:
        th = np.asarray(np.round(th), dtype=int)
    T = mu.legendre_poly(n, th if th.shape else th[()])
    if T.shape != (n + 1, n + 2) + th.shape:
        return f'shape {T.shape}'
    P, D = schmidt(n, np.asarray(th, dtype=float))
    for a in range(n + 1):
        for m in range(a + 1):
            sc = 1e-9
            e = close(T[a, m], P[a, m], 2e-9, 1e-13, f'P({a},{m})')
            if e:
                return e
            if a:
                e = close(T[m, a + 1], D[a, m], 2e-9, a*1e-12,
                          f'dP({a},{m})')
                if e:
                    return e
    return None


def gen2(rng, k):
    return {'n1': int(rng.integers(1, 30)), 'n2': int(rng.integers(30, 60)),
            'theta': [float(x) for x in rng.uniform(0, 180, 4)]}


@oracle('independence of nmax and batch', gen2, n=12)
def indep(case):
    th = arr(case['theta'])
    A = mu.legendre_poly(case['n1'], th)
    B = mu.legendre_poly(case['n2'], th)
    n = case['n1']
    for a in range(n + 1):
        e = close(A[a, :a + 1], B[a, :a + 1], 1e-12, 1e-15, f'row {a}') or (
            a and close(A[:a + 1, a + 1], B[:a + 1, a + 1], 1e-12, 1e-15,
                        f'derivative {a}'))
        if e:
            return e
    for i in range(4):
        e = close(mu.legendre_poly(n, th[i]), A[..., i], 1e-12, 1e-15,
                  'single point')
        if e:
            return e
