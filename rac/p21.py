"""P21 oracles: the induction equation, integrated numerically."""
import contextlib
import io
import os
import tempfile
import numpy as np
from scipy.integrate import solve_ivp
from common import oracle, close
import chaosmagpy as cp
from chaosmagpy import coordinate_utils as cu

MU = 4e-7*np.pi


def run(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), \
            np.errstate(all='ignore'):
        return f(*a, **k)


def reference(period, sigma, radius, n, kind):
    """G/(r G') at the surface from the Riccati equation in x = ln r:
    w' = 1 - w - (n (n + 1) + s mu sigma r^2) w^2."""
    s = 2j*np.pi/period
    r = 1e3*np.asarray(radius, dtype=float)
    if kind == 'constant':
        w, last = 0j, len(r) - 2        # perfect conductor
    else:
        b = np.sqrt((n + 0.5)**2 + s*MU*sigma[-1]*r[-1]**2)
        w, last = 1/(0.5 + b), len(r) - 2
    for k in range(last, -1, -1):
        if kind == 'constant':
            A = lambda x: n*(n + 1) + s*MU*sigma[k]*np.exp(2*x)
        else:
            A = lambda x: n*(n + 1) + s*MU*sigma[k]*r[k]**2
        sol = solve_ivp(lambda x, w: 1 - w - A(x)*w**2,
                        (np.log(r[k + 1]), np.log(r[k])),
                        np.array([w], dtype=complex), rtol=1e-9, atol=1e-12)
        w = sol.y[0, -1]
    C = radius[0]*w
    return C, n/(n + 1)*(1 - (n + 1)*w)/(1 + n*w)


def model(rng, k):
    N = int(rng.integers(1, 6))
    kind = [None, 'quadratic', 'constant'][k % 3]
    if kind == 'constant':
        N = max(N, 2)
    radius = list(np.round(np.sort(rng.uniform(2500, 6371, N))[::-1]
                           - 10.*np.arange(N), 3))
    sigma = list(np.round(10**rng.uniform(-4, 0.5, N), 9))
    if kind != 'constant' and N > 1 and rng.random() < 0.25:
        # large powers of the ratio
        radius[-1], sigma[-2] = float(rng.uniform(1, 50)), 0.5
    return {'kind': kind, 'n': int(rng.integers(1, 9)),
            'sigma': sigma, 'radius': radius,
            'periods': list(np.round(10**rng.uniform(
                3.5, 9, int(rng.integers(1, 4))), 3))}


@oracle('equation', model, n=60, weight=2)
def equation(c):
    k = {} if c['kind'] is None else {'kind': c['kind']}
    sig, rad, T = (np.array(c[x]) for x in ('sigma', 'radius', 'periods'))
    C, rho, phi, Q = run(cu.q_response_1D, T, sig, rad, c['n'], **k)
    ref = np.array([reference(t, sig, rad, c['n'], c['kind'] or 'quadratic')
                    for t in T])
    m = close(C, ref[:, 0], 2e-6, 2e-6*rad[0], 'C-response') or \
        close(Q, ref[:, 1], 2e-6, 2e-6, 'Q-response') or \
        close(phi, 90 + 57.3*np.angle(C), 1e-9, 1e-9, 'phase')
    if m:
        return m
    one = run(cu.q_response_1D, T[0], sig, rad, c['n'], **k)
    m = close(np.ravel(one[3]), Q[:1], 1e-12, 0, 'a single period') or \
        close(np.ravel(one[0]), C[:1], 1e-12, 0, 'a single period')
    if m:
        return m
    if not np.array_equal(rad, np.array(c['radius'])) or \
            not np.array_equal(sig, np.array(c['sigma'])):
        return 'model changed'


@oracle('insulator', model, n=20)
def insulator(c):
    if c['kind'] == 'constant':
        return
    rad, T = np.array(c['radius']), np.array(c['periods'])
    C, _, _, Q = run(cu.q_response_1D, T, 0.*rad, rad, c['n'])
    return close(Q, np.zeros(T.shape, dtype=complex), 0, 1e-9,
                 'response of an insulator') or close(
        C, np.full(T.shape, rad[0]/(c['n'] + 1) + 0j), 1e-9, 0)


@oracle('perfect conductor', model, n=30)
def conductor(c):
    k = {} if c['kind'] is None else {'kind': c['kind']}
    n = c['n']
    sig, rad, T = (np.array(c[x]) for x in ('sigma', 'radius', 'periods'))
    rad[0] += 400.
    for s in (1e6, 1e12, 1e20):
        sig[0] = s
        if c['kind'] == 'constant' and len(sig) < 2:
            return
        Q = run(cu.q_response_1D, T, sig, rad, n, **k)[3]
        u = np.sqrt(2*np.pi/T*MU*s)*rad[0]*1e3
        bad = ~(np.abs(n/(n + 1) - Q) <= 3*n*(2*n + 1)/(n + 1)/u + 1e-9)
        if bad.any():
            return f'{Q} instead of {n/(n + 1)} for sigma = {s}'


def split(rng, k):
    return {**model(rng, k), 'layer': int(rng.integers(5)),
            'at': float(rng.uniform(0.1, 0.9))}


@oracle('subdivision', split, n=40)
def subdivision(c):
    kind = c['kind'] or 'quadratic'
    sig, rad, T = (np.array(c[x]) for x in ('sigma', 'radius', 'periods'))
    const = kind == 'constant'
    k = c['layer'] % (len(rad) - const)
    below = rad[k + 1] if k + 1 < len(rad) else 0.5*rad[k]
    x = rad[k] + c['at']*(below - rad[k])
    r2 = np.insert(rad, k + 1, x)
    s2 = np.insert(sig, k + 1, sig[k] if const else sig[k]*(rad[k]/x)**2)
    a = run(cu.q_response_1D, T, sig, rad, c['n'], kind=kind)
    b = run(cu.q_response_1D, T, s2, r2, c['n'], kind=kind)
    return close(b[3], a[3], 1e-6, 1e-7, f'layer {k} divided: Q-response') \
        or close(b[0], a[0], 1e-6, 1e-4, f'layer {k} divided: C-response')


@oracle('configured model', lambda rng, k: {
    'depth': [0.] + list(np.round(np.sort(rng.uniform(50, 3000, k % 4)), 2)),
    'sigma': list(np.round(10**rng.uniform(-4, 0, k % 4 + 1), 9)),
    'nmax': int(rng.integers(1, 5)),
    'freq': list(np.round(rng.choice([-1e-5, 0., 1e-6, 2e-6, 1e-5, 3e-8],
                                     int(rng.integers(1, 6))), 9))}, n=24)
def configured(c):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'earth.txt')
        np.savetxt(p, np.c_[c['depth'], c['sigma']])
        f = np.array(c['freq'])
        with cp.basicConfig.context('file.Earth_conductivity', p):
            Q = run(cu.q_response, f, c['nmax'])
    want = np.zeros((c['nmax'], f.size), dtype=complex)
    for n in range(1, c['nmax'] + 1):
        for i in np.flatnonzero(f > 0):
            want[n - 1, i] = reference(
                1/f[i], c['sigma'], 6371.2 - np.array(c['depth']), n,
                'quadratic')[1]
    return close(Q, want, 2e-6, 2e-6, 'q_response')


@oracle('constant-zero-conductivity', lambda rng, k: {
    'n': int(rng.integers(1, 6)), 'T': 10**rng.uniform(4, 8),
    'a': float(rng.uniform(5000, 6371)), 'c': float(rng.uniform(2000, 4000))},
    n=5)
def zero(c):
    """Insulating mantle around the perfectly conducting core."""
    n = c['n']
    Q = run(cu.q_response_1D, np.array([c['T']]), np.array([0., 1.]),
            np.array([c['a'], c['c']]), n, kind='constant')[3]
    return close(Q, np.array([n/(n + 1)*(c['c']/c['a'])**(2*n + 1) + 0j]),
                 1e-8, 1e-12, 'constant zero conductivity')
