import os
import tempfile
import numpy as np
from common import oracle, close, arr, raises
from chaosmagpy import coordinate_utils as cu
from chaosmagpy.config_utils import basicConfig
from ref import schmidt


def harmonics(nmax, theta, phi):
    """Surface harmonics, one column per coefficient."""
    P = schmidt(nmax, theta)[0].astype(float)
    out = []
    for n in range(1, nmax + 1):
        out.append(P[n, 0])
        for m in range(1, n + 1):
            a = m*np.radians(phi)
            out += [P[n, m]*np.cos(a), P[n, m]*np.sin(a)]
    return np.stack(out, axis=-1)


def gen_a(rng, k):
    n = int(rng.integers(1, 9))
    kmax = [None, 'more', 'less', n][k % 4]
    top = n
    if kmax == 'more':
        top = kmax = n + int(rng.integers(1, 6))
    if kmax == 'less':
        kmax = int(rng.integers(0, n))
        top = max(kmax, 1)
    return {'n': n, 'kmax': kmax, 'top': top,
            'c': rng.normal(size=top*(top + 2)).tolist()}


@oracle('analysis', gen_a, n=24)
def analysis(case):
    c, n = arr(case['c']), case['n']
    kw = {} if case['kmax'] is None else {'kmax': case['kmax']}
    got = cu.sh_analysis(lambda t, p: harmonics(case['top'], t, p) @ c, n,
                         **kw)
    want = np.zeros(n*(n + 2))
    m = min(want.size, c.size)
    want[:m] = c[:m]
    return close(got, want, 1e-8, 1e-10, 'coefficients')


def triad(rng, kind):
    if kind == 'geo':
        return np.eye(3)
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q*np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 2] *= -1
    return q.T


def gen_r(rng, k):
    sh = [(), (3,), (2, 2), (1,)][k % 4]
    T = [triad(rng, 'geo' if k % 3 == 0 and i == 0 else 'any').tolist()
         for i in range(int(np.prod(sh)))]
    return {'sh': list(sh), 'T': T, 'n': int(rng.integers(1, 5)),
            'k': int(rng.integers(1, 5)), 'seed': int(rng.integers(1e6))}


@oracle('rotation', gen_r, n=24)
def rotation(case):
    T = arr(case['T'])
    sh = tuple(case['sh'])
    n, k = case['n'], case['k']
    b = T.reshape(sh + (3, 3))
    A = cu.rotate_gauss(n, k, b[..., 0, :], b[..., 1, :], b[..., 2, :])
    if A.shape != sh + (n*(n + 2), k*(k + 2)):
        return f'shape {A.shape}'
    deg = lambda q: np.repeat(np.arange(1, q + 1), 2*np.arange(1, q + 1) + 1)
    block = deg(n)[:, None] == deg(k)[None, :]
    rng = np.random.default_rng(case['seed'])
    theta, phi = rng.uniform(1, 179, 20), rng.uniform(-180, 360, 20)
    t, p = np.radians(theta), np.radians(phi)
    x = np.stack([np.sin(t)*np.cos(p), np.sin(t)*np.sin(p), np.cos(t)], -1)
    m = min(n, k)
    Y = harmonics(m, theta, phi)
    c = rng.normal(size=m*(m + 2))
    for B, Q in zip(A.reshape((-1,) + A.shape[-2:]), T):
        e = close(B[~block], 0*B[~block], 0, 1e-10, 'between degrees')
        if e:
            return e
        S = B[:c.size, :c.size]
        e = close(S @ S.T, np.eye(c.size), 0, 1e-9, 'orthogonality')
        if e:
            return e
        if (Q == np.eye(3)).all():
            e = close(S, np.eye(c.size), 0, 1e-9, 'identity')
            if e:
                return e
        y = x @ Q.T
        tr = np.degrees(np.arccos(np.clip(y[:, 2], -1, 1)))
        pr = np.degrees(np.arctan2(y[:, 1], y[:, 0]))
        e = close(Y @ (S @ c), harmonics(m, tr, pr) @ c, 1e-8, 1e-8,
                  'potential')
        if e:
            return e
    return None


def gen_f(rng, k):
    N = int(rng.integers(3, 12))
    return {'N': N, 'step': [None, 1., 2.5, 6.][k % 4],
            'start': [None, 100.25][k % 2], 'n': 1 + k % 2, 'k': 1 + k//2 % 2,
            'ref': [None, 'GSM', 'sm', 'SM', 'gsm'][k % 5],
            'scaled': [None, False, True][k % 3],
            'filter': [None, int(rng.integers(1, N//2 + 2))][k//3 % 2],
            'q': [True, False][k//4 % 2], 'save': k % 2}


def fourier(case):
    kw = {k: case[s] for k, s in (
        ('N', 'N'), ('step', 'step'), ('start_date', 'start'),
        ('reference', 'ref'), ('scaled', 'scaled'), ('filter', 'filter'))
        if case[s] is not None}
    n, k = case['n'], case['k']
    step = case['step'] or 1.
    N = case['N']
    since = np.arange(N)*step/24
    time = since + (case['start'] or 0.)
    f = np.arange(N//2 + 1)/(N*step*3600)
    if case['q']:
        kw['qfunc'] = lambda fr, row: (1 + row) + 1j*fr*1e4
        resp = np.stack([kw['qfunc'](f, r) for r in range(n*(n + 2))])
    else:
        d = np.repeat(np.arange(n), 2*np.arange(1, n + 1) + 1)
        resp = cu.q_response(f, n)[d]
    base = (cu.basevectors_sm if (case['ref'] or '').lower() == 'sm'
            else cu.basevectors_gsm)(time)
    G = cu.rotate_gauss(n, k, *base)
    X = np.fft.fft(G, axis=0)[:N//2 + 1]/N
    with tempfile.TemporaryDirectory() as tmp:
        if case['save']:
            kw['save_to'] = os.path.join(tmp, 'out.npz')
        out = cu.rotate_gauss_fft(n, k, **kw)
        saved = dict(np.load(kw['save_to'])) if case['save'] else None
    return out, since, G, X, resp, f, saved


@oracle('Fourier series', gen_f, n=24)
def series(case):
    out, since, G, X, resp, f, saved = fourier(case)
    N = case['N']
    keep = case['filter'] or N//2 + 1
    mul = 1 + (f[:, None, None] > 0)*bool(case['scaled'])
    step = case['step'] or 1.
    for q, Z in ((0, X), (1, X*resp.T[:, :, None])):
        fr, sp = out[2*q], out[2*q + 1]
        if fr.shape != (keep,) + X.shape[1:] or sp.shape != fr.shape:
            return f'shape {fr.shape}'
        i = np.rint(fr/24*N*step).astype(int)
        e = close(fr, 24*3600*f[i], 1e-12, 0, 'frequency')
        if e:
            return e
        W = np.take_along_axis(Z*mul, i, axis=0)
        e = close(sp, W, 1e-9, 1e-12, 'spectrum')
        if e:
            return e
        top = -np.sort(-np.abs(Z), axis=0)[:keep]
        e = close(np.abs(np.take_along_axis(Z, i, axis=0)), top, 1e-9, 1e-12,
                  'largest coefficients')
        if e:
            return e
        if keep == N//2 + 1 and (np.sort(i, axis=0)
                                 != np.arange(keep)[:, None, None]).any():
            return 'a frequency is missing'
    if case['filter'] is None:
        kw = {} if case['scaled'] is None else {'scaled': case['scaled']}
        g = cu.synth_rotate_gauss(since, out[0], out[1], **kw)
        e = close(g, G, 1e-8, 1e-9, 'reproduced matrices')
        if e and N % 2 == 0:
            ny = (-1.)**np.arange(N)[:, None, None]*X[-1].real
            e = close(g, G + ny, 1e-8, 1e-9, 'reproduced matrices')
        if e:
            return e
    if saved is not None:
        for key, v in zip(('frequency', 'spectrum', 'frequency_ind',
                           'spectrum_ind'), out):
            e = close(saved[key], v, 0, 0, f'saved {key}')
            if e:
                return e
        for key, v in (('step', step), ('N', N), ('filter', keep),
                       ('scaled', bool(case['scaled'])),
                       ('start_date', case['start'] or 0.),
                       ('dipole', basicConfig['params.dipole'])):
            e = close(saved[key], v, 0, 0, f'saved {key}')
            if e:
                return e
        if str(saved['reference']).lower() != (case['ref'] or 'gsm').lower():
            return 'saved reference'
    if not raises(lambda: cu.rotate_gauss_fft(1, 1, N=3, reference='mag',
                                              qfunc=lambda f, k: 1.),
                  ValueError):
        return 'unknown reference accepted'
    return None


@oracle('nyquist', lambda rng, k: {
    'N': 4 + 2*k, 'step': 6., 'start': None, 'n': 1, 'k': 1, 'ref': 'gsm',
    'scaled': bool(k % 2), 'filter': None, 'q': True, 'save': 0},
    n=2, weight=.1)
def nyquist(case):
    out, since, G, X, resp, f, saved = fourier(case)
    g = cu.synth_rotate_gauss(since, out[0], out[1], scaled=case['scaled'])
    return close(g, G, 1e-8, 1e-9, 'reproduced matrices')
