import warnings
import numpy as np
from math import factorial
from common import oracle, close, arr, size, raises
import ref
from chaosmagpy import chaos, model_utils as mu


def poly(c, x, nu):
    """nu-th derivative of the polynomial c (highest power first) at x."""
    k = c.shape[0]
    v = np.zeros(c.shape[1:])
    for j in range(k):
        p = k - 1 - j
        if p >= nu:
            v = v + c[j]*(factorial(p)/factorial(p - nu))*x**(p - nu)
    return v


def model(rng, nmax, order, pieces):
    br = np.sort(rng.choice(np.arange(-40, 40), pieces + 1, replace=False)
                 )*90. + rng.uniform(-1, 1)
    c = rng.normal(size=(order, pieces, nmax*(nmax + 2)))
    for j in range(order):
        c[order - 1 - j] /= 400.**j
    return br, c


def gen(rng, k):
    order = [1, 2, 3, 4, 6, 5][k % 6]
    nmax = [1, 2, 3, 4][k % 4]
    pieces = int(rng.integers(1, 6))
    br, c = model(rng, nmax, order, pieces)
    sh = [(), (3,), (1, 4), (2, 2), (1,)][k % 5]
    t = rng.uniform(br[0], br[-1], sh)
    if k % 3 == 1:
        t = np.array(t)
        t.reshape(-1)[0] = br[-1] if k % 2 else br[0]
    if k % 7 == 3:
        t = np.array(t)
        t.reshape(-1)[-1] = br[-1]
    return {'breaks': br, 'coeffs': c, 't': t, 'nmax': nmax,
            'deriv': [None, 0, 1, 2, 3, order][k % 6],
            'lim': [None, 1, nmax, nmax + 1, max(1, nmax - 1)][k % 5],
            'source': ['internal', 'external'][k % 2]}


def expected(case):
    br, c = arr(case['breaks']), arr(case['coeffs'])
    t = arr(case['t'])
    nu = case['deriv'] or 0
    out = np.empty(t.shape + c.shape[2:])
    for i in np.ndindex(*t.shape):
        j = min(np.searchsorted(br, t[i], side='right') - 1, c.shape[1] - 1)
        out[i] = poly(c[:, j], t[i] - br[j], nu)*365.25**nu
    return out


@oracle('synth_coeffs inside the period', gen, n=80)
def coeffs(case):
    m = chaos.BaseModel('m', breaks=arr(case['breaks']),
                        coeffs=arr(case['coeffs']), source=case['source'])
    W = expected(case)
    kw = {} if case['deriv'] is None else {'deriv': case['deriv']}
    n = case['nmax'] if case['lim'] is None else min(case['lim'],
                                                     case['nmax'])
    t = case['t'] if np.ndim(case['t']) == 0 else arr(case['t'])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        g = m.synth_coeffs(t, nmax=case['lim'], **kw)
    if bool(w) != bool(case['lim'] and case['lim'] > case['nmax']):
        return f'{len(w)} warnings for limit {case["lim"]}'
    e = close(g, W[..., :n*(n + 2)], 1e-9, 1e-9*np.abs(W).max(),
              'coefficients')
    if e:
        return e
    for i in np.ndindex(*arr(case['t']).shape):
        e = close(m.synth_coeffs(arr(case['t'])[i], nmax=case['lim'], **kw),
                  g[i], 1e-12, 0, f'value of time {i} alone')
        if e:
            return e
    if case['deriv'] is None:
        return None
    b = chaos.Base('b', breaks=arr(case['breaks']),
                   coeffs=arr(case['coeffs']))
    return close(b.synth_coeffs(t, dim=2, **kw), W[..., :2], 1e-9,
                 1e-9*np.abs(W).max(), 'Base.synth_coeffs')


@oracle('synth_values of the coefficients', gen, n=50)
def values(case):
    m = chaos.BaseModel('m', breaks=arr(case['breaks']),
                        coeffs=arr(case['coeffs']), source=case['source'])
    W = expected(case)
    n = case['nmax'] if case['lim'] is None else min(case['lim'],
                                                     case['nmax'])
    t = arr(case['t'])
    rng = np.random.default_rng(3)
    r, th, ph = (rng.uniform(3000, 9000, t.shape),
                 rng.uniform(1, 179, t.shape), rng.uniform(-180, 360, t.shape))
    kw = {} if case['deriv'] is None else {'deriv': case['deriv']}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        B = m.synth_values(t, r, th, ph, nmax=case['lim'], **kw)
        br = arr(case['breaks'])
        C = mu.synth_from_pp(br, len(case['coeffs']), arr(case['coeffs']), t,
                             r, th, ph, nmax=case['lim'],
                             source=case['source'], **kw)
    for i in np.ndindex(*t.shape):
        A = ref.basis(r[i], th[i], ph[i], 1, n, n, case['source'], 6371.2)
        v = A @ W[i][:n*(n + 2)]
        for k in range(3):
            e = close(B[k][i], v[k], 1e-8, 1e-9*(1 + np.abs(W).max()),
                      f'component {k} at {i}')
            if e:
                return e
            if t[i] < br[-1]:
                e = close(C[k][i], v[k], 1e-8, 1e-9*(1 + np.abs(W).max()),
                          f'synth_from_pp component {k} at {i}')
                if e:
                    return e
    return None


def gen_b(rng, k):
    order = [1, 2, 3, 4, 5, 6][k % 6]
    m = int(rng.integers(2, 7))
    br = np.sort(rng.uniform(-3000, 3000, m))
    dim = [3, 8, 1][k % 3]
    return {'order': order, 'breaks': br,
            'c': rng.normal(size=(m + order - 2, dim))}


@oracle('augmented knots and conversion from B-splines', gen_b, n=50)
def conv(case):
    br, order, c = arr(case['breaks']), case['order'], arr(case['c'])
    kn = mu.augment_breaks(br if order % 2 else list(br), order)
    e = close(kn, [br[0]]*(order - 1) + list(br) + [br[-1]]*(order - 1), 0,
              0, 'knots')
    if e:
        return e
    P, x = mu.pp_from_bspline(c, kn, order)
    e = close(x, br, 0, 0, 'break points')
    if e:
        return e
    if P.shape != (order, br.size - 1, c.shape[1]):
        return f'shape {P.shape}'
    m = chaos.Base('m', breaks=x, order=order, coeffs=P)
    for f in (0., 0.13, 0.5, 0.99):
        for j in range(br.size - 1):
            t = br[j] + f*(br[j + 1] - br[j])
            w = np.asarray(ref.bspline_basis(t, kn, order), dtype=float) @ c
            e = close(m.synth_coeffs(t), w, 1e-8, 1e-9*np.abs(c).max(),
                      f'value at {t}')
            if e:
                return e
    if c.shape[1] == 3:
        m = chaos.BaseModel.from_bspline('m', kn, c, order,
                                         source='external')
        if m.source != 'external' or m.order != order:
            return 'metadata of from_bspline'
        return close(m.coeffs, P, 0, 0, 'from_bspline')
    return None


def gen_e(rng, k):
    n = 1 + k % 3
    return {'breaks': [np.sort(rng.uniform(-3000, 3000, 2 + j)) for j in
                       range(n)],
            'coeffs': [rng.normal(size=(1, 1 + j, 3))
                       for j in range(n)],
            'ex': [None, 'linear', 'spline', 'constant', 'off'][(k//3) % 5],
            'pre': k % 2, 'who': int(rng.integers(n)),
            'kw': [{}, {'dim': 2}, {'deriv': 1}, {'deriv': 0},
                   {'extrapolate': 'constant'}][k % 5],
            'u': rng.uniform(0, 1, [(), (3,), (2, 2)][k % 3])}


@oracle('Euler angles of a satellite', gen_e, n=30)
def euler(case):
    names = [f's{j}' for j in range(len(case['breaks']))]
    B = {s: arr(b) for s, b in zip(names, case['breaks'])}
    C = {s: arr(c) for s, c in zip(names, case['coeffs'])}
    pre = np.ones((len(names), 3)) if case['pre'] else None
    m = chaos.CHAOS(breaks=np.array([0., 1.]), order=1,
                    coeffs_tdep=np.ones((1, 1, 3)), breaks_euler=B,
                    coeffs_euler=C, meta={'params': {
                        'Euler_prerotation': pre}, 'satellites': names})
    if not raises(lambda: m.synth_euler_angles(0., 'x'), ValueError):
        return 'unknown satellite accepted'
    s = names[case['who']]
    t = B[s][0] + arr(case['u'])*(B[s][-1] - B[s][0])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g = m.synth_euler_angles(t, s, **case['kw'])
        # outside of the period of the model: as the model of the satellite
        far = B[s][[0, -1]] + 0.3*(B[s][-1] - B[s][0])*np.array([-1, 1])
        kw = dict(case['kw'], extrapolate=case['ex'])
        e = close(m.synth_euler_angles(far, s, **kw),
                  m.model_euler[s].synth_coeffs(far, **{'dim': 3, **kw}),
                  1e-9, 1e-9, f'angles outside of the period, {kw}')
        if e:
            return e
    w = np.empty(t.shape + (3,))
    for i in np.ndindex(*t.shape):
        j = min(np.searchsorted(B[s], t[i], side='right') - 1,
                B[s].size - 2)
        w[i] = poly(C[s][:, j], t[i] - B[s][j], case['kw'].get('deriv', 0))
    return close(g, w[..., :case['kw'].get('dim', 3)], 1e-9, 1e-9, 'angles')


def gen_grid(rng, k):
    order, pieces = 1 + k % 4, 1 + k % 3
    br, c = model(rng, 2, order, pieces)
    return {'breaks': br, 'coeffs': c, 't': rng.uniform(br[0], br[-1]),
            'th': rng.uniform(5, 175, 3), 'ph': rng.uniform(-180, 360, 4)}


@oracle('regular grids from the piecewise polynomial', gen_grid, n=12)
def grid(case):
    br, c = arr(case['breaks']), arr(case['coeffs'])
    T, P = np.meshgrid(arr(case['th']), arr(case['ph']), indexing='ij')
    a = (br, len(c), c, case['t'], 6400.)
    G = mu.synth_from_pp(*a, arr(case['th']),
                         arr(case['ph']), grid=True)
    for g, w in zip(G, mu.synth_from_pp(*a, T, P)):
        e = close(g, w, 1e-8, 1e-9*(1 + np.abs(w).max()), 'grid')
        if e:
            return e
    return None


def gen_r(rng, k):
    return {'k': k}


@oracle('constructors and rejected models', gen_r, n=1)
def cons(case):
    if not raises(lambda: chaos.Base('m').synth_coeffs(0.)):
        return 'missing coefficients accepted'
    if not raises(lambda: mu.augment_breaks(np.ones((1, 3)), 2)):
        return 'matrix of break points accepted'
    c = np.arange(18.).reshape(3, 2, 3)
    m = chaos.BaseModel('m', breaks=[0., 1., 2.], order=2, coeffs=c)
    e = close(m.coeffs, c[1:], 0, 0, 'lowest powers')
    if e or m.order != 2 or m.nmax != 1 or m.pieces != 2:
        return e or 'attributes'
    m = chaos.BaseModel('m', breaks=[1.], order=1, coeffs=c[:1, :1])
    return close(m.synth_coeffs(1.), c[0, 0], 0, 0, 'single break')
