import numpy as np
from common import oracle, close, arr, size, raises
import ref
import chaosmagpy as cp
from chaosmagpy import model_utils as mu
from chaosmagpy.config_utils import basicConfig

SHAPES = [((), (), ()), ((2,), (2,), (2,)), ((), (3,), (3,)),
          ((), (3, 1), (2,)), ((2, 1, 1), (3, 1), (2,)), ((3,), (), ()),
          ((1,), (1,), (1,)), ((), (2,), ()), ((2, 2), (2, 2), (2, 2)),
          ((), (), (4,)), ((2, 1), (2, 2), (2,))]


def gen(rng, k):
    nmax = size(rng, k//2, [1, 2, 3, 1, 4, 2, 6, 9, 13, 20, 3, 5], 130)
    big = nmax > 25
    rs, ts, ps = SHAPES[k % len(SHAPES)] if not big else ((), (2,), (2,))
    nmin = 1 if k % 3 == 0 else int(rng.integers(1, nmax + 1))
    mmax = None if k % 4 < 2 else int(rng.integers(0, nmax + 2))
    if k % 8 == 7:
        mmax = int(rng.integers(0, 2))
    r = rng.uniform(3000, 9000, rs)
    if k % 5 == 4:
        r = np.full(rs, 6371.2)
    given = [True, False][(k//3) % 2]     # nmax passed or inferred
    if not given and mmax is not None:
        mmax = min(mmax, nmax)
    K = len(ref.order(nmin, nmax, mmax))
    cs = ()
    if k % 6 == 5 and not big:
        cs = np.broadcast_shapes(rs, ts, ps)
        if k % 12 == 11 and cs:
            cs = (2,) + cs
    extra = int(rng.integers(0, 4)) if given else 0
    return {'nmin': nmin, 'nmax': nmax, 'mmax': mmax, 'given': given,
            'source': ['internal', 'external', None][k % 3 if k % 7 else 1],
            'r': r, 'th': ref.angles(rng, ts),
            'ph': rng.uniform(-400, 400, ps),
            'c': rng.normal(size=cs + (K + extra,))*100,
            'rref': [6371.2, 6371.2, 3485., 6400.][k % 4],
            'list': k % 9 == 8, 'grid': False,
            'omit': nmin == 1 and k % 2 == 0}


def call(case, r, th, ph, **kw):
    k = dict(kw)
    if case['given']:
        k['nmax'] = case['nmax']
    if case['mmax'] is not None:
        k['mmax'] = case['mmax']
    if not case['omit']:
        k['nmin'] = case['nmin']
    if case['source']:
        k['source'] = case['source']
    c = arr(case['c'])
    if case.get('list') and c.ndim == 1:
        c = c.tolist()
    with basicConfig.context('params.r_surf', case['rref']):
        return mu.synth_values(c, r, th, ph, **k)


def want(case, r, th, ph):
    c = arr(case['c'])
    sh = np.broadcast_shapes(r.shape, th.shape, ph.shape, c.shape[:-1])
    out = np.zeros((3,) + sh)
    R, T, P = [np.broadcast_to(x, sh) for x in (r, th, ph)]
    C = np.broadcast_to(c, sh + c.shape[-1:])
    mmax = case['nmax'] if case['mmax'] is None else case['mmax']
    for i in np.ndindex(*sh):
        out[(slice(None),) + i] = ref.field(
            C[i], R[i], T[i], P[i], case['nmin'], case['nmax'], mmax,
            case['source'] or 'internal', case['rref'])
    return out


@oracle('synth_values against independent synthesis', gen, n=140, weight=4)
def synth(case):
    r, th, ph = arr(case['r']), arr(case['th']), arr(case['ph'])
    B = call(case, r, th, ph)
    W = want(case, r, th, ph)
    for n, b, w in zip(('B_radius', 'B_theta', 'B_phi'), B, W):
        e = close(b, w, 1e-7, 1e-9*np.max(np.abs(W), initial=1e-3), n)
        if e:
            return e
    # single points
    sh = W.shape[1:]
    if sh and len(sh) < 3:
        R, T, P = [np.broadcast_to(x, sh) for x in (r, th, ph)]
        C = np.broadcast_to(arr(case['c']), sh + arr(case['c']).shape[-1:])
        for i in list(np.ndindex(*sh))[:2]:
            one = dict(case, c=C[i])
            b1 = call(one, float(R[i]), float(T[i]), float(P[i]))
            for n, b, w in zip(('B_radius', 'B_theta', 'B_phi'), b1, W):
                e = close(b, w[i], 1e-7, 1e-9*np.max(np.abs(W)),
                          n + ' of a single point')
                if e:
                    return e


def gengrid(rng, k):
    c = gen(rng, 2*k)
    nt, npz = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    c['th'] = ref.angles(rng, (nt,))
    c['ph'] = rng.uniform(-200, 400, (npz,))
    if k % 4 == 3:
        c['th'] = ref.angles(rng, (2, nt))
        c['ph'] = rng.uniform(-200, 400, (2, npz))
        c['r'] = rng.uniform(5000, 7000, (2, nt, npz) if k % 8 == 7 else ())
    else:
        c['r'] = rng.uniform(5000, 7000,
                             [(), (nt, npz), (1, npz), (nt, 1)][k % 4])
    c['c'] = arr(c['c']).reshape(-1, np.shape(c['c'])[-1])[0]
    return c


@oracle('regular grid option', gengrid, n=30)
def gridopt(case):
    r, th, ph = arr(case['r']), arr(case['th']), arr(case['ph'])
    B = call(case, r, th, ph, grid=True)
    W = want(case, r, th[..., :, None], ph[..., None, :])
    for n, b, w in zip(('B_radius', 'B_theta', 'B_phi'), B, W):
        e = close(b, w, 1e-7, 1e-9*np.max(np.abs(W), initial=1e-3), n)
        if e:
            return e


def genrej(rng, k):
    return {'k': k, 'n': int(rng.integers(1, 4)),
            'bad': [-1e-9, 180 + 1e-9, -5., 200., 360.][k % 5],
            'pos': int(rng.integers(0, 4)),
            'th': ref.angles(rng, (4,)), 'kind': ['theta', 'source', 'degree',
                                                  'nmin', 'theta0'][k % 5
                                                                    if k > 9
                                                                    else 0]}


@oracle('rejected input', genrej, n=30)
def reject(case):
    c = np.arange(1., 9.)
    th = arr(case['th'])
    ph = np.linspace(0, 300, 4)
    if case['kind'] == 'theta':
        th[case['pos']] = case['bad']
        # other points may lie on the poles
        f = lambda: mu.synth_values(c, 6371.2, th, ph)
    elif case['kind'] == 'theta0':
        f = lambda: mu.synth_values(c, 6371.2, case['bad'], 10.)
    elif case['kind'] == 'source':
        f = lambda: mu.synth_values(c, 6371.2, th, ph, source='interna')
    elif case['kind'] == 'degree':
        f = lambda: mu.synth_values(c, 6371.2, th, ph, nmin=3, nmax=2)
    else:
        f = lambda: mu.synth_values(c, 6371.2, th, ph, nmin=0)
    if not raises(f):
        return f'{case["kind"]}: no error'


def genpot(rng, k):
    nmax = int(rng.integers(1, 8))
    return {'nmax': nmax, 'source': ['internal', 'external'][k % 2],
            'c': rng.normal(size=nmax*(nmax + 2)),
            'r': float(rng.uniform(4000, 8000)),
            'th': float(rng.uniform(1, 179)), 'ph': float(rng.uniform(0, 360))}


@oracle('numerical gradient of the potential', genpot, n=24)
def grad(case):
    a = 6371.2

    def V(r, th, ph):
        P, _, _ = ref.schmidt(case['nmax'], th)
        v = ref.L(0)
        for c, (n, m) in zip(case['c'], ref.order(1, case['nmax'])):
            Y = np.cos(m*ph*ref.PI/180) if m >= 0 else np.sin(-m*ph*ref.PI/180)
            x = ref.L(a)/r
            w = x**(n + 1) if case['source'] == 'internal' else x**(-n)
            v += ref.L(c)*a*w*P[n, abs(m)]*Y
        return v
    L = ref.L
    r, th, ph = L(case['r']), L(case['th']), L(case['ph'])
    h = L(1e-4)
    d = ref.PI/180
    g = [-(V(r + h, th, ph) - V(r - h, th, ph))/(2*h),
         -(V(r, th + h, ph) - V(r, th - h, ph))/(2*h*d)/r,
         -(V(r, th, ph + h) - V(r, th, ph - h))/(2*h*d)/r/np.sin(th*d)]
    B = mu.synth_values(case['c'], float(r), float(th), float(ph),
                        source=case['source'])
    s = max(abs(float(x)) for x in g)
    for n, b, w in zip(('B_radius', 'B_theta', 'B_phi'), B, g):
        e = close(b, float(w), 1e-6, 1e-6*s, n)
        if e:
            return e
