import numpy as np
from common import oracle, close, arr, size, raises
import ref
from chaosmagpy import model_utils as mu
from chaosmagpy.config_utils import basicConfig

SHAPES = [((), (), ()), ((2,), (2,), (2,)), ((), (3,), (3,)),
          ((), (2, 1), (2,)), ((3,), (), ()), ((1,), (1,), (1,)),
          ((2, 2), (2, 2), (2, 2))]


def gen(rng, k):
    nmax = size(rng, k//2, [1, 2, 3, 5, 4, 2, 7, 13, 20], 90)
    rs, ts, ps = SHAPES[k % len(SHAPES)] if nmax < 25 else ((), (2,), (2,))
    nmin = [None, int(rng.integers(1, nmax + 1))][k % 2]
    mmax = None if k % 3 else int(rng.integers(0, nmax + 1))
    return {'nmin': nmin, 'nmax': nmax, 'mmax': mmax,
            'source': ['internal', 'external', None][k % 3],
            'r': rng.uniform(3000, 9000, rs), 'th': ref.angles(rng, ts),
            'ph': rng.uniform(-400, 400, ps),
            'rref': [6371.2, 3485.][k % 2]}


@oracle('design_gauss against independent basis functions', gen, n=70,
        weight=3)
def gauss(case):
    r, th, ph = arr(case['r']), arr(case['th']), arr(case['ph'])
    kw = {k: case[k] for k in ('nmin', 'mmax', 'source')
          if case[k] is not None}
    with basicConfig.context('params.r_surf', case['rref']):
        A = mu.design_gauss(r, th, ph, case['nmax'], **kw)
        nmin = case['nmin'] or 1
        mmax = case['nmax'] if case['mmax'] is None else case['mmax']
        K = len(ref.order(nmin, case['nmax'], mmax))
        c = np.random.default_rng(3).normal(size=K)
        B = mu.synth_values(c, r, th, ph, nmin=nmin, nmax=case['nmax'],
                            mmax=mmax, source=case['source'])
    sh = np.broadcast_shapes(r.shape, th.shape, ph.shape)
    R, T, P = [np.broadcast_to(x, sh) for x in (r, th, ph)]
    W = np.zeros((3,) + sh + (K,))
    for i in np.ndindex(*sh):
        W[(slice(None),) + i] = ref.basis(
            R[i], T[i], P[i], nmin, case['nmax'], mmax,
            case['source'] or 'internal', case['rref'])
    for a, w, b, lab in zip(A, W, B, ('radius', 'theta', 'phi')):
        e = close(a, w, 1e-8, 1e-11*(1 + np.abs(w).max()), f'A_{lab}') or \
            close(np.asarray(a) @ c, b, 1e-8,
                  1e-11*(1 + np.abs(b).max()), f'A_{lab} @ c')
        if e:
            return e
    return None


def gen_t(rng, k):
    order = [1, 2, 3, 4, 6, 5][k % 6]
    m = int(rng.integers(2, 6))
    br = np.sort(rng.uniform(-3000, 3000, m))
    kn = np.concatenate([[br[0]]*(order - 1), br, [br[-1]]*(order - 1)])
    nd = [1, 2, 4][k % 3]
    t = rng.uniform(br[0], br[-1], nd)
    if k % 4 == 1:
        t[0] = br[0]
    if k % 4 == 2:
        t[-1] = br[-1]
    if k % 4 == 3 and m > 2:
        t[0] = br[1]
    ntd = int(rng.integers(1, 4))
    return {'order': order, 'knots': kn, 't': t, 'ntd': ntd,
            'nst': [None, ntd, ntd + 1, ntd + 3][k % 4],
            'source': [None, 'internal', 'external'][k % 3],
            'r': rng.uniform(3000, 9000, nd),
            'th': rng.uniform(1, 179, nd), 'ph': rng.uniform(-180, 360, nd)}


@oracle('design_matrix against the Kronecker product', gen_t, n=60,
        weight=2)
def matrix(case):
    t, kn, order = arr(case['t']), arr(case['knots']), case['order']
    r, th, ph = arr(case['r']), arr(case['th']), arr(case['ph'])
    kw = {}
    if case['nst'] is not None:
        kw['n_static'] = case['nst']
    if case['source']:
        kw['source'] = case['source']
    G = mu.design_matrix(kn, order, case['ntd'], t, r, th, ph, **kw)
    nst = case['nst'] or case['ntd']
    src = case['source'] or 'internal'
    ct = case['ntd']*(case['ntd'] + 2)
    for d in range(t.size):
        A = ref.basis(r[d], th[d], ph[d], 1, nst, nst, src, 6371.2)
        N = ref.bspline_basis(t[d], kn, order)
        for k in range(3):
            w = np.concatenate([np.outer(A[k, :ct], N).ravel(), A[k, ct:]])
            e = close(G[k][d], w.astype(float), 1e-8, 1e-10,
                      f'matrix {k} row {d}')
            if e:
                return e
    return None


@oracle('colloc_matrix against Cox-de Boor', gen_t, n=60)
def colloc(case):
    t, kn, order = arr(case['t']), arr(case['knots']), case['order']
    if order > 1:
        # derivatives jump at break points for low order: stay inside
        br = np.unique(kn)
        t = np.where(np.isin(t, br), 0.5*(br[0] + br[1]), t)
    for nu in (None, 0, 1, 2, order - 1, order, order + 1):
        C = mu.colloc_matrix(t, kn, order, nu)
        W = np.array([ref.bspline_basis(x, kn, order, nu or 0)
                      if (nu or 0) < order else np.zeros(len(kn) - order)
                      for x in t], dtype=float)
        e = close(C, W, 1e-7, 1e-9*(1 + np.abs(W).max()), f'derivative {nu}')
        if e:
            return e
    return None


def gen_r(rng, k):
    return {'ntd': int(rng.integers(2, 6)), 'nst': int(rng.integers(1, 2))}


@oracle('design_matrix rejects a smaller static field', gen_r, n=4)
def reject(case):
    kn = np.array([0., 0., 1., 1.])
    a = [np.array([0.5])]*2
    if not raises(lambda: mu.design_matrix(
            kn, 2, case['ntd'], a[0], a[0]*12000, a[0]*90, a[0],
            n_static=case['nst'])):
        return 'not rejected'
    if not raises(lambda: mu.design_gauss(6371., 181., 0., 2)):
        return 'colatitude 181 not rejected'
    if not raises(lambda: mu.design_gauss(
            6371., np.array([0., 200., 90.]), 0., 2)):
        return 'colatitude 200 not rejected'
    if not raises(lambda: mu.design_gauss(6371., 18., 0., 2, source='x')):
        return 'source not rejected'
    return None
