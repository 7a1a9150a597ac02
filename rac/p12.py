import numpy as np
from common import oracle, close, arr, raises
from p11 import pos, dip
from chaosmagpy import coordinate_utils as cu
from chaosmagpy.config_utils import basicConfig

SH = [[(), (), ()], [(3,), (3,), (3,)], [(3,), (3,), ()], [(), (), (3,)],
      [(3,), (), (3,)], [(2, 1), (1, 3), ()], [(2, 1), (2, 1), (3,)],
      [(2, 3), (2, 3), (3,)]]


def gen(rng, k):
    s = SH[k % len(SH)]

    def draw(sh, lo, hi, vals=()):
        return [float(rng.choice(vals)) if vals and rng.random() < .3
                else float(rng.uniform(lo, hi)) for _ in range(int(np.prod(
                    sh)))]
    return {'sh': s, 't': draw(s[0], 1, 179, [90., 45.]),
            'p': draw(s[1], -180, 360, [0., 180., 90., -180.]),
            'time': draw(s[2], -30000, 30000),
            'Bt': draw(np.broadcast_shapes(*[tuple(x) for x in s]), -1, 1),
            'Bp': draw(np.broadcast_shapes(*[tuple(x) for x in s]), -1, 1),
            'ref': ['gsm', 'sm', 'mag'][(k//2) % 3], 'case': k % 2,
            'how': ['config', 'vector', 'pole', 'default'][(k//3) % 4],
            'g': dip(rng), 'pole': [float(rng.uniform(5, 175)), float(
                rng.uniform(0, 360))],
            'inv': [None, False, True][(k//5) % 3]}


def setup(case):
    t, p, tm = [arr(v).reshape([int(x) for x in s])[()] for v, s in zip(
        (case['t'], case['p'], case['time']), case['sh'])]
    kw = {}
    cfg = None
    if case['how'] == 'vector':
        kw['dipole'] = arr(case['g'])
    if case['how'] == 'pole':
        kw['dipole'] = tuple(case['pole'])
    if case['how'] == 'config':
        cfg = arr(case['g'])
    if case['ref'] != 'mag':
        kw['time'] = tm
    if case['inv'] is not None:
        kw['inverse'] = case['inv']
    kw['reference'] = case['ref'].upper() if case['case'] else case['ref']
    return t, p, tm, kw, cfg


def bases(case, tm, kw, cfg):
    d = kw.get('dipole', cfg)
    if d is None:
        d = basicConfig['params.dipole']
    if case['ref'] == 'mag':
        return np.stack(cu.basevectors_mag(d), axis=-2)
    return np.stack((cu.basevectors_gsm if case['ref'] == 'gsm' else
                     cu.basevectors_sm)(tm, d), axis=-2)


def vec(t, p, x, y):
    t, p, x, y = np.broadcast_arrays(t, p, x, y)
    u = np.stack((np.deg2rad(t), np.deg2rad(p)))
    s = np.stack((np.cos(u[0])*np.cos(u[1]), np.cos(u[0])*np.sin(u[1]),
                  -np.sin(u[0])), -1)
    e = np.stack((-np.sin(u[1]), np.cos(u[1]), 0*u[1]), -1)
    return x[..., None]*s + y[..., None]*e


def rot(B, v, inv):
    B = np.swapaxes(B, -1, -2) if inv else B
    return np.einsum('...ij,...j->...i', B, v)


@oracle('points and vectors', gen, n=160)
def transform(case):
    t, p, tm, kw, cfg = setup(case)
    try:
        if cfg is not None:
            basicConfig['params.dipole'] = cfg
        B = bases(case, tm, kw, cfg)
        inv = bool(case['inv'])
        keep = [np.copy(x) for x in (t, p, tm)]
        g = cu.transform_points(t, p, **kw)
        w = rot(B, pos(t, p), inv)
        e = close(pos(*g), w, 1e-9, 1e-9, 'points')
        if e:
            return e
        if (np.asarray(g[0]) < 0).any() or (np.asarray(g[0]) > 180).any() or \
                (np.abs(g[1]) > 180).any():
            return 'range'
        k2 = dict(kw, inverse=not inv)
        b = cu.transform_points(*g, **k2)
        e = close(pos(*b), np.broadcast_to(pos(t, p), w.shape), 1e-9, 1e-7,
                  'inverse of points')
        if e:
            return e
        sh = w.shape[:-1]
        x, y = arr(case['Bt']), arr(case['Bp'])
        if x.size != int(np.prod(sh)):
            x, y = x.ravel()[0], y.ravel()[0]
            x, y = np.full(sh, x), np.full(sh, y)
        else:
            x, y = x.reshape(sh), y.reshape(sh)
        f = cu.transform_vectors(t, p, x, y, **kw)
        e = close(f[0], g[0], 1e-9, 1e-9, 'theta') or close(
            f[1], g[1], 1e-9, 1e-9, 'phi')
        if e:
            return e
        near = np.sin(np.deg2rad(f[0])).min() < 1e-3
        e = close(vec(*f), rot(B, vec(t, p, x, y), inv), 1e-7,
                  1e-5 if near else 1e-8, 'vectors')
        if e:
            return e
        b = cu.transform_vectors(*f, **k2)
        e = close(np.asarray(b[2]), x, 1e-6, 1e-4 if near else 1e-7, 'theta '
                  'component back') or close(
            np.asarray(b[3]), y, 1e-6, 1e-4 if near else 1e-7, 'phi back')
        if e:
            return e
        BB = [B[..., i, :] for i in range(3)]
        q = cu.matrix_geo_to_base(t, p, *BB, inverse=case['inv'])
        r = cu.matrix_geo_to_base(q[0], q[1], *BB, inverse=not inv)
        one = np.broadcast_to(np.eye(3), q[2].shape)
        tol = 1e-5 if near else 1e-8
        for m, n in ((np.matmul(q[2], np.swapaxes(q[2], -1, -2)),
                      'orthogonal'), (np.matmul(r[2], q[2]), 'inverse')):
            e = close(m, one, tol, tol, n)
            if e:
                return e
        z = np.stack((np.zeros(sh), x, y), -1)
        e = close(np.einsum('...ij,...j->...i', q[2], z), np.stack(
            (np.zeros(sh), f[2], f[3]), -1), tol, tol, 'matrix')
        if e:
            return e
        if any((np.asarray(a) != np.asarray(b)).any() for a, b in zip(
                keep, (t, p, tm))):
            return 'input modified'
        for ref in ('geo', 'smx', '', None):
            kw['reference'] = ref
            if not raises(lambda: cu.transform_points(t, p, **kw),
                          ValueError) or not raises(
                    lambda: cu.transform_vectors(t, p, x, y, **kw),
                    ValueError):
                return f'reference {ref!r} accepted'
    finally:
        basicConfig.reset('params.dipole')
    return None


@oracle('axis points', lambda rng, k: {'t': [0., 180.], 'p': float(
        rng.uniform(-180, 180)), 'g': dip(rng)}, n=10)
def axis(case):
    g = arr(case['g'])
    B = np.stack(cu.basevectors_mag(g))
    a = cu.dipole_to_vec(g)
    t, p = np.degrees(np.arccos(a[2])), np.degrees(np.arctan2(a[1], a[0]))
    q = cu.transform_points(t, p, reference='mag', dipole=g)
    e = close(q[0], 0., 0, 1e-5, 'dipole pole')
    if e:
        return e
    q = cu.transform_points(arr(case['t']), case['p'], reference='mag',
                            dipole=g)
    e = close(pos(*q), np.stack([B[:, 2], -B[:, 2]]), 1e-9, 1e-9, 'pole')
    if e:
        return e
    q = cu.transform_points(arr(case['t']), 0., reference='mag', dipole=g,
                            inverse=True)
    return close(pos(*q), np.stack([a, -a]), 1e-9, 1e-9, 'MAG pole')
