import numpy as np
from common import oracle, close, arr, raises
from chaosmagpy import coordinate_utils as cu
from chaosmagpy.config_utils import basicConfig


def pos(t, p):
    t, p = np.deg2rad(t), np.deg2rad(p)
    return np.stack(np.broadcast_arrays(np.sin(t)*np.cos(p), np.sin(t)*np.sin(
        p), np.cos(t)), axis=-1)


def dip(rng):
    return [float(v) for v in rng.normal(size=3)*[3e4, 2e3, 5e3]]


FORMS = ['vector', 'tuple', 'list', 'pole', 'config', 'pole list', 'times']


def gen(rng, k):
    n = [1, 3, 2, 5][k % 4]
    return {'form': FORMS[k % 7], 'g': [dip(rng) for _ in range(n)],
            'pole': [float(rng.uniform(5, 175)), float(rng.uniform(-180,
                                                                   360))],
            't': [float(v) for v in rng.uniform(-36000, 36000, n)],
            'tshape': [[], [n], [n, 1], [1, n]][(k//2) % 4]}


def form(case):
    g = arr(case['g'])
    f = case['form']
    if f == 'times':
        return g, -g[:, [1, 2, 0]]/np.linalg.norm(g, axis=1)[:, None]
    ax = -g[0, [1, 2, 0]]/np.linalg.norm(g[0])
    if f.startswith('pole'):
        return (tuple if f == 'pole' else list)(case['pole']), pos(
            *case['pole'])
    return {'vector': g[0], 'tuple': tuple(g[0]), 'list': list(g[0]),
            'config': None}[f], ax


def triad(b, shape):
    for i in range(3):
        if np.shape(b[i]) != shape + (3,):
            return f'shape {np.shape(b[i])} of base vector {i}'
    for i in range(3):
        for j in range(3):
            e = close((b[i]*b[j]).sum(-1), np.full(shape, float(i == j)),
                      1e-9, 1e-9, f'b{i}.b{j}')
            if e:
                return e
    return close(np.cross(b[0], b[1]), b[2], 1e-9, 1e-9, 'right-handed')


@oracle('dipole frames', gen, n=120)
def frames(case):
    d, ax = form(case)
    if case['form'] == 'times':
        t = arr(case['t'])
        shape = t.shape
    else:
        shape = tuple(case['tshape'])
        t = arr(case['t'])
        t = t.reshape(shape) if shape else float(t[0])
    kw = {} if d is None else {'dipole': d}
    try:
        if d is None:
            basicConfig['params.dipole'] = arr(case['g'])[0]
        v = cu.dipole_to_vec(d)
        e = close(v, ax, 1e-12, 1e-12, 'axis')
        if e:
            return e
        s = pos(*cu.sun_position(t))
        b = cu.basevectors_gsm(t, **kw)
        e = triad(b, shape) or close(b[0], s, 1e-12, 1e-12, 'gsm x') or \
            close((b[1]*ax).sum(-1), np.zeros(shape), 0, 1e-9, 'dipole')
        if e:
            return 'gsm: ' + e
        if ((b[2]*ax).sum(-1) <= 0).any():
            return 'dipole on the side of negative z'
        b = cu.basevectors_sm(t, **kw)
        e = triad(b, shape) or close(b[2], np.broadcast_to(ax, shape + (3,)),
                                     1e-12, 1e-12, 'sm z') or \
            close((b[1]*s).sum(-1), np.zeros(shape), 0, 1e-9, 'Sun')
        if e:
            return 'sm: ' + e
        if ((b[0]*s).sum(-1) <= 0).any():
            return 'Sun on the side of negative x'
        b = cu.basevectors_mag(**kw)
        e = triad(b, ax.shape[:-1]) or close(b[2], ax, 1e-12, 1e-12, 'z') or \
            close(b[1][..., 2], np.zeros(ax.shape[:-1]), 0, 1e-12, 'south')
        if e:
            return 'mag: ' + e
        if (b[0][..., 2] >= 0).any():
            return 'south on the side of negative x'
    finally:
        basicConfig.reset('params.dipole')
    return None


@oracle('dipole forms', lambda rng, k: {
    'g': dip(rng), 'seed': int(rng.integers(1e6))}, n=20)
def forms(case):
    g = arr(case['g'])
    v = cu.dipole_to_vec(g)
    t, p = np.degrees(np.arccos(v[2])), np.degrees(np.arctan2(v[1], v[0]))
    for d in (tuple(g), list(g), (g,), (t, p), [t, p]):
        e = close(cu.dipole_to_vec(d), v, 1e-9, 1e-9, f'{d}')
        if e:
            return e
    for n in (g, tuple(g), (t, p)):
        e = close(np.array(cu.basevectors_mag(n)), np.array(
            cu.basevectors_mag(g)), 1e-7, 1e-7, 'MAG')
        if e:
            return e
    e = close(cu.igrf_dipole(), cu.dipole_to_vec([-29442.0, -1501.0,
                                                  4797.1]), 1e-12, 0, 'IGRF')
    if e:
        return e
    for sh in ((3,), (2, 2), (1, 4), (3, 1)):
        many = np.random.default_rng(case.get('seed', 0)).normal(
            size=(3,) + sh) + .1
        want = -np.stack([many[1], many[2], many[0]], -1)/np.sqrt(
            (many**2).sum(0))[..., None]
        ang = (np.degrees(np.arccos(want[..., 2])), np.degrees(np.arctan2(
            want[..., 1], want[..., 0])))
        one = many.copy()
        one[0] = one[0].flat[0]
        e = close(cu.dipole_to_vec((one[0].flat[0], one[1], one[2])),
                  cu.dipole_to_vec(tuple(one)), 1e-12, 1e-12, 'one g10') or \
            close(cu.dipole_to_vec((ang[0].flat[0], ang[1])), pos(
                ang[0].flat[0]*np.ones(sh), ang[1]), 1e-9, 1e-9,
                'one colatitude') or \
            close(cu.dipole_to_vec([ang[0], ang[1].flat[0]]), pos(
                ang[0], ang[1].flat[0]*np.ones(sh)), 1e-9, 1e-9,
                'one longitude')
        if e:
            return e
        for d in (tuple(many), np.moveaxis(many, 0, -1), ang):
            e = close(cu.dipole_to_vec(d), want, 1e-9, 1e-9,
                      f'arrays of shape {sh}')
            if e:
                return e
    if not raises(lambda: cu._dipole_to_unit(1., 2., 3., 4.), ValueError):
        return 'four values accepted'
    return close(cu.igrf_dipole('2010'), pos(11.32, 289.59), 1e-12, 1e-12,
                 'IGRF 2010')


@oracle('local frames', lambda rng, k: {
    't': [float(v) for v in rng.uniform(.1, 179.9, 3)] + [90., 1e-3, 45.],
    'p': [float(v) for v in rng.uniform(-360, 720, 4)] + [0., 180.]}, n=30)
def local(case):
    t, p = arr(case['t']), arr(case['p'])
    for a, b in ((t, p), (t[:, None], p), (t, p[0]), (t[0], p),
                 (t[0], p[0])):
        shape = np.broadcast(a, b).shape
        e = triad(cu.basevectors_use(a, b), shape)
        if e:
            return 'use: ' + e
        u = cu.basevectors_use(a, b)
        e = close(u[0], pos(a, b), 1e-12, 1e-12, 'radial')
        e = e or close(u[1], pos(a + 90, b), 1e-12, 1e-12, 'south')
        e = e or close(u[2], np.broadcast_to(pos(90., np.asarray(b) + 90),
                                             shape + (3,)), 1e-12, 1e-12,
                       'east')
        if e:
            return e
        be = a + (b % 7 - 3)/10
        g = cu.basevectors_gg(a, be)
        e = triad(g, np.broadcast(a, be).shape)
        if e:
            return 'gg: ' + e
        psi = np.deg2rad(a - be)
        e = close(g[0], np.stack(np.broadcast_arrays(
            -np.sin(psi), -np.cos(psi), 0*psi), -1), 1e-12, 1e-12, 'north')
        e = e or close(g[2], np.stack(np.broadcast_arrays(
            -np.cos(psi), np.sin(psi), 0*psi), -1), 1e-12, 1e-12, 'normal')
        if e:
            return e
    for x in (0., 180., [0., 90.], [10., 180.]):
        if not raises(lambda: cu.basevectors_use(np.array(x), 0.),
                      ValueError):
            return 'pole accepted'
    return None
