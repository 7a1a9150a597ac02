import numpy as np
from common import oracle, close, arr
from chaosmagpy import coordinate_utils as cu


def ref(r, t, p):
    t, p = np.deg2rad(t), np.deg2rad(p)
    return (r*np.sin(t)*np.cos(p), r*np.sin(t)*np.sin(p), r*np.cos(t))


SH = [[(), (), ()], [(4,), (4,), (4,)], [(), (4,), (4,)], [(4,), (), ()],
      [(3, 1), (1, 2), ()], [(2, 3), (2, 3), (2, 3)]]


def gen(rng, k):
    s = SH[k % len(SH)]

    def draw(sh, vals, lo, hi):
        n = int(np.prod(sh))
        return [float(rng.choice(vals)) if rng.random() < .5 else float(
            rng.uniform(lo, hi)) for _ in range(n)]
    return {'sh': s, 'r': draw(s[0], [1., 6371.2, 1e-3], .1, 9000.),
            't': draw(s[1], [0., 90., 180., 1e-6, 179.9999, 45.], 0, 180),
            'p': draw(s[2], [0., 180., -180., 90., -90., 360., 270., 1e-7],
                      -360, 720)}


def get(case):
    return [arr(v).reshape([int(x) for x in s])[()] for v, s in zip(
        (case['r'], case['t'], case['p']), case['sh'])]


@oracle('positions', gen, n=80)
def positions(case):
    r, t, p = get(case)
    g = cu.spherical_to_cartesian(r, t, p)
    w = np.broadcast_arrays(*ref(r, t, p))
    for a, b, n in zip(g, w, 'xyz'):
        e = close(np.broadcast_to(a, b.shape), b, 1e-12,
                  1e-12*np.max(np.abs(r)), n)
        if e:
            return e
    h = cu.cartesian_to_spherical(*g)
    r0, t0, p0 = np.broadcast_arrays(r, t, p)
    R, T, P = (np.broadcast_to(v, r0.shape) for v in h)
    e = close(R, r0, 1e-12, 0, 'radius') or close(T, t0, 1e-7, 1e-5, 'theta')
    if e:
        return e
    if (T < 0).any() or (T > 180).any() or (np.abs(P) > 180).any():
        return 'range'
    back = ref(R, T, P)
    for a, b, n in zip(back, w, 'xyz'):
        e = close(a, b, 1e-9, 1e-6*np.max(np.abs(r)), "back " + n)
        if e:
            return e
    return None


@oracle('points', lambda rng, k: {'x': [float(v) for v in rng.choice(
        [0., 1., -1., 2.5, 1e-3, -6371.2, 3.], 12)]}, n=60)
def points(case):
    x = arr(case['x']).reshape(4, 3)
    x = x[(x != 0).any(axis=1)]
    if not len(x):
        return None
    r, t, p = cu.cartesian_to_spherical(*x.T)
    if (t < 0).any() or (t > 180).any() or (np.abs(p) > 180).any():
        return 'range'
    e = close(r, np.linalg.norm(x, axis=1), 1e-12, 0, 'radius')
    if e:
        return e
    for i in range(len(x)):
        q = cu.cartesian_to_spherical(*x[i])
        e = close(np.array(q), np.array([r[i], t[i], p[i]]), 1e-13, 1e-13,
                  'scalar')
        if e:
            return e
    return close(np.array(ref(r, t, p)).T, x, 1e-9, 1e-6*np.max(r), "position")


@oracle('azimuth', lambda rng, k: {'p': [0., 180., -180., 360., 180.0000001,
        540., -540., 179.5, -1e-20, 359.9999999, 720., -360., 1e5 + .25,
        *[float(v) for v in rng.uniform(-3000, 3000, 8)],
        *[float(v) for v in rng.integers(-20, 20, 5)*90]]}, n=20)
def azimuth(case):
    p = arr(case['p'])
    for q in (p, p.reshape(2, -1) if p.size % 2 == 0 else p[:, None],
              p.astype(int)):
        keep = q.copy()
        g = cu.center_azimuth(q)
        if (q != keep).any():
            return 'input modified'
        if g.shape != q.shape:
            return f'shape {g.shape}'
        if (g <= -180).any() or (g > 180).any():
            return 'range'
        d = (q - g)/360
        if (np.abs(d - np.round(d)) > 1e-9).any():
            return 'not equivalent'
    for v in p:
        for w in (v, float(v), int(v)):
            g = cu.center_azimuth(w)
            if not -180 < g <= 180:
                return f'range of scalar {w}: {g}'
            d = (w - g)/360
            if abs(d - round(float(d))) > 1e-9:
                return 'scalar not equivalent'
    return None


@oracle('local time', lambda rng, k: {'t': [0., .5, -1e-20, 1e4 + .25, -.75,
        *[float(v) for v in rng.uniform(-20000, 20000, 5)]],
        'p': [0., 15., -15., 180., -180., 360., 345., -1e-18,
              *[float(v) for v in rng.uniform(-720, 720, 2)]]}, n=20)
def local(case):
    t, p = arr(case['t']), arr(case['p'])
    for a, b in ((t, p), (t[:, None], p), (t, 30.), (0.25, p),
                 (t[0], p[0])):
        g = cu.local_time(a, b)
        w = 24*np.asarray(a) + np.asarray(b)/15
        if np.shape(g) != np.shape(w):
            return f'shape {np.shape(g)}'
        if (g < 0).any() or (g >= 24).any():
            return f'range: {g!r}'
        d = (w - g)/24
        if (np.abs(d - np.round(d)) > 1e-8).any():
            return 'hours'
    return close(cu.local_time(np.arange(24)/24 + .01, 0.), np.arange(24)
                 + .24, 1e-9, 1e-9, 'Greenwich')
