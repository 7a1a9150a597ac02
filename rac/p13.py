import numpy as np
from common import oracle, close, arr
from chaosmagpy import coordinate_utils as cu
from chaosmagpy.config_utils import basicConfig

SH = [[(), ()], [(3,), (3,)], [(), (3,)], [(3,), ()], [(2, 1), (1, 3)],
      [(2, 3), (3,)]]


def gen(rng, k):
    s = SH[k % len(SH)]
    # the deep interior is excluded relative to the ellipsoid
    ell = [None, [6378.137, 6356.752], [6371.2, 6371.2], [7000., 6000.],
           [6400., 6399.99], [float(rng.uniform(6300, 6400)), 6300.]][k % 6
                                                                       - 1]

    def draw(sh, lo, hi, vals=()):
        return [float(rng.choice(vals)) if vals and rng.random() < .3
                else float(rng.uniform(lo, hi)) for _ in range(int(np.prod(
                    sh)))]
    bs = np.broadcast_shapes(*s)
    return {'sh': s, 'ell': ell,
            'h': draw(s[0], -2500, 30000, [0., 400., -100., 1e-9]),
            'b': draw(s[1], 0, 180, [0., 180., 90., 1e-6, 180 - 1e-6, 45.,
                                     135., 1e-12, 90 + 1e-10]),
            'X': draw(bs, -1, 1, [0., 1.]), 'Z': draw(bs, -1, 1),
            'vec': k % 2}


def setup(case):
    sh = [tuple(int(x) for x in s) for s in case['sh']]
    bs = np.broadcast_shapes(*sh)
    return [arr(v).reshape(s)[()] for v, s in zip(
        (case['h'], case['b'], case['X'], case['Z']), sh + [bs, bs])]


def point(h, b, ell):
    """Cartesian meridional coordinates of geodetic positions."""
    a, c = ell
    sb, cb = np.sin(np.radians(b)), np.cos(np.radians(b))
    D = np.sqrt(a*a*sb*sb + c*c*cb*cb)
    return (a*a/D + h)*sb, (c*c/D + h)*cb, sb, cb


def with_ell(case, f):
    old = basicConfig['params.ellipsoid']
    try:
        if case['ell'] is not None:
            basicConfig['params.ellipsoid'] = arr(case['ell'])
        return f(np.array(basicConfig['params.ellipsoid'], dtype=float))
    finally:
        basicConfig['params.ellipsoid'] = old


def vectors(h, b, X, Z, ell, out, t, what):
    # north and down, outward and southward, in the meridional plane
    h, b, X, Z, t = np.broadcast_arrays(h, b, X, Z, t)
    sb, cb = np.sin(np.radians(b)), np.cos(np.radians(b))
    st, ct = np.sin(np.radians(t)), np.cos(np.radians(t))
    v = np.stack((-X*cb - Z*sb, X*sb - Z*cb))
    u = np.stack((out[0]*st + out[1]*ct, out[0]*ct - out[1]*st))
    return close(u, v, rtol=1e-7, atol=1e-8, what=what)


@oracle('geodetic to geocentric', gen, n=150)
def forward(case):
    h, b, X, Z = setup(case)

    def run(ell):
        r, z, _, _ = point(h, b, ell)
        with np.errstate(all='ignore'):
            out = cu.gg_to_geo(h, b, X, Z) if case['vec'] else \
                cu.gg_to_geo(h, b)
        if len(out) != (4 if case['vec'] else 2):
            return 'number of values'
        R, t = out[:2]
        for v, n in ((R, 'radius'), (t, 'colatitude')):
            if not np.isfinite(v).all():
                return f'undefined {n}: {v}'
        m = close(R, np.sqrt(r*r + z*z), rtol=1e-9, what='radius') or close(
            R*np.sin(np.radians(t)), r, rtol=1e-8, atol=1e-4,
            what='distance from the axis') or close(
            R*np.cos(np.radians(t)), z, rtol=1e-8, atol=1e-4, what='z')
        if m or not case['vec']:
            return m
        return vectors(h, b, X, Z, ell, out[2:], t, 'vector')
    return with_ell(case, run)


@oracle('geocentric to geodetic', gen, n=150)
def inverse(case):
    h, b, X, Z = setup(case)

    def run(ell):
        r, z, _, _ = point(h, b, ell)
        R, t = np.sqrt(r*r + z*z), np.degrees(np.arctan2(r, z))
        b_ = b + 0*h
        t = np.where(b_ == 0, 0., np.where(b_ == 180, 180., np.where(
            b_ == 90, 90., t)))[()]
        with np.errstate(all='ignore'):
            out = cu.geo_to_gg(R, t, X, Z) if case['vec'] else \
                cu.geo_to_gg(R, t)
        if len(out) != (4 if case['vec'] else 2):
            return 'number of values'
        for v, n in ((out[0], 'height'), (out[1], 'colatitude')):
            if not np.isfinite(v).all():
                return f'undefined {n}: {v}'
        m = close(out[0], h + 0*b, rtol=1e-7, atol=1e-4, what='height') \
            or close(out[1], b_, rtol=1e-7, atol=1e-6, what='colatitude')
        if m or not case['vec']:
            return m
        # X, Z taken as outward and southward components here
        st, ct = np.sin(np.radians(t)), np.cos(np.radians(t))
        v = np.stack((X*st + Z*ct, X*ct - Z*st))
        sb, cb = np.sin(np.radians(out[1])), np.cos(np.radians(out[1]))
        u = np.stack((-out[2]*cb - out[3]*sb, out[2]*sb - out[3]*cb))
        return close(u, v + 0*u, rtol=1e-7, atol=1e-8, what='vector')
    return with_ell(case, run)


@oracle('round trip', gen, n=80)
def trip(case):
    h, b, X, Z = setup(case)

    def run(ell):
        with np.errstate(all='ignore'):
            o = cu.geo_to_gg(*cu.gg_to_geo(h, b, X, Z))
        bs = np.broadcast_shapes(np.shape(h), np.shape(b))
        return close(o[0], np.broadcast_to(h, bs), rtol=1e-7, atol=1e-4,
                     what='height') \
            or close(o[1], np.broadcast_to(b, bs), rtol=1e-7, atol=1e-6,
                     what='colatitude') \
            or close(o[2], X, 1e-7, 1e-8, 'X') or close(o[3], Z, 1e-7, 1e-8,
                                                        'Z')
    return with_ell(case, run)
