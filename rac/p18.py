import numpy as np
from common import oracle, close, arr
from chaosmagpy import coordinate_utils as cu

SH = [[], [4], [2, 2], [1], [4, 1]]


def sun_ref(t):
    """Subsolar point (Meeus, low precision), longitudes in degrees."""
    d = np.asarray(t, float) - 0.5
    T = d/36525
    r = np.radians
    L = 280.46646 + 36000.76983*T + 0.0003032*T**2
    M = r(357.52911 + 35999.05029*T - 0.0001537*T**2)
    C = (1.914602 - 0.004817*T)*np.sin(M) + (0.019993 - 0.000101*T)*np.sin(
        2*M) + 0.000289*np.sin(3*M)
    om = r(125.04 - 1934.136*T)
    lam = r(L + C - 0.00569 - 0.00478*np.sin(om))
    eps = r(23.439291 - 0.0130042*T + 0.00256*np.cos(om))
    dec = np.degrees(np.arcsin(np.sin(eps)*np.sin(lam)))
    ra = np.degrees(np.arctan2(np.cos(eps)*np.sin(lam), np.cos(lam)))
    gst = 280.46061837 + 360.98564736629*d
    return 90 - dec, ra - gst, np.degrees(eps)


def gen(rng, k):
    s = SH[k % len(SH)]
    n = int(np.prod(s))
    v = [float(x) for x in rng.choice(
        [0., 0.5, 79.3, 172., 265.9, -36159., 36159.5, -0.5, 8000.25,
         -20000.125, 80., 355.], n)]
    v = [float(rng.uniform(-36159, 36159)) if rng.random() < .5 else x
         for x in v]
    return {'t': v, 's': s, 'int': bool(k % 7 == 3)}


@oracle('subsolar point', gen, n=150)
def subsolar(case):
    t = arr(case['t'])
    if case['int']:
        t = np.floor(t).astype(int)
    t = t.reshape([int(x) for x in case['s']])[()]
    th, ph = cu.sun_position(t)
    th, ph = np.asarray(th), np.asarray(ph)
    if th.shape != np.shape(t) or ph.shape != np.shape(t):
        return f'shape {th.shape} {ph.shape}'
    a, b, eps = sun_ref(t)
    if not (np.abs(th - a) < 0.03).all():
        return f'colatitude {th} != {a}'
    if not (np.abs((ph - b + 180) % 360 - 180) < 0.035).all():
        return f'longitude {ph} != {b}'
    if not ((ph > -180) & (ph <= 180)).all():
        return 'longitude range'
    if not (np.abs(90 - th) <= eps + 0.01).all():
        return 'declination'
    # noon at Greenwich: within the equation of time
    noon = np.floor(np.asarray(t, float)) + 0.5
    if not (np.abs(cu.sun_position(noon)[1]) < 4.3).all():
        return 'noon'
    return None


@oracle('outside of the period', lambda rng, k: {
    't': [float(rng.choice([-36160.5, -40000., 36160., 36161., 50000.,
                            -36525., 1e6, -1e5]))], 's': k % 4}, n=40)
def outside(case):
    t = case['t'][0]
    a = [t, np.array([t]), np.array([0., t]), np.array([[t, 10.]])][case['s']]
    try:
        cu.sun_position(a)
    except (AssertionError, ValueError):
        return None
    return 'not rejected'


def zgen(rng, k):
    n = 5
    t = [float(rng.uniform(-36000, 36000)) for _ in range(n)]
    return {'t': t, 'theta': [float(x) for x in rng.choice(
        [0., 180., 90., 12.5, 163.], n)],
        'phi': [float(x) for x in rng.uniform(-180, 360, n)], 'm': k % 4}


@oracle('zenith angle', zgen, n=100)
def zenith(case):
    t, a, b = arr(case['t']), arr(case['theta']), arr(case['phi'])
    m = case['m']
    if m == 1:
        a, b = cu.sun_position(t)           # subsolar points
    elif m == 2:
        a, b = cu.sun_position(t)           # antisolar points
        a, b = 180 - a, b + 180
    elif m == 3:
        t = t[0]
    z = cu.zenith_angle(t, a, b)
    if np.shape(z) != np.broadcast(t, a, b).shape:
        return 'shape'
    if not ((z >= 0) & (z <= 180)).all():
        return f'range {z}'
    if m == 1 and not (z < 1e-4).all():
        return f'subsolar {z}'
    if m == 2 and not (z > 180 - 1e-4).all():
        return f'antisolar {z}'
    th, ph = (np.radians(v) for v in cu.sun_position(t))
    a, b = np.radians(a), np.radians(b)
    u = np.array([np.sin(th)*np.cos(ph), np.sin(th)*np.sin(ph), np.cos(th)])
    w = np.array([np.sin(a)*np.cos(b), np.sin(a)*np.sin(b), np.cos(a)])
    if u.ndim == 1:
        u = u[:, None]
    want = np.degrees(np.arctan2(np.linalg.norm(np.cross(u, w, axis=0),
                                                axis=0), (u*w).sum(axis=0)))
    return close(z, want, 1e-7, 2e-5, 'zenith angle')
