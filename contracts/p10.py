"""P10: spherical and Cartesian coordinates, azimuth range, local time."""
import numpy as np
from pydv import core, extract
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, b_and, b_or, b_not, sym
from pydv.registry import Registry

R = Registry('P10')
TRUSTED = ['cos, sin, sqrt, arctan2, arccos satisfy their defining '
           'identities and ranges (axioms of the normaliser)',
           'two angles in (-180, 180] with equal cosine and sine are equal']
ASSUMPTIONS = ['representative shapes (scalars, one, two axes, broadcast) '
               'stand for all']
F1 = ['coordinate_utils.spherical_to_cartesian']
F2 = ['coordinate_utils.cartesian_to_spherical']
F3 = ['coordinate_utils.center_azimuth']
F4 = ['coordinate_utils.local_time']
S, V, W = (), (2,), (2, 1)
SHAPES = [(S, S, S), (V, V, V), (S, V, V), (V, S, S), (S, S, V),
          ((2, 1), (1, 2), S), ((1, 2), (2, 1), (1,))]


def load(ctx):
    return extract.load('coordinate_utils', {
        'config_utils': ConfigModule({}),
        'basicConfig': ConfigModule({}).basicConfig})


def each(*xs):
    """Elementwise over broadcast arrays: shape, list of tuples."""
    a = np.broadcast_arrays(*[objarr(x) for x in xs])
    return a[0].shape, [tuple(x[i] for x in a)
                        for i in np.ndindex(*a[0].shape)]


def spread(v, shape):
    """A result that depends on fewer arguments may keep their shape."""
    v = objarr(v)
    try:
        return np.broadcast_to(v, shape)
    except ValueError:
        return v


def fill(shape, vals):
    out = np.empty(shape, dtype=object)
    for i, v in zip(np.ndindex(*shape), vals):
        out[i] = v
    return out


def unit(theta, phi):
    """Position on the unit sphere (colatitude, longitude in degrees)."""
    t, p = core.radians(theta), core.radians(phi)
    return (core.sin(t)*core.cos(p), core.sin(t)*core.sin(p), core.cos(t))


@R.contract('spherical_to_cartesian is the right-handed position vector',
            F1, modes=('proof',))
def forward(mode, tier):
    out = []
    for shp in SHAPES:
        for aslist in (False, True):
            if aslist and shp[0] != V:
                continue

            def body(ctx, shp=shp, aslist=aslist):
                M = load(ctx)
                r = reals('r', shp[0])
                t, p = reals('theta', shp[1]), reals('phi', shp[2])
                st, g = outcome(M.ns['spherical_to_cartesian'],
                                list(r) if aslist else r, t, p)
                post_true(ctx, f'position vectors ({g!r})'[:90], st == 'ok'
                          and len(g) == 3)
                if st != 'ok':
                    return
                sh, es = each(r, t, p)
                for k in range(3):
                    post_eq(ctx, f'component {"xyz"[k]}', spread(g[k], sh),
                            fill(
                        sh, [a*unit(b, c)[k] for a, b, c in es]))
            out.append(verify(f'spherical_to_cartesian {shp}'
                              + (' list' if aslist else ''), body, F1,
                              fail_fast=False))
    return out


@R.contract('cartesian_to_spherical gives radius, colatitude and longitude '
            'of every point away from the origin', F2, modes=('proof',))
def backward(mode, tier):
    out = []
    for shp in SHAPES:
        def body(ctx, shp=shp):
            M = load(ctx)
            x, y, z = (reals(n, s) for n, s in zip('xyz', shp))
            sh, es = each(x, y, z)
            for a, b, c in es:
                ctx.assume(a*a + b*b + c*c > 0)
                # on the axis or not
                CTX.fork(b_and(a == 0, b == 0))
            st, g = outcome(M.ns['cartesian_to_spherical'], x, y, z)
            post_true(ctx, f'coordinates ({g!r})'[:90], st == 'ok'
                      and len(g) == 3)
            if st != 'ok':
                return
            g = [spread(v, sh) for v in g]
            for k, v in enumerate(g):
                post_true(ctx, f'shape of result {k}', v.shape == sh)
                if v.shape != sh:
                    return
            for i, (a, b, c) in zip(np.ndindex(*sh), es):
                r, t, p = (v[i] for v in g)
                ctx.oblige('radius is the length', r*r == a*a + b*b + c*c,
                           'post', True)
                ctx.oblige('radius is positive', r > 0, 'post', True)
                ctx.oblige('colatitude in [0, 180]', b_and(
                    core.radians(t) >= 0, core.radians(t) <= core.PI()),
                    'post', True)
                ctx.oblige('longitude in [-180, 180]', b_and(
                    core.radians(p) >= -core.PI(),
                    core.radians(p) <= core.PI()), 'post', True)
                u = unit(t, p)
                for k, w in enumerate((a, b, c)):
                    ctx.oblige(f'{"xyz"[k]} of the position', r*u[k] == w,
                               'post', True)
        out.append(verify(f'cartesian_to_spherical {shp}', body, F2,
                          fail_fast=False))
    return out


@R.contract('cartesian_to_spherical inverts spherical_to_cartesian',
            F1 + F2, modes=('proof',))
def there(mode, tier):
    def body(ctx):
        M = load(ctx)
        r = core.real('r', lo=0, hi=10)
        ctx.assume(r > 0)
        t, p = angle('theta', 0, 180), angle('phi', -180, 180)
        ctx.assume(b_and(t > 0, t < 180))
        g = M.ns['cartesian_to_spherical'](
            *M.ns['spherical_to_cartesian'](r, t, p))
        post_eq(ctx, 'radius', g[0], r)
        for k, (v, w) in enumerate(zip(g[1:], (t, p))):
            for f in (core.cos, core.sin):
                ctx.oblige(f'{f.__name__} of the {("colatitude", "longitude")[k]}',
                           f(core.radians(sym(v))) == f(core.radians(w)),
                           'post', True)
    return verify('cartesian_to_spherical of spherical_to_cartesian', body,
                  F1 + F2, fail_fast=False)


def whole(x):
    """x is an integer."""
    return core.floor(sym(x)) == sym(x)


@R.contract('center_azimuth is the equivalent angle in (-180, 180]', F3,
            modes=('proof',))
def azimuth(mode, tier):
    out = []
    for shp in ((), (2,), (2, 2), (1, 1)):
        for kind in ('real', 'int'):
            def body(ctx, shp=shp, kind=kind):
                M = load(ctx)
                if kind == 'real':
                    p = reals('phi', shp)
                else:
                    p = fill(shp, [core.integer(f'p{k}', lo=-2000, hi=2000)
                                   for k in range(int(np.prod(shp)))])
                    p = p if shp else p[()]
                keep = objarr(p).copy()
                st, g = outcome(M.ns['center_azimuth'], p)
                post_true(ctx, f'an angle ({g!r})'[:90], st == 'ok')
                if st != 'ok':
                    return
                g = objarr(g)
                post_true(ctx, 'shape', g.shape == shp)
                post_true(ctx, 'input unchanged', all(
                    a is b for a, b in zip(objarr(p).flat, keep.flat)))
                if g.shape != shp:
                    return
                for i in np.ndindex(*shp):
                    ctx.oblige('range (-180, 180]', b_and(
                        g[i] > -180, g[i] <= 180), 'post', True)
                    ctx.oblige('differs by full circles', whole(
                        (keep[i] - g[i])/360), 'post', True)
            out.append(verify(f'center_azimuth {shp} {kind}', body, F3,
                              fail_fast=False))
    return out


@R.contract('local_time is the hour of the day, an hour for every 15 degrees',
            F4, modes=('proof',))
def local(mode, tier):
    out = []
    for shp in ((S, S), (V, V), (V, S), (S, V), ((2, 1), (1, 2))):
        def body(ctx, shp=shp):
            M = load(ctx)
            t, p = reals('t', shp[0]), reals('phi', shp[1])
            st, g = outcome(M.ns['local_time'], t, p)
            post_true(ctx, f'local times ({g!r})'[:90], st == 'ok')
            if st != 'ok':
                return
            sh, es = each(t, p)
            g = objarr(g)
            post_true(ctx, 'shape', g.shape == sh)
            if g.shape != sh:
                return
            for i, (a, b) in zip(np.ndindex(*sh), es):
                ctx.oblige('range [0, 24)', b_and(g[i] >= 0, g[i] < 24),
                           'post', True)
                ctx.oblige('24 hours a day and one per 15 degrees',
                           whole((24*a + b/15 - g[i])/24), 'post', True)
        out.append(verify(f'local_time {shp}', body, F4, fail_fast=False))

    def mid(ctx):
        M = load(ctx)
        n = core.integer('day', lo=-9999, hi=9999)
        post_eq(ctx, 'noon in Greenwich', M.ns['local_time'](
            n + Fraction(1, 2), sym(0)), 12)
        post_eq(ctx, 'midnight in Greenwich', M.ns['local_time'](n, sym(0)),
                0)
    from fractions import Fraction
    out.append(verify('local_time in Greenwich', mid, F4, fail_fast=False))
    return out
