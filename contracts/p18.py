"""P18: position of the Sun and zenith angle."""
from fractions import Fraction
import numpy as np
from pydv import core, extract
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, b_and, b_or, b_not, sym
from pydv.registry import Registry
from contracts.p10 import fill, unit, load, each, spread
from contracts.p11 import Sun, sun, dot, cross

R = Registry('P18')
TRUSTED = ['cos, sin, tan, arctan, arctan2, arccos, sqrt satisfy their '
           'defining identities and ranges (axioms of the normaliser)',
           'center_azimuth is inlined (its own contract is P10)',
           'decimal constants are the decimal numbers written in the source']
ASSUMPTIONS = ['representative shapes stand for all',
               'the accuracy of the documented ephemeris itself is checked '
               'on concrete dates only (replay oracle)']
FS = ['coordinate_utils.sun_position', 'coordinate_utils.center_azimuth']
FZ = ['coordinate_utils.zenith_angle']
D = Fraction
LO, HI = -36159, D(3615975, 100)      # 1901-01-01 to the end of 2098


def ephemeris(t):
    """Direction to the Sun in the Earth-fixed frame as documented (Russell,
    1971): t are days since 2000-01-01 00:00."""
    t = sym(t)
    dj = t + D('36524.5')
    frac = t - core.floor(t)
    c = dj/36525
    v = D('279.696678') + D('0.9856473354')*dj
    g = core.radians(D('358.475845') + D('0.985600267')*dj)
    slong = v + (D('1.91946') - D('0.004789')*c)*core.sin(g) \
        + D('0.020094')*core.sin(2*g)
    lam = core.radians(slong - D('0.005686'))
    eps = core.radians(D('23.45229') - D('0.0130125')*c)
    gst = core.radians(D('279.690983') + D('0.9856473354')*dj + 360*frac
                       + 180)
    sl, cl, se, ce = core.sin(lam), core.cos(lam), core.sin(eps), \
        core.cos(eps)
    x, y, z = cl, ce*sl, se*sl
    a, b = core.cos(gst), core.sin(gst)
    return (a*x + b*y, a*y - b*x, z), eps


@R.contract('the subsolar point follows the documented ephemeris', FS,
            modes=('proof',))
def position(mode, tier):
    out = []
    for shp, kind in (((), 'scalar'), ((2,), 'array'), ((2, 1), 'array')):
        def body(ctx, shp=shp, kind=kind):
            M = load(ctx)
            ctx.int_pi = True
            t = reals('t', shp, lo=LO)
            for x in objarr(t).flat:
                ctx.assume(x < HI)
            st, g = outcome(M.ns['sun_position'], t)
            post_true(ctx, f'accepted ({g!r})'[:100], st == 'ok'
                      and len(g) == 2)
            if st != 'ok':
                return
            th, ph = objarr(g[0]), objarr(g[1])
            post_true(ctx, 'shape', th.shape == ph.shape == shp)
            if not th.shape == ph.shape == shp:
                return
            for i in np.ndindex(*shp):
                w, eps = ephemeris(objarr(t)[i])
                u = unit(th[i], ph[i])
                for k in range(3):
                    ctx.oblige(f'direction to the Sun, {"xyz"[k]}',
                               sym(u[k]) == w[k], 'post', True)
                ctx.oblige('subsolar colatitude in [0, 180]', b_and(
                    core.radians(th[i]) >= 0,
                    core.radians(th[i]) <= core.PI()), 'post', True)
                ctx.oblige('longitude in (-180, 180]', b_and(
                    sym(ph[i]) > -180, sym(ph[i]) <= 180), 'post', True)
                se = core.sin(eps)
                ctx.oblige('declination within the obliquity',
                           u[2]*u[2] <= se*se, 'post', True)
        out.append(verify(f'sun_position {shp} {kind}', body, FS,
                          fail_fast=False))
    return out


@R.contract('times outside of 1901 to 2099 are rejected', FS,
            modes=('proof',))
def rejected(mode, tier):
    out = []
    for shp in ((), (2,), (1, 2)):
        for side in 'lu':
            for where in range(max(1, int(np.prod(shp)))):
                def body(ctx, shp=shp, side=side, where=where):
                    M = load(ctx)
                    ctx.int_pi = True
                    t = reals('t', shp)
                    x = objarr(t).ravel()[where]
                    ctx.assume(x < -36160 if side == 'l' else x >= 36160)
                    st, e = outcome(M.ns['sun_position'], t)
                    post_true(ctx, f'rejected ({e!r})'[:100], st == 'raise'
                              and isinstance(e, (AssertionError,
                                                 ValueError)))
                out.append(verify(f'sun_position {shp} outside ({side}, '
                                  f'{where})', body, FS, fail_fast=False))
    return out


@R.contract('the zenith angle is the angle between the position and the '
            'Sun', FZ, modes=('proof',))
def zenith(mode, tier):
    out = []
    for ts, ps, qs in (((), (), ()), ((2,), (2,), (2,)), ((), (2,), (2,)),
                       ((2,), (), ()), ((2, 1), (1, 2), (1, 2))):
        def body(ctx, ts=ts, ps=ps, qs=qs):
            M = load(ctx)
            s = M.ns['sun_position'] = Sun()
            t, a, b = reals('t', ts), reals('theta', ps), reals('phi', qs)
            sh, es = each(t, a, b)
            for x, y, z in es:
                u, w = sun(x), unit(y, z)
                c = cross(u, w)
                d = dot(u, w)
                # Lagrange: the cosine of an angle is between -1 and 1
                ctx.oblige('lemma', d*d + dot(c, c) == 1, 'lemma', True)
                ctx.assume(b_and(d <= 1, d >= -1))
            st, g = outcome(M.ns['zenith_angle'], t, a, b)
            post_true(ctx, f'angles ({g!r})'[:100], st == 'ok')
            if st != 'ok':
                return
            g = objarr(g)
            post_true(ctx, 'shape', g.shape == sh)
            if g.shape != sh:
                return
            for i, (x, y, z) in zip(np.ndindex(*sh), es):
                q = core.radians(g[i])
                ctx.oblige('cosine of the angle', core.cos(q) == dot(
                    sun(x), unit(y, z)), 'post', True)
                ctx.oblige('angle in [0, 180]', b_and(
                    q >= 0, q <= core.PI()), 'post', True)
        out.append(verify(f'zenith_angle {ts} {ps} {qs}', body, FZ,
                          fail_fast=False))
    return out
