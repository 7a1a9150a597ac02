"""P11: base vectors of the reference systems."""
import numpy as np
from pydv import core, extract
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, b_and, b_or, b_not, sym
from pydv.registry import Registry
from contracts.p10 import fill, unit

R = Registry('P11')
TRUSTED = ['cos, sin, sqrt satisfy their defining identities',
           'numpy cross, norm, stack, roll on the listed shapes',
           'sun_position by its contract (P18): colatitude and longitude of '
           'the Sun with the shape of the time']
ASSUMPTIONS = ['representative shapes of time and dipole stand for all',
               'base vectors where defined: the dipole axis is not parallel '
               'to the Sun (GSM, SM) or to the rotation axis (MAG)']
FU = ['coordinate_utils._dipole_to_unit', 'coordinate_utils.dipole_to_vec',
      'coordinate_utils.igrf_dipole']
FG = ['coordinate_utils.basevectors_gsm', 'coordinate_utils.dipole_to_vec',
      'coordinate_utils._dipole_to_unit',
      'coordinate_utils.spherical_to_cartesian']
FS = ['coordinate_utils.basevectors_sm'] + FG[1:]
FM = ['coordinate_utils.basevectors_mag'] + FG[1:3]
FE = ['coordinate_utils.basevectors_use']
FB = ['coordinate_utils.basevectors_gg']


def dot(a, b):
    return sum((x*y for x, y in zip(a, b)), Sym.const(0))


def cross(a, b):
    return (a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2],
            a[0]*b[1] - a[1]*b[0])


class Sun:
    """Stand-in for sun_position: angles for every time."""

    def __init__(self):
        self.calls = []

    def __call__(self, time):
        t = objarr(time)
        self.calls.append(t)
        th, ph = (np.empty(t.shape, dtype=object) for _ in 'ab')
        for i in np.ndindex(*t.shape):
            th[i] = core.uf('sun_theta', t[i])
            ph[i] = core.uf('sun_phi', t[i])
        return (th, ph) if t.shape else (th[()], ph[()])


def sun(t):
    return unit(core.uf('sun_theta', sym(t)), core.uf('sun_phi', sym(t)))


def load(ctx, dipole=None):
    """The module, with the configured dipole."""
    cfg = ConfigModule({'params.dipole': dipole} if dipole is not None
                       else {})
    M = extract.load('coordinate_utils', {
        'config_utils': cfg, 'basicConfig': cfg.basicConfig})
    s = M.ns['sun_position'] = Sun()
    return M, s


def coeffs(ctx, shape=(3,), name='g'):
    """Dipole coefficients that do not vanish."""
    g = reals(name, shape)
    for i in np.ndindex(*shape[:-1]):
        ctx.assume(dot(g[i], g[i]) > 0)
    return g


def axis(g):
    """Northern dipole axis of g10, g11, h11."""
    n = core.sqrt(dot(g, g))
    return (-g[1]/n, -g[2]/n, -g[0]/n)


def axis_of(g):
    """The axis as any unit vector: its colatitude and longitude are
    functions of the coefficients."""
    g = [sym(x) for x in g]
    return unit(core.uf('dipole_theta', *g), core.uf('dipole_phi', *g))


class Vec:
    """dipole_to_vec by its contract."""

    def __init__(self, cfg):
        self.cfg = cfg

    def __call__(self, dipole=None):
        if dipole is None:
            dipole = self.cfg
        if isinstance(dipole, (tuple, list)):
            if len(dipole) == 1:
                return self(objarr(dipole[0]))
            a = np.broadcast_arrays(*[objarr(x) for x in dipole])
            out = np.empty(a[0].shape + (3,), dtype=object)
            for i in np.ndindex(*a[0].shape):
                v = [x[i] for x in a]
                out[i] = unit(*v) if len(v) == 2 else axis_of(v)
            return out
        g = objarr(dipole)
        out = np.empty(g.shape, dtype=object)
        for i in np.ndindex(*g.shape[:-1]):
            out[i] = axis_of(g[i])
        return out


FORMS = ['coefficients', 'tuple', 'list', 'pole', 'pole list', 'configured',
         'times', 'pole arrays', 'tuple arrays', 'one longitude',
         'one colatitude', 'one g10', 'columns']
MANY = ('times', 'pole arrays', 'tuple arrays', 'one longitude',
        'one colatitude', 'one g10')


def dipole_form(ctx, form, n, axis=axis):
    """(argument, list of axes per time (or one), configured value)."""
    if form == 'columns':
        # coefficients of the shapes (2, 1), (3,) and ()
        a = reals('g10', (2, 1)), reals('g11', (3,)), core.real('h11')
        g = [[x[0], y, a[2]] for x in a[0] for y in a[1]]
        for v in g:
            ctx.assume(v[0]*v[0] + v[1]*v[1] + v[2]*v[2] > 0)
        return a, [axis(v) for v in g], None
    if form in MANY:
        n = n[0] if n else 2
        if form == 'one g10':
            g = coeffs(ctx, (n, 3))
            for v in g[1:]:
                v[0] = g[0, 0]
                ctx.assume(v[0]*v[0] + v[1]*v[1] + v[2]*v[2] > 0)
            return (g[0, 0], g[:, 1], g[:, 2]), [axis(x) for x in g], None
        if form == 'one longitude':
            t, p = reals('td', (n,)), core.real('pd', lo=-180, hi=360)
            return (t, p), [unit(a, p) for a in t], None
        if form == 'one colatitude':
            t, p = core.real('td', lo=0, hi=180), reals('pd', (n,))
            return [t, p], [unit(t, a) for a in p], None
        if form == 'times':
            g = coeffs(ctx, (n, 3))
            return g, [axis(x) for x in g], None
        if form == 'tuple arrays':
            g = coeffs(ctx, (n, 3))
            return (g[:, 0], g[:, 1], g[:, 2]), [axis(x) for x in g], None
        t, p = reals('td', (n,)), reals('pd', (n,))
        return (t, p), [unit(a, b) for a, b in zip(t, p)], None
    if form in ('pole', 'pole list'):
        t, p = core.real('td', lo=0, hi=180), core.real('pd', lo=-180, hi=360)
        a = (t, p)
        return (a if form == 'pole' else list(a)), [unit(t, p)], None
    g = coeffs(ctx)
    if form == 'configured':
        return None, [axis(g)], g
    return {'coefficients': g, 'tuple': tuple(g), 'list': list(g)}[form], \
        [axis(g)], None


@R.contract('a dipole is the unit vector to the northern pole in every form '
            'it can be given', FU, modes=('proof',))
def dipole(mode, tier):
    out = []
    for form in FORMS:
        def body(ctx, form=form):
            arg, axes, cfg = dipole_form(ctx, form, ())
            M, _ = load(ctx, cfg)
            st, v = outcome(M.ns['dipole_to_vec'], arg)
            post_true(ctx, f'a vector ({v!r})'[:100], st == 'ok')
            if st != 'ok':
                return
            v = objarr(v)
            many = form in MANY + ('columns',)
            post_true(ctx, 'shape', v.shape == (
                (2, 3, 3) if form == 'columns' else (2, 3) if many
                else (3,)))
            v = v.reshape(-1, 3) if many else v
            for i, w in enumerate(axes):
                got = v[i] if many else v
                post_eq(ctx, 'northern dipole axis', got, objarr(list(w)))
                ctx.oblige('unit length', dot(got, got) == 1, 'post', True)
        out.append(verify(f'dipole_to_vec of {form}', body, FU,
                          fail_fast=False))

    def igrf(ctx):
        M, _ = load(ctx)
        for e, g in (('2015', (-29442.0, -1501.0, 4797.1)),
                     (None, (-29442.0, -1501.0, 4797.1)), ):
            a = M.ns['igrf_dipole'](e) if e else M.ns['igrf_dipole']()
            post_eq(ctx, 'IGRF-12 dipole', a, objarr(list(axis(
                [Sym.const(x) for x in g]))))
        post_eq(ctx, 'IGRF-11 dipole', M.ns['igrf_dipole']('2010'), objarr(
            list(unit(Sym.const(11.32), Sym.const(289.59)))))
        st, _ = outcome(M.ns['igrf_dipole'], '1900')
        post_true(ctx, 'unknown epoch rejected', st == 'raise')
    out.append(verify('igrf_dipole', igrf, FU, fail_fast=False))

    def bad(ctx):
        M, _ = load(ctx)
        for a in ((), tuple(reals('g', (4,))), (sym(1),)*5):
            st, e = outcome(M.ns['_dipole_to_unit'], *a)
            post_true(ctx, 'number of values', st == 'raise'
                      and isinstance(e, ValueError))
    out.append(verify('dipole of a wrong number of values', bad, FU,
                      fail_fast=False))
    return out


def triad(ctx, b, what=''):
    """Orthonormal and right-handed."""
    for i in range(3):
        for j in range(i, 3):
            ctx.oblige(f'{what}b{i + 1}.b{j + 1} = {int(i == j)}',
                       dot(b[i], b[j]) == int(i == j), 'post', True)
    for k, c in enumerate(cross(b[0], b[1])):
        ctx.oblige(f'{what}right-handed [{k}]', sym(c) == b[2][k], 'post',
                   True)


def frame_case(name, form, tshape, functions):
    def body(ctx):
        arg, axes, cfg = dipole_form(ctx, form, tshape, axis_of)
        M, s = load(ctx, cfg)
        M.ns['dipole_to_vec'] = Vec(cfg)
        many = len(axes) > 1
        f = M.ns[f'basevectors_{name}']
        if name == 'mag':
            shape = (len(axes),) if many else ()
            times = None
            call = (lambda: f(dipole=arg)) if arg is not None else f
        else:
            times = reals('t', tshape)
            shape = tshape
            if many and tshape == ():
                shape = (len(axes),)
            call = (lambda: f(times, dipole=arg)) if arg is not None else (
                lambda: f(times))
        for i in np.ndindex(*shape):
            m = axes[i[0] if many else 0]
            o = (0, 0, 1) if name == 'mag' else sun(
                objarr(times)[i if tshape else ()])
            c = cross([sym(x) for x in o], m)
            ctx.assume(dot(c, c) > 0)
        st, b = outcome(call)
        post_true(ctx, f'base vectors ({b!r})'[:100], st == 'ok'
                  and len(b) == 3)
        if st != 'ok':
            return
        b = [objarr(x) for x in b]
        for k in range(3):
            try:
                b[k] = np.broadcast_to(b[k], shape + (3,))
            except ValueError:
                post_true(ctx, f'shape {b[k].shape} of base vector {k + 1}',
                          False)
                return
        for i in np.ndindex(*shape):
            e = [x[i] for x in b]
            m = axes[i[0] if many else 0]
            triad(ctx, e)
            if name == 'mag':
                post_eq(ctx, 'z along the dipole axis', e[2],
                        objarr(list(m)))
                ctx.oblige('south in the x-z plane', e[1][2] == 0, 'post',
                           True)
                ctx.oblige('south on the side of positive x', -e[0][2] > 0,
                           'post', True)
                continue
            u = sun(objarr(times)[i if tshape else ()])
            if name == 'gsm':
                post_eq(ctx, 'x to the Sun', e[0], objarr(list(u)))
                ctx.oblige('dipole in the x-z plane', dot(e[1], m) == 0,
                           'post', True)
                ctx.oblige('dipole on the side of positive z',
                           dot(e[2], m) > 0, 'post', True)
            else:
                post_eq(ctx, 'z along the dipole axis', e[2],
                        objarr(list(m)))
                ctx.oblige('Sun in the x-z plane', dot(e[1], u) == 0,
                           'post', True)
                ctx.oblige('Sun on the side of positive x',
                           dot(e[0], u) > 0, 'post', True)
    return verify(f'basevectors_{name}, dipole as {form}, time {tshape}',
                  body, functions, fail_fast=False)


def frame(name, functions):
    out = []
    for form in FORMS[:9]:
        for ts in ((), (2,), (1, 2)) if name != 'mag' else ((),):
            if form in ('times', 'pole arrays', 'tuple arrays') and (
                    ts == (1, 2) or ts == () and name != 'mag'):
                continue
            if ts == (1, 2) and form not in ('coefficients', 'pole',
                                             'configured'):
                continue
            out.append(frame_case(name, form, ts, functions))
    return out


@R.contract('GSM: x to the Sun, dipole axis in the x-z half plane of '
            'positive z', FG, modes=('proof',))
def gsm(mode, tier):
    return frame('gsm', FG)


@R.contract('SM: z along the dipole axis, Sun in the x-z half plane of '
            'positive x', FS, modes=('proof',))
def sm(mode, tier):
    return frame('sm', FS)


@R.contract('MAG: z along the dipole axis, geographic south in the x-z half '
            'plane of positive x', FM, modes=('proof',))
def mag(mode, tier):
    return frame('mag', FM)


@R.contract('local spherical base vectors: radial, southward, eastward', FE,
            modes=('proof',))
def use(mode, tier):
    out = []
    for st_, sp in (((), ()), ((2,), (2,)), ((2,), ()), ((), (2,)),
                    ((2, 1), (1, 2))):
        def body(ctx, st_=st_, sp=sp):
            M, _ = load(ctx)
            t, p = reals('theta', st_), reals('phi', sp)
            for x in objarr(t).flat:
                ctx.assume(b_and(x > 0, x < 180))
                ctx.assume(b_and(core.radians(x) > 0,
                                 core.radians(x) < core.PI()))
            st, b = outcome(M.ns['basevectors_use'], t, p)
            post_true(ctx, f'base vectors ({b!r})'[:100], st == 'ok'
                      and len(b) == 3)
            if st != 'ok':
                return
            ta, pa = np.broadcast_arrays(objarr(t), objarr(p))
            b = [objarr(x) for x in b]
            for k in range(3):
                post_true(ctx, 'shape', b[k].shape == ta.shape + (3,))
                if b[k].shape != ta.shape + (3,):
                    return
            for i in np.ndindex(*ta.shape):
                a, c = core.radians(ta[i]), core.radians(pa[i])
                e = [x[i] for x in b]
                post_eq(ctx, 'radial', e[0], objarr(list(unit(ta[i],
                                                              pa[i]))))
                post_eq(ctx, 'southward', e[1], objarr(
                    [core.cos(a)*core.cos(c), core.cos(a)*core.sin(c),
                     -core.sin(a)]))
                post_eq(ctx, 'eastward', e[2], objarr(
                    [-core.sin(c), core.cos(c), Sym.const(0)]))
                triad(ctx, e)
        out.append(verify(f'basevectors_use {st_} {sp}', body, FE,
                          fail_fast=False))

    def poles(ctx):
        M, _ = load(ctx)
        p = core.real('phi')
        for t in (0, 180, [0, 90], [90, 180], [30, 0], [180, 20]):
            st, e = outcome(M.ns['basevectors_use'],
                            objarr(t) if isinstance(t, list) else sym(t), p)
            post_true(ctx, f'not defined at the poles {t}', st == 'raise'
                      and isinstance(e, ValueError))
    out.append(verify('basevectors_use at the poles', poles, FE,
                      fail_fast=False))
    return out


@R.contract('geodetic base vectors: north, east and inward normal', FB,
            modes=('proof',))
def gg(mode, tier):
    out = []
    for st_, sp in (((), ()), ((2,), (2,)), ((2,), ()), ((), (2,)),
                    ((2, 1), (1, 2))):
        def body(ctx, st_=st_, sp=sp):
            M, _ = load(ctx)
            t, be = reals('theta', st_), reals('beta', sp)
            st, b = outcome(M.ns['basevectors_gg'], t, be)
            post_true(ctx, f'base vectors ({b!r})'[:100], st == 'ok'
                      and len(b) == 3)
            if st != 'ok':
                return
            ta, ba = np.broadcast_arrays(objarr(t), objarr(be))
            b = [objarr(x) for x in b]
            for k in range(3):
                post_true(ctx, 'shape', b[k].shape == ta.shape + (3,))
                if b[k].shape != ta.shape + (3,):
                    return
            for i in np.ndindex(*ta.shape):
                a, c = core.radians(ta[i]), core.radians(ba[i])
                e = [x[i] for x in b]
                triad(ctx, e)
                # r and theta directions of both latitudes in the meridian
                # plane (distance from the axis, height)
                r, s = (core.sin(a), core.cos(a)), (core.cos(a),
                                                    -core.sin(a))
                n, d = (core.sin(c), core.cos(c)), (core.cos(c),
                                                    -core.sin(c))
                for k in range(2):
                    def comp(v):
                        return v[0]*r[k] + v[1]*s[k]
                    ctx.oblige('north', comp(e[0]) == -d[k], 'post', True)
                    ctx.oblige('inward normal', comp(e[2]) == -n[k], 'post',
                               True)
                post_eq(ctx, 'east', e[1], objarr([0, 0, 1]))
        out.append(verify(f'basevectors_gg {st_} {sp}', body, FB,
                          fail_fast=False))
    return out
