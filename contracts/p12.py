"""P12: transformation of points and vectors between reference systems."""
import numpy as np
from pydv import core, extract
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, b_and, b_or, b_not, sym
from pydv.registry import Registry
from contracts.p10 import fill, unit
from contracts.p11 import dot

R = Registry('P12')
TRUSTED = ['cos, sin, sqrt, arctan2 satisfy their defining identities',
           'basevectors_gsm/sm/mag by their contract (P11): an orthonormal '
           'right-handed triad, written with three Euler angles that depend '
           'on the time and the dipole',
           'basevectors_use and cartesian_to_spherical by their contracts '
           '(P11, P10)']
ASSUMPTIONS = ['representative shapes of positions and times stand for all',
               'vectors and matrices away from the poles of both systems']
FP = ['coordinate_utils.geo_to_base',
      'coordinate_utils.spherical_to_cartesian']
FT = ['coordinate_utils.transform_points'] + FP
FM = ['coordinate_utils.matrix_geo_to_base']
FV = ['coordinate_utils.transform_vectors'] + FM


def euler(a, b, c):
    """Rows of a rotation matrix: any right-handed orthonormal triad."""
    ca, sa, cb, sb, cc, sc = core.cos(a), core.sin(a), core.cos(b), \
        core.sin(b), core.cos(c), core.sin(c)
    return ((ca*cc - sa*cb*sc, -ca*sc - sa*cb*cc, sa*sb),
            (sa*cc + ca*cb*sc, -sa*sc + ca*cb*cc, -ca*sb),
            (sb*sc, sb*cc, cb))


def triads(name, shape, args=()):
    """base_1, base_2, base_3 of shape + (3,); args(i) -> symbols."""
    b = [np.empty(shape + (3,), dtype=object) for _ in range(3)]
    for i in np.ndindex(*shape):
        x = args(i) if callable(args) else [sym(k) for k in i]
        e = euler(*[core.uf(f'{name}_{q}', *x) if x else core.real(
            f'{name}_{q}') for q in ('a', 'b', 'c')])
        for k in range(3):
            for j in range(3):
                b[k][i + (j,)] = e[k][j]
    return b


def mat(b, v):
    """Components along the base vectors."""
    return [dot(e, v) for e in b]


def mat_t(b, v):
    return [sum((b[k][j]*v[k] for k in range(3)), Sym.const(0))
            for j in range(3)]


def south(t, p):
    t, p = core.radians(t), core.radians(p)
    return (core.cos(t)*core.cos(p), core.cos(t)*core.sin(p), -core.sin(t))


def east(t, p):
    p = core.radians(p)
    return (-core.sin(p), core.cos(p), Sym.const(0))


def local(t, p):
    return (unit(t, p), south(t, p), east(t, p))


def use_contract(theta, phi):
    a = np.broadcast_arrays(objarr(theta), objarr(phi))
    b = [np.empty(a[0].shape + (3,), dtype=object) for _ in range(3)]
    for i in np.ndindex(*a[0].shape):
        for k, v in enumerate(local(a[0][i], a[1][i])):
            b[k][i] = list(v)
    return tuple(b)


def c2s(x, y, z):
    """cartesian_to_spherical by its contract (P10): the angles of the
    direction x, y, z."""
    a = np.broadcast_arrays(*[objarr(v) for v in (x, y, z)])
    out = [np.empty(a[0].shape, dtype=object) for _ in 'rtp']
    for i in np.ndindex(*a[0].shape):
        v = [sym(q[i]) for q in a]
        out[0][i] = core.sqrt(dot(v, v))
        for o, n in zip(out[1:], ('theta', 'phi')):
            o[i] = core.uf('c2s_' + n, *v)
    return tuple(o if o.shape else o[()] for o in out)


class Base:
    """basevectors_* by contract."""

    def __init__(self, name, cfg):
        self.name, self.cfg = name, cfg

    def dip(self, dipole):
        if dipole is None:
            dipole = self.cfg
        if isinstance(dipole, (tuple, list)):
            return [sym(x) for x in dipole]
        return [sym(x) for x in objarr(dipole).flat]

    def __call__(self, time=None, dipole=None):
        if self.name == 'mag':
            if dipole is None and time is not None:
                dipole, time = time, None
            return triads('mag', (), lambda i: self.dip(dipole))
        t = objarr(time)
        return triads(self.name, t.shape,
                      lambda i: [t[i]] + self.dip(dipole))


def load(ctx, cfg=None):
    c = ConfigModule({'params.dipole': cfg} if cfg is not None else {})
    M = extract.load('coordinate_utils', {
        'config_utils': c, 'basicConfig': c.basicConfig})
    M.ns['basevectors_use'] = use_contract
    bs = {n: Base(n, cfg) for n in ('gsm', 'sm')}
    mag = Base('mag', cfg)
    for n, b in bs.items():
        M.ns[f'basevectors_{n}'] = b
    M.ns['basevectors_mag'] = lambda dipole=None: mag(None, dipole)
    bs['mag'] = mag
    return M, bs


SH = [((), (), ()), ((2,), (2,), (2,)), ((2,), (2,), ()), ((), (), (2,)),
      ((2,), (), (2,)), ((2, 1), (1, 2), ()), ((2, 1), (2, 1), (2,))]


def points(ctx, shp):
    """Positions, with angle atoms whose cosines are usable."""
    t = reals('theta', shp[0])
    p = reals('phi', shp[1])
    return t, p


def same_point(ctx, name, t, p, want):
    u = unit(t, p)
    for k in range(3):
        ctx.oblige(f'{name} [{"xyz"[k]}]', u[k] == want[k], 'post', True)


def in_range(ctx, t, p):
    ctx.oblige('colatitude in [0, 180]', b_and(
        core.radians(t) >= 0, core.radians(t) <= core.PI()), 'post', True)
    ctx.oblige('longitude in [-180, 180]', b_and(
        core.radians(p) >= -core.PI(), core.radians(p) <= core.PI()),
        'post', True)


@R.contract('geo_to_base gives the position in the base vectors, its inverse '
            'the geographic position', FP, modes=('proof',))
def rotate_points(mode, tier):
    out = []
    for shp in SH:
        for inv in (None, False, True):
            if inv is False and shp != SH[0]:
                continue

            def body(ctx, shp=shp, inv=inv):
                M, _ = load(ctx)
                M.ns['cartesian_to_spherical'] = c2s
                t, p = points(ctx, shp)
                # any three vectors: the result is a direction
                b = [reals(f'b{k}', shp[2] + (3,)) for k in range(3)]
                kw = {} if inv is None else {'inverse': inv}
                a = np.broadcast_arrays(objarr(t), objarr(p), np.empty(
                    shp[2], dtype=object))
                st, g = outcome(M.ns['geo_to_base'], t, p, *b, **kw)
                post_true(ctx, f'angles ({g!r})'[:90], st == 'ok'
                          and len(g) == 2)
                if st != 'ok':
                    return
                g = [objarr(x) for x in g]
                post_true(ctx, 'shape', all(x.shape == a[0].shape
                                            for x in g))
                if any(x.shape != a[0].shape for x in g):
                    return
                for i in np.ndindex(*a[0].shape):
                    e = [np.broadcast_to(x, a[0].shape + (3,))[i] for x in b]
                    u = unit(a[0][i], a[1][i])
                    w = mat_t(e, u) if inv else mat(e, u)
                    v = c2s(*w)
                    if sym(g[0][i]).key() == v[1].key() and \
                            sym(g[1][i]).key() == v[2].key():
                        post_eq(ctx, 'colatitude of the rotated position',
                                g[0][i], v[1])
                        post_eq(ctx, 'longitude of the rotated position',
                                g[1][i], v[2])
                        continue
                    # on the polar axis of the system or not
                    CTX.fork(b_and(sym(w[0]) == 0, sym(w[1]) == 0))
                    r = core.sqrt(dot(w, w))
                    ctx.assume(dot(w, w) > 0)
                    q = unit(g[0][i], g[1][i])
                    for k in range(3):
                        ctx.oblige(f'direction [{"xyz"[k]}]',
                                   r*q[k] == w[k], 'post', True)
                    in_range(ctx, g[0][i], g[1][i])
            out.append(verify(f'geo_to_base {shp} inverse={inv}', body, FP,
                              fail_fast=False))

    return out


class Geo:
    """geo_to_base by its contract: some angles for every position."""

    def __init__(self):
        self.n = 0
        self.known = {}

    def __call__(self, theta, phi, base_1, base_2, base_3, inverse=None):
        b = [objarr(x) for x in (base_1, base_2, base_3)]
        a = np.broadcast_arrays(objarr(theta), objarr(phi), b[0][..., 0])
        b = [np.broadcast_to(x, a[0].shape + (3,)) for x in b]
        out = [np.empty(a[0].shape, dtype=object) for _ in 'ab']
        for i in np.ndindex(*a[0].shape):
            e = [x[i] for x in b]
            args = [a[0][i], a[1][i]] + [e[k][j] for k in range(3)
                                         for j in range(3)]
            for o, n in zip(out, ('theta', 'phi')):
                o[i] = core.uf(('inv' if inverse else 'fwd') + n, *args)
        return tuple(o if o.shape else o[()] for o in out)


def image(t, p, e, inverse):
    args = [sym(t), sym(p)] + [sym(e[k][j]) for k in range(3)
                               for j in range(3)]
    return [core.uf(('inv' if inverse else 'fwd') + n, *args)
            for n in ('theta', 'phi')]


def rotation(t, p, e, inverse):
    """(new angles, matrix from local components to the new ones)."""
    q = image(t, p, e, inverse)
    old, new = local(t, p), local(*q)
    f = mat_t if inverse else mat
    return q, [[dot(new[i], f(e, old[j])) for j in range(3)]
               for i in range(3)]


@R.contract('matrix_geo_to_base is the matrix between the local components '
            'in both systems, an orthogonal matrix', FM, modes=('proof',))
def matrix(mode, tier):
    out = []
    for shp in SH:
        for inv in (None, False, True):
            if inv is False and shp != SH[0]:
                continue

            def body(ctx, shp=shp, inv=inv):
                M, _ = load(ctx)
                M.ns['geo_to_base'] = Geo()
                t, p = points(ctx, shp)
                b = triads('base', shp[2])
                kw = {} if inv is None else {'inverse': inv}
                a = np.broadcast_arrays(objarr(t), objarr(p), np.empty(
                    shp[2], dtype=object))
                st, g = outcome(M.ns['matrix_geo_to_base'], t, p, *b, **kw)
                post_true(ctx, f'angles and matrix ({g!r})'[:90], st == 'ok'
                          and len(g) == 3)
                if st != 'ok':
                    return
                sh = a[0].shape
                g = [objarr(x) for x in g]
                post_true(ctx, 'shapes', g[0].shape == sh == g[1].shape
                          and g[2].shape == sh + (3, 3))
                if g[2].shape != sh + (3, 3) or g[0].shape != sh or \
                        g[1].shape != sh:
                    return
                for i in np.ndindex(*sh):
                    e = [np.broadcast_to(x, sh + (3,))[i] for x in b]
                    q, m = rotation(a[0][i], a[1][i], e, inv)
                    post_eq(ctx, 'colatitude', g[0][i], q[0])
                    post_eq(ctx, 'longitude', g[1][i], q[1])
                    post_eq(ctx, 'matrix', g[2][i], objarr(m))
                    if i == (0,)*len(sh):
                        for k in range(3):
                            for j in range(k, 3):
                                ctx.oblige('orthogonal', dot(
                                    g[2][i][k], g[2][i][j]) == int(k == j),
                                    'post', True)
            out.append(verify(f'matrix_geo_to_base {shp} inverse={inv}',
                              body, FM, fail_fast=False))
    return out


@R.contract('the transformation keeps the radial component, undoes its '
            'inverse and preserves the physical vector (over the contracts)',
            FV + FP, modes=('proof',))
def algebra(mode, tier):
    def body(ctx):
        # the direction of a unit vector is the unit vector: geo_to_base
        # of an orthonormal triad is the position itself
        a = [core.real(f'e{k}') for k in 'abc']
        e = euler(*a)
        for i in range(3):
            for j in range(3):
                ctx.oblige(f'triad {i}{j}', dot(e[i], e[j]) == int(i == j),
                           'post', True)
        t, p = core.real('theta'), core.real('phi')
        o = local(t, p)
        # B e_r is the new radial direction: components of B e_theta and
        # B e_phi along it vanish, B e_r has length one
        r2 = mat(e, o[0])
        for k in range(3):
            ctx.oblige('radial component unchanged',
                       dot(r2, mat(e, o[k])) == int(k == 0), 'post', True)
        # completeness of the new local directions
        q = [core.real('t2'), core.real('p2')]
        n = local(*q)
        w = [core.real(f'w{k}') for k in range(3)]
        for k in range(3):
            ctx.oblige('the components along the local directions determine '
                       'the vector', sum((dot(n[i], w)*n[i][k]
                                          for i in range(3)),
                                         Sym.const(0)) == w[k], 'post', True)
            ctx.oblige('the transposed matrix undoes the rotation',
                       sym(mat_t(e, mat(e, w))[k]) == w[k], 'post', True)
            ctx.oblige('the rotation undoes the transposed matrix',
                       sym(mat(e, mat_t(e, w))[k]) == w[k], 'post', True)
        ctx.oblige('the length of the vector', dot(mat(e, w), mat(e, w))
                   == dot(w, w), 'post', True)
    return verify('algebra of the rotations', body, FV + FP,
                  fail_fast=False)


NAMES = [('gsm', 'GSM'), ('sm', 'SM'), ('mag', 'MAG')]


def dipoles(ctx, how):
    cfg = reals('cfg', (3,))
    if how == 'configured':
        return cfg, None, list(cfg)
    g = reals('g', (3,))
    if how == 'pole':
        return cfg, (g[0], g[1]), [g[0], g[1]]
    return cfg, g, list(g)


def ref_base(name, t, dip):
    x = [sym(v) for v in dip]
    if name != 'mag':
        x = [sym(t)] + x
    return euler(*[core.uf(f'{name}_{q}', *x) for q in ('a', 'b', 'c')])


@R.contract('transform_points uses the base vectors of the reference system '
            'for the time and the dipole in effect', FT, modes=('proof',))
def tpoints(mode, tier):
    out = []
    for name, up in NAMES:
        for shp in SH[:1] + SH[1:2] + SH[3:4]:
            for how in ('configured', 'given', 'pole'):
                for inv in (None, True, False):
                    def body(ctx, name=name, up=up, shp=shp, how=how,
                             inv=inv):
                        cfg, dip, eff = dipoles(ctx, how)
                        M, _ = load(ctx, cfg)
                        M.ns['geo_to_base'] = Geo()
                        t, p = points(ctx, shp)
                        tm = reals('t', shp[2])
                        kw = {} if inv is None else {'inverse': inv}
                        if dip is not None:
                            kw['dipole'] = dip
                        if name != 'mag':
                            kw['time'] = tm
                        ref = up if inv is None else name
                        st, g = outcome(M.ns['transform_points'], t, p,
                                        reference=ref, **kw)
                        post_true(ctx, f'angles ({g!r})'[:90], st == 'ok'
                                  and len(g) == 2)
                        if st != 'ok':
                            return
                        bs = shp[2] if name != 'mag' else ()
                        a = np.broadcast_arrays(
                            objarr(t), objarr(p),
                            objarr(tm) if name != 'mag' else objarr(0))
                        g = [objarr(x) for x in g]
                        sh = a[0].shape
                        post_true(ctx, 'shape', all(x.shape == sh
                                                    for x in g))
                        if any(x.shape != sh for x in g):
                            return
                        for i in np.ndindex(*sh):
                            e = ref_base(name, a[2][i], eff)
                            q = image(a[0][i], a[1][i], e, inv)
                            post_eq(ctx, 'colatitude', g[0][i], q[0])
                            post_eq(ctx, 'longitude', g[1][i], q[1])
                    out.append(verify(
                        f'transform_points {name} {shp} {how} '
                        f'inverse={inv}', body, FT, fail_fast=False))
    out.append(unknown('transform_points', FT))
    return out


def unknown(f, functions):
    def body(ctx):
        M, _ = load(ctx, reals('cfg', (3,)))
        M.ns['geo_to_base'] = Geo()
        t, p, tm, x, y = (core.real(n) for n in ('theta', 'phi', 't', 'x',
                                                 'y'))
        pos = (t, p) if f == 'transform_points' else (t, p, x, y)
        for ref in ('geo', '', 'gs', 'smm', None, 'GSM ', 3):
            for inv in (None, True):
                st, e = outcome(M.ns[f], *pos, time=tm, reference=ref,
                                inverse=inv)
                post_true(ctx, f'reference {ref!r} is rejected',
                          st == 'raise' and isinstance(e, ValueError))
    return verify(f'{f} of an unknown reference system', body, functions,
                  fail_fast=False)


class Mat:
    """matrix_geo_to_base by its contract."""

    def __call__(self, theta, phi, base_1, base_2, base_3, inverse=None):
        b = [objarr(x) for x in (base_1, base_2, base_3)]
        a = np.broadcast_arrays(objarr(theta), objarr(phi), b[0][..., 0])
        b = [np.broadcast_to(x, a[0].shape + (3,)) for x in b]
        sh = a[0].shape
        q = [np.empty(sh, dtype=object) for _ in 'ab']
        m = np.empty(sh + (3, 3), dtype=object)
        for i in np.ndindex(*sh):
            e = [x[i] for x in b]
            v, m[i] = rotation(a[0][i], a[1][i], e, inverse)
            q[0][i], q[1][i] = v
        return tuple(o if o.shape else o[()] for o in q) + (m,)


@R.contract('transform_vectors gives the components of the same vector along '
            'the new directions', FV, modes=('proof',))
def tvectors(mode, tier):
    out = []
    for name, up in NAMES:
        for shp in SH[:1] + SH[1:2] + SH[3:4]:
            for how in ('configured', 'given', 'pole'):
                for inv in (None, True, False):
                    if shp != SH[0] and (how == 'pole' or inv is False):
                        continue

                    def body(ctx, name=name, up=up, shp=shp, how=how,
                             inv=inv):
                        cfg, dip, eff = dipoles(ctx, how)
                        M, _ = load(ctx, cfg)
                        M.ns['geo_to_base'] = Geo()
                        M.ns['matrix_geo_to_base'] = Mat()
                        t, p = points(ctx, shp)
                        tm = reals('t', shp[2])
                        bs = shp[2] if name != 'mag' else ()
                        a = np.broadcast_arrays(
                            objarr(t), objarr(p),
                            objarr(tm) if name != 'mag' else objarr(0))
                        sh = a[0].shape
                        x, y = reals('Bt', sh), reals('Bp', sh)
                        kw = {} if inv is None else {'inverse': inv}
                        if dip is not None:
                            kw['dipole'] = dip
                        if name != 'mag':
                            kw['time'] = tm
                        ref = up if inv is None else name
                        st, g = outcome(M.ns['transform_vectors'], t, p, x,
                                        y, reference=ref, **kw)
                        post_true(ctx, f'four results ({g!r})'[:90],
                                  st == 'ok' and len(g) == 4)
                        if st != 'ok':
                            return
                        g = [objarr(v) for v in g]
                        post_true(ctx, 'shape', all(v.shape == sh
                                                    for v in g))
                        if any(v.shape != sh for v in g):
                            return
                        for i in np.ndindex(*sh):
                            e = ref_base(name, a[2][i], eff)
                            q = image(a[0][i], a[1][i], e, inv)
                            post_eq(ctx, 'colatitude', g[0][i], q[0])
                            post_eq(ctx, 'longitude', g[1][i], q[1])
                            o, n = local(a[0][i], a[1][i]), local(*q)
                            X, Y = objarr(x)[i], objarr(y)[i]
                            v = [o[1][k]*X + o[2][k]*Y for k in range(3)]
                            w = (mat_t if inv else mat)(e, v)
                            post_eq(ctx, 'component along the colatitude',
                                    g[2][i], dot(n[1], w))
                            post_eq(ctx, 'component along the longitude',
                                    g[3][i], dot(n[2], w))
                    out.append(verify(
                        f'transform_vectors {name} {shp} {how} '
                        f'inverse={inv}', body, FV, fail_fast=False))
    out.append(unknown('transform_vectors', FV))
    return out
