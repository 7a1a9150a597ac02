"""P13: geodetic and geocentric coordinates."""
import numpy as np
from pydv import core, extract
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, b_and, b_or, b_not, sym
from pydv.registry import Registry
from contracts.p10 import fill, each
from pydv.engine import _bkey as engine_key

R = Registry('P13')
TRUSTED = ['cos, sin, tan, arctan2, sqrt and the cube root satisfy their '
           'defining identities and ranges']
ASSUMPTIONS = ['representative shapes stand for all',
               'semi-axes a > b > 0 (the sphere a = b is the replay oracle)',
               'points outside of the deep interior (evolute of the '
               'ellipsoid)',
               'poles and equator: the proof is in exact arithmetic; rounding '
               'there is examined by the replay oracle only']
FF = ['coordinate_utils.gg_to_geo', 'coordinate_utils.basevectors_gg']
FB = ['coordinate_utils.geo_to_gg', 'coordinate_utils.basevectors_gg']


def load(ctx, a, b):
    cfg = ConfigModule({'params.ellipsoid': objarr([a, b])})
    return extract.load('coordinate_utils', {
        'config_utils': cfg, 'basicConfig': cfg.basicConfig})


def axes(ctx):
    """Semi-axes a > b > 0, written as b = a sqrt(1 - m), 0 < m < 1."""
    a = core.real('a', lo=0)
    m = core.real('m', lo=0, hi=1)
    ctx.assume(b_and(a > 0, b_and(m > 0, m < 1)))
    b = a*core.sqrt(1 - m)
    ctx.assume(b > 0)
    return a, b, m


def inside(x, lo=0, hi=180):
    """An angle strictly between two bounds, also in radians."""
    return b_and(b_and(x > lo, x < hi), b_and(
        core.radians(x) > core.radians(sym(lo)),
        core.radians(x) < core.radians(sym(hi))))


@R.contract('gg_to_geo gives the point at the height along the normal of '
            'the ellipsoid', FF, modes=('proof',))
def forward(mode, tier):
    out = []
    for hs, bs in (((), ()), ((2,), (2,)), ((), (2,)), ((2, 1), (1, 2))):
        for vec in (False, True):
            if vec and hs == (2, 1):
                continue

            def body(ctx, hs=hs, bs=bs, vec=vec):
                a, b, m = axes(ctx)
                M = load(ctx, a, b)
                h, be = reals('h', hs), reals('beta', bs)
                sh, es = each(h, be)
                pts = []
                for x, y in es:
                    ctx.assume(inside(y))
                    s, c = core.sin(core.radians(y)), core.cos(
                        core.radians(y))
                    ctx.assume(s > 0)
                    D2 = a*a*s*s + b*b*c*c
                    ctx.oblige('lemma', D2 > 0, 'lemma', True)
                    ctx.assume(D2 > 0)
                    D = core.sqrt(D2)
                    # outside of the deep interior
                    ctx.assume(x*D + b*b > 0)
                    ctx.assume(x*D + a*a > 0)
                    pts.append(((a*a + x*D)*s/D, (b*b + x*D)*c/D, s, c))
                args = [h, be]
                if vec:
                    vs = tuple(np.broadcast_shapes(hs, bs))
                    X, Z = reals('X', vs), reals('Z', vs)
                    args += [X, Z]
                st, g = outcome(M.ns['gg_to_geo'], *args)
                post_true(ctx, f'coordinates ({g!r})'[:100], st == 'ok'
                          and len(g) == (4 if vec else 2))
                if st != 'ok':
                    return
                g = [objarr(v) for v in g]
                # the angle depends on both the height and the latitude
                post_true(ctx, 'shapes', all(v.shape == sh for v in g))
                if not all(v.shape == sh for v in g):
                    return
                for i, (rho, z, s, c) in zip(np.ndindex(*sh), pts):
                    r, t = g[0][i], core.radians(g[1][i])
                    st_, ct = core.sin(t), core.cos(t)
                    ctx.oblige('radius is the distance', r*r == rho*rho
                               + z*z, 'post', True)
                    ctx.oblige('radius is positive', r > 0, 'post', True)
                    ctx.oblige('direction of the point', ct*rho == st_*z,
                               'post', True)
                    ctx.oblige('on the right side of the axis', st_ > 0,
                               'post', True)
                    if vec:
                        x, y = objarr(X)[i], objarr(Z)[i]
                        # north and down in the meridional plane
                        n, d = (-c, s), (-s, -c)
                        br = x*(n[0]*st_ + n[1]*ct) + y*(d[0]*st_ + d[1]*ct)
                        bt = x*(n[0]*ct - n[1]*st_) + y*(d[0]*ct - d[1]*st_)
                        ctx.oblige('outward component', g[2][i] == br,
                                   'post', True)
                        ctx.oblige('southward component', g[3][i] == bt,
                                   'post', True)
            out.append(verify(f'gg_to_geo {hs} {bs}'
                              + (' with vectors' if vec else ''), body, FF,
                              fail_fast=False))
    return out


class Lemma:
    """A universally quantified fact, proved once and used by instance."""

    def __init__(self, name, vars, hyps, concl):
        self.name, self.vars, self.hyps, self.concl = name, vars, hyps, concl

    def prove(self, functions):
        def body(ctx):
            v = {n: core.real('l_' + n) for n in self.vars.split()}
            for h in self.hyps(**v):
                ctx.assume(h)
            for k, c in enumerate(self.concl(**v)):
                ctx.oblige(f'{self.name} [{k}]', c, 'post', True)
        return verify(f'lemma: {self.name}', body, functions,
                      fail_fast=False)

    def use(self, pt, by, names, **v):
        for h in self.hyps(**v):
            pt.oblige(f'premise of {self.name}', h, by)
        for n, c in zip(names.split(), self.concl(**v)):
            pt.know(n, c)


CUBE = Lemma('sum of a cube root and its inverse', 'c s w',
             lambda c, s, w: [c >= 0, s > 0, s*s*s == w,
                              w*w - 2*(1 + c)*w + 1 == 0],
             lambda c, s, w: [
                 (s*s + s + 1)*(s*s + s + 1)*(s*s - 2*s + 1) == 2*c*s*s*s])
CUBIC = Lemma(
    'equation of P', 'c s G P m r F',
    lambda c, s, G, P, m, r, F: [
        s > 0, G > 0, c*G*G*G == m*m*F*r*r, F >= 0,
        (s*s + s + 1)*(s*s + s + 1)*(s*s - 2*s + 1) == 2*c*s*s*s,
        3*P*(s*s + s + 1)*(s*s + s + 1)*G*G == F*s*s],
    lambda c, s, G, P, m, r, F: [
        P >= 0, 3*s*(G + 2*m*m*r*r*P) == (s*s + s + 1)*G,
        27*P*(G + 2*m*m*r*r*P)*(G + 2*m*m*r*r*P) == F])
ROOT = Lemma(
    'position of the root', 'r w Q M X',
    lambda r, w, Q, M, X: [
        r > 0, w >= 0, Q >= 1, M > 0, X == r*r*Q*Q + w - M*M, X > 0,
        (Q*Q - 1)*X*X == 4*M*M*w],
    lambda r, w, Q, M, X: [
        Q*X < X + 2*M*M,
        (Q - 1)*(r*r*Q*Q + w) - M*M*(Q + 1) < 0,
        (Q + 1)*(r*r*Q*Q - M*M) + (Q - 1)*w > 0])
# the positive root y of y^2 + r (Q - 1) y + k, k < 0 < r^2 Q + k
BETWEEN = Lemma(
    'the root lies between zero and the radius', 'r Q k y S',
    lambda r, Q, k, y, S: [
        r > 0, Q >= 1, k < 0, r*r*Q + k > 0, S > 0,
        4*S*S == r*r*(Q - 1)*(Q - 1) - 4*k, 2*y == 2*S - r*(Q - 1)],
    lambda r, Q, k, y, S: [y > 0, y < r, y*y + r*(Q - 1)*y + k == 0])
QUARTIC = Lemma(
    'equation of the foot point', 'r w Q M y',
    lambda r, w, Q, M, y: [
        r > 0, w >= 0, Q >= 1, M > 0, y > 0, y < r,
        (Q*Q - 1)*(r*r*Q*Q + w - M*M)*(r*r*Q*Q + w - M*M) == 4*M*M*w,
        2*Q*y*y + 2*Q*r*(Q - 1)*y + (Q - 1)*(r*r*Q*Q + w)
        - M*M*(Q + 1) == 0],
    lambda r, w, Q, M, y: [y*y*((r - y)*(r - y) + w)
                           == M*M*(r - y)*(r - y)])
UNIQUE = Lemma(
    'one foot point only', 'r w a m x y',
    lambda r, w, a, m, x, y: [
        r > 0, w >= 0, a > 0, m > 0, m < 1, x > 0, y > 0, m*x < r, m*y < r,
        x*x*((r - m*x)*(r - m*x) + w) == a*a*(r - m*x)*(r - m*x),
        y*y*((r - m*y)*(r - m*y) + w) == a*a*(r - m*y)*(r - m*y)],
    lambda r, w, a, m, x, y: [x == y])
LEMMAS = [CUBE, CUBIC, ROOT, BETWEEN, QUARTIC, UNIQUE]


@R.contract('lemmas: closed solution of the foot point equation', FB,
            modes=('proof',))
def lemmas(mode, tier):
    return [x.prove(FB) for x in LEMMAS]


class Cut:
    """Ghost assertion: where the code assigns the stated value, its proved
    properties are kept and the term itself is forgotten."""

    def __init__(self, name, spec, act):
        self.name, self.spec, self.act = name, spec, act
        self.used = False
        self.fn = act

    def __call__(self, x):
        s = self.spec()
        if s is None:
            return None
        if isinstance(s, Sym) and not (x - s).num:
            if not self.used:
                self.used = True
                self.value = self.act()
            return self.value
        return None


class Point:
    """Ghost assertions for one point outside of the axis.

    Facts carry names; an assertion is proved from the facts it names
    (all of them on the path)."""
    NAMES = ('rho', 'z', 'G', 'c', 's', 'P', 'Q', 'r0', 'V')

    def __init__(self, ctx, k, R, theta, a, m):
        self.ctx, self.a, self.m = ctx, a, m
        t = core.radians(theta)
        self.v, self.k, self.f = {}, k, {}
        self.spec = {'rho': R*core.sin(t), 'z': R*core.cos(t)}
        r, z = self.spec['rho'], self.spec['z']
        self.know('am', b_and(a > 0, b_and(m > 0, m < 1)))
        self.know('r > 0', r > 0)
        # outside of the deep interior
        self.know('outside', r*r + (1 - m)*z*z - m*m*a*a > 0)
        self.cuts = [Cut(n, lambda n=n: self.spec.get(n),
                         getattr(self, 'a_' + n)) for n in self.NAMES]

    def know(self, name, cond):
        self.ctx.assume(cond)
        self.f.setdefault(name, []).append(cond)

    def oblige(self, name, cond, by=None):
        """An obligation from the named facts (default: all)."""
        o = self.ctx.obls
        self.ctx.oblige(name, cond, 'lemma', True)
        if by is not None:
            hyps = [h for n in by.split() for h in self.f[n]]
            path = {id(h) for h in self.ctx.hyps} | {
                engine_key(h) for h in self.ctx.hyps}
            for h in hyps:
                assert id(h) in path or engine_key(h) in path or h is True
            o[-1].hyps = tuple(h for h in hyps if h is not True)

    def post(self, name, cond, points):
        """A postcondition for this point, from all facts on the path but
        the ghost assertions of the other points."""
        o = self.ctx.obls
        self.ctx.oblige(name, cond, 'post', True)
        drop = {id(h) for p in points if p is not self
                for hs in p.f.values() for h in hs}
        o[-1].hyps = tuple(h for h in o[-1].hyps if id(h) not in drop)

    def step(self, name, cond, by=None):
        """Assert: prove, then use."""
        self.oblige(name, cond, by)
        self.know(name, cond)

    def fresh(self, n, v):
        """A name for a value."""
        x = self.v[n] = core.real(f'{n}_{self.k}')
        self.know(n + '=', x == v)
        return x

    def forget(self, n, by, **facts):
        """Replace the value of n by a fresh one with the same facts."""
        v = self.spec[n]
        x = self.v[n] = core.real(f'{n}_{self.k}')
        for k, f in facts.items():
            self.oblige(k, f(v), by)
            self.know(k, f(x))
        return x

    def a_rho(self):
        v = self.spec['rho']
        self.f['rho'] = self.f['r > 0']
        return self.forget('rho', 'rho', rho=lambda x: x > 0,
                           rho_def=lambda x: x == v)

    def a_z(self):
        v = self.spec['z']
        z = self.forget('z', '', z_def=lambda x: x == v)
        r, a, m = self.v['rho'], self.a, self.m
        self.step('G0', r*r + (1 - m)*z*z - m*m*a*a > 0)
        w = self.w = core.real(f'w_{self.k}')
        self.know('w=', w == (1 - m)*z*z)
        M = self.M = core.real(f'M_{self.k}')
        self.know('M=', M == m*a)
        self.F = 54*a*a*(1 - m)*z*z
        self.step('w', w >= 0, 'w= am')
        self.step('M', M > 0, 'M= am')
        self.step('F', self.F >= 0, 'am')
        self.spec['G'] = r*r + (1 - m)*z*z - m*m*a*a
        return z

    def a_G(self):
        v, m, r = self.spec['G'], self.m, self.v['rho']
        G = self.forget('G', 'G0', G=lambda x: x > 0, G_def=lambda x: x == v)
        self.step('G=', G == r*r + self.w - self.M*self.M,
                  'G_def w= M=')
        self.spec['c'] = m*m*self.F*r*r/G**3
        return G

    def a_c(self):
        m, r, G, F = self.m, self.v['rho'], self.v['G'], self.F
        self.step('num', m*m*F*r*r >= 0, 'F am rho')
        self.step('G3', G**3 > 0, 'G')
        c = self.forget('c', 'num G3', c=lambda x: x >= 0,
                        c_def=lambda x: x*G*G*G == m*m*F*r*r)
        self.step('rad', c*c + 2*c >= 0, 'c')
        q = core.sqrt(c*c + 2*c)
        self.step('q', q >= 0, 'rad')
        self.step('wc', 1 + c + q >= 1, 'q c')
        self.spec['s'] = core.cbrt(1 + c + q)
        return c

    def a_s(self):
        c, v = self.v['c'], self.spec['s']
        CUBE.use(self, 'c q wc rad', 'cube', c=c, s=v,
                 w=1 + c + core.sqrt(c*c + 2*c))
        s = self.forget('s', 'cube wc', s=lambda s: s > 0, cube_=lambda s: (
            s*s + s + 1)*(s*s + s + 1)*(s*s - 2*s + 1) == 2*c*s*s*s)
        G = self.v['G']
        self.step('ss', s*s + s + 1 > 0, 's')
        self.step('den', (s*s + s + 1)**2*G*G > 0, 'ss G')
        self.spec['P'] = self.F*s*s/(3*(s*s + s + 1)**2*G*G)
        return s

    def a_P(self):
        r, s, G, c, m, F = self.v['rho'], self.v['s'], self.v['G'], \
            self.v['c'], self.m, self.F
        P = self.forget('P', 'den', P_def=lambda P: 3*P*(s*s + s + 1)*(
            s*s + s + 1)*G*G == F*s*s)
        CUBIC.use(self, 's G c_def F cube_ P_def', 'P kG cubic',
                  c=c, s=s, G=G, P=P, m=m, r=r, F=F)
        self.step('Q2', 1 + 2*m*m*P >= 1, 'P am')
        self.step('fac', G + 2*m*m*r*r*P > 0, 'P G')
        self.spec['Q'] = core.sqrt(1 + 2*m*m*P)
        return P

    def a_Q(self):
        r, w, M, m, a, P, G = self.v['rho'], self.w, self.M, self.m, \
            self.a, self.v['P'], self.v['G']
        Q = self.forget('Q', 'Q2', Q=lambda Q: Q >= 1,
                        Q_def=lambda Q: Q*Q == 1 + 2*m*m*P)
        x = self.fresh('X', G + 2*m*m*r*r*P)
        self.step('X', x > 0, 'X= fac')
        self.step('Xr', x == r*r*Q*Q + w - M*M, 'X= Q_def G=')
        self.step('eq1', 27*P*x*x == 54*M*M*w/(m*m), 'cubic X= w= M= am')
        self.step('eqP', 2*m*m*P*x*x == 4*M*M*w, 'eq1 am')
        self.step('eqQ', (Q*Q - 1)*x*x == 4*M*M*w, 'eqP Q_def')
        ROOT.use(self, 'rho w Q M X Xr eqQ', 'root1 root2 root3', r=r, w=w,
                 Q=Q, M=M, X=x)
        # constant of the quadratic factor, radicand of the root
        k = self.v['k'] = core.real(f'k_{self.k}')
        self.know('k=', 2*Q*k == (Q - 1)*(r*r*Q*Q + w) - M*M*(Q + 1))
        self.step('k', k < 0, 'k= root2 Q')
        self.step('k3', r*r*Q + k > 0, 'k= root3 Q')
        z = self.v['z']
        A = a*a*(1 + 1/Q)/2 - P*(1 - m)*z*z/(Q*(1 + Q)) - P*r*r/2
        N, D = Sym(A.num), Sym(A.den)
        self.step('D', D > 0, 'Q')
        v = self.v['A'] = core.real(f'A_{self.k}')
        self.know('A=', v == A)
        self.step('PQ', 2*m*m*P == (Q - 1)*(Q + 1), 'Q_def')
        self.step('ND', N == v*D, 'A= D')
        # the radicand in terms of Q alone
        self.step('A2', 4*m*m*v*Q*(1 + Q) == 2*M*M*(Q + 1)*(Q + 1)
                  - 2*(Q - 1)*(Q + 1)*w - (Q - 1)*(Q + 1)*Q*(1 + Q)*r*r,
                  'A= PQ M= w= Q D')
        self.step('A3', 4*m*m*v == r*r*(Q - 1)*(Q - 1) - 4*k, 'A2 k= Q')
        self.step('A4', r*r*(Q - 1)*(Q - 1) - 4*k > 0, 'k')
        self.step('A5', 4*m*m*v > 0, 'A3 A4')
        self.step('A', v > 0, 'A5 am')
        self.step('N', N > 0, 'A ND D')
        self.step('N*D', N*D > 0, 'N D')
        self.step('A0', A > 0, 'N D')
        S = self.spec['S'] = core.sqrt(A)
        self.step('S0', S > 0, 'N*D D A0 N')
        self.step('S1', S*S == A, 'D N')
        self.forget('S', 'S0 S1 A=', S=lambda x: x > 0,
                    S2=lambda x: x*x == v, S_def=lambda x: x == S)
        self.spec['r0'] = -P*m*r/(1 + Q) + S
        return Q

    def a_r0(self):
        r, w, M, m, a, Q, k, S, P = self.v['rho'], self.w, self.M, self.m, \
            self.a, self.v['Q'], self.v['k'], self.v['S'], self.v['P']
        y = self.fresh('y', m*self.spec['r0'])
        T = self.fresh('T', m*S)
        self.step('T', T > 0, 'T= S am')
        self.step('T2', 4*T*T == r*r*(Q - 1)*(Q - 1) - 4*k, 'T= S2 A3')
        self.step('y1', y == T - P*m*m*r/(1 + Q), 'y= T= S_def Q')
        self.step('y2', 2*y == 2*T - r*(Q - 1), 'y1 PQ Q')
        BETWEEN.use(self, 'rho Q k k3 T T2 y2', 'y0 yr yf', r=r, Q=Q, k=k,
                    y=y, S=T)
        self.step('yq', 2*Q*y*y + 2*Q*r*(Q - 1)*y
                  + (Q - 1)*(r*r*Q*Q + w) - M*M*(Q + 1) == 0, 'yf k=')
        X = self.v['X']
        self.step('eqR', (Q*Q - 1)*(r*r*Q*Q + w - M*M)*(r*r*Q*Q + w - M*M)
                  == 4*M*M*w, 'eqQ Xr')
        QUARTIC.use(self, 'rho w Q M y0 yr eqR yq', 'quartic', r=r, w=w,
                    Q=Q, M=M, y=y)
        q = self.fresh('q', r - y)
        self.step('q', b_and(q > 0, q < r), 'q= y0 yr')
        self.step('quart', (r - q)*(r - q)*(q*q + w) == M*M*q*q,
                  'quartic q=')
        z = self.v['z']
        self.step('quartz', (r - q)*(r - q)*(q*q + (1 - m)*z*z)
                  == m*m*a*a*q*q, 'quart w= M=')
        self.step('qw', q*q + (1 - m)*z*z > 0, 'q w w=')
        self.step('qz', q*q + z*z > 0, 'q')
        self.spec['V'] = core.sqrt(q*q + (1 - m)*z*z)
        return (r - q)/m

    def a_V(self):
        r, m, a, q = self.v['rho'], self.m, self.a, self.v['q']
        v, x = self.spec['V'], a*q*m/(r - q)
        self.step('V1', x > 0, 'q am')
        self.step('V2', v*v == x*x, 'quartz qw q')
        self.step('V3', v > 0, 'qw')
        self.step('V4', v == x, 'V1 V2 V3')
        return x


def inverse_case(rs, ts, vec):
    def body(ctx):
        a, b, m = axes(ctx)
        M = load(ctx, a, b)
        R, th = reals('radius', rs), reals('theta', ts)
        sh, es = each(R, th)
        pts = []
        for k, (x, t) in enumerate(es):
            ctx.assume(x > 0)
            ctx.assume(inside(t))
            ctx.assume(core.sin(core.radians(t)) > 0)
            pts.append(Point(ctx, k, x, t, a, m))
        ctx.cuts = [c for p in pts for c in p.cuts]
        args = [R, th]
        if vec:
            vs = tuple(np.broadcast_shapes(rs, ts))
            Br, Bt = reals('Br', vs), reals('Bt', vs)
            args += [Br, Bt]
        st, g = outcome(M.ns['geo_to_gg'], *args)
        if st == 'ok' and not all(c.used for p in pts for c in p.cuts):
            raise Unsupported('the intermediate values '
                              + ', '.join(c.name for p in pts
                                          for c in p.cuts if not c.used)
                              + ' do not occur')
        ctx.cuts = None
        post_true(ctx, f'coordinates ({g!r})'[:100], st == 'ok'
                  and len(g) == (4 if vec else 2))
        if st != 'ok':
            return
        g = [objarr(v) for v in g]
        post_true(ctx, 'shapes', all(v.shape == sh for v in g))
        if not all(v.shape == sh for v in g):
            return
        for i, p, (x, t) in zip(np.ndindex(*sh), pts, es):
            h, be = g[0][i], core.radians(g[1][i])
            r, z = p.v['rho'], p.v['z']
            s, c = core.sin(be), core.cos(be)
            f = (r - h*s, z - h*c)
            p.post('foot point on the ellipsoid', b*b*f[0]*f[0]
                       + a*a*f[1]*f[1] == a*a*b*b, pts)
            p.post('along the normal of the ellipsoid', f[1]*a*a*s
                       == f[0]*b*b*c, pts)
            p.post('outward', b_and(s > 0, f[0] > 0), pts)
            # the domain in which the geodetic coordinates are unique
            p.post('the near foot point', m*f[0] < r, pts)
            p.post('colatitude in (0, 180)', b_and(
                be > 0, be < core.PI()), pts)
            if vec:
                u, v = objarr(Br)[i], objarr(Bt)[i]
                st_, ct = core.sin(core.radians(t)), core.cos(
                    core.radians(t))
                n, d = (-c, s), (-s, -c)
                p.post('northward component', g[2][i]
                           == u*(st_*n[0] + ct*n[1])
                           + v*(ct*n[0] - st_*n[1]), pts)
                p.post('downward component', g[3][i]
                           == u*(st_*d[0] + ct*d[1])
                           + v*(ct*d[0] - st_*d[1]), pts)
    return verify(f'geo_to_gg {rs} {ts}' + (' with vectors' if vec else ''),
                  body, FB, fail_fast=False)


for _n, _c in enumerate((((), (), False), ((), (), True),
                         ((2,), (2,), False), ((), (2,), True))):
    R.contract('geo_to_gg gives the height and the colatitude of the normal '
               f'through the point: {_c[0]} {_c[1]}'
               + (' with vectors' if _c[2] else ''), FB, modes=('proof',))(
                   lambda mode, tier, c=_c: inverse_case(*c))


@R.contract('geo_to_gg at the poles: height above the pole', FB,
            modes=('proof',))
def pole(mode, tier):
    out = []
    for north in (True, False):
        for vec in (False, True):
            def body(ctx, north=north, vec=vec):
                a, b, m = axes(ctx)
                M = load(ctx, a, b)
                x = core.real('radius', lo=0)
                ctx.assume(x > 0)
                # outside of the deep interior
                w, k = (1 - m)*x*x, m*m*a*a
                ctx.assume(w - k > 0)

                def flat(v):
                    """Roots known in closed form at the poles."""
                    for sq, root in (((w + k)**2/(w - k)**2,
                                      (w + k)/(w - k)), (w, b*x/a)):
                        if isinstance(v, Sym) and not (
                                v - core.sqrt(sq)).num:
                            ctx.oblige('root', b_and(root >= 0, root*root
                                                     == sq), 'lemma', True)
                            ctx.assume(v == root)
                            return root
                ctx.cuts = [flat]
                args = [x, sym(0) if north else sym(180)]
                if vec:
                    args += [core.real('Br'), core.real('Bt')]
                st, g = outcome(M.ns['geo_to_gg'], *args)
                ctx.cuts = None
                post_true(ctx, f'coordinates ({g!r})'[:100], st == 'ok'
                          and len(g) == (4 if vec else 2))
                if st != 'ok':
                    return
                post_eq(ctx, 'height above the pole', g[0], x - b)
                post_eq(ctx, 'colatitude of the pole', g[1],
                        sym(0 if north else 180))
                if vec:
                    post_eq(ctx, 'northward component', g[2], -args[3])
                    post_eq(ctx, 'downward component', g[3], -args[2])
            out.append(verify('geo_to_gg ' + ('north' if north else 'south')
                              + ' pole' + (' with vectors' if vec else ''),
                              body, FB, fail_fast=False))
    return out
