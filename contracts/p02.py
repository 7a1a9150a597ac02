"""P02: legendre_poly holds the Schmidt functions and their derivatives."""
from pydv import core, extract, spec
from pydv.contract import *       # noqa
from pydv.core import b_and, b_or, sym
from pydv.registry import Registry

R = Registry('P02')
TRUSTED = [
    'textbook recurrences of associated Legendre functions (DLMF 14.10.3, '
    '14.10.5): (n-m)p_n^m = (2n-1)c p_{n-1}^m - (n+m-1)p_{n-2}^m, '
    'p_m^m = (2m-1)s p_{m-1}^{m-1}, p_{m+1}^m = (2m+1)c p_m^m, '
    '2 dp_n^m/dtheta = (n+m)(n-m+1)p_n^{m-1} - p_n^{m+1}',
    'the Legendre recurrences determine P and D (induction over n)']
ASSUMPTIONS = ['theta representative shapes (), (2,) [thorough: (2,1)] '
               'stand for all shapes (the code is elementwise in theta)']
FN = ['model_utils.legendre_poly']


def _load():
    return extract.load('model_utils', {'config_utils': ConfigModule({})})


class Fam(spec.LegendreFamily):
    def __init__(self, shape):
        self.shape = shape

    @property
    def th(self):
        return reals('th', self.shape, 0, 180, assume=False)


def _proof(shape):
    fam = Fam(shape)

    def body(ctx):
        M = _load()
        th = reals('th', shape, 0, 180)
        N = core.integer('nmax', lo=1, hi=9)
        ctx.assume(N >= 1)
        T = M.ns['legendre_poly'](N, th)
        a = core.integer('n', lo=0, hi=9)
        b = core.integer('m', lo=0, hi=9)
        ctx.assume(b_and(a >= 0, a <= N, b >= 0, b <= N + 1,
                         b_or(b <= a, b >= 2)))
        got = T[a, b]
        post_alt(ctx, 'table[n, m] = P_n^m, table[m, n+1] = dP_n^m/dtheta',
                 got, [lambda: fam.value((a, b)),
                       lambda: fam.definition((a, b))])
    return verify(f'legendre_poly, theta of shape {shape}, all nmax', body,
                  FN, family=fam, fail_fast=False)


def _bounded(shape, N):
    def body(ctx):
        M = _load()
        th = reals('th', shape, 0, 180)
        for z, v in ((False, None),):
            T = M.ns['legendre_poly'](N, th)
            if T.shape != (N + 1, N + 2) + shape:
                post_true(ctx, 'shape of the table', False)
                return
            for t in (np.ndindex(*shape) if shape else [()]):
                x = objarr(th)[t]
                c = core.cos(core.radians(x))
                s = core.sin(core.radians(x))
                for n in range(N + 1):
                    for m in range(n + 1):
                        post_eq(ctx, f'P({n},{m})', T[(n, m) + t],
                                spec.P_expl(n, m, c, s))
                        if n:
                            post_eq(ctx, f'dP({n},{m})', T[(m, n + 1) + t],
                                    spec.D_expl(n, m, c, s))
    return verify(f'legendre_poly, theta of shape {shape}, nmax = {N}', body,
                  FN, mode='bounded', bound=f'nmax = {N}, all theta')


@R.contract('legendre_poly table (theta scalar)', FN)
def table0(mode, tier):
    if mode == 'proof':
        return _proof(())
    return [_bounded((), n) for n in ((1, 2, 4, 6) if tier == 'quick'
                                      else (1, 2, 3, 5, 8, 11))]


@R.contract('legendre_poly table (theta array)', FN)
def table1(mode, tier):
    if mode == 'proof':
        return _proof((2,))
    return [_bounded((2,), n) for n in (1, 3)] + [_bounded((2, 1), 2)]


@R.contract('legendre_poly table (theta 2-D)', FN, thorough_only=True)
def table2(mode, tier):
    return _proof((2, 1)) if mode == 'proof' else _bounded((2, 1), 4)


@R.contract('spec: Schmidt recurrences follow from the Legendre recurrences',
            [], modes=('proof',))
def lemmas(mode, tier):
    def rec():
        # u^2 = n-m, v^2 = n+m, w^2 = n-1-m, z^2 = n-1+m
        u, c, p1, p2, S = [core.real(x) for x in ('u', 'c', 'p1', 'p2', 'S')]
        w, z = core.real('w'), core.real('z')
        n = core.real('n')
        m = core.real('m')
        u, v = core.sqrt(n - m), core.sqrt(n + m)
        w, z = core.sqrt(n - 1 - m), core.sqrt(n - 1 + m)
        # S(n) = S, S(n-1) = S v/u, S(n-2) = S v z/(u w)
        pn = ((2*n - 1)*c*p1 - (n + m - 1)*p2)/(n - m)
        lhs = S*pn*u*v
        rhs = (2*n - 1)*c*(S*v/u*p1) - w*z*(S*v*z/(u*w)*p2)
        return lhs, rhs

    def diag():
        # S(m,m)/S(m-1,m-1) = 1/sqrt((2m-1)2m), m >= 2
        m, s, p, S = [core.real(x) for x in ('m', 's', 'p', 'S')]
        Sm = S/(core.sqrt(2*m - 1)*core.sqrt(2*m))
        return Sm*(2*m - 1)*s*p, s*core.sqrt(2*m - 1)*(S*p)/core.sqrt(2*m)

    def sub():
        # S(m+1,m) = S(m,m)/sqrt(2m+1)
        m, c, p, S = [core.real(x) for x in ('m', 'c', 'p', 'S')]
        return S/core.sqrt(2*m + 1)*(2*m + 1)*c*p, c*core.sqrt(2*m+1)*(S*p)

    def ladder():
        # S(n,m-1) = S a, S(n,m+1) = S/b, a^2=(n+m)(n-m+1), b^2=(n+m+1)(n-m)
        n, m, pm, pp, S = [core.real(x) for x in ('n', 'm', 'pm', 'pp', 'S')]
        a = core.sqrt(n + m)*core.sqrt(n - m + 1)
        b = core.sqrt(n + m + 1)*core.sqrt(n - m)
        lhs = S*(a*a*pm - pp)/2
        return lhs, (a*(S*a*pm) - b*(S/b*pp))/2

    def ladder0():
        # m = 0: dp_n^0 = -p_n^1; S(n,1) = sqrt(2/(n(n+1)))
        n, p = core.real('n'), core.real('p')
        r = core.sqrt(n*n + n)
        return -p, -r/core.sqrt(2)*(core.sqrt(2)/r*p)

    def ladder1():
        # m = 1: S(n,0) = 1, S(n,1) = sqrt2/r, S(n,2) = sqrt2/(r q)
        n, p0, p2 = [core.real(x) for x in ('n', 'p0', 'p2')]
        r = core.sqrt(n*n + n)
        q = core.sqrt(n*n + n - 2)
        S1 = core.sqrt(2)/r
        return (S1*((n*n + n)*p0 - p2)/2,
                (core.sqrt(2)*r*p0 - q*(S1/q*p2))/2)

    def ladderN():
        n, p, S = [core.real(x) for x in ('n', 'p', 'S')]
        a = core.sqrt(2*n)
        return S*(2*n)*p/2, a*(S*a*p)/2
    out = [lemma('Schmidt normalisation', [
        ('three-term recurrence', rec), ('diagonal', diag),
        ('sub-diagonal', sub), ('ladder', ladder), ('ladder m=0', ladder0),
        ('ladder m=1', ladder1), ('ladder m=n', ladderN)])]

    def body(ctx):
        th = core.real('th', lo=0, hi=180)
        c, s = core.cos(core.radians(th)), core.sin(core.radians(th))
        N = 8
        tab = {}

        def val(n, m):
            if (n, m) not in tab:
                r = spec.P_def(n, m, th)
                # unfold
                env = {}
                for i in r.atom_ids():
                    at = core.T.atoms[i]
                    if at.fn == 'P':
                        nn, mm = at.args[0].value(), at.args[1].value()
                        env[i] = val(int(nn), int(mm))
                tab[n, m] = core.subst(r, env) if env else r
            return tab[n, m]
        for n in range(N + 1):
            for m in range(n + 1):
                post_eq(ctx, f'P_def({n},{m}) is Rodrigues', val(n, m),
                        spec.P_expl(n, m, c, s))
                if n:
                    d = spec.D_def(n, m, th)
                    env = {}
                    for i in d.atom_ids():
                        at = core.T.atoms[i]
                        if at.fn == 'P':
                            env[i] = val(int(at.args[0].value()),
                                         int(at.args[1].value()))
                    post_eq(ctx, f'D_def({n},{m}) is the derivative',
                            core.subst(d, env), spec.D_expl(n, m, c, s))
    out.append(verify('spec unfolded to degree 8', body, [],
                      fail_fast=False))
    return out
