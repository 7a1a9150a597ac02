"""P05: extrapolation of the spline models."""
from pydv import core
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, b_and, b_or, sym
from pydv.npx import SymTable
from pydv.registry import Registry
from contracts import pp

R = Registry('P05')
TRUSTED = ['scipy PPoly by its contract: value, derivative and extend of '
           'piecewise polynomials (contracts/pp.py)',
           'math.factorial']
ASSUMPTIONS = ['first break point < last break point, order >= 1, '
               'derivative order >= 0', 'times are not NaN',
               'representative array shapes stand for all shapes']
FN = ['chaos.Base.synth_coeffs']


class TaylorFam:
    """Invariant of the loop over the Taylor terms of an extension piece."""

    def __init__(self, order, dim, value, lo, hi):
        self.order, self.dim, self.value = order, dim, value
        self.lo, self.hi = lo, hi

    def terms(self, loop):
        def fac(i):
            if CTX.fork(sym(i) == 0):
                return sym(1)
            return core.factorial(sym(i) - 1, None)
        yield '(i - 1)!', fac
        yield 'i!', lambda i: core.factorial(sym(i), None)
        yield '1/i!', lambda i: 1/core.factorial(sym(i), None)

    def tables(self, loop):
        fam = self
        for label, x in (('first', self.lo), ('last', self.hi)):
            class Val:
                timed = True

                def __init__(self, x):
                    self.x = x

                def value(self, ix, i):
                    k = fam.order - 1 - sym(ix[0])
                    if CTX.fork(k < i):
                        return fam.taylor(k, self.x)
                    return objarr([[Sym.const(0)]*fam.dim])
            yield (f'Taylor coefficients about the {label} break point',
                   lambda i, s: True, Val(x))

    def taylor(self, k, x):
        f = core.factorial(k)
        return objarr([[self.value(d, k, x)/f for d in range(self.dim)]])


def extract_factorial(k):
    import math
    return math.factorial(int(sym(k).value()))


class Fam:
    f = None

    def terms(self, loop):
        return self.f.terms(loop) if self.f else []

    def tables(self, loop):
        return self.f.tables(loop) if self.f else []


METHODS = [(None, 2), ('linear', 2), ('quadratic', 3), ('cubic', 4),
           ('constant', 1), ('spline', 'order'), ('off', 0), (False, 0),
           (True, 2), ('int', 'int')]
NAMES = {None: 'default', 'int': 'a number of terms'}


def case(method, terms, tshape, N=None, sub=None, budget=240):
    """Base.synth_coeffs for times anywhere."""
    fam = Fam()

    def body(ctx):
        stub = pp.make_stub()
        M = pp.load_chaos(ctx, stub)
        dim = 2
        if N is None:
            order = core.integer('order', lo=1, hi=6)
            pieces = core.integer('pieces', lo=1, hi=5)
            ctx.assume(b_and(order >= 1, pieces >= 1))
            C = pp.model_table(order, pieces, dim)
            deriv = core.integer('deriv', lo=0, hi=3)
            ctx.assume(deriv >= 0)
        else:
            order, pieces, deriv = N
            C = pp.model_table(order, pieces, dim)
        lo, hi = core.real('start', lo=-10, hi=10), core.real('end', lo=11,
                                                              hi=40)
        ctx.assume(lo < hi)
        br = pp.Breaks(sym(pieces), lo, hi)
        t = reals('t', tshape)
        ex = method
        nterm = terms
        if method == 'int':
            if N is None:
                ex = nterm = core.integer('terms', lo=0, hi=7)
                ctx.assume(ex >= 0)
            else:
                ex = nterm = next((j for j in range(7) if CTX.choose()), 7)
        if nterm == 'order':
            nterm = order
        nterm = sym(nterm)
        key = nterm if CTX.fork(nterm <= order) else sym(order)
        bval = lambda d, k, x: pp.base_value('', (d,), k, x, order)
        fam.f = TaylorFam(sym(order), dim, bval, lo, hi)
        obj = object.__new__(M.ns['Base'])
        obj.__dict__.update(name='m', breaks=br, pieces=pieces, order=order,
                            coeffs=C, dim=dim, meta=None)
        kw = {} if method is None else {'extrapolate': ex}
        if N is not None and deriv == 0 and sub == 'default':
            got = M.ns['Base'].synth_coeffs(obj, t, **kw)
        else:
            got = M.ns['Base'].synth_coeffs(obj, t, deriv=deriv, **kw)
        got = objarr(got)
        post_true(ctx, 'shape: times plus one coefficient axis',
                  got.shape == tshape + (dim,))
        if got.shape != tshape + (dim,):
            return
        scale = core.pow_sym(core.sym(365.25), sym(deriv))
        outside = False
        T = objarr(t)
        nd = sym(deriv)
        used = set()
        for i in np.ndindex(*tshape):
            x = T[i]
            if CTX.fork(b_and(x >= lo, x <= hi)):
                want = [bval(d, nd, x) for d in range(dim)]
            else:
                outside = True
                left = CTX.fork(x < lo)
                o = lo if left else hi
                if CTX.fork(key <= 0):
                    want = [pp.NAN()]*dim
                elif N is None:
                    # polynomial whose coefficients are checked below
                    w = 'pre' if left else 'post'
                    used.add(w)
                    want = [core.uf(f'XV{w}_{d}', nd, x - o)
                            for d in range(dim)]
                else:
                    kk = int(key.value()) if key.value() is not None else \
                        next(j for j in range(order + 1)
                             if CTX.fork(key == j))
                    want = []
                    for d in range(dim):
                        s = Sym.const(0)
                        for k in range(deriv, kk):
                            s = s + bval(d, k, o)/extract_factorial(k) * \
                                pp.falling(k, deriv)*(x - o)**(k - deriv)
                        want.append(s)
            for d in range(dim):
                post_eq(ctx, f'coefficient {d} at time {list(i)}',
                        got[i + (d,)], want[d]*scale, refutable=N is not None)
        if outside:
            post_true(ctx, 'a warning is issued', len(ctx.warned) > 0)
        # the extension pieces are the truncated Taylor polynomials
        for p in stub.made:
            post_true(ctx, 'break points of the model', p.x is br)
            for w in ('pre', 'post'):
                q = getattr(p, w)
                if q is None or w not in used or N is not None:
                    continue
                o = lo if w == 'pre' else hi
                z = objarr([[Sym.const(0)]*dim])
                k = core.integer('k', lo=0, hi=6)
                ctx.assume(b_and(k >= 0, k < order))
                if CTX.fork(k < key):
                    kv = sym(key).value()
                    if kv is not None:
                        k = next(j for j in range(int(kv))
                                 if j == kv - 1 or CTX.fork(k == j))
                    want = fam.f.taylor(k, o)
                else:
                    want = z
                e = q.table[sym(order) - 1 - k]
                post_eq(ctx, f'Taylor coefficient of the piece ({w})', e,
                        want, refutable=False)
            # the polynomial evaluated is the model's
            if isinstance(C, SymTable):
                a, b = core.integer('a'), core.integer('b')
                ctx.assume(b_and(a >= 0, a < order, b >= 0, b < pieces))
                post_eq(ctx, 'coefficients of the model are evaluated',
                        p.c[a, b], C[a, b], refutable=False)
            else:
                post_eq(ctx, 'coefficients of the model are evaluated',
                        p.c, C)
        if N is None:
            for w in used:
                post_true(ctx, f'extension piece ({w}) exists',
                          any(getattr(p, w) for p in stub.made))
    return verify(f'Base.synth_coeffs, extrapolate {NAMES.get(method, method)}'
                  f', times {tshape}' + (f', (order, pieces, deriv) = {N}'
                                         if N else ''), body, FN, family=fam,
                  mode='proof' if N is None else 'bounded', fail_fast=False,
                  budget=budget, max_paths=3000,
                  bound='' if N is None else f'(order, pieces, deriv) = {N}, '
                  'all coefficients, break points and times')


def _reg(method, terms, tshape, small):
    @R.contract(f'synth_coeffs, extrapolate {NAMES.get(method, method)}, '
                f'times {tshape}', FN)
    def f(mode, tier):
        if mode == 'proof':
            return case(method, terms, tshape)
        return [case(method, terms, tshape, N=n) for n in small]


for _m, _k in METHODS:
    _reg(_m, _k, (), [(1, 1, 0), (2, 2, 0), (2, 1, 1), (4, 2, 0), (4, 2, 1),
                      (6, 1, 2), (6, 3, 0)])
_reg('linear', 2, (2,), [(1, 1, 0), (3, 2, 1)])
_reg('spline', 'order', (2,), [(1, 1, 0), (3, 2, 1)])
_reg('off', 0, (2,), [(1, 1, 0), (3, 2, 1)])
_reg(None, 2, (1, 2), [(1, 1, 0), (3, 2, 1)])


@R.contract('synth_coeffs rejects an unknown method', FN, modes=('proof',))
def unknown(mode, tier):
    def body(ctx):
        stub = pp.make_stub()
        M = pp.load_chaos(ctx, stub)
        order, pieces = core.integer('order'), core.integer('pieces')
        ctx.assume(b_and(order >= 1, pieces >= 1))
        lo, hi = core.real('start'), core.real('end')
        ctx.assume(lo < hi)
        t = core.real('t')
        ctx.assume(b_or(t < lo, t > hi))
        obj = object.__new__(M.ns['Base'])
        obj.__dict__.update(name='m', breaks=pp.Breaks(pieces, lo, hi),
                            pieces=pieces, order=order, dim=2, meta=None,
                            coeffs=pp.model_table(order, pieces, 2))
        st, _ = outcome(M.ns['Base'].synth_coeffs, obj, t,
                        extrapolate='quartic')
        post_true(ctx, 'raises an error', st == 'raise')
    return verify('unknown method', body, FN, fail_fast=False)
