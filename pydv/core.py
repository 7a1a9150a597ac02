"""Symbolic reals: exact rational functions over atoms, with path forking.

A `Sym` is num/den, two multivariate polynomials with rational coefficients
over *atoms*.  An atom is a variable or the application of a function symbol
(cos, sin, sqrt, ...) to Syms.  Polynomials are kept reduced modulo the
defining relations  sin(x)^2 = 1 - cos(x)^2,  sqrt(p)^2 = p,  cbrt(p)^3 = p,
so two Syms denote the same function modulo these relations iff the
cross-multiplied difference is the zero polynomial ("ring" back end).  All
other reasoning (inequalities, path feasibility, equalities under hypotheses)
is translated to z3/cvc5, where function applications stay uninterpreted and
come with the facts recorded in `Atom.facts`.
"""
import itertools
import math
import random
from fractions import Fraction
import z3
import numpy as _np


class Unsupported(BaseException):
    """Construct outside of the verified subset (result: undecided)."""


class PathEnd(BaseException):
    """Path finished (assumption false or loop iteration checked)."""


# ----------------------------------------------------------------- atoms

class Atom:
    __slots__ = ('id', 'name', 'fn', 'args', 'is_int', 'rule', 'facts',
                 'z3', 'sample', 'lo', 'hi', 'depth')

    def __repr__(self):
        if self.fn is None:
            return self.name
        return f"{self.fn}({', '.join(map(repr, self.args))})"


CONST_FNS = {'cos', 'sin', 'sqrt', 'cbrt', 'arctan2', 'arccos', 'arcsin',
             'arctan', 'floor', 'exp', 'log'}


class AtomTable:
    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = []
        self.by_key = {}
        self.fns = {}

    def var(self, name, is_int=False):
        key = ('var', name, is_int)
        a = self.by_key.get(key)
        if a is None:
            a = self._new(name, None, (), is_int)
            a.z3 = z3.Int(name) if is_int else z3.Real(name)
            self.by_key[key] = a
        return a

    def app(self, fn, args, is_int=False):
        """args: tuple of Sym (or hashables)."""
        key = (fn, tuple(a.key() if isinstance(a, Sym) else a for a in args))
        a = self.by_key.get(key)
        new = a is None
        if new:
            a = self._new(None, fn, tuple(args), is_int)
            tag = '_'.join(str(x) for x in args if not isinstance(x, Sym))
            nm = fn + ('_' + tag if tag else '')
            rs = z3.IntSort() if is_int else z3.RealSort()
            if fn in CONST_FNS:
                # elementary functions: one constant per normal form (facts
                # are attached to the atom; congruence by hash consing)
                a.z3 = z3.Const(f'{nm}!{a.id}', rs)
            else:
                zargs = [to_z3(x) for x in args if isinstance(x, Sym)]
                if zargs:
                    fkey = (nm, tuple(str(x.sort()) for x in zargs))
                    f = self.fns.get(fkey)
                    if f is None:
                        f = z3.Function('_'.join((nm,) + fkey[1]),
                                        *[x.sort() for x in zargs], rs)
                        self.fns[fkey] = f
                    a.z3 = f(*zargs)
                else:
                    a.z3 = z3.Const(nm, rs)
            self.by_key[key] = a
        return a, new

    def _new(self, name, fn, args, is_int):
        a = Atom()
        a.id = len(self.atoms)
        a.name, a.fn, a.args, a.is_int = name, fn, args, is_int
        a.rule = None
        a.facts = []
        a.sample = None
        a.lo = a.hi = None
        a.depth = 1 + max([0] + [self.atoms[i].depth for x in args
                                 if isinstance(x, Sym) for i in x.atom_ids()])
        self.atoms.append(a)
        return a


T = AtomTable()


# ----------------------------------------------------------- polynomials
# poly: dict {mono: coef}, mono: tuple of (atom_id, exp) sorted; coef int or
# Fraction (normalised to int when integral).

ONE = {(): 1}
ZERO = {}


def _nc(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def p_add(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + (c if k == 1 else k*c)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = _nc(v)
    return r


def p_scale(p, k):
    if k == 0:
        return {}
    if k == 1:
        return p
    return {m: _nc(c*k) for m, c in p.items()}


_mono_cache = {}


def m_mul(a, b):
    """Product of two monomials as a reduced poly."""
    if not a:
        return {b: 1}
    if not b:
        return {a: 1}
    key = (a, b) if a <= b else (b, a)
    r = _mono_cache.get(key)
    if r is not None:
        return r
    d = dict(a)
    red = None
    for i, e in b:
        d[i] = d.get(i, 0) + e
    atoms = T.atoms
    for i, e in d.items():
        rule = atoms[i].rule
        if rule is not None and e >= rule[0]:
            if red is None or atoms[i].depth > atoms[red].depth:
                red = i
    if red is None:
        r = {tuple(sorted(d.items())): 1}
    else:
        n, rep = atoms[red].rule
        e = d.pop(red)
        base = tuple(sorted(d.items()))
        # base may itself be reducible: multiply step by step
        r = p_mul({base: 1} if not _reducible(base) else _reduce(base),
                  p_pow(rep, e // n))
        if e % n:
            r = p_mul(r, {((red, e % n),): 1})
    _mono_cache[key] = r
    return r


def _reducible(m):
    return any(T.atoms[i].rule is not None and e >= T.atoms[i].rule[0]
               for i, e in m)


def _reduce(m):
    r = ONE
    for i, e in m:
        rule = T.atoms[i].rule
        if rule is not None and e >= rule[0]:
            f = p_pow(rule[1], e // rule[0])
            if e % rule[0]:
                f = p_mul(f, {((i, e % rule[0]),): 1})
        else:
            f = {((i, e),): 1}
        r = p_mul(r, f)
    return r


TERM_LIMIT = [60000]


def p_mul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if not p:
        return {}
    if len(p) == 1 and () in p:
        return p_scale(q, p[()])
    if len(p)*len(q) > 4*TERM_LIMIT[0]:
        raise Unsupported('polynomial too large')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c = c1*c2
            for m, k in m_mul(m1, m2).items():
                v = r.get(m, 0) + c*k
                if v == 0:
                    r.pop(m, None)
                else:
                    r[m] = v
    if len(r) > TERM_LIMIT[0]:
        raise Unsupported('polynomial too large')
    return {m: _nc(c) for m, c in r.items()}


def p_pow(p, n):
    r = ONE
    b = p
    while n:
        if n & 1:
            r = p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_const(p):
    """Constant value or None."""
    if not p:
        return 0
    if len(p) == 1 and () in p:
        return p[()]
    return None


def _order(m):
    return (sum(e for _, e in m), m)


def _lead(p):
    """Leading monomial in a graded lexicographic order on exponents."""
    best = None
    for m in p:
        k = (sum(e for _, e in m), _lexkey(m))
        if best is None or k > best[0]:
            best = (k, m)
    return best[1]


def _lexkey(m):
    # lexicographic comparison with smaller atom id more significant
    return tuple((-i, e) for i, e in m)


def p_divexact(p, q):
    """p / q if q divides p as plain polynomials, else None."""
    c = p_const(q)
    if c is not None:
        return p_scale(p, Fraction(1, 1)/c) if c else None
    if not p:
        return {}
    if len(q) > len(p)*8 + 8:
        return None
    # quick check of total degrees
    lq = _lead(q)
    dq = dict(lq)
    lc = q[lq]
    r = dict(p)
    quo = {}
    steps = 0
    while r:
        steps += 1
        if steps > 400:
            return None
        lr = _lead(r)
        dr = dict(lr)
        d = {}
        ok = True
        for i, e in dq.items():
            if dr.get(i, 0) < e:
                ok = False
                break
        if not ok:
            return None
        for i, e in dr.items():
            k = e - dq.get(i, 0)
            if k:
                d[i] = k
        m = tuple(sorted(d.items()))
        cc = _nc(Fraction(r[lr]) / lc)
        quo[m] = _nc(quo.get(m, 0) + cc)
        # subtract cc*m*q without relation reduction (plain products)
        for mm, c2 in q.items():
            e = dict(mm)
            for i, k in d.items():
                e[i] = e.get(i, 0) + k
            m3 = tuple(sorted(e.items()))
            v = r.get(m3, 0) - cc*c2
            if v == 0:
                r.pop(m3, None)
            else:
                r[m3] = _nc(v)
        if len(r) > 5000:
            return None
    return quo


def p_content_monomial(p):
    it = iter(p)
    common = dict(next(it))
    for m in it:
        if not common:
            break
        d = dict(m)
        for i in list(common):
            k = min(common[i], d.get(i, 0))
            if k:
                common[i] = k
            else:
                del common[i]
    return common


def p_key(p):
    return frozenset(p.items())


def p_div_mono(p, common):
    r = {}
    for m, c in p.items():
        d = dict(m)
        for i, e in common.items():
            d[i] -= e
            if not d[i]:
                del d[i]
        r[tuple(sorted(d.items()))] = c
    return r


def p_content(p):
    """Positive rational c such that p/c is primitive with integer coefs."""
    num = 0
    den = 1
    for c in p.values():
        c = Fraction(c)
        num = math.gcd(num, abs(c.numerator))
        den = den*c.denominator // math.gcd(den, c.denominator)
    return Fraction(num, den)


def p_sqrt(p):
    """q with q*q == p as plain polynomials or None."""
    if not p:
        return {}
    l = _lead(p)
    c = Fraction(p[l])
    if c < 0 or any(e % 2 for _, e in l):
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a*a != c.numerator or b*b != c.denominator:
        return None
    lead = tuple((i, e//2) for i, e in l)
    q = {lead: _nc(Fraction(a, b))}
    for _ in range(12):
        r = p_add(p, _plain_mul(q, q), -1)
        if not r:
            return q
        lr = _lead(r)
        d = dict(lr)
        for i, e in lead:
            if d.get(i, 0) < e:
                return None
            d[i] -= e
            if not d[i]:
                del d[i]
        m = tuple(sorted(d.items()))
        if m in q:
            return None
        q[m] = _nc(Fraction(r[lr]) / (2*q[lead]))
    return None


def _plain_mul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            d = dict(m1)
            for i, e in m2:
                d[i] = d.get(i, 0) + e
            m = tuple(sorted(d.items()))
            v = r.get(m, 0) + c1*c2
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = _nc(v)
    return r


# --------------------------------------------------------------- constants

def to_frac(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return _nc(x)
    if isinstance(x, _np.bool_):
        return int(x)
    if isinstance(x, _np.integer):
        return int(x)
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported('nan/inf constant')
        return _nc(Fraction(repr(x)))
    return None


# ------------------------------------------------------------------- Sym

_intval = {}


def int_valued(p):
    """Is a polynomial with rational coefficients in integer variables an
    integer everywhere?  (Decided on all residues of the denominator.)"""
    k = frozenset(p.items())
    if k in _intval:
        return _intval[k]
    D = 1
    for c in p.values():
        if not isinstance(c, int):
            d = Fraction(c).denominator
            D = D*d//math.gcd(D, d)
    ids = sorted({i for m in p for i, _ in m})
    r = False
    if D**len(ids) <= 1000:
        q = [(m, int(Fraction(c)*D)) for m, c in p.items()]
        r = True
        for v in itertools.product(range(D), repeat=len(ids)):
            v = dict(zip(ids, v))
            t = 0
            for m, c in q:
                for i, e in m:
                    c *= v[i]**e
                t += c
            if t % D:
                r = False
                break
    _intval[k] = r
    return r


class Sym:
    __slots__ = ('num', 'den', '_key')
    shape = ()
    ndim = 0
    size = 1
    dtype = _np.dtype(float)

    def __init__(self, num, den=ONE):
        self.num = num
        self.den = den
        self._key = None

    # -- construction
    @staticmethod
    def make(num, den=ONE):
        if den is ONE:
            return Sym(num)
        if not num:
            return Sym({})
        c = p_const(den)
        if c is not None:
            if c == 0:
                raise ZeroDivisionError
            return Sym(p_scale(num, Fraction(1)/c) if c != 1 else num)
        q = p_divexact(num, den)
        if q is not None:
            return Sym(q)
        cn, cd = p_content_monomial(num), p_content_monomial(den)
        common = {i: min(e, cd[i]) for i, e in cn.items() if i in cd}
        if common:
            num, den = p_div_mono(num, common), p_div_mono(den, common)
            c = p_const(den)
            if c is not None:
                return Sym(p_scale(num, Fraction(1)/c))
        if len(num) > 1:
            q = p_divexact(den, num)
            if q is not None:
                num, den = ONE, q
        # normalise sign/content of the denominator
        c = p_content(den)
        if den[_lead(den)] < 0:
            c = -c
        if c != 1:
            num, den = p_scale(num, 1/c), p_scale(den, 1/c)
        return Sym(num, den)

    @staticmethod
    def const(c):
        c = to_frac(c)
        return Sym({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Sym({((a.id, 1),): 1})

    def key(self):
        if self._key is None:
            self._key = (p_key(self.num), p_key(self.den))
        return self._key

    def __hash__(self):
        return hash(self.key())

    def value(self):
        if self.den is ONE or self.den == ONE:
            return p_const(self.num)
        return None

    def is_int(self):
        if self.den is not ONE and self.den != ONE:
            return False
        at = T.atoms
        frac = False
        for m, c in self.num.items():
            if not isinstance(c, int):
                frac = True
            for i, e in m:
                if not at[i].is_int or e < 0:
                    return False
        return not frac or int_valued(self.num)

    def atom_ids(self):
        s = set()
        for p in (self.num, self.den):
            for m in p:
                for i, _ in m:
                    s.add(i)
        return s

    # -- arithmetic
    def __add__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        if self.den is o.den or self.den == o.den:
            if self.den is ONE or self.den == ONE:
                return Sym(p_add(self.num, o.num))
            return Sym.make(p_add(self.num, o.num), self.den)
        if o.den == ONE:
            return Sym.make(p_add(self.num, p_mul(o.num, self.den)), self.den)
        if self.den == ONE:
            return Sym.make(p_add(o.num, p_mul(self.num, o.den)), o.den)
        q = p_divexact(self.den, o.den)
        if q is not None:
            return Sym.make(p_add(self.num, p_mul(o.num, q)), self.den)
        q = p_divexact(o.den, self.den)
        if q is not None:
            return Sym.make(p_add(o.num, p_mul(self.num, q)), o.den)
        return Sym.make(p_add(p_mul(self.num, o.den), p_mul(o.num, self.den)),
                        p_mul(self.den, o.den))
    __radd__ = __add__

    def __neg__(self):
        return Sym(p_scale(self.num, -1), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o + (-self)

    def __mul__(self, o):
        if isinstance(o, complex):
            return SComplex(self*o.real, self*o.imag)
        if type(o) is list:
            from .npx import list_repeat
            return list_repeat(o, self)
        o = coerce(o)
        if o is NotImplemented:
            return o
        if (self.den is ONE or self.den == ONE) and (
                o.den is ONE or o.den == ONE):
            return Sym(p_mul(self.num, o.num))
        # cross cancellation
        n1, d1, n2, d2 = self.num, self.den, o.num, o.den
        if d2 != ONE:
            q = p_divexact(n1, d2)
            if q is not None:
                n1, d2 = q, ONE
        if d1 != ONE:
            q = p_divexact(n2, d1)
            if q is not None:
                n2, d1 = q, ONE
        return Sym.make(p_mul(n1, n2), p_mul(d1, d2))
    __rmul__ = __mul__

    def inv(self):
        if not self.num:
            raise ZeroDivisionError('division by zero')
        CTX.nonzero(self)
        return Sym.make(self.den, self.num)

    def __truediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        c = o.value()
        if c is not None:
            if c == 0:
                raise ZeroDivisionError('division by zero')
            return Sym(p_scale(self.num, Fraction(1)/c), self.den)
        return self * o.inv()

    def __rtruediv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return o * self.inv()

    def __pow__(self, o):
        if isinstance(o, Sym):
            v = o.value()
            if v is not None:
                o = v
            else:
                return pow_sym(self, o)
        o = to_frac(o)
        if o is None:
            return NotImplemented
        if isinstance(o, int):
            if o >= 0:
                return Sym.make(p_pow(self.num, o), p_pow(self.den, o))
            return self.inv() ** (-o)
        if o == Fraction(1, 2):
            return sqrt(self)
        if o == Fraction(-1, 2):
            return 1/sqrt(self)
        if abs(o - Fraction(1, 3)) < Fraction(1, 10**12):
            return cbrt(self)
        if o.denominator == 2:
            return sqrt(self)**o.numerator
        raise Unsupported(f'power {o}')

    def __rpow__(self, o):
        return pow_sym(coerce(o), self)

    def __floordiv__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return floor(self / o)

    def __rfloordiv__(self, o):
        return floor(coerce(o) / self)

    def __mod__(self, o):
        o = coerce(o)
        if o is NotImplemented:
            return o
        return self - o*floor(self / o)

    def __rmod__(self, o):
        o = coerce(o)
        return o - self*floor(o / self)

    def __divmod__(self, o):
        return self // o, self % o

    def __abs__(self):
        v = self.value()
        if v is not None:
            return Sym.const(abs(v))
        if self >= 0:
            return self
        return -self

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = coerce(o)
        if o is NotImplemented:
            return o
        d = self - o
        v = d.value()
        if v is not None:
            return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0,
                    '==': v == 0, '!=': v != 0}[op]
        return SBool(op, d)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, '!=')

    def __bool__(self):
        return bool(self != 0)

    def __int__(self):
        v = self.value()
        if v is None:
            raise Unsupported('int() of symbolic value')
        return int(v)

    def __index__(self):
        v = self.value()
        if v is None or not isinstance(v, int):
            raise Unsupported('symbolic value used as index')
        return v

    def __float__(self):
        v = self.value()
        if v is None:
            raise Unsupported('float() of symbolic value')
        return float(v)

    def __repr__(self):
        return fmt(self)

    def __format__(self, spec):
        h = CTX.format_hook
        if h is not None:
            return h(self, spec)
        return fmt(self)

    # -- numpy scalar look-alike
    @property
    def real(self): return self
    @property
    def imag(self): return Sym.const(0)
    @property
    def T(self): return self

    def conjugate(self): return self
    conj = conjugate

    def astype(self, t):
        if t in (int, _np.int64):
            return trunc(self)
        return self

    def copy(self): return self
    def item(self): return self

    def all(self): return bool(self)
    def any(self): return bool(self)

    def reshape(self, *shape):
        return _arr0(self).reshape(*shape)

    def squeeze(self): return self

    def ravel(self): return _arr0(self).reshape(1)
    flatten = ravel

    def __getitem__(self, key):
        return _arr0(self)[key]

    # methods used by NumPy's object loops
    def cos(self): return cos(self)
    def sin(self): return sin(self)
    def tan(self): return tan(self)
    def sqrt(self): return sqrt(self)
    def arctan2(self, x): return arctan2(self, coerce(x))
    def arctan(self): return arctan(self)
    def arccos(self): return arccos(self)
    def arcsin(self): return arcsin(self)
    def radians(self): return radians(self)
    deg2rad = radians
    def degrees(self): return degrees(self)
    rad2deg = degrees
    def floor(self): return floor(self)
    def __floor__(self): return floor(self)
    def ceil(self): return -floor(-self)
    def __ceil__(self): return -floor(-self)
    def __trunc__(self): return trunc(self)
    def rint(self): return floor(self + Fraction(1, 2))
    def __round__(self, n=None):
        if n:
            raise Unsupported('round to digits')
        return floor(self + Fraction(1, 2))
    def square(self): return self*self
    def exp(self): return _uf('exp', self)
    def log(self): return _uf('log', self)
    def isnan(self): return False
    def isfinite(self): return True


def _arr0(s):
    a = _np.empty((), dtype=object)
    a[()] = s
    return a


def coerce(o):
    if isinstance(o, Sym):
        return o
    c = to_frac(o)
    if c is None:
        if isinstance(o, SBool):
            return Sym.const(1) if o else Sym.const(0)
        if isinstance(o, _np.ndarray) and o.shape == () and o.dtype != object:
            return coerce(o[()])
        return NotImplemented
    return Sym({(): c} if c else {})


def sym(o):
    r = coerce(o)
    if r is NotImplemented:
        raise Unsupported(f'not a number: {type(o).__name__}')
    return r


def fmt(s, limit=6):
    def pp(p):
        out = []
        for m, c in list(p.items())[:limit]:
            f = '*'.join(repr(T.atoms[i]) + (f'^{e}' if e > 1 else '')
                         for i, e in m)
            out.append(f'{c}' + (f'*{f}' if f else ''))
        if len(p) > limit:
            out.append(f'...({len(p)} terms)')
        return ' + '.join(out) or '0'
    if s.den == ONE:
        return pp(s.num)
    return f'({pp(s.num)})/({pp(s.den)})'


# ------------------------------------------------------------- SBool

class SBool:
    __slots__ = ('op', 'a')
    shape = ()
    ndim = 0

    def __init__(self, op, a):
        self.op = op      # comparison of Sym a with 0, or 'and'/'or'/'not'
        self.a = a

    def z3(self):
        if self.op == 'and':
            return z3.And(*[b_z3(x) for x in self.a])
        if self.op == 'or':
            return z3.Or(*[b_z3(x) for x in self.a])
        if self.op == 'not':
            return z3.Not(b_z3(self.a))
        if self.op == 'z3':
            return self.a
        return _cmp_z3(self.op, self.a)

    def __bool__(self):
        return CTX.fork(self)

    def __and__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return self if o else False
        if not isinstance(o, SBool):
            return NotImplemented
        return SBool('and', (self, o))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, _np.bool_)):
            return True if o else self
        if not isinstance(o, SBool):
            return NotImplemented
        return SBool('or', (self, o))
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def any(self): return bool(self)
    def all(self): return bool(self)

    def __repr__(self):
        if self.op == 'not':
            return f'not({self.a!r})'
        if self.op in ('and', 'or'):
            return f'({(" "+self.op+" ").join(map(repr, self.a))})'
        if self.op == 'z3':
            return str(self.a)
        return f'{self.a!r} {self.op} 0'


_NEG = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}


def b_not(b):
    if isinstance(b, (bool, _np.bool_)):
        return not b
    if b.op in _NEG:
        return SBool(_NEG[b.op], b.a)
    if b.op == 'not':
        return b.a
    return SBool('not', b)


def b_and(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, _np.bool_)):
            if not b:
                return False
            continue
        out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else SBool('and', tuple(out))


def b_or(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, _np.bool_)):
            if b:
                return True
            continue
        out.append(b)
    if not out:
        return False
    return out[0] if len(out) == 1 else SBool('or', tuple(out))


def b_imp(a, b):
    return b_or(b_not(a), b)


def b_z3(b):
    if isinstance(b, (bool, _np.bool_)):
        return z3.BoolVal(bool(b))
    return b.z3()


def b_atoms(b, acc):
    if isinstance(b, (bool, _np.bool_)):
        return acc
    if b.op in ('and', 'or'):
        for x in b.a:
            b_atoms(x, acc)
    elif b.op == 'not':
        b_atoms(b.a, acc)
    elif b.op != 'z3':
        acc |= b.a.atom_ids()
    return acc


# ---------------------------------------------------------- z3 translation

_zcache = {}


def p_z3(p, force_real=False):
    """Polynomial to z3 (Int sort if all integral and not forced)."""
    at = T.atoms
    isint = not force_real
    if isint:
        for m, c in p.items():
            if not isinstance(c, int) or any(not at[i].is_int for i, _ in m):
                isint = False
                break
    terms = []
    for m, c in sorted(p.items(), key=lambda t: t[0]):
        fs = []
        for i, e in m:
            z = at[i].z3
            if at[i].is_int and not isint:
                z = z3.ToReal(z)
            fs.extend([z]*e)
        if isint:
            t = z3.IntVal(c)
        else:
            c = Fraction(c)
            t = z3.Q(c.numerator, c.denominator)
        for f in fs:
            t = f if (t is not None and z3.is_rational_value(t)
                      and t.as_fraction() == 1) or (
                          z3.is_int_value(t) and t.as_long() == 1) else t*f
        terms.append(t)
    if not terms:
        return z3.IntVal(0) if isint else z3.RealVal(0)
    return z3.Sum(terms) if len(terms) > 1 else terms[0]


def to_z3(s, force_real=False):
    if s.den == ONE:
        return p_z3(s.num, force_real)
    return p_z3(s.num, True) / p_z3(s.den, True)


def _cmp_z3(op, d):
    n = d.num
    if d.den != ONE:
        if op in ('==', '!='):
            z = p_z3(n)
        else:
            z = p_z3(p_mul(n, d.den))   # same sign as n/den (den != 0)
    else:
        c = p_content(n)
        z = p_z3(p_scale(n, 1/c) if c != 1 else n)
    return {'<': z < 0, '<=': z <= 0, '>': z > 0, '>=': z >= 0,
            '==': z == 0, '!=': z != 0}[op]


# -------------------------------------------------------- function symbols

def _uf(name, *args, is_int=False, facts=None):
    args = tuple(sym(a) for a in args)
    a, new = T.app(name, args, is_int)
    if new and facts:
        facts(a)
    return Sym.atom(a)


def uf(name, *args, is_int=False):
    """Uninterpreted function symbol of a specification."""
    a, _ = T.app(name, tuple(x if isinstance(x, (Sym, str)) else sym(x)
                             for x in args), is_int)
    return Sym.atom(a)


def factorial(k, small=(1,)):
    """k! for k >= 0."""
    k = sym(k)
    v = k.value()
    if v is not None:
        return Sym.const(math.factorial(max(int(v), 0)))
    small = getattr(CTX.cur, 'small_factorial', small)
    for n in () if small is None else (0,) + tuple(small):
        if CTX.fork(k == n):
            keep = getattr(CTX.cur, 'assume', None)
            if keep:
                keep(k == n)        # also if decided: for substitution
            return Sym.const(math.factorial(n))
    return _factorial(k)


def _factorial(k):
    v = k.value()
    if v is not None:
        return Sym.const(math.factorial(max(int(v), 0)))
    c = 0
    if k.den is ONE or p_const(k.den) is not None:
        c = k.num.get((), 0)
        c = math.floor(c)
    q = k - c       # without constant: (q + c)! = q! (q + 1) ... (q + c)
    r = uf('factorial', q)
    for j in range(1, c + 1):
        r = r*(q + j)
    for j in range(c + 1, 1):
        r = r/(q + j)
    return r


def real(name, sample=None, lo=None, hi=None):
    a = T.var(name)
    if sample is not None:
        a.sample = sample
    a.lo, a.hi = lo, hi
    return Sym.atom(a)


def integer(name, sample=None, lo=None, hi=None):
    a = T.var(name, True)
    if sample is not None:
        a.sample = sample
    a.lo, a.hi = lo, hi
    return Sym.atom(a)


def PI():
    a = T.var('PI')
    if not a.facts:
        a.sample = lambda rng: math.pi
        a.facts = [a.z3 > z3.Q(314159265358979, 10**14),
                   a.z3 < z3.Q(314159265358980, 10**14)]
    return Sym.atom(a)


def radians(x):
    return sym(x)*PI()/180


def degrees(x):
    return sym(x)*180/PI()


def _prime_sqrt(n):
    """sqrt of a positive int as Sym: integer * product of sqrt(prime)."""
    out = 1
    r = Sym.const(1)
    d = 2
    while d*d <= n:
        e = 0
        while n % d == 0:
            n //= d
            e += 1
        if e:
            out *= d**(e//2)
            if e % 2:
                r = r*_sqrt_atom({(): d})
        d += 1
    if n > 1:
        r = r*_sqrt_atom({(): n})
    return r*out


def _sqrt_atom(p):
    s = Sym(p)
    a, new = T.app('sqrt', (s,))
    if new:
        a.rule = (2, p)
        z = p_z3(p, True)
        a.facts = [a.z3 >= 0, z3.Implies(z >= 0, a.z3*a.z3 == z)]
    return Sym.atom(a)


def _sum_of_squares(i):
    a = T.atoms[i]
    if a.fn != 'SUM' or a.args[1].den != ONE:
        return False
    return all(c > 0 and all(e % 2 == 0 for _, e in m)
               for m, c in a.args[1].num.items())


def sqrt(x):
    x = sym(x)
    v = x.value()
    if v is not None:
        if v < 0:
            raise Unsupported('sqrt of negative constant')
        v = Fraction(v)
        if v == 0:
            return Sym.const(0)
        if v.denominator == 1:
            return _prime_sqrt(v.numerator)
        return _prime_sqrt(v.numerator*v.denominator)/v.denominator
    CTX.require_nonneg(x)
    if x.den != ONE:
        # sqrt(n/d) = sqrt(n*d)/|d|
        d = Sym(x.den)
        qd = p_sqrt(x.den)
        if qd is not None:
            return sqrt(Sym(x.num)) / abs(Sym(qd))
        qn = p_sqrt(x.num)
        if qn is not None and len(x.num) > 0:
            return abs(Sym(qn)) / sqrt(d)
        return sqrt(Sym(x.num)*d) / abs(d)
    p = x.num
    c = p_content(p)
    prim = p_scale(p, 1/c) if c != 1 else p
    # monomial squares
    q = p_sqrt(prim)
    if q is not None:
        r = abs(Sym(q))
    else:
        r = None
        common = p_content_monomial(prim)
        pos = {i: 1 for i, e in common.items() if e == 1 and _sum_of_squares(
            i)}
        if pos and prim != {((min(pos), 1),): 1}:
            r = sqrt(Sym(p_div_mono(prim, pos)))
            for i in pos:
                r = r*_sqrt_atom({((i, 1),): 1})
            if c != 1:
                r = r*sqrt(Sym.const(c))
            return r
        sq = {i: e - e % 2 for i, e in common.items() if e >= 2}
        if sq:
            inner = p_div_mono(prim, sq)
            out = Sym({tuple(sorted((i, e//2) for i, e in sq.items())): 1})
            r = abs(out)*sqrt(Sym(inner))
        else:
            # k * (1 - cos^2) * rest^2 patterns: try known sine atoms
            r = _sqrt_sine(prim)
        if r is None:
            r = _sqrt_atom(prim)
    if c != 1:
        r = r*sqrt(Sym.const(c))
    return r


def _sqrt_sine(p):
    ids = {i for m in p for i, _ in m}
    for i in ids:
        a = T.atoms[i]
        if a.fn == 'cos':
            rel = {(): 1, ((i, 2),): -1}
            q = p_divexact(p, rel)
            if q is not None:
                r = p_sqrt(q)
                if r is not None:
                    s = _trig_atom('sin', a.args[0])
                    return abs(s)*abs(Sym(r))
    return None


def cbrt(x):
    x = sym(x)
    v = x.value()
    if v is not None:
        v = Fraction(v)
        for sgn in (1, -1):
            n, d = round(abs(v.numerator)**(1/3)), round(v.denominator**(1/3))
            if n**3 == abs(v.numerator) and d**3 == v.denominator and v >= 0:
                return Sym.const(Fraction(n, d))
    if x.den != ONE:
        return cbrt(Sym(x.num))/cbrt(Sym(x.den))
    CTX.require_nonneg(x)
    a, new = T.app('cbrt', (x,))
    if new:
        a.rule = (3, x.num)
        z = p_z3(x.num, True)
        a.facts = [z3.Implies(z >= 0, z3.And(a.z3 >= 0,
                                             a.z3*a.z3*a.z3 == z)),
                   z3.Implies(z > 0, a.z3 > 0)]
    return Sym.atom(a)


def pow_sym(x, n):
    """x**n with symbolic integer exponent n, x > 0 (or x != 0)."""
    x, n = sym(x), sym(n)
    v = n.value()
    if v is not None:
        return x**v
    if not n.is_int() and not getattr(CTX.cur, 'real_pow', False):
        raise Unsupported('symbolic non-integer power')
    if x.value() == 1:
        return x
    r = Sym.const(1)
    if getattr(CTX.cur, 'real_pow', False) and len(x.num) == 1 and \
            len(x.den) == 1 and sum(len(m) for m in x.num) + sum(
                len(m) for m in x.den) > 1:
        # product and quotient of positive numbers
        for p, e in ((x.num, 1), (x.den, -1)):
            (m, c), = p.items()
            if c != 1:
                r = r*pow_sym(Sym.const(c), n*e)
            for i, k in m:
                r = r*pow_sym(Sym.atom(T.atoms[i]), n*(k*e))
        return r
    for m, c in n.num.items():
        if not m:
            r = r*(x**c)
            continue
        c = Fraction(c)
        a, new = T.app('pow', (x, Sym({m: 1}) if c.denominator == 1 else
                               Sym({m: Fraction(1, c.denominator)})))
        if new:
            z = to_z3(x, True)
            a.facts = [z3.Implies(z > 0, a.z3 > 0)]
        r = r*(Sym.atom(a)**c.numerator)
    return r


def _trig_atom(fn, x):
    c, newc = T.app('cos', (x,))
    s, news = T.app('sin', (x,))
    if newc or news:
        ca = Sym.atom(c)
        s.rule = (2, (1 - ca*ca).num)
        f = [c.z3*c.z3 + s.z3*s.z3 == 1, c.z3 <= 1, c.z3 >= -1, s.z3 <= 1,
             s.z3 >= -1]
        z = to_z3(x, True)
        pi = PI()
        pz = T.var('PI').z3
        f += [z3.Implies(z3.And(z > 0, z < pz), s.z3 > 0),
              z3.Implies(z == 0, z3.And(s.z3 == 0, c.z3 == 1)),
              z3.Implies(z == pz, z3.And(s.z3 == 0, c.z3 == -1)),
              z3.Implies(z3.And(z > -pz/2, z < pz/2), c.z3 > 0),
              z3.Implies(z3.And(z > pz/2, z < 3*pz/2), c.z3 < 0),
              z3.Implies(z3.And(z >= 0, z < pz), c.z3 > -1),
              z3.Implies(z3.And(z > 0, z <= pz), c.z3 < 1)]
        c.facts = f
        s.facts = f
    return Sym.atom(c if fn == 'cos' else s)


def _trig(fn, x):
    """cos/sin with quadrant shifts, parity, angle sums, inverse functions."""
    x = sym(x)
    if not x.num:
        return Sym.const(1 if fn == 'cos' else 0)
    if x.den != ONE:
        # try splitting off common denominators only for single terms
        terms = [Sym.make({m: c}, x.den) for m, c in x.num.items()]
    else:
        terms = [Sym({m: c}) for m, c in x.num.items()]
    if x.den != ONE and any(t.den != x.den for t in terms) is False \
            and len(terms) > 1:
        return _trig_single(fn, x)
    pid = PI_id()
    quad = None
    rest = []
    for t in terms:
        if t.den == ONE and len(t.num) == 1:
            (m, c), = t.num.items()
            if m == ((pid, 1),) and Fraction(c*2).denominator == 1:
                quad = int(Fraction(c*2))
                continue
            if CTX.int_pi and len(m) == 2 and _turns(m, c, pid):
                # whole turns
                quad = quad or 0
                continue
            if CTX.int_pi and m == ((pid, 1),):
                # constant angles: the quadrant and an angle in [-45, 45)
                q = (2*Fraction(c) + Fraction(1, 2)).__floor__()
                if q:
                    quad = q
                    rest.append(Sym({m: _nc(Fraction(c) - Fraction(q, 2))}))
                    continue
        rest.append(t)
    if quad is not None:
        y = Sym.const(0)
        for t in rest:
            y = y + t
        k = quad % 4
        if fn == 'cos':
            return [lambda: _trig('cos', y), lambda: -_trig('sin', y),
                    lambda: -_trig('cos', y), lambda: _trig('sin', y)][k]()
        return [lambda: _trig('sin', y), lambda: _trig('cos', y),
                lambda: -_trig('sin', y), lambda: -_trig('cos', y)][k]()
    if len(rest) == 1:
        return _trig_single(fn, rest[0])
    if CTX.int_pi and len(rest) > 1:
        # inverse functions apart, the remaining angle as one
        y = Sym.const(0)
        inv = []
        for t in rest:
            m = next(iter(t.num))
            if t.den == ONE and len(m) == 1 and m[0][1] == 1 \
                    and T.atoms[m[0][0]].fn in _INVTRIG:
                inv.append(t)
            else:
                y = y + t
        if not inv:
            return _trig_single(fn, y)
        rest = inv + ([y] if y.num else [])
        if len(rest) == 1:
            return _trig_single(fn, rest[0])
        a, b = rest[0], Sym.const(0)
        for t in rest[1:]:
            b = b + t
        ca, sa = _trig('cos', a), _trig('sin', a)
        cb, sb = _trig('cos', b), _trig('sin', b)
        return ca*cb - sa*sb if fn == 'cos' else sa*cb + ca*sb
    if len(rest) > 4 or CTX.no_angle_sums:
        return _trig_single(fn, x)
    a = rest[0]
    b = Sym.const(0)
    for t in rest[1:]:
        b = b + t
    ca, sa = _trig('cos', a), _trig('sin', a)
    cb, sb = _trig('cos', b), _trig('sin', b)
    if fn == 'cos':
        return ca*cb - sa*sb
    return sa*cb + ca*sb


def _turns(m, c, pid):
    d = dict(m)
    o = [i for i in d if i != pid]
    return d.get(pid) == 1 and len(o) == 1 and d[o[0]] == 1 \
        and T.atoms[o[0]].is_int and Fraction(c/2).denominator == 1


def PI_id():
    PI()
    return T.var('PI').id


def _trig_single(fn, t):
    """t: Sym treated as one angle."""
    # sign canonicalisation
    lead = _lead(t.num)
    if t.num[lead] < 0:
        r = _trig_single(fn, -t)
        return r if fn == 'cos' else -r
    if t.den == ONE and len(t.num) == 1:
        (m, c), = t.num.items()
        if m == ((PI_id(), 1),):
            r = _special(fn, Fraction(c))
            if r is not None:
                return r
        if len(m) == 1 and m[0][1] == 1 and isinstance(c, int) \
                and T.atoms[m[0][0]].fn in _INVTRIG:
            a = T.atoms[m[0][0]]
            cc, ss = _INVTRIG[a.fn](*a.args)
            if c == 1:
                return cc if fn == 'cos' else ss
            return _multiple(fn, c, cc, ss)
        # integer multiples of pi times a symbolic integer
        if len(m) == 2 and CTX.int_pi:
            d = dict(m)
            if d.get(PI_id()) == 1:
                o = [i for i in d if i != PI_id()][0]
                if T.atoms[o].is_int and d[o] == 1 and \
                        Fraction(c).denominator == 1 and c % 2 == 0:
                    return Sym.const(1 if fn == 'cos' else 0)
        if CTX.expand_multiples and isinstance(c, int) is False:
            f = Fraction(c)
            base = CTX.expand_multiples
            k = f / base
            if k.denominator == 1 and 1 < k <= 12:
                u = Sym({m: _nc(base)})
                return _multiple(fn, int(k), _trig_atom('cos', u),
                                 _trig_atom('sin', u))
    return _trig_atom(fn, t)


def _multiple(fn, k, c, s):
    if k < 0:
        r = _multiple(fn, -k, c, s)
        return r if fn == 'cos' else -r
    cr, sr = Sym.const(1), Sym.const(0)
    for _ in range(k):
        cr, sr = cr*c - sr*s, sr*c + cr*s
    return cr if fn == 'cos' else sr


def _special(fn, f):
    """cos/sin(f*pi) for multiples of pi/6, pi/4, pi/5-free angles."""
    if fn == 'sin':
        return _special('cos', f - Fraction(1, 2))
    f = f % 2
    if f > 1:
        f = 2 - f
    neg = f > Fraction(1, 2)
    if neg:
        f = 1 - f
    tab = {Fraction(0): lambda: Sym.const(1),
           Fraction(1, 6): lambda: sqrt(3)/2,
           Fraction(1, 4): lambda: sqrt(2)/2,
           Fraction(1, 3): lambda: Sym.const(Fraction(1, 2)),
           Fraction(1, 2): lambda: Sym.const(0),
           Fraction(1, 5): lambda: (1 + sqrt(5))/4,
           Fraction(2, 5): lambda: (sqrt(5) - 1)/4}
    if f not in tab:
        return None
    r = tab[f]()
    return -r if neg else r


def cos(x):
    return _trig('cos', x)


def sin(x):
    return _trig('sin', x)


def tan(x):
    return sin(x)/cos(x)


def _inv_atan2(y, x):
    if bool(b_and(sym(x) == 0, sym(y) == 0)):
        return Sym.const(1), Sym.const(0)
    r = sqrt(x*x + y*y)
    return x/r, y/r


def _inv_acos(x):
    return x, sqrt(1 - x*x)


def _inv_asin(x):
    return sqrt(1 - x*x), x


def _inv_atan(t):
    r = sqrt(1 + t*t)
    return 1/r, t/r


_INVTRIG = {'arctan2': _inv_atan2, 'arccos': _inv_acos, 'arcsin': _inv_asin,
            'arctan': _inv_atan}


def arctan2(y, x):
    y, x = sym(y), sym(x)
    vy, vx = y.value(), x.value()
    if vy is not None and vx is not None:
        if vy == 0:
            return Sym.const(0) if vx >= 0 else PI()
        if vx == 0:
            return PI()/2 if vy > 0 else -PI()/2
        if vy == vx or vy == -vx:
            return PI()*Fraction((1 if vx > 0 else 3)*(1 if vy > 0 else -1), 4)
    # scale invariance: divide by a common positive rational content
    a, new = T.app('arctan2', (y, x))
    if new:
        pz = T.var('PI').z3 if PI() is not None else None
        zy, zx = to_z3(y, True), to_z3(x, True)
        t = a.z3
        a.facts = [t >= -pz, t <= pz,
                   z3.Implies(zy > 0, z3.And(t > 0, t < pz)),
                   z3.Implies(zy < 0, z3.And(t < 0, t > -pz)),
                   z3.Implies(z3.And(zy == 0, zx >= 0), t == 0),
                   z3.Implies(z3.And(zy == 0, zx < 0), t == pz),
                   z3.Implies(zx > 0, z3.And(t < pz/2, t > -pz/2)),
                   z3.Implies(z3.And(zx == 0, zy > 0), t == pz/2),
                   z3.Implies(z3.And(zx == 0, zy < 0), t == -pz/2),
                   z3.Implies(z3.And(zx < 0, zy > 0), t > pz/2),
                   z3.Implies(z3.And(zx < 0, zy < 0), t < -pz/2)]
    return Sym.atom(a)


def arccos(x):
    x = sym(x)
    v = x.value()
    if v is not None:
        t = {1: Sym.const(0), -1: PI(), 0: PI()/2,
             Fraction(1, 2): PI()/3, Fraction(-1, 2): 2*PI()/3}
        if v in t:
            return t[v]
    CTX.require_nonneg(1 - x*x)
    a, new = T.app('arccos', (x,))
    if new:
        PI()
        pz = T.var('PI').z3
        z = to_z3(x, True)
        a.facts = [a.z3 >= 0, a.z3 <= pz,
                   z3.Implies(z == 1, a.z3 == 0),
                   z3.Implies(z == -1, a.z3 == pz),
                   z3.Implies(z3.And(z > -1, z < 1),
                              z3.And(a.z3 > 0, a.z3 < pz))]
    return Sym.atom(a)


def arcsin(x):
    x = sym(x)
    CTX.require_nonneg(1 - x*x)
    a, new = T.app('arcsin', (x,))
    if new:
        PI()
        pz = T.var('PI').z3
        a.facts = [a.z3 >= -pz/2, a.z3 <= pz/2]
    return Sym.atom(a)


def arctan(x):
    x = sym(x)
    if x.value() == 0:
        return Sym.const(0)
    a, new = T.app('arctan', (x,))
    if new:
        PI()
        pz = T.var('PI').z3
        a.facts = [a.z3 > -pz/2, a.z3 < pz/2]
    return Sym.atom(a)


def floor(x):
    x = sym(x)
    v = x.value()
    if v is not None:
        return Sym.const(math.floor(v))
    if x.is_int():
        return x
    # take out the integer part of the constant and of integer terms
    out = Sym.const(0)
    if x.den == ONE:
        rest = {}
        for m, c in x.num.items():
            if all(T.atoms[i].is_int for i, _ in m):
                k = math.floor(c)
                if k and m == ():
                    out = out + k
                    c = _nc(Fraction(c) - k)
                elif isinstance(c, int):
                    out = out + Sym({m: c})
                    c = 0
            if c:
                rest[m] = c
        x = Sym(rest)
        if not rest:
            return out
        if p_const(rest) is not None:
            return out + math.floor(p_const(rest))
    a, new = T.app('floor', (x,), True)
    if new:
        z = to_z3(x, True)
        r = z3.ToReal(a.z3)
        a.facts = [r <= z, z < r + 1]
    return out + Sym.atom(a)


def trunc(x):
    x = sym(x)
    if x.is_int():
        return x
    v = x.value()
    if v is not None:
        return Sym.const(int(v))
    if x >= 0:
        return floor(x)
    return -floor(-x)


# ------------------------------------------------------------- complex

class SComplex:
    __slots__ = ('re', 'im')
    shape = ()
    ndim = 0

    def __init__(self, re, im=0):
        self.re, self.im = sym(re), sym(im)

    @staticmethod
    def of(o):
        if isinstance(o, SComplex):
            return o
        if isinstance(o, (complex, _np.complexfloating)):
            return SComplex(Sym.const(float(o.real)), Sym.const(float(o.imag)))
        c = coerce(o)
        if c is NotImplemented:
            return c
        return SComplex(c, 0)

    def _b(self, o, f):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = SComplex.of(o)
        return o if o is NotImplemented else f(self, o)

    def __add__(self, o):
        return self._b(o, lambda a, b: SComplex(a.re+b.re, a.im+b.im))
    __radd__ = __add__

    def __neg__(self): return SComplex(-self.re, -self.im)

    def __sub__(self, o):
        return self._b(o, lambda a, b: SComplex(a.re-b.re, a.im-b.im))

    def __rsub__(self, o):
        return self._b(o, lambda a, b: SComplex(b.re-a.re, b.im-a.im))

    def __mul__(self, o):
        return self._b(o, lambda a, b: SComplex(a.re*b.re - a.im*b.im,
                                                a.re*b.im + a.im*b.re))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            return NotImplemented
        o = SComplex.of(o)
        d = o.re*o.re + o.im*o.im
        n = self*SComplex(o.re, -o.im)
        return SComplex(n.re/d, n.im/d)

    def __rtruediv__(self, o):
        return SComplex.of(o)/self

    def __pow__(self, k):
        r = SComplex(1)
        for _ in range(int(k)):
            r = r*self
        return r

    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im

    def conjugate(self): return SComplex(self.re, -self.im)
    conj = conjugate

    def __abs__(self): return sqrt(self.re*self.re + self.im*self.im)

    def __eq__(self, o):
        o = SComplex.of(o)
        return b_and(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        return b_not(self == o)

    def __hash__(self): return hash((self.re, self.im))
    def __repr__(self): return f'({self.re!r}) + 1j*({self.im!r})'


# ----------------------------------------------------- current context

class _NullCtx:
    no_angle_sums = False
    int_pi = False
    cuts = None
    expand_multiples = None
    format_hook = None

    def fork(self, b):
        raise Unsupported('branch on symbolic value outside of a run')

    def nonzero(self, s): pass
    def require_nonneg(self, s): pass


class _CtxProxy:
    cur = _NullCtx()

    def __getattr__(self, n):
        return getattr(self.cur, n)


CTX = _CtxProxy()


def set_ctx(c):
    _CtxProxy.cur = c if c is not None else _NullCtx()


def reset():
    T.reset()
    _mono_cache.clear()
    _zcache.clear()


# ------------------------------------------------------------ substitution

_REBUILD = {}


def subst(s, env, memo=None):
    """Replace atoms {id: Sym}; function applications are rebuilt."""
    if memo is None:
        memo = {}

    def atom(i):
        if i in memo:
            return memo[i]
        if i in env:
            r = env[i]
        else:
            a = T.atoms[i]
            if a.fn is None:
                r = Sym.atom(a)
            else:
                args = [subst(x, env, memo) if isinstance(x, Sym) else x
                        for x in a.args]
                if all(x is y or (isinstance(x, Sym) and x.key() == y.key())
                       for x, y in zip(args, a.args)):
                    r = Sym.atom(a)
                elif a.fn in _REBUILD:
                    r = _REBUILD[a.fn](*args)
                else:
                    b, _ = T.app(a.fn, tuple(args), a.is_int)
                    r = Sym.atom(b)
        memo[i] = r
        return r

    def poly(p):
        t = Sym.const(0)
        for m, c in p.items():
            x = Sym.const(c)
            for i, e in m:
                x = x*(atom(i)**e)
            t = t + x
        return t
    n = poly(s.num)
    if s.den == ONE:
        return n
    return n/poly(s.den)


_REBUILD.update(factorial=_factorial)
_REBUILD.update(cos=lambda x: cos(x), sin=lambda x: sin(x),
                sqrt=lambda x: sqrt(x), cbrt=lambda x: cbrt(x),
                arctan2=lambda y, x: arctan2(y, x),
                arccos=lambda x: arccos(x), arcsin=lambda x: arcsin(x),
                arctan=lambda x: arctan(x), floor=lambda x: floor(x),
                pow=lambda x, n: pow_sym(x, n))


# -------------------------------------------------------- numeric evaluation

class NoValue(Exception):
    pass


def ev(s, env, defs=None):
    """Numeric value of a Sym in env {atom_id: float}; defs: spec functions."""
    def atom(i):
        v = env.get(i)
        if v is not None:
            return v
        a = T.atoms[i]
        if a.fn is None:
            raise NoValue(a.name)
        args = [ev(x, env, defs) if isinstance(x, Sym) else x for x in a.args]
        v = _EVAL[a.fn](*args) if a.fn in _EVAL else None
        if v is None:
            if defs and a.fn in defs:
                v = defs[a.fn](*args)
            else:
                raise NoValue(a.fn)
        env[i] = v
        return v

    def poly(p):
        t = 0.0
        for m, c in p.items():
            x = float(c)
            for i, e in m:
                x *= atom(i)**e
            t += x
        return t
    n = poly(s.num)
    if s.den == ONE:
        return n
    d = poly(s.den)
    if d == 0:
        raise NoValue('division by zero')
    return n/d


def _nn(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError) as e:
            raise NoValue(str(e))
    return g


_EVAL = {
    'cos': _nn(math.cos), 'sin': _nn(math.sin), 'sqrt': _nn(
        lambda x: math.sqrt(x) if x > -1e-12 and x >= 0 else
        (0.0 if x > -1e-12 else _raise(x))),
    'cbrt': _nn(lambda x: x**(1/3) if x >= 0 else _raise(x)),
    'arctan2': _nn(math.atan2), 'arccos': _nn(math.acos),
    'arcsin': _nn(math.asin), 'arctan': _nn(math.atan),
    'floor': _nn(lambda x: float(math.floor(x))),
    'pow': _nn(lambda x, n: x**n), 'exp': _nn(math.exp), 'log': _nn(math.log),
}


def _raise(x):
    raise NoValue('domain')


def b_ev(b, env, defs=None, tol=1e-9):
    if isinstance(b, (bool, _np.bool_)):
        return bool(b)
    if b.op == 'and':
        return all(b_ev(x, env, defs, tol) for x in b.a)
    if b.op == 'or':
        return any(b_ev(x, env, defs, tol) for x in b.a)
    if b.op == 'not':
        return not b_ev(b.a, env, defs, tol)
    if b.op == 'z3':
        raise NoValue('z3')
    v = ev(b.a, env, defs)
    return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0,
            '==': abs(v) <= tol, '!=': abs(v) > tol}[b.op]
