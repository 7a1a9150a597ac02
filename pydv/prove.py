"""Discharging obligations: ring normal form, z3, cvc5; numeric refutation."""
import hashlib
import math
import random
import subprocess
import time
from fractions import Fraction
import z3
from . import core
from .core import (Sym, SBool, b_z3, b_not, b_ev, ev, NoValue, T, ONE,
                   Unsupported, subst, p_const)
from .engine import b_ids, collect_facts

CVC5 = 'cvc5'


def _solve_eqs(hyps):
    """Substitution {atom: Sym} from path equations linear in one atom."""
    env = {}
    eqs = []
    for h in hyps:
        stack = [h]
        while stack:
            b = stack.pop()
            if not isinstance(b, SBool):
                continue
            if b.op == 'and':
                stack.extend(b.a)
            elif b.op == '==':
                eqs.append(b.a)
    for d in eqs:
        try:
            d = subst(d, env) if env else d
        except (Unsupported, ZeroDivisionError):
            continue
        num = d.num
        best = None
        for m, c in num.items():
            if len(m) == 1 and m[0][1] == 1:
                i = m[0][0]
                a = T.atoms[i]
                if a.name == 'PI':
                    continue
                # must not occur elsewhere (also inside applications)
                if any(i == j for mm in num if mm != m for j, _ in mm):
                    continue
                rest = Sym({k: v for k, v in num.items() if k != m})
                if _occurs(rest, i):
                    continue
                pr = (a.fn is None, a.depth, i)
                if best is None or pr > best[0]:
                    best = (pr, i, rest/(-c))
        if best:
            _, i, e = best
            try:
                env = {k: subst(v, {i: e}) for k, v in env.items()}
            except (Unsupported, ZeroDivisionError):
                continue
            env[i] = e
    return env


def _occurs(s, i):
    seen = set()
    stack = list(s.atom_ids())
    while stack:
        j = stack.pop()
        if j == i:
            return True
        if j in seen:
            continue
        seen.add(j)
        for x in T.atoms[j].args:
            if isinstance(x, Sym):
                stack.extend(x.atom_ids())
    return False


def _hash_uf(name, args):
    h = hashlib.md5((name + repr([round(a, 7) if isinstance(a, float) else a
                                  for a in args])).encode()).digest()
    return (int.from_bytes(h[:6], 'big')/2**48)*3 - 1.3


class _HashDefs(dict):
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        if k in self.keys():
            return dict.__getitem__(self, k)
        return lambda *a: _hash_uf(k, a)


def all_atoms(bs):
    ids = set()
    for b in bs:
        b_ids(b, ids)
    seen = set()
    stack = list(ids)
    while stack:
        i = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        for x in T.atoms[i].args:
            if isinstance(x, Sym):
                stack.extend(x.atom_ids())
    return seen


def sample_env(ids, rng, big=False):
    env = {}
    for i in sorted(ids):
        a = T.atoms[i]
        if a.fn is not None:
            continue
        if a.name == 'PI':
            env[i] = math.pi
        elif a.sample is not None:
            env[i] = a.sample(rng)
        elif a.is_int:
            lo = a.lo if a.lo is not None else -5
            hi = a.hi if a.hi is not None else lo + rng.choice([2, 6, 15])
            env[i] = rng.randint(int(lo), int(hi))
        else:
            lo, hi = a.lo, a.hi
            if lo is None and hi is None:
                env[i] = rng.choice([rng.uniform(-2, 2), rng.uniform(-90, 90),
                                     float(rng.randint(-4, 4))])
            elif hi is None:
                env[i] = lo + rng.choice([rng.uniform(0.01, 1),
                                          rng.uniform(0, 50)])
            elif lo is None:
                env[i] = hi - rng.uniform(0.01, 50)
            else:
                env[i] = rng.choice([rng.uniform(lo, hi)]*4 + [lo, hi])
    return env


def numeric(goal, hyps, defs, rng, tries=60, want=6):
    """Evaluate the goal at sampled points of the path.

    Returns ('refuted', env) / ('agree', n) / ('none', 0)."""
    bs = list(hyps) + [goal]
    try:
        ids = all_atoms(bs)
    except RecursionError:
        return 'none', 0
    # equations of the path fix atoms
    try:
        fix = _solve_eqs(hyps)
    except (Exception, Unsupported):
        fix = {}
    n = 0
    dd = _HashDefs(defs or {})
    for k in range(tries):
        env = sample_env(ids, rng)
        for i in fix:
            env.pop(i, None)
        ok = True
        try:
            for i, e in fix.items():
                if T.atoms[i].fn is None:
                    env[i] = ev(e, env, dd)
                    if T.atoms[i].is_int:
                        if abs(env[i] - round(env[i])) > 1e-9:
                            ok = False
                        env[i] = round(env[i])
            if not ok:
                continue
            for h in hyps:
                if not b_ev(h, env, dd, 1e-12):
                    ok = False
                    break
        except (NoValue, OverflowError, ZeroDivisionError):
            continue
        if not ok:
            continue
        try:
            r = _goal_num(goal, env, dd)
        except (NoValue, OverflowError, ZeroDivisionError):
            continue
        if r is None:
            continue
        n += 1
        if r is False:
            return 'refuted', {T.atoms[i].name: v for i, v in env.items()
                               if T.atoms[i].fn is None}
        if n >= want:
            break
    return ('agree', n) if n else ('none', 0)


def _goal_num(b, env, dd):
    """True/False/None with a relative tolerance for equalities."""
    if isinstance(b, bool):
        return b
    if b.op == 'and':
        rs = [_goal_num(x, env, dd) for x in b.a]
        if any(r is False for r in rs):
            return False
        return None if any(r is None for r in rs) else True
    if b.op == 'or':
        rs = [_goal_num(x, env, dd) for x in b.a]
        if any(r is True for r in rs):
            return True
        return None if any(r is None for r in rs) else False
    if b.op == 'not':
        r = _goal_num(b.a, env, dd)
        return None if r is None else not r
    if b.op == 'z3':
        return None
    v = ev(b.a, env, dd)
    if v != v or abs(v) == math.inf:
        return None
    # magnitude of the terms for a relative comparison
    mag = 0.
    for m, c in b.a.num.items():
        x = abs(float(c))
        for i, e in m:
            x *= abs(env.get(i, 1.))**e
        mag = max(mag, x)
    if b.a.den != ONE:
        d = abs(ev(Sym(b.a.den), env, dd))
        mag = mag/d if d else math.inf
    tol = 1e-7*mag + 1e-12
    if b.op == '==':
        return abs(v) <= tol
    if b.op == '!=':
        return None if abs(v) <= tol else True
    if abs(v) <= tol:
        return None
    return {'<': v < 0, '<=': v <= 0, '>': v > 0, '>=': v >= 0}[b.op]


def ring(goal, env):
    if isinstance(goal, bool):
        return goal
    if goal.op == 'and':
        return all(ring(g, env) for g in goal.a)
    if goal.op == 'or':
        return any(ring(g, env) for g in goal.a)
    if goal.op == '==':
        d = goal.a
        if not d.num:
            return True
        if env:
            try:
                d = subst(d, env)
            except (Unsupported, ZeroDivisionError, RecursionError):
                return False
            if not d.num:
                return True
    elif goal.op in ('<', '<=', '>', '>=', '!=') and env:
        try:
            d = subst(goal.a, env).value()
        except (Unsupported, ZeroDivisionError, RecursionError):
            return False
        if d is not None:
            return {'<': d < 0, '<=': d <= 0, '>': d > 0, '>=': d >= 0,
                    '!=': d != 0}[goal.op]
    return False


def _z3(goal, hyps, ms):
    s = z3.Solver()
    s.set('timeout', ms)
    ids = set()
    for b in list(hyps) + [goal]:
        b_ids(b, ids)
    for f in collect_facts(ids):
        s.add(f)
    for h in hyps:
        s.add(b_z3(h))
    s.add(z3.Not(b_z3(goal)))
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    return r, s


def _nonneg(b, acc, eqs):
    """Polynomials known >= 0 (acc) and == 0 (eqs) from a condition."""
    if not isinstance(b, SBool):
        return
    if b.op == 'and':
        for x in b.a:
            _nonneg(x, acc, eqs)
        return
    if b.op == 'not' and isinstance(b.a, SBool):
        n = b_not(b.a)
        if not (isinstance(n, SBool) and n.op == 'not'):
            _nonneg(n, acc, eqs)
        return
    if b.op not in ('==', '<', '<=', '>', '>=') or b.a.den != ONE:
        return
    p = b.a
    if b.op == '==':
        eqs.append(p)
        return
    if b.op in ('<', '<='):
        p = -p
    if b.op in ('<', '>'):
        if p.is_int():
            p = p - 1
            acc.append((p, False))
        else:
            acc.append((p, True))
        return
    acc.append((p, False))


def linear_products(goal, hyps, ms):
    """Prove a polynomial inequality from the hypotheses and their pairwise
    products, monomials taken as independent reals (linear arithmetic)."""
    if isinstance(goal, bool):
        return goal
    if goal.op == 'and':
        return all(linear_products(g, hyps, ms) for g in goal.a)
    if goal.op not in ('<', '<=', '>', '>='):
        return False
    acc, eqs = [], []
    for h in hyps:
        _nonneg(h, acc, eqs)
    n = []
    _nonneg(b_not(goal), n, [])
    if len(n) != 1:
        return False
    keep = {}
    for p, st in acc:
        if len(p.num) <= 12 and p.value() is None:
            keep.setdefault(p.key(), (p, st))
    acc = list(keep.values())[:24]
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', ms)
    var = {}

    def lin(p):
        e = []
        for m, c in p.num.items():
            q = z3.Q(c.numerator, c.denominator) if isinstance(
                c, Fraction) else z3.RealVal(c)
            if not m:
                e.append(q)
                continue
            if m not in var:
                var[m] = z3.Real(f'mono{len(var)}')
            e.append(q*var[m])
        return z3.Sum(e) if e else z3.RealVal(0)
    base = acc + n
    for p, st in base:
        s.add(lin(p) > 0 if st else lin(p) >= 0)
    for p in eqs[:8]:
        s.add(lin(p) == 0)
        for q, _ in base:
            x = p*q
            if x.den == ONE:
                s.add(lin(x) == 0)
    for i in range(len(base)):
        for j in range(i, len(base)):
            x = base[i][0]*base[j][0]
            if x.den == ONE and len(x.num) <= 60:
                s.add(lin(x) >= 0)
    return s.check() == z3.unsat


def _cvc5(s, ms):
    txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info', ';(set-info')
    try:
        p = subprocess.run([CVC5, '--lang=smt2', f'--tlimit={ms}', '-'],
                           input=txt, capture_output=True, text=True,
                           timeout=ms/1000 + 5)
    except (subprocess.TimeoutExpired, OSError):
        return 'unknown'
    return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'


class Prover:
    def __init__(self, seed=1, z3_ms=10000, cvc5_ms=10000, budget=300):
        self.rng = random.Random(seed)
        self.z3_ms, self.cvc5_ms = z3_ms, cvc5_ms
        self.stats = {}
        self.time = 0.
        self.cache = {}
        self.deadline = time.time() + budget

    def prove(self, o, defs=None, refute=True, quick=False):
        t0 = time.time()
        try:
            self._prove(o, defs, refute, quick)
        except (Unsupported, RecursionError) as e:
            o.status, o.info = 'unknown', f'{e}'
        o.time = time.time() - t0
        self.time += o.time
        if o.status == 'proved':
            self.stats[o.backend] = self.stats.get(o.backend, 0) + 1
        return o.status

    def _prove(self, o, defs, refute, quick=False):
        g = o.goal
        if g is True:
            o.status, o.backend = 'proved', 'ring'
            return
        core.set_ctx(_ProveCtx(o.hyps))
        try:
            env = {}
            if ring(g, env):
                o.status, o.backend = 'proved', 'ring'
                return
            env = _solve_eqs(o.hyps)
            if g is not False and env and ring(g, env):
                o.status, o.backend = 'proved', 'ring'
                return
        finally:
            core.set_ctx(None)
        if quick:
            o.status = 'unknown'
            return
        if g is False:
            r, s = _z3(False, o.hyps, self.z3_ms)
            if r == z3.unsat:
                o.status, o.backend = 'proved', 'z3'
                return
            st, m = numeric(False, o.hyps, defs, self.rng, tries=200, want=1)
            if st == 'refuted':
                o.status, o.model = 'refuted', m
            else:
                o.status = 'unknown'
            return
        if refute and o.refutable:
            core.set_ctx(_ProveCtx(o.hyps))
            try:
                st, m = numeric(g, o.hyps, defs, self.rng)
            finally:
                core.set_ctx(None)
            if st == 'refuted':
                o.status, o.model = 'refuted', m
                return
        if time.time() > self.deadline:
            o.status, o.info = 'unknown', 'time budget'
            return
        if len(o.hyps) > 25:
            # first from the hypotheses on the symbols of the goal alone
            ids = b_ids(g)
            r, s = _z3(g, [h for h in o.hyps if b_ids(h) <= ids], 800)
            if r == z3.unsat:
                o.status, o.backend = 'proved', 'z3'
                return
        r, s = _z3(g, o.hyps, min(self.z3_ms, 1500))
        if r == z3.unsat:
            o.status, o.backend = 'proved', 'z3'
            return
        try:
            if r != z3.sat and linear_products(g, o.hyps, 3000):
                o.status, o.backend = 'proved', 'z3'
                return
        except z3.Z3Exception:
            pass
        if r != z3.sat:
            r, s = _z3(g, o.hyps, self.z3_ms)
            if r == z3.unsat:
                o.status, o.backend = 'proved', 'z3'
                return
        if r == z3.sat and not o.refutable:
            o.info = 'z3: sat (with uninterpreted symbols)'
        if self.cvc5_ms:
            if _cvc5(s, self.cvc5_ms) == 'unsat':
                o.status, o.backend = 'proved', 'cvc5'
                return
        o.status = 'unknown'


class _ProveCtx:
    """Context for substitutions: branches decided by the hypotheses."""
    no_angle_sums = False
    int_pi = False
    cuts = None
    expand_multiples = None
    format_hook = None
    real_pow = True

    def __init__(self, hyps):
        self.hyps = hyps

    def fork(self, b):
        if self._z(b_not(b)):
            return True
        if self._z(b):
            return False
        raise Unsupported('branch in substitution')

    def _z(self, b):
        r, _ = _z3(b_not(b), self.hyps, 1500)
        return r == z3.unsat

    def nonzero(self, s):
        pass

    def require_nonneg(self, s):
        pass
