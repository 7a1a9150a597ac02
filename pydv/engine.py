"""Path exploration, obligations and the loop-cutting runtime.

A *run* executes transformed code of /repo on symbolic values.  Branches on
symbolic conditions fork: the run is re-executed once per feasible decision
sequence (feasibility by z3; `unknown` counts as feasible).  Obligations are
collected together with the hypotheses of the path they arise on and are
discharged afterwards (prove.py).
"""
import time
import z3
from . import core
from .core import (Sym, SBool, Unsupported, PathEnd, b_z3, b_not, b_and,
                   T, ONE)


class Obligation:
    __slots__ = ('name', 'fn', 'kind', 'hyps', 'goal', 'status', 'backend',
                 'time', 'model', 'info', 'refutable')

    def __init__(self, name, fn, kind, hyps, goal, refutable=True, info=None):
        self.name, self.fn, self.kind = name, fn, kind
        self.hyps, self.goal = hyps, goal
        self.status = None
        self.backend = ''
        self.time = 0.
        self.model = None
        self.info = info
        self.refutable = refutable


def collect_facts(ids, seen=None):
    """All atoms reachable from ids and their facts."""
    seen = set() if seen is None else seen
    facts = []
    stack = list(ids)
    while stack:
        i = stack.pop()
        if i in seen:
            continue
        seen.add(i)
        a = T.atoms[i]
        facts.extend(a.facts)
        if a.rule is not None:
            for m in a.rule[1]:
                stack.extend(j for j, _ in m)
        for x in a.args:
            if isinstance(x, Sym):
                stack.extend(x.atom_ids())
    return facts


def b_ids(b, acc=None):
    acc = set() if acc is None else acc
    if isinstance(b, SBool):
        if b.op in ('and', 'or'):
            for x in b.a:
                b_ids(x, acc)
        elif b.op == 'not':
            b_ids(b.a, acc)
        elif b.op == 'z3':
            acc |= getattr(b, 'ids', set())
        else:
            acc |= b.a.atom_ids()
    return acc


_bound_memo = {}


def _bound_atom(a):
    k = id(a)
    if k not in _bound_memo or _bound_memo[k][0] is not a:
        _bound_memo[k] = (a, a.fn is None and a.name.startswith('@k') or any(
            isinstance(x, Sym) and any(_bound_atom(T.atoms[j])
                                       for j in x.atom_ids())
            for x in a.args) and a.fn != 'SUM')
    return _bound_memo[k][1]


def _has_bound(b):
    """Does a condition depend on the index of a sum?"""
    return any(_bound_atom(T.atoms[i]) for i in b_ids(b))


class Ctx:
    """State of one path."""

    def __init__(self, prefix, fn, solver_ms=1500):
        self.prefix = prefix
        self.fn = fn
        self.decisions = []
        self.pending = []         # alternative decision prefixes
        self.hyps = []            # SBool / z3-wrapped, path condition
        self.obls = []
        self.warned = []
        self.events = []
        self.undefined = []
        self.no_angle_sums = False
        self.int_pi = False
        self.cuts = None
        self.lazy_extrema = False
        self.expand_multiples = None
        self.format_hook = None
        self.solver = z3.Solver()
        self.solver.set('timeout', solver_ms)
        self.fact_seen = set()
        self.cache = {}
        self.known = {}     # hypotheses and negations
        self.loops = []           # stack of active cut loops
        self.mode = 'U'
        self.solver_time = 0.
        self.nq = 0
        self.stop = None          # callable: abort
        self.deadline = None
        self.houdini = None
        self.data = {}
        self.loop_count = {}

    # --- facts and assumptions
    def _load(self, b):
        ids = b_ids(b)
        for f in collect_facts(ids, self.fact_seen):
            self.solver.add(f)

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise PathEnd('assumption false')
        self.hyps.append(b)
        self.cache.clear()
        for c, v in ((b, True), (b_not(b), False)):
            k = _bkey(c)
            if k is not None:
                self.known[k] = v
        self._load(b)
        self.solver.add(b_z3(b))

    def check(self, extra):
        self.nq += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of this contract exhausted')
        self._load(extra)
        t = time.time()
        self.solver.push()
        self.solver.add(b_z3(extra))
        try:
            r = self.solver.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.solver.pop()
        self.solver_time += time.time() - t
        return r

    def decide(self, b):
        """True/False if b is implied / refuted by the path, else None."""
        if isinstance(b, (bool, )):
            return b
        if not isinstance(b, SBool):
            return bool(b)
        k = _bkey(b)
        if k is not None and k in self.cache:
            return self.cache[k]
        r = self.known.get(k) if k is not None else None
        if r is None:
            r = self._decide_local(b)
        if r is not None:
            pass
        elif self.check(b) == z3.unsat:
            r = False
        elif self.check(b_not(b)) == z3.unsat:
            r = True
        if k is not None:
            self.cache[k] = r
        return r

    def _decide_local(self, b):
        """decide() from the hypotheses on the symbols of b alone: cheap
        where the path carries many nonlinear hypotheses."""
        if len(self.hyps) < 25:
            return None
        ids = b_ids(b)
        hyps = [h for h in self.hyps if b_ids(h) <= ids]
        s = z3.Solver()
        s.set('timeout', 250)
        t = time.time()
        for f in collect_facts(ids):
            s.add(f)
        for h in hyps:
            s.add(b_z3(h))
        r = None
        try:
            for v in (False, True):
                s.push()
                s.add(b_z3(b_not(b) if v else b))
                if s.check() == z3.unsat:
                    r = v
                    break
                s.pop()
        except z3.Z3Exception:
            pass
        self.solver_time += time.time() - t
        return r

    def fork(self, b):
        r = self.decide(b)
        if r is not None:
            return r
        if _has_bound(b):
            raise Unsupported('branch on the index of a sum')
        n = len(self.decisions)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            v = True
            self.pending.append(tuple(self.decisions) + (False,))
        self.decisions.append(v)
        if n > 400:
            raise Unsupported('too many branches on one path')
        self.assume(b if v else b_not(b))
        return v

    def choose(self, label=''):
        """Nondeterministic choice (both explored)."""
        n = len(self.decisions)
        if n < len(self.prefix):
            v = self.prefix[n]
        else:
            v = True
            self.pending.append(tuple(self.decisions) + (False,))
        self.decisions.append(v)
        return v

    # --- definedness
    def nonzero(self, s):
        self._defined(s != 0, 'nonzero')

    def require_nonneg(self, s):
        self._defined(s >= 0, 'nonneg')

    def _defined(self, b, kind):
        if b is True:
            return
        k = ('def', _bkey(b))
        if k in self.cache:
            return
        self.cache[k] = True
        self.undefined.append((kind, b, tuple(self.hyps)))

    # --- obligations
    def oblige(self, name, goal, kind='post', refutable=True, info=None):
        self.obls.append(Obligation(name, self.fn, kind, tuple(self.hyps),
                                    goal, refutable, info))


def _bkey(b):
    if isinstance(b, bool):
        return b
    if b.op in ('and', 'or'):
        ks = tuple(_bkey(x) for x in b.a)
        return None if None in ks else (b.op,) + ks
    if b.op == 'not':
        k = _bkey(b.a)
        return None if k is None else ('not', k)
    if b.op == 'z3':
        return ('z3', b.a.get_id())
    return (b.op, b.a.key())


class Result:
    def __init__(self):
        self.obls = []
        self.paths = 0
        self.ends = []
        self.undefined = []
        self.unsupported = None
        self.solver_time = 0.
        self.queries = 0
        self.ctxs = []


def explore(fn, body, max_paths=400, solver_ms=1500, budget=120, setup=None,
            houdini=None):
    """Run body(ctx) along every feasible path."""
    res = Result()
    todo = [()]
    t0 = time.time()
    while todo:
        prefix = todo.pop()
        if res.paths >= max_paths:
            res.unsupported = f'more than {max_paths} paths'
            break
        ctx = Ctx(prefix, fn, solver_ms)
        ctx.deadline = t0 + budget
        ctx.houdini = houdini
        if setup:
            setup(ctx)
        core.set_ctx(ctx)
        try:
            body(ctx)
            res.ends.append('done')
        except PathEnd as e:
            res.ends.append(f'end: {e}')
        except Unsupported as e:
            res.unsupported = str(e)
            res.ends.append(f'unsupported: {e}')
        except (ValueError, IndexError, KeyError, AssertionError,
                ZeroDivisionError) as e:
            # the code under verification raises on this path
            ctx.oblige(f'no {type(e).__name__} ({str(e)[:80]})', False,
                       'post')
            res.ends.append(f'raises: {e}')
        except (TypeError, AttributeError, NotImplementedError,
                NameError, RecursionError, OverflowError) as e:
            import traceback
            tb = traceback.format_exc().strip().split('\n')
            res.unsupported = f'{type(e).__name__}: {e} ' + ' '.join(
                x.strip() for x in tb[-5:-1])[-300:]
            res.ends.append(f'unsupported: {e}')
        finally:
            core.set_ctx(None)
            res.paths += 1
            res.solver_time += ctx.solver_time
            res.queries += ctx.nq
        res.obls.extend(ctx.obls)
        res.undefined.extend(ctx.undefined)
        if res.unsupported:
            break
        todo.extend(ctx.pending)
    return res
