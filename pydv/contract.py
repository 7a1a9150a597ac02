"""Verification driver for one function contract."""
import os
import time
import numpy as np
from . import core, engine, extract, frame, prove
from .core import Sym, SBool, Unsupported, PathEnd, b_and, sym
from .engine import explore, Result
from .extract import Houdini, NoFamily, Restart, objarr


class Outcome:
    """Result of verifying one contract in one mode."""

    def __init__(self, name, mode):
        self.name, self.mode = name, mode   # mode: 'proof' or 'bounded'
        self.status = None                  # proved / refuted / undecided
        self.reason = ''
        self.obls = []
        self.paths = 0
        self.functions = []
        self.undefined = 0
        self.undefined_proved = 0
        self.wall = 0.
        self.bound = ''
        self.solver_time = 0.
        self.reach = 0
        self.stats = {}
        self.invariants = []
        self.assumptions = []
        self.limit = False
        self.fail_text = []

    @property
    def failed(self):
        return [o for o in self.obls if o.status != 'proved']


# name of an obligation that failed in this process (one contract, one mode)
FAILED = []
KEEP_GOING = bool(os.environ.get('PYDV_KEEP_GOING'))


def verify(name, body, functions, family=None, mode='proof', bound='',
           max_paths=1500, budget=150, seed=1, defs=None, setup=None,
           z3_ms=8000, cvc5_ms=8000, solver_ms=1500, restarts=60,
           check_defined=False, fail_fast=True):
    """Explore `body(ctx)` and discharge its obligations.

    body raises nothing on success; every path must end in ctx.oblige calls,
    `ctx.reached()` marks the postcondition as reached (vacuity guard)."""
    out = Outcome(name, mode)
    out.functions, out.bound = list(functions), bound
    if FAILED and not KEEP_GOING:
        # the contract is decided by the obligation that failed before
        out.status, out.reason = 'undecided', f'not attempted: {FAILED[0]}'
        return out
    t0 = time.time()
    pr = prove.Prover(seed, z3_ms, cvc5_ms, budget)
    H = Houdini(family or NoFamily(), prove.Prover(seed, 2500, 0, budget))
    res = None
    for _ in range(restarts):
        core.reset()
        extract.npx._depcache.clear()
        pr.cache.clear()
        try:
            res = explore(name, body, max_paths, solver_ms, budget, setup, H)
            break
        except Restart:
            if time.time() - t0 > budget:
                break
            continue
    else:
        res = None
    out.wall = time.time() - t0
    if res is None:
        out.status, out.reason = 'undecided', 'no inductive invariant found'
        return out
    out.paths = res.paths
    out.solver_time = res.solver_time
    out.invariants = sorted({(k[0][2], k[1]) for k in H.used
                             if k not in H.dropped})
    out.obls = res.obls
    out.reach = sum(1 for o in res.obls if o.kind == 'post')
    if res.unsupported:
        out.status = 'undecided'
        out.reason = f'unsupported: {res.unsupported}'
        # a missing invariant is a failed obligation, everything else a
        # limit of the tool
        out.limit = 'no invariant describes' not in res.unsupported
    if frame.ACTIVE:
        # only the frame conditions are decided here
        out.obls = [o for o in res.obls if o.kind == 'frame']
        out.reach = len(out.obls)
        res.obls, res.undefined = out.obls, []
        out.limit = True
    cache = {}
    bad = 0
    for o in res.obls:
        if o.status == 'proved':
            pr.stats[o.backend] = pr.stats.get(o.backend, 0) + 1
            continue
        if isinstance(o.goal, SBool):
            k = (engine._bkey(o.goal),
                 frozenset(x for x in (engine._bkey(h) for h in o.hyps)))
        else:
            k = None
        if k is not None and k in cache:
            o.status, o.backend, o.model = cache[k]
            if o.status == 'proved':
                pr.stats[o.backend] = pr.stats.get(o.backend, 0) + 1
            continue
        pr.prove(o, defs)
        if k is not None:
            cache[k] = (o.status, o.backend, o.model)
        if o.status != 'proved':
            bad += 1
            if fail_fast or bad >= 4 and not KEEP_GOING:
                break
            # one failed obligation decides: look at the others briefly
            pr.z3_ms, pr.cvc5_ms = min(pr.z3_ms, 1500), 0
    if check_defined:
        seen = set()
        for kind, b, hyps in res.undefined:
            k = (engine._bkey(b), frozenset(engine._bkey(h) for h in hyps))
            if k in seen:
                continue
            seen.add(k)
            o = engine.Obligation(f'{kind} argument', name, 'defined', hyps,
                                  b, True)
            pr.prove(o, defs)
            out.undefined += 1
            if o.status == 'proved':
                out.undefined_proved += 1
            out.obls.append(o)
    else:
        out.undefined = len({engine._bkey(b) for _, b, _ in res.undefined})
    out.stats = dict(pr.stats)
    out.solver_time += pr.time + H.prover.time
    out.wall = time.time() - t0
    for o in out.failed[:6]:
        out.fail_text.append({
            'obligation': o.name, 'function': o.fn, 'kind': o.kind,
            'status': o.status or 'not attempted',
            'goal': repr(o.goal)[:1500],
            'path': [repr(h)[:400] for h in o.hyps[:30]],
            'model': {k: _num(v) for k, v in (o.model or {}).items()},
            'info': o.info})
    bad = [o for o in out.obls if o.status == 'refuted']
    unk = [o for o in out.obls if o.status not in ('proved', 'refuted')]
    if bad or unk:
        out.limit = False
    if bad:
        out.status = 'refuted'
        out.reason = f'{bad[0].name}: counterexample {bad[0].model}'
    elif out.status == 'undecided':
        pass
    elif unk:
        out.status = 'undecided'
        out.reason = f'not discharged: {unk[0].name} ({unk[0].info or ""})'
    elif not out.reach:
        out.status, out.reason = 'undecided', 'no postcondition was reached'
    else:
        out.status = 'proved'
    if out.status != 'proved' and not out.limit:
        FAILED.append(f'{name} failed')
    return out


def _num(v):
    try:
        return float(v)
    except (Exception, Unsupported):
        return repr(v)


def post_eq(ctx, name, got, want, kind='post', refutable=True):
    """Obligations got == want, elementwise, including the shape."""
    if isinstance(got, core.SComplex) or isinstance(want, core.SComplex):
        g, w = core.SComplex.of(got), core.SComplex.of(want)
        ctx.oblige(name, g.re == w.re, kind, refutable)
        ctx.oblige(name, g.im == w.im, kind, refutable)
        return
    try:
        g, w = objarr(got), objarr(want)
    except TypeError as e:
        raise Unsupported(f'{name}: result is not numeric ({e})')
    ctx.oblige(name + ' (shape)', g.shape == w.shape, kind, refutable,
               info=f'{g.shape} != {w.shape}')
    if g.shape != w.shape:
        return
    import numpy as np
    for i in np.ndindex(g.shape):
        a, b = g[i], w[i]
        lab = name + (str(list(i)) if i else '')
        if isinstance(a, core.SComplex) or isinstance(b, core.SComplex):
            a, b = core.SComplex.of(a), core.SComplex.of(b)
            ctx.oblige(lab, a.re == b.re, kind, refutable)
            ctx.oblige(lab, a.im == b.im, kind, refutable)
        else:
            c = sym(a) == sym(b)
            ctx.oblige(lab, c, kind, refutable)


def post_true(ctx, name, cond, kind='post', refutable=True):
    ctx.oblige(name, cond if isinstance(cond, SBool) else bool(cond), kind,
               refutable)


def outcome(f, *a, **k):
    """Call f; ('ok', value) or ('raise', exception)."""
    try:
        return 'ok', f(*a, **k)
    except (Unsupported, PathEnd, Restart):
        raise
    except Exception as e:      # behaviour of the code under verification
        return 'raise', e


class Config(dict):
    """Stand-in for config_utils.basicConfig: symbolic values, no writes."""

    defaults = {}

    def __init__(self, values, ctx=None):
        super().__init__(values)
        self.reads = []
        self.writes = []

    def __getitem__(self, k):
        self.reads.append(k)
        try:
            return dict.__getitem__(self, k)
        except KeyError:
            raise Unsupported(f'configuration value {k} is not modelled')

    def __setitem__(self, k, v):
        self.writes.append(k)
        dict.__setitem__(self, k, v)

    def update(self, *a, **k):
        self.writes.append('update')


class ConfigModule:
    def __init__(self, values):
        self.basicConfig = Config(values)


def post_alt(ctx, name, got, wants, refutable=False):
    """got equals one of the (equal by definition) spec forms `wants`
    (callables); the first form that is discharged is used."""
    from .extract import eq_obls
    for w in wants[:-1]:
        r = eq_obls(got, w(), ctx.fn)
        if r is not None:
            for o in r:
                o.name, o.kind = name, 'post'
            ctx.obls.extend(r)
            return
    post_eq(ctx, name, got, wants[-1](), refutable=refutable)


def angle(name, lo=0, hi=180):
    """A real in [lo, hi] (assumed on the current path)."""
    x = core.real(name, lo=lo, hi=hi)
    core.CTX.cur.assume(b_and(x >= lo, x <= hi))
    return x


def reals(name, shape, lo=None, hi=None, assume=True):
    """Object array (or scalar for ()) of fresh reals."""
    import numpy as np

    def one(lab):
        x = core.real(lab, lo=lo, hi=hi)
        if assume:
            if lo is not None:
                core.CTX.cur.assume(x >= lo)
            if hi is not None:
                core.CTX.cur.assume(x <= hi)
        return x
    if shape == ():
        return one(name)
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = one(name + ''.join(f'_{k}' for k in i))
    return out


def lemma(name, pairs, setup=None, seed=1):
    """Spec lemma: a list of (label, thunk -> (lhs, rhs)) by the ring."""
    def body(ctx):
        for lab, t in pairs:
            l, r = t()
            ctx.oblige(f'lemma {lab}', sym(l) == sym(r), 'post', True)
    return verify(name, body, [], seed=seed, fail_fast=False)
