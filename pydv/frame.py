"""Frame conditions: a public function leaves its arguments, the object it is
called on, the module state and the configuration as they were.

When active, the outermost call of every public function and method of a
loaded module is bracketed: what its arguments reach is recorded on entry and
compared on every way out (return, exception, end of a path of the loop
rule)."""
import functools
import types
import numpy as np
from . import core
from .core import CTX, Unsupported, b_and, sym

ACTIVE = False
DEPTH = [0]
SKIP = ('config_utils',)
CALLS = {}


class Mark:
    """State of one object."""

    def __init__(self, obj, seen):
        self.obj = obj
        seen[id(obj)] = self
        o = obj
        t = type(o).__name__
        if isinstance(o, np.ndarray):
            self.kind = 'array'
            self.val = o.copy()
        elif t in ('SymTable', 'SymList'):
            self.kind = 'table'
            self.base, self.log = o.base, list(o.log)
            self.snap = o.snapshot()
        elif isinstance(o, dict):
            self.kind = 'dict'
            self.val = dict(o)
            self.sub = {k: mark(v, seen) for k, v in o.items()}
            self.writes = len(getattr(o, 'writes', ()))
        elif isinstance(o, (list, tuple, set)):
            self.kind = 'seq'
            self.val = list(o)
            self.sub = {k: mark(v, seen) for k, v in enumerate(o)}
        else:
            self.kind = 'object'
            self.val = dict(vars(o))
            self.sub = {k: mark(v, seen) for k, v in vars(o).items()}

    def check(self, label, out):
        o = self.obj
        if self.kind == 'array':
            if o.shape != self.val.shape:
                out.append((label + ': shape', False))
                return
            for i in np.ndindex(*o.shape):
                a, b = o[i], self.val[i]
                if a is not b:
                    out.append((f'{label}{list(i)}', same(a, b)))
            return
        if self.kind == 'table':
            if getattr(o, 'stale', False):
                out.append((label + ': written through a view', False))
            elif o.base is not self.base or len(o.log) != len(self.log):
                out.append((label, table_same(o, self.snap)))
            return
        new = {'dict': lambda: o, 'seq': lambda: dict(enumerate(o)),
               'object': lambda: vars(o)}[self.kind]()
        old = self.val if self.kind != 'seq' else dict(enumerate(self.val))
        if self.kind == 'dict' and len(getattr(o, 'writes', ())) \
                != self.writes:
            out.append((label + ': written', False))
        if list(new) != list(old):
            out.append((label + ': keys', False))
            return
        for k in old:
            if self.sub[k] is None or not isinstance(self.sub[k], Mark):
                if new[k] is not old[k]:
                    out.append((f'{label}[{k}]', same(new[k], old[k])))
            elif new[k] is not old[k]:
                # another object with the same content is no change
                out.append((f'{label}[{k}]', deep_same(
                    new[k], self.sub[k])))


def reachable(obj):
    if type(obj).__name__ == 'LArr':
        return False        # refuses assignment: nothing can change it
    if isinstance(obj, np.ndarray):
        return obj.dtype.kind != 'M'
    if type(obj).__name__ in ('SymTable', 'SymList'):
        return True
    if isinstance(obj, (dict, list, tuple, set)):
        return True
    return type(obj).__module__.startswith('chaosmagpy.') and hasattr(
        obj, '__dict__') and not isinstance(obj, (type, types.FunctionType))


def mark(obj, seen):
    if not reachable(obj):
        return None
    if id(obj) in seen:
        return seen[id(obj)]
    return Mark(obj, seen)


def same(a, b):
    """Condition under which two plain values are equal."""
    num = (core.Sym, core.SComplex, int, float, complex, np.number)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, core.SComplex) or isinstance(b, core.SComplex):
            a, b = core.SComplex.of(a), core.SComplex.of(b)
            return b_and(a.re == b.re, a.im == b.im)
        return sym(a) == sym(b)
    if a is not b and 'LArr' in (type(a).__name__, type(b).__name__):
        raise Unsupported('comparing arrays of symbolic sizes')
    try:
        return bool(a is b or a == b)
    except Exception:
        return False


def deep_same(a, m):
    if m.kind == 'array' and isinstance(a, np.ndarray):
        if a.shape != m.val.shape:
            return False
        return b_and(*[same(x, y) for x, y in zip(a.flat, m.val.flat)])
    if m.kind == 'table' and type(a).__name__ in ('SymTable', 'SymList'):
        return table_same(a, m.snap)
    return False


def table_same(a, b):
    if len(a.axes) != len(b.axes) or a.sym != b.sym:
        return False
    ix = []
    for q in b.sym:
        c = sym(a.axes[q]) == sym(b.axes[q])
        if c is not True and CTX.decide(c) is not True:
            return False
        i = core.integer(f'@f{q}', lo=0)
        CTX.cur.assume(b_and(i >= 0, i < b.axes[q]))
        ix.append(i)
    x, y = (t.read(tuple(ix), check=False) for t in (a, b))
    x, y = np.asarray(x, dtype=object), np.asarray(y, dtype=object)
    return x.shape == y.shape and b_and(*[
        same(p, q) for p, q in zip(x.flat, y.flat)])


CURRENT = {}


def owner(v):
    """Label of the marked object that v is or is a view of."""
    seen = CURRENT.get('seen', {})
    if type(v).__name__ == 'LArr':
        return None
    if id(v) in seen:
        return seen[id(v)]
    if isinstance(v, np.ndarray):
        for m in seen.values():
            if m.kind == 'array' and m.obj.size and v.size and \
                    np.shares_memory(m.obj, v):
                return m
    p = getattr(v, 'parent', None)
    while p is not None:
        if id(p) in seen:
            return seen[id(p)]
        p = p.parent
    return None


def link(loop, n, v, new):
    """`new` stands for v inside a loop."""
    if not isinstance(v, (np.ndarray, list, dict)) and \
            type(v).__name__ not in ('SymTable', 'SymList'):
        return
    m = owner(v)
    if m is None or not reachable(new):
        return
    loop.__dict__.setdefault('linked', []).append((n, m, mark(new, {})))


def written(loop):
    """Frame obligations for arguments that stand behind loop variables."""
    bad = False
    for n, m, k in loop.__dict__.get('linked', ()):
        out = []
        k.check(f'argument as "{n}" in a loop', out)
        for lab, c in out:
            CTX.oblige(f'unchanged: {lab}', c, 'frame')
            bad = bad or c is not True
    return bad


def state(ns):
    """Module globals, class attributes and defaults of functions."""
    out = {}
    for k, v in ns.items():
        if k.startswith('__') or k == '_dv_rt_':
            continue
        if isinstance(v, types.FunctionType) and v.__globals__ is ns:
            f = getattr(v, '__wrapped__', v)
            out[f'defaults of {k}'] = list(f.__defaults__ or ()) + sorted(
                (f.__kwdefaults__ or {}).items(), key=lambda x: x[0])
        elif isinstance(v, type) and v.__module__ == ns['__name__']:
            for q, w in vars(v).items():
                if isinstance(w, types.FunctionType):
                    f = getattr(w, '__wrapped__', w)
                    out[f'defaults of {k}.{q}'] = list(f.__defaults__ or ())
                elif not q.startswith('__'):
                    out[f'{k}.{q}'] = w
        elif not isinstance(v, (types.ModuleType, types.FunctionType, type)):
            out[k] = v
    for k in ('basicConfig',):
        c = ns.get('config_utils')
        c = getattr(c, k, None)
        if isinstance(c, dict):
            out[k] = c
    return out


def bracket(f, name, ns, new=False):
    """new: the first argument is under construction."""
    @functools.wraps(f)
    def g(*a, **k):
        if not ACTIVE or CTX.cur is None or DEPTH[0]:
            return f(*a, **k)
        DEPTH[0] += 1
        try:
            seen = {}
            roots = {}
            for q, v in list(enumerate(a))[new:] + list(k.items()):
                roots[f'{name}: argument {q}'] = mark(v, seen)
            st = state(ns)
            for q, v in st.items():
                roots[f'{name}: {q}'] = mark(v, seen)
            over = False
            CURRENT['seen'] = seen
            try:
                r = f(*a, **k)
            except (Unsupported,):
                over = True
                raise
            except BaseException as e:
                over = type(e).__name__ == 'Restart'
                raise
            finally:
                if not over:
                    conclude(name, ns, roots, seen, st)
            return r
        finally:
            DEPTH[0] -= 1
    return g


def conclude(name, ns, roots, seen, st):
    CALLS[name] = CALLS.get(name, 0) + 1
    out = []
    labels = {}
    for lab, m in roots.items():
        walk(m, lab, labels)
    for m in seen.values():
        lab, n = labels.get(id(m), name), len(out)
        m.check(lab, out)
        if len(out) == n:
            out.append((lab, True))
    new = state(ns)
    for q, v in st.items():
        if q not in new:
            out.append((f'{name}: {q} removed', False))
        elif new[q] is not v and not q.startswith('defaults'):
            out.append((f'{name}: {q} replaced', same(new[q], v)))
    for q in new:
        if q not in st:
            out.append((f'{name}: {q} added', False))
    for lab, c in out:
        CTX.oblige(f'unchanged: {lab}', c, 'frame')
    CTX.oblige(f'frame of {name}', True, 'frame')


def walk(m, lab, labels):
    if m is None or id(m) in labels:
        return
    labels[id(m)] = lab
    if m.kind in ('dict', 'seq', 'object'):
        for k, s in m.sub.items():
            walk(s, f'{lab}.{k}' if m.kind == 'object' else f'{lab}[{k!r}]',
                 labels)


def private(f):
    """Called from a contract directly: what it calls is part of it."""
    @functools.wraps(f)
    def g(*a, **k):
        DEPTH[0] += 1
        try:
            return f(*a, **k)
        finally:
            DEPTH[0] -= 1
    return g


def install(ns, modname):
    if not ACTIVE or modname in SKIP:
        return
    for k, v in list(ns.items()):
        if isinstance(v, types.FunctionType) and v.__globals__ is ns:
            ns[k] = private(v) if k.startswith('_') else bracket(
                v, f'{modname}.{k}', ns)
        elif isinstance(v, type) and v.__module__ == ns['__name__']:
            for q, w in list(vars(v).items()):
                lab = f'{modname}.{k}.{q}'
                if q == '__init__':
                    setattr(v, q, bracket(w, lab, ns, True))
                elif q.startswith('_') and q not in ('__call__', '__str__',
                                                   '__repr__'):
                    if isinstance(w, types.FunctionType):
                        setattr(v, q, private(w))
                elif isinstance(w, types.FunctionType):
                    setattr(v, q, bracket(w, lab, ns))
                elif isinstance(w, (classmethod, staticmethod)):
                    setattr(v, q, type(w)(bracket(w.__func__, lab, ns)))
