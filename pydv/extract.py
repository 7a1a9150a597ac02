"""Mechanical extraction of the verified code from /repo.

The module source is parsed on every run and rewritten only as follows
(nothing is dropped; every function of the module is executed as written):
  * float/complex literals become exact rationals / symbolic complex numbers
    with the decimal value written in the source,
  * `a / b` becomes exact division (ints give rationals),
  * `for` loops get a prologue that cuts the loop when its range is symbolic
    (invariant established / arbitrary iteration / invariant preserved /
    exit state); loops over concrete iterables run unchanged,
  * `np`, `warnings`, scipy, h5py, sibling modules, `range`, `int`, `float`,
    `print`, `open` resolve to the stand-ins of npx.py / the contract.
"""
import ast
import builtins
import copy
import itertools
import hashlib
import math
import os
import types
import numpy as _np
from . import core, frame, npx
from .core import Sym, SBool, Unsupported, PathEnd, CTX, sym, b_and, T
from .npx import SymTable, objarr, lift2
from .engine import Obligation

REPO = os.environ.get('VERIF_REPO', '/repo')
MUT = {'append', 'extend', 'insert', 'pop', 'update', 'sort', 'remove',
       'clear', 'setdefault', 'add', 'fill', 'put', 'resize', 'write',
       'writelines'}


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = []
        self.bound = []

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.bound.append(_bound(node))
        params = _params(node)
        node.args = self.visit(node.args)
        node.body = [x for s in node.body for x in self._stmt(s)]
        if params and any(isinstance(x, ast.For) for s in node.body
                          for x in ast.walk(s)):
            # the arrays of the caller
            first = ast.Assign([ast.Name('_dv_args_', ast.Store())], _call(
                'args', [ast.Name(p, ast.Load()) for p in params], node))
            ast.copy_location(first, node)
            ast.fix_missing_locations(first)
            node.body.insert(0, first)
        self.bound.pop()
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.fn.pop()
        return node

    def _stmt(self, s):
        r = self.visit(s)
        return r if isinstance(r, list) else [r] if r is not None else []

    def visit_JoinedStr(self, node):
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            if node.value != node.value or abs(node.value) == math.inf:
                return node
            return _call('f', [ast.Constant(repr(node.value))], node)
        if isinstance(node.value, complex):
            return _call('c', [ast.Constant(repr(node.value.imag))], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return _call('div', [node.left, node.right], node)
        if isinstance(node.op, ast.Pow):
            return _call('pow', [node.left, node.right], node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and \
                node.func.attr == 'astype' and len(node.args) == 1:
            return _call('astype', [node.func.value, node.args[0]], node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in ('dtype', 'real', 'imag') and \
                isinstance(node.ctx, ast.Load):
            return _call(node.attr, [node.value], node)
        return node

    def visit_ListComp(self, node):
        """[f(x) for x in y] with f free of effects."""
        self.generic_visit(node)
        g = node.generators
        if not self.fn or len(g) != 1 or g[0].ifs or g[0].is_async or \
                not isinstance(g[0].target, ast.Name) or \
                not _pure(node.elt):
            return node
        a = ast.arguments([], [ast.arg(g[0].target.id)], None, [], [], None,
                          [])
        r = _call('listcomp', [ast.Lambda(a, node.elt), g[0].iter], node)
        ast.fix_missing_locations(r)
        return r

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.fn and len(node.targets) == 1 and (
                isinstance(node.targets[0], ast.Name)
                or isinstance(node.targets[0], ast.Tuple)
                and isinstance(node.value, (ast.Tuple, ast.Call))):
            node.value = _call('cut', [node.value], node.value)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and isinstance(node.target, ast.Name):
            load = ast.Name(node.target.id, ast.Load())
            return ast.copy_location(ast.Assign(
                [node.target], _call('idiv', [load, node.value], node)), node)
        return node

    def visit_While(self, node):
        """With cut_while: any number of iterations in which the condition
        holds, then it does not hold (termination is not proved)."""
        first = node.body[0]
        if isinstance(node.test, ast.Constant) and node.test.value is True \
                and isinstance(first, ast.If) and not first.orelse and len(
                    first.body) == 1 and isinstance(first.body[0], ast.Break) \
                and node.body[1:]:
            # while True: if c: break; ... is while not c: ...
            node = ast.copy_location(ast.While(ast.copy_location(ast.UnaryOp(
                ast.Not(), first.test), first), node.body[1:], node.orelse),
                node)
            ast.fix_missing_locations(node)
        if node.orelse or _has(node.body, ast.Break) or not self.fn:
            self.generic_visit(node)
            return node
        self.n += 1

        def rt(fn, *args):
            return _call(fn, list(args), node)
        loop = ast.For(
            ast.Name(f'_dv_w{self.n}', ast.Store()), rt('while_range'),
            [ast.Expr(rt('while_is', copy.deepcopy(node.test),
                         ast.Constant(True)))] + copy.deepcopy(node.body),
            [])
        ast.copy_location(loop, node)
        ast.fix_missing_locations(loop)
        out = self.visit_For(loop)
        out.append(ast.Expr(rt('while_is', self.visit(copy.deepcopy(
            node.test)), ast.Constant(False))))
        self.generic_visit(node)
        r = ast.If(rt('cut_while'), out, [node])
        ast.copy_location(r, node)
        ast.fix_missing_locations(r)
        return r

    def visit_For(self, node):
        names = sorted(_modified(node.body) - _names(node.target))
        rebound, stored = _rebound(node.body), _stored(node.body)
        outer = tuple(n for n in names if self.bound
                      and n not in self.bound[-1])
        tnames = sorted(_names(node.target))
        has_break = _has(node.body, ast.Break)
        self.n += 1
        lid = self.n
        it = self.visit(node.iter)
        body = [x for s in node.body for x in self._stmt(s)]
        body2 = copy.deepcopy(body)
        L = f'_dvl_{lid}'

        def name(n, ctx=ast.Load):
            return ast.Name(n, ctx())

        def meth(m, *args):
            return ast.Call(ast.Attribute(name(L), m, ast.Load()),
                            list(args), [])
        loc = ast.Call(name('locals'), [], [])
        out = []
        out.append(ast.Assign([name(L, ast.Store)], _call('loop', [
            ast.Constant(f'{".".join(self.fn)}'), ast.Constant(lid), it,
            ast.Constant(tuple(names)), ast.Constant(tuple(tnames)),
            ast.Constant(has_break or bool(node.orelse)),
            ast.Constant(outer), ast.Constant(tuple(sorted(
                stored & rebound))), ast.Constant(tuple(sorted(
                    stored)))], node)))
        conc = ast.For(node.target, ast.Attribute(name(L), 'items',
                                                  ast.Load()),
                       body, [self.visit(s) for s in node.orelse])
        sets = [ast.Assign([name(n, ast.Store)],
                           meth('get', ast.Constant(n))) for n in names
                if n not in outer]
        iterate = [ast.Assign([copy.deepcopy(node.target)],
                              ast.Attribute(name(L), 'target', ast.Load())),
                   ast.For(name('_dv_once_', ast.Store),
                           ast.Tuple([ast.Constant(0)], ast.Load()),
                           body2, []),
                   ast.Expr(meth('preserve', copy.deepcopy(loc)))]
        cut = [ast.Expr(meth('enter', loc))] + copy.deepcopy(sets) + [
            ast.If(meth('iterate'), iterate, []),
            ast.Expr(meth('exit'))] + copy.deepcopy(sets)
        cut.append(ast.Assign([copy.deepcopy(node.target)],
                              ast.Attribute(name(L), 'last', ast.Load())))
        # the items that are known come first
        out.append(ast.If(ast.Attribute(name(L), 'known', ast.Load()),
                          [conc], []))
        out.append(ast.If(ast.UnaryOp(ast.Not(), ast.Attribute(
            name(L), 'concrete', ast.Load())),
            [ast.If(meth('nonempty'), cut, [])], []))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out


def _pure(node):
    """No effects: operators, and calls of known functions."""
    for n in ast.walk(node):
        if isinstance(n, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom,
                          ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in (
                    'float', 'int', 'abs', 'len', 'min', 'max'):
                continue
            if isinstance(f, ast.Attribute) and isinstance(
                    f.value, ast.Name) and f.value.id in (
                    '_dv_rt_', 'np', 'math'):
                continue
            return False
    return True


def _call(fn, args, node):
    c = ast.Call(ast.Attribute(ast.Name('_dv_rt_', ast.Load()), fn, ast.Load()),
                 args, [])
    return ast.copy_location(c, node)


def _names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def _base(node):
    while isinstance(node, (ast.Subscript, ast.Attribute, ast.Starred)):
        node = node.value
    return node.id if isinstance(node, ast.Name) else None


_IMPORTED = set()


def _modified(body):
    out = set()

    def targets(t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                targets(x)
        else:
            b = _base(t)
            if b:
                out.add(b)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Assign(self, n):
            for t in n.targets:
                targets(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            targets(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            targets(n.target)

        def visit_For(self, n):
            targets(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    targets(i.optional_vars)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            targets(n.target)
            self.generic_visit(n)

        def visit_Delete(self, n):
            for t in n.targets:
                targets(t)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                b = _base(n.func.value)
                if isinstance(n.func.value, ast.Name) and b in _IMPORTED:
                    b = None          # a function of a module
                if b:
                    out.add(b)
            for k in n.keywords:
                if k.arg == 'out':
                    b = _base(k.value)
                    if b:
                        out.add(b)
            self.generic_visit(n)
    for s in body:
        V().visit(s)
    return out


def _scope(body):
    """The nodes of a function body without those of nested functions."""
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp,
                              ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo.extend(ast.iter_child_nodes(n))


def _params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [
        x.arg for x in (a.vararg, a.kwarg) if x]


def _bound(f):
    out, free = set(_params(f)), set()
    for n in _scope(f.body):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split('.')[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Nonlocal, ast.Global)):
            free |= set(n.names)
    return out - free


def _rebound(body):
    """Names that get another object (not by an augmented assignment)."""
    aug = {id(n.target) for n in _scope(body) if isinstance(n, ast.AugAssign)}
    return {n.id for n in _scope(body) if isinstance(n, ast.Name)
            and isinstance(n.ctx, ast.Store) and id(n) not in aug}


def _stored(body):
    """Names of objects that are changed in place."""
    out = set()
    for n in _scope(body):
        if isinstance(n, ast.AugAssign):
            out.add(_base(n.target))
        elif isinstance(n, (ast.Subscript, ast.Attribute)) and \
                not isinstance(n.ctx, ast.Load):
            out.add(_base(n))
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                out.add(_base(n.func.value))
            out |= {_base(k.value) for k in n.keywords if k.arg == 'out'}
    return out - {None}


class Args:
    """The arrays that a function was called with."""

    def __init__(self, args):
        self.ids = []

        def walk(x, depth):
            if isinstance(x, SymTable) or isinstance(x, _np.ndarray):
                self.ids.append(x)
            elif isinstance(x, (list, tuple)) and depth < 3:
                for y in x:
                    walk(y, depth + 1)
            elif isinstance(x, dict) and depth < 3:
                for y in x.values():
                    walk(y, depth + 1)
        for x in args:
            walk(x, 0)

    def __contains__(self, v):
        return any(v is x for x in self.ids)


def _has(body, kind):
    """break/continue belonging to this loop."""
    for s in body:
        if isinstance(s, kind):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if _has(getattr(s, f, []) or [], kind):
                return True
        for h in getattr(s, 'handlers', []) or []:
            if _has(h.body, kind):
                return True
    return False


# ------------------------------------------------------------- loop cutting

DEBUG = bool(os.environ.get('DV_DEBUG'))


class Restart(BaseException):
    pass


class SymRange:
    """range(lo, hi), or first, first - 1, ... for the counter lo .. hi."""

    def __init__(self, lo, hi, first=None):
        self.lo, self.hi = sym(lo), sym(hi)
        self.first = None if first is None else sym(first)

    def at(self, i):
        return i if self.first is None else self.first - (i - self.lo)

    def __reversed__(self):
        if self.first is not None:
            return SymRange(self.at(self.hi - 1), self.first + 1)
        return SymRange(0, self.hi - self.lo, self.hi - 1)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range')


def dv_range(*a):
    vals = []
    for x in a:
        if isinstance(x, Sym):
            v = x.value()
            if v is not None:
                if not isinstance(v, int):
                    raise TypeError("'float' object cannot be interpreted "
                                    "as an integer")
                x = v
        vals.append(x)
    down = False
    if any(isinstance(x, Sym) for x in vals):
        if len(vals) == 3:
            if isinstance(vals[2], Sym) or vals[2] not in (1, -1):
                raise Unsupported('symbolic range with a step')
            down = vals[2] == -1
            vals = vals[:2]
        lo, hi = (0, vals[0]) if len(vals) == 1 else vals
        for x in (lo, hi):
            if isinstance(x, Sym) and not x.is_int():
                raise Unsupported('range over a symbolic non-integer')
        if down:
            return SymRange(0, sym(lo) - hi, lo)
        return SymRange(lo, hi)
    return range(*[int(x) if isinstance(x, _np.integer) else x for x in vals])


class Poison:
    """Value that is not described by any invariant."""
    def __init__(self, name, islist=False):
        self.__dict__['_n'] = name
        self.__dict__['_l'] = islist

    def _bad(self, *a, **k):
        if self._l:     # lists of arrays are not modelled
            raise Unsupported(f'list "{self._n}" changed in a cut loop')
        raise Unsupported(f'no invariant describes "{self._n}"')
    __getattr__ = __getitem__ = __setitem__ = __call__ = __iter__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __index__ = _bad
    __eq__ = __ne__ = _bad
    __array_ufunc__ = None
    __hash__ = None


class SymSeq:
    """Sequence of symbolic length: known items, then at(0), at(1), ..."""

    def __init__(self, n, get, head=()):
        self.n, self.get, self.head = sym(n), get, list(head)
        self.lo, self.hi = sym(0), self.n

    def at(self, i):
        return self.get(i)

    def __iter__(self):
        raise Unsupported('iteration over a symbolic sequence')

    def __getattr__(self, n):
        raise Unsupported(f'{n} of a symbolic sequence')


def symseq(x):
    """x as a sequence of symbolic length, or None."""
    if isinstance(x, SymSeq):
        return x
    if hasattr(type(x), 'dv_seq'):
        return x.dv_seq()
    if isinstance(x, SymRange):
        return SymSeq(x.hi - x.lo, lambda k: x.at(x.lo + k))
    if isinstance(x, SymTable) and 0 in x.sym:
        t = x.snapshot()
        return SymSeq(t.axes[0], lambda k: t[k])
    return None


def dv_enumerate(x, start=0):
    q = symseq(x)
    if q is None:
        return enumerate(x, start)
    m = len(q.head)
    return SymSeq(q.n, lambda k: (k + m + start, q.at(k)),
                  list(enumerate(q.head, start)))


def dv_zip(*xs, strict=False):
    qs = [symseq(x) for x in xs]
    if all(q is None for q in qs):
        return zip(*xs, strict=strict)
    if any(q is None for q in qs) or any(q.head for q in qs):
        raise Unsupported('zip of a symbolic and another sequence')
    n = qs[0].n
    for q in qs[1:]:
        if (q.n - n).value() == 0 or CTX.fork(q.n == n):
            continue
        if CTX.fork(q.n < n):
            n = q.n
    return SymSeq(n, lambda k: tuple(q.at(k) for q in qs))


class ConcreteLoop:
    concrete = known = True

    def __init__(self, items):
        self.items = items


_WHILE = itertools.count()


class CutLoop:
    concrete = known = False
    items = ()

    def __init__(self, fn, lid, rng, names, tnames, bad, outer=(), both=(),
                 stored=()):
        self.free, self.both, self.stored = outer, both, stored
        if bad:
            raise Unsupported('break/else in a loop over a symbolic range')
        if not tnames or len(tnames) != 1 and not isinstance(rng, SymSeq):
            raise Unsupported('loop target')
        if getattr(rng, 'head', None):
            self.items, self.known = rng.head, True
        occ = CTX.cur.loop_count.get((fn, lid), 0)
        CTX.cur.loop_count[fn, lid] = occ + 1
        self.fn, self.rng = fn, rng
        # the n-th execution of a loop on a path has invariants of its own
        self.lid = lid if not occ else f'{lid}.{occ}'
        self.names = names
        self.var = tnames[0]

    @property
    def target(self):
        return self.rng.at(self.index)

    @property
    def last(self):
        return self.rng.at(self.rng.hi - 1)

    def nonempty(self):
        r = CTX.fork(self.rng.lo < self.rng.hi)
        return r

    def enter(self, loc):
        ctx = CTX.cur
        self.depth = len(ctx.loops)
        self.outer = [l.index for l in ctx.loops]
        self.outer_loops = list(ctx.loops)
        lo, hi = self.rng.lo, self.rng.hi
        self.index = core.integer(f'{self.var}@{self.lid}')
        H = ctx.houdini
        fam = H.family
        self.vals = {}
        # objects written through another name, changed in place here
        self.inplace = {}
        for path in sorted(H.extra.get((self.fn, self.lid), ())):
            o = dict(_reach(loc)).get(path)
            if o is None:
                continue
            if not isinstance(o, SymTable) and not (isinstance(
                    o, _np.ndarray) and o.dtype == object):
                raise Unsupported('write through an alias in a cut loop')
            self.inplace[path if len(path) > 1 else path[0]] = o
        # arrays of the caller and of enclosing functions
        args = loc.get('_dv_args_', ())
        for n in self.names:
            v = loc.get(n)
            arr = isinstance(v, SymTable) or isinstance(
                v, _np.ndarray) and v.dtype == object and v.ndim
            if n in loc and n in self.free and not arr:
                raise Unsupported(f'"{n}" of an enclosing function changed '
                                  'in a cut loop')
            if not arr or n not in self.stored or not (
                    n in self.free or v in args):
                continue
            if n in self.both:
                raise Unsupported(f'"{n}" changed and replaced in a cut loop')
            self.inplace.setdefault(n, v)
        # aliases of mutated arrays
        mods = [n for n in self.names if n in loc]
        mods += [n for n in self.inplace if n not in mods]
        obj = {n: self.inplace.get(n, loc.get(n)) if isinstance(n, str)
               else self.inplace[n] for n in mods}
        for n in mods:
            if n in self.inplace:
                continue
            v = loc[n]
            if isinstance(v, (_np.ndarray, SymTable, list, dict)):
                for n2, v2 in loc.items():
                    if n2 != n and not n2.startswith('_dv') and v2 is v:
                        raise Unsupported(f'alias of "{n}" in a cut loop')
                    if n2 != n and isinstance(
                            v2, _np.ndarray) and isinstance(v, _np.ndarray) \
                            and v.size and v2.size and \
                            _np.shares_memory(v, v2):
                        raise Unsupported(f'view of "{n}" in a cut loop')
        self.lists = {n for n in mods if isinstance(obj[n], list)
                      and not hasattr(fam, 'grow')}
        for n in mods:
            v = obj[n]
            key = (self.fn, self.lid, n)
            cand = None
            for label, cands in self._cands(v, n, H):
                if (key, label) in H.dropped:
                    continue
                try:
                    ok = cands.entry(v, lo)
                except Unsupported as e:
                    if DEBUG:
                        print('ENTRY', self._lbl(), n, label, e)
                    ok = None
                if DEBUG:
                    print('ENTRY', self._lbl(), n, label, ok is not None)
                if ok is None:
                    if (key, label) in H.used:
                        H.dropped.add((key, label))
                        raise Restart
                    continue
                cand = (label, cands, ok)
                break
            self.vals[n] = cand
            if isinstance(v, SymTable) and v.parent is not None and (
                    cand is None or cand[0] != 'unchanged'):
                v._touch()
            if (cand is None or cand[0] == 'any content') and \
                    self.outer_loops:
                o = self.outer_loops[-1]
                oc = o.vals.get(n)
                if oc is not None and oc[0] != 'any content':
                    # the outer invariant leaves nothing for this loop
                    H.dropped.add(((o.fn, o.lid, n), oc[0]))
                    for d in [d for d in H.dropped
                              if d[0] == key]:
                        H.dropped.discard(d)
                    raise Restart
            if cand:
                H.used.add((key, cand[0]))
                for o in cand[2]:
                    o.name = f'loop {self._lbl()}: {n} = {cand[0]} on entry'
                    ctx.obls.append(o)
        # first assigned in the loop
        late = getattr(fam, 'late', None)
        for n in self.names if late else ():
            if n in loc or n in self.vals:
                continue
            for label, f in late(self):
                key = ((self.fn, self.lid, n), label)
                if key not in H.dropped:
                    H.used.add(key)
                    self.vals[n] = (label, LateCand(self, n, f), None)
                    break
        self.state = 'head'
        for n in self.inplace:
            self._renew(n)
        self.marks = [(path, o, _finger(o)) for path, o in _reach(loc)]

    def _renew(self, n):
        """The object behind n takes the value its invariant states."""
        o, c = self.inplace[n], self.vals[n]
        if c is not None and c[0] == 'unchanged':
            return
        new = None if c is None else c[1].value(
            self.index if self.state == 'head' else self.rng.hi, c[2])
        if isinstance(o, SymTable):
            o._touch()
            if new is None:
                def base(ix):
                    raise Unsupported(f'no invariant describes "{n}"')
                o.base, o.log = base, []
            else:
                o.base, o.log = new.base, list(new.log)
        else:
            o[...] = Poison(n) if new is None else new

    def _aliases(self):
        """Objects from before the loop that an iteration has written."""
        out = []
        for path, o, f in self.marks:
            if not _same_finger(o, f) and not any(
                    o is x for x in self.inplace.values()):
                out.append(path)
        return out

    def _lbl(self):
        return f'{self.fn}#{self.lid}({self.var})'

    def _cands(self, v, n, H):
        ctx = CTX.cur
        if hasattr(type(v), 'dv_cands'):
            yield from v.dv_cands(self)
            return
        grow = getattr(H.family, 'grow', None)
        if grow is not None and (
                isinstance(v, list) or isinstance(v, (_np.ndarray, SymTable))
                and v.ndim == 1):
            for label, length, value in grow(self):
                yield label, GrowCand(self, v, length, value)
            for step in (1, 2, 3):
                for label, length, value in grow(self):
                    if not isinstance(v, (_np.ndarray, list, SymTable)):
                        continue
                    n0 = v.axes[0] if isinstance(v, SymTable) else len(v)
                    yield f'{label} entry+{step}*(i-lo)', GrowCand(
                        self, v, lambda i, s=step, n0=n0:
                        n0 + s*(i - self.rng.lo), value)
        if isinstance(v, SymTable):
            for label, region, value in H.family.tables(self):
                yield label, TableCand(self, v, region, value)
            yield 'unchanged', Unchanged(self, v)
            if type(v) is SymTable:
                yield 'any content', AnyContent(self, v, n)
            return
        if isinstance(v, (Sym, int, _np.integer, _np.ndarray)) and \
                not isinstance(v, bool):
            for label, f in H.family.terms(self):
                if hasattr(f, 'bind'):      # depends on the array
                    if not isinstance(v, _np.ndarray):
                        continue
                    f = f.bind(v)
                yield label, TermCand(self, v, f)
            yield 'unchanged', Unchanged(self, v)
            if isinstance(v, (Sym, int)) and sym(v).is_int():
                for step in (1, 2, -1):
                    yield f'entry{step:+d}*(i-lo)', TermCand(
                        self, v, lambda i, s=step, v0=v:
                        v0 + s*(i - self.rng.lo))
                for label, f in (('i^2', lambda i: i*i),
                                 ('i^2+2i', lambda i: i*i + 2*i),
                                 ('i^2-2i', lambda i: i*i - 2*i),
                                 ('i(i-1)/2', lambda i: i*(i - 1)/2),
                                 ('i(i+1)/2', lambda i: i*(i + 1)/2)):
                    yield f'entry+({label})-(lo)', TermCand(
                        self, v, lambda i, f=f, v0=v:
                        v0 + f(sym(i)) - f(sym(self.rng.lo)))
            if isinstance(v, _np.ndarray) and v.dtype == object and v.ndim:
                yield 'any content', AnyContent(self, v, n)
            elif not isinstance(v, _np.ndarray):
                late = getattr(H.family, 'late', None)
                for label, f in late(self) if late else ():
                    yield label, LateCand(self, n, f, v)
            return
        yield 'unchanged', Unchanged(self, v)

    def get(self, n):
        if n not in self.vals:
            return Poison(n)
        if n in self.inplace:
            return self.inplace[n]
        c = self.vals[n]
        if c is None:
            return Poison(n, n in self.lists)
        r = c[1].value(self.index if self.state == 'head' else self.rng.hi,
                       c[2])
        if frame.ACTIVE:
            frame.link(self, n, c[1].v, r)
        if isinstance(r, _np.ndarray) and type(r) is type(c[1].v):
            # stands for the same array
            CTX.cur.__dict__.setdefault('copies', {})[id(r)] = (r, c[1].v)
        return r

    def iterate(self):
        ctx = CTX.cur
        if ctx.choose('iterate'):
            ctx.assume(b_and(self.index >= self.rng.lo,
                             self.index < self.rng.hi))
            ctx.loops.append(self)
            return True
        return False

    def preserve(self, loc):
        ctx = CTX.cur
        H = ctx.houdini
        ctx.loops.pop()
        if frame.ACTIVE and frame.written(self):
            raise PathEnd('iteration')
        failed = []
        done = []
        alias = self._aliases()
        extra = H.extra.setdefault((self.fn, self.lid), set())
        new = {p for p in alias if p not in extra}
        table = {p: o for p, o, _ in self.marks}
        new = {p for p in new if isinstance(table[p], SymTable) or (
            isinstance(table[p], _np.ndarray) and table[p].dtype == object)}
        if new:
            extra |= new
            for d in [d for d in H.dropped if d[0][:2] == (self.fn,
                                                           self.lid)]:
                H.dropped.discard(d)
            raise Restart
        for n, c in self.vals.items():
            if c is None:
                continue
            key = (self.fn, self.lid, n)
            if n in self.inplace:
                loc = {**loc, n: self.inplace[n]}
            if n not in loc:
                failed.append((n, key, c[0], 9))
                continue
            try:
                r = c[1].preserved(loc[n], self.index + 1)
            except Unsupported as e:
                if DEBUG:
                    print('PRESERVE', self._lbl(), n, c[0], e)
                r = None
            if r is None:
                failed.append((n, key, c[0], _rank(c[1])))
            else:
                for o in r:
                    o.name = f'loop {self._lbl()}: {n} = {c[0]} preserved'
                done.extend(r)
        if failed:
            # others may depend on the first ones
            first = min(f[3] for f in failed)
            for n, key, label, rank in failed:
                if DEBUG:
                    print('FAILED', self._lbl(), n, label, rank)
                if rank == first:
                    H.dropped.add((key, label))
            raise Restart
        if alias:
            raise Unsupported('write through an alias in a cut loop')
        ctx.obls.extend(done)
        raise PathEnd('iteration')

    def exit(self):
        self.state = 'exit'
        for n in self.inplace:
            self._renew(n)


def _reach(loc):
    """Mutable objects the local names lead to, each with one path."""
    seen, out = set(), []

    def walk(path, o, depth):
        if id(o) in seen or depth > 6:
            return
        if isinstance(o, (SymTable, _np.ndarray)):
            seen.add(id(o))
            out.append((path, o))
            if isinstance(o, _np.ndarray) and o.dtype == object and \
                    o.size < 200:
                for k, x in enumerate(o.flat):
                    if not isinstance(x, (Sym, core.SComplex)):
                        walk(path + (k,), x, depth + 1)
        elif isinstance(o, (list, tuple, dict)):
            seen.add(id(o))
            if not isinstance(o, tuple):
                out.append((path, o))
            for k, x in (o.items() if isinstance(o, dict)
                         else enumerate(o)):
                walk(path + (str(k),), x, depth + 1)
        elif type(o).__module__.startswith('chaosmagpy.') and hasattr(
                o, '__dict__') and not isinstance(
                    o, (type, types.FunctionType)):
            seen.add(id(o))
            out.append((path, o))
            for k, x in vars(o).items():
                walk(path + (k,), x, depth + 1)
    for n, v in loc.items():
        if not n.startswith('_dv'):
            walk((n,), v, 0)
    return out


def _finger(o):
    """Content of one object (without what it leads to)."""
    if isinstance(o, SymTable):
        return (o.base, len(o.log), o.stale)
    if isinstance(o, _np.ndarray):
        return o.copy()
    if isinstance(o, dict):
        return list(o.items())
    if isinstance(o, list):
        return list(o)
    return list(vars(o).items())


def _same_finger(o, f):
    if isinstance(o, SymTable):
        return o.base is f[0] and len(o.log) == f[1] and o.stale == f[2]
    if isinstance(o, _np.ndarray):
        if o.shape != f.shape:
            return False
        if o.dtype == object:
            return all(x is y for x, y in zip(o.flat, f.flat))
        return o.tobytes() == f.tobytes()
    new = _finger(o)
    return len(new) == len(f) and all(
        a is b or (isinstance(a, tuple) and isinstance(b, tuple)
                   and len(a) == len(b) == 2 and a[0] == b[0]
                   and a[1] is b[1]) for a, b in zip(new, f))


class Unchanged:
    isint = False

    def __init__(self, loop, v):
        self.loop, self.v = loop, v

    def entry(self, v, lo):
        return []

    def value(self, i, _):
        v = self.v
        if isinstance(v, _np.ndarray):
            return v.copy()
        if isinstance(v, SymTable):
            return v.snapshot()
        if isinstance(v, list):
            self.out = list(v)
            return self.out
        return v

    def preserved(self, v, i):
        w = self.v
        if isinstance(w, list):
            return [] if v is self.out and len(v) == len(w) and all(
                a is b for a, b in zip(v, w)) else None
        if type(v) in (str, bool, type(None)) or type(w) in (
                str, bool, type(None)):
            return [] if v is w or v == w else None
        if isinstance(v, SymTable):
            if v is w or (isinstance(w, SymTable) and v.base is w.base
                          and len(v.log) == len(w.log)):
                return []
            return None
        return eq_obls(v, w, self.loop.fn)


class AnyContent:
    """The same array at the head of every iteration, with any elements."""
    isint = False

    def __init__(self, loop, v, n):
        self.loop, self.v, self.n, self.new = loop, v, n, None

    def entry(self, v, lo):
        return []

    def value(self, i, _):
        v, n = self.v, self.n
        if isinstance(v, SymTable):
            def base(ix):
                raise Unsupported(f'no invariant describes "{n}"')
            new = SymTable(v.axes, base, v.name)
        else:
            new = _np.empty(v.shape, dtype=object)
            for ix in _np.ndindex(*v.shape):
                new[ix] = Poison(n)
        if self.loop.state == 'head':
            self.new = new
        return new

    def preserved(self, v, i):
        if n_inplace(self.loop, self.n, v):
            return []
        copies = getattr(CTX.cur, 'copies', {})
        while v is not self.new and id(v) in copies:
            v = copies[id(v)][1]
        return [] if v is self.new else None


def n_inplace(loop, n, v):
    return n in loop.inplace and loop.inplace[n] is v


def _rank(c):
    """Counters come first, then what the contract puts first."""
    if isinstance(c, TermCand) and c.isint:
        return 0
    if isinstance(c, Unchanged) and isinstance(c.v, int):
        return 0
    if getattr(CTX.cur, 'laplace', None) is not None:
        return getattr(getattr(c, 'f', None), 'rank', 9)
    return 9


class TermCand:
    def __init__(self, loop, v, f):
        self.loop, self.v, self.f = loop, v, f
        self.shape = v.shape if isinstance(v, _np.ndarray) else ()
        self.isarr = isinstance(v, _np.ndarray)
        self.isint = not self.isarr and not getattr(f, 'anytype', False) and (
            isinstance(v, (int, _np.integer)) or v.is_int() and getattr(
                CTX.cur, 'laplace', None) is None)

    def term(self, i, form='at'):
        f = getattr(self.f, form, None) or self.f
        return f(i)

    def entry(self, v, lo):
        t = self.term(lo, 'entry')
        if t is None or (not self.isarr and isinstance(t, _np.ndarray)
                         and t.shape != ()):
            return None
        if self.isint:
            for x in (t, self.term(lo, 'at')):
                if not (isinstance(x, (int, Sym)) and sym(x).is_int()):
                    return None
        if self.isarr and isinstance(t, _np.ndarray) and \
                t.shape != self.shape:
            try:
                t = _np.broadcast_to(t, self.shape)
            except ValueError:
                return None
        return eq_obls(v, t, self.loop.fn,
                       quick=getattr(self.f, 'quick', False))

    def value(self, i, _):
        t = self.term(i)
        if self.isarr:
            return _np.array(_np.broadcast_to(objarr(t), self.shape),
                             dtype=object)
        if isinstance(t, _np.ndarray):
            t = t[()]
        return t

    def preserved(self, v, i):
        t = self.term(i, 'step')
        if t is None:
            return None
        if self.isarr:
            if not isinstance(v, _np.ndarray) and self.shape != ():
                return None
            if isinstance(v, _np.ndarray) and v.shape != self.shape:
                return None
            t = _np.broadcast_to(objarr(t), self.shape)
        return eq_obls(v, t, self.loop.fn,
                       quick=getattr(self.f, 'quick', False))


class LateCand:
    """A variable first assigned in the loop, or not used by the first
    iteration: its value at the head of every iteration but the first, and
    after the loop."""
    isint = False

    def __init__(self, loop, n, f, v=None):
        self.loop, self.n, self.f, self.v = loop, n, f, v

    def entry(self, v, lo):
        return []

    def value(self, i, _):
        if CTX.fork(sym(i) == self.loop.rng.lo):
            return Poison(self.n) if self.v is None else self.v
        return self.f(i)

    def preserved(self, v, i):
        return eq_obls(v, getattr(self.f, 'step', self.f)(i), self.loop.fn,
                       quick=getattr(self.f, 'quick', False))


class TableCand:
    """For all (i, j, ...) in region: table[i, j] = value."""
    isint = False

    def __init__(self, loop, v, region, value):
        self.loop, self.v, self.region, self.val = loop, v, region, value

    def facts(self, sk):
        return []

    def _v(self, ix, i):
        if getattr(self.val, 'timed', False):
            return self.val.value(ix, i)
        return self.val.value(ix)

    def _check(self, tab, i, entry=False):
        ctx = CTX.cur
        sk = tuple(core.integer(f'@s{k}') for k in range(len(tab.sym)))
        bounds = b_and(*[b_and(s >= 0, s < tab.axes[k])
                         for s, k in zip(sk, tab.sym)])
        reg = self.region(i, sk)
        if reg is None:
            return None
        hyps = [h for h in (bounds, reg) if h is not True]
        hyps += self.facts(sk)
        if reg is False:
            return []
        # explore the reads in a sub-exploration of the current path
        out = []
        todo = [()]
        base_hyps = list(ctx.hyps)
        n = 0
        while todo:
            pre = todo.pop()
            n += 1
            if n > 60:
                raise Unsupported('table invariant: too many cases')
            sub = SubCtx(ctx, pre)
            core.set_ctx(sub)
            try:
                for h in hyps:
                    sub.assume(h)
                if sub.decide(False) is False and sub.infeasible():
                    continue
                got = tab.read(sk, check=False)
                d = None if entry else getattr(self.val, 'definition', None)
                r = eq_obls(got, self._v(sk, i), self.loop.fn,
                            quick=d is not None)
                if r is None and d:
                    r = eq_obls(got, d(sk), self.loop.fn, quick=True)
                    if r is None:
                        r = eq_obls(got, self._v(sk, i), self.loop.fn)
                    if r is None:
                        r = eq_obls(got, d(sk), self.loop.fn)
                if r is None:
                    if DEBUG:
                        print('TABLE FAIL', self.loop._lbl(), sub.hyps, got,
                              self._v(sk, i))
                    return None
                out.extend(r)
            except PathEnd:
                pass
            finally:
                core.set_ctx(ctx)
            todo.extend(sub.pending)
        return out

    def entry(self, v, lo):
        return self._check(v, lo)

    def preserved(self, v, i):
        return self._check(v, i)

    def value(self, i, _):
        v = self.v
        region, val = self.region, self.val
        unk = {}

        def base(ix):
            reg = region(i, ix)
            if CTX.fork(reg) if isinstance(reg, SBool) else reg:
                return self._v(ix, i)
            cs = v.cshape
            key = tuple(sym(x).key() for x in ix)
            if key not in unk:
                unk[key] = (npx._fresh_uninit() if not cs else
                            objarr([npx._fresh_uninit()
                                    for _ in range(int(_np.prod(cs)))]
                                   ).reshape(cs))
            return unk[key]
        t = SymTable(v.axes, base, v.name)
        return t


class GrowCand(TableCand):
    """A vector or list of length(i) elements value(0), value(1), ..."""

    def __init__(self, loop, v, length, value):
        TableCand.__init__(self, loop, v, lambda i, ix: True, value)
        self.length = length
        self.kind = npx.SymList if isinstance(
            v, (list, npx.SymList)) else SymTable

    def _same(self, v, i, at=None):
        n = self.length(i)
        if n is None:
            return None
        if isinstance(v, (list, _np.ndarray)):
            if isinstance(v, _np.ndarray) and v.ndim != 1:
                return None
            k = len(v)
            items = [v[j] for j in range(k)]
            if any(not isinstance(x, (Sym, int, float, _np.number))
                   for x in items):
                return None
            v = items
        elif not isinstance(v, SymTable) or v.ndim != 1:
            return None
        m = len(v) if isinstance(v, list) else v.axes[0]
        r = eq_obls(sym(m), sym(n), self.loop.fn)
        if r is None:
            return None
        self.at = at
        if isinstance(v, list):
            for j, x in enumerate(v):
                q = eq_obls(npx.elem(x), self._v((sym(j),), i), self.loop.fn)
                if q is None:
                    return None
                r = r + q
            return r
        q = self._check(v, i)
        return None if q is None else r + q

    def facts(self, sk):
        """What the contract says about the element at the position sk,
        for the counters of the loops."""
        f = getattr(self.val, 'facts', None)
        if f is None:
            return []
        k = [l.index for l in self.loop.outer_loops]
        return list(f(sk[0], k + ([] if self.at is None else [self.at])))

    def entry(self, v, lo):
        return self._same(v, lo)

    def preserved(self, v, i):
        if self.kind is npx.SymList and not isinstance(
                v, (list, npx.SymList)):
            return None
        return self._same(v, i, i - 1)

    def value(self, i, _):
        n = self.length(i)
        return self.kind((n,), lambda ix: self._v(ix, i), 'grown')


class SubCtx:
    """A nested exploration on top of a path (obligations discarded)."""

    def __init__(self, parent, prefix):
        from .engine import Ctx
        c = Ctx(prefix, parent.fn)
        for h in parent.hyps:
            c.assume(h)
        c.data = parent.data
        c.loop_count = dict(parent.loop_count)
        c.deadline = parent.deadline
        c.houdini = parent.houdini
        for a in ('no_angle_sums', 'int_pi', 'expand_multiples', 'cuts'):
            setattr(c, a, getattr(parent, a))
        for a in ('laplace', 'real_pow', 'cut_while'):
            setattr(c, a, getattr(parent, a, None))
        self.__dict__['c'] = c

    def __getattr__(self, n):
        return getattr(self.c, n)

    def __setattr__(self, n, v):
        setattr(self.c, n, v)

    def infeasible(self):
        import z3
        return self.c.solver.check() == z3.unsat

    def oblige(self, *a, **k):
        pass


def eq_obls(v, t, fn, quick=False):
    """Obligations v == t (proved now) or None; quick: by algebra alone."""
    if isinstance(v, Poison) or isinstance(t, Poison):
        return None
    if not isinstance(v, (Sym, int, _np.integer, _np.ndarray, float,
                          core.SComplex)):
        return None
    ctx = CTX.cur
    v, t = objarr(v), objarr(t)
    if v.shape != t.shape:
        try:
            t = _np.broadcast_to(t, v.shape)
        except ValueError:
            return None
    out = []
    H = ctx.houdini
    for i in _np.ndindex(v.shape):
        if v[i] is t[i]:
            continue
        g = v[i] == t[i]
        o = Obligation('', fn, 'invariant', tuple(ctx.hyps), g, False)
        try:
            r = H.prover.prove(o, refute=False, quick=quick)
        finally:
            core.set_ctx(ctx)
        if r != 'proved':
            return None
        out.append(o)
    return out


class Houdini:
    """Selection of loop invariants among the contract's spec terms."""

    def __init__(self, family, prover):
        self.family = family
        self.prover = prover
        self.dropped = set()
        self.used = set()
        self.extra = {}


class NoFamily:
    def terms(self, loop):
        return []

    def tables(self, loop):
        return []


# ------------------------------------------------------------ runtime object

class DV:
    """Helpers called by transformed code."""
    @staticmethod
    def f(txt):
        from fractions import Fraction
        return Sym.const(Fraction(txt))

    @staticmethod
    def c(txt):
        from fractions import Fraction
        v = Sym.const(Fraction(txt))
        one = getattr(CTX.cur, 'laplace', None)
        if one is not None:     # i w is the variable s of the contract
            return v*one
        return core.SComplex(Sym.const(0), v)

    @staticmethod
    def cut(v):
        """Ghost assertion at an assignment: a value equal to a stated term
        is replaced by what its contract says about it."""
        try:
            cuts = CTX.cuts
        except AttributeError:
            return v
        if not cuts:
            return v

        def one(x):
            if isinstance(x, Sym):
                for c in cuts:
                    r = c(x)
                    if r is not None:
                        return r
            return x
        if isinstance(v, _np.ndarray) and v.dtype == object:
            out = _np.empty(v.shape, dtype=object)
            for i in _np.ndindex(*v.shape):
                out[i] = one(v[i])
            return out
        if type(v) is tuple:
            return tuple(DV.cut(x) for x in v)
        return one(v)

    @staticmethod
    def listcomp(f, it):
        if isinstance(it, SymTable) and it.ndim == 1 and it.sym == [0]:
            t = it.snapshot()
            n, get = t.axes[0], lambda k: t.read((k,), check=False)
        elif isinstance(it, SymRange):
            n, get = it.hi - it.lo, lambda k: it.at(it.lo + k)
            if not CTX.fork(n >= 0):
                n = sym(0)
        else:
            return [f(x) for x in it]
        k = core.integer('element', lo=0, hi=5)
        if CTX.choose('any element'):
            # errors and obligations of the evaluation
            CTX.cur.assume(core.b_and(k >= 0, k < n))
            f(get(k))
            raise PathEnd()
        r = npx.SymList((n,), lambda ix: f(get(sym(ix[0]))), 'list')
        if getattr(it, 'row', None) is not None:
            r.row = it.row
        return r

    @staticmethod
    def div(a, b):
        return _bin(a, b, lambda x, y: x/y)

    @staticmethod
    def idiv(a, b):
        if isinstance(a, _np.ndarray) and a.dtype == object:
            r = _bin(a, b, lambda x, y: x/y)
            a[...] = r
            return a
        if isinstance(a, SymTable):
            return a.__itruediv__(b)
        return _bin(a, b, lambda x, y: x/y)

    @staticmethod
    def pow(a, b):
        if isinstance(a, (int, _np.integer)) and not isinstance(a, bool):
            if isinstance(b, (int, _np.integer)) and b < 0:
                return Sym.const(1)/Sym.const(int(a)**int(-b))
            if isinstance(b, Sym):
                v = b.value()
                if isinstance(v, int) and v >= 0:
                    return a**v
        return a**b

    @staticmethod
    def dtype(x):
        return npx.dates.dtype_of(x)

    @staticmethod
    def real(x):
        if isinstance(x, _np.ndarray) and x.dtype == object:
            if not any(isinstance(e, core.SComplex) for e in x.flat):
                return x.view()
            return npx.lift1_arr(lambda e: e.real)(x)
        return x.real

    @staticmethod
    def imag(x):
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return npx.lift1_arr(lambda e: e.imag)(x)
        return x.imag

    @staticmethod
    def astype(x, t):
        t = npx.dt(t)
        if isinstance(x, (npx.dates.DT, npx.dates.Str)):
            return x.astype(t)
        if npx.dates.is_objects(x):
            return npx.dates.convert(x, t)
        if isinstance(x, (Sym, core.SComplex)):
            if t is int:
                return core.trunc(x)
            return x
        if isinstance(x, SymTable):
            return x.map(core.trunc) if t is int else x.snapshot()
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size and \
                isinstance(x.flat[0], (Sym, core.SComplex)):
            if npx._is_int_dtype(t):
                return npx.lift1_arr(core.trunc)(x)
            if npx._is_complex_dtype(t):
                return npx._np_array(x, complex)
            if npx._is_float_dtype(t):
                return x.copy()
            raise Unsupported(f'astype {t}')
        if isinstance(x, _np.ndarray) and x.dtype.kind in 'iub' and \
                npx._is_float_dtype(t):
            return objarr(x)
        return x.astype(t)

    @staticmethod
    def cut_while():
        return bool(getattr(CTX.cur, 'cut_while', False))

    @staticmethod
    def while_range():
        n = core.integer(f'iterations{next(_WHILE)}', lo=0, hi=4)
        CTX.cur.assume(n >= 0)
        return SymRange(0, n)

    @staticmethod
    def while_is(test, value):
        if bool(test) is not value:
            raise PathEnd('condition of the loop')

    @staticmethod
    def args(*a):
        return Args(a)

    @staticmethod
    def loop(fn, lid, it, names, tnames, bad, *more):
        if isinstance(it, SymRange):
            return CutLoop(fn, lid, it, names, tnames, bad, *more)
        q = symseq(it)
        if q is not None:
            return CutLoop(fn, lid, q, names, tnames, bad, *more)
        if isinstance(it, SymTable):
            raise Unsupported('loop over a symbolic array')
        return ConcreteLoop(it)


def _bin(a, b, f):
    simple = (int, float, Sym, core.SComplex, complex, _np.number)
    if isinstance(a, simple) and isinstance(b, simple):
        x, y = npx.elem(a), npx.elem(b)
        return f(x, y)
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        if not isinstance(a, SymTable) and not isinstance(b, SymTable):
            if (isinstance(a, _np.ndarray) and a.dtype.kind in 'mM') or (
                    isinstance(b, _np.ndarray) and b.dtype.kind in 'mM'):
                return a/b
            return lift2(f)(a, b)
    return a/b


def dv_int(x=0, *a):
    if isinstance(x, Sym):
        return core_int(x)
    if isinstance(x, _np.ndarray) and x.shape == () and x.dtype == object:
        return core_int(x[()])
    if isinstance(x, _np.ndarray) and x.size == 1 and x.dtype == object:
        return core_int(x.reshape(-1)[0])
    return int(x, *a)


def core_int(x):
    v = sym(x).value()
    if v is not None:
        return int(v)
    return core.trunc(x)


class DVInt:
    """The name `int` in verified code (call, dtype and isinstance)."""
    kind = int

    def __new__(cls, *a):
        return dv_int(*a)


class DVList:
    """The name `list` in verified code."""

    def __new__(cls, *a):
        if a and isinstance(a[0], SymTable):
            return npx.as_list(a[0])
        return list(*a)


class DVFloat:
    kind = float

    def __new__(cls, *a):
        return dv_float(*a)


class DVComplex:
    kind = complex

    def __new__(cls, *a):
        return core.SComplex(*a)


def dv_float(x=0.0):
    if isinstance(x, (Sym,)):
        return x
    if isinstance(x, _np.ndarray) and x.size == 1 and x.dtype == object:
        return x.reshape(-1)[0]
    if isinstance(x, str):
        g = getattr(CTX.cur, 'float_text', None)
        if g is not None:
            return g(x)
    return npx.elem(float(x))


def dv_abs(x):
    if isinstance(x, Sym) and x.value() is None and \
            getattr(CTX.cur, 'laplace', None) is not None:
        return core.uf('ABS', x)    # of the continuation
    return abs(x)


def dv_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    out = []
    for y in ts:
        if y is DVInt:
            y = int
        if y is DVList:
            y = list
        if y is list and isinstance(x, npx.SymList):
            return True
        if y is DVFloat:
            if isinstance(x, Sym):
                return True
            y = float
        out.append(y)
        if y is _np.ndarray and isinstance(x, SymTable):
            return True
        if y is int and isinstance(x, Sym) and x.is_int():
            return True
    return isinstance(x, tuple(out))


def dv_complex(*a):
    return core.SComplex(*a)


class WarningsStub:
    @staticmethod
    def warn(msg, *a, **k):
        CTX.warned.append(msg if isinstance(msg, str) else '?')

    @staticmethod
    def filterwarnings(*a, **k):
        pass
    simplefilter = filterwarnings


class Dummy:
    """Module that must not be used by verified code."""
    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Dummy(f'{self._n}.{n}')

    def __call__(self, *a, **k):
        raise Unsupported(f'call of external {self._n}')


_src_cache = {}


def source(modname):
    p = os.path.join(REPO, 'chaosmagpy', modname + '.py')
    with open(p) as f:
        s = f.read()
    return p, s


def code_for(modname):
    p, s = source(modname)
    h = hashlib.sha256(s.encode()).hexdigest()
    if (p, h) not in _src_cache:
        tree = ast.parse(s, p)
        _IMPORTED.clear()
        for n in tree.body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                _IMPORTED.update(a.asname or a.name.split('.')[0]
                                 for a in n.names)
        tree = Transform().visit(tree)
        ast.fix_missing_locations(tree)
        _src_cache[p, h] = (compile(tree, p, 'exec'), h)
    return _src_cache[p, h]


def functions_in(modname):
    """Qualified names of the functions of a module with their line ranges."""
    p, s = source(modname)
    out = {}

    def walk(body, pre):
        for n in body:
            if isinstance(n, (ast.FunctionDef,)):
                out[pre + n.name] = (n.lineno, n.end_lineno)
            elif isinstance(n, ast.ClassDef):
                walk(n.body, n.name + '.')
    walk(ast.parse(s).body, '')
    return out


REAL_MODULES = {'os', 'math', 're', 'json', 'copy', 'contextlib', 'textwrap',
                'timeit', 'functools', 'itertools', 'numbers', 'operator',
                'collections', 'typing', 'datetime'}


class MathStub:
    pi = property(lambda s: core.PI())

    def __getattr__(self, n):
        if n in ('cos', 'sin', 'sqrt', 'radians', 'degrees', 'floor', 'tan'):
            return getattr(core, n)
        f = getattr(math, n)
        if n == 'factorial':
            def g(k):
                v = sym(k).value()
                if v is not None:
                    return f(int(v))
                if CTX.fork(sym(k) < 0):
                    return f(-1)
                return core.factorial(k)
            return g
        return f


def load(modname, stubs=None, overrides=None):
    """Execute a module of /repo on the symbolic runtime.

    stubs: module name -> object (siblings and third party modules);
    overrides: names replaced in the namespace after execution (callee
    contracts)."""
    stubs = dict(stubs or {})
    code, h = code_for(modname)
    NPI = npx.NP()

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            m = types.SimpleNamespace()
            if name:
                return stubs.get(name, Dummy(name))
            for f in fromlist:
                setattr(m, f, stubs.get(f, Dummy(f)))
            return m
        top = name.split('.')[0]
        if name in stubs:
            if '.' in name and not fromlist:
                # `import a.b as c` takes c from the returned package a
                return types.SimpleNamespace(**{
                    name.split('.')[1]: stubs[name]})
            return stubs[name]
        if top in stubs:
            return stubs[top]
        if name == 'numpy':
            return NPI
        if name == 'warnings':
            return WarningsStub
        if name == 'math':
            return _MATH
        if top in REAL_MODULES:
            return builtins.__import__(name, globals, locals, fromlist, level)
        if fromlist:
            return Dummy(name)
        return Dummy(top)
    b = dict(vars(builtins))
    b.update(__import__=imp, range=dv_range, int=DVInt, float=DVFloat,
             isinstance=dv_isinstance, abs=dv_abs, print=lambda *a, **k: None,
             complex=DVComplex, list=DVList, open=_no_open,
             enumerate=dv_enumerate, zip=dv_zip)
    for k in ('open', 'print', 'input', 'sorted'):
        if k in stubs:
            b[k] = stubs[k]
    ns = {'__name__': f'chaosmagpy.{modname}', '__builtins__': b,
          '__file__': os.path.join(REPO, 'chaosmagpy', modname + '.py'),
          '_dv_rt_': DV}
    exec(code, ns)
    if overrides:
        for k, v in overrides.items():
            if k not in ns:
                raise Unsupported(f'{modname}.{k} not found')
            ns[k] = v
    frame.install(ns, modname)
    return types.SimpleNamespace(**{'ns': ns, 'hash': h, 'name': modname})


def _no_open(*a, **k):
    raise Unsupported('file access in verified code')


_MATH = MathStub()
