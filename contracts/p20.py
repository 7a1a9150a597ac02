"""P20: readers of external model files.

Proof mode: the numbers of a file are a table of symbolic length (degree,
number of splines and order are the symbolic header numbers), so that the
obligations cover files of every size.  Bounded mode: real text of stated
sizes with symbolic numbers."""
import inspect
import re
import sys
import types
import numpy as np
from pydv import core
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, Unsupported, b_and, sym
from pydv.npx import SymTable
from pydv.registry import Registry
from contracts.p14 import Numbers, Files
from contracts.pp import load_chaos

R = Registry('P20')
TRUSTED = ['numpy.fromstring, str.split and numpy.array read the numbers of '
           'the text in order',
           'BaseModel.from_bspline and augment_breaks by contract (P04)',
           'dyear_to_mjd by contract (P09)']
ASSUMPTIONS = ['well-formed files: the header counts agree with the numbers '
               'that follow; order >= 2 in COV-OBS files',
               'the position of the header numbers is that of the published '
               'files (COV-OBS: line 2 has degree, number of splines, order '
               'and break points; gufm1: degree, number of splines, break '
               'points; CALS7K: degree and number of splines are numbers 5 '
               'and 7; IGRF: table with one row per coefficient)']
FN = {w: [f'chaos.load_{w}_txtfile'] for w in ('CovObs', 'gufm1', 'CALS7K',
                                               'IGRF')}


class Knots:
    """Contract of augment_breaks (P04): opaque beyond its definition."""

    def __init__(self, breaks, order):
        self.breaks, self.order = breaks, sym(order)

    @property
    def size(self):
        return sym(self.breaks.shape[0]) + 2*(self.order - 1)

    @property
    def shape(self):
        return (self.size,)

    def __len__(self):
        raise Unsupported('len of the knots')

    def __getattr__(self, k):
        raise Unsupported(f'knots: {k}')


class DU:
    @staticmethod
    def dyear_to_mjd(time, leap_year=None):
        lp = True if leap_year is None else bool(leap_year)

        def one(x):
            return core.uf(f'mjd_{lp}', sym(x))
        if isinstance(time, SymTable):
            return time.map(one)
        t = objarr(time)
        out = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            out[i] = one(t[i])
        return out


def load(ctx, opener, fromstring, array=None, float_=None):
    M = load_chaos(ctx, None, open=opener)
    M.ns['open'] = opener
    ctx.float_text = float_
    calls = []

    def from_bspline(cls, name, knots, coeffs, order, source=None, meta=None):
        o = object.__new__(cls)
        o.__dict__.update(name=name, knots=knots, coeffs=coeffs, order=order,
                          source='internal' if source is None else source,
                          meta=meta)
        calls.append(o)
        return o
    M.ns['BaseModel'].from_bspline = classmethod(from_bspline)
    M.ns['mu'] = types.SimpleNamespace(
        augment_breaks=lambda breaks, order: Knots(breaks, order))
    M.ns['du'] = DU
    M.ns['np'].fromstring = fromstring
    if array is not None:
        old = M.ns['np'].array
        M.ns['np'].array = lambda x, *a, **k: array(old, x, *a, **k)
    return M, calls


# --- files of any size
class Text:
    """A text file given by the tables of numbers of its parts.

    parts: marker -> SymTable; the markers are the strings that readlines
    and read return."""

    def __init__(self, lines=None, whole=None, parts=None):
        self.lines, self.whole, self.parts = lines, whole, parts

    def __call__(self, path, mode='r', *a, **k):
        post_true(CTX.cur, 'opened for reading', mode in ('r', 'rt'),
                  kind='pre')
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def readlines(self):
        if self.lines is None:
            raise Unsupported('readlines of this file')
        return self.lines

    def read(self):
        if self.whole is None:
            raise Unsupported('read of this file')
        return self.whole

    def __iter__(self):
        raise Unsupported('iteration over the lines of a file')

    def fromstring(self, s, dtype=float, count=-1, sep=''):
        if sep != ' ' or dtype not in (float, 'float', np.float64) and \
                getattr(dtype, 'kind', None) is not float:
            raise Unsupported('options of np.fromstring')
        t = s.strip()
        if t not in self.parts:
            raise Unsupported(f'numbers of {t[:40]!r}')
        return self.parts[t].snapshot()

    def array(self, old, x, *a, **k):
        """np.array of the words of one or several parts."""
        if isinstance(x, list) and any(isinstance(t, str) for t in x):
            if len(x) == 1 and x[0] in self.parts:
                return self.parts[x[0]].snapshot()
            raise Unsupported('array of words')
        return old(x, *a, **k)


class Lines:
    """Lines of a file: the first `len(heads)` are given, the others are
    known by the marker of what remains from line n on."""

    def __init__(self, heads, rest):
        self.heads, self.rest = heads, rest

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.stop is None and k.step is None and k.start in self.rest:
                return [self.rest[k.start]]
            raise Unsupported('slice of the lines')
        k = int(k)
        if 0 <= k < len(self.heads):
            return self.heads[k]
        raise Unsupported('line of the file')

    def __iter__(self):
        raise Unsupported('iteration over the lines of a file')

    def __len__(self):
        raise Unsupported('number of lines')


def table(name, size, head=()):
    head = [sym(h) for h in head]

    def base(ix):
        v = sym(ix[0]).value()
        if v is not None and 0 <= v < len(head):
            return head[int(v)]
        return core.uf(name, sym(ix[0]))
    return SymTable((size,), base, name)


def check(ctx, M, calls, st, r, *, name, order, nb, brk, dim, coeff,
          conv, K, bounded=False):
    """The model of the file: nb break points brk(k) of the convention
    conv, K x dim coefficients coeff(i, j)."""
    post_true(ctx, f'loaded ({r!r})'[:100], st == 'ok')
    if st != 'ok':
        return
    post_true(ctx, 'one spline model', len(calls) == 1 and r is calls[0])
    if len(calls) != 1 or r is not calls[0]:
        return
    m = calls[0]
    post_true(ctx, f'name {m.name!r}', m.name == name)
    post_true(ctx, f'source {m.source!r}', m.source == 'internal')
    post_true(ctx, 'class', type(m) is M.ns['BaseModel'])
    post_eq(ctx, 'order', sym(m.order), sym(order))
    kn = m.knots
    if not isinstance(kn, Knots):
        raise Unsupported('knots not from augment_breaks')
    post_eq(ctx, 'order of the knots', kn.order, sym(order))
    post_eq(ctx, 'number of break points', sym(kn.breaks.shape[0]), sym(nb))
    post_true(ctx, 'break points: one dimension', len(kn.breaks.shape) == 1)
    c = m.coeffs
    post_true(ctx, 'coefficients: two dimensions', len(c.shape) == 2)
    if len(c.shape) != 2 or len(kn.breaks.shape) != 1:
        return
    post_eq(ctx, 'number of splines', sym(c.shape[0]), sym(K))
    post_eq(ctx, 'number of Gauss coefficients', sym(c.shape[1]), sym(dim))
    if bounded:
        if c.shape != (K, dim) or kn.breaks.shape != (nb,):
            return
        for k in range(nb):
            post_eq(ctx, f'break point {k}', kn.breaks[k],
                    core.uf(f'mjd_{conv}', brk(k)))
        for i in range(K):
            for j in range(dim):
                post_eq(ctx, f'coefficient {i}, {j}', c[i, j], coeff(i, j))
        return
    k = core.integer('k', lo=0, hi=40)
    i, j = core.integer('i', lo=0, hi=40), core.integer('j', lo=0, hi=40)
    ctx.assume(b_and(k >= 0, k < nb, i >= 0, i < K, j >= 0, j < dim))
    post_eq(ctx, 'break point', kn.breaks[k],
            core.uf(f'mjd_{conv}', brk(k)), refutable=False)
    post_eq(ctx, 'coefficient', c[i, j], coeff(i, j), refutable=False)


def inner(order, ns, value):
    """The splines of the file between those of the repeated end points."""
    d = sym(order) - 1

    def coeff(i, j):
        i, j = sym(i), sym(j)
        if CTX.fork(i < d):
            return sym(0)
        if CTX.fork(i < d + ns):
            return value(i - d, j)
        return sym(0)
    return coeff


def header(ctx, order=None):
    n, s = core.integer('nmax', lo=1, hi=4), core.integer('nspl', lo=1, hi=9)
    ctx.assume(b_and(n >= 1, s >= 1))
    if order is None:
        order = core.integer('order', lo=2, hi=6)
        ctx.assume(order >= 2)
    return n, s, order


NAMES = [('d/My.model', None), ('other.txt', 'X'), ('gufm1', None)]


def expected(path, name, ext):
    b = path.split('/')[-1]
    if name is not None:
        return name
    return b if ext or '.' not in b else b.rsplit('.', 1)[0]


def proof_spline(which):
    out = []
    for path, nm in NAMES:
        def body(ctx, path=path, nm=nm):
            n, s, order = header(ctx, None if which == 'CovObs' else 4)
            D = n*(n + 2)
            nb = s + order
            if which == 'CovObs':
                a = table('line2', 3 + nb, (n, s, order))
                b = table('rest', s*D)
                f = Text(Lines(['title', '\u27e6L2\u27e7'],
                               {2: '\u27e6R\u27e7'}),
                         parts={'\u27e6L2\u27e7': a, '\u27e6R\u27e7': b})
                brk = lambda k: core.uf('line2', sym(k) + 3)
                val = lambda i, j: core.uf('rest', i*D + j)
            elif which == 'gufm1':
                a = table('rest', 2 + nb + s*D, (n, s))
                f = Text(Lines(['title'], {1: '\u27e6R\u27e7'}),
                         parts={'\u27e6R\u27e7': a})
                brk = lambda k: core.uf('rest', sym(k) + 2)
                val = lambda i, j: core.uf('rest', 2 + nb + i*D + j)
            else:
                h = [core.real(f'h{k}') for k in range(7)]
                h[4], h[6] = n, s
                a = table('all', 7 + nb + s*D, h)
                f = Text(whole='\u27e6D+00\u27e7',
                         parts={'\u27e6E+00\u27e7': a,
                                '\u27e6e+00\u27e7': a})
                brk = lambda k: core.uf('all', sym(k) + 7)
                val = lambda i, j: core.uf('all', 7 + nb + i*D + j)
            M, calls = load(ctx, f, f.fromstring, f.array)
            kw = {} if nm is None else {'name': nm}
            st, r = outcome(M.ns[f'load_{which}_txtfile'], path, **kw)
            check(ctx, M, calls, st, r, name=expected(
                path, nm, which == 'CALS7K'), order=order, nb=nb, brk=brk,
                dim=D, coeff=inner(order, s, val), conv=False,
                K=s + 2*(order - 1))
        out.append(verify(f'load_{which}_txtfile {path}', body, FN[which],
                          fail_fast=False))
    return out


# --- text of stated sizes
class Dec(Numbers):
    """Numbers in text, for readers."""

    def put(self, x, exp=''):
        self.vals.append(sym(x))
        return f'\u27e6{len(self.vals) - 1}{exp}\u27e7'

    def array(self, old, x, *a, **k):
        if isinstance(x, list) and x and all(isinstance(t, str) for t in x):
            out = []
            for t in x:
                m = re.fullmatch('\u27e6(\\d+)(?:[eE][+-]?\\d+)?\u27e7', t)
                out.append(self.vals[int(m.group(1))] if m else sym(float(t)))
            return objarr(out)
        return old(x, *a, **k)


    def float(self, x):
        return self.array(None, [str.strip(x)])[0]


def wrap(tokens, n, pad=' '):
    return '\n'.join(pad + pad.join(tokens[i:i + n])
                     for i in range(0, len(tokens), n)) + '\n'


SIZES = [(1, 1), (1, 3), (2, 2), (3, 5), (4, 1), (2, 7)]


def bounded_spline(which):
    out = []
    for q, (n, s) in enumerate(SIZES):
        for order in ((2, 3, 4, 5) if which == 'CovObs' else (4,)):
            for tail in ('', '\n', '  \n\n'):
                def body(ctx, n=n, s=s, order=order, tail=tail, q=q):
                    F, N = Files(), Dec(ctx)
                    D, nb = n*(n + 2), s + order
                    b = reals('brk', (nb,))
                    c = reals('c', (s, D))
                    e = 'D+01' if which == 'CALS7K' else ''
                    bt = [N.put(x, e) for x in b]
                    ct = [N.put(x, e) for x in c.ravel()]
                    w = 3 + q
                    if which == 'CovObs':
                        t = 'COV-OBS 2 3 4\n' + f' {n} {s} {order} ' + \
                            '  '.join(bt) + '\n' + wrap(ct, w)
                    elif which == 'gufm1':
                        t = 'gufm1 7 8\n' + f'  {n} {s}\n' + wrap(
                            bt, w) + wrap(ct, w, '   ')
                    else:
                        t = wrap(['-5000.D0', '1950.D0', '0.1D+01', '3',
                                  f'{n}', '5', f'{s}'], 3 + q % 5) + wrap(
                            bt, w) + wrap(ct, w, '   ')
                        t = t.replace('.D0', '.0D0')
                    F.text['d/f.txt'] = t + tail
                    M, calls = load(ctx, F.open, N.fromstring, N.array, N.float)
                    st, r = outcome(M.ns[f'load_{which}_txtfile'], 'd/f.txt')
                    check(ctx, M, calls, st, r, name='f.txt'
                          if which == 'CALS7K' else 'f', order=order, nb=nb,
                          brk=lambda k: b[k], dim=D, conv=False, bounded=True,
                          coeff=inner(order, s, lambda i, j: c[
                              int(i.value()), int(j.value())]),
                          K=s + 2*(order - 1))
                out.append(verify(f'load_{which}_txtfile {n} {s} {order} '
                                  f'{tail!r}', body, FN[which],
                                  mode='bounded', fail_fast=False,
                                  bound=f'(degree, splines) {SIZES}'))
    return out


for _w in ('CovObs', 'gufm1', 'CALS7K'):
    @R.contract(f'{_w} file: order, break points and coefficients', FN[_w])
    def spline(mode, tier, _w=_w):
        return proof_spline(_w) if mode == 'proof' else bounded_spline(_w)


# --- IGRF
class Tokens(SymTable):
    """Words of a line; those outside of [lo, hi) are no numbers."""

    def __init__(self, name, size, lo, hi, value):
        def base(ix):
            k = sym(ix[0])
            CTX.oblige('word of the line is a number', b_and(k >= lo, k < hi),
                       'bounds')
            return value(k - lo)
        super().__init__((size,), base, name)


class Line(str):
    def __new__(cls, text, words):
        o = str.__new__(cls, text)
        o.words = words
        return o

    def split(self, *a):
        if a not in ((), (None,)):
            raise Unsupported('split with arguments')
        return self.words

    def strip(self, *a):
        return Line(str.strip(self, *a), self.words)

    def lstrip(self, *a):
        return Line(str.lstrip(self, *a), self.words)

    def rstrip(self, *a):
        return Line(str.rstrip(self, *a), self.words)


class Data(SymTable):
    """Rows of the table, one after the other (loop state)."""

    def __init__(self, rows, width, value, hist=()):
        self.rows, self.width, self.value = sym(rows), sym(width), value
        self.appended = None
        super().__init__((self.rows*self.width,), self._flat, 'data')

    def _flat(self, ix):
        raise Unsupported('single entry of the rows read so far')

    def snapshot(self):
        return self

    copy = snapshot

    def havoc(self, rows):
        self.rows = sym(rows)
        self.axes = (self.rows*self.width,)

    def reshape(self, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        if len(sh) != 2:
            raise Unsupported('shape of the table')
        a, b = sh
        if isinstance(a, (int, np.integer)) and a == -1:
            a = self.axes[0]/sym(b)
        elif isinstance(b, (int, np.integer)) and b == -1:
            b = self.axes[0]/sym(a)
        post_eq(CTX.cur, 'columns of the table', sym(b), self.width)
        post_eq(CTX.cur, 'rows of the table', sym(a), self.rows)
        v = self.value
        return SymTable((self.rows, self.width),
                        lambda ix: v(sym(ix[0]), sym(ix[1])), 'table')


class IgrfFile(Text):
    """Comments, the header line, then one line per coefficient.

    Iteration over the lines is the loop rule: the first row is executed
    after the header; then the data read so far are replaced by those of an
    arbitrary number of rows and one more row is executed (the other local
    variables of the reader must not change in it); what follows the loop
    starts from the data of all rows."""

    def __init__(self, ctx, E, rows):
        super().__init__()
        self.E, self.nrows, self.ctx = E, rows, ctx
        self.data = None
        self.value = lambda i, j: core.uf('val', i, j)

    def append(self, old, a, b, axis=None):
        if not isinstance(b, SymTable) or axis is not None or getattr(
                b, 'row', None) is None:
            return old(a, b, axis)
        W = self.E + 1
        post_eq(CTX.cur, 'numbers of the row', sym(b.shape[0]), W)
        k = core.integer('c', lo=0, hi=30)
        if CTX.fork(b_and(k >= 0, k < W)):
            post_eq(CTX.cur, 'number of the row', b[k],
                    self.value(sym(b.row), k), refutable=False)
        if isinstance(a, Data):
            n = a.rows
            post_true(CTX.cur, 'one data vector', a is self.data)
        else:
            post_true(CTX.cur, 'no data before the first row',
                      isinstance(a, np.ndarray) and a.size == 0)
            n = sym(0)
        post_eq(CTX.cur, 'rows are appended in order', sym(b.row), n)
        self.data = Data(n + 1, W, self.value)
        return self.data

    def row(self, i):
        E = self.E
        t = Tokens('row', E + 4, 3, E + 4, lambda k: self.value(sym(i), k))
        t.row = i
        return Line('g  1  0 -1.0', t)

    def locals(self):
        f = sys._getframe(2)
        return {k: v for k, v in f.f_locals.items()
                if not k.startswith('_dv')}

    def readlines(self):
        return self

    def __iter__(self):
        return self.steps()

    def steps(self):
        ctx, E = self.ctx, self.E
        yield Line('# comment 1 2', None)
        yield Line('  # 3 4', None)
        yield Line('c/s deg ord IGRF', None)
        yield Line('g/h n m 1900.0 2020.0 2020-25', Tokens(
            'header', E + 4, 3, E + 3, lambda k: core.uf('epoch', k)))
        yield self.row(0)
        if self.data is None:
            raise Unsupported('the rows are not collected by np.append')
        before = self.locals()
        i = core.integer('row', lo=1, hi=9)
        if ctx.choose('inductive step'):
            ctx.assume(b_and(i >= 1, i < self.nrows))
            d = self.data
            d.havoc(i)
            yield self.row(i)
            after = self.locals()
            for k, v in after.items():
                w = before.get(k)
                ok = v is w or isinstance(v, (Line, Tokens)) or getattr(
                    v, 'row', None) is not None or (
                    v is self.data and w is d) or type(v) in (
                    bool, int, str) and type(v) is type(w) and v == w
                if not ok:
                    post_true(ctx, f'the loop keeps {k}', False)
            raise core.PathEnd()
        self.data.havoc(self.nrows)


def tag_rows(M, f):
    """np.array keeps the row a vector of numbers came from."""
    old, app = M.ns['np'].array, M.ns['np'].append

    def array(x, *a, **k):
        r = old(x, *a, **k)
        if isinstance(x, SymTable) and getattr(x, 'row', None) is not None:
            r.row = x.row
        return r
    M.ns['np'].array = M.ns['np'].asarray = array
    M.ns['np'].append = lambda a, b, axis=None: f.append(app, a, b, axis)
    for n in ('concatenate', 'hstack'):
        cat = getattr(M.ns['np'], n)
        setattr(M.ns['np'], n, lambda q, *k, cat=cat: f.append(
            app, *q) if len(q) == 2 and not k else cat(q, *k))


class Row(Tokens):
    pass


def _slice_keeps_row():
    get = SymTable.__getitem__

    def g(self, key):
        r = get(self, key)
        if isinstance(key, slice) and isinstance(r, SymTable):
            r.row = self.row
        return r
    return g


Tokens.row = None
Tokens.__getitem__ = _slice_keeps_row()


def igrf_coeff(E, val):
    """Table to B-spline coefficients: value at each epoch, and 5 years of
    secular variation after the last."""
    def coeff(i, j):
        if CTX.fork(sym(i) < E):
            return val(sym(j), sym(i))
        return val(sym(j), sym(E) - 1) + 5*val(sym(j), sym(E))
    return coeff


def igrf_break(E, ep):
    def brk(k):
        if CTX.fork(sym(k) < E):
            return ep(sym(k))
        return ep(sym(E) - 1) + 5
    return brk


def proof_igrf():
    out = []
    for path, nm in NAMES:
        def body(ctx, path=path, nm=nm):
            E, n = core.integer('epochs', lo=1, hi=9), core.integer(
                'nmax', lo=1, hi=4)
            ctx.assume(b_and(E >= 1, n >= 1))
            D = n*(n + 2)
            f = IgrfFile(ctx, E, D)
            M, calls = load(ctx, f, f.fromstring)
            tag_rows(M, f)
            kw = {} if nm is None else {'name': nm}
            st, r = outcome(M.ns['load_IGRF_txtfile'], path, **kw)
            check(ctx, M, calls, st, r, name=expected(path, nm, False),
                  order=2, nb=E + 1, dim=D, K=E + 1, conv=True,
                  brk=igrf_break(E, lambda k: core.uf('epoch', k)),
                  coeff=igrf_coeff(E, f.value))
        out.append(verify(f'load_IGRF_txtfile {path}', body, FN['IGRF'],
                          fail_fast=False))
    return out


def bounded_igrf():
    out = []
    for n, E in ((1, 1), (1, 3), (2, 2), (3, 5), (4, 2)):
        for top in ('', '# 13th Generation IGRF 1 2 3\n',
                    '# a\n  # b\nc/s deg ord IGRF DGRF\n'):
            for tail in ('', '\n', '# end 1 2 3\n'):
                def body(ctx, n=n, E=E, top=top, tail=tail):
                    F, N = Files(), Dec(ctx)
                    D = n*(n + 2)
                    ep, c = reals('ep', (E,)), reals('c', (D, E + 1))
                    t = top + 'g/h n m ' + ' '.join(
                        N.put(x) for x in ep) + ' 2020-25\n'
                    k = 0
                    for nn in range(1, n + 1):
                        for m in range(nn + 1):
                            for g in 'gh' if m else 'g':
                                t += f'{g} {nn} {m}  ' + '  '.join(
                                    N.put(x) for x in c[k]) + ' \n'
                                k += 1
                    F.text['d/f.v.txt'] = t + tail.replace(
                        '\n', '' if tail == '\n' else '\n')
                    M, calls = load(ctx, F.open, N.fromstring, N.array, N.float)
                    st, r = outcome(M.ns['load_IGRF_txtfile'], 'd/f.v.txt')
                    check(ctx, M, calls, st, r, name='f.v', order=2,
                          nb=E + 1, dim=D, K=E + 1, conv=True, bounded=True,
                          brk=igrf_break(E, lambda k: ep[int(k.value())]),
                          coeff=igrf_coeff(E, lambda j, i: c[
                              int(j.value()), int(i.value())]))
                out.append(verify(f'load_IGRF_txtfile {n} {E} {top!r} '
                                  f'{tail!r}', body, FN['IGRF'],
                                  mode='bounded', fail_fast=False,
                                  bound='(degree, epochs) (1, 1), (1, 3), '
                                  '(2, 2), (3, 5), (4, 2)'))
    return out


@R.contract('IGRF file: linear between epochs, then secular variation',
            FN['IGRF'])
def igrf(mode, tier):
    return proof_igrf() if mode == 'proof' else bounded_igrf()
