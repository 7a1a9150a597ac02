"""P14: spherical-harmonic coefficient files (SHC)."""
import io
import re
import types
import numpy as np
from pydv import core, extract
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, b_and, b_or, b_not, sym
from pydv.npx import SymTable
from pydv.registry import Registry
from contracts.pp import load_chaos

R = Registry('P14')
LEVEL = 'proof'
TRUSTED = ['str.format prints a number with the stated number of decimals, '
           'numpy.fromstring reads the numbers of a line up to the end of '
           'the text, a file read is the sequence of lines written',
           'mjd_to_dyear and dyear_to_mjd by contract (P09): inverse of each '
           'other for the same leap-year convention',
           'make_lsq_spline returns the spline that the samples were taken '
           'from when it is in the spline space and the sites satisfy the '
           'Schoenberg-Whitney conditions',
           'BaseModel.from_bspline, synth_coeffs and the constructors by '
           'contract (P04, P05, P12)']
ASSUMPTIONS = ['degrees, numbers of epochs, orders, pieces, times, break '
               'points and coefficients are arbitrary; the headers and the '
               'combinations of optional arguments are enumerated',
               'printed numbers are taken as exact (at least 8 decimals are '
               'required of the format)',
               'definition: the row (n**2 - nmin**2) + j of the table, 0 <= '
               'j <= 2n, has the degree n and the order 0, 1, -1, 2, -2, '
               '...; the site n*(order - 1) + r of a model is the r-th of '
               'order - 1 equidistant points of piece n',
               'bounded contracts of the same functions (text files, sizes '
               'enumerated) stand in where no invariant is found for a '
               'rewritten loop; the thorough tier always runs them']
FD = ['data_utils.save_shcfile', 'data_utils.load_shcfile']
FM = ['chaos.BaseModel.to_shc', 'chaos.BaseModel.from_shc']
FC = ['chaos.CHAOS.save_shcfile', 'chaos.load_CHAOS_shcfile',
      'chaos.CHAOS.from_shc'] + FM


# --- text files with symbolic numbers
class Numbers:
    """Printed numbers: text <-> value."""

    def __init__(self, ctx):
        self.vals, self.ctx = [], ctx
        ctx.format_hook = self.show

    def show(self, x, spec):
        v = x.value()
        if not spec and v is not None:
            return core.fmt(x)
        if spec in ('', 'd') and x.is_int():
            self.vals.append(x)
            return f'\u27e6{len(self.vals) - 1}\u27e7'
        m = re.fullmatch(r'[<>^]?[ +]?(\d*)\.(\d+)([feEgG])', spec or '')
        if not m or m.group(3) in 'gG':
            raise Unsupported(f'format {spec!r} of a number')
        ok = int(m.group(2)) >= (8 if m.group(3) == 'f' else 15)
        post_true(self.ctx, f'printed precision ({spec})', ok)
        self.vals.append(x)
        return f'\u27e6{len(self.vals) - 1}\u27e7'

    def fromstring(self, s, dtype=float, count=-1, sep=''):
        if sep != ' ':
            raise Unsupported('np.fromstring separator')
        out = []
        for t in s.split():
            m = re.fullmatch('\u27e6(\\d+)(?:[Ee][+-]?\\d+)?\u27e7', t)
            if m:
                out.append(self.vals[int(m.group(1))])
                continue
            try:
                out.append(sym(int(t)))
            except ValueError:
                try:
                    out.append(sym(float(t)))
                except ValueError:
                    # numpy stops at the first text
                    post_true(self.ctx, f'readable line ({t!r})'[:60], False)
                    break
        if all(x.value() is not None for x in out):
            return np.array([float(x.value()) for x in out])
        return objarr(out) if out else np.array([])


class Files:
    def __init__(self):
        self.text = {}

    def open(self, path, mode='r', *a, **k):
        fs = self

        class F(io.StringIO):
            def close(s):
                if 'w' in mode or 'a' in mode:
                    fs.text[path] = s.getvalue()
                io.StringIO.close(s)
        if mode in ('r', 'rt'):
            if path not in self.text:
                raise FileNotFoundError(path)
            return F(self.text[path])
        if mode in ('w', 'wt'):
            return F()
        raise Unsupported(f'open mode {mode!r}')


def to_dyear(t, leap_year=None):
    lp = True if leap_year is None else leap_year
    return _each(lambda x: core.uf(f'dyear_{bool(lp)}', x), t)


def to_mjd(y, leap_year=None):
    lp = True if leap_year is None else leap_year

    def one(x):
        x = sym(x)
        if x.den == core.ONE and len(x.num) == 1:
            m, c = next(iter(x.num.items()))
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = core.T.atoms[m[0][0]]
                if a.fn == f'dyear_{bool(lp)}':
                    return sym(a.args[0])
        return core.uf(f'mjd_{bool(lp)}', x)
    return _each(one, y)


def _each(f, x):
    if isinstance(x, SymTable):
        return x.map(f)
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = f(sym(x[i]))
        return out
    return f(sym(x))


def load_du(ctx):
    F, N = Files(), Numbers(ctx)
    M = extract.load('data_utils', {'open': F.open})
    M.ns['np'].fromstring = N.fromstring
    M.ns['mjd_to_dyear'], M.ns['dyear_to_mjd'] = to_dyear, to_mjd
    return M, F


def rows(nmin, nmax):
    """Position in the full coefficient vector, row by row."""
    out = []
    for n in range(nmin, nmax + 1):
        for m in [0] + [s*k for k in range(1, n + 1) for s in (1, -1)]:
            out.append((n, m, n*n - 1 + (0 if m == 0 else 2*m - 1 if m > 0
                                         else -2*m)))
    return out


SIZES = [(1, 1, 1), (1, 2, 2), (2, 3, 3), (1, 4, 1), (3, 3, 2), (4, 5, 4),
         (1, 13, 2), (12, 16, 3), (1, 6, 9)]


@R.contract('a saved coefficient series is read back', FD,
            modes=('bounded',),
            thorough_only=True)
def roundtrip(mode, tier):
    out = []
    sizes = SIZES + ([(1, 20, 3), (21, 30, 2), (1, 7, 40)]
                     if tier == 'thorough' else [])
    k = 0
    for nmin, nmax, N in sizes:
        for extra in (0, 2):
            for lw in (None, True, False):
                k += 1

                def body(ctx, nmin=nmin, nmax=nmax, N=N, extra=extra, lw=lw,
                         k=k):
                    M, F = load_du(ctx)
                    K = nmax + extra
                    t = reals('t', (N,))
                    g = reals('g', (N, K*(K + 2)))
                    given = t.copy(), g.copy()
                    if N == 1 and k % 2:
                        g = g[0]
                    order = (None, 1, 4, 6)[k % 4]
                    kw = {'filepath': 'dir/x.shc'}
                    if order is not None:
                        kw['order'] = order
                    if nmin != 1 or k % 2:
                        kw['nmin'] = nmin
                    if extra or k % 3:
                        kw['nmax'] = nmax
                    if lw is not None:
                        kw['leap_year'] = lw
                    hd = (None, '', '# one\n', '# one\n# two 5 6\n',
                          '# no end of line', '  # with blanks\n',
                          '# one\n\n  \n#  two 1 2 3\n\n')[k % 7]
                    if hd is not None:
                        kw['header'] = hd
                    st, r = outcome(M.ns['save_shcfile'], t, g, **kw)
                    post_true(ctx, f'saved ({r!r})'[:90], st == 'ok'
                              and 'dir/x.shc' in F.text)
                    if st != 'ok' or 'dir/x.shc' not in F.text:
                        return
                    ctx.oblige('the arguments are unchanged', b_and(*[
                        x == y for x, y in zip(
                            list(t.flat) + list(np.ravel(g)),
                            list(given[0].flat) + list(given[1].flat))]),
                        'post', True)
                    # the data lines of the format
                    lines = [x.split() for x in F.text['dir/x.shc'].split(
                        '\n') if x.strip() and not x.strip().startswith('#')]
                    od = 1 if order is None else order
                    post_true(ctx, 'parameter line', lines[0] == [
                        str(x) for x in (nmin, nmax, N, od, od - 1)])
                    post_true(ctx, 'one line of times, one per coefficient',
                              len(lines) == 2 + len(rows(nmin, nmax))
                              and len(lines[1]) == N)
                    post_true(ctx, 'degree and order of every line',
                              [x[:2] for x in lines[2:]] == [
                                  [str(n), str(m)] for n, m, _ in
                                  rows(nmin, nmax)])
                    kw = {} if lw is None else {'leap_year': lw}
                    st, r = outcome(M.ns['load_shcfile'], 'dir/x.shc', **kw)
                    post_true(ctx, f'loaded ({r!r})'[:90], st == 'ok'
                              and isinstance(r, tuple) and len(r) == 3)
                    if st != 'ok':
                        return
                    time, c, par = r
                    post_eq(ctx, 'times', time, objarr(t))
                    want = np.empty((len(rows(nmin, nmax)), N), dtype=object)
                    gg = objarr(g).reshape(N, -1)
                    for j, (n, m, p) in enumerate(rows(nmin, nmax)):
                        want[j] = gg[:, p]
                    post_eq(ctx, 'coefficients of the selected degrees', c,
                            want)
                    post_true(ctx, f'parameters {par!r}'[:90], {
                        q: int(par[q]) for q in par if q != 'SHC'} == dict(
                            nmin=nmin, nmax=nmax, N=N, order=od,
                            step=od - 1) and par['SHC'] == 'x.shc')
                out.append(verify(f'series {nmin} {nmax} {N} {extra} {lw}',
                                  body, FD, mode='bounded',
                                  bound='sizes (nmin, nmax, epochs) '
                                  f'{sizes}', fail_fast=False))

    def refused(ctx):
        M, F = load_du(ctx)
        st, r = outcome(M.ns['save_shcfile'], reals('t', (1,)),
                        reals('g', (15,)), nmin=4, filepath='y')
        post_true(ctx, 'empty degree range refused', st == 'raise')
    out.append(verify('empty degree range', refused, FD, mode='bounded',
                      bound='one range', fail_fast=False))
    return out


# --- series of any size
class Sink:
    """A file being written, compared with the format token by token.

    State: number of the data line (0: parameters, 1: times, 2 + r: row r of
    the table), number of the token in it, and whether the last character
    belongs to a token."""

    def __init__(self, numbers, spec):
        self.N, self.spec = numbers, spec
        self.line, self.col, self.glued = sym(0), sym(0), False
        self.comment = False
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if a[0] is None:
            self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            if self.spec.width is not None:
                post_true(CTX.cur, 'number of lines', self.line
                          == self.spec.lines)
                post_true(CTX.cur, 'last line ends', self.col == 0)

    def flush(self):
        pass

    def writelines(self, lines):
        if not isinstance(lines, (list, tuple)):
            raise Unsupported('writelines of a sequence')
        for x in lines:
            self.write(x)

    def write(self, text):
        if not isinstance(text, str):
            raise TypeError('write() argument must be str')
        for t in re.findall(r'\n|[^\S\n]+|\S+', text):
            if t == '\n':
                if not self.comment and not self.col.value() == 0:
                    post_true(CTX.cur, 'tokens of the line', self.col
                              == self.spec.width(self.line))
                    self.line, self.col = self.line + 1, sym(0)
                self.comment = self.glued = False
            elif not t.strip():
                self.glued = False
            elif self.comment:
                pass
            elif t.startswith('#') and self.col.value() == 0:
                self.comment = True
            else:
                post_true(CTX.cur, 'numbers are separated', not self.glued)
                self.glued = True
                m = re.fullmatch('\u27e6(\\d+)\u27e7', t)
                try:
                    v = self.N.vals[int(m.group(1))] if m else sym(
                        int(t))
                except ValueError:
                    post_true(CTX.cur, f'a number ({t!r})'[:60], False)
                    return
                post_true(CTX.cur, 'token of the format', sym(v)
                          == self.spec.token(self.line, self.col))
                self.col = self.col + 1

    # loops
    def dv_cands(self, loop):
        for a in (0, 1):
            for b in (0, 1):
                for g in (False, True):
                    yield f'line+{a}*(i-lo), token+{b}*(i-lo), ' + (
                        'any text before' if g else 'space before'), At(
                        self, loop, a, b, g)


class At:
    """Position in the file at the head of the i-th iteration."""
    isint = False

    def __init__(self, f, loop, a, b, glued):
        self.f, self.loop, self.a, self.b = f, loop, a, b
        self.glued = glued
        self.line, self.col = f.line, f.col
        self.v = f

    def entry(self, v, lo):
        return None if v.comment or v.glued > self.glued else []

    def at(self, i):
        k = i - self.loop.rng.lo
        return self.line + self.a*k, self.col + self.b*k

    def value(self, i, _):
        self.f.line, self.f.col = self.at(i)
        self.f.glued = self.glued
        return self.f

    def preserved(self, v, i):
        if v is not self.f or v.comment or v.glued > self.glued:
            return None
        line, col = self.at(i)
        a = extract.eq_obls(v.line, line, self.loop.fn)
        b = extract.eq_obls(v.col, col, self.loop.fn)
        return None if a is None or b is None else a + b


class Row:
    """Degrees and orders of the rows of the table."""
    timed = False

    def __init__(self, name, nmin):
        self.name, self.nmin = name, nmin

    def value(self, ix):
        return core.uf(self.name, sym(ix[0]), is_int=True)

    def facts(self, p, counters):
        """Definition: row (n**2 - nmin**2) + j, 0 <= j <= 2n, has degree n
        and order 0, 1, -1, 2, -2, ... for j = 0, 1, 2, 3, 4, ..."""
        out = []
        v = self.value((p,))
        for n in counters:
            j = p + self.nmin**2 - n*n
            own = b_or(j < 0, j > 2*n)
            if self.name == 'DEG':
                out.append(b_or(own, v == n))
            else:
                out += [b_or(own, v != 0, j == 0), b_or(own, j != 0, v == 0),
                        b_or(own, v <= 0, j == 2*v - 1),
                        b_or(own, v >= 0, j == -2*v)]
        return out


class Family:
    def __init__(self, nmin=None, vals=()):
        self.nmin, self.vals = nmin, vals

    def terms(self, loop):
        for v in self.vals:
            if isinstance(v, Times):
                yield 'left end of the piece', lambda i, v=v: v.b(
                    i - loop.rng.lo)

    def tables(self, loop):
        return []

    def grow(self, loop):
        for v in self.vals:
            for label, n in v.lengths(loop) if hasattr(
                    v, 'lengths') else ():
                yield f'{v.name} of length {label}', n, v
        if self.nmin is not None:
            for name in ('DEG', 'ORD'):
                v = Row(name, self.nmin)
                yield f'{name}(row), row < n**2 - nmin**2', \
                    lambda i: i*i - self.nmin**2, v
        for v in self.vals:
            if not hasattr(v, 'lengths'):
                yield v.name, lambda i: None, v


class Format:
    """The SHC format of a series of N epochs."""

    def __init__(self, nmin, nmax, N, order, time, value):
        self.head = [nmin, nmax, N, order, order - 1]
        self.N, self.time, self.cell = N, time, value
        self.nmin = nmin
        self.R = (nmax + 1)**2 - nmin**2
        self.lines = self.R + 2

    def width(self, line):
        v = line.value()
        return sym(5) if v == 0 else self.N if v == 1 else self.N + 2

    def token(self, line, col):
        v, c = line.value(), col.value()
        ctx = CTX.cur
        if v == 0:
            post_true(ctx, 'five parameters', c is not None and c < 5)
            return sym(self.head[c])
        if v == 1:
            post_true(ctx, 'one number per epoch', col < self.N)
            return self.time(col)
        r = line - 2
        post_true(ctx, 'a row of the table', b_and(r >= 0, r < self.R))
        if c in (0, 1):
            return Row('DEG' if c == 0 else 'ORD', self.nmin).value((r,))
        post_true(ctx, 'one coefficient per epoch', b_and(
            col >= 2, col < self.N + 2))
        return self.cell(col - 2, r)


def sizes(ctx, low=True):
    nmin = core.integer('nmin', lo=1, hi=3) if low else sym(1)
    more = core.integer('more', lo=0, hi=3)
    extra = core.integer('extra', lo=0, hi=2)
    N = core.integer('N', lo=1, hi=4)
    nmax = nmin + more
    for c in (nmin >= 1, more >= 0, extra >= 0, N >= 1,
              # of the products
              extra*nmax >= 0, extra*extra >= 0, more*nmin >= 0,
              more*more >= 0):
        ctx.assume(c)
    return nmin, nmax, N, nmax + extra


@R.contract('the file of a series of any size has the format', FD[:1],
            soft=True)
def writer(mode, tier):
    if mode == 'bounded':
        return roundtrip(mode, tier)
    out = []
    cases = [(d, o, g, lw, n) for d in (False, True) for o in (None, 'k')
             for g, lw, n in ((True, None, True), (False, True, True),
                              (True, False, False), (False, False, True))]
    heads = (None, '', '# one\n', '# one\n# two 5 6\n',
             '# no end of line', '  # with blanks\n',
             '# one\n\n  \n#  two 1 2 3\n\n')
    for q, (vector, od, given, lw, low) in enumerate(cases):
        hd = heads[q % len(heads)]
        fam = Family(core.integer('nmin', lo=1, hi=3))

        def body(ctx, vector=vector, od=od, given=given, lw=lw, hd=hd,
                 fam=fam, low=low):
            nmin, nmax, N, K = sizes(ctx, low)
            fam.nmin = nmin
            order = sym(1)
            if od:
                order = core.integer('order', lo=1, hi=6)
                ctx.assume(order >= 1)
            if not given:
                K = nmax
            if vector:
                N = sym(1)
            t = reals('t', (1,)) if vector else SymTable(
                (N,), lambda ix: core.uf('t', ix[0]), 't')
            if vector:
                g = SymTable((K*(K + 2),), lambda ix: core.uf(
                    'g', sym(0), ix[0]), 'g')
            else:
                g = SymTable((N, K*(K + 2)), lambda ix: core.uf(
                    'g', ix[0], ix[1]), 'g')
            base = g.base, len(g.log)
            lp = True if lw is None else lw
            num = Numbers(ctx)
            spec = Format(nmin, nmax, N, order, lambda c: core.uf(
                f'dyear_{lp}', sym(t[0]) if vector else core.uf('t', c)),
                lambda c, r: core.uf('g', c, r + nmin**2 - 1))
            sinks = {}

            def op(path, mode='r', *a, **k):
                if mode not in ('w', 'wt'):
                    raise Unsupported(f'open mode {mode!r}')
                sinks[path] = Sink(num, spec)
                return sinks[path]
            M = extract.load('data_utils', {'open': op})
            M.ns['mjd_to_dyear'] = to_dyear
            kw = dict(filepath='dir/x.shc')
            if low:
                kw['nmin'] = nmin
            if od:
                kw['order'] = order
            if given:
                kw['nmax'] = nmax
            if lw is not None:
                kw['leap_year'] = lw
            if hd is not None:
                kw['header'] = hd
            st, r = outcome(M.ns['save_shcfile'], t, g, **kw)
            post_true(ctx, f'saved ({r!r})'[:90], st == 'ok')
            post_true(ctx, 'one file, closed', list(sinks) == ['dir/x.shc']
                      and all(s.closed for s in sinks.values()))
            post_true(ctx, 'the arguments are unchanged', g.base is base[0]
                      and len(g.log) == base[1])
        out.append(verify(f'series {vector} {od} {given} {lw} {low}', body,
                          FD, family=fam, fail_fast=False))

    def refused(ctx):
        files = []
        M = extract.load('data_utils', {
            'open': lambda *a, **k: files.append(a)})
        M.ns['mjd_to_dyear'] = to_dyear
        nmin, nmax, N, K = sizes(ctx)
        big = core.integer('big', lo=1, hi=3)
        ctx.assume(big >= 1)
        t = SymTable((N,), lambda ix: core.uf('t', ix[0]), 't')
        g = SymTable((N, K*(K + 2)), lambda ix: core.uf(
            'g', ix[0], ix[1]), 'g')
        st, r = outcome(M.ns['save_shcfile'], t, g, nmin=nmax + big,
                        nmax=nmax, filepath='y')
        post_true(ctx, 'empty degree range refused, no file',
                  st == 'raise' and not files)
    out.append(verify('empty degree range', refused, FD, fail_fast=False))
    return out


class Line:
    """A line of the file: n numbers, the first is number p of the data."""

    def __init__(self, p, n):
        self.p, self.n = sym(p), sym(n)

    def strip(self, *a):
        return self
    rstrip = lstrip = strip

    def startswith(self, c, *a):
        if not isinstance(c, (str, tuple)):
            raise TypeError('startswith first arg must be str or a tuple')
        return False

    def __len__(self):
        raise Unsupported('length of a line')

    def __bool__(self):
        return True

    def __eq__(self, o):
        if isinstance(o, str) and not o.strip():
            return False
        raise Unsupported('comparison of a line')
    __hash__ = None

    def __getattr__(self, k):
        raise Unsupported(f'{k} of a line')

    def numbers(self):
        return SymTable((self.n,), lambda ix: datum(self.p + ix[0]), 'line')


def datum(p):
    """Number p of the file after the parameters."""
    return core.uf('DATUM', p)


class Datum:
    name, timed = 'numbers of the lines before', False

    def __init__(self, N=None):
        self.N = N

    def value(self, ix):
        return datum(sym(ix[0]))

    def lengths(self, loop):
        N = self.N
        yield 'N + r (N + 2)', lambda i: N + (i - loop.rng.lo)*(N + 2)
        yield 'r (N + 2)', lambda i: (i - loop.rng.lo)*(N + 2)


class Source:
    """A file in the format, opened for reading."""

    def __init__(self, head, N, R):
        self.head, self.N, self.R = head, N, R
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True

    def close(self):
        self.closed = True

    def dv_seq(self):
        N = self.N
        return extract.SymSeq(self.R, lambda r: Line(N + r*(N + 2), N + 2),
                              self.head + [Line(0, N)])

    def readlines(self):
        return self.dv_seq()

    def __getattr__(self, k):
        raise Unsupported(f'{k} of a file')


HEADS = ('', '# a comment\n', '# a 1 2\n\n   \n  # b 3\n')


@R.contract('a file of any size is read', FD[1:], soft=True)
def reader(mode, tier):
    if mode == 'bounded':
        return roundtrip(mode, tier)
    out = []
    for hd in HEADS:
        for lw in (None, True, False):
            dat = Datum()
            fam = Family(vals=[dat])

            def body(ctx, hd=hd, lw=lw, dat=dat):
                N = core.integer('N', lo=1, hi=4)
                rows = core.integer('R', lo=1, hi=4)
                par = [core.integer(k, lo=1, hi=9) for k in (
                    'nmin', 'nmax')] + [N] + [core.integer(
                        k, lo=0, hi=6) for k in ('order', 'step')]
                for c in (N >= 1, rows >= 1, N*rows >= 1):
                    ctx.assume(c)
                dat.N = N
                num = Numbers(ctx)
                head = hd.splitlines(True) + [' '.join(
                    format(x) for x in par) + '\n']

                def op(path, mode='r', *a, **k):
                    if mode not in ('r', 'rt'):
                        raise Unsupported(f'open mode {mode!r}')
                    post_true(ctx, f'file name {path!r}', path == 'd/x.shc')
                    return Source(head, N, rows)

                def fromstring(s, dtype=float, count=-1, sep=''):
                    if isinstance(s, Line):
                        if sep != ' ' or count != -1:
                            raise Unsupported('np.fromstring options')
                        return s.numbers()
                    return num.fromstring(s, dtype, count, sep)
                M = extract.load('data_utils', {'open': op})
                M.ns['np'].fromstring = fromstring
                M.ns['dyear_to_mjd'] = to_mjd
                kw = {} if lw is None else {'leap_year': lw}
                lp = True if lw is None else lw
                st, r = outcome(M.ns['load_shcfile'], 'd/x.shc', **kw)
                post_true(ctx, f'loaded ({r!r})'[:90], st == 'ok'
                          and isinstance(r, tuple) and len(r) == 3)
                if st != 'ok':
                    return
                time, c, p = r
                post_true(ctx, 'parameters', isinstance(p, dict) and list(
                    p) == ['SHC', 'nmin', 'nmax', 'N', 'order', 'step']
                    and p['SHC'] == 'x.shc')
                for k, x in zip(('nmin', 'nmax', 'N', 'order', 'step'), par):
                    ctx.oblige(f'parameter {k}', sym(p[k]) == x, 'post', True)
                i = core.integer('i', lo=0, hi=3)
                j = core.integer('j', lo=0, hi=3)
                ctx.assume(b_and(i >= 0, i < N, j >= 0, j < rows))
                post_true(ctx, 'shape of the times', len(time.shape) == 1
                          and sym(time.shape[0]) == N)
                post_true(ctx, 'a matrix', len(c.shape) == 2)
                ctx.oblige('number of rows', sym(c.shape[0]) == rows,
                           'post', True)
                ctx.oblige('number of epochs', sym(c.shape[1]) == N, 'post',
                           True)
                post_eq(ctx, 'times', time[i], core.uf(f'mjd_{lp}',
                                                       datum(i)))
                # third, fourth, ... number of line j of the table
                post_eq(ctx, 'coefficients', c[j, i], datum(
                    N + j*(N + 2) + 2 + i))
            out.append(verify(f'file {hd!r} {lw}', body, FD, family=fam,
                              fail_fast=False))
    return out


# --- models with any number of pieces, any order and degree
class Times:
    """Sites of a saved model: site n*step + r is b(n) + (b(n+1) -
    b(n)) r/step, 0 <= r < step, for every piece n."""
    name, timed = 'sites of the pieces before', False

    def __init__(self):
        self.step = sym(1)

    def b(self, n):
        return core.uf('b', sym(n))

    def value(self, ix):
        return core.uf('SITE', sym(ix[0]))

    def lengths(self, loop):
        yield 'i*step', lambda i: (i - loop.rng.lo)*self.step

    def at(self, n, r):
        return self.b(n) + (self.b(n + 1) - self.b(n))*r/self.step

    def facts(self, p, counters):
        out = []
        for n in counters:
            r = p - n*self.step
            out.append(b_or(r < 0, r >= self.step, self.value((p,))
                            == self.at(n, r)))
        return out


def of_model(ctx, M, tm, const, vec):
    """Spline model of symbolic order, degree and number of pieces;
    synth_coeffs by its contract."""
    P = core.integer('P', lo=1, hi=3)
    L = core.integer('L', lo=1, hi=3)
    K = sym(1) if const else core.integer('K', lo=2, hi=4)
    for c in (P >= 1, L >= 1, L*L >= 1, P*L*L >= 1) + (
            () if const else (K >= 2, P*(K - 1) >= 1)):
        ctx.assume(c)
    tm.step = sym(1) if const else K - 1
    b = SymTable((P + 1,), lambda ix: tm.b(ix[0]), 'breaks')
    m = object.__new__(M.ns['BaseModel'])

    def synth_coeffs(time, *, nmax=None, deriv=None, extrapolate=None, **k):
        post_true(CTX.cur, 'plain values', deriv is None or sym(deriv)
                  == 0, kind='pre')
        if k:
            raise Unsupported('options of synth_coeffs')
        nm = L
        if nmax is not None and (sym(nmax) - L).value() != 0:
            nm = sym(nmax) if CTX.fork(sym(nmax) < L) else L
        if not isinstance(time, SymTable) or time.ndim != 1:
            raise Unsupported('times of synth_coeffs')
        t = time.snapshot()
        vec['asked'] = vec.get('asked', 0) + 1
        return SymTable((t.axes[0], nm*(nm + 2)), lambda ix: core.uf(
            'FIELD', sym(t[ix[0]]), sym(ix[1])), 'synth')
    m.__dict__.update(name='test', breaks=b, order=K, pieces=P,
                      coeffs=SymTable((K, P, L*(L + 2)), lambda ix: core.uf(
                          'pp', *ix), 'pp'), dim=L*(L + 2), nmax=L, nmin=1,
                      source='internal', meta=None, synth_coeffs=synth_coeffs)
    return m, P, K, L


@R.contract('a model of any size is sampled at its sites', FM[:1],
            soft=True)
def sampled(mode, tier):
    if mode == 'bounded':
        return models(mode, tier)
    out = []
    for q, (const, lw, low, up, hd) in enumerate(
            (c, l, a, u, h) for c in (True, False) for l in (
                None, True, False) for a in (False, True) for u in (
                False, True) for h in (None, '# text\n')):
        tm = Times()
        fam = Family(vals=[tm])

        def body(ctx, const=const, lw=lw, low=low, up=up, hd=hd, tm=tm):
            M = load_chaos(ctx, None)
            got, vec = [], {}

            def save(*a, **k):
                names = ('time', 'coeffs', 'order', 'filepath', 'nmin',
                         'nmax', 'leap_year', 'header')
                got.append(dict(dict.fromkeys(names), **dict(zip(names, a)),
                                **k))
                if len(got[-1]) != len(names):
                    raise Unsupported('options of save_shcfile')
            M.ns['du'] = types.SimpleNamespace(save_shcfile=save)
            m, P, K, L = of_model(ctx, M, tm, const, vec)
            kw = {}
            nmin, nmax = sym(1), L
            if low:
                nmin = core.integer('nmin', lo=1, hi=3)
                ctx.assume(nmin >= 1)
                kw['nmin'] = nmin
            if up:
                nmax = core.integer('nmax', lo=1, hi=3)
                ctx.assume(b_and(nmax >= 1, nmax <= L))
                kw['nmax'] = nmax
            if lw is not None:
                kw['leap_year'] = lw
            if hd is not None:
                kw['header'] = hd
            st, r = outcome(M.ns['BaseModel'].to_shc, m, 'p/f.shc', **kw)
            post_true(ctx, f'saved ({r!r})'[:90], st == 'ok'
                      and len(got) == 1)
            if st != 'ok' or len(got) != 1:
                return
            f = got[0]
            post_true(ctx, 'file', f['filepath'] == 'p/f.shc')
            post_true(ctx, 'convention of the file', f['leap_year'] is bool(
                lw))
            h = f['header']
            post_true(ctx, 'header', h == hd if hd is not None else h is None
                      or isinstance(h, str) and all(
                          x.strip().startswith('#') for x in h.split('\n')
                          if x.strip()))
            ctx.oblige('order of the file', sym(
                1 if f['order'] is None else f['order']) == K, 'post', True)
            ctx.oblige('lowest degree', sym(
                1 if f['nmin'] is None else f['nmin']) == nmin, 'post', True)
            t, c = f['time'], f['coeffs']
            post_true(ctx, 'arrays', isinstance(t, SymTable) and t.ndim == 1
                      and isinstance(c, SymTable) and c.ndim == 2)
            ctx.oblige('highest degree', sym(f['nmax']) == nmax
                       if f['nmax'] is not None else b_and(
                           nmax == L, c.axes[1] == nmax*(nmax + 2)),
                       'post', True)
            post_true(ctx, 'no lower degree is lost', c.axes[1]
                      >= nmax*(nmax + 2))
            M_ = P if const else P*(K - 1) + 1
            ctx.oblige('number of epochs', sym(t.axes[0]) == M_, 'post',
                       True)
            ctx.oblige('epochs of the coefficients', sym(c.axes[0]) == M_,
                       'post', True)
            n, r = core.integer('n', lo=0, hi=3), core.integer(
                'r', lo=0, hi=3)
            ctx.assume(b_and(n >= 0, n < P, r >= 0, r < tm.step))
            p = n*tm.step + r
            # a site of the pieces exists
            ctx.assume(b_and(p >= 0, p < P*tm.step))
            for x in tm.facts(p, [n]):
                ctx.assume(x)
            want = tm.b(n) if const else tm.at(n, r)
            post_eq(ctx, 'sites of the pieces', t[p], want)
            j = core.integer('j', lo=0, hi=3)
            ctx.assume(b_and(j >= 0, j < nmax*(nmax + 2)))
            post_eq(ctx, 'coefficients at the sites', c[p, j], core.uf(
                'FIELD', want, j))
            if not const:
                e = P*tm.step
                post_eq(ctx, 'last site', t[e], tm.b(P))
                post_eq(ctx, 'coefficients at the last site', c[e, j],
                        core.uf('FIELD', tm.b(P), j))
        out.append(verify(f'model {const} {lw} {low} {up} {hd!r}', body, FM,
                          family=fam, fail_fast=False))

    def missing(ctx):
        M = load_chaos(ctx, None)
        got = []
        M.ns['du'] = types.SimpleNamespace(
            save_shcfile=lambda *a, **k: got.append(a))
        m, P, K, L = of_model(ctx, M, Times(), False, {})
        m.coeffs = None
        st, r = outcome(M.ns['BaseModel'].to_shc, m, 'f')
        post_true(ctx, 'no coefficients: refused', st == 'raise' and not got)
    out.append(verify('missing coefficients', missing, FM, fail_fast=False))
    return out


class Made:
    """The class whose instance is returned, by the contracts of the
    constructor and of from_bspline (P04)."""

    def __init__(self):
        self.calls = []

    def __call__(self, *a, **k):
        names = ('name', 'breaks', 'order', 'coeffs', 'source', 'meta')
        self.calls.append(('init', dict(dict.fromkeys(names),
                                        **dict(zip(names, a)), **k)))
        return self

    def from_bspline(self, *a, **k):
        names = ('name', 'knots', 'coeffs', 'order', 'source', 'meta')
        self.calls.append(('bspline', dict(dict.fromkeys(names),
                                           **dict(zip(names, a)), **k)))
        return self

    def __getattr__(self, n):
        raise Unsupported(f'class attribute {n}')


@R.contract('a file of any size is refitted to its samples', FM[1:],
            soft=True)
def refitted(mode, tier):
    if mode == 'bounded':
        return models(mode, tier)
    from contracts.p20 import Knots
    out = []
    for const in (True, False):
        for low in (False, True):
            for lw in (None, True, False):
                for opt in (False, True):
                    def body(ctx, const=const, low=low, lw=lw, opt=opt):
                        refit(ctx, const, low, lw, opt, Knots)
                    out.append(verify(f'file {const} {low} {lw} {opt}', body,
                                      FM, fail_fast=False))
    return out


def refit(ctx, const, low, lw, opt, Knots):
    M = load_chaos(ctx, None)
    P = core.integer('P', lo=1, hi=3)
    K = sym(1) if const else core.integer('K', lo=2, hi=4)
    nmin = core.integer('nmin', lo=2, hi=3) if low else sym(1)
    more = core.integer('more', lo=0, hi=2)
    nmax = nmin + more
    step = K - 1
    Nt = P if const else P*step + 1
    Nr = (nmax + 1)**2 - nmin**2
    for c in (P >= 1, K >= 1 if const else K >= 2, more >= 0,
              nmin >= (2 if low else 1), nmin*nmin >= 1, nmin*more >= 0,
              more*more >= 0, P*step >= (0 if const else 1)):
        ctx.assume(c)
    loads = []

    def load_shc(filepath, leap_year=None, comment=None):
        loads.append((filepath, leap_year, comment))
        return (SymTable((Nt,), lambda ix: core.uf('S', sym(ix[0])), 'time'),
                SymTable((Nr, Nt), lambda ix: core.uf(
                    'C', sym(ix[0]), sym(ix[1])), 'coeffs'),
                dict(SHC='f.shc', nmin=nmin, nmax=nmax, N=Nt, order=K,
                     step=step))
    M.ns['du'] = types.SimpleNamespace(load_shcfile=load_shc)
    M.ns['mu'] = types.SimpleNamespace(augment_breaks=Knots)
    fits = []
    K2 = nmax*(nmax + 2)

    def make_lsq_spline(x, y, t, k=3, w=None, axis=0, check_finite=True):
        if w is not None or axis != 0 or not isinstance(t, Knots):
            raise Unsupported('options of make_lsq_spline')
        post_true(ctx, 'arrays of samples', isinstance(x, SymTable)
                  and x.ndim == 1 and isinstance(y, SymTable) and y.ndim == 2)
        ctx.oblige('samples and sites', sym(y.axes[0]) == x.axes[0], 'pre',
                   True)
        c = SymTable((sym(t.size) - sym(k) - 1, y.axes[1]), lambda ix:
                     core.uf('FIT', sym(ix[0]), sym(ix[1])), 'fit')
        fits.append((x.snapshot(), y.snapshot(), t, sym(k)))
        return types.SimpleNamespace(c=c)
    M.ns['sip'] = types.SimpleNamespace(make_lsq_spline=make_lsq_spline)
    cls = Made()
    kw = {} if lw is None else {'leap_year': lw}
    if opt:
        kw.update(name='other', source='external', meta={'a': 1})
    f = M.ns['BaseModel'].__dict__['from_shc'].__func__
    st, o = outcome(f, cls, 'p/f.shc', **kw)
    post_true(ctx, f'loaded ({o!r})'[:90], st == 'ok' and o is cls
              and len(cls.calls) == 1)
    if st != 'ok' or len(cls.calls) != 1:
        return
    post_true(ctx, 'read with the convention of to_shc', loads == [
        ('p/f.shc', bool(lw), None)])
    how, a = cls.calls[0]
    post_true(ctx, 'name', a['name'] == ('other' if opt else 'f'))
    post_true(ctx, 'source', a['source'] == ('external' if opt
                                             else 'internal'))
    post_true(ctx, 'meta', a['meta'] == ({'a': 1} if opt else None))
    ctx.oblige('order', sym(a['order']) == K, 'post', True)
    i, j = core.integer('i', lo=0, hi=3), core.integer('j', lo=0, hi=3)
    ctx.assume(b_and(i >= 0, i < Nt, j >= 0, j < K2))
    lo = nmin*nmin - 1

    def sample(v):
        post_eq(ctx, 'samples, zero below the lowest degree', v, sym(0)
                if CTX.fork(j < lo) else core.uf('C', j - lo, i))
    if const:
        post_true(ctx, 'piecewise constant', how == 'init' and len(a) == 6)
        if how != 'init':
            return
        b, c = a['breaks'], a['coeffs']
        post_true(ctx, 'arrays', isinstance(b, SymTable) and b.ndim == 1
                  and isinstance(c, SymTable) and c.ndim == 3)
        ctx.oblige('number of break points', sym(b.axes[0]) == P + 1, 'post',
                   True)
        for x, y in zip(c.axes, (sym(1), P, K2)):
            ctx.oblige('shape of the coefficients', sym(x) == y, 'post',
                       True)
        post_eq(ctx, 'left ends of the pieces', b[i], core.uf('S', i))
        post_eq(ctx, 'right end', b[P], core.uf('S', P - 1))
        sample(c[0, i, j])
        return
    post_true(ctx, 'B-spline', how == 'bspline' and len(a) == 6
              and len(fits) == 1)
    if how != 'bspline' or len(fits) != 1:
        return
    x, y, t, k = fits[0]
    ctx.oblige('degree of the fit', k == K - 1, 'post', True)
    ctx.oblige('number of sites', sym(x.axes[0]) == Nt, 'post', True)
    ctx.oblige('number of coefficients', sym(y.axes[1]) == K2, 'post', True)
    post_eq(ctx, 'sites', x[i], core.uf('S', i))
    sample(y[i, j])
    post_true(ctx, 'knots of the fit and of the model', a['knots'] is t)
    ctx.oblige('end knots repeated', t.order == K, 'post', True)
    b = t.breaks
    post_true(ctx, 'break points', isinstance(b, SymTable) and b.ndim == 1)
    ctx.oblige('number of break points', sym(b.axes[0]) == P + 1, 'post',
               True)
    n = core.integer('n', lo=0, hi=3)
    ctx.assume(b_and(n >= 0, n <= P, n*step >= 0, n*step <= P*step))
    post_eq(ctx, 'every step-th site is a break point', b[n], core.uf(
        'S', n*step))
    c = a['coeffs']
    post_true(ctx, 'coefficients', isinstance(c, SymTable) and c.ndim == 2)
    u, v = core.integer('u', lo=0, hi=3), core.integer('v', lo=0, hi=3)
    ctx.assume(b_and(u >= 0, u < P + step, v >= 0, v < K2))
    ctx.oblige('B-splines of the model', b_and(
        sym(c.axes[0]) == P + step, sym(c.axes[1]) == K2), 'post', True)
    post_eq(ctx, 'coefficients of the fit', c[u, v], core.uf('FIT', u, v))


@R.contract('lemma: the sites determine the spline', FM, modes=('proof',))
def sites(mode, tier):
    """Lemma: site s(j) lies in the support of B-spline j, for increasing
    s(j) (Schoenberg-Whitney); no code is executed."""
    def body(ctx):
        P = core.integer('P', lo=1, hi=3)
        k = core.integer('k', lo=1, hi=3)
        j = core.integer('j', lo=0, hi=3)
        for c in (P >= 1, k >= 1, j >= 0, j < P + k, P*k >= 1):
            ctx.assume(c)
        tm = Times()
        tm.step = k

        def less(u, v):
            # the break points increase
            ctx.assume(b_or(u < 0, v > P, u >= v, tm.b(u) < tm.b(v)))
            ctx.assume(b_or(u - v != 0, tm.b(u) == tm.b(v)))

        def site(j):
            """(piece, position in the piece, number)"""
            if CTX.fork(j < P):
                return j, sym(0), j*k
            e = j - P + 1
            return P - 1, e, (P - 1)*k + e
        n, r, s = site(j)
        ctx.oblige('a site', b_and(s >= 0, s <= P*k), 'post', True)
        # knots of the B-spline: t(j) = b(max(0, j - k)),
        # t(j + k + 1) = b(min(P, j + 1))
        lo = j - k if CTX.fork(j > k) else sym(0)
        hi = j + 1 if CTX.fork(j < P) else P
        for u, v in ((n, n + 1), (lo, n), (n, hi), (n + 1, hi)):
            less(u, v)
        x = tm.at(n, r)
        ctx.oblige('inside or at the first end', b_or(tm.b(lo) < x, b_and(
            j == 0, s == 0)), 'post', True)
        ctx.oblige('inside or at the last end', b_or(x < tm.b(hi), b_and(
            j == P + k - 1, s == P*k)), 'post', True)
        if CTX.fork(j + 1 < P + k):
            ctx.oblige('different sites', site(j + 1)[2] > s, 'post', True)
        # sites increase
        q = core.integer('q', lo=0, hi=3)
        m = core.integer('m', lo=0, hi=3)
        ctx.assume(b_and(m >= 0, m < P, q >= 0, q < k))
        less(m, m + 1)
        ctx.oblige('sites of a piece increase', b_and(
            tm.at(m, q) < tm.at(m, q + 1), tm.at(m, q + 1) <= tm.b(m + 1)),
            'post', True)
    return [verify('Schoenberg-Whitney', body, FM, fail_fast=False)]


@R.contract('parts of a model of any size are saved', FC[:1],
            soft=True)
def saved_parts(mode, tier):
    if mode == 'bounded':
        return full(mode, tier)
    out = []
    for which, lw, both in ((w, l, b) for w in ('tdep', 'static', None)
                            for l in (None, True, False)
                            for b in (True, False)):
        def body(ctx, which=which, lw=lw, both=both):
            Numbers(ctx)
            M = load_chaos(ctx, None)
            got = []

            def part(tag, order):
                m = object.__new__(M.ns['BaseModel'])
                P = core.integer('P' + tag, lo=1, hi=3)
                L = core.integer('L' + tag, lo=1, hi=3)
                for c in (P >= 1, L >= 1, L*L >= 1):
                    ctx.assume(c)
                # to_shc by its contract
                m.__dict__.update(
                    name=tag, order=order, pieces=P, nmax=L, nmin=1,
                    dim=L*(L + 2), source='internal', meta=None,
                    breaks=SymTable((P + 1,), lambda ix: core.uf(
                        'b' + tag, ix[0]), tag),
                    coeffs=SymTable((order, P, L*(L + 2)), lambda ix: core.uf(
                        'pp' + tag, *ix), tag),
                    to_shc=lambda *a, **k: got.append((tag, a, k)))
                return m
            K = core.integer('K', lo=1, hi=4)
            ctx.assume(K >= 1)
            td = part('tdep', K) if both or which != 'static' else None
            sta = part('static', 1) if both or which == 'static' else None
            o = object.__new__(M.ns['CHAOS'])
            o.__dict__.update(name='CH', meta=None, timestamp='',
                              model_tdep=td, model_static=sta)
            kw = {} if lw is None else {'leap_year': lw}
            if which is not None:
                kw['model'] = which
            st, r = outcome(M.ns['CHAOS'].save_shcfile, o, 'p/f.shc', **kw)
            post_true(ctx, f'saved ({r!r})'[:90], st == 'ok'
                      and len(got) == 1)
            if st != 'ok' or len(got) != 1:
                return
            tag, a, k = got[0]
            k = dict(dict.fromkeys(('leap_year', 'nmin', 'nmax', 'header')),
                     **k)
            if a:
                k['filepath'] = a[0]
            if len(a) > 1 or len(k) != 5:
                raise Unsupported('options of to_shc')
            post_true(ctx, 'the part asked for', tag == (which or 'tdep'))
            post_true(ctx, 'file', k['filepath'] == 'p/f.shc')
            # to_shc takes None for False
            post_true(ctx, 'convention of the file', bool(
                k['leap_year']) is bool(lw))
            h = k['header']
            post_true(ctx, 'header of comments', h is None or isinstance(
                h, str) and all(x.strip().startswith('#')
                                for x in h.split('\n') if x.strip()))
            nmin = sym(1 if k['nmin'] is None else k['nmin'])
            ctx.oblige('lowest degree: static degrees above those of the '
                       'time-dependent part', nmin == (
                           td.nmax + 1 if tag == 'static' and td is not None
                           else 1), 'post', True)
            L = (sta if tag == 'static' else td).nmax
            ctx.oblige('highest degree', True if k['nmax'] is None
                       else sym(k['nmax']) == L, 'post', True)
        out.append(verify(f'save {which} {lw} {both}', body, FC,
                          fail_fast=False))
    return out


@R.contract('a file of any size becomes a part of a model', FC[1:3],
            soft=True)
def loaded_parts(mode, tier):
    if mode == 'bounded':
        return full(mode, tier)
    out = []
    for lw, named, kind, via in ((l, n, k, v) for l in (None, True, False)
                                 for n in (False, True) for k in (
                                     'static', 'constant', 'spline')
                                 for v in (False, True)):
        def body(ctx, lw=lw, named=named, kind=kind, via=via):
            M = load_chaos(ctx, None)
            reads, made = [], []
            P = sym(1) if kind == 'static' else core.integer('P', lo=1, hi=3)
            K = core.integer('K', lo=2, hi=4) if kind == 'spline' else sym(1)
            L = core.integer('L', lo=1, hi=3)
            for c in (P >= (2 if kind == 'constant' else 1), L >= 1,
                      K >= (2 if kind == 'spline' else 1), L*L >= 1):
                ctx.assume(c)
            b = SymTable((P + 1,), lambda ix: core.uf('b', ix[0]), 'b')
            c = SymTable((K, P, L*(L + 2)), lambda ix: core.uf('pp', *ix),
                         'pp')

            def from_shc(cls, *a, **k):
                """contract above"""
                k = dict(dict.fromkeys(('name', 'leap_year', 'source',
                                        'meta')), **k)
                if a:
                    k['filepath'] = a[0]
                reads.append(k)
                m = object.__new__(cls)
                m.__dict__.update(name='f' if k['name'] is None
                                  else k['name'], breaks=b, pieces=P,
                                  order=K, coeffs=c, nmax=L, nmin=1,
                                  dim=L*(L + 2), source='internal',
                                  meta=k['meta'])
                return m
            M.ns['BaseModel'].from_shc = classmethod(from_shc)
            CH = M.ns['CHAOS']

            class Full(CH):
                def __init__(self, *a, **k):
                    """The constructor by its contract (P12)."""
                    if len(a) > 2:
                        raise Unsupported('arguments of the constructor')
                    k.update(zip(('breaks', 'order'), a))
                    made.append((self, k))
            M.ns['CHAOS'] = Full
            kw = {} if lw is None else {'leap_year': lw}
            if named:
                kw['name'] = 'other'
            if via:
                st, r = outcome(CH.from_shc, 'p/f.shc', **kw)
            else:
                st, r = outcome(M.ns['load_CHAOS_shcfile'], 'p/f.shc', **kw)
            post_true(ctx, f'loaded ({r!r})'[:90], st == 'ok'
                      and len(made) == 1 and len(reads) == 1
                      and r is made[0][0])
            if st != 'ok' or len(made) != 1 or len(reads) != 1:
                return
            k = reads[0]
            post_true(ctx, 'read with the convention asked for', k[
                'filepath'] == 'p/f.shc' and bool(k['leap_year']) is bool(lw)
                and k['source'] in (None, 'internal'))
            a = made[0][1]
            post_true(ctx, 'name', a.get('name') == (
                'other' if named else 'f'))
            post_true(ctx, 'break points', a.get('breaks') is b)
            static = kind == 'static'
            post_true(ctx, 'the coefficients become the part', a.get(
                'coeffs_static' if static else 'coeffs_tdep') is c)
            ctx.oblige('order', (a.get('order') is None or sym(
                a['order']) == 1) if static else a.get('order') is not None
                and sym(a['order']) == K, 'post', True)
            post_true(ctx, 'no other part', all(
                v is None for q, v in a.items() if q not in (
                    'breaks', 'order', 'name',
                    'coeffs_static' if static else 'coeffs_tdep')))
        out.append(verify(f'load {lw} {named} {kind} {via}', body, FC,
                          fail_fast=False))
    return out


# --- models
class DU:
    """save_shcfile and load_shcfile by their contract."""

    def __init__(self):
        self.files = {}

    def save_shcfile(self, time, coeffs, order=None, filepath=None,
                     nmin=None, nmax=None, leap_year=None, header=None):
        time, coeffs = objarr(time), objarr(coeffs)
        order = 1 if order is None else int(order)
        nmin = 1 if nmin is None else int(nmin)
        nmax = int(round((coeffs.shape[-1] + 1)**.5)) - 1 if nmax is None \
            else int(nmax)
        post_true(CTX.cur, 'degrees available', nmin <= nmax
                  and coeffs.shape[-1] >= nmax*(nmax + 2), kind='pre')
        if nmin > nmax:
            raise ValueError('nmin')
        if header is not None:
            post_true(CTX.cur, 'the header is a comment', all(
                x.strip().startswith('#') for x in str(header).split('\n')
                if x.strip()), kind='pre')
        c = coeffs.reshape(1, -1) if coeffs.ndim == 1 else coeffs
        self.files[filepath] = dict(
            time=time, coeffs=c[:, nmin**2 - 1:nmax*(nmax + 2)], order=order,
            nmin=nmin, nmax=nmax,
            leap=True if leap_year is None else bool(leap_year))

    def load_shcfile(self, filepath, leap_year=None, comment=None):
        f = self.files[filepath]
        lp = True if leap_year is None else bool(leap_year)
        t = to_mjd(to_dyear(f['time'], f['leap']), lp)
        return t, f['coeffs'].T.copy(), {
            'SHC': filepath, 'nmin': f['nmin'], 'nmax': f['nmax'],
            'N': t.size, 'order': f['order'], 'step': f['order'] - 1}

    def __getattr__(self, n):
        raise Unsupported(f'data_utils.{n}')


class Spline:
    def __init__(self, c):
        self.c = c


class Sip:
    """make_lsq_spline by its contract."""

    def __init__(self):
        self.calls = []

    def make_lsq_spline(self, x, y, t, k=3, w=None, axis=0,
                        check_finite=True):
        x, y, t = objarr(x), objarr(y), objarr(t)
        n = t.size - int(k) - 1
        post_true(CTX.cur, 'enough samples', x.size >= n
                  and y.shape[0] == x.size, kind='pre')
        if w is not None or axis:
            raise Unsupported('weights of make_lsq_spline')
        c = np.empty((n,) + y.shape[1:], dtype=object)
        for i in np.ndindex(*c.shape):
            c[i] = core.real('lsq' + ''.join(f'_{j}' for j in i))
        self.calls.append((x, y, t, int(k), c))
        return Spline(c)

    def __getattr__(self, n):
        raise Unsupported(f'scipy.interpolate.{n}')


def field(t, k, src='F'):
    return core.uf(f'{src}_{k}', t)


def base_model(M, order, pieces, nmax, name='test', source='internal'):
    """A spline model: synth_coeffs by its contract."""
    b = reals('b', (pieces + 1,))
    for i in range(pieces):
        CTX.cur.assume(b[i] < b[i + 1])
    m = object.__new__(M.ns['BaseModel'])
    log = []

    def synth_coeffs(time, *, nmax=None, deriv=None, extrapolate=None, **k):
        post_true(CTX.cur, 'plain values', deriv in (None, 0), kind='pre')
        if k:
            raise Unsupported('options of synth_coeffs')
        nm = m.nmax if nmax is None else min(int(nmax), m.nmax)
        time = objarr(time)
        log.append(time)
        out = np.empty(time.shape + (nm*(nm + 2),), dtype=object)
        for i in np.ndindex(*time.shape):
            t = sym(time[i])
            if order == 1:
                # constant within a piece
                j = 0
                for q in range(1, pieces):
                    if CTX.fork(t >= b[q]):
                        j = q
                t = b[j]
            for k_ in range(nm*(nm + 2)):
                out[i + (k_,)] = field(t, k_)
        return out
    m.__dict__.update(name=name, breaks=b, order=order, pieces=pieces,
                      coeffs=objarr([[sym(1)]]), dim=nmax*(nmax + 2),
                      nmax=nmax, source=source, meta=None, nmin=1,
                      synth_coeffs=synth_coeffs)
    return m


def load(ctx):
    M = load_chaos(ctx, None)
    M.ns['du'], M.ns['sip'] = DU(), Sip()
    made = []

    def from_bspline(cls, name, knots, coeffs, order, source=None,
                     meta=None, **k):
        if k:
            raise Unsupported('options of from_bspline')
        knots, coeffs, order = objarr(knots), objarr(coeffs), int(order)
        post_true(CTX.cur, 'numbers of knots and coefficients', knots.size
                  - order == coeffs.shape[0], kind='pre')
        o = object.__new__(cls)
        n = knots.size - 2*(order - 1)
        o.__dict__.update(name=name, order=order, source=source, meta=meta,
                          breaks=knots[order - 1:knots.size - order + 1],
                          pieces=n - 1, dim=coeffs.shape[1],
                          nmax=int((coeffs.shape[1] + 1)**.5) - 1,
                          coeffs=reals('pp', (order, n - 1,
                                              coeffs.shape[1])),
                          bspline=(knots, coeffs))
        made.append(o)
        return o
    M.ns['BaseModel'].from_bspline = classmethod(from_bspline)

    def augment_breaks(breaks, order):
        """Contract (P04): the end points repeated order times."""
        b = list(objarr(breaks))
        return objarr([b[0]]*(int(order) - 1) + b + [b[-1]]*(int(order) - 1))
    M.ns['mu'] = types.SimpleNamespace(augment_breaks=augment_breaks)
    return M, made


def check_refit(ctx, M, m, o, nmin, nmax, name, source):
    """o is the model read back from the file of m."""
    post_true(ctx, 'order', int(o.order) == m.order)
    post_true(ctx, f'name and source ({o.name!r}, {o.source!r})',
              o.name == name and o.source == source)
    K = nmax*(nmax + 2)
    if m.order == 1:
        c = objarr(o.coeffs)
        post_true(ctx, 'shape of the coefficients', c.shape == (
            1, m.pieces, K))
        if c.shape != (1, m.pieces, K):
            return
        bs = objarr(o.breaks)
        post_true(ctx, 'break points', bs.shape == (m.pieces + 1,))
        post_eq(ctx, 'left ends of the pieces', bs[:-1], m.breaks[:-1])
        # the constant last piece continues to the end of the model
        ctx.oblige('right end', b_and(bs[-1] >= bs[-2], bs[-1]
                                      <= m.breaks[-1]), 'post', True)
        for j in range(m.pieces):
            post_eq(ctx, f'constants of piece {j}', c[0, j], objarr(
                [sym(0)]*(nmin**2 - 1) + [field(m.breaks[j], k) for k in
                                          range(nmin**2 - 1, K)]))
        return
    sip = M.ns['sip']
    post_true(ctx, 'one fit', len(sip.calls) == 1 and hasattr(o, 'bspline'))
    if len(sip.calls) != 1 or not hasattr(o, 'bspline'):
        return
    x, y, t, k, c = sip.calls[0]
    post_true(ctx, 'degree of the fit', k == m.order - 1)
    b = list(m.breaks)
    knots = [b[0]]*(m.order - 1) + b + [b[-1]]*(m.order - 1)
    post_eq(ctx, 'knots of the fit', t, objarr(knots))
    post_eq(ctx, 'knots of the model', o.bspline[0], objarr(knots))
    post_eq(ctx, 'coefficients of the fit', o.bspline[1], c)
    # samples: values of the saved model at sites that determine the spline
    want = np.empty((x.size, K), dtype=object)
    for i in range(x.size):
        for j in range(K):
            want[i, j] = sym(0) if j < nmin**2 - 1 else field(x[i], j)
    post_eq(ctx, 'samples of the model', y, want)
    for i in range(x.size - 1):
        ctx.oblige('sites increase', x[i] < x[i + 1], 'post', True)
    step = m.order - 1
    post_true(ctx, 'number of sites', x.size == m.pieces*step + 1)
    if x.size != m.pieces*step + 1:
        return
    # Schoenberg-Whitney: every B-spline has a site inside of its support
    n = len(knots) - m.order
    for j in range(n):
        lo, hi = knots[j], knots[j + m.order]
        q = j*(x.size - 1)/(n - 1)
        best = None
        for i in sorted(range(x.size), key=lambda i: abs(i - q)):
            # ends belong to the support of the first and last function
            if i == 0 and j == 0 or i == x.size - 1 and j == n - 1:
                best = True
                break
            if ctx.decide(b_and(lo < x[i], x[i] < hi)) is True:
                best = b_and(lo < x[i], x[i] < hi)
                break
        ctx.oblige('site in the support of each B-spline',
                   False if best is None else best, 'post', True)


ORDERS = [(k, p) for k in range(1, 9) for p in (1, 2, 3, 5)]


@R.contract('a model saved and loaded is refitted to its own samples', FM,
            modes=('bounded',),
            thorough_only=True)
def models(mode, tier):
    out = []
    orders = ORDERS + ([(k, p) for k in range(1, 12) for p in (4, 7, 12)]
                       if tier == 'thorough' else [])
    for k, (order, pieces) in enumerate(orders):
        for nmin, nmax in ((None, None), (2, None), (1, 2), (2, 2)):
            def body(ctx, order=order, pieces=pieces, nmin=nmin, nmax=nmax,
                     k=k):
                M, made = load(ctx)
                m = base_model(M, order, pieces, 3)
                lw = (None, True, False)[k % 3]
                kw = {}
                if nmin is not None:
                    kw['nmin'] = nmin
                if nmax is not None:
                    kw['nmax'] = nmax
                if lw is not None:
                    kw['leap_year'] = lw
                st, r = outcome(M.ns['BaseModel'].to_shc, m, 'p/f.shc', **kw)
                post_true(ctx, f'saved ({r!r})'[:90], st == 'ok'
                          and 'p/f.shc' in M.ns['du'].files)
                if st != 'ok' or 'p/f.shc' not in M.ns['du'].files:
                    return
                f = M.ns['du'].files['p/f.shc']
                nm = 1 if nmin is None else nmin
                nx = 3 if nmax is None else nmax
                post_true(ctx, 'degree range and order of the file', (
                    f['nmin'], f['nmax'], f['order']) == (nm, nx, order))
                post_true(ctx, 'convention of the file', f['leap'] is bool(
                    lw))
                post_true(ctx, 'number of epochs', f['time'].size == (
                    pieces if order == 1 else pieces*(order - 1) + 1))
                kw = {} if lw is None else {'leap_year': lw}
                name, src = 'f', 'internal'
                if k % 2:
                    kw['name'], kw['source'] = 'other', 'external'
                    name, src = 'other', 'external'
                st, o = outcome(M.ns['BaseModel'].from_shc, 'p/f.shc', **kw)
                post_true(ctx, f'loaded ({o!r})'[:90], st == 'ok')
                if st == 'ok':
                    check_refit(ctx, M, m, o, nm, nx, name, src)
            out.append(verify(f'order {order}, {pieces} pieces, degrees '
                              f'{nmin} to {nmax}', body, FM, mode='bounded',
                              bound=f'(order, pieces) {orders}, nmax 3',
                              fail_fast=False))

    def missing(ctx):
        M, made = load(ctx)
        m = base_model(M, 4, 2, 2)
        m.coeffs = None
        st, r = outcome(M.ns['BaseModel'].to_shc, m, 'f')
        post_true(ctx, 'no coefficients: refused', st == 'raise')
    out.append(verify('missing coefficients', missing, FM, mode='bounded',
                      bound='one', fail_fast=False))
    return out


@R.contract('parts of a full model are saved and loaded', FC,
            modes=('bounded',),
            thorough_only=True)
def full(mode, tier):
    out = []
    for which in ('tdep', 'static', None):
        for lw in (None, True, False):
            for both in (True, False):
                def body(ctx, which=which, lw=lw, both=both):
                    M, made = load(ctx)
                    o = object.__new__(M.ns['CHAOS'])
                    td = base_model(M, 4, 2, 2)
                    sta = base_model(M, 1, 1, 3)
                    sta.breaks = objarr([td.breaks[0]]*2)
                    o.__dict__.update(
                        name='CH', meta=None, timestamp='',
                        model_tdep=td if both or which != 'static' else None,
                        model_static=sta if both or which == 'static'
                        else None)
                    kw = {} if lw is None else {'leap_year': lw}
                    if which is not None:
                        kw['model'] = which
                    st, r = outcome(M.ns['CHAOS'].save_shcfile, o, 'p/f.shc',
                                    **kw)
                    fs = M.ns['du'].files
                    post_true(ctx, f'saved ({r!r})'[:90], st == 'ok'
                              and set(fs) == {'p/f.shc'})
                    if st != 'ok' or not fs:
                        return
                    kw = {} if lw is None else {'leap_year': lw}
                    st, n = outcome(M.ns['load_CHAOS_shcfile'], 'p/f.shc',
                                    **kw)
                    post_true(ctx, f'loaded ({n!r})'[:90], st == 'ok')
                    if st != 'ok':
                        return
                    post_true(ctx, f'name {n.name!r}', n.name == 'f')
                    if which == 'static':
                        post_true(ctx, 'a static model', n.model_tdep is None
                                  and n.model_static is not None)
                        if n.model_static is None:
                            return
                        c = objarr(n.model_static.coeffs)
                        lo = 8 if both else 0
                        post_eq(ctx, 'static coefficients', c, objarr(
                            [sym(0)]*lo + [field(sta.breaks[0], k)
                                           for k in range(lo, 15)]).reshape(
                            1, 1, -1))
                        post_eq(ctx, 'epoch', n.model_static.breaks,
                                sta.breaks)
                        return
                    post_true(ctx, 'a time-dependent model',
                              n.model_tdep is not None
                              and n.model_static is None)
                    if n.model_tdep is None or len(made) != 1:
                        return
                    t = n.model_tdep
                    post_true(ctx, 'order', int(t.order) == 4)
                    post_true(ctx, 'source', t.source == 'internal')
                    check_refit(ctx, M, td, made[0], 1, 2, 'f', 'internal')
                    post_eq(ctx, 'break points', t.breaks, made[0].breaks)
                    post_eq(ctx, 'coefficients', t.coeffs, made[0].coeffs)
                out.append(verify(f'save_shcfile {which} {lw} {both}', body,
                                  FC, mode='bounded',
                                  bound='order 4, 2 pieces, degree 2; '
                                  'static degree 3', fail_fast=False))
    for which in ('tdep', 'static'):
        def refused(ctx, which=which):
            M, made = load(ctx)
            o = object.__new__(M.ns['CHAOS'])
            o.__dict__.update(name='CH', model_tdep=None, model_static=None)
            st, r = outcome(M.ns['CHAOS'].save_shcfile, o, 'f', model=which)
            post_true(ctx, 'missing part refused', st == 'raise'
                      and not M.ns['du'].files)
        out.append(verify(f'missing {which}', refused, FC, mode='bounded',
                          bound='one', fail_fast=False))
    return out
