"""P15: models in MAT files.

The file is modelled by the contract of hdf5storage: `write` stores a value
at a path, `loadmat` returns what was stored (numbers unchanged, arrays in
the shape written, a group of paths as a record array of shape (1,)).  The
real save_matfile, to_ppdict, load_matfile, load_CHAOS_matfile and the
constructors run between the two.  Arrays of symbolic sizes are functions of
atomic axes (pydv/layout.py); squeeze splits the paths on sizes of one."""
import numpy as np
from pydv import core, extract, layout
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, Unsupported, sym
from pydv.registry import Registry
from contracts.pp import load_chaos

R = Registry('P15')
LEVEL = 'other'
LEVEL_NOTE = ('Two of the three contracts are unbounded proofs in all array '
              'sizes and values (every subset of the optional parts, one to '
              'three satellites); the assignment of satellite names is '
              'bounded: one to eleven satellites, up to fourteen names, '
              'sizes as stated in the evidence. Real arithmetic and the '
              'trusted base listed in the evidence and DESIGN.md.')
TRUSTED = ['hdf5storage: loadmat returns what write stored (values, shapes, '
           'cell arrays, dictionaries, None); groups of paths come back as '
           'a record array of shape (1,)',
           'numpy object arrays, reshape, transpose, squeeze, stack: '
           'row-major regrouping of atomic axes (pydv/layout.py); the real '
           'numpy on symbolic elements where sizes are concrete']
ASSUMPTIONS = ['orders, degrees, numbers of pieces, offsets, bins and '
               'calibration intervals are arbitrary (at least one), all '
               'numbers are arbitrary; the number of satellites is '
               'enumerated: 1 to 3 in the proof, 1 to 11 (names contract) '
               'bounded',
               'SM coefficients up to degree 1 or 2, GSM up to degree 2 (as '
               'the format provides)',
               'the model is complete as far as the format goes: it has a '
               'time-dependent part, GSM coefficients other than n = 1, 2 '
               'zonal are zero, q11 and s11 share their break points, '
               'calibration of cryosat-2_1 only, meta lists the satellites '
               'in the order of the Euler angles',
               'the file does not exist before (hdf5storage 0.2 fails to '
               'overwrite some attributes)']
FN = ['chaos.CHAOS.save_matfile', 'chaos.Base.to_ppdict',
      'chaos.Base.save_matfile', 'chaos.load_CHAOS_matfile',
      'chaos.CHAOS.from_mat', 'data_utils.load_matfile',
      'chaos.CHAOS.__init__', 'chaos.BaseModel.__init__',
      'chaos.Base.__init__']


# --- arrays as read from a file: numbers carry the dtype float
class Num(np.ndarray):
    @property
    def dtype(self):
        return np.dtype(float)


class Cell(np.ndarray):
    """Array created with dtype object by the code."""


class Names:
    def __init__(self, names):
        self.names = names


class Rec(np.ndarray):
    """Record array of a group of paths."""
    @property
    def dtype(self):
        return Names(tuple(sorted(self.fields)))

    def __getitem__(self, k):
        if isinstance(k, str):
            v = self.fields[k]
            out = np.empty((1,) + v.shape, dtype=object)
            for i in np.ndindex(*v.shape):
                out[(0,) + i] = v[i]
            return out
        raise Unsupported('record index')


def num(a):
    a = np.asarray(a) if isinstance(a, np.ndarray) else objarr(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = sym(a[i])
    return out.view(Num)


class Store:
    """hdf5storage."""

    def __init__(self):
        self.data, self.writes = {}, []

    def keep(self, x):
        if isinstance(x, dict):
            post_true(CTX.cur, 'field names', all(
                isinstance(k, str) for k in x), kind='pre')
            return {k: self.keep(v) for k, v in x.items()}
        if x is None or isinstance(x, str):
            return x
        if layout.is_layout(x):
            return x.copy()
        if isinstance(x, np.ndarray):
            flat = [x[i] for i in np.ndindex(*x.shape)]
            if isinstance(x, Cell) or any(not isinstance(
                    e, (Sym, float, int, np.number))
                    or layout.is_layout(e) for e in flat):
                out = np.empty(x.shape, dtype=object)
                for i in np.ndindex(*x.shape):
                    out[i] = self.keep(x[i])
                return out
            return num(x)
        if isinstance(x, (Sym, float, int, np.number)):
            return sym(x)
        raise Unsupported(f'hdf5storage.write of {type(x).__name__}')

    def write(self, data, path='/', filename='data.h5',
              matlab_compatible=True, **k):
        post_true(CTX.cur, 'MATLAB compatible', matlab_compatible is True,
                  kind='pre')
        p = [s for s in str(path).split('/') if s]
        if not p or len(p) > 2:
            raise Unsupported(f'path {path!r}')
        d = self.data.setdefault(filename, {})
        self.writes.append((filename, '/'.join(p)))
        v = self.keep(data)
        if len(p) == 1:
            d[p[0]] = v
        else:
            d.setdefault(p[0], Group())[p[1]] = v

    def loadmat(self, file_name, variable_names=None, **k):
        if file_name not in self.data:
            raise FileNotFoundError(file_name)
        out = {}
        for key, v in self.data[file_name].items():
            if variable_names is not None and key not in variable_names:
                continue
            out[key] = self.fresh(v)
        return out

    def fresh(self, v):
        if isinstance(v, Group):
            r = np.empty((1,), dtype=object).view(Rec)
            r.fields = {k: self.fresh(x) for k, x in v.items()}
            return r
        if isinstance(v, dict):
            return {k: self.fresh(x) for k, x in v.items()}
        if layout.is_layout(v) or isinstance(v, Num):
            return v.copy()
        if isinstance(v, np.ndarray):
            out = np.empty(v.shape, dtype=object)
            for i in np.ndindex(*v.shape):
                out[i] = self.fresh(v[i])
            return out
        return v


class Group(dict):
    pass


def load(ctx):
    S = Store()
    D = extract.load('data_utils', {'hdf5storage': S})
    du = type('DU', (), {})()
    du.load_matfile = D.ns['load_matfile']
    M = load_chaos(ctx, None, hdf5storage=S, data_utils=du)
    M.ns['hdf'], D.ns['hdf'] = S, S
    for X in (M, D):
        n = X.ns['np']

        def cells(f, has_value):
            def g(x, *a, **k):
                d = k.get('dtype', a[0] if a else None)
                if not (isinstance(d, (str, np.dtype, type))
                        and d is not float and np.dtype(d) == object):
                    return f(x, *a, **k)
                if not has_value:
                    return np.empty(x, dtype=object).view(Cell)
                return np.array(plain(x), dtype=object).view(Cell)
            return g
        layout.install(n)
        n.array = cells(n.array, True)
        n.empty = cells(n.empty, False)
    return M, D, S


def plain(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)):
        return type(x)(plain(y) for y in x)
    return x


# --- models
def arr(name, *shape):
    if any(isinstance(s, Sym) for s in shape):
        return layout.array(name, *shape)
    return reals(name, shape)


def size(name, least=1):
    n = core.integer(name, lo=least, hi=4)
    CTX.cur.assume(n >= least)
    return n


class Case:
    def __init__(self, order=3, pieces=2, nmax=1, nst=1, bins=(2, 1), n10=2,
                 n11=2, cal=2, parts=('g', 'ext', 'euler', 'cal', 'params'),
                 names=None, nsm=2):
        self.__dict__.update(order=order, pieces=pieces, nmax=nmax, nst=nst,
                             bins=bins, n10=n10, n11=n11, cal=cal,
                             parts=parts, names=names, nsm=nsm)

    def label(self):
        return (f'order {self.order}, {self.pieces} pieces, degrees '
                f'{self.nmax} and {self.nst}, bins {self.bins}, offsets '
                f'{self.n10} and {self.n11}, calibration {self.cal}, parts '
                + ' '.join(self.parts))

    def build(self, M):
        c, z = self, sym(0)
        d = c.nmax*(c.nmax + 2)
        k = dict(breaks=arr('brk', c.pieces + 1), order=c.order,
                 coeffs_tdep=arr('tdep', c.order, c.pieces, d), name='M')
        if 'g' in c.parts:
            k['coeffs_static'] = arr('static', 1, 1, c.nst*(c.nst + 2))
        if 'ext' in c.parts:
            k['coeffs_sm'] = arr('sm', c.nsm*(c.nsm + 2))
            g = [z]*8
            g[0], g[3] = core.real('gsm_0'), core.real('gsm_3')
            k['coeffs_gsm'] = objarr(g)
            b10, b11 = arr('b10', c.n10 + 1), arr('b11', c.n11 + 1)
            k['breaks_delta'] = dict(q10=b10, q11=b11, s11=b11)
            k['coeffs_delta'] = dict(q10=arr('q10', 1, c.n10),
                                     q11=arr('q11', 1, c.n11),
                                     s11=arr('s11', 1, c.n11))
        sats = [f's{i}' for i in range(len(c.bins))]
        if 'euler' in c.parts:
            k['breaks_euler'] = {s: objarr([core.real(f'be_{s}')]*2)
                                 if isinstance(b, int) and b == 0 else arr(f'be_{s}', b + 1)
                                 for s, b in zip(sats, c.bins)}
            for b in k['breaks_euler'].values():
                if layout.is_layout(b):
                    # increasing, or one interval of no length
                    n = b.size - 1
                    CTX.cur.assume(core.b_or(b[0] < b[-1], n == 1))
                    continue
                for i in range(b.size - 1):
                    if b[i] is not b[i + 1]:
                        CTX.cur.assume(b[i] < b[i + 1])
            k['coeffs_euler'] = {s: arr(f'ce_{s}', 1, b if isinstance(
                b, Sym) else max(b, 1), 3)
                                 for s, b in zip(sats, c.bins)}
        if 'cal' in c.parts:
            k['breaks_cal'] = {'cryosat-2_1': arr('bc', c.cal + 1)}
            k['coeffs_cal'] = {'cryosat-2_1': arr('cc', 1, c.cal, 9)}
        params = {}
        if 'params' in c.parts:
            params['Euler_prerotation'] = arr('pre', len(sats), 3)
        elif 'none' in c.parts:
            params['Euler_prerotation'] = None
        k['meta'] = dict(params=params, satellites=tuple(sats))
        return M.ns['CHAOS'](**k), sats


def freeze(x):
    """Contents of a model (arrays, dictionaries, attributes)."""
    if layout.is_layout(x):
        return ('l', id(x))
    if isinstance(x, np.ndarray):
        return ('a', x.shape, tuple(sym(x[i]).key() for i in np.ndindex(
            *x.shape)))
    if isinstance(x, Sym):
        return ('s', x.key())
    if isinstance(x, dict):
        return ('d', tuple((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if hasattr(x, '__dict__') and type(x).__module__ != 'builtins' and \
            not callable(x):
        return ('o', freeze({k: v for k, v in vars(x).items()
                             if k != 'timestamp'}))
    return x


def same(ctx, what, got, want):
    if want is None or got is None:
        post_true(ctx, what, got is None and want is None)
        return
    if layout.is_layout(got) or layout.is_layout(want):
        g, w = (x if layout.is_layout(x) else wrap(x) for x in (got, want))
        ok = layout.aligned(g, w)
        post_true(ctx, f'{what}: shape {g.shape} {w.shape}', ok)
        if ok:
            for x, y in layout.elements(g, w):
                post_eq(ctx, what, x, y)
        return
    g, w = objarr(got), objarr(want)
    post_true(ctx, f'{what}: shape {g.shape} {w.shape}', g.shape == w.shape)
    if g.shape == w.shape:
        post_eq(ctx, what, g, w)


def wrap(x):
    x = objarr(x)
    axes = [layout.Axis(n) for n in x.shape]
    return layout.LArr([[a] for a in axes], lambda ix: sym(x[tuple(
        int(sym(ix.get(a, 0)).value()) for a in axes)]))


def same_number(ctx, what, a, b):
    if a is None or b is None:
        post_true(ctx, what, a is None and b is None)
    elif isinstance(a, Sym) or isinstance(b, Sym):
        post_eq(ctx, what, a, b)
    else:
        post_true(ctx, what, a == b)


def same_base(ctx, what, n, m):
    if m is None or n is None:
        post_true(ctx, what, n is None and m is None)
        return
    same(ctx, what + ' break points', n.breaks, m.breaks)
    same(ctx, what + ' coefficients', n.coeffs, m.coeffs)
    for a in ('order', 'pieces', 'dim', 'nmax'):
        same_number(ctx, f'{what} {a}', getattr(n, a, 0), getattr(m, a, 0))
    post_true(ctx, what + ' source', getattr(n, 'source', 0) == getattr(
        m, 'source', 0))


def same_model(ctx, n, m, names):
    same_base(ctx, 'time-dependent part', n.model_tdep, m.model_tdep)
    same_base(ctx, 'static part', n.model_static, m.model_static)
    for a in ('coeffs_sm', 'coeffs_gsm'):
        same(ctx, a, getattr(n, a), getattr(m, a))
    for a in ('n_sm', 'n_gsm'):
        same_number(ctx, a, getattr(n, a), getattr(m, a))
    for a in ('breaks_delta', 'coeffs_delta'):
        x, y = getattr(n, a), getattr(m, a)
        if x is None or y is None:
            post_true(ctx, a, x is None and y is None)
            continue
        post_true(ctx, a + ' names', set(x) == set(y))
        for q in y:
            if q in x:
                same(ctx, f'{a} {q}', x[q], y[q])
    if m.model_euler is None or n.model_euler is None:
        post_true(ctx, 'Euler angles', n.model_euler is None
                  and m.model_euler is None)
    else:
        post_true(ctx, f'satellites {list(n.model_euler)}',
                  list(n.model_euler) == names)
        for s, u in zip(m.model_euler, names):
            if u not in n.model_euler:
                continue
            same_base(ctx, f'Euler angles of satellite {s}',
                      n.model_euler[u], m.model_euler[s])
            same(ctx, f'prerotation of satellite {s}',
                 n.model_euler[u].meta['Euler_prerotation'],
                 m.model_euler[s].meta['Euler_prerotation'])
    if m.model_cal is None or n.model_cal is None:
        post_true(ctx, 'calibration', n.model_cal is None
                  and m.model_cal is None)
    else:
        post_true(ctx, 'calibration', list(n.model_cal) == list(m.model_cal))
        for s in m.model_cal:
            if s in n.model_cal:
                same_base(ctx, 'calibration', n.model_cal[s], m.model_cal[s])
    post_true(ctx, f'satellites of the model', list(
        n.meta['satellites'])[:len(names)] == names)
    same(ctx, 'prerotation angles', n.meta['params']['Euler_prerotation'],
         m.meta['params'].get('Euler_prerotation'))


ALL = ('g', 'ext', 'euler', 'cal', 'params')
CASES = [Case(), Case(order=6, pieces=3, nmax=2, nst=3),
         Case(order=1, pieces=1, n10=1, n11=1, cal=1, bins=(1,)),
         Case(order=2, pieces=1, n11=1, bins=(3, 3)),
         Case(order=1, pieces=4, n10=1, bins=(1, 1), cal=1),
         Case(bins=(0,)), Case(bins=(0, 0)), Case(bins=(1, 0, 2, 3)),
         Case(bins=(2,)), Case(bins=(0, 1)), Case(bins=(3, 1, 3)),
         Case(order=4, pieces=5, nmax=3, nst=5, n10=4, n11=3, cal=5,
              bins=(1, 2, 3, 4, 3, 2, 1, 1, 2, 5, 1)),
         Case(bins=(1,)*9), Case(nsm=1), Case(order=3, pieces=3, nmax=1),
         Case(order=2, pieces=2, nst=2, cal=9)]
PARTS = [tuple(p for i, p in enumerate(ALL) if b >> i & 1) for b in
         range(31)] + [('g', 'ext', 'euler', 'cal', 'none'), ('euler', 'none')
                       ]


def round_trip(case, sats_arg=lambda s: list(s), use_from_mat=False,
               want_names=None, **kw):
    def body(ctx):
        M, D, S = load(ctx)
        m, sats = case.build(M)
        before = freeze(m)
        st, r = outcome(M.ns['CHAOS'].save_matfile, m, 'p/f.mat')
        post_true(ctx, f'saved ({r!r})'[:90], st == 'ok'
                  and set(S.data) == {'p/f.mat'})
        if st != 'ok' or 'p/f.mat' not in S.data:
            return
        post_true(ctx, 'the model is unchanged', freeze(m) == before)
        arg = sats_arg(sats)
        keep = None if arg is None else type(arg)(arg)
        k = dict(kw)
        if arg is not None:
            k['satellites'] = arg
        f = M.ns['CHAOS'].from_mat if use_from_mat else \
            M.ns['load_CHAOS_matfile']
        st, n = outcome(f, 'p/f.mat', **k)
        post_true(ctx, f'loaded ({n!r})'[:90], st == 'ok')
        if st != 'ok':
            return
        post_true(ctx, 'the names of the caller are unchanged', arg == keep)
        post_true(ctx, 'name of the model', n.name == kw.get('name', 'f'))
        names = want_names(sats) if want_names else sats
        same_model(ctx, n, m, names)
    return body


def unbounded(parts, sats=1, nsm=2):
    """A case of arbitrary order, degrees and numbers of pieces and bins."""
    return Case(order=size('order'), pieces=size('pieces'),
                nmax=size('nmax'), nst=size('nst'), n10=size('n10'),
                n11=size('n11'), cal=size('cal'), nsm=nsm, parts=parts,
                bins=tuple(size(f'bins{i}') for i in range(sats)))


def free_sizes(parts, sats=1, nsm=2, **kw):
    def body(ctx):
        round_trip(unbounded(parts, sats, nsm), **kw)(ctx)
    return body


# every subset of the optional parts; two satellites
UNBOUNDED = [(p, 1) for p in [ALL] + PARTS] + [
    (('euler', 'params'), 2), (('euler',), 2), (('g', 'euler', 'params'), 3)]


@R.contract('a model saved and loaded is the same', FN,
            modes=('proof', 'bounded'))
def models(mode, tier):
    out = []
    if mode == 'proof':
        for j, (p, n) in enumerate(UNBOUNDED):
            out.append(verify(
                f'any sizes, {n} satellites, parts {" ".join(p)}',
                free_sizes(p, n, 1 + j % 2, use_from_mat=j % 2 == 1,
                           **({'name': 'N'} if j % 3 else {})),
                FN, fail_fast=False))
        return out
    for k, c in enumerate(CASES):
        out.append(verify(c.label(), round_trip(c, use_from_mat=k % 2 == 1,
                                                **({'name': 'N'} if k % 3
                                                   else {})),
                          FN, mode='bounded', bound='sizes as named',
                          fail_fast=False))
    for p in PARTS:
        c = Case(parts=p)
        out.append(verify(c.label(), round_trip(c), FN, mode='bounded',
                          bound='optional parts: every subset',
                          fail_fast=False))
    return out


DEFAULT = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
           'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']


@R.contract('names of the satellites are assigned in file order', FN,
            modes=('bounded',))
def names(mode, tier):
    out = []

    def complete(given, n):
        return list(given[:n]) + [f'satellite_{i}' for i in range(
            len(given) + 1, n + 1)]
    for n in (1, 2, 3, 9, 11):
        for given in (None, 0, 1, 2, n, n + 1, n + 3):
            for kind in (list, tuple):
                if given is None and kind is tuple:
                    continue
                g = DEFAULT if given is None else [
                    f'u{i}' for i in range(given)]
                c = Case(bins=tuple(1 + i % 2 for i in range(n)))
                arg = None if given is None else kind(g)
                out.append(verify(
                    f'{n} satellites, names {kind.__name__} {given}',
                    round_trip(c, lambda s, arg=arg: arg,
                               want_names=lambda s, g=g, n=n: complete(g, n)),
                    FN, mode='bounded', bound='up to 11 satellites and 14 '
                    'names', fail_fast=False))
    return out


def structure(order, pieces, dim):
    def body(ctx):
        free = order is None
        o, p, d = (size('order'), size('pieces'), size('dim')) if free else (
            order, pieces, dim)
        M, D, S = load(ctx)
        b, c = arr('brk', p + 1), arr('c', o, p, d)
        m = M.ns['Base']('m', breaks=b, order=o, coeffs=c)
        before = freeze(m)
        st, pp = outcome(M.ns['Base'].to_ppdict, m)
        post_true(ctx, f'made ({pp!r})'[:90], st == 'ok')
        if st != 'ok':
            return
        post_true(ctx, 'fields', set(pp) == {
            'form', 'order', 'pieces', 'dim', 'breaks', 'coefs'})
        post_true(ctx, 'form', pp.get('form') == 'pp')
        for k, v in (('order', o), ('pieces', p), ('dim', d)):
            same(ctx, k, objarr(pp[k]).reshape(-1), objarr([v]))
        same(ctx, 'break points', pp['breaks'], b.reshape(1, -1))
        # MATLAB: coefs(p*dim + d, k) of piece p, component d
        if free:
            (O,), (P,), (D_,) = c.groups
            want = layout.LArr([[P, D_], [O]], c.fn)
        else:
            want = np.empty((p*d, o), dtype=object)
            for i, j, k in np.ndindex(o, p, d):
                want[j*d + k, i] = c[i, j, k]
        same(ctx, 'coefficients', pp['coefs'], want)
        for path, key in ((None, 'pp'), ('/pp_X', 'pp_X')):
            kw = {} if path is None else {'path': path}
            st, r = outcome(M.ns['Base'].save_matfile, m,
                            f'{key}.mat', **kw)
            post_true(ctx, f'saved ({r!r})'[:90], st == 'ok'
                      and S.data.get(f'{key}.mat', {}).keys() == {key})
            if st != 'ok':
                continue
            st, r = outcome(D.ns['load_matfile'], f'{key}.mat')
            post_true(ctx, f'read ({r!r})'[:90], st == 'ok')
            if st == 'ok' and key in r:
                v = r[key]
                if not free:
                    same(ctx, 'read coefficients', np.reshape(
                        objarr(v['coefs']).T, (o, p, d)), c)
                elif layout.is_layout(v['coefs']):
                    same(ctx, 'read coefficients',
                         v['coefs'].T.reshape(o, p, d), c)
                elif v['coefs'] is not None:
                    # every size is one
                    same(ctx, 'read coefficients',
                         objarr(v['coefs']).reshape(1, 1, 1), c)
                same(ctx, 'read break points', v['breaks'], b)
        post_true(ctx, 'the model is unchanged', freeze(m) == before)
    return body


@R.contract('the piecewise-polynomial structure holds the model',
            ['chaos.Base.to_ppdict', 'chaos.Base.save_matfile',
             'data_utils.load_matfile'], modes=('proof', 'bounded'))
def ppdict(mode, tier):
    out = []
    if mode == 'proof':
        return [verify('any order, number of pieces and dimension',
                       structure(None, None, None), FN, fail_fast=False)]
    for order in (1, 2, 3, 6):
        for pieces in (1, 2, 4):
            for dim in (1, 2, 3, 8, 9):
                out.append(verify(
                    f'order {order}, {pieces} pieces, dimension {dim}',
                    structure(order, pieces, dim),
                    FN, mode='bounded', bound='orders 1, 2, 3, 6; 1, 2, 4 '
                    'pieces; dimensions 1, 2, 3, 8, 9', fail_fast=False))
    return out
