"""P16: configuration: validated assignment, reset, context, files."""
import copy as _copy
import os as _os
import types
import numpy as np
from pydv import core, extract
from pydv.contract import *       # noqa
from pydv.core import CTX, Sym, b_and, b_or, b_not, sym
from pydv.registry import Registry

R = Registry('P16')
TRUSTED = ['float(), int(), str(), re.search, os.path.exists, numpy.array, '
           'copy.copy and json by assumed contracts: conversions succeed '
           'with the converted value or raise; JSON keeps numbers, strings, '
           'null and lists and rejects other objects',
           'dict and contextlib.contextmanager are the real ones']
ASSUMPTIONS = ['values are opaque: the code treats all values with the same '
               'conversion outcomes alike',
               'files named in the configuration do not appear or disappear '
               'between two operations']
C = 'config_utils.'
FSET = [C + 'BasicConfig.__setitem__'] + [C + 'check_' + n for n in (
    'path_exists', 'float', 'int', 'string', 'vector', 'version_string')]
KINDS = {'params.r_surf': 'float', 'params.r_cmb': 'float',
         'params.dipole': 3, 'params.ellipsoid': 2,
         'params.CHAOS_version': 'version', 'params.cdf_to_mjd': 'int',
         'file.RC_index': 'path', 'file.GSM_spectrum': 'path',
         'file.SM_spectrum': 'path', 'file.Earth_conductivity': 'path',
         'file.shp_coastline': 'path', 'plots.figure_width': 'float'}
UNKNOWN = ('params.unknown', 'PARAMS.R_SURF', 'r_surf', '')


class Opaque:
    """A value about which nothing is known; every look at it must go
    through a modelled conversion."""

    def __init__(self, name):
        self.__dict__['name'] = name
        self.__dict__['memo'] = {}

    def pick(self, what, options):
        """Outcome of a conversion, the same for each repetition."""
        if what not in self.memo:
            k = 0
            while k < len(options) - 1 and not CTX.cur.choose(what):
                k += 1
            self.memo[what] = options[k]
        r = self.memo[what]
        if isinstance(r, Exception):
            raise r
        return r

    def __repr__(self):
        return f'<{self.name}>'

    def _no(self, *a, **k):
        raise Unsupported('the code inspects a configuration value')
    __getattr__ = __len__ = __iter__ = __bool__ = __getitem__ = _no
    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __float__ = __int__ = _no
    __hash__ = object.__hash__

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, (str, float, int)) or o is None:
            return self.pick(f'== {o!r}', [False])
        self._no()

    def __ne__(self, o):
        return not self == o

    # conversions (assumed contracts of the builtins)
    def float(self):
        return self.pick('float', [core.real('float_' + self.name),
                                   ValueError('float'), TypeError('float'),
                                   OverflowError('float')])

    def int(self):
        return self.pick('int', [core.uf('int_' + self.name, sym(0)),
                                 ValueError('int'), TypeError('int'),
                                 OverflowError('int')])

    def str(self):
        return self.pick('str', [Text('str(' + self.name + ')'),
                                 ValueError('str')])

    def exists(self):
        return self.pick('exists', [True, False, TypeError('path')])

    def array(self, dtype):
        if dtype is None:
            return self.pick('array', [
                Array('array(' + self.name + ')', None, n)
                for n in (0, 1, 2)] + [ValueError('array')])
        return self.pick('array float', [
            Array('vector(' + self.name + ')', float, n)
            for n in (1, 0, 2)] + [ValueError('array'), TypeError('array')])


class Text(str):
    """A string of unknown text."""

    def __new__(cls, name, exists=None, version=None):
        s = str.__new__(cls, name)
        s.name, s.flags = name, {'exists': exists, 'version': version}
        return s

    def flag(self, n):
        if self.flags[n] is None:
            self.flags[n] = bool(CTX.cur.choose(n))
        return self.flags[n]


class Array:
    """A numpy array: unknown content, real dtype, unknown size."""

    def __init__(self, content, dtype, ndim, size=None):
        self.content, self.dtype, self.ndim = content, dtype, ndim
        self._size = size

    @property
    def size(self):
        if self._size is None:
            n = core.real('size_' + str(self.content), lo=0)
            CTX.cur.assume(n >= 0)
            self._size = n
        return self._size

    @property
    def shape(self):
        if self.ndim == 1:
            return (self.size,)
        if self.ndim == 0:
            return ()
        raise Unsupported('shape of a matrix')

    def __len__(self):
        raise Unsupported('len of a symbolic vector')

    def copy(self):
        return Array(self.content, self.dtype, self.ndim, self.size)
    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True):
        return self.copy() if copy else self

    def tolist(self):
        if self.dtype is not float:
            raise Unsupported('list of an array of unknown type')
        return JList(self)
    to_list = tolist

    def __bool__(self):
        raise Unsupported('truth of a vector')

    def __eq__(self, o):
        raise Unsupported('comparison of vectors')
    __hash__ = object.__hash__


class JList:
    """The nested list of a float array."""

    def __init__(self, a):
        self.a = a


def same(a, b):
    """Equality of stored values."""
    if a is b:
        return True
    if isinstance(a, Array) and isinstance(b, Array):
        return a.content == b.content and a.dtype is b.dtype \
            and a.ndim == b.ndim
    if isinstance(a, str) and isinstance(b, str):
        return str.__eq__(a, b) and type(a) is type(b)
    if a is None or b is None or isinstance(a, (str, Array, Opaque)) \
            or isinstance(b, (str, Array, Opaque)):
        return False
    try:
        return not (sym(a) - sym(b)).num
    except (Exception, Unsupported):
        return False


class NPStub:
    ndarray = Array
    float64 = float

    @staticmethod
    def array(x, dtype=None, copy=True):
        dtype = float if dtype in (float, 'float', extract.DVFloat) \
            else dtype
        if isinstance(x, (list, tuple)):
            return Array(tuple(x), float, 1, len(x))
        if isinstance(x, JList):
            return x.a.copy()
        if isinstance(x, Array):
            return x.copy() if copy else x
        if isinstance(x, Opaque):
            return x.array(dtype)
        if x is None:
            return Array('None', float, 0)
        raise Unsupported(f'array of {type(x).__name__}')

    @staticmethod
    def asarray(x, dtype=None):
        if isinstance(x, Array):
            return x
        return NPStub.array(x, dtype)

    def __getattr__(self, n):
        raise Unsupported(f'numpy.{n} in the configuration')


class Handle:
    def __init__(self, fs, path, mode):
        self.fs, self.path, self.mode = fs, path, mode
        if mode == 'r' and path not in fs:
            raise FileNotFoundError(path)
        if 'w' in mode:
            fs[path] = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def write(self, s):
        if not isinstance(s, Doc):
            raise Unsupported('text written to the configuration file')
        self.fs[self.path] = s

    def read(self):
        return self.fs[self.path]


class Doc:
    """A JSON document."""

    def __init__(self, obj):
        self.obj = obj


class JsonStub:
    JSONDecodeError = ValueError

    @staticmethod
    def value(v, default):
        if v is None or isinstance(v, (str, bool, Sym, int, float, JList)):
            return v
        if isinstance(v, (list, tuple)):
            return [JsonStub.value(x, default) for x in v]
        if isinstance(v, dict):
            return {k: JsonStub.value(x, default) for k, x in v.items()}
        if default is None:
            raise TypeError(f'{type(v).__name__} is not JSON serializable')
        return JsonStub.value(default(v), default)

    @staticmethod
    def dumps(obj, default=None, indent=None, sort_keys=False):
        return Doc(JsonStub.value(obj, default))

    @staticmethod
    def dump(obj, f, default=None, indent=None, sort_keys=False):
        f.write(JsonStub.dumps(obj, default))

    @staticmethod
    def load(f):
        return JsonStub.loads(f.read())

    @staticmethod
    def loads(d):
        if d is None or not isinstance(d, Doc):
            raise ValueError('not a JSON document')
        return d.obj


class World:
    """The module with its environment, one per path."""

    def __init__(self, ctx):
        self.fs = {}
        osm = types.SimpleNamespace(path=types.SimpleNamespace(
            abspath=lambda p: p, dirname=lambda p: '/lib-root',
            join=lambda *a: '/'.join(a), exists=self.exists,
            isfile=self.exists))
        rem = types.SimpleNamespace(search=self.search, match=self.search)
        M = extract.load('config_utils', {
            'numpy': NPStub(), 'json': JsonStub, 'os': osm, 're': rem,
            'open': lambda p, mode='r', **k: Handle(self.fs, p, mode)})
        self.ns = M.ns
        self.ns['float'] = self.conv('float')
        self.ns['int'] = self.conv('int')
        self.ns['str'] = self.conv('str')
        for f in (sorted, list, tuple):
            self.ns[f.__name__] = in_order(f)
        self.cfg = self.ns['basicConfig']
        self.cls = self.ns['BasicConfig']
        self.n = 0

    def conv(self, kind):
        real = {'float': float, 'int': int, 'str': str}[kind]

        def make(x=0):
            if isinstance(x, Opaque):
                return getattr(x, kind)()
            if x is None:
                if kind == 'str':
                    return 'None'
                raise TypeError(kind)
            if kind == 'str' and isinstance(x, str):
                return x
            if isinstance(x, Sym) and kind == 'float':
                return x
            if isinstance(x, (Sym, int)) and kind == 'int':
                return x
            if isinstance(x, (int, float)) and kind == 'float':
                return x
            raise Unsupported(f'{kind} of {type(x).__name__}')
        return kind_of(real, make)

    @staticmethod
    def exists(p):
        if isinstance(p, Opaque):
            return p.exists()
        if isinstance(p, Text):
            return p.flag('exists')
        if isinstance(p, str):
            return p.startswith('/lib-root')
        raise TypeError('path')

    @staticmethod
    def search(pattern, s):
        if isinstance(s, Text):
            return s.flag('version') or None
        if isinstance(s, str):
            import re
            return re.search(pattern, s)
        raise Unsupported('pattern match')

    def valid(self, key, name):
        """An arbitrary valid value of an entry."""
        k = KINDS[key]
        self.n += 1
        name = f'{name}_{key}_{self.n}'
        if k == 'float':
            return core.real(name)
        if k == 'int':
            return core.uf('int_' + name, sym(0))
        if k == 'version':
            return Text(name, version=True)
        if k == 'path':
            return None if key == 'file.SM_spectrum' else Text(
                name, exists=True)
        return Array(name, float, 1, k)

    def is_valid(self, key, v):
        """Is v a valid value: a condition or a truth value."""
        k = KINDS.get(key)
        if k in ('float', 'int'):
            return isinstance(v, (Sym, float, int)) and not isinstance(
                v, bool)
        if k == 'version':
            return isinstance(v, str) and (not isinstance(v, Text)
                                           or v.flags['version'] is True)
        if k == 'path':
            return v is None or isinstance(v, str) and (
                not isinstance(v, Text) or v.flags['exists'] is True) \
                or isinstance(v, Opaque) and v.memo.get('exists') is True
        if k is None:
            return True
        if not (isinstance(v, Array) and v.dtype is float and v.ndim == 1):
            return False
        return sym(v.size) == k

    def converted(self, key, x):
        """The value x stands for, when it is known to be valid."""
        k = KINDS[key]
        if not isinstance(x, Opaque):
            return 'None' if x is None and k == 'version' else x
        m = x.memo
        if k == 'path':
            return x
        return m.get({'float': 'float', 'int': 'int', 'version': 'str'}.get(
            k, 'array float'))

    def havoc(self, name, only=None):
        """Any valid state."""
        for key in self.defaults():
            if key in KINDS and (only is None or key in only):
                dict.__setitem__(self.cfg, key, self.valid(key, name))
        return dict(self.cfg)

    def defaults(self):
        return self.cls.defaults

    def invariant(self, ctx, label, state=None):
        """Only valid values of known names, none of them the arrays of the
        built-in defaults."""
        for key, v in dict.items(self.cfg):
            post_true(ctx, f'{label}: {key!r} is a known name',
                      key in self.defaults())
            post_true(ctx, f'{label}: {key!r} is valid ({v!r})'[:90],
                      self.is_valid(key, v))
            if isinstance(v, Array):
                post_true(ctx, f'{label}: {key!r} is not the array of the '
                          'defaults', not any(
                              d[0] is v for d in self.defaults().values()))

    def unchanged(self, ctx, label, before, but=()):
        post_true(ctx, f'{label}: same names', set(self.cfg) - set(but)
                  == set(before) - set(but))
        for key, v in before.items():
            if key not in but:
                post_true(ctx, f'{label}: {key!r} unchanged',
                          key in self.cfg and same(
                              dict.__getitem__(self.cfg, key), v))


def cases(keys, title, functions, max_paths=3000):
    """One verification per key."""
    def deco(f):
        def run(mode, tier):
            return [verify(f'{title} {key!r}',
                           lambda ctx, key=key: f(ctx, World(ctx), key),
                           functions, max_paths=max_paths, fail_fast=False)
                    for key in keys]
        R.contract(title, functions, modes=('proof',))(run)
        return f
    return deco


def attempt(ctx, W, label, key, x, do):
    """Obligations of one assignment of x to key by do()."""
    before = dict(W.cfg)
    st, g = outcome(do)
    if key not in KINDS:
        post_true(ctx, f'{label}: unknown name rejected', st == 'raise')
        W.unchanged(ctx, label, before)
        return st, g
    if st == 'raise':
        W.unchanged(ctx, f'{label} fails', before)
    else:
        W.unchanged(ctx, label, before, but=(key,))
        got = W.cfg.get(key)
        want = W.converted(key, x)
        post_true(ctx, f'{label}: stores the converted value ({got!r})'[:90],
                  want is not None and same(got, want) or (
                      x is None and got is None))
        post_true(ctx, f'{label}: a copy of the vector', not isinstance(
            x, Array) or got is not x)
    W.invariant(ctx, label)
    return st, g


def argument(ctx, W, key):
    """An arbitrary value to assign."""
    if ctx.choose('opaque'):
        return Opaque('value')
    if key in KINDS and ctx.choose('valid'):
        return W.valid(key, 'arg')
    if not isinstance(KINDS.get(key), int) or ctx.choose('none'):
        return None
    return Array('arg', float, 1)


@cases(list(KINDS) + list(UNKNOWN), 'assignment stores the validated value '
       'or changes nothing:', FSET)
def assignment(ctx, W, key):
    W.havoc('old')
    x = argument(ctx, W, key)
    st, g = attempt(ctx, W, 'assignment', key, x,
                    lambda: W.cfg.__setitem__(key, x))
    if key in KINDS and not isinstance(x, (Opaque, Array)) \
            and not (x is None and KINDS[key] != 'path'):
        post_true(ctx, f'a valid value is accepted ({g!r})'[:90], st == 'ok')
    if isinstance(x, Array) and KINDS.get(key) in (2, 3):
        post_true(ctx, 'a vector of the right length is accepted',
                  b_or(sym(x.size) != KINDS[key], st == 'ok'))
    if isinstance(x, Opaque) and key in KINDS and st == 'raise':
        # a conversion that failed, or a check on its result
        m = x.memo
        post_true(ctx, 'no valid value is refused', any(
            isinstance(v, Exception) for v in m.values())
            or m.get('exists') is False
            or (KINDS[key] == 'version' and isinstance(m.get('str'), Text)
                and m['str'].flags['version'] is False)
            or (isinstance(m.get('array float'), Array)
                and (m['array float'].ndim != 1
                     or sym(m['array float'].size) != KINDS[key])))


@cases(list(KINDS) + list(UNKNOWN), 'reset of one entry restores its '
       'default:', FSET + [C + 'BasicConfig.reset'])
def reset(ctx, W, key):
    W.havoc('old', only=() if ctx.choose('fresh') else None)
    if key in KINDS and ctx.choose('damaged'):
        # values can be damaged in place or removed by dict methods
        if ctx.choose('removed'):
            dict.pop(W.cfg, key)
        else:
            dict.__setitem__(W.cfg, key, Opaque('damaged'))
    v = dict.get(W.cfg, key)
    if isinstance(v, Array):
        v.content = 'changed in place'
    before = dict(W.cfg)
    original = {k: (d[0].copy() if isinstance(d[0], Array) else d[0])
                for k, d in W.defaults().items()}
    st, g = outcome(W.cfg.reset, key)
    if key not in KINDS:
        post_true(ctx, 'unknown name rejected', st == 'raise')
        W.unchanged(ctx, 'reset', before)
        return
    post_true(ctx, f'succeeds ({g!r})'[:90], st == 'ok')
    W.unchanged(ctx, 'reset', before, but=(key,))
    post_true(ctx, 'the default value', same(W.cfg.get(key),
                                             ORIGINAL(W)[key]))
    for k in original:
        post_true(ctx, 'defaults unchanged', same(W.defaults()[k][0],
                                                  original[k]))
    W.invariant(ctx, 'reset')


def ORIGINAL(W):
    """The defaults of a freshly loaded module."""
    return {k: d[0] for k, d in World(None).defaults().items()}


@cases(['all'], 'full reset and import restore all defaults:',
       [C + 'BasicConfig.fullreset', C + 'BasicConfig.__init__'])
def fullreset(ctx, W, key):
    orig = ORIGINAL(W)
    post_true(ctx, 'import: all parameters', set(W.cfg) == set(orig))
    W.invariant(ctx, 'import')
    for k in orig:
        post_true(ctx, f'import: default of {k}', same(W.cfg.get(k),
                                                       orig[k]))
    # damage every value in place, twice
    for n in range(2):
        for k in list(W.cfg):
            v = dict.__getitem__(W.cfg, k)
            if isinstance(v, Array):
                v.content = 'changed in place'
        if ctx.choose('removed'):
            for k in list(W.cfg)[n::2]:
                dict.pop(W.cfg, k)
        elif ctx.choose('replaced'):
            for k in list(W.cfg):
                dict.__setitem__(W.cfg, k, Opaque('damaged'))
        st, g = outcome(W.cfg.fullreset)
        post_true(ctx, f'full reset succeeds ({g!r})'[:90], st == 'ok')
        for k in orig:
            post_true(ctx, f'full reset: default of {k}', same(
                W.cfg.get(k), orig[k]))
            post_true(ctx, 'defaults unchanged', same(W.defaults()[k][0],
                                                      orig[k]))
        W.invariant(ctx, 'full reset')


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


@cases(list(KINDS) + list(UNKNOWN[:2]), 'leaving a context restores the '
       'previous value:', FSET + [C + 'BasicConfig.context'])
def context(ctx, W, key):
    before = W.havoc('old')
    x = argument(ctx, W, key)
    seen, inside = [], {}
    how = None

    def block():
        nonlocal how
        with W.cfg.context(key, x):
            seen.append(W.cfg.get(key))
            # any block: nested contexts and assignments included
            inside.update(W.havoc('inside') if ctx.choose('changes')
                          else dict(W.cfg))
            if ctx.choose('raises'):
                how = Boom('block')
                raise how
            if ctx.choose('stops'):
                how = Stop('block')
                raise how
            if ctx.choose('returns'):
                return 'returned'
        return 'left'
    try:
        st, g = outcome(block)
    except Stop as e:
        st, g = 'raise', e
    if not seen:
        post_true(ctx, 'an invalid value raises', st == 'raise')
        W.unchanged(ctx, 'refused context', before)
        if isinstance(x, Opaque) and key in KINDS:
            m = x.memo
            post_true(ctx, 'no valid value is refused', any(
                isinstance(v, Exception) for v in m.values())
                or m.get('exists') is False or 'str' in m
                or 'array float' in m)
        return
    post_true(ctx, 'the name is known', key in KINDS)
    if key not in KINDS:
        return
    post_true(ctx, 'the value applies inside of the block', same(
        seen[0], W.converted(key, x)) or (x is None and seen[0] is None))
    post_true(ctx, f'exceptions of the block propagate ({g!r})'[:90],
              g is how if how is not None else st == 'ok')
    post_true(ctx, 'the previous value is restored', same(
        W.cfg.get(key), before[key]))
    W.unchanged(ctx, 'other entries are those the block left', inside,
                but=(key,))
    W.invariant(ctx, 'after the context')


class Steps:
    """The entries in some order; lists and sorted lists of them are again
    the entries in some order."""

    def __init__(self, e, what):
        self.e, self.what = e, what

    def __iter__(self):
        return self.e.steps(self.what)

    def __len__(self):
        return len(self.e)


def kind_of(real, make):
    """The builtin class with another constructor."""
    class Meta(type):
        def __instancecheck__(cls, x):
            if isinstance(x, Opaque):
                return x.pick(f'is {real.__name__}', [False, True])
            if real in (float, int) and isinstance(x, Sym):
                return x.is_int() == (real is int)
            return isinstance(x, real)

    class K(metaclass=Meta):
        def __new__(cls, *a, **k):
            return make(*a, **k)
    return K


def in_order(real):
    def make(x=(), *a, **k):
        return x if isinstance(x, (Steps, Entries)) else real(x, *a, **k)
    return kind_of(real, make) if isinstance(real, type) else make


class Entries(dict):
    """Any number of entries of a loaded file: each one is processed from an
    arbitrary valid state (the loop invariant), which must be valid again
    afterwards."""

    def __init__(self, ctx, W, keys):
        self.ctx, self.W, self.k = ctx, W, keys
        self.current = None

    def __len__(self):
        return 3

    def __bool__(self):
        return True

    def __getitem__(self, key):
        return self.current[1]

    def get(self, key, default=None):
        return self.current[1]

    def steps(self, what):
        for key in self.k:
            before = self.W.havoc('state')
            x = argument(self.ctx, self.W, key)
            if isinstance(x, Array):
                x = JList(x)
            self.current = (key, x, before)
            yield what(key, x)
            # the body has run without an exception
            W, ctx = self.W, self.ctx
            self.current = None
            post_true(ctx, 'unknown names end the loop', key in KINDS)
            W.unchanged(ctx, 'entry of a file', before, but=(key,))
            got = W.cfg.get(key)
            want = W.converted(key, x)
            if isinstance(x, JList):
                post_true(ctx, 'stores the value of the file', same(
                    got, x.a) and got is not x.a)
            else:
                post_true(ctx, 'stores the value of the file', same(
                    got, want))
            W.invariant(ctx, 'entry of a file')

    def items(self):
        return Steps(self, lambda k, x: (k, x))

    def keys(self):
        return Steps(self, lambda k, x: k)

    def __iter__(self):
        return self.steps(lambda k, x: k)

    def values(self):
        raise Unsupported('values of the file without their names')


def loading(key2):
    @cases(list(KINDS) + list(UNKNOWN[:2]), 'loading a file stores valid '
           f'entries only (next: {key2!r}):', FSET + [C + 'BasicConfig.load'])
    def load(ctx, W, key):
        before = W.havoc('old')
        if ctx.choose('missing file'):
            st, g = outcome(W.cfg.load, 'missing')
            post_true(ctx, 'a missing file raises', st == 'raise')
            W.unchanged(ctx, 'missing file', before)
            return
        if ctx.choose('broken file'):
            W.fs['f'] = None
            st, g = outcome(W.cfg.load, 'f')
            post_true(ctx, 'a broken file raises', st == 'raise')
            W.unchanged(ctx, 'broken file', before)
            return
        if ctx.choose('empty file'):
            W.fs['f'] = Doc({})
            st, g = outcome(W.cfg.load, 'f')
            W.unchanged(ctx, 'empty file', before)
            return
        E = Entries(ctx, W, [key, key2])
        W.fs['f'] = Doc(E)
        st, g = outcome(W.cfg.load, 'f')
        if E.current is not None:
            # the entry raised (or ended the loop early)
            k, x, state = E.current
            post_true(ctx, f'entry refused with an error ({g!r})'[:90],
                      st == 'raise')
            W.unchanged(ctx, 'refused entry', state)
            W.invariant(ctx, 'refused entry')
        else:
            post_true(ctx, f'loaded ({g!r})'[:90], st == 'ok')
            W.invariant(ctx, 'loaded')


for _k in ('params.r_cmb', 'params.dipole', 'file.RC_index', UNKNOWN[0]):
    loading(_k)


@cases(['all'], 'a saved configuration loads again with every value:',
       FSET + [C + 'BasicConfig.save', C + 'BasicConfig.load'])
def saved(ctx, W, key):
    state = W.havoc('old', only=[k for k in KINDS
                                 if KINDS[k] != 'path' or k
                                 == 'file.RC_index'])
    st, g = outcome(W.cfg.save, 'f')
    post_true(ctx, f'saved ({g!r})'[:90], st == 'ok')
    if st != 'ok':
        return
    W.unchanged(ctx, 'saving', state)
    if ctx.choose('reset'):
        W.cfg.fullreset()
    else:
        W.havoc('new', only=[k for k in KINDS if KINDS[k] != 'path'])
    st, g = outcome(W.cfg.load, 'f')
    post_true(ctx, f'loaded ({g!r})'[:90], st == 'ok')
    W.unchanged(ctx, 'round trip', state)
    W.invariant(ctx, 'round trip')
