"""Random histories of the configuration against a reference model."""
import copy
import json
import os
import re
import tempfile
import numpy as np
from common import oracle
from chaosmagpy import config_utils as cf

KIND = {'params.r_surf': 'float', 'params.r_cmb': 'float',
        'params.dipole': 3, 'params.ellipsoid': 2,
        'params.CHAOS_version': 'version', 'params.cdf_to_mjd': 'int',
        'file.RC_index': 'path', 'file.GSM_spectrum': 'path',
        'file.SM_spectrum': 'path', 'file.Earth_conductivity': 'path',
        'file.shp_coastline': 'path', 'plots.figure_width': 'float'}
DEFAULT = {
    'params.r_surf': 6371.2, 'params.r_cmb': 3485.0,
    'params.dipole': [-29442.0, -1501.0, 4797.1],
    'params.ellipsoid': [6378.137, 6356.752],
    'params.cdf_to_mjd': 730485, 'plots.figure_width': 6.3}
KEYS = list(KIND)
# JSON values; tags make other objects
VALUES = [1, 2.5, -3, '7.18', '7.18.1', 'x', '12', '1e3', None, 'None', True,
          [1, 2, 3], [1, 2], [1.5, '2', '3'], ['a', 'b', 'c'], [], [[1, 2]],
          [1, None, 2], {}, '/', '/no/such/file', 'inf', '', [1, 2, 3, 4],
          6371200.0, 1e-300, '7', ' 4 ', {'array': [1, 2, 3]},
          {'array': [4., 5.]}, {'iarray': [1, 2]}, {'sarray': ['1', '2']},
          {'sarray': ['a', 'b', 'c']}, {'tuple': [9, 8, 7]},
          {'array': [[1, 2, 3]]}, {'array': 5}, {'carray': [1, 2]}]
BAD = ['nope', 'params.R_SURF', '', 'params', 'r_surf']


def value(v):
    if isinstance(v, dict) and len(v) == 1:
        k, x = list(v.items())[0]
        if k == 'tuple':
            return tuple(x)
        return np.array(x, dtype={'array': float, 'iarray': int,
                                  'sarray': str, 'carray': complex}[k])
    return v


def spec(key, x):
    """('ok', value) or ('raise',) or ('any',) where unspecified."""
    k = KIND[key]
    try:
        if k == 'float':
            return 'ok', float(x)
        if k == 'int':
            return ('any',) if isinstance(x, float) else ('ok', int(x))
        if k == 'version':
            s = str(x)
            return ('ok', s) if re.search(r'\d+\.\d+', s) else ('raise',)
        if k == 'path':
            if x is None or (isinstance(x, str) and x == 'None'):
                return 'ok', None
            return ('ok', x) if os.path.exists(x) else ('raise',)
        with np.errstate(all='ignore'):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                try:
                    a = np.array(x, dtype=float)
                except Warning:
                    return ('any',)
        return ('ok', a) if a.ndim == 1 and a.size == k else ('raise',)
    except Exception:
        return ('raise',)


def same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and \
            a.dtype == b.dtype and a.shape == b.shape and np.array_equal(
                a, b, equal_nan=True)
    return type(a) is type(b) and (a == b or a != a and b != b)


def gen(rng, k):
    ops = []

    def draw(depth=0):
        key = str(rng.choice(KEYS if rng.random() < .92 else BAD))
        v = VALUES[int(rng.integers(len(VALUES)))]
        if key in KIND and rng.random() < .6:
            # likely valid
            kd = KIND[key]
            v = [round(float(x), 3) for x in rng.normal(size=kd)] \
                if isinstance(kd, int) else {
                'float': round(float(rng.normal()), 4), 'int': int(
                    rng.integers(1000)), 'version': '8.%d' % rng.integers(
                        30), 'path': ['/', None, '/tmp'][int(
                            rng.integers(3))]}[kd]
        op = rng.choice(['set', 'set', 'ctx', 'ctx', 'reset', 'full', 'load',
                         'save', 'damage'])
        if op == 'ctx':
            return ['ctx', key, v, [draw(depth + 1) for _ in range(int(
                rng.integers(0, 3)))] if depth < 3 else [],
                ['ok', 'raise', 'stop', 'return'][int(rng.integers(4))]]
        if op == 'load':
            n = int(rng.integers(0, 4))
            d = {}
            for _ in range(n):
                kk = str(rng.choice(KEYS if rng.random() < .9 else BAD))
                vv = VALUES[int(rng.integers(28))]
                if kk in KIND and isinstance(KIND[kk], int) \
                        and rng.random() < .6:
                    vv = [float(x) for x in rng.normal(size=KIND[kk])]
                d[kk] = vv
            return ['load', d]
        return [str(op), key, v]
    return {'ops': [draw() for _ in range(int(rng.integers(1, 9)))]}


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


class Bad(Exception):
    pass


def default(key):
    if key in DEFAULT:
        d = DEFAULT[key]
        return np.array(d) if isinstance(d, list) else d
    return INITIAL[key]


# data files that are absent here: another existing file stands in
for _k, _d in cf.DEFAULTS.items():
    if KIND.get(_k) == 'path' and not os.path.exists(_d[0]):
        _d[0] = os.path.abspath(cf.__file__)
        dict.__setitem__(cf.basicConfig, _k, _d[0])
INITIAL = {k: copy.deepcopy(v) for k, v in dict.items(cf.basicConfig)}


class Run:
    def __init__(self):
        self.c = cf.basicConfig
        self.m = {}
        for k in KEYS:
            self.m[k] = copy.deepcopy(dict.__getitem__(self.c, k))

    def same(self, what):
        if set(self.c) != set(self.m):
            raise Bad(f'{what}: names {set(self.c) ^ set(self.m)}')
        for k in self.m:
            if not same(dict.__getitem__(self.c, k), self.m[k]):
                raise Bad(f'{what}: {k} is {dict.__getitem__(self.c, k)!r} '
                          f'instead of {self.m[k]!r}')

    def assign(self, key, x, do, what):
        """Model and check one assignment; did it succeed?"""
        s = spec(key, x) if key in KIND else ('raise',)
        try:
            do()
            ok = True
        except Exception:
            ok = False
        if s[0] == 'any':
            if ok:
                self.m[key] = copy.deepcopy(dict.__getitem__(self.c, key))
        elif ok != (s[0] == 'ok'):
            raise Bad(f'{what} {key}={x!r}: ' + (
                'accepted' if ok else 'refused'))
        elif ok:
            self.m[key] = s[1]
            if isinstance(x, np.ndarray) and np.shares_memory(
                    x, dict.__getitem__(self.c, key)):
                raise Bad(f'{what} {key}: shares the memory of the value')
        self.same(f'{what} {key}={x!r}')
        return ok

    def step(self, op):
        kind = op[0]
        if kind == 'set':
            x = value(op[2])
            self.assign(op[1], x, lambda: self.c.__setitem__(op[1], x),
                        'assignment')
        elif kind == 'reset':
            if op[1] in KIND:
                self.c.reset(op[1])
                self.m[op[1]] = default(op[1])
            else:
                try:
                    self.c.reset(op[1])
                except Exception:
                    pass
                else:
                    raise Bad(f'reset of {op[1]}')
            self.same(f'reset {op[1]}')
        elif kind == 'full':
            self.c.fullreset()
            self.m = {k: default(k) for k in KEYS}
            self.same('full reset')
        elif kind == 'damage':
            for k in KEYS:
                v = dict.__getitem__(self.c, k)
                if isinstance(v, np.ndarray):
                    v[0] += 1
                    self.m[k] = v.copy()
        elif kind == 'ctx':
            self.context(*op[1:])
        elif kind == 'save':
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, 'c.json')
                self.c.save(f)
                self.same('saving')
                keep = {k: copy.deepcopy(v) for k, v in self.m.items()}
                self.c.fullreset()
                self.c.load(f)
                self.m = keep
                self.same('save and load')
        elif kind == 'load':
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, 'c.json')
                with open(f, 'w') as h:
                    json.dump(op[1], h)
                try:
                    self.c.load(f)
                    ok = True
                except Exception:
                    ok = False
                for k, x in op[1].items():
                    s = spec(k, x) if k in KIND else ('raise',)
                    if s[0] == 'any':
                        self.m = {k: copy.deepcopy(v) for k, v in
                                  dict.items(self.c)}
                        return
                    if s[0] == 'raise':
                        if ok:
                            raise Bad(f'file with {k}={x!r} accepted')
                        break
                    self.m[k] = s[1]
                self.same(f'loading {op[1]}')

    def context(self, key, v, ops, end):
        x = value(v)
        s = spec(key, x) if key in KIND else ('raise',)
        old = copy.deepcopy(self.m.get(key))
        before = dict.get(self.c, key)
        keep = copy.deepcopy(before)
        entered = False

        def block():
            nonlocal entered
            with self.c.context(key, x):
                entered = True
                self.m[key] = s[1] if s[0] == 'ok' else copy.deepcopy(
                    dict.__getitem__(self.c, key))
                self.same('inside of a context')
                for o in ops:
                    self.step(o)
                if end == 'raise':
                    raise Boom
                if end == 'stop':
                    raise Stop
                if end == 'return':
                    return
        try:
            block()
            how = 'ok'
        except Bad:
            raise
        except Boom:
            how = 'raise'
        except Stop:
            how = 'stop'
        except Exception as e:
            how = repr(e)
        if entered != (s[0] == 'ok') and s[0] != 'any':
            raise Bad(f'context {key}={x!r}: entered {entered}')
        if entered:
            if how != {'return': 'ok'}.get(end, end):
                raise Bad(f'context ended by {end}: {how}')
            self.m[key] = old
        self.same(f'after the context {key}={x!r}')


@oracle('histories', gen, n=500)
def histories(case):
    import io
    import contextlib
    cf.basicConfig.fullreset()
    try:
        for k in KEYS:
            if not same(dict.__getitem__(cf.basicConfig, k), default(k)):
                return f'default of {k}'
        with contextlib.redirect_stdout(io.StringIO()):
            r = Run()
            for op in case['ops']:
                r.step(op)
    except Bad as e:
        return str(e)
    finally:
        for k, d in cf.DEFAULTS.items():
            if k in KIND and not same(d[0] if not isinstance(
                    d[0], list) else np.array(d[0]), default(k)):
                return f'built-in default of {k} changed'
        dict.clear(cf.basicConfig)
        dict.update(cf.basicConfig, copy.deepcopy(INITIAL))
    return None
