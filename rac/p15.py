import contextlib
import io
import os
import tempfile
import numpy as np
from common import oracle, arr
from chaosmagpy import data_utils as du, chaos as ch

ALL = ('g', 'ext', 'euler', 'cal', 'params')
DEFAULT = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
           'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def gen(rng, k):
    ns = [1, 2, 3, 9, 11][int(rng.integers(5))] if k % 3 == 0 else int(
        rng.integers(1, 4))
    bins = [int(x) for x in rng.integers(0, 5, ns)]
    if k % 4 == 1:
        bins = [bins[0]]*ns
    parts = ALL if k % 2 else [p for p in ALL if rng.integers(3)]
    return {'order': int(rng.integers(1, 7)), 'pieces': int(rng.integers(1, 5)),
            'nmax': int(rng.integers(1, 4)), 'nst': int(rng.integers(1, 6)),
            'n10': int(rng.integers(1, 4)), 'n11': int(rng.integers(1, 4)),
            'cal': int(rng.integers(1, 4)), 'bins': bins,
            'parts': list(parts), 'seed': int(rng.integers(1e6)),
            'given': [None, 0, 1, ns, ns, ns + 2][int(rng.integers(6))],
            'kind': ['list', 'tuple'][int(rng.integers(2))]}


def build(c):
    rng = np.random.default_rng(c['seed'])

    def cum(n):
        return np.cumsum(rng.uniform(1, 50, n)) - 40.
    p = c['parts']
    k = dict(breaks=cum(c['pieces'] + 1), order=c['order'], name='M',
             coeffs_tdep=rng.normal(size=(c['order'], c['pieces'],
                                          c['nmax']*(c['nmax'] + 2))))
    if 'g' in p:
        k['coeffs_static'] = rng.normal(size=(1, 1, c['nst']*(c['nst'] + 2)))
    if 'ext' in p:
        k['coeffs_sm'] = rng.normal(size=8)
        k['coeffs_gsm'] = np.zeros(8)
        k['coeffs_gsm'][[0, 3]] = rng.normal(size=2)
        b10, b11 = cum(c['n10'] + 1), cum(c['n11'] + 1)
        k['breaks_delta'] = dict(q10=b10, q11=b11, s11=b11.copy())
        k['coeffs_delta'] = {q: rng.normal(size=(1, n)) for q, n in (
            ('q10', c['n10']), ('q11', c['n11']), ('s11', c['n11']))}
    sats = [f's{i}' for i in range(len(c['bins']))]
    if 'euler' in p:
        k['breaks_euler'] = {s: cum(b + 1) for s, b in zip(sats, c['bins'])}
        k['coeffs_euler'] = {s: rng.normal(size=(1, max(b, 1), 3))
                             for s, b in zip(sats, c['bins'])}
    if 'cal' in p:
        k['breaks_cal'] = {'cryosat-2_1': cum(c['cal'] + 1)}
        k['coeffs_cal'] = {'cryosat-2_1': rng.normal(size=(1, c['cal'], 9))}
    params = {'Euler_prerotation': rng.normal(size=(len(sats), 3))
              if 'params' in p else None}
    k['meta'] = dict(params=params, satellites=tuple(sats))
    return ch.CHAOS(**k), sats


def eq(a, b, what):
    if a is None or b is None:
        return None if a is b else f'{what}: {a!r} and {b!r}'
    if isinstance(a, dict) or isinstance(b, dict):
        if set(a) != set(b):
            return f'{what}: keys {list(a)} and {list(b)}'
        for k in a:
            r = eq(a[k], b[k], f'{what} {k}')
            if r:
                return r
        return None
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.array_equal(a, b):
        return f'{what}: {a.tolist()} and {b.tolist()}'[:300]


def eq_base(m, n, what):
    if m is None or n is None:
        return None if m is n else f'{what}: {m!r} and {n!r}'
    for k in ('breaks', 'coeffs', 'order', 'pieces', 'dim', 'nmax', 'source'):
        r = eq(getattr(m, k, 0), getattr(n, k, 0), f'{what} {k}') if \
            k != 'source' else (None if getattr(m, k, 0) == getattr(n, k, 0)
                                else f'{what} source')
        if r:
            return r


def snapshot(m):
    d = {'sm': m.coeffs_sm, 'gsm': m.coeffs_gsm, 'bd': m.breaks_delta,
         'cd': m.coeffs_delta}
    for k in ('model_tdep', 'model_static'):
        if getattr(m, k) is not None:
            d[k] = {'b': getattr(m, k).breaks, 'c': getattr(m, k).coeffs}
    for k in ('model_euler', 'model_cal'):
        if getattr(m, k) is not None:
            d[k] = {s: {'b': x.breaks, 'c': x.coeffs}
                    for s, x in getattr(m, k).items()}

    def copy(x):
        return {k: copy(v) for k, v in x.items()} if isinstance(x, dict) \
            else None if x is None else np.array(x)
    return copy(d)


@oracle('round trip', gen, n=100)
def trip(c):
    m, sats = build(c)
    n = len(sats)
    given, names = None, DEFAULT
    if c['given'] is not None:
        names = [f'u{i}' for i in range(c['given'])]
        given = list(names) if c['kind'] == 'list' else tuple(names)
        names = list(names)
    keep = None if given is None else list(given)
    want = list(names[:n]) + [f'satellite_{i}' for i in range(
        len(names) + 1, n + 1)]
    before = snapshot(m)
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, 'mod.mat')
        try:
            quiet(m.save_matfile, f)
            kw = {} if given is None else {'satellites': given}
            if c['seed'] % 3 == 1:
                kw['name'] = 'given'
            o = (ch.load_CHAOS_matfile if c['seed'] % 2 else
                 ch.CHAOS.from_mat)(f, **kw)
            t = du.load_matfile(f)['pp']
        except Exception as e:
            return f'{type(e).__name__}: {e}'[:300]
    if given is not None and list(given) != keep:
        return 'the names of the caller changed'
    if o.name != kw.get('name', 'mod'):
        return f'name {o.name}'
    r = eq(before, snapshot(m), 'the saved model changed')
    for k in ('model_tdep', 'model_static'):
        r = r or eq_base(getattr(m, k), getattr(o, k), k)
    for k in ('coeffs_sm', 'coeffs_gsm', 'breaks_delta', 'coeffs_delta',
              'n_sm', 'n_gsm'):
        r = r or eq(getattr(m, k), getattr(o, k), k)
    if r:
        return r
    if m.model_euler is None or o.model_euler is None:
        if m.model_euler is not o.model_euler:
            return 'Euler angles present or missing'
    else:
        if list(o.model_euler) != want:
            return f'satellites {list(o.model_euler)} instead of {want}'
        for s, u in zip(sats, want):
            r = r or eq_base(m.model_euler[s], o.model_euler[u], s) or eq(
                m.model_euler[s].meta['Euler_prerotation'],
                o.model_euler[u].meta['Euler_prerotation'], 'prerotation')
        if list(o.meta['satellites']) != want:
            return 'satellites in meta'
    if m.model_cal is None or o.model_cal is None:
        if m.model_cal is not o.model_cal:
            return 'calibration present or missing'
    else:
        r = r or eq_base(m.model_cal['cryosat-2_1'],
                         o.model_cal['cryosat-2_1'], 'calibration')
    r = r or eq(m.meta['params']['Euler_prerotation'],
                o.meta['params']['Euler_prerotation'], 'prerotation')
    if r:
        return r
    x = m.model_tdep
    if (float(t['order']), float(t['pieces']), float(t['dim'])) != (
            x.order, x.pieces, x.dim) or str(t['form']) != 'pp':
        return f'pp structure {t}'[:200]
    i, j = int(c['seed']) % x.pieces, int(c['seed']) % x.dim
    for k in range(x.order):
        if np.reshape(t['coefs'], (-1, x.order))[i*x.dim + j, k] != \
                x.coeffs[k, i, j]:
            return 'pp coefficients'
    tm = np.linspace(x.breaks[0], x.breaks[-1], 7)
    a = m.synth_values_tdep(tm, 6800., 50., 20.)
    b = o.synth_values_tdep(tm, 6800., 50., 20.)
    if not all(np.array_equal(p, q) for p, q in zip(a, b)):
        return 'synthesized values differ'
    if 'euler' in c['parts']:
        for s, u in zip(sats, want):
            q = m.model_euler[s].breaks
            if q[0] < q[-1] and not np.array_equal(
                    m.synth_euler_angles(q[:-1], s),
                    o.synth_euler_angles(q[:-1], u)):
                return f'Euler angles of {s} differ'
