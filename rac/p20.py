import os
import tempfile
import numpy as np
from scipy.interpolate import BSpline
from common import oracle, close
import ref
from chaosmagpy import chaos as ch


def mjd(y, leap):
    """Modified Julian dates of decimal years, independent of the code."""
    y = np.asarray(y, dtype=float)
    if not leap:
        return (y - 2000.)*365.25
    out = np.empty(y.shape)
    for i in np.ndindex(*y.shape):
        k = int(np.floor(y[i]))
        d0 = (np.datetime64(f'{k:04d}-01-01')
              - np.datetime64('2000-01-01')).astype(int)
        d1 = (np.datetime64(f'{k + 1:04d}-01-01')
              - np.datetime64('2000-01-01')).astype(int)
        out[i] = d0 + (y[i] - k)*(d1 - d0)
    return out


def num(x, d=False):
    s = f'{x:.15e}'
    return s.replace('e', 'D') if d else s


def wrap(tok, n, pad):
    return '\n'.join(pad + pad.join(tok[i:i + n]) for i in range(
        0, len(tok), n)) + '\n'


def gen(rng, k):
    return {'which': ['CovObs', 'gufm1', 'CALS7K'][k % 3],
            'nmax': int(rng.integers(1, 5)), 'ns': int(rng.integers(1, 9)),
            'order': int(rng.integers(2, 6)) if k % 3 == 0 else 4,
            'w': int(rng.integers(1, 12)), 'seed': int(rng.integers(1e6)),
            'name': [None, 'my model'][int(rng.integers(2))],
            'tail': ['', '\n', '  \n'][int(rng.integers(3))],
            'uniform': bool(rng.integers(2)),
            'file': ['a.txt', 'COV.x2-int', 'gufm1'][int(rng.integers(3))]}


@oracle('splines', gen, n=90)
def splines(c):
    rng = np.random.default_rng(c['seed'])
    n, s, k, o = c['nmax'], c['ns'], c['which'], c['order']
    D, nb = n*(n + 2), s + o
    b = 1600 + np.cumsum(rng.uniform(1, 9, nb) if not c['uniform']
                         else np.full(nb, 2.5))
    if k == 'CALS7K':
        b = b - 5000.
    cf = rng.normal(size=(s, D))*1e3
    d = k == 'CALS7K'
    bt, ct = [num(x, d) for x in b], [num(x, d) for x in cf.ravel()]
    if k == 'CovObs':
        t = f'COV-OBS 1 2\n {n} {s} {o} ' + '  '.join(bt) + '\n' + wrap(
            ct, c['w'], ' ')
    elif k == 'gufm1':
        t = f'gufm1 1 2\n  {n} {s}\n' + wrap(bt, c['w'], ' ') + wrap(
            ct, c['w'], '   ')
    else:
        t = wrap([num(b[0], True), num(b[-1], True), '4', '2', f'{n}', '7',
                  f'{s}'], c['w'], ' ') + wrap(bt, c['w'], ' ') + wrap(
            ct, c['w'], '   ')
    with tempfile.TemporaryDirectory() as p:
        f = os.path.join(p, c['file'])
        with open(f, 'w') as h:
            h.write(t + c['tail'])
        kw = {} if c['name'] is None else {'name': c['name']}
        try:
            m = getattr(ch, f'load_{k}_txtfile')(f, **kw)
        except Exception as e:
            return f'{type(e).__name__}: {e}'[:300]
    nm = c['name'] or (c['file'] if d else os.path.splitext(c['file'])[0])
    if m.name != nm or m.source != 'internal' or m.order != o or \
            m.nmax != n:
        return f'name {m.name}, source {m.source}, order {m.order}'
    x = mjd(b, False)
    r = close(m.breaks, x, 1e-12, 1e-6, 'breaks')
    if r:
        return r
    if m.pieces != nb - 1 or m.coeffs.shape != (o, nb - 1, D):
        return f'shape {m.coeffs.shape}'
    tm = np.sort(np.concatenate([rng.uniform(x[0], x[-1], 20),
                                 (x[1:] + x[:-1])/2]))
    want = np.zeros((tm.size, D))
    for i in range(s):
        e = BSpline.basis_element(x[i:i + o + 1], extrapolate=False)
        want += np.nan_to_num(e(tm))[:, None]*cf[i]
    return close(m.synth_coeffs(tm), want, 1e-6, 1e-5, 'values')


def gen_i(rng, k):
    return {'nmax': int(rng.integers(1, 6)), 'E': int(rng.integers(1, 8)),
            'seed': int(rng.integers(1e6)), 'top': int(rng.integers(4)),
            'name': [None, 'IGRF'][int(rng.integers(2))],
            'tail': ['', '# end 1 2 3\n'][int(rng.integers(2))],
            'step': [5., 5., 2.5, 1.][int(rng.integers(4))],
            'prec': int(rng.integers(2))}


TOP = ['', '# IGRF 1 2\n', '# a\n  # b 3\nc/s deg ord IGRF DGRF\n',
       '   c/s deg ord\n# c\n']


@oracle('IGRF', gen_i, n=90)
def igrf(c):
    rng = np.random.default_rng(c['seed'])
    n, E = c['nmax'], c['E']
    D = n*(n + 2)
    ep = 1900. + 5*int(rng.integers(20)) + c['step']*np.arange(E)
    v = np.round(rng.normal(size=(D, E + 1))*1e3, 2)
    t, k = TOP[c['top']], 0
    t += 'g/h n m ' + ' '.join(f'{x:.1f}' for x in ep) + '  2020-25\n'
    for nn in range(1, n + 1):
        for m in range(nn + 1):
            for g in 'gh' if m else 'g':
                t += f'{g} {nn} {m}  ' + '  '.join(
                    f'{x:.2f}' for x in v[k]) + ' \n'
                k += 1
    with tempfile.TemporaryDirectory() as p:
        f = os.path.join(p, 'igrf13.v2.txt')
        with open(f, 'w') as h:
            h.write(t + c['tail'])
        kw = {} if c['name'] is None else {'name': c['name']}
        try:
            m = ch.load_IGRF_txtfile(f, **kw)
        except Exception as e:
            return f'{type(e).__name__}: {e}'[:300]
    if m.name != (c['name'] or 'igrf13.v2') or m.source != 'internal' or \
            m.order != 2 or m.nmax != n:
        return f'name {m.name}, source {m.source}, order {m.order}'
    x = mjd(np.append(ep, ep[-1] + 5), True)
    r = close(m.breaks, x, 1e-12, 1e-6, 'breaks')
    if r:
        return r
    y = v.copy()
    y[:, -1] = v[:, -2] + 5*v[:, -1]
    tm = np.sort(np.append(x, rng.uniform(x[0], x[-1], 30)))
    want = np.stack([np.interp(tm, x, y[j]) for j in range(D)], axis=-1)
    return close(m.synth_coeffs(tm), want, 1e-9, 1e-7, 'values')
