import os
import tempfile
import warnings
import numpy as np
import common
from common import oracle, close, arr, raises
from chaosmagpy import chaos, coordinate_utils as cu
from chaosmagpy.config_utils import basicConfig

KEYS = ('q10', 'q11', 's11')


def spectra(which):
    with np.load(basicConfig[f'file.{which}_spectrum']) as f:
        return {k: np.array(f[k]) for k in f.files}


def offsets(rng, lo, hi):
    br, co = {}, {}
    for k in KEYS:
        n = int(rng.integers(1, 5))
        b = np.sort(rng.uniform(lo + 1, hi - 1, n - 1))
        br[k] = np.concatenate([[lo], b, [hi]]).tolist()
        co[k] = rng.normal(size=(1, n)).tolist()
    return br, co


def gen(rng, k):
    lo = float(rng.integers(1000, 6000)) + 0.25
    hi = lo + 400.
    br, co = offsets(rng, lo, hi)
    sh = [(), (3,), (2, 2), (1,)][k % 4]
    t = np.array(rng.uniform(lo, hi, sh))
    f = t.reshape(-1)
    if k % 3 == 0:
        f[0] = [lo, hi, br['q10'][-2], br['s11'][1], lo - 20, hi + 33.][
            (k//3) % 6]
    c = {'breaks': br, 'delta': co, 't': t, 'lo': lo, 'hi': hi,
         'gsm': rng.normal(size=8), 'sm': rng.normal(size=8),
         'source': [None, 'external', 'internal'][k % 3],
         'nmax': [None, 1, 2, 5][(k//2) % 4]}
    r = k % 5
    if r != 4:
        c['rc'] = float(rng.normal()) if r == 0 else rng.normal(size=sh)
    return c


def model(case, **kw):
    br = {k: arr(v) for k, v in case['breaks'].items()}
    co = {k: arr(v) for k, v in case['delta'].items()}
    nb = arr([case['lo'], case['hi']])
    rng = np.random.default_rng(5)
    return chaos.CHAOS(nb, order=1, coeffs_tdep=rng.normal(size=(1, 1, 8)),
                       coeffs_static=rng.normal(size=(1, 1, 8)),
                       coeffs_sm=arr(case['sm']), coeffs_gsm=arr(case['gsm']),
                       breaks_delta=br, coeffs_delta=co, **kw)


def fourier(t, f, s, scaled):
    """Real part of the series, positive frequencies doubled."""
    out = np.zeros(np.shape(t) + s.shape[1:])
    f = np.broadcast_to(f.reshape((-1, 1, 1)) if f.ndim == 1 else f, s.shape)
    w = np.where(f > 0, 1. if scaled else 2., 1.)
    for i in np.ndindex(*np.shape(t)):
        a = 2*np.pi*f*t[i]
        out[i] = (w*(s.real*np.cos(a) - s.imag*np.sin(a))).sum(axis=0)
    return out


def rotation(which, t, ind):
    d = spectra(which)
    e = '_ind' if ind else ''
    return fourier(t, d['frequency' + e], d['spectrum' + e],
                   bool(d['scaled']))


def limit(n, own=2):
    n = own if n is None else min(n, own)
    return n*(n + 2)


def delta(case, t):
    out = []
    for k in KEYS:
        b, c = arr(case['breaks'][k]), arr(case['delta'][k])[0]
        j = np.clip(np.searchsorted(b, t, side='right') - 1, 0, c.size - 1)
        out.append(c[j])
    return np.stack(out, axis=-1)


def want_gsm(case, source):
    A = rotation('GSM', arr(case['t']), source == 'internal')
    return A @ arr(case['gsm'])


def want_sm(case, source, rc):
    t, s = arr(case['t']), arr(case['sm'])
    rc = np.broadcast_to(arr(rc), t.shape)
    d = delta(case, t)
    full = np.empty(t.shape + (8,))
    full[..., 3:] = s[3:]
    if source == 'internal':
        full[..., :3] = d
        v = (rotation('SM', t, True) @ full[..., None])[..., 0]
        A = rotation('SM', t, False)[..., :3, :3]
        v[..., :3] += (A @ (rc[..., None]*s[:3])[..., None])[..., 0]
        return v
    full[..., :3] = rc[..., None]*s[:3] + d
    return (rotation('SM', t, False) @ full[..., None])[..., 0]


@oracle('GSM coefficients', gen, n=40)
def gsm(case):
    m = model(case)
    kw = {k: case[k] for k in ('source', 'nmax') if case[k] is not None}
    t = arr(case['t'])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        g = m.synth_coeffs_gsm(t, **kw)
    out = bool(((t < case['lo']) | (t > case['hi'])).any())
    if bool(w) != (out or (case['nmax'] or 0) > 2):
        return f'{len(w)} warnings'
    return close(g, want_gsm(case, case['source'])[
        ..., :limit(case['nmax'])], 1e-7, 1e-9, 'GSM')


def rcfile(d, t0, t1, hdf):
    n = 60
    t = np.linspace(t0, t1, n)
    rng = np.random.default_rng(3)
    e, i = 10*rng.normal(size=n), 4*rng.normal(size=n)
    if hdf:
        import h5py
        f = os.path.join(d, 'rc.h5')
        with h5py.File(f, 'w') as h:
            for k, v in (('time', t), ('RC', e + i), ('RC_e', e),
                         ('RC_i', i), ('flag', np.ones(n))):
                h[k] = v
    else:
        f = os.path.join(d, 'rc.dat')
        with open(f, 'w') as h:
            h.write('# header\n'*2)
            for x in zip(t, e + i, e, i):
                h.write('%.10f %.10f %.10f %.10f D\n' % x)
    return f, t, e, i


@oracle('SM coefficients', gen, n=50)
def sm(case):
    m = model(case)
    kw = {k: case[k] for k in ('source', 'nmax') if case[k] is not None}
    t = arr(case['t'])
    if 'rc' in case:
        g = m.synth_coeffs_sm(t, rc=case['rc'] if np.ndim(case['rc']) == 0
                              else arr(case['rc']), **kw)
        rc = case['rc']
    else:
        with tempfile.TemporaryDirectory() as d:
            f, T, e, i = rcfile(d, case['lo'] - 40, case['hi'] + 40,
                                len(case['gsm']) and t.size % 2)
            with basicConfig.context('file.RC_index', f):
                g = m.synth_coeffs_sm(t, **kw)
                if not raises(lambda: m.synth_coeffs_sm(
                        np.append(t, T[-1] + 1e-3), **kw), ValueError):
                    return 'times beyond the RC index are accepted'
                if not raises(lambda: m.synth_coeffs_sm(
                        np.append(t, T[0] - 1e-3), **kw), ValueError):
                    return 'times before the RC index are accepted'
        rc = np.interp(t, T, i if case['source'] == 'internal' else e)
    return close(g, want_sm(case, case['source'], rc)[
        ..., :limit(case['nmax'])], 1e-6, 1e-7, 'SM')


def gen_f(rng, k):
    n, K, L = int(rng.integers(1, 6)), [2, 3, 1][k % 3], [2, 1, 3][k % 3]
    dim = 1 if k % 2 else 3
    f = rng.uniform(-1, 2, (n,) if dim == 1 else (n, K, L))
    if k % 4 < 2:
        f.reshape(-1)[0] = 0.
    return {'f': f, 're': rng.normal(size=(n, K, L)),
            'im': rng.normal(size=(n, K, L)),
            't': rng.uniform(-50, 50, [(), (3,), (2, 2)][k % 3]),
            'scaled': [None, True, False][(k//2) % 3]}


@oracle('Fourier series', gen_f, n=40)
def series(case):
    s = arr(case['re']) + 1j*arr(case['im'])
    kw = {} if case['scaled'] is None else {'scaled': case['scaled']}
    t = arr(case['t'])
    return close(cu.synth_rotate_gauss(t, arr(case['f']), s, **kw),
                 fourier(t, arr(case['f']), s, bool(case['scaled'])),
                 1e-9, 1e-10, 'matrix')


@oracle('spectra for another dipole', lambda rng, k: dict(
    gen(rng, 0), change=k), n=4)
def dipole(case):
    m = model(case)
    d = list(basicConfig['params.dipole'])
    d[case['change'] % 3] += 0.1
    with basicConfig.context('params.dipole', np.array(d)):
        if not raises(lambda: m.synth_coeffs_gsm(arr(case['t']))):
            return 'GSM spectrum accepted'
        if not raises(lambda: m.synth_coeffs_sm(arr(case['t']), rc=1.)):
            return 'SM spectrum accepted'
    for f in (m.synth_coeffs_gsm, m.synth_coeffs_sm):
        kw = {'rc': 1.} if f == m.synth_coeffs_sm else {}
        if not raises(lambda: f(arr(case['t']), source='all', **kw),
                      ValueError):
            return 'unknown part accepted'
    return None
