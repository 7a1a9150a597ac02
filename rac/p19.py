"""Every public function leaves what it is given, the model, the modules and
the configuration as they were; the same call again gives the same result."""
import contextlib
import copy
import io
import os
import tempfile
import types
import warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import common
from p15 import build, gen as gen_model, DEFAULT
from chaosmagpy import (chaos, config_utils, coordinate_utils as cu,
                        data_utils as du, model_utils as mu, plot_utils as pu)
from chaosmagpy.config_utils import basicConfig

common.ORACLES.clear()
oracle = common.oracle


def model(rng, full=True):
    c = gen_model(rng, 1)
    c.update(order=4, pieces=3, nmax=2, nst=4,
             parts=['g', 'ext', 'euler', 'cal', 'params'])
    c['bins'] = [0, 2] + list(c['bins'])[:1]
    return build(c)


def bmodel(rng, source='internal'):
    b = np.cumsum(rng.uniform(50, 400, 4))
    return chaos.BaseModel('b', b, 3, rng.normal(size=(3, 3, 8)),
                           source=source, meta={'k': [1, 2]})


def angles(rng, sh=(4,)):
    return rng.uniform(5, 175, sh), rng.uniform(-180, 360, sh)


def bases(rng, n=3):
    q = np.stack([np.linalg.qr(rng.normal(size=(3, 3)))[0]
                  for _ in range(n)])
    return q[:, 0], q[:, 1], q[:, 2]


CALLS = {}


def call(f):
    CALLS[f.__name__] = f
    return f


# each returns (function, args, kwargs, further objects to watch)

@call
def synth_values(rng, tmp):
    t, p = angles(rng)
    return mu.synth_values, [rng.normal(size=(4, 8)), rng.uniform(6e3, 7e3, 4),
                             t, p], dict(source=['internal', 'external'][
                                 rng.integers(2)], nmin=1), []


@call
def synth_values_grid(rng, tmp):
    t = np.linspace(0., 180., 5)
    p = np.linspace(-180., 180., 6)
    return mu.synth_values, [rng.normal(size=(15,)), 6371.2, t, p], dict(
        grid=True), []


@call
def synth_values_poles(rng, tmp):
    return mu.synth_values, [list(rng.normal(size=8)), [6371.2, 7000.],
                             np.array([0., 180.]), np.array([10, 20])], {}, []


@call
def design_gauss(rng, tmp):
    t, p = angles(rng)
    return mu.design_gauss, [rng.uniform(6e3, 7e3, 4), t, p, 3], dict(
        source=['internal', 'external'][rng.integers(2)]), []


@call
def design_matrix(rng, tmp):
    t, p = angles(rng)
    k = mu.augment_breaks(np.array([0., 1., 2.5, 4.]), 3)
    return mu.design_matrix, [k, 3, 2, rng.uniform(0, 4, 4), rng.uniform(
        6e3, 7e3, 4), t, p], dict(n_static=[None, 3][rng.integers(2)]), []


@call
def colloc_matrix(rng, tmp):
    return mu.colloc_matrix, [rng.uniform(0, 4, 5), mu.augment_breaks(
        np.array([0., 1., 2.5, 4.]), 4), 4], dict(deriv=int(
            rng.integers(3))), []


@call
def augment_breaks(rng, tmp):
    return mu.augment_breaks, [np.array([0., 1., 3.]), 4], {}, []


@call
def pp_from_bspline(rng, tmp):
    k = mu.augment_breaks(np.array([0., 1., 3.]), 4)
    return mu.pp_from_bspline, [rng.normal(size=(k.size - 4, 3)), k, 4], {}, []


@call
def synth_from_pp(rng, tmp):
    t, p = angles(rng)
    return mu.synth_from_pp, [np.array([0., 1., 3.]), 2, rng.normal(
        size=(2, 2, 8)), rng.uniform(0, 3, 4), np.full(4, 6371.2), t, p], {}, \
        []


@call
def legendre_poly(rng, tmp):
    return mu.legendre_poly, [4, rng.uniform(0, 180, (3, 2))], {}, []


@call
def power_spectrum(rng, tmp):
    return mu.power_spectrum, [rng.normal(size=(3, 15))], dict(
        radius=6000., source=['internal', 'external', 'toroidal'][
            rng.integers(3)]), []


@call
def degree_correlation(rng, tmp):
    return mu.degree_correlation, [rng.normal(size=15),
                                   rng.normal(size=15)], {}, []


@call
def sensitivity(rng, tmp):
    return mu.sensitivity, [rng.normal(size=15), rng.normal(size=15)], {}, []


@call
def dipole_to_vec(rng, tmp):
    return cu.dipole_to_vec, [rng.normal(size=3)], {}, []


@call
def igrf_dipole(rng, tmp):
    return cu.igrf_dipole, [['2010', '2015'][rng.integers(2)]], {}, []


@call
def synth_rotate_gauss(rng, tmp):
    return cu.synth_rotate_gauss, [rng.uniform(0, 9, 3), rng.uniform(
        0, 2, 4), rng.normal(size=(4, 3, 3)) + 0j], dict(scaled=bool(
            rng.integers(2))), []


@call
def rotate_gauss(rng, tmp):
    return cu.rotate_gauss, [2, 1, *bases(rng)], {}, []


@call
def rotate_gauss_fft(rng, tmp):
    return cu.rotate_gauss_fft, [1, 1], dict(
        N=5, qfunc=lambda f, k: 1 + 1e3*f, scaled=True,
        save_to=os.path.join(tmp, 'x.npz')), []


@call
def sh_analysis(rng, tmp):
    c = rng.normal(size=8)
    return cu.sh_analysis, [lambda t, p: mu.synth_values(
        c, 6371.2, t, p)[0], 2], {}, [c]


@call
def sun_position(rng, tmp):
    return cu.sun_position, [rng.uniform(0, 9000, (2, 2))], {}, []


@call
def zenith_angle(rng, tmp):
    return cu.zenith_angle, [rng.uniform(0, 9000, 4), *angles(rng)], {}, []


@call
def spherical_to_cartesian(rng, tmp):
    return cu.spherical_to_cartesian, [rng.uniform(1, 2, 4),
                                       *angles(rng)], {}, []


@call
def cartesian_to_spherical(rng, tmp):
    return cu.cartesian_to_spherical, list(rng.normal(size=(3, 4))), {}, []


@call
def gg_to_geo(rng, tmp):
    return cu.gg_to_geo, [rng.uniform(-5, 500, 4), angles(rng)[0],
                          rng.normal(size=4), rng.normal(size=4)], {}, []


@call
def geo_to_gg(rng, tmp):
    return cu.geo_to_gg, [rng.uniform(6400, 9000, 4), angles(rng)[0],
                          rng.normal(size=4), rng.normal(size=4)], {}, []


@call
def basevectors_gg(rng, tmp):
    t = angles(rng)[0]
    return cu.basevectors_gg, [t, t + .1], {}, []


@call
def basevectors_gsm(rng, tmp):
    return cu.basevectors_gsm, [rng.uniform(0, 9000, 4)], dict(
        dipole=rng.normal(size=3)), []


@call
def basevectors_sm(rng, tmp):
    return cu.basevectors_sm, [rng.uniform(0, 9000, 4)], {}, []


@call
def basevectors_mag(rng, tmp):
    return cu.basevectors_mag, [rng.normal(size=3)], {}, []


@call
def basevectors_use(rng, tmp):
    return cu.basevectors_use, list(angles(rng)), {}, []


@call
def geo_to_base(rng, tmp):
    return cu.geo_to_base, [*angles(rng, (3,)), *bases(rng)], dict(
        inverse=bool(rng.integers(2))), []


@call
def matrix_geo_to_base(rng, tmp):
    return cu.matrix_geo_to_base, [*angles(rng, (3,)), *bases(rng)], dict(
        inverse=bool(rng.integers(2))), []


@call
def transform_points(rng, tmp):
    return cu.transform_points, [*angles(rng), rng.uniform(0, 9000, 4)], dict(
        reference=['gsm', 'sm'][rng.integers(2)], dipole=rng.normal(
            size=3)), []


@call
def transform_vectors(rng, tmp):
    return cu.transform_vectors, [*angles(rng), *rng.normal(size=(2, 4)),
                                  rng.uniform(0, 9000, 4)], dict(
        reference=['gsm', 'sm', 'mag'][rng.integers(3)], inverse=bool(
            rng.integers(2))), []


@call
def center_azimuth(rng, tmp):
    return cu.center_azimuth, [rng.uniform(-900, 900, (3, 2))], {}, []


@call
def local_time(rng, tmp):
    return cu.local_time, [rng.uniform(0, 9000, 4), angles(rng)[1]], {}, []


@call
def q_response_1D(rng, tmp):
    return cu.q_response_1D, [
        rng.uniform(1e3, 1e7, 4), np.array([1e-4, .1, 1., 10.]),
        np.array([6371., 6000., 5500., 3480.]), 2], dict(
            kind=['constant', 'quadratic'][rng.integers(2)]), []


@call
def q_response(rng, tmp):
    return cu.q_response, [np.array([0., 1e-7, 1e-5]), 2], {}, []


@call
def mjd2000(rng, tmp):
    return du.mjd2000, [rng.integers(1990, 2030, 4), rng.integers(1, 13, 4),
                        rng.integers(1, 28, 4)], dict(hour=rng.integers(
                            0, 24, 4)), []


@call
def mjd2000_datetime(rng, tmp):
    return du.mjd2000, [np.array(['2001-02-03', '2011-02-03T04'],
                                 dtype='datetime64[h]')], {}, []


@call
def timestamp(rng, tmp):
    return du.timestamp, [rng.uniform(0, 9000, 4)], {}, []


@call
def is_leap_year(rng, tmp):
    return du.is_leap_year, [rng.integers(1900, 2100, 4)], {}, []


@call
def dyear_to_mjd(rng, tmp):
    return du.dyear_to_mjd, [rng.uniform(1900, 2100, 4)], dict(
        leap_year=bool(rng.integers(2))), []


@call
def mjd_to_dyear(rng, tmp):
    return du.mjd_to_dyear, [rng.uniform(-9000, 9000, 4)], dict(
        leap_year=bool(rng.integers(2))), []


@call
def save_shcfile_1d(rng, tmp):
    return du.save_shcfile, [
        rng.uniform(0, 9000, 1), rng.normal(size=15)], dict(
            filepath=os.path.join(tmp, 'a1.shc'), nmin=2, nmax=3), []


@call
def save_shcfile(rng, tmp):
    return du.save_shcfile, [np.sort(rng.uniform(0, 9000, 4)), rng.normal(
        size=(4, 8))], dict(filepath=os.path.join(tmp, 'a.shc'), order=4), []


@call
def load_shcfile(rng, tmp):
    f = os.path.join(tmp, 'b.shc')
    quiet(du.save_shcfile, np.sort(rng.uniform(0, 9000, 4)), rng.normal(
        size=(4, 8)), filepath=f)
    return du.load_shcfile, [f], {}, []


@call
def gauss_units(rng, tmp):
    return du.gauss_units, [int(rng.integers(5))], {}, []


def times(rng, m):
    return rng.uniform(m.breaks[0] + 1e-3, m.breaks[-1] - 1e-3, 4)


@call
def Base_synth_coeffs(rng, tmp):
    m = bmodel(rng)
    t = np.append(times(rng, m), m.breaks[-1] + 10.)
    return m.synth_coeffs, [t], dict(deriv=int(rng.integers(3)), extrapolate=[
        'linear', 'constant', 'off', None, 'spline', False][
            rng.integers(6)]), [m]


@call
def Base_synth_values(rng, tmp):
    m = bmodel(rng, ['internal', 'external'][rng.integers(2)])
    return m.synth_values, [times(rng, m), np.full(4, 6800.), *angles(
        rng)], {}, [m]


@call
def Base_power_spectrum(rng, tmp):
    m = bmodel(rng)
    return m.power_spectrum, [times(rng, m)[0]], dict(deriv=1), [m]


@call
def Base_to_ppdict(rng, tmp):
    m = bmodel(rng)
    return m.to_ppdict, [], {}, [m]


@call
def Base_save_matfile(rng, tmp):
    m = bmodel(rng)
    return m.save_matfile, [os.path.join(tmp, f'{rng.integers(1e9)}.mat')], \
        {}, [m]


@call
def Base_to_shc(rng, tmp):
    m = bmodel(rng)
    return m.to_shc, [os.path.join(tmp, 'c.shc')], dict(nmax=[None, 1][
        rng.integers(2)]), [m]


@call
def Base_from_shc(rng, tmp):
    f = os.path.join(tmp, 'd.shc')
    quiet(bmodel(rng).to_shc, f)
    meta = {'a': [1]}
    return (lambda f, meta: vars(chaos.BaseModel.from_shc(f, meta=meta))), \
        [f, meta], {}, [meta]


@call
def Base_from_bspline(rng, tmp):
    k = mu.augment_breaks(np.array([0., 1., 3.]), 4)
    return (lambda *a: vars(chaos.BaseModel.from_bspline(*a))), [
        'x', k, rng.normal(size=(k.size - 4, 3)), 4], {}, []


@call
def Base_init(rng, tmp):
    return (lambda *a: vars(chaos.BaseModel(*a))), [
        'x', np.array([0., 2.]), None, rng.normal(size=(2, 1, 8))], {}, []


@call
def Base_plot_power_spectrum(rng, tmp):
    m = bmodel(rng)
    return plotted(m.plot_power_spectrum), [times(rng, m)[0]], dict(
        titles='x'), [m]


@call
def Base_plot_maps(rng, tmp):
    m = bmodel(rng)
    return plotted(m.plot_maps), [times(rng, m)[0], 6371.2], dict(nmax=2), [m]


@call
def Base_plot_timeseries(rng, tmp):
    m = bmodel(rng)
    return plotted(m.plot_timeseries), [6371.2, 50., 20.], dict(deriv=1), [m]


@call
def CHAOS_call(rng, tmp):
    m, _ = model(rng)
    t = times(rng, m.model_tdep)
    return m, [t, np.full(4, 6800.), *angles(rng)], dict(
        rc_e=rng.normal(size=4), rc_i=rng.normal(size=4),
        source_list=[None, ['tdep', 'sm'], 'external', ['gsm', 'static']][
            rng.integers(4)]), [m]


@call
def CHAOS_str(rng, tmp):
    m, _ = model(rng)
    return m.__str__, [], {}, [m]


@call
def CHAOS_tdep(rng, tmp):
    m, _ = model(rng)
    return m.synth_values_tdep, [times(rng, m.model_tdep), np.full(
        4, 6800.), *angles(rng)], dict(deriv=1), [m]


@call
def CHAOS_coeffs_tdep(rng, tmp):
    m, _ = model(rng)
    return m.synth_coeffs_tdep, [times(rng, m.model_tdep)], dict(nmax=1), [m]


@call
def CHAOS_static(rng, tmp):
    m, _ = model(rng)
    return m.synth_values_static, [np.full(4, 6800.), *angles(rng)], {}, [m]


@call
def CHAOS_coeffs_static(rng, tmp):
    m, _ = model(rng)
    return m.synth_coeffs_static, [], dict(nmax=3), [m]


def part(rng):
    return ['internal', 'external', 'all'][rng.integers(2)]


@call
def CHAOS_coeffs_gsm(rng, tmp):
    m, _ = model(rng)
    return m.synth_coeffs_gsm, [times(rng, m.model_tdep)], dict(
        source=part(rng)), [m]


@call
def CHAOS_gsm(rng, tmp):
    m, _ = model(rng)
    return m.synth_values_gsm, [times(rng, m.model_tdep), np.full(
        4, 6800.), *angles(rng)], {}, [m]


@call
def CHAOS_coeffs_sm(rng, tmp):
    m, _ = model(rng)
    return m.synth_coeffs_sm, [times(rng, m.model_tdep)], dict(
        source=part(rng), rc=rng.normal(size=4)), [m]


@call
def CHAOS_sm(rng, tmp):
    m, _ = model(rng)
    return m.synth_values_sm, [times(rng, m.model_tdep), np.full(
        4, 6800.), *angles(rng)], dict(rc_e=rng.normal(size=4), rc_i=rng.normal(
            size=4)), [m]


@call
def CHAOS_euler(rng, tmp):
    while True:
        m, s = model(rng)
        s = [x for x in s if m.model_euler[x].coeffs is not None
             and m.model_euler[x].pieces > 0
             and np.ptp(m.model_euler[x].breaks) > 1]
        if s:
            break
    return m.synth_euler_angles, [times(rng, m.model_euler[s[0]]), s[0]], \
        {}, [m]


@call
def CHAOS_save_matfile(rng, tmp):
    m, _ = model(rng)
    return m.save_matfile, [os.path.join(tmp, f'{rng.integers(1e9)}.mat')], \
        {}, [m]


@call
def CHAOS_save_shcfile(rng, tmp):
    m, _ = model(rng)
    return m.save_shcfile, [os.path.join(tmp, 'e.shc')], dict(
        model=['tdep', 'static'][rng.integers(2)]), [m]


@call
def CHAOS_load(rng, tmp):
    m, s = model(rng)
    f = os.path.join(tmp, f'{rng.integers(1e9)}.mat')
    quiet(m.save_matfile, f)
    return (lambda f, s: vars(chaos.load_CHAOS_matfile(f, satellites=s))), [
        f, list(s)], {}, [m]


@call
def CHAOS_init(rng, tmp):
    sm = rng.normal(size=8)
    d = dict(breaks_delta={'q10': np.array([0., 9.]), 'q11': np.array(
        [0., 9.]), 's11': np.array([0., 9.])}, coeffs_delta={
            q: rng.normal(size=(1, 1)) for q in ('q10', 'q11', 's11')},
        breaks_euler={'a': np.array([0., 5.])}, coeffs_euler={
            'a': rng.normal(size=(1, 1, 3))}, coeffs_sm=sm,
        coeffs_gsm=rng.normal(size=8), meta={'params': {}, 'satellites': (
            'a',)})
    return (lambda b, t, **k: vars(chaos.CHAOS(b, 2, coeffs_tdep=t, **k))), [
        np.array([0., 2., 9.]), rng.normal(size=(2, 2, 8))], d, []


@call
def CHAOS_plot_maps_tdep(rng, tmp):
    m, _ = model(rng)
    return plotted(m.plot_maps_tdep), [times(rng, m.model_tdep)[0],
                                       6371.2], {}, [m]


@call
def CHAOS_plot_maps_static(rng, tmp):
    m, _ = model(rng)
    return plotted(m.plot_maps_static), [6371.2], dict(nmax=3), [m]


@call
def CHAOS_plot_timeseries_tdep(rng, tmp):
    m, _ = model(rng)
    return plotted(m.plot_timeseries_tdep), [6371.2, 50., 20.], {}, [m]


@call
def CHAOS_plot_maps_external(rng, tmp):
    m, _ = model(rng)
    return plotted(m.plot_maps_external), [times(rng, m.model_tdep)[0],
                                           6371.2], dict(
        reference=['gsm', 'GSM'][rng.integers(2)]), [m]


@call
def plot_timeseries(rng, tmp):
    return plotted(pu.plot_timeseries), [np.linspace(0, 900, 5), rng.normal(
        size=5), rng.normal(size=5)], dict(titles=['a', 'b'], ylabel='y'), []


@call
def plot_maps(rng, tmp):
    t, p = np.linspace(1, 179, 5), np.linspace(-180, 180, 7)
    p, t = np.meshgrid(p, t)
    return plotted(pu.plot_maps), [t, p, rng.normal(size=(5, 7))], dict(
        titles=['a']), []


@call
def plot_power_spectrum(rng, tmp):
    return plotted(pu.plot_power_spectrum), [rng.uniform(1, 2, 5)], dict(
        titles='a'), []


@call
def config_save(rng, tmp):
    return basicConfig.save, [os.path.join(tmp, 'c.json')], {}, []


@call
def config_str(rng, tmp):
    return basicConfig.__str__, [], {}, []


@call
def config_vector(rng, tmp):
    return config_utils.check_vector, [list(rng.normal(size=3))], dict(
        len=3), []


# ----------------------------------------------------------------- machinery

def plotted(f):
    def g(*a, **k):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                f(*a, **k)
        finally:
            plt.close('all')
    return g


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def differ(a, b, what, seen=None):
    """Path to the first difference."""
    seen = seen if seen is not None else set()
    if a is b or (id(a), id(b)) in seen:
        return None
    seen.add((id(a), id(b)))
    if type(a) is not type(b):
        return f'{what}: {type(a).__name__} and {type(b).__name__}'
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return f'{what}: {a.dtype} {a.shape} and {b.dtype} {b.shape}'
        ok = np.array_equal(a, b) if a.dtype.kind not in 'fc' else (
            np.array_equal(a, b, equal_nan=True))
        return None if ok else f'{what}: values'
    if isinstance(a, dict):
        if list(a) != list(b):
            return f'{what}: keys {list(a)} and {list(b)}'
        # the time at which a model was made is no part of its content
        it = [(f'{what}[{k!r}]', a[k], b[k]) for k in a if k != 'timestamp']
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f'{what}: length'
        it = [(f'{what}[{k}]', x, y) for k, (x, y) in enumerate(zip(a, b))]
    elif type(a).__module__.startswith('chaosmagpy'):
        it = [(what, dict(vars(a)), dict(vars(b)))]
    elif isinstance(a, (int, float, complex, str, bytes, np.generic,
                        type(None))):
        return None if a == b or a != a and b != b else f'{what}: {a!r} {b!r}'
    else:
        return None
    for w, x, y in it:
        r = differ(x, y, w, seen)
        if r:
            return r
    return None


def copied(x, memo):
    if id(x) in memo:
        return memo[id(x)][0]
    if isinstance(x, np.ndarray):
        r = x.copy()
    elif isinstance(x, dict):
        r = type(x).__new__(type(x)) if type(x) is not dict else {}
        for k, v in x.items():
            dict.__setitem__(r, k, copied(v, memo))
    elif isinstance(x, (list, tuple)):
        r = type(x)(copied(v, memo) for v in x)
    elif type(x).__module__.startswith('chaosmagpy') and not isinstance(
            x, (type, types.FunctionType, types.MethodType)):
        r = object.__new__(type(x))
        r.__dict__.update({k: copied(v, memo) for k, v in vars(x).items()})
    else:
        r = x
    memo[id(x)] = (r, x)
    return r


def modules():
    out = {'config': basicConfig, 'defaults': config_utils.DEFAULTS
           if hasattr(config_utils, 'DEFAULTS') else None}
    for m in (chaos, cu, du, mu, pu, config_utils):
        for k, v in vars(m).items():
            n = f'{m.__name__}.{k}'
            if isinstance(v, types.FunctionType):
                out[n] = [v.__defaults__, v.__kwdefaults__]
            elif isinstance(v, type) and v.__module__ == m.__name__:
                out[n] = {q: [w.__defaults__, w.__kwdefaults__] if isinstance(
                    w, types.FunctionType) else w for q, w in vars(v).items()
                    if not q.startswith('__')}
            elif isinstance(v, (dict, list, tuple, np.ndarray, int, float,
                                str)) and not k.startswith('__'):
                out[n] = v
    return out


NAMES = list(CALLS)
PLAIN = [n for n in NAMES if not any(
    x in n for x in ('plot', 'save', 'load', 'shc', 'fft', 'config', 'init'))]
CASES = [(n, 'as is') for n in NAMES] + [(n, 'square') for n in PLAIN] + [
    (n, 'single') for n in PLAIN] + [(n, 'read-only') for n in NAMES]


def gen(rng, k):
    n, form = CASES[k % len(CASES)]
    return {'call': n, 'seed': int(rng.integers(1e6)), 'form': form}


def shaped(x, form):
    """The four points as a 2-by-2 array, or the first one of them."""
    if isinstance(x, np.ndarray) and x.shape[:1] == (4,):
        return x.reshape((2, 2) + x.shape[1:]) if form == 'square' else (
            x[0].copy() if x.ndim > 1 else np.array(x[0]))
    return x


def inputs(case, tmp):
    return CALLS[case['call']](np.random.default_rng(case['seed']), tmp)


def freeze(x):
    for v in x:
        if isinstance(v, np.ndarray):
            v.flags.writeable = False


def attempt(f, a, k):
    try:
        return ['value', quiet(f, *a, **k)]
    except Exception as e:
        return ['raises', type(e).__name__, str(e)]


@oracle('unchanged', gen, n=len(CASES))
def unchanged(case):
    with tempfile.TemporaryDirectory() as tmp:
        f, a, k, more = inputs(case, tmp)
        if case['form'] in ('square', 'single'):
            a = [shaped(x, case['form']) for x in a]
            k = {q: shaped(x, case['form']) for q, x in k.items()}
        watch = {'arguments': a, 'keywords': k, 'object': more,
                 'modules': modules()}
        before = copied(watch, {})
        if case['form'] == 'read-only':
            freeze(a)
            freeze(k.values())
        one = attempt(f, a, k)
        if one[0] == 'raises':
            if case['form'] in ('square', 'single'):
                return None                 # not every function takes these
            return f'{case["call"]} raises {one[1]}: {one[2]}'
        watch['modules'] = modules()
        r = differ(watch, before, case['call'])
        if r:
            return f'changed: {r}'
        one = copied(one, {})
        if 'save' in case['call'] or 'to_shc' in case['call']:
            return None                     # files are checked elsewhere
        two = attempt(f, a, k)
        watch['modules'] = modules()
        r = differ(watch, before, case['call'])
        if r:
            return f'changed by the second call: {r}'
        r = differ(one, two, case['call'])
        return r and f'another result of the same call: {r}'


@oracle('no call forgotten', lambda rng, k: {}, n=1)
def complete(case):
    """Calls in another order: results do not depend on earlier calls."""
    rng = np.random.default_rng(7)
    with tempfile.TemporaryDirectory() as tmp:
        names = [n for n in NAMES if not any(
            x in n for x in ('plot', 'save', 'load', 'shc', 'fft'))]
        sets = {n: CALLS[n](np.random.default_rng(3), tmp) for n in names}
        first = {n: copied(attempt(*sets[n][:3]), {}) for n in names}
        for n in rng.permutation(names):
            r = differ(attempt(*sets[n][:3]), first[n], n)
            if r:
                return f'depends on the history: {r}'
    return None
