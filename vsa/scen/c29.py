"""C29: the granulation process has the documented covariance."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, gps, finite
from scen.common import *
from scen.c21 import alt
from vspec_vsm.granules import GranulationKernel, build_gp

CELLS = {'law': (60, 300), 'lag_only': (30, 160), 'model': (30, 160), 'build': (20, 100)}
WIDE = ['lag_only', 'model']


def _law(scale, period, tau):
    """Gordon, Agol & Foreman-Mackey 2020: stochastically driven, damped oscillator with Q = 1/sqrt(2)"""
    x = abs(tau) / period / np.sqrt(2)
    return scale / period * np.exp(-x) * np.cos(x - np.pi / 4)


def _k():
    return var('scale', 1e-3, 2.0, ext=(1e-08, 1000)), var('period', 0.3, 60, ext=(0.001, 10000))


def law():
    scale, period = _k()
    t1, t2 = var('t1', -50, 50, (0.0,), ext=(-5000, 5000)), var('t2', -50, 50, (0.0,), ext=(-5000, 5000))
    if choice('same', [False, False, False, True]):
        t2 = t1
    k = GranulationKernel(scale, period)
    v = np.sum(k.evaluate(t1, t2))
    finite('the covariance is a number', v)
    eq('the covariance of two times follows the documented law', v, _law(scale, period, t1 - t2), tol=1e-6, atol=1e-9 * scale / period)


def lag_only():
    scale, period = _k()
    t1, t2, d = var('t1', -50, 50, (0.0,)), var('t2', -50, 50), var('d', -30, 30)
    k = GranulationKernel(scale, period)
    a = np.sum(k.evaluate(t1, t2))
    eq('the covariance is symmetric in the two times', np.sum(k.evaluate(t2, t1)), a, tol=1e-9)
    eq('the covariance depends on the separation alone', np.sum(k.evaluate(t1 + d, t2 + d)), a, tol=1e-6, atol=1e-9 * scale / period)
    le('no covariance exceeds the variance', a, np.sum(k.evaluate(t1, t1)) * (1 + 1e-9))
    le('the variance is positive', 0.0, np.sum(k.evaluate(t1, t1)))


def model():
    on = choice('units', [True, False])
    scale, period = _k()
    g = vsm.Granulation(var('mean', 0.05, 0.6), scale, alt(on, 'p', 'time', period * u.hr), 200 * u.K, seed=choice('seed', [0, 4]))
    p = choice('order', [(0, 1, 2), (0, 1, 2), (2, 1, 0), (1, 2, 0)])
    a = [0.0, var('t1', 0.1, 90), 100.0]
    t = alt(on, 't', 'time', np.array([a[p[0]], a[p[1]], a[p[2]]]) * u.hr)
    if choice('how', [0, 1]):
        g.get_coverage(t)
    else:
        empty_star(9, granulation=g).get_granulation_coverage(t)
    rec = gps()
    check('one process is sampled', len(rec) >= 1)
    r = rec[len(rec) - 1]
    x = r['X']
    for i, j in ((0, 0), (0, 1), (1, 2), (2, 1)):
        eq('the sampled process has the documented covariance at the requested times', np.sum(r['kernel'].evaluate(x[i], x[j])),
           _law(scale, period, t[i].to_value(u.hr) - t[j].to_value(u.hr)), tol=1e-5, atol=1e-8 * scale / period)
    d = r['diag']
    if d is not None:
        eq('no extra noise is added', d, 0.0, atol=1e-6 * scale / period)


def build():
    scale, period = _k()
    gp = build_gp({'mean': var('mean', 0.05, 0.6), 'scale': scale, 'period': period}, np.array([0.0, var('t1', 0.1, 90)]))
    import jax
    gp.sample(jax.random.PRNGKey(1))
    r = gps()[0]
    eq('the built process has the documented covariance', np.sum(r['kernel'].evaluate(r['X'][0], r['X'][1])), _law(scale, period, var('t1', 0.1, 90)), tol=1e-6, atol=1e-8 * scale / period)
    eq('the built process has the given mean', r['mean'], var('mean', 0.05, 0.6))
