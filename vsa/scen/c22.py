"""C22: granulation coverage is always a valid fraction."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, gps, tails, finite, passed, fail, clear_log
from scen.common import *
from scen.c21 import alt

CELLS = {'clamped': (50, 260), 'process': (40, 200), 'disabled': (40, 200), 'helper': (24, 120), 'in_coverage': (20, 100)}
WIDE = ['clamped', 'helper', 'process']

NAN = float('nan')
SAMPLES = [[0.3, 0.5, 0.7], [-0.2, 0.4, 1.3], [-3.0, -1e-9, 0.0], [1.0, 1.0 + 1e-9, 5.0], [1e-12, 1 - 1e-9, 0.5], [-1e6, 1e6, 0.25], [1.5, 0.2, -0.5],
           [0.2, 1.0005, -0.0005], [2.0, 2.0, 2.0], [0.9, 0.02, 0.98]]
NANS = [[NAN, 0.5, 0.7], [0.3, NAN, -2.0], [NAN, NAN, NAN], [1.7, -0.5, NAN]]


def _gran(on=False, **kw):
    p = dict(mean_coverage=var('mean', 0.02, 0.9), amplitude=var('amp', 0.001, 0.2), period=alt(on, 'p', 'time', var('p', 0.5, 90, ext=(0.01, 5000)) * u.hr),
             dteff=(choice('contrast.sign', [1, 1, -1]) * var('dteff', 50, 500, ext=(0.05, 2000)) * u.K).to(choice('contrast.unit', [u.K, u.K, u.kK])), seed=choice('seed', [0, 1, 3, 77]))
    p.update(kw)
    return vsm.Granulation(**p)


def _time(on=False):
    a = choice('axis', [[0.0, 1.5, 7.0], [3.0], [0.0, 0.1, 0.2, 0.3, 40.0], [5.0, 4.0, 900.0], [-2.0, 2.0]])
    return alt(on, 't', 'time', np.array(a) * u.hr)


def _ask(g, t):
    how = choice('how', ['star', 'model'])
    if how == 'model':
        return g.get_coverage(t)
    return empty_star(choice('grid', [9, (4, 5)]), granulation=g).get_granulation_coverage(t)


def _expect(vals, n):
    return np.array([min(max(vals[i % len(vals)], 0.0), 1.0) for i in range(n)])


def _valid(what, c, t):
    check('%s: one value per requested time' % what, np.shape(c) == np.shape(t))
    le('%s: no value is negative' % what, 0.0, c)
    le('%s: no value exceeds one' % what, c, 1.0)
    finite('%s: every value is a number' % what, c)


def clamped():
    how = choice('kind', ['list', 'free', 'nan'])
    t = _time()
    g = _gran()
    if how == 'free':
        c = _ask(g, t)
        r = gps()[-1]['res']
        _valid('granulation coverage', c, t)
        eq('a sampled coverage within [0,1] is reported unchanged, one outside is moved to the nearer end', c, np.minimum(np.maximum(r, 0.0), 1.0), tol=1e-6)
        return
    if how == 'list':
        vals = choice('vals', SAMPLES)
        tails('gp', vals)
        c = _ask(g, t)
        _valid('granulation coverage', c, t)
        eq('a sampled coverage within [0,1] is reported unchanged, one outside is moved to the nearer end', c, _expect(vals, len(t)), tol=1e-6, atol=1e-7)
        return
    vals = choice('nans', NANS)
    tails('gp', vals)
    star = empty_star(9, granulation=g)
    c = star.get_granulation_coverage(t)
    _valid('granulation coverage of a star with undefined samples', c, t)
    eq('only undefined samples are replaced', c, _expect([0.0 if v != v else v for v in vals], len(t)), tol=1e-6, atol=1e-7)


def process():
    """the process behind the coverage: time and period in hours, the configured mean and amplitude, the seed"""
    on = choice('units', [True, False])
    g = _gran(on)
    t = _time(on)
    c = _ask(g, t)
    r = gps()[-1]
    eq('the process is sampled at the requested times, in hours', r['X'], t.to_value(u.hr), tol=1e-9, atol=1e-9)
    eq('the process has the configured mean coverage', r['mean'], var('mean', 0.02, 0.9), tol=1e-9)
    q = r['kernel'].evaluate(1.0, 1.0)
    eq('the process has the configured amplitude and period, in hours', np.sum(q), var('amp', 0.001, 0.2) / var('p', 0.5, 90, ext=(0.01, 5000)) / np.sqrt(2), tol=1e-6)
    eq('the process depends on the seed alone', r['key'], choice('seed', [0, 1, 3, 77]))
    clear_log()
    c2 = _ask(g, t)
    eq('the same model and times give the same coverage', c2, c)


def disabled():
    k = choice('kind', ['contrast', 'mean and amp', 'off', 'default', 'none', 'mean only', 'amp only', 'contrast unit'])
    t = _time(choice('units', [True, False]))
    if k in ('contrast', 'mean and amp', 'off', 'default', 'none', 'contrast unit'):
        t = choice('shape', [t, t, np.array([[0.0, 1.0, 2.0], [3.0, 4.0, 5.0]]) * u.hr, 2.5 * u.hr])
    gp = choice('grid', [9, (4, 5)])
    if k == 'contrast':
        star = empty_star(gp, granulation=_gran(dteff=0 * u.K))
    elif k == 'contrast unit':
        star = empty_star(gp, granulation=_gran(dteff=0.0 * u.kK))
    elif k == 'mean and amp':
        star = empty_star(gp, granulation=_gran(mean_coverage=choice('z', [0, 0.0]), amplitude=0))
    elif k == 'off':
        star = empty_star(gp, granulation=vsm.Granulation.off(seed=choice('s', [0, 5])))
    elif k == 'default':
        star = empty_star(gp)
    elif k == 'none':
        star = empty_star(gp)
        star.granulation = None
    elif k == 'mean only':
        star = empty_star(gp, granulation=_gran(amplitude=0.0))
        tails('gp', [0.25])
        eq('a constant coverage (no oscillation) is reported, not switched off', star.get_granulation_coverage(t), np.zeros(len(t)) + 0.25, tol=1e-6)
        return
    else:
        star = empty_star(gp, granulation=_gran(mean_coverage=0.0))
        tails('gp', [0.125])
        eq('oscillations around a zero mean are reported, not switched off', star.get_granulation_coverage(t), np.zeros(len(t)) + 0.125, tol=1e-6)
        return
    c = star.get_granulation_coverage(t)
    check('one value per requested time without granulation (%s)' % k, np.shape(c) == np.shape(t))
    eq('no granulation coverage when disabled (%s)' % k, c, np.zeros(np.shape(t)))


def helper():
    from vspec_vsm.granules import save_cast_coverage
    n = choice('n', [1, 2, 4])
    vals = [var('c%d' % i, -2, 3, (0.0, 1.0, -0.0)) for i in range(n)]
    out = save_cast_coverage(np.array([float(v) for v in vals]))
    check('casting keeps the number of values', len(out) == n)
    le('cast values are not negative', 0.0, out)
    le('cast values do not exceed one', out, 1.0)
    eq('values within [0,1] are kept, others moved to the nearer end', out, np.array([min(max(v, 0.0), 1.0) for v in vals]), tol=1e-9)


def in_coverage():
    """the coverage fed to the disk: every granulation value gives a normalised composition"""
    g = _gran(dteff=var('dteff', 50, 500, ext=(0.05, 2000)) * u.K)
    star = empty_star(choice('grid', [9, (4, 5)]), granulation=g, teff=3300 * u.K)
    t = np.array([0.0, 2.0]) * u.hr
    tails('gp', choice('v', [[0.4, -0.3], [1.2, 0.1], [0.0, 1.0]]))
    c = star.get_granulation_coverage(t)
    for i in range(2):
        tot, cov, fr = star.calc_coverage({'lat': var('lat0', -80, 80) * u.deg, 'lon': var('lon0', 0, 360) * u.deg}, granulation_fraction=c[i])
        eq('the composition with granulation adds up to one', sum(tot.values()), 1.0, tol=1e-6)
        eq('the cool regions take exactly the granulation coverage', dict_get0(tot, label(star.teff - g.dteff)), c[i], tol=1e-6, atol=1e-9)
        for x in tot.values():
            le('no share of the disk is negative', 0.0, x)
