"""C18: the flare energy law is self-consistent."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, counts, draws, clear_log, same, fail, passed, rng, raises, int_of, tails
from scen.common import *
from scen.c08 import flare_gen

CELLS = {'unsorted': (6, 20), 'rate': (30, 160), 'distribution': (40, 200), 'quantile': (40, 200), 'density': (24, 120), 'count': (24, 120), 'peaks': (50, 260),
         'series': (60, 300), 'rejects': (8, 30), 'crowd': (8, 30)}
WIDE = []
ALPHAS = [-0.829, -0.7, -1.1, -1.5, -0.5]


def _gen(g=None, **kw):
    p = dict(alpha=choice('alpha', ALPHAS), beta=var('beta', 18, 30, ext=(0, 60)), min_energy=(10 ** var('emin', 31, 34, ext=(20, 40)) * u.erg).to(choice('eu', [u.erg, u.J, u.erg])))
    p.update(kw)
    return flare_gen(g, **p)


def rate():
    f = _gen()
    e = 10 ** var('e', 30, 36, ext=(20, 45))
    t = 10 ** var('t', -1, 2, ext=(-6, 5)) * u.day
    want = 10**f.beta * e**f.alpha
    eq('the rate above an energy is 10^beta E^alpha per day', f.frequency_greater_than(e * u.erg), want / u.day, tol=1e-6)
    eq('the expected number is rate times duration', f.get_nexp_greater_than(e * u.erg, t), want * t.to_value(u.day), tol=1e-6)
    eq('the total number is that above the minimum energy', f.get_ntotal(t),
       10**f.beta * f.min_energy.to_value(u.erg)**f.alpha * t.to_value(u.day), tol=1e-6)


def distribution():
    f = _gen()
    r = 10 ** var('r', 0, 4, ext=(0, 10))
    got = f.cdf((f.min_energy * r).to(choice('qu', [u.erg, u.J, u.erg])))
    eq('the cumulative distribution follows the rate law', got, 1 - r**f.alpha, tol=1e-6, atol=1e-9)
    eq('the cumulative distribution is one minus the ratio of rates', got,
       1 - (f.frequency_greater_than(f.min_energy * r) / f.frequency_greater_than(f.min_energy)).to_value(u.dimensionless_unscaled), tol=1e-6, atol=1e-9)
    le('the cumulative distribution is at least 0', 0, got, atol=1e-9)
    le('the cumulative distribution is at most 1', got, 1)
    le('the cumulative distribution increases', got, f.cdf(f.min_energy * r * (1 + var('d', 0.01, 3, ext=(0.01, 1e+06)))))


def quantile():
    f = _gen()
    x = np.array([var('x', 0, 0.999, (0.0,), ext=(0, 1)), var('y', 0, 0.9)])
    q = f.quantile_func(x)
    eq('one energy per quantile', q.shape, (2,))
    eq('the quantile function is the inverse of the cumulative distribution', f.cdf(q), x, tol=1e-6, atol=1e-9)
    le('no quantile is below the minimum energy', f.min_energy, q, tol=1e-7)
    e = f.min_energy * 10 ** var('r', 0, 3)
    eq('the cumulative distribution is the inverse of the quantile function', f.quantile_func(f.cdf(e)), e, tol=1e-5)
    eq('the lowest quantile is the minimum energy', f.quantile_func(0.0), f.min_energy, tol=1e-9)


def density():
    f = _gen()
    e = (f.min_energy * 10 ** var('r', 0.01, 3, ext=(1e-6, 8))).to(choice('qu', [u.erg, u.J, u.erg]))
    p = f.pdf(e)
    eq('the density is the derivative of the cumulative distribution', p * f.min_energy.to_value(u.erg),
       -f.alpha * (e / f.min_energy).to_value(u.dimensionless_unscaled)**(f.alpha - 1), tol=1e-6)
    check('the density is positive', p > 0)


def count():
    g = rng('user')
    n = choice('n', [0, 1, 2, 3])
    counts([n, 1, 2, 1])
    f = _gen(g)
    t = var('t', 0.2, 20, ext=(0.001, 10000)) * u.day
    clear_log()
    out = f.generate_flare_series(t)
    d = [x for x in draws() if x['kind'] == 'poisson']
    check('the number of flares is drawn', len(d) > 0)
    if len(d):
        eq('the number drawn uses the rate at the minimum energy', d[0]['params'][0], f.get_ntotal(t), tol=1e-7)
    eq('as many flares as drawn', len(out), n)


def peaks():
    g = rng('user')
    f = _gen(g, cluster_size=choice('cl', [1, 2, 4]))
    n = choice('n', [1, 2, 3, 5, 6, 9])
    counts([choice('c0', [0, 1, 2, 3, 4, 5]), choice('c1', [0, 1, 2]), choice('c2', [1, 2, 0]), choice('c3', [3, 1])])
    p = f.get_peaks(n)
    eq('one peak per flare', p.shape, (n,))
    le('peak times do not decrease', p[:-1], p[1:], atol=0)
    le('peak times are not negative', 0, p, atol=0)
    for i in range(n):
        for j in range(i):
            check('every flare has its own peak time', same(p[i], p[j]) is not True)
    e = [d for d in draws() if d['kind'] == 'exponential']
    if len(e):
        tot = 0
        for d in e:
            tot = tot + d['params'][0]
        le('the expected duration is of the order of the observation', tot, 2, atol=1e-6)
        le('the expected duration is of the order of the observation, from below', 0.999, tot, atol=1e-6)


def series():
    g = rng('user')
    n = choice('n', [1, 2, 3, 4])
    counts([n, choice('c0', [0, 1, 2]), choice('c1', [1, 2]), choice('c2', [1, 0, 3]), choice('c3', [1, 2])])
    f = _gen(g)
    t = var('t', 0.2, 20, ext=(0.001, 10000)) * choice('tu', [u.day, u.hr])
    out = f.generate_flare_series(t)
    eq('as many flares as drawn', len(out), n)
    for i in range(len(out)):
        a = out[i]
        le('no flare is below the minimum energy', f.min_energy, a.energy, tol=1e-7)
        check('widths are positive', a.fwhm > 0 * u.s)
        le('peak times are not negative', 0 * u.hr, a.tpeak)
        le('latitudes stay on the sphere', np.abs(a.lat), 90 * u.deg)
        le('longitudes are not negative', 0 * u.deg, a.lon)
        le('longitudes stay below 360 degrees', a.lon, 360 * u.deg)
        for j in range(i):
            b = out[j]
            check('every flare has its own peak time', same(a.tpeak, b.tpeak) is not True)
            check('every flare has its own width', same(a.fwhm, b.fwhm) is not True)
            check('every flare has its own temperature', same(a.Teff, b.Teff) is not True)
            check('every flare has its own energy', same(a.energy, b.energy) is not True)
            check('every flare has its own latitude', same(a.lat, b.lat) is not True)
            check('every flare has its own longitude', same(a.lon, b.lon) is not True)
            le('peak times do not decrease', b.tpeak, a.tpeak)
    # peak times scale with the duration
    g2 = rng('user')
    counts([n, choice('c0', [0, 1, 2]), choice('c1', [1, 2]), choice('c2', [1, 0, 3]), choice('c3', [1, 2])])
    k = var('k', 1.5, 4, ext=(0.01, 1000))
    again = _gen(g2).generate_flare_series(t * k)
    if len(again) == len(out):
        for a, b in zip(out, again):
            eq('peak times are fractions of the duration', b.tpeak, a.tpeak * k, tol=1e-7)
            eq('energies do not depend on the duration', b.energy, a.energy, tol=1e-7)


def unsorted():
    """the values of a series are not put in order: energies and the like do not depend on the peak time"""
    n = 3
    up = []
    for order in (1, -1):
        counts([n, choice('c0', [0, 1, 2]), choice('c1', [1, 2]), choice('c2', [1, 0, 3]), choice('c3', [1, 2])])
        tails('u', [0.8, 0.5, 0.2][::order] * 12)
        tails('z', [0.9, 0.1, -0.7][::order] * 12)
        out = _gen(rng('user')).generate_flare_series(2 * u.day)
        if len(out) != n:
            return
        up.append({'energies': [f.energy for f in out], 'widths': [f.fwhm for f in out], 'temperatures': [f.Teff for f in out],
                   'latitudes': [f.lat for f in out], 'longitudes': [f.lon for f in out]})
    for k in up[0]:
        a, b = up[0][k], up[1][k]
        rise = (a[0] < a[1]) & (a[1] < a[2]) & (b[0] < b[1]) & (b[1] < b[2])
        fall = (a[0] > a[1]) & (a[1] > a[2]) & (b[0] > b[1]) & (b[1] > b[2])
        check('%s are not sorted by time' % k, ~(rise | fall))


def rejects():
    f = _gen()
    bad = choice('bad', [1.0, 1.5, -0.1, -1e-6, 2.0])
    raises('quantiles outside [0,1) are rejected', f.quantile_func, ValueError, np.array([0.2, bad]))
    raises('a single quantile outside [0,1) is rejected', f.quantile_func, ValueError, bad)


def crowd():
    """many flares"""
    n = choice('n', [70, 130, 260])
    g = rng('user')
    f = _gen(g)
    t = var('t', 20, 90) * u.day
    if choice('what', ['peaks', 'series', 'series']) == 'peaks':
        counts([choice('c0', [3, 1, 2]), choice('c1', [2, 1]), 0, 5])
        p = f.get_peaks(n)
        eq('one peak per flare', p.shape, (n,))
        le('peak times do not decrease', p[:-1], p[1:], atol=0)
        le('peak times are not negative', 0, p, atol=0)
        return
    counts([n, 3, 1, 2, 0, 4])
    out = f.generate_flare_series(t)
    eq('as many flares as drawn', len(out), n)
    for a, b in zip(out[:-1], out[1:]):
        le('peak times do not decrease', a.tpeak, b.tpeak)
        check('every flare has its own energy', same(a.energy, b.energy) is not True)
        check('every flare has its own width', same(a.fwhm, b.fwhm) is not True)
        le('no flare is below the minimum energy', f.min_energy, b.energy, tol=1e-7)
