"""C16: a flare radiates exactly its energy."""
import numpy as np
from astropy import units as u, constants as const
from vsa_rt import var, choice, eq, le, check
from scen.common import *
from vspec_vsm import xoflares

CELLS = {'energy': (24, 120), 'raw_integral': (20, 100), 'support': (40, 200), 'peak': (20, 100), 'several': (24, 120),
         'timearea': (24, 120), 'scaling': (16, 80)}
WIDE = []

# five-point Gauss-Legendre rule on [0, 1]
GX = [0.046910077030668, 0.230765344947158, 0.5, 0.769234655052842, 0.953089922969332]
GW = [0.118463442528095, 0.239314335249683, 0.284444444444444, 0.239314335249683, 0.118463442528095]
PANELS = [-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 6.0, 8.0, 11.0, 14.0, 17.0, 20.0]


def nodes(lo, hi):
    """quadrature nodes and weights over [lo, hi] in flare widths, split where the profile changes law"""
    edges = [lo] + [p for p in PANELS if p > lo and p < hi] + [hi]
    x, w = [], []
    for a, b in zip(edges[:-1], edges[1:]):
        for p, q in zip(GX, GW):
            x.append(a + (b - a) * p)
            w.append((b - a) * q)
    return np.array(x), np.array(w)


def flare(name='f', **kw):
    p = dict(fwhm=10 ** var(name + '.w', -1, 1, ext=(-6, 5)) * u.hr, energy=10 ** var(name + '.e', 30, 35, ext=(15, 45)) * u.erg, lat=10 * u.deg, lon=20 * u.deg,
             Teff=10 ** var(name + '.T', 3.3, 4.4) * u.K, tpeak=var(name + '.tp', 5, 50) * u.hr)
    p.update(kw)
    return vsm.StellarFlare(**p)


def _energy_of(f, timearea):
    return (timearea * const.sigma_sb * f.Teff**4).to(u.erg)


def energy():
    f = flare()
    x, w = nodes(-1.0, 20.0)
    a = f.areacurve(f.tpeak + x * f.fwhm)
    total = np.sum(a * w) * f.fwhm
    eq('the area curve radiates the energy of the flare', _energy_of(f, total), f.energy, tol=2e-6)
    # nothing outside
    xo = np.array([-30.0, -5.0, -1.5, -1.001, 20.001, 25.0, 200.0])
    eq('nothing is radiated outside of the flare', f.areacurve(f.tpeak + xo * f.fwhm), np.zeros(7) * u.km**2)


def raw_integral():
    w_, amp, tp = 10 ** var('w', -2, 1, ext=(-6, 4)), 10 ** var('a', -1, 4, ext=(-8, 12)), var('tp', -3, 30, ext=(-500, 5000))
    x, w = nodes(-1.0, 20.0)
    lc = xoflares.get_light_curvenp(tp + x * w_, [tp], [w_], [amp])
    eq('the closed-form integral is that of the sampled profile', xoflares._flareintegralnp(w_, amp), np.sum(lc * w) * w_, tol=2e-6)


def support():
    """zero outside of one width before to twenty widths after the peak, positive inside"""
    f = flare()
    side = choice('side', ['before', 'rise', 'decay', 'after'])
    e = 10 ** var('eps', -3, 1)
    if side == 'before':
        x = -1 - e
    elif side == 'after':
        x = 20 + e
    elif side == 'rise':
        x = -var('in', 0.0005, 0.9995)
    else:
        x = var('in', 0.0005, 19.9995)
    a = f.areacurve(f.tpeak + np.array([x, x]) * f.fwhm)
    if side in ('before', 'after'):
        eq('the profile is zero outside of the flare', a, np.zeros(2) * u.km**2)
    else:
        check('the profile is positive inside of the flare', a > 0 * u.km**2)
        le('the profile never exceeds its peak area', a, f.calc_peak_area())


def peak():
    f = flare(fwhm=choice('w', [0.5, 1.0, 2.0, 3.0]) * u.hr, tpeak=choice('tp', [6.0, 12.0, 24.0]) * u.hr)
    t = (f.tpeak + np.array([0.0, -1e-4, 0.01]) * f.fwhm).to(u.day)
    t = np.array([f.tpeak.to_value(u.day), (f.tpeak - 1e-4 * f.fwhm).to_value(u.day), (f.tpeak + 0.3 * f.fwhm).to_value(u.day)]) * u.day
    a = f.areacurve(t)
    eq('at the peak time the area is the peak area', a[0], f.calc_peak_area(), tol=1e-9)
    le('the area is smaller before the peak', a[1], a[0])
    le('the area is smaller after the peak', a[2], a[0])
    eq('the peak is approached continuously', a[1], a[0], tol=1e-3)
    s = np.linspace(0.02, 19, 12)
    d = f.areacurve(f.tpeak + s * f.fwhm)
    le('the area falls after the peak', d[1:], d[:-1])
    r = f.areacurve(f.tpeak - np.linspace(0.95, 0.05, 8) * f.fwhm)
    le('the area rises to the peak', r[:-1], r[1:])


def several():
    n = choice('n', [1, 2, 3, 5, 12, 70])
    tp = [var('tp%d' % i, 0, 3) for i in range(n)]
    w_ = [10 ** var('w%d' % i, -1.3, 0) for i in range(n)]
    am = [10 ** var('a%d' % i, 0, 3) for i in range(n)]
    t = np.array([-0.7, 0.1, 0.55, 1.3, 2.2, 2.9, 4.1, 9.7, 40.0])
    how = choice('how', ['multi', 'light', 'arrays'])
    if how == 'multi':
        got = xoflares.multiflaremodelnp(t, tp, w_, am)
    elif how == 'light':
        got = xoflares.get_light_curvenp(t, tp, w_, am)
    else:
        got = xoflares.get_light_curvenp(t, np.array(tp), np.array(w_), np.array(am))
    want = np.zeros(9)
    for i in range(n):
        want = want + xoflares.get_light_curvenp(t, [tp[i]], [w_[i]], [am[i]])
    eq('several flares add linearly', got, want, tol=1e-9)
    if n > 1:
        eq('the order of the flares does not matter', xoflares.get_light_curvenp(t, tp[::-1], w_[::-1], am[::-1]), got, tol=1e-9)


def timearea():
    """the area-time integral of a sampled curve is its trapezoidal integral, and radiates the energy when well sampled"""
    f = flare(fwhm=var('w', 0.5, 3, ext=(0.05, 300)) * u.hr)
    x = np.linspace(-1.3, 21, 30)
    t = f.tpeak + x * f.fwhm
    a = f.areacurve(t)
    want = np.sum(0.5 * (a[1:] + a[:-1]) * (t[1:] - t[:-1]))
    eq('the area-time integral is that of the area curve', f.get_timearea(t), want, tol=1e-7)
    fine = f.tpeak + np.append(np.linspace(-1, 0, 60), np.append(np.linspace(0.001, 5, 200), np.linspace(5.1, 20, 90))) * f.fwhm
    eq('a well sampled flare radiates its energy', _energy_of(f, f.get_timearea(fine)), f.energy, tol=2e-3)


def scaling():
    f = flare()
    k, m, q = 10 ** var('k', -1, 1), 10 ** var('m', -1, 1), 10 ** var('q', -0.3, 0.3)
    g = vsm.StellarFlare(fwhm=f.fwhm * k, energy=f.energy * m, lat=f.lat, lon=f.lon, Teff=f.Teff * q, tpeak=f.tpeak)
    eq('the peak area scales with energy over width and fourth power of temperature', g.calc_peak_area(),
       f.calc_peak_area() * m / k / q**4, tol=1e-8)
    eq('the closed-form integral is linear in width and amplitude', xoflares._flareintegralnp(k, m), k * m * xoflares._flareintegralnp(1.0, 1.0), tol=1e-9)
