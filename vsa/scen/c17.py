"""C17: a time window misses no flare and mixes up none."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, same_obj, hook, fail, passed, counts, rng
from scen.common import *
from scen.c16 import nodes
from scen.c08 import flare_gen

CELLS = {'select': (60, 300), 'aligned': (16, 80), 'integrals': (40, 200), 'sampling': (36, 180), 'star': (16, 80), 'edges': (40, 200), 'crowd': (6, 24)}
WIDE = []


def _flare(i, front=True, **kw):
    p = dict(fwhm=10 ** var('w%d' % i, -0.7, 0.3, ext=(-3, 3)) * u.hr, energy=var('e%d' % i, 1, 9, ext=(1e-06, 1e+06)) * 1e32 * u.erg,
             lat=var('la%d' % i, -50, 50) * u.deg, lon=(var('lo%d' % i, -60, 60) + (0 if front else 180)) * u.deg,
             Teff=var('T%d' % i, 8000, 11000, ext=(1000, 60000)) * u.K, tpeak=var('tp%d' % i, -10, 40, ext=(-500, 500)) * u.hr)
    p.update(kw)
    return vsm.StellarFlare(**p)


def _window():
    t0 = var('t0', -5, 20, ext=(-500, 500)) * u.hr
    return t0, t0 + 10 ** var('dt', -1, 1.2, ext=(-3, 2)) * u.hr


def _overlaps(f, t0, t1):
    return f.tpeak + 20 * f.fwhm > t0 and f.tpeak - f.fwhm < t1


def _index_of(f, flares):
    for i, x in enumerate(flares):
        if same_obj(f, x):
            return i
    return -1


def _judge_selection(sel, flares, t0, t1):
    for f in flares:
        if _overlaps(f, t0, t1):
            check('every flare that shines in the window is selected', _index_of(f, sel) >= 0)
    idx = [_index_of(f, flares) for f in sel]
    check('every selected flare is one of the collection', all([i >= 0 for i in idx]))
    check('no flare is selected twice', all([idx.count(i) == 1 for i in idx]))


def select():
    same = {'tpeak': var('tps', -5, 20) * u.hr} if choice('simultaneous', [False, False, True]) else {}
    flares = [_flare(i, **same) for i in range(choice('n', [1, 2, 3, 4]))]
    t0, t1 = _window()
    col = vsm.FlareCollection(flares if len(flares) > 1 else choice('single', [flares, flares[0]]))
    sel = col.get_flares_in_timeperiod(t0, t1)
    _judge_selection(sel, flares, t0, t1)
    m = col.mask(t0, t1)
    eq('the mask has one entry per flare', m.shape, (len(flares),))
    for f, inc in zip(flares, m):
        if _overlaps(f, t0, t1):
            check('the mask includes every flare that shines in the window', inc)


def edges():
    """flares that only just reach into the window"""
    w = 10 ** var('w', -0.7, 0.3, ext=(-3, 3)) * u.hr
    t0, t1 = _window()
    e = 10 ** var('e', -3, -0.5)
    late = choice('late', [True, False])
    f = _flare(0, fwhm=w, tpeak=(t1 + w * (1 - e)) if late else (t0 - w * (20 - e)))
    other = _flare(1)
    flares = choice('order', [[f, other], [other, f]])
    sel = vsm.FlareCollection(flares).get_flares_in_timeperiod(t0, t1)
    check('a flare that only just reaches into the window is selected', _index_of(f, sel) >= 0)
    vis = vsm.FlareCollection(flares).get_visible_flares_in_timeperiod(t0, t1, {'lat': 0 * u.deg, 'lon': 0 * u.deg})
    check('a visible flare that only just reaches into the window is listed', _index_of(f, vis) >= 0)


def aligned():
    flares = [_flare(i, tpeak=choice('tu%d' % i, [1 * u.day, 30 * u.hr, 700 * u.min]) * var('tq%d' % i, 0.5, 2)) for i in range(3)]
    col = vsm.FlareCollection(flares)
    for i, f in enumerate(flares):
        eq('the peak table is aligned with the flare list', col.peaks[i], f.tpeak)
        eq('the width table is aligned with the flare list', col.fwhms[i], f.fwhm)
    eq('one table entry per flare', (len(col.peaks), len(col.fwhms)), (3, 3))
    col.flares = [flares[2], flares[0]]
    col.index()
    eq('indexing again follows the list', col.peaks, np.array([flares[2].tpeak.to_value(u.hr), flares[0].tpeak.to_value(u.hr)]) * u.hr)


def _exact(f, t0, t1):
    """area-time integral over the window by quadrature of the flare's own area curve"""
    a = max(-1.0, ((t0 - f.tpeak) / f.fwhm).to_value(u.dimensionless_unscaled))
    b = min(20.0, ((t1 - f.tpeak) / f.fwhm).to_value(u.dimensionless_unscaled))
    if b <= a:
        return 0 * u.km**2 * u.hr
    x, w = nodes(a, b)
    return np.sum(f.areacurve(f.tpeak + x * f.fwhm) * w) * f.fwhm


def integrals():
    n = choice('n', [1, 2, 3])
    tog = choice('simultaneous', [False, False, True])
    flares = [_flare(i, tpeak=var('tp%d' % (0 if tog else i), 2, 9) * u.hr, fwhm=var('w%d' % i, 0.8, 2.5) * u.hr, front=choice('front%d' % i, [True, True, False]))
              for i in range(n)]
    t0 = var('t0', 1, 8) * u.hr
    t1 = t0 + var('dt', 0.6, 6) * u.hr
    obs = {'lat': 0 * u.deg, 'lon': 0 * u.deg}
    got = vsm.FlareCollection(flares).get_flare_integral_in_timeperiod(t0, t1, obs)
    vis = [f for f in flares if mu_spec(0 * u.deg, 0 * u.deg, f.lat, f.lon) > 0 and _overlaps(f, t0, t1)]
    shown = [f for f in vsm.FlareCollection(flares).get_visible_flares_in_timeperiod(t0, t1, obs)]
    eq('every visible selected flare is reported once', len(got), len(shown))
    for f in vis:
        check('every visible flare that shines in the window is listed', _index_of(f, shown) >= 0)
    h = 10 / 60
    for f, g in zip(shown, got):
        eq('each flare is reported with its own temperature', g['Teff'], f.Teff)
        w = f.fwhm.to_value(u.hr)
        slack = f.calc_peak_area() * h * (0.02 + 0.35 * h / w) * u.hr
        want = _exact(f, t0, t1)
        le('the integral covers the whole window', want - slack, g['timearea'])
        le('the integral covers nothing but the window', g['timearea'], want + slack)


def sampling():
    """the times at which a flare is evaluated"""
    seen = hook('StellarFlare.areacurve')
    f = _flare(0, tpeak=var('tp0', 2, 9) * u.hr)
    t0 = var('t0', 0, 8) * u.hr
    t1 = t0 + choice('len', [var('dta', 0.001, 0.16), var('dtb', 0.17, 0.3), var('dtc', 0.5, 5.9), 0.5, 1.0, 2.0, 0.1, 60.0, 250.0, 600.0]) * u.hr
    vsm.FlareCollection([f]).get_flare_integral_in_timeperiod(t0, t1, {'lat': 0 * u.deg, 'lon': 0 * u.deg})
    for c in seen:
        t = c[1]
        eq('the window is sampled from its start', t[0], t0, tol=1e-9)
        eq('the window is sampled to its end', t[len(t) - 1], t1, tol=1e-9)
        le('the window is sampled at least every ten minutes', t[1:] - t[:-1], 10 * u.min, atol=1e-6)


def star():
    star = empty_star(9)
    flares = [_flare(i, tpeak=var('tp%d' % i, 3, 6) * u.hr) for i in range(3)]
    star.flares = vsm.FlareCollection(flares)
    obs = {'lat': var('olat', -80, 80) * u.deg, 'lon': var('olon', 0, 360) * u.deg}
    t0, t1 = var('t0', 1, 4) * u.hr, var('t1', 6, 12) * u.hr
    a = star.get_flare_int_over_timeperiod(t0, t1, obs)
    b = vsm.FlareCollection(flares).get_flare_integral_in_timeperiod(t0, t1, obs)
    eq('a star reports the integrals of its flares', len(a), len(b))
    vis = [f for f in flares if mu_spec(obs['lat'], obs['lon'], f.lat, f.lon) > 0]
    eq('every flare facing the observer is reported once', len(a), len(vis))
    for x, y, f in zip(a, b, vis):
        eq('a star reports the same temperatures', x['Teff'], f.Teff)
        eq('a star reports the same integrals', x['timearea'], y['timearea'])


def crowd():
    """many flares"""
    n = choice('n', [70, 130, 30])
    flares = [vsm.StellarFlare(fwhm=(0.3 + (i * 7 % 11) / 10) * u.hr, energy=(1 + i % 5) * 1e32 * u.erg, lat=(i * 13 % 100 - 50) * u.deg, lon=(i * 17 % 110 - 55) * u.deg,
                               Teff=(8000 + 10 * i) * u.K, tpeak=(i * 0.37 + var('t', 0, 0.3)) * u.hr) for i in range(n)]
    t0 = var('t0', 2, 0.37 * n - 6) * u.hr
    t1 = t0 + var('dt', 1, 5) * u.hr
    col = vsm.FlareCollection(flares)
    eq('one table entry per flare', (len(col.peaks), len(col.fwhms)), (n, n))
    sel = col.get_flares_in_timeperiod(t0, t1)
    for f in flares:
        if _overlaps(f, t0, t1):
            check('every flare that shines in the window is selected', _index_of(f, sel) >= 0)
    got = col.get_flare_integral_in_timeperiod(t0, t1, {'lat': 0 * u.deg, 'lon': 0 * u.deg})
    eq('every selected flare facing the observer is reported once', len(got), len(sel))
    for f, g in zip(sel, got):
        eq('each flare is reported with its own temperature', g['Teff'], f.Teff)
