"""C01: coverage fractions partition the visible disk."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, counts
from scen.common import *

CELLS = {'partition': (40, 240), 'bare': (12, 60), 'no_photosphere': (12, 60), 'label_collision': (16, 80),
         'gran_collision': (12, 60), 'crowd': (4, 20)}
WIDE = ['bare']


def _granulation(dteff):
    return vsm.Granulation(mean_coverage=0.2, amplitude=0.01, period=5 * u.hr, dteff=dteff, seed=1)


def _dteff():
    """granulation may also be hotter than the photosphere"""
    return choice('sign', [1, 1, -1]) * var('dteff', 50, 400, ext=(0.05, 2000)) * u.K


def _judge(star, la0, lo0, gran, dteff):
    total, covered, frac = star.calc_coverage({'lat': la0, 'lon': lo0}, granulation_fraction=gran)
    s = 0
    for k, v in total.items():
        le('every fraction is at least 0', 0, v, atol=1e-9)
        le('every fraction is at most 1', v, 1, atol=1e-6)
        s = s + v
    eq('the fractions sum to 1', s, 1, tol=1e-6)
    w = weights_spec(star, la0, lo0)
    want = coverage_spec(star.add_faculae_to_map(la0, lo0), w, star.teff, star.teff - dteff, gran)
    for k, v in want.items():
        eq('each temperature gets the share of the disk weight at that temperature', dict_get0(total, k), v,
           tol=2e-6, atol=2e-6)
    for k, v in total.items():
        eq('no temperature is reported that is not there', v, dict_get0(want, k), tol=2e-6, atol=2e-6)
    return total


def partition():
    gp = grid_params()
    dteff = _dteff()
    star = rich_star(gp, choice('ns', [0, 1, 2, 3]), choice('nf', [0, 1, 2]), granulation=_granulation(dteff))
    la0, lo0 = viewpoint()
    _judge(star, la0, lo0, var('gran', 0, 1, (0.0, 1.0)), dteff)


def bare():
    gp = grid_params()
    dteff = _dteff()
    u1, u2 = ld_coeffs()
    star = empty_star(gp, granulation=_granulation(dteff), u1=u1, u2=u2)
    la0, lo0 = viewpoint()
    g = var('gran', 0, 1, (0.0, 1.0))
    total, covered, frac = star.calc_coverage({'lat': la0, 'lon': lo0}, granulation_fraction=g)
    eq('the quiet photosphere keeps one minus the granulation fraction', total[label(star.teff)], 1 - g, tol=1e-6,
       atol=1e-6)
    eq('the granulation fraction is reported at the granulation temperature', total[label(star.teff - dteff)], g,
       tol=1e-6, atol=1e-6)


def no_photosphere():
    gp = grid_params()
    t = var('spot', 2400, 2900) * u.K
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    s = spot('s', grid=gp, amax=4 * np.pi * rs**2, acur=3.999 * np.pi * rs**2, umb=t, pen=t)
    dteff = var('dteff', 50, 400, ext=(0.05, 2000)) * u.K
    star = star_with(gp, [s], [], radius=rs, granulation=_granulation(dteff))
    la0, lo0 = viewpoint()
    _judge(star, la0, lo0, var('gran', 0, 1, (0.0, 1.0)), dteff)


def label_collision():
    """regions whose temperatures print alike are added up"""
    gp = grid_params()
    base = choice('t', [2600.0, 2750.25, 2500.5])
    d = choice('d', [0.001, 0.002, 0.004])
    a, b = spot('a', grid=gp, umb=(base - d) * u.K, pen=(base + d) * u.K, amax=2e6 * MSH, acur=9e5 * MSH), \
        spot('b', grid=gp, umb=(base + 0.0005) * u.K, pen=(base + 0.0015) * u.K, amax=2e6 * MSH, acur=8e5 * MSH)
    dteff = var('dteff', 50, 400, ext=(0.05, 2000)) * u.K
    teff = choice('star', [3300.0, base + 0.003]) * u.K
    star = star_with(gp, [a, b], [], teff=teff, granulation=_granulation(dteff))
    la0, lo0 = viewpoint()
    _judge(star, la0, lo0, var('gran', 0, 1, (0.0, 1.0)), dteff)


def gran_collision():
    """granulation temperature equal to a spot temperature, or to the photosphere"""
    gp = grid_params()
    teff = choice('star', [3300.0, 3500.0]) * u.K
    dteff = choice('dteff', [300.0, 0.0, 500.0, 0.002]) * u.K
    a = spot('a', grid=gp, umb=3000 * u.K, pen=3200 * u.K, amax=2e6 * MSH, acur=9e5 * MSH)
    star = star_with(gp, [a], [], teff=teff, granulation=_granulation(dteff))
    la0, lo0 = viewpoint()
    _judge(star, la0, lo0, var('gran', 0, 1, (0.0, 1.0)), dteff)


def crowd():
    """many spots and faculae, most of them at temperatures of their own"""
    gp, n = choice('grid', [40, (6, 7)]), choice('n', [60, 30, 110])
    spots = [vsm.StarSpot(lat=((i * 37) % 170 - 85) * u.deg, lon=((i * 53) % 360) * u.deg, area_max=4e5 * MSH, area_current=(2e3 + 200 * i) * MSH,
                          teff_umbra=(2350 + (i * 29) % 400) * u.K, teff_penumbra=(2800 + (i * 31) % 450) * u.K, grid_params=gp) for i in range(n)]
    facs = [facula('f', grid=gp, la=((i * 23) % 170 - 85) * u.deg, lo=((i * 41) % 360) * u.deg, rmax=4e5 * u.km, rinit=(1e4 + 2e3 * i) * u.km, depth=5e4 * u.km,
                   life=9 * u.hr, fslope=0 * u.K / u.km, wslope=0 * u.K / u.km, floor0=-(50 + i) * u.K, wall0=(50 + i) * u.K) for i in range(choice('nf', [0, 25]))]
    dteff = _dteff()
    star = star_with(gp, spots, facs, teff=3300 * u.K, radius=1 * u.R_sun, granulation=_granulation(dteff), u1=0.3, u2=0.1)
    la0, lo0 = viewpoint()
    _judge(star, la0, lo0, var('gran', 0, 1), dteff)
