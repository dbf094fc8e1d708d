"""C02: occulted fractions never exceed what is there."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, finite
from scen.common import *

CELLS = {'relation': (24, 120), 'out_of_transit': (20, 100), 'behind': (20, 100), 'hidden': (16, 80), 'partial': (16, 60), 'close_in': (24, 120), 'small': (24, 120)}
WIDE = []


def _granulation(dteff):
    return vsm.Granulation(mean_coverage=0.2, amplitude=0.01, period=5 * u.hr, dteff=dteff, seed=1)


def relation():
    gp = choice('grid', [9, 12, (4, 5), (5, 6), 16])
    dteff = var('dteff', 50, 400, ext=(0.05, 2000)) * u.K
    star = rich_star(gp, choice('ns', [1, 2, 0]), choice('nf', [0, 1]), granulation=_granulation(dteff))
    la0, lo0 = viewpoint()
    g = var('gran', 0, 1, (0.0, 1.0))
    rp = var('rp', 0.15, 0.95) * star.radius
    orb = var('orb', 3, 20) * star.radius
    # |x| < 1 + rp: small angles from mid-transit
    phase = 180 * u.deg + var('dphase', -0.25, 0.25, (0.0,)) * u.rad
    inc = (90 + var('dinc', -3, 3, (0.0,))) * u.deg
    kw = dict(orbit_radius=orb, phase=phase, inclination=inc)
    total, covered, frac = star.calc_coverage({'lat': la0, 'lon': lo0}, granulation_fraction=g, planet_radius=rp, **kw)
    mask, frac2 = star.get_transit_mask(la0, lo0, radius=rp, **kw)
    le('the hidden fraction of a pixel is at least 0', 0, mask, atol=1e-9)
    le('the hidden fraction of a pixel is at most 1', mask, 1, atol=1e-6)
    for k, v in covered.items():
        le('the covered fraction is at least 0', 0, v, atol=1e-9)
        le('the covered fraction is at most the fraction that is there', v, dict_get0(total, k), atol=1e-6)
    w = weights_spec(star, la0, lo0)
    smap = star.add_faculae_to_map(la0, lo0)
    whole = np.sum(w)
    want = {}
    for t in np.unique(smap):
        add_to(want, label(t), np.sum(np.where(smap == t, w * mask, 0)) / whole)
    phot = want.get(label(star.teff), 0)
    want[label(star.teff)] = phot * (1 - g)
    add_to(want, label(star.teff - dteff), phot * g)
    for k, v in want.items():
        eq('the covered fraction is the hidden share of the disk weight', dict_get0(covered, k), v, tol=2e-6, atol=2e-6)
    for k, v in covered.items():
        eq('nothing is covered that is not there', v, dict_get0(want, k), tol=2e-6, atol=2e-6)


def _none(star, la0, lo0, g, rp, orb, phase, inc):
    total, covered, frac = star.calc_coverage({'lat': la0, 'lon': lo0}, granulation_fraction=g, planet_radius=rp,
                                              orbit_radius=orb, phase=phase, inclination=inc)
    for k, v in covered.items():
        eq('outside of transit nothing is covered', v, 0, atol=1e-9)
    mask, f = star.get_transit_mask(la0, lo0, orbit_radius=orb, radius=rp, phase=phase, inclination=inc)
    eq('outside of transit no pixel is hidden', 1.0 * mask, np.zeros_like(1.0 * mask), atol=1e-9)


def out_of_transit():
    """planet clear of the stellar disk"""
    gp = choice('grid', [9, 12, (4, 5), (5, 6), 16])
    star = rich_star(gp, 1, choice('nf', [0, 1]))
    la0, lo0 = viewpoint()
    rp = var('rp', 0.05, 0.95) * star.radius
    orb = var('orb', 4, 60, ext=(4, 3000)) * star.radius
    phase = var('phase', -360, 720, ext=(-3000, 3000)) * u.deg
    inc = var('inc', 0, 180, (90.0,)) * u.deg
    x = (orb / star.radius * np.sin(phase)).value
    y = (orb / star.radius * np.cos(phase) * np.cos(inc)).value
    if np.sqrt(x**2 + y**2) > 1.05 + rp / star.radius + 2.2 * np.sqrt(np.max(star.gridmaker.area)) * 2:
        _none(star, la0, lo0, var('gran', 0, 1), rp, orb, phase, inc)


def behind():
    """planet behind the star (secondary eclipse)"""
    gp = choice('grid', [9, 12, (4, 5), (5, 6), 16])
    star = rich_star(gp, 1, choice('nf', [0, 1]))
    la0, lo0 = viewpoint()
    rp = var('rp', 0.05, 0.95) * star.radius
    orb = var('orb', 3, 30) * star.radius
    turn = choice('turn', [0, 360, -360])
    phase = (turn + var('dphase', -80, 80, (0.0, 3.0, -5.0))) * u.deg
    inc = var('inc', 60, 120, (90.0,)) * u.deg
    _none(star, la0, lo0, var('gran', 0, 1), rp, orb, phase, inc)


def hidden():
    """pixels well inside the planet's disk are hidden, pixels well outside are not"""
    gp = choice('grid', [40, 60, (8, 12)])
    star = empty_star(gp)
    la0, lo0 = lat('lat0', -60, 60, (0.0,)), lon('lon0')
    rr = var('rp', 0.75, 0.97)
    oo = var('orb', 3, 12)
    sx = var('sx', -1.7, 1.7)
    phase = 180 * u.deg + np.arcsin(sx / oo) * u.rad
    inc = (90 + var('dinc', -3, 3)) * u.deg
    mask, f = star.get_transit_mask(la0, lo0, orbit_radius=oo * star.radius, radius=rr * star.radius, phase=phase,
                                    inclination=inc)
    _hidden(star, la0, lo0, mask, rr, oo, phase, inc)


def _distance(star, la0, lo0, oo, phase, inc):
    px = oo * np.sin(phase - 180 * u.deg).value
    py = oo * (np.cos(phase - 180 * u.deg) * np.cos(inc)).value
    lats, lons = star.gridmaker.grid()
    m = mu_spec(la0, lo0, lats, lons)
    x = (np.cos(lats) * np.sin(lons - lo0)).value
    y = (np.cos(la0) * np.sin(lats) - np.sin(la0) * np.cos(lats) * np.cos(lons - lo0)).value
    d = np.sqrt((x - px)**2 + (y - py)**2)
    return d, m


def _hidden(star, la0, lo0, mask, rr, oo, phase, inc):
    d, m = _distance(star, la0, lo0, oo, phase, inc)
    size = 4 * np.sqrt(star.gridmaker.area) * np.where(m > 0, m, 0)
    inside = (m > 0.02) & (d + size + 0.02 < rr)
    outside = (d > rr + size + 0.02) | (m < -1e-6)
    check('pixels well inside the planet are fully hidden', (mask > 0.999) | ~inside)
    check('pixels well outside the planet are not hidden', (mask < 1e-6) | ~outside)
    edge = (m > 0.3) & (d > rr) & (d < rr + 0.25 * size)
    check('pixels centred outside the planet are not mostly hidden', (mask < 0.75) | ~edge)


def close_in():
    """orbits that almost touch the star: the planet is near the limb far from conjunction, in front or behind"""
    gp = choice('grid', [12, (4, 5), 16, (5, 6)])
    star = rich_star(gp, 1, 0)
    la0, lo0 = lat('lat0', -85, 85, (0.0,)), lon('lon0')
    rr = var('rp', 0.2, 0.95)
    oo = var('orb', 1.02, 1.6)
    inc = (90 + var('dinc', -30, 30, (0.0,))) * u.deg
    if choice('where', ['behind', 'front']) == 'behind':
        phase = (choice('turn', [0, 360, -360]) + var('dphase', -89.9, 89.9)) * u.deg
        _none(star, la0, lo0, var('gran', 0, 1), rr * star.radius, oo * star.radius, phase, inc)
    else:
        phase = (choice('turn', [0, 360, -360]) + 180 + var('dphase', -89.9, 89.9)) * u.deg
        mask, f = star.get_transit_mask(la0, lo0, orbit_radius=oo * star.radius, radius=rr * star.radius, phase=phase, inclination=inc)
        _hidden(star, la0, lo0, mask, rr, oo, phase, inc)


def _profile(d, s, area, r):
    """share of a gaussian pixel of widths 2 sqrt(area) mu (towards the planet) and 2 sqrt(area), within three of the smaller
    widths, that lies within r of a point at distance d"""
    sx, sy = 2 * np.sqrt(area) * s, 2 * np.sqrt(area)
    x = np.linspace(-3, 3, 41) * sx
    xx, yy = np.meshgrid(x, x)
    z = np.exp(-0.5 * (xx / sx)**2 - 0.5 * (yy / sy)**2) / (2 * np.pi * sx * sy)
    inside = (xx - d)**2 + yy**2 < r**2
    return np.sum(np.where(inside, z, 0)) * (x[1] - x[0])**2


def partial():
    """pixels on the edge of the planet"""
    gp = choice('grid', [9, 12, (4, 5), 16])
    star = empty_star(gp, teff=3300 * u.K)
    la0, lo0 = lat('lat0', -70, 70, (0.0,)), lon('lon0')
    rr = var('rp', 0.1, 0.97)
    oo = var('orb', 3, 12)
    phase = 180 * u.deg + np.arcsin(var('sx', -1.2, 1.2) / oo) * u.rad
    inc = 90 * u.deg + np.arcsin(var('sy', -1.0, 1.0) / oo) * u.rad
    orb = oo * star.radius
    mask, f = star.get_transit_mask(la0, lo0, orbit_radius=orb, radius=rr * star.radius, phase=phase, inclination=inc)
    more, f = star.get_transit_mask(la0, lo0, orbit_radius=orb, radius=(rr + var('more', 0.005, 0.03)) * star.radius, phase=phase, inclination=inc)
    le('a larger planet hides no less of a pixel', 1.0 * mask, 1.0 * more, atol=1e-6)
    d, m = _distance(star, la0, lo0, oo, phase, inc)
    area = star.gridmaker.area
    for k in np.ndindex(*m.shape):
        if m[k] > 0.15 and d[k] < rr + 2 * 2 * np.sqrt(area[k]) * m[k] - 0.02 and d[k] + 2 * 2 * np.sqrt(area[k]) * m[k] > rr + 0.02 and area[k] > 1e-3:
            eq('a pixel on the edge is hidden in part', mask[k], _profile(d[k], m[k], area[k], rr), tol=0, atol=0.08)
            return


def small():
    """a planet smaller than a pixel, in front of its centre"""
    star = empty_star(choice('grid', [6, 9, (3, 4), (4, 5)]), teff=3300 * u.K)
    la0, lo0 = lat('lat0', -80, 80, (0.0,)), lon('lon0')
    lats, lons = star.gridmaker.grid()
    m = mu_spec(la0, lo0, lats, lons).flatten()
    area = (star.gridmaker.area * np.ones(lats.shape)).flatten()
    seen = [i for i in range(lats.size) if m[i] > 0.12 and area[i] > 1e-3]
    k = seen[choice('k', list(range(12))) % len(seen)]
    la1, lo1 = lats.flatten()[k], lons.flatten()[k]
    # no less than the steps of the pixel's own sampling
    rr = 10**var('rp', -0.95, -0.2) * 2 * np.sqrt(area[k]) * m[k]
    x = (np.cos(la1) * np.sin(lo1 - lo0)).value
    y = (np.cos(la0) * np.sin(la1) - np.sin(la0) * np.cos(la1) * np.cos(lo1 - lo0)).value
    orb = var('orb', 3, 12)
    ph = 180 * u.deg + np.arcsin(x / orb) * u.rad
    inc = np.arccos(y / (orb * np.cos(np.arcsin(x / orb)))) * u.rad
    kw = dict(orbit_radius=orb * star.radius, phase=ph, inclination=inc)
    mask, f = star.get_transit_mask(la0, lo0, radius=rr * star.radius, **kw)
    check('a planet in front of the centre of a pixel hides some of it', (1.0 * mask).flatten()[k] > 1e-5)
    total, covered, frac = star.calc_coverage({'lat': la0, 'lon': lo0}, planet_radius=rr * star.radius, **kw)
    check('a planet in front of the disk covers something', covered[label(star.teff)] > 1e-7)
