"""C26: pixel weights follow projection and quadratic limb darkening."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, finite
from scen.common import *

CELLS = {'masks': (40, 240), 'centre': (20, 100), 'coverage': (40, 200), 'assigned': (20, 100), 'average': (40, 200), 'average_uniform': (20, 100), 'limb_spot': (20, 100)}
WIDE = ['masks', 'centre', 'average_uniform']


def _mus():
    return np.array([var('m%d' % i, -1, 1, (1.0, -1.0, 0.5)) for i in range(choice('nm', [1, 3, 5]))])


def masks():
    u1, u2 = ld_coeffs()
    star = empty_star(choice('grid', [9, (4, 5)]), u1=u1, u2=u2)
    if choice('src', [0, 1]):
        mu = _mus()
    else:
        la0, lo0 = viewpoint()
        mu = star.get_mu(la0, lo0)
    want = 1 - u1 * (1 - mu) - u2 * (1 - mu)**2
    seen, hid = mu > 1e-9, mu < -1e-9
    d = star.ld_mask_for_plotting(np.array(mu))
    check('limb darkening is 1 - u1 (1-mu) - u2 (1-mu)^2', (np.abs(d - want) < 1e-6) | ~seen)
    check('the far side is dark', (np.abs(d) < 1e-12) | ~hid)
    p = star.area_projection_coefficient(np.array(mu))
    check('the projection of a visible pixel is the cosine of its viewing angle', (np.abs(p - mu) < 1e-6) | ~seen)
    check('the far side has no projection', (np.abs(p) < 1e-12) | ~hid)
    t = star.ld_mask(np.array(mu))
    check('the translucent mask folds the projection into the same law', (np.abs(t - (want - (1 - mu))) < 1e-6) | ~seen)
    check('the far side is dark in the translucent mask', (np.abs(t) < 1e-12) | ~hid)
    a = star.get_jacobian()
    eq('the area of a pixel is its share of the sphere', a, star.gridmaker.area, tol=1e-7)
    eq('the shares of the sphere add up to one', np.sum(a), 1.0, tol=1e-6)


def centre():
    u1, u2 = ld_coeffs()
    star = empty_star(choice('grid', [9, (4, 5)]), u1=u1, u2=u2)
    one = np.array([1.0])
    eq('disk centre is not darkened', star.ld_mask_for_plotting(np.array([1.0])), one)
    eq('disk centre is not darkened in the translucent mask', star.ld_mask(np.array([1.0])), one)
    eq('disk centre is not foreshortened', star.area_projection_coefficient(np.array([1.0])), one)
    hi, lo = var('mhi', 0.5, 1), var('mlo', 0.01, 0.5)
    d = star.ld_mask_for_plotting(np.array([lo, hi]))
    if u1 >= 0 and u2 >= 0:
        le('the limb is never brighter than the centre', d, 1 + 1e-12)


def _judge(star, la0, lo0, u1, u2):
    lats, lons = star.gridmaker.grid()
    mu = mu_spec(la0, lo0, lats, lons)
    w = np.where(mu > 0, mu * (1 - u1 * (1 - mu) - u2 * (1 - mu)**2), 0) * star.gridmaker.area
    m = star.add_faculae_to_map(la0, lo0)
    want = coverage_spec(m, w, star.teff, star.teff - star.granulation.dteff, 0)
    tot, cov, fr = star.calc_coverage({'lat': la0, 'lon': lo0})
    for k, v in want.items():
        eq('the share of a temperature is its share of the projected, limb-darkened area', dict_get0(tot, k), v, tol=2e-6, atol=2e-6)


def coverage():
    gp = choice('grid', [9, 12, (5, 6), 20])
    u1, u2 = choice('ld', [(0.0, 0.0), (1, 0), (0, 1), None, None, None])or (var('u1', 0, 0.7), var('u2', -0.2, 0.4))
    big = dict(amax=var('s.amax', 2e6, 3e6) * MSH, acur=var('s.acur', 5e5, 1.8e6) * MSH)
    facs = [facula('f', grid=gp, rmax=8e5 * u.km, rinit=var('f.r', 3e5, 7e5) * u.km)] if choice('nf', [0, 1]) else []
    star = star_with(gp, [spot('s', grid=gp, **big), spot('t', grid=gp, umb=2500 * u.K, pen=2900 * u.K)], facs, u1=u1, u2=u2)
    la0, lo0 = viewpoint()
    _judge(star, la0, lo0, u1, u2)


def assigned():
    """coefficients assigned later are the ones used"""
    gp = choice('grid', [9, (5, 6)])
    star = star_with(gp, [spot('s', grid=gp, amax=2e6 * MSH, acur=var('s.acur', 5e5, 1.8e6) * MSH)], [], u1=var('old1', 0, 0.5), u2=var('old2', 0, 0.3))
    la0, lo0 = viewpoint()
    if choice('ask', [True, False]):
        star.calc_coverage({'lat': la0, 'lon': lo0})
        star.ld_mask(star.get_mu(la0, lo0))
    star.u1, star.u2 = var('u1', 0, 0.7), var('u2', 0, 0.3)
    _judge(star, la0, lo0, var('u1', 0, 0.7), var('u2', 0, 0.3))


def average():
    gp = choice('grid', [9, 12, (5, 6)])
    u1, u2 = ld_coeffs()
    star = star_with(gp, [spot('s', grid=gp, amax=2e6 * MSH, acur=var('s.acur', 5e5, 1.8e6) * MSH), spot('t', grid=gp)],
                     [facula('f', grid=gp, rmax=8e5 * u.km, rinit=var('f.r', 3e5, 7e5) * u.km)] if choice('nf', [0, 1]) else [], u1=u1, u2=u2)
    la0, lo0 = viewpoint()
    obs = {'lat': la0, 'lon': lo0}
    tot = star.calc_coverage(obs)[0]
    t = star.average_teff(obs)
    lats, lons = star.gridmaker.grid()
    w = weights_spec(star, la0, lo0)
    m = star.add_faculae_to_map(la0, lo0).to_value(u.K)
    eq('the average temperature is the fourth root of the mean fourth power', t.to_value(u.K), (np.sum(w * m**4) / np.sum(w))**0.25, tol=1e-5)
    seen = w > 0
    le('the average is not below the coolest temperature', np.min(np.where(seen, m, 1e9)) - 0.01, t.to_value(u.K))
    le('the average is not above the hottest temperature', t.to_value(u.K), np.max(np.where(seen, m, 0)) + 0.01)
    check('the average temperature is a temperature', t.unit == u.K)


def average_uniform():
    u1, u2 = ld_coeffs()
    star = empty_star(choice('grid', [9, (4, 5)]), teff=var('teff', 2500, 3800, ext=(1000, 40000)) * u.K, u1=u1, u2=u2)
    la0, lo0 = viewpoint()
    eq('a featureless star has its own average temperature', star.average_teff({'lat': la0, 'lon': lo0}).to_value(u.K), star.teff.to_value(u.K), tol=1e-5)


def limb_spot():
    """a spot of one pixel close to the limb, with a small share of the disk"""
    gp = choice('grid', [9, 12, 16])
    lats, lons = CoordinateGrid.new(gp).grid()
    k = choice('pixel', [0, 1, 2, 3])
    star = star_with(gp, [spot('s', grid=gp, la=lats[k], lo=lons[k], amax=9e5 * MSH, acur=var('s.acur', 1e3, 2e4) * MSH, ratio=var('ratio', 3, 7))], [],
                     radius=1 * u.R_sun, u1=var('u1', 0, 0.7), u2=var('u2', 0, 0.3))
    d = 10 ** var('elevation', -3.3, -0.7) * u.rad
    la0, lo0 = lats[k] - 90 * u.deg + d, lons[k]
    w = weights_spec(star, la0, lo0)
    m = star.add_faculae_to_map(la0, lo0)
    want = coverage_spec(m, w, star.teff, star.teff - star.granulation.dteff, 0)
    tot, cov, fr = star.calc_coverage({'lat': la0, 'lon': lo0})
    for kk, v in want.items():
        eq('a small share is reported as it is', dict_get0(tot, kk), v, tol=1e-4, atol=1e-6)
    eq('small shares enter the average temperature', star.average_teff({'lat': la0, 'lon': lo0}).to_value(u.K),
       (np.sum(w * m.to_value(u.K)**4) / np.sum(w))**0.25, tol=1e-5)
