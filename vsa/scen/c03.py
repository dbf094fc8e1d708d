"""C03: nothing on the far side of the star contributes."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, same_obj
from scen.common import *

CELLS = {'weights': (24, 160), 'far_spot': (16, 80), 'pixel': (40, 200), 'transit': (16, 80), 'poles': (12, 60), 'limb': (16, 80), 'beyond': (16, 80), 'polar_limb': (6, 24), 'flares': (24, 160), 'flare_default': (8, 30)}
WIDE = ['weights']


def weights():
    gp = grid_params()
    u1, u2 = ld_coeffs()
    star = empty_star(gp, u1=u1, u2=u2)
    la0, lo0 = viewpoint()
    lats, lons = star.gridmaker.grid()
    mu = mu_spec(la0, lo0, lats, lons)
    far = mu < -1e-9
    m = star.get_mu(la0, lo0)
    p = star.area_projection_coefficient(m)
    check('the far side has no projected area', (np.abs(p) <= 1e-12) | ~far)
    check('the far side is dark in the translucent mask', (np.abs(star.ld_mask(m)) <= 1e-12) | ~far)
    check('the far side is dark in the limb-darkening mask', (np.abs(star.ld_mask_for_plotting(m)) <= 1e-12) | ~far)
    near = mu > 1e-9
    check('the near side has projected area', (p > 0) | ~near)


def far_spot():
    """a spot or facula wholly on the far side does not show up"""
    gp = grid_params()
    la0, lo0 = lat('lat0', -85, 85, (0.0,)), lon('lon0')
    u1, u2 = ld_coeffs()
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    t = var('t', 2400, 2900) * u.K
    off_lat, off_lon = var('dlat', -10, 10, (0.0,)) * u.deg, var('dlon', -10, 10, (0.0,)) * u.deg
    la1, lo1 = -la0 + np.where(la0 > 0 * u.deg, 1, -1) * np.abs(off_lat) * 0.5, lo0 + 180 * u.deg + off_lon
    # cap of half-angle below 70 degrees around the antipode
    cap = var('cap', 0.3, 1.2)
    area = 2 * np.pi * rs**2 * (1 - np.cos(cap))
    s = spot('s', grid=gp, la=la1, lo=lo1, amax=area * 2, acur=area, umb=t, pen=t)
    f = facula('f', grid=gp, la=la1, lo=lo1, rmax=2 * rs * cap, rinit=rs * cap)
    kind = choice('what', ['spot', 'facula', 'both'])
    star = star_with(gp, [s] if kind != 'facula' else [], [f] if kind != 'spot' else [], radius=rs, u1=u1, u2=u2)
    total, covered, frac = star.calc_coverage({'lat': la0, 'lon': lo0})
    eq('the quiet photosphere fills the visible disk', total[label(star.teff)], 1, tol=1e-6)
    for k, v in total.items():
        if k != label(star.teff):
            eq('a far-side feature has no coverage', v, 0, atol=1e-9)


def pixel():
    """a feature on a single pixel shows up only if the pixel is on the near side"""
    gp = choice('grid', [9, 12, 17, (5, 6), (4, 7)])
    la0, lo0 = viewpoint()
    u1, u2 = ld_coeffs()
    rs = 1 * u.R_sun
    lats, lons = vsm.CoordinateGrid.new(gp).grid()
    k = choice('k', list(range(9)))
    la1, lo1 = lats.flatten()[k * 2 % lats.size], lons.flatten()[k * 2 % lats.size]
    t = var('t', 2400, 2900) * u.K
    area = 2 * np.pi * rs**2 * (1 - np.cos(0.02))
    s = spot('s', grid=gp, la=la1, lo=lo1, amax=area * 2, acur=area, umb=t, pen=t)
    f = facula('f', grid=gp, la=la1, lo=lo1, rmax=0.04 * rs, rinit=0.02 * rs)
    kind = choice('what', ['spot', 'spot', 'facula'])
    star = star_with(gp, [s] if kind != 'facula' else [], [f] if kind != 'spot' else [], radius=rs, u1=u1, u2=u2)
    total, covered, frac = star.calc_coverage({'lat': la0, 'lon': lo0})
    mu = mu_spec(la0, lo0, la1, lo1)
    rest = 0
    for key, v in total.items():
        if key != label(star.teff):
            rest = rest + v
    if mu < -1e-6:
        eq('a feature on a far-side pixel has no coverage', rest, 0, atol=1e-9)
    elif mu > 1e-6:
        w = star.gridmaker.area * np.where(mu_spec(la0, lo0, lats, lons) > 0, 1, 0)
        if w.flatten()[k * 2 % lats.size] > 1e-6 and u1 + u2 < 0.95:
            check('a feature on a near-side pixel has coverage', rest > 0)


def transit():
    gp = choice('grid', [12, 16, (5, 6), 24])
    star = empty_star(gp)
    la0, lo0 = viewpoint()
    rp = var('rp', 0.3, 0.97) * star.radius
    phase = 180 * u.deg + var('dphase', -0.2, 0.2, (0.0,)) * u.rad
    inc = (90 + var('dinc', -3, 3, (0.0,))) * u.deg
    mask, f = star.get_transit_mask(la0, lo0, orbit_radius=var('orb', 3, 12) * star.radius, radius=rp, phase=phase,
                                    inclination=inc)
    lats, lons = star.gridmaker.grid()
    far = mu_spec(la0, lo0, lats, lons) < -1e-6
    check('a far-side pixel is never occulted', (1.0 * mask <= 1e-9) | ~far)


def poles():
    """seen from above a pole"""
    gp = choice('grid', [12, 16, (5, 6), 24, (6, 9)])
    star = empty_star(gp)
    la0, lo0 = choice('pole', [90, -90]) * u.deg, lon('lon0')
    rp = var('rp', 0.3, 1.2) * star.radius
    phase = 180 * u.deg + var('dphase', -0.25, 0.25, (0.0,)) * u.rad
    mask, f = star.get_transit_mask(la0, lo0, orbit_radius=var('orb', 3, 6) * star.radius, radius=rp, phase=phase,
                                    inclination=(90 + var('dinc', -9, 9, (0.0,))) * u.deg)
    lats, lons = star.gridmaker.grid()
    mu = mu_spec(la0, lo0, lats, lons)
    check('a far-side pixel is never occulted', (1.0 * mask <= 1e-9) | ~(mu < -1e-6))


def _aim(star, la0, lo0, la1, lo1):
    """the mask of a planet in front of the projected position of a point"""
    x = (np.cos(la1) * np.sin(lo1 - lo0)).value
    y = (np.cos(la0) * np.sin(la1) - np.sin(la0) * np.cos(la1) * np.cos(lo1 - lo0)).value
    orb = var('orb', 3, 12)
    off = var('off', 0.9, 1.15)
    ph = 180 * u.deg + np.arcsin(x * off / orb) * u.rad
    inc = np.arccos(y * off / (orb * np.cos(np.arcsin(x * off / orb)))) * u.rad
    mask, f = star.get_transit_mask(la0, lo0, orbit_radius=orb * star.radius, radius=var('rp', 0.35, 0.97) * star.radius, phase=ph,
                                    inclination=inc)
    lats, lons = star.gridmaker.grid()
    check('a far-side pixel is never occulted', (1.0 * mask <= 1e-9) | ~(mu_spec(la0, lo0, lats, lons) < -1e-6))


def _barely(gp, least):
    """a pixel and a viewpoint from which it is barely beyond the limb"""
    lats, lons = CoordinateGrid.new(gp).grid()
    k = (2 * choice('k', list(range(9))) + 1) % lats.size
    la1, lo1 = lats.flatten()[k], lons.flatten()[k]
    d = 90 * u.deg + 10**var('beyond', least, 0.7) * u.deg
    b = var('bearing', 0, 360) * u.deg
    la0 = np.arcsin(np.clip(np.sin(la1) * np.cos(d) + np.cos(la1) * np.sin(d) * np.cos(b), -1, 1)).to(u.deg)
    lo0 = lo1 + np.arctan2(np.sin(b) * np.sin(d) * np.cos(la1), np.cos(d) - np.sin(la1) * np.sin(la0)).to(u.deg)
    return k, la1, lo1, la0, lo0


def limb():
    """a pixel barely beyond the limb, the planet in front of it"""
    gp = choice('grid', [12, 16, (5, 6), 24])
    star = empty_star(gp)
    k, la1, lo1, la0, lo0 = _barely(gp, -2.5)
    _aim(star, la0, lo0, la1, lo1)


def beyond():
    """a pixel barely beyond the limb weighs nothing and shows nothing"""
    gp = choice('grid', [12, 16, (5, 6), 24])
    k, la1, lo1, la0, lo0 = _barely(gp, -4)
    u1, u2 = ld_coeffs()
    rs = 1 * u.R_sun
    t = var('t', 2400, 2900) * u.K
    area = 2 * np.pi * rs**2 * (1 - np.cos(0.02))
    s = spot('s', grid=gp, la=la1, lo=lo1, amax=area * 2, acur=area, umb=t, pen=t)
    star = star_with(gp, [s], [], radius=rs, u1=u1, u2=u2)
    m = star.get_mu(la0, lo0)
    p = star.area_projection_coefficient(m)
    far = mu_spec(la0, lo0, *star.gridmaker.grid()) < -1e-9
    check('a pixel barely beyond the limb weighs nothing', (np.abs(p * star.ld_mask_for_plotting(m)) <= 1e-12) | ~far)
    check('a pixel barely beyond the limb weighs nothing in the translucent mask', (np.abs(p * star.ld_mask(m)) <= 1e-12) | ~far)
    if mu_spec(la0, lo0, la1, lo1) < -1e-9:
        total, covered, frac = star.calc_coverage({'lat': la0, 'lon': lo0})
        for key, v in total.items():
            if key != label(star.teff):
                eq('a spot barely beyond the limb has no coverage', v, 0, atol=1e-9)


def polar_limb():
    """seen from above a pole, a pixel just beyond the equator"""
    star = empty_star(choice('grid', [180, 240, 301]))
    pole = choice('pole', [90, -90])
    la0, lo0 = pole * u.deg, lon('lon0')
    lats, lons = star.gridmaker.grid()
    far = np.where(np.sign(pole) * lats.to_value(u.deg) < -1e-3, np.abs(lats.to_value(u.deg)), 999)
    k = np.argmin(far)
    _aim(star, la0, lo0, lats[k], lons[k])


def _flare(i, tpeak):
    return vsm.StellarFlare(fwhm=var('w%d' % i, 0.2, 2, ext=(1e-3, 300)) * u.hr, energy=var('e%d' % i, 0.5, 2, ext=(1e-6, 1e6)) * 1e33 * u.erg, lat=lat('lat%d' % i),
                            lon=lon('lon%d' % i), Teff=(9000 + i) * u.K, tpeak=tpeak * u.hr)


def _judge(fl, sel, vis, ints, la0, lo0):
    n = 0
    for f in sel:
        c = mu_spec(la0, lo0, f.lat, f.lon)
        listed = False
        for v in vis:
            if same_obj(v, f):
                listed = True
        if c > 1e-9:
            check('a near-side flare selected by time is listed', listed)
            n += 1
        elif c < -1e-9:
            check('a far-side flare is never listed', not listed)
        else:
            return
    eq('only near-side flares are integrated', len(ints), n)


def flares():
    la0, lo0 = viewpoint()
    fl = [_flare(i, 10.0 + i) for i in range(4)]
    col = vsm.FlareCollection(fl)
    obs = {'lat': la0, 'lon': lo0}
    t0, t1 = var('t0', 8, 10) * u.hr, var('t1', 12, 13) * u.hr
    sel = col.get_flares_in_timeperiod(t0, t1)
    vis = col.get_visible_flares_in_timeperiod(t0, t1, obs)
    ints = col.get_flare_integral_in_timeperiod(t0, t1, obs)
    _judge(fl, sel, vis, ints, la0, lo0)
    star = empty_star(9)
    star.flares = col
    _judge(fl, sel, vis, star.get_flare_int_over_timeperiod(t0, t1, obs), la0, lo0)


def flare_default():
    """without a viewpoint the observer is above latitude 0, longitude 0"""
    fl = [_flare(i, 10.0 + i) for i in range(3)]
    col = vsm.FlareCollection(fl)
    t0, t1 = 9 * u.hr, 12.5 * u.hr
    _judge(fl, col.get_flares_in_timeperiod(t0, t1), col.get_visible_flares_in_timeperiod(t0, t1),
           col.get_flare_integral_in_timeperiod(t0, t1), 0 * u.deg, 0 * u.deg)
