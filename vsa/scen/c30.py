"""C30: the surface plot shows the modelled disk."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, snap, unchanged, rng, draws
from scen.common import *
import matplotlib.pyplot as plt
import cartopy.crs as ccrs

CELLS = {'plot': (30, 160), 'given_axes': (10, 60)}
WIDE = []


def _find(name):
    return [c for c in plt.CALLS if c['name'] == name]


def _arg(c, i, name, default=None):
    return c['args'][i] if len(c['args']) > i else c['kw'].get(name, default)


def _size(gp):
    return gp if isinstance(gp, tuple) else choice('size', [(4, 5), (3, 6), (5, 4)])


def _star(gp):
    u1, u2 = var('u1', 0.05, 0.7), var('u2', 0.02, 0.3)
    return star_with(gp, [spot('s', grid=gp, amax=2e6 * MSH, acur=var('s.acur', 5e5, 1.5e6) * MSH)],
                     [facula('f', grid=gp, rmax=8e5 * u.km, rinit=var('f.r', 3e5, 7e5) * u.km)], u1=u1, u2=u2)


def plot():
    gp = choice('grid', [(4, 5), 9, (5, 6), 12, (6, 8)])
    star = _star(gp)
    nlat, nlon = _size(gp)
    la0, lo0 = var('lat0', -80, 80, (0.0,)) * choice('ua', [u.deg, u.deg]), var('lon0', 0, 360, (0.0,)) * u.deg
    if choice('rad', [0, 1]):
        la0, lo0 = la0.to(u.rad), lo0.to(u.rad)
    where = choice('where', ['transit', 'away', 'eclipse', 'default'])
    rp = var('rp', 0.6, 0.98) * star.radius
    kw = {} if where == 'default' else dict(orbit_radius=5 * star.radius, radius=rp, inclination=90 * u.deg,
                                            phase={'transit': 180 + var('dph', -15, 15), 'away': 90, 'eclipse': 360 + var('dph', -20, 20)}[where] * u.deg)
    before = snap(star, la0, lo0)
    star.plot_surface(la0, lo0, nlat=nlat, nlon=nlon, **kw)
    unchanged('plotting leaves the model alone', before)
    sub = _find('subplots')
    if len(sub) == 1:
        pr = sub[0]['kw']['subplot_kw']['projection']
        eq('the plot is seen from the viewpoint (latitude, degrees)', pr.central_latitude, la0.to_value(u.deg), tol=1e-9)
        eq('the plot is seen from the viewpoint (longitude, degrees)', pr.central_longitude, lo0.to_value(u.deg), tol=1e-9)
    _judge(star, la0, lo0, nlat, nlon, kw)


def _judge(star, la0, lo0, nlat, nlon, kw):
    im = _find('pcolormesh')
    if len(im) == 1:
        c = im[0]
        m = star.add_faculae_to_map(la0, lo0)
        lats, lons, data = star.gridmaker.display_grid(nlat, nlon, m)
        eq('temperatures are drawn at longitudes in degrees', _arg(c, 0, 'X'), lons * 180 / np.pi, tol=1e-9, atol=1e-9)
        eq('temperatures are drawn at latitudes in degrees', _arg(c, 1, 'Y'), lats * 180 / np.pi, tol=1e-9, atol=1e-9)
        eq('the map with faculae is drawn, in kelvin, latitude down', _arg(c, 2, 'C'), data.to_value(u.K).T, tol=1e-6)
    mask, frac = star.get_transit_mask(la0, lo0, kw.get('orbit_radius', 1 * u.AU), kw.get('radius', 1 * u.R_earth), kw.get('phase', 90 * u.deg),
                                       kw.get('inclination', 0 * u.deg))
    con = _find('contourf')
    if len(con) == 1:
        c = con[0]
        d = star.gridmaker.display_grid(nlat, nlon, mask)[2].value.T
        z = _arg(c, 2, 'Z')
        hid, free = d > 0.5 + 1e-6, d < 0.5 - 1e-6
        check('the planet is drawn where it hides the disk', (z == 1) | ~hid)
        check('the planet is not drawn elsewhere', np.isnan(z) | ~free)
        if kw.get('phase', 90 * u.deg) > 300 * u.deg and frac < 1 - 1e-6:
            check('a planet behind the star is drawn behind it', c['kw'].get('zorder', 0) < 0)
        elif frac == 1.0:
            check('a planet in front of the star is drawn in front of it', c['kw'].get('zorder', 0) > 0)
    ld = _find('imshow')
    if len(ld) == 1:
        c = ld[0]
        w = star.gridmaker.display_grid(nlat, nlon, star.ld_mask_for_plotting(star.get_mu(la0, lo0)))[2].value.T
        alpha = c['kw'].get('alpha')
        eq('the limb is shaded by the limb darkening', alpha, 1 - w / np.max(w), tol=1e-6, atol=1e-6)


def given_axes():
    gp = choice('grid', [(4, 5), 9])
    star = _star(gp)
    nlat, nlon = _size(gp)
    la0, lo0 = var('lat0', -80, 80, (0.0,)) * u.deg, var('lon0', 0, 360, (0.0,)) * u.deg
    from cartopy.mpl.geoaxes import GeoAxes
    ax = GeoAxes(ccrs.Orthographic(central_latitude=choice('cl', [11.0, -20.0]), central_longitude=33.0))
    star.plot_surface(la0, lo0, ax=ax, nlat=nlat, nlon=nlon)
    check('no other axes are opened when some are given', len(_find('subplots')) == 0)
    eq('the given axes are turned to the viewpoint (latitude)', ax.projection.central_latitude, la0.to_value(u.deg), tol=1e-9)
    eq('the given axes are turned to the viewpoint (longitude)', ax.projection.central_longitude, lo0.to_value(u.deg), tol=1e-9)
    _judge(star, la0, lo0, nlat, nlon, {})
