"""C14: the coolest spot region wins on the surface map."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, assume
from scen.common import *

CELLS = {'paint': (60, 300), 'order': (30, 160), 'mask': (50, 260), 'coverage': (24, 120), 'hot': (16, 80), 'same_temp': (12, 60),
         'angular': (16, 80), 'crowd': (6, 24)}
WIDE = ['angular']


def _big(name, gp, **kw):
    p = dict(grid=gp, amax=4e6 * MSH, acur=10 ** var(name + '.acur', 4.5, 6) * MSH, umb=var(name + '.umb', 2350, 2950) * u.K)
    p['pen'] = p['umb'] + var(name + '.dpen', 1, 700) * u.K
    p.update(kw)
    return spot(name, **p)


def _regions(s, rs, la, lo):
    """masks of the penumbra (whole spot) and the umbra, from the statement"""
    sep = sep_spec(s.coords['lat'], s.coords['lon'], la, lo).to_value(u.rad)
    rad = np.arccos(1 - (s.area_current / (2 * np.pi * rs**2)).to_value(u.dimensionless_unscaled))
    return sep < rad, sep < rad / np.sqrt(s.total_area_over_umbra_area)


def _map_spec(spots, rs, teff, gm):
    la, lo = gm.grid()
    out = np.zeros(la.shape) + teff.to_value(u.K)
    for s in spots:
        whole, umbra = _regions(s, rs, la, lo)
        out = np.where(whole, np.minimum(out, s.teff_penumbra.to_value(u.K)), out)
        out = np.where(umbra, np.minimum(out, s.teff_umbra.to_value(u.K)), out)
    return out * u.K


def _scene(gp, n):
    shared = choice('shared', [False, False, True])
    out = []
    for i in range(n):
        kw = {}
        if shared:
            kw = dict(umb=2500 * u.K, pen=2800 * u.K)
        out.append(_big('s%d' % i, gp, **kw))
    return out


def paint():
    gp = grid_params()
    rs, teff = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun, var('teff', 2900, 3600) * u.K
    spots = _scene(gp, choice('n', [1, 2, 3, 4]))
    how = choice('how', ['collection', 'star', 'added'])
    if how == 'collection':
        got = vsm.SpotCollection(*spots, grid_params=gp).map_pixels(rs, teff)
    elif how == 'star':
        got = star_with(gp, spots, [], teff=teff, radius=rs).map
    else:
        star = star_with(gp, [], [], teff=teff, radius=rs)
        for s in spots:
            star.add_spot(s)
        got = star.map
    eq('every pixel has the coolest of the temperatures covering it', got, _map_spec(spots, rs, teff, CoordinateGrid.new(gp)))
    le('no pixel is hotter than the photosphere', got, teff)


def order():
    gp = grid_params()
    rs, teff = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun, var('teff', 2900, 3600) * u.K
    spots = _scene(gp, 3)
    a = vsm.SpotCollection(*spots, grid_params=gp).map_pixels(rs, teff)
    p = choice('p', [(2, 1, 0), (1, 0, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1)])
    b = vsm.SpotCollection(*[spots[i] for i in p], grid_params=gp).map_pixels(rs, teff)
    eq('the map does not depend on the order of the spots', b, a)


def mask():
    gp = grid_params()
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    s = _big('s', gp, la=lat('s.lat'), lo=lon('s.lon'), ratio=var('s.ratio', 1.2, 9, ext=(1.01, 300)))
    la, lo = CoordinateGrid.new(gp).grid()
    whole, umbra = _regions(s, rs, la, lo)
    m = s.map_pixels(rs)
    eq('a pixel belongs to a spot when it is closer than its angular radius', m[s.teff_penumbra], whole)
    eq('a pixel belongs to the umbra when it is closer than the radius over the root of the area ratio', m[s.teff_umbra], umbra)


def coverage():
    gp = grid_params()
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    spots = _scene(gp, choice('n', [0, 1, 2, 3]))
    if choice('hot', [False, True, False]):
        spots.append(_big('h', gp, umb=choice('hot.k', [1, 3, 8]) * 5000 * u.K, pen=choice('hot.k', [1, 3, 8]) * 6000 * u.K))
    gm = CoordinateGrid.new(gp)
    la, lo = gm.grid()
    w = gm.area
    any_ = np.zeros(la.shape) > 1
    for s in spots:
        any_ = any_ | _regions(s, rs, la, lo)[0]
    got = vsm.SpotCollection(*spots, grid_params=gp).get_coverage(rs)
    eq('spot coverage is the area share of the pixels inside spots', got, np.sum(np.where(any_, w, 0)) / np.sum(w), tol=1e-6, atol=1e-9)


def hot():
    """spots hotter than the photosphere leave it alone; a penumbra hotter than the photosphere shows only its cool umbra"""
    gp = grid_params()
    rs, teff = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun, var('teff', 2900, 3000) * u.K
    a = _big('a', gp, umb=var('a.umb', 2400, 3200) * u.K, pen=var('a.pen', 3210, 3600) * u.K)
    b = _big('b', gp)
    spots = choice('which', [[a], [a, b], [b, a]])
    got = vsm.SpotCollection(*spots, grid_params=gp).map_pixels(rs, teff)
    eq('hot regions never show', got, _map_spec(spots, rs, teff, CoordinateGrid.new(gp)))


def same_temp():
    gp = grid_params()
    rs, teff = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun, var('teff', 2900, 3000) * u.K
    t = var('t', 2400, 2800) * u.K
    a = _big('a', gp, umb=t, pen=t)
    got = vsm.SpotCollection(a, grid_params=gp).map_pixels(rs, teff)
    eq('a spot of one temperature covers its whole cap', got, _map_spec([a], rs, teff, CoordinateGrid.new(gp)))


def angular():
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    s = _big('s', 9)
    assume(s.area_current < 0.999 * 4 * np.pi * rs**2)
    cap = s.angular_radius(rs)
    eq('the angular radius is that of a cap of the spot area',
       2 * np.pi * rs**2 * (1 - np.cos(cap)), s.area_current, tol=1e-6)
    eq('the radius is that of a disk of the spot area', np.pi * s.radius**2, s.area_current, tol=1e-9)


def crowd():
    """many spots"""
    gp, n = choice('grid', [12, (4, 5)]), choice('n', [60, 120, 30])
    rs, teff = var('rstar', 0.8, 1.2) * u.R_sun, 3300 * u.K
    spots = [vsm.StarSpot(lat=((i * 37) % 170 - 85) * u.deg, lon=((i * 53) % 360) * u.deg, area_max=4e5 * MSH, area_current=(2e4 + 500 * i) * MSH,
                          teff_umbra=(2350 + (i * 29) % 400) * u.K, teff_penumbra=(2800 + (i * 31) % 450) * u.K, grid_params=gp) for i in range(n)]
    got = vsm.SpotCollection(*spots, grid_params=gp).map_pixels(rs, teff)
    eq('every pixel has the coolest of the temperatures covering it', got, _map_spec(spots, rs, teff, CoordinateGrid.new(gp)))
