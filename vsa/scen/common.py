"""Shared pieces of the analysis harnesses (interpreted abstractly, never executed)."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, rng
import vspec_vsm as vsm
from vspec_vsm.coordinate_grid import CoordinateGrid
from vspec_vsm.config import MSH

GRIDS = [(5, 6), (4, 5), 9, 12, (6, 4), 7]


def grid_params(name='grid'):
    return choice(name, GRIDS)


def lat(name, lo=-90, hi=90, special=(90.0, -90.0, 0.0)):
    return var(name, lo, hi, special) * u.deg


def lon(name, lo=0, hi=360, special=(0.0, 180.0), ext=(-720, 1080)):
    return var(name, lo, hi, special, ext) * u.deg


def spot(name, growing=True, grid=(5, 6), amax=None, acur=None, umb=None, pen=None, rate=None, decay=None,
         la=None, lo=None, ratio=None):
    return vsm.StarSpot(
        lat=la if la is not None else var(name + '.lat', -88, 88, ext=(-90, 90)) * u.deg,
        lon=lo if lo is not None else var(name + '.lon', 0, 360, ext=(-720, 1080)) * u.deg,
        area_max=amax if amax is not None else var(name + '.amax', 2e5, 9e5) * MSH,
        area_current=acur if acur is not None else var(name + '.acur', 5e4, 1.9e5) * MSH,
        teff_umbra=umb if umb is not None else var(name + '.umb', 2400, 2700, ext=(100, 2700)) * u.K,
        teff_penumbra=pen if pen is not None else var(name + '.pen', 2750, 3000, ext=(2750, 3040)) * u.K,
        area_over_umbra_area=ratio if ratio is not None else var(name + '.ratio', 3, 7, ext=(1.05, 200)),
        is_growing=growing,
        growth_rate=rate if rate is not None else var(name + '.rate', 0.2, 1.8, ext=(0.001, 50)) / u.day,
        decay_rate=decay if decay is not None else var(name + '.decay', 5e3, 8e4, ext=(0.01, 1e+08)) * MSH / u.day,
        grid_params=grid
    )


def facula(name, growing=True, grid=(5, 6), rmax=None, rinit=None, depth=None, life=None, la=None, lo=None,
           minrad=None, wall0=None, floor0=None, wslope=None, fslope=None):
    return vsm.Facula(
        lat=la if la is not None else var(name + '.lat', -88, 88, ext=(-90, 90)) * u.deg,
        lon=lo if lo is not None else var(name + '.lon', 0, 360, ext=(-720, 1080)) * u.deg,
        r_max=rmax if rmax is not None else var(name + '.rmax', 2e5, 5e5) * u.km,
        r_init=rinit if rinit is not None else var(name + '.rinit', 6e4, 1.9e5) * u.km,
        depth=depth if depth is not None else var(name + '.depth', 2e4, 1e5) * u.km,
        lifetime=life if life is not None else var(name + '.life', 3, 20, ext=(0.05, 2000)) * u.hr,
        floor_teff_slope=fslope if fslope is not None else var(name + '.fslope', -1e-4, 0) * u.K / u.km,
        floor_teff_min_rad=minrad if minrad is not None else 2e4 * u.km,
        floor_teff_base_dteff=floor0 if floor0 is not None else var(name + '.fbase', -180, -60) * u.K,
        wall_teff_slope=wslope if wslope is not None else var(name + '.wslope', 0, 1e-4) * u.K / u.km,
        wall_teff_intercept=wall0 if wall0 is not None else var(name + '.wint', 60, 250) * u.K,
        growing=growing,
        grid_params=grid
    )


def empty_star(gp, teff=None, radius=None, g=None, **kw):
    return vsm.Star(
        teff=teff if teff is not None else var('teff', 3100, 3600, ext=(3050, 20000)) * u.K,
        radius=radius if radius is not None else var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun,
        period=10 * u.day,
        spots=vsm.SpotCollection(grid_params=gp),
        faculae=vsm.FaculaCollection(grid_params=gp),
        grid_params=gp,
        rng=g if g is not None else rng('user'),
        **kw
    )


def star_with(gp, spots, facs, teff=None, radius=None, g=None, **kw):
    return vsm.Star(
        teff=teff if teff is not None else var('teff', 3100, 3600, ext=(3050, 20000)) * u.K,
        radius=radius if radius is not None else var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun,
        period=10 * u.day,
        spots=vsm.SpotCollection(*spots, grid_params=gp),
        faculae=vsm.FaculaCollection(*facs, grid_params=gp),
        grid_params=gp,
        rng=g if g is not None else rng('user'),
        **kw
    )


def mu_spec(lat0, lon0, lats, lons):
    return (np.sin(lat0) * np.sin(lats) + np.cos(lat0) * np.cos(lats) * np.cos(lon0 - lons)).to_value(
        u.dimensionless_unscaled)


def sep_spec(lat0, lon0, lats, lons):
    return np.arccos(np.clip(mu_spec(lat0, lon0, lats, lons), -1, 1)) * u.rad


def coords(la, lo):
    return {'lat': la, 'lon': lo}


def weights_spec(star, la0, lo0):
    """disk weight of every pixel, from the statement of C26"""
    lats, lons = star.gridmaker.grid()
    mu = mu_spec(la0, lo0, lats, lons)
    ld = 1 - star.u1 * (1 - mu) - star.u2 * (1 - mu)**2
    return star.gridmaker.area * np.where(mu > 0, mu * ld, 0)


def label(t):
    return f'{t:.2f}'


def add_to(d, key, value):
    d[key] = d.get(key, 0) + value


def coverage_spec(surface_map, w, teff, gran_teff, gran):
    """share of the weight per temperature label, with the photosphere split off"""
    total = np.sum(w)
    out = {}
    for t in np.unique(surface_map):
        add_to(out, label(t), np.sum(np.where(surface_map == t, w, 0)) / total)
    phot = out.get(label(teff), 0)
    out[label(teff)] = phot * (1 - gran)
    add_to(out, label(gran_teff), phot * gran)
    return out


def dict_get0(d, k):
    return d.get(k, 0)


def viewpoint():
    return lat('lat0', -90, 90, (0.0, 90.0, -90.0)), lon('lon0', 0, 360, (0.0, 180.0))


def ld_coeffs():
    return var('u1', 0, 0.7, (0.0,), ext=(-0.5, 0.7)), var('u2', 0, 0.3, (0.0,), ext=(-0.2, 0.3))


def rich_star(gp, nspot=2, nfac=1, **kw):
    u1, u2 = ld_coeffs()
    return star_with(gp, [spot('s%d' % i, grid=gp, amax=var('s%d.amax' % i, 9e5, 2e6) * MSH,
                               acur=var('s%d.acur' % i, 2e5, 8e5) * MSH) for i in range(nspot)],
                     [facula('f%d' % i, grid=gp, rmax=var('f%d.rmax' % i, 8e5, 9e5) * u.km,
                             rinit=var('f%d.rinit' % i, 3e5, 7e5) * u.km,
                             depth=var('f%d.depth' % i, 5e4, 4e5) * u.km) for i in range(nfac)],
                     u1=u1, u2=u2, **kw)
