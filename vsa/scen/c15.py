"""C15: a facula splits its area between wall and floor without loss."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, assume, decided
from scen.common import *

CELLS = {'split': (60, 300), 'small': (20, 100), 'contrast': (24, 120), 'towards_limb': (24, 120), 'paint': (60, 300),
         'paint_small': (16, 80), 'two': (24, 120), 'clipped': (24, 120), 'close': (12, 60), 'mask': (24, 120)}
WIDE = ['contrast']


def rim_overlap(d):
    """share of a unit disk covered by an equal disk displaced by d"""
    d = np.minimum(np.abs(d), 2)
    return (2 * np.arccos(d / 2) - d / 2 * np.sqrt(4 - d**2)) / np.pi


def _fac(name, gp=9, **kw):
    p = dict(grid=gp, growing=choice(name + '.grow', [True, False]), rmax=9e5 * u.km, rinit=10 ** var(name + '.r', 4.5, 5.9) * u.km, depth=10 ** var(name + '.d', 3.5, 5.9) * u.km)
    p.update(kw)
    return facula(name, **p)


def _pick(areas, f):
    """(wall entry, floor entry) of a dictionary keyed by contrast"""
    wall, floor = None, None
    for t, v in areas.items():
        if abs((t - f.wall_dteff).to_value(u.K)) < abs((t - f.floor_dteff).to_value(u.K)):
            wall = v
        else:
            floor = v
    check('wall and floor are both reported', wall is not None and floor is not None)
    return wall, floor


def split():
    f = _fac('f')
    ang = var('ang', 0, 90, (0.0,)) * u.deg
    disp = (f.depth / f.radius).to_value(u.dimensionless_unscaled) * np.tan(ang).to_value(u.dimensionless_unscaled)
    proj = np.pi * f.radius**2 * np.cos(ang)
    wall, floor = _pick(f.effective_area(ang), f)
    le('the wall area is not negative', 0 * u.km**2, wall, atol=1e-3)
    le('the floor area is not negative', 0 * u.km**2, floor, atol=1e-3)
    eq('wall and floor add up to the projected area', wall + floor, proj, tol=1e-7, atol=1e-2 * u.km**2)
    eq('the floor share is the overlap of the two rim circles', floor, proj * rim_overlap(disp), tol=1e-6, atol=1e-6 * f.radius**2)
    fw, ff = _pick(f.fractional_effective_area(ang), f)
    eq('the wall fraction is the wall share', fw, 1 - rim_overlap(disp), tol=1e-6, atol=1e-7)
    eq('the floor fraction is the floor share', ff, rim_overlap(disp), tol=1e-6, atol=1e-7)
    eq('the fractions add up to 1', fw + ff, 1, tol=1e-7)


def small():
    f = _fac('f', minrad=9.5e5 * u.km)
    ang = var('ang', 0, 89.9, (0.0,)) * u.deg
    wall, floor = _pick(f.effective_area(ang), f)
    eq('a facula below the minimum radius shows only wall', wall, np.pi * f.radius**2 * np.cos(ang), tol=1e-7)
    eq('a facula below the minimum radius shows no floor', floor, 0 * u.km**2)
    fw, ff = _pick(f.fractional_effective_area(ang), f)
    eq('the wall fraction of a small facula is 1', fw, 1, tol=1e-9)
    eq('the floor fraction of a small facula is 0', ff, 0)


def contrast():
    r, r0 = var('r', 1e4, 9e5, ext=(1, 1e+07)), var('r0', 1e3, 9e5, ext=(1, 1e+07))
    fs, fb, ws, wi = var('fs', -2e-4, 2e-4), var('fb', -300, 100), var('ws', -2e-4, 2e-4), var('wi', 0, 400)
    f = facula('f', grid=9, rmax=9.5e5 * u.km, rinit=r * u.km, minrad=r0 * u.km, floor0=fb * u.K, wall0=wi * u.K,
               fslope=fs * u.K / u.km, wslope=ws * u.K / u.km)
    eq('the floor contrast is linear in radius above the minimum radius', f.floor_dteff, ((r - r0) * fs + fb) * u.K, tol=1e-9, atol=1e-9)
    eq('the wall contrast is linear in radius', f.wall_dteff, (ws * r + wi) * u.K, tol=1e-9, atol=1e-9)


def towards_limb():
    f = _fac('f')
    a = var('ang', 0, 80)
    b = a + var('da', 0.01, 9.9)
    wa, fa = _pick(f.fractional_effective_area(a * u.deg), f)
    wb, fb = _pick(f.fractional_effective_area(b * u.deg), f)
    le('the floor share shrinks towards the limb', fb, fa, atol=1e-7)
    le('the wall share grows towards the limb', wa, wb, atol=1e-7)


def _near(t, want):
    """the temperature with its contrast rounded to whole kelvin"""
    return np.abs((t - want).to_value(u.K)) <= 0.5001


def _judge(star, f, la0, lo0, rest, got, only=None):
    """painting of facula f on a map that was `rest` before; only: pixels not touched by others"""
    la, lo = star.gridmaker.grid()
    mu = mu_spec(la0, lo0, la, lo)
    inside = sep_spec(f.lat, f.lon, la, lo).to_value(u.rad) <= (f.radius / star.radius).to_value(u.dimensionless_unscaled)
    ang = np.arccos(mu_spec(la0, lo0, f.lat, f.lon)) * u.rad
    disp = (f.depth / f.radius).to_value(u.dimensionless_unscaled) * np.tan(ang).to_value(u.dimensionless_unscaled)
    tw, tf = star.teff + f.wall_dteff, star.teff + f.floor_dteff
    if f.radius < f.floor_teff_min_rad:
        wall_frac = 1.0
    else:
        wall_frac = 1 - rim_overlap(disp)
    eq('no pixel outside the facula changes', np.where(inside, 0, got.to_value(u.K)), np.where(inside, 0, rest.to_value(u.K)))
    is_wall, is_floor = inside & _near(got, tw), inside & _near(got, tf)
    check('every pixel of the facula is wall or floor', (is_wall | is_floor)[inside])
    n, k = np.sum(inside), np.sum(is_wall)
    le('the wall fraction of the pixels is wall, from below', n * wall_frac - 1, k, atol=1e-6)
    tied = np.sum(np.abs(mu[is_wall] - np.max(mu[is_wall])) < 1e-6) - 1 if k > 0 else 0
    le('the wall fraction of the pixels is wall, from above', k - tied, n * wall_frac + 1, atol=1e-6)
    if k > 0 and k < n:
        le('the wall pixels are those closest to the limb', np.max(mu[is_wall]), np.min(mu[is_floor]), atol=1e-9)


def _view(f):
    la0, lo0 = lat('lat0', -80, 80, (0.0,)), lon('lon0')
    return la0, lo0


def paint():
    gp = choice('grid', [(5, 6), (7, 8), 24, 12, 40])
    f = _fac('f', gp, rinit=10 ** var('f.r', 5.3, 6.2) * u.km, rmax=2e6 * u.km, depth=10 ** var('f.d', 3.5, 5.9) * u.km, wslope=0 * u.K / u.km,
             fslope=0 * u.K / u.km, la=var('f.lat', -70, 70) * u.deg)
    # seen from anywhere on the near side
    la0, lo0 = f.lat + var('dla', -20, 20) * u.deg, f.lon + var('dlo', -75, 75) * u.deg
    star = star_with(gp, [spot('s', grid=gp, amax=2e6 * MSH, acur=9e5 * MSH)] if choice('spot', [True, False]) else [], [f],
                     teff=var('teff', 2600, 3600) * u.K)
    rest = star.map
    got = star.add_faculae_to_map(la0, lo0)
    _judge(star, f, la0, lo0, rest, got)


def paint_small():
    gp = choice('grid', [(5, 6), 24, 40])
    f = _fac('f', gp, rinit=10 ** var('f.r', 5.3, 5.9) * u.km, minrad=9.5e5 * u.km, wslope=0 * u.K / u.km, fslope=0 * u.K / u.km)
    la0, lo0 = _view(f)
    star = star_with(gp, [], [f], teff=var('teff', 2600, 3600) * u.K)
    rest = star.map
    got = star.add_faculae_to_map(la0, lo0)
    _judge(star, f, la0, lo0, rest, got)
    check('a facula below the minimum radius shows no floor on the map', ~_near(got, star.teff + f.floor_dteff))


def two():
    """several faculae keep to their own pixels, and the later one is on top"""
    gp = choice('grid', [(5, 6), 24, 40])
    fs = [_fac('f%d' % i, gp, rinit=10 ** var('f%d.r' % i, 5.3, 5.9) * u.km, wslope=0 * u.K / u.km, fslope=0 * u.K / u.km) for i in range(2)]
    la0, lo0 = _view(None)
    rs, teff = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun, var('teff', 3100, 3400) * u.K
    first = star_with(gp, [], [fs[0]], radius=rs, teff=teff).add_faculae_to_map(la0, lo0)
    star = star_with(gp, [], fs, radius=rs, teff=teff)
    _judge(star, fs[1], la0, lo0, first, star.add_faculae_to_map(la0, lo0))


def clipped():
    """temperatures outside the model grid are limited to its edges"""
    gp = choice('grid', [(5, 6), 24])
    hot = choice('hot', [True, False])
    f = _fac('f', gp, rinit=10 ** var('f.r', 5.3, 5.9) * u.km, wslope=0 * u.K / u.km, fslope=0 * u.K / u.km, la=var('f.lat', -70, 70) * u.deg,
             wall0=(choice('w', [700, 350]) if hot else 30) * u.K, floor0=(-20 if hot else choice('fl', [-700, -300])) * u.K)
    teff = (var('hot.teff', 3600, 3850) if hot else var('cold.teff', 2350, 2550)) * u.K
    la0, lo0 = f.lat + var('dla', -20, 20) * u.deg, f.lon + var('dlo', -75, 75) * u.deg
    star = star_with(gp, [], [f], teff=teff)
    got = star.add_faculae_to_map(la0, lo0)
    la, lo = star.gridmaker.grid()
    inside = sep_spec(f.lat, f.lon, la, lo).to_value(u.rad) <= (f.radius / star.radius).to_value(u.dimensionless_unscaled)
    lim = [2300 * u.K, 3900 * u.K]
    tw, tf = np.clip(teff + f.wall_dteff, 2300 * u.K, 3900 * u.K), np.clip(teff + f.floor_dteff, 2300 * u.K, 3900 * u.K)
    check('facula temperatures are limited to the model grid', (_near(got, tw) | _near(got, tf))[inside])
    eq('no pixel outside the facula changes', np.where(inside, 0, got.to_value(u.K)), np.where(inside, 0, teff.to_value(u.K)))


def close():
    """contrasts that round to the same kelvin are still both shown"""
    f = _fac('f', 9, wall0=choice('w', [10.2, 0.4, -3.1]) * u.K, floor0=choice('fl', [9.8, 0.1, -2.9]) * u.K, wslope=0 * u.K / u.km, fslope=0 * u.K / u.km)
    ang = var('ang', 0, 89) * u.deg
    areas = f.effective_area(ang)
    tot = 0 * u.km**2
    for t, v in areas.items():
        tot = tot + v
    eq('no area is lost when the contrasts are close', tot, np.pi * f.radius**2 * np.cos(ang), tol=1e-7)


def mask():
    gp = grid_params()
    f = _fac('f', gp, la=lat('f.lat'), lo=lon('f.lon'), rinit=10 ** var('f.r', 5, 5.95) * u.km)
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    la, lo = CoordinateGrid.new(gp).grid()
    eq('a facula marks the pixels within its angular radius', f.map_pixels(rs),
       sep_spec(f.lat, f.lon, la, lo).to_value(u.rad) <= (f.radius / rs).to_value(u.dimensionless_unscaled))
    eq('the angular radius is radius over stellar radius', f.angular_radius(rs).to_value(u.rad), (f.radius / rs).to_value(u.dimensionless_unscaled))
