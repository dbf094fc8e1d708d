"""C05: angular separations are great-circle distances; the disk projection is orthographic."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, finite, check, assume, decided
from scen.common import *
from vspec_vsm.helpers import get_angle_between, proj_ortho

CELLS = {'angle': (24, 160), 'angle_edge': (8, 24), 'close': (24, 120), 'mu': (12, 60), 'spot_r': (12, 60), 'fac_r': (12, 60),
         'ortho': (24, 120), 'ortho_edge': (8, 24), 'ortho_pole': (12, 60), 'surface': (12, 60)}
WIDE = ['angle', 'mu']


def angle():
    la1, lo1, la2, lo2 = lat('lat1'), lon('lon1'), lat('lat2'), lon('lon2')
    a = get_angle_between(la1, lo1, la2, lo2)
    b = get_angle_between(la2, lo2, la1, lo1)
    s = sep_spec(la1, lo1, la2, lo2)
    eq('angle equals the great-circle separation', a, s, tol=1e-7, atol=3e-7 * u.rad)
    eq('angle is symmetric', a, b, atol=3e-7 * u.rad)
    d = var('shift', -400, 400, ext=(-3000, 3000)) * u.deg
    c = get_angle_between(la1, lo1 + d, la2, lo2 + d)
    eq('angle is invariant under rotation in longitude', c, a, tol=1e-7, atol=3e-7 * u.rad)
    w = get_angle_between(la1, lo1 + 360 * u.deg, la2, lo2)
    eq('angle is invariant under full turns', w, a, tol=1e-7, atol=3e-7 * u.rad)
    finite('angle is a number', a)


def angle_edge():
    la1, lo1 = lat('lat1'), lon('lon1')
    a = get_angle_between(la1, lo1, la1, lo1)
    finite('angle of coincident points is a number', a, True)
    eq('angle of coincident points is zero', a, 0 * u.rad, atol=1e-3 * u.rad)
    b = get_angle_between(la1, lo1, -la1, lo1 + 180 * u.deg)
    finite('angle of antipodal points is a number', b, True)
    eq('angle of antipodal points is 180 deg', b, 180 * u.deg, atol=1e-3 * u.rad)


def close():
    """points close together, or almost opposite each other"""
    la1, lo1 = choice('lat1', [-75.0, -40.0, 0.0, 20.0, 62.0]) * u.deg, choice('lon1', [0.0, 77.0, 180.0, 200.0, 359.0]) * u.deg
    d = choice('d', [3e-4, 1e-3, 2.5e-3, 6e-3, 0.01, 0.03, 0.1, 0.2]) * u.rad
    b = choice('bearing', [0, 40, 90, 135, 180, 260, 300]) * u.deg
    la2 = np.arcsin(np.sin(la1) * np.cos(d) + np.cos(la1) * np.sin(d) * np.cos(b))
    lo2 = lo1 + np.arctan2(np.sin(b) * np.sin(d) * np.cos(la1), np.cos(d) - np.sin(la1) * np.sin(la2))
    # an arccosine resolves a separation d to about 1e-15/d
    eq('close points are as far apart as they are', get_angle_between(la1, lo1, la2, lo2), d, tol=1e-4)
    eq('almost opposite points are as far apart as they are', get_angle_between(-la1, lo1 + 180 * u.deg, la2, lo2), np.pi * u.rad - d, atol=1e-4 * d)


def mu():
    gp = grid_params()
    g = CoordinateGrid.new(gp)
    la, lo = lat('lat0'), lon('lon0')
    lats, lons = g.grid()
    m = g.cos_angle_from_disk_center(la, lo)
    eq('mu is the cosine of the great-circle separation', m, mu_spec(la, lo, lats, lons), tol=1e-6, atol=1e-6)
    star = empty_star(gp)
    eq('Star.get_mu is the cosine of the great-circle separation', star.get_mu(la, lo), mu_spec(la, lo, lats, lons),
       tol=1e-6, atol=1e-6)


def spot_r():
    gp = grid_params()
    la, lo = lat('lat0'), lon('lon0')
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    f = var('f', 0.02, 0.9)
    area = f * 4 * np.pi * rs**2
    s = spot('s', grid=gp, la=la, lo=lo, amax=area * 2, acur=area, umb=2500 * u.K, pen=2800 * u.K, ratio=4.0)
    g = CoordinateGrid.new(gp)
    lats, lons = g.grid()
    sep = sep_spec(la, lo, lats, lons)
    m = s.map_pixels(rs)
    ang = np.arccos(1 - 2 * f) * u.rad
    # pixels clearly inside / outside the cap must be classified by the great-circle distance
    check('pixels nearer than the spot radius are marked', m[2800 * u.K] | (sep > ang * (1 - 1e-5)))
    check('pixels farther than the spot radius are not marked', (~m[2800 * u.K]) | (sep < ang * (1 + 1e-5)))


def fac_r():
    gp = grid_params()
    la, lo = lat('lat0'), lon('lon0')
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    ang = var('ang', 0.1, 2.5) * u.rad
    f = facula('f', grid=gp, la=la, lo=lo, rmax=2 * ang.value * rs, rinit=ang.value * rs)
    g = CoordinateGrid.new(gp)
    lats, lons = g.grid()
    sep = sep_spec(la, lo, lats, lons)
    m = f.map_pixels(rs)
    check('pixels nearer than the facula radius are marked', m | (sep > ang * (1 - 1e-5)))
    check('pixels farther than the facula radius are not marked', (~m) | (sep < ang * (1 + 1e-5)))


def _ortho(la0, lo0, lats, lons):
    m = mu_spec(la0, lo0, lats, lons)
    x = (np.cos(lats) * np.sin(lons - lo0)).value
    y = (np.cos(la0) * np.sin(lats) - np.sin(la0) * np.cos(lats) * np.cos(lons - lo0)).value
    return x, y, m


def ortho():
    la0, lo0 = lat('lat0', -89, 89, None), lon('lon0')
    gp = grid_params()
    lats, lons = CoordinateGrid.new(gp).grid()
    x, y = proj_ortho(la0, lo0, lats, lons)
    xs, ys, m = _ortho(la0, lo0, lats, lons)
    near = m > 1e-6
    # the code rounds the position angle's cosine to 4 digits: sqrt(2*0.5e-4) = 0.01 rad
    eq('x is the orthographic coordinate', np.where(near, x, 0), np.where(near, xs, 0), tol=1e-6, atol=0.011)
    eq('y is the orthographic coordinate', np.where(near, y, 0), np.where(near, ys, 0), tol=1e-6, atol=0.011)
    far = m < -1e-6
    check('points behind the limb have no position', np.isnan(x) | ~far)


def ortho_edge():
    la0, lo0 = lat('lat0', -89, 89, None), lon('lon0', 1, 359)
    d = var('dlat', 0.5, 20)
    lats = np.array([1.0, 1.0]) * la0 + np.array([0.0, 0.0]) * u.deg
    lons = np.array([1.0, 1.0]) * lo0
    x, y = proj_ortho(la0, lo0, lats, lons)
    finite('the centre itself projects to a number', x, True)
    eq('the centre projects to the origin', x, np.zeros(2), atol=1e-3)
    eq('the centre projects to the origin (y)', y, np.zeros(2), atol=1e-3)


def ortho_pole():
    """exactly above a pole the projection continues the one next to it"""
    la0, lo0 = choice('pole', [90.0, -90.0]) * u.deg, lon('lon0')
    gp = grid_params()
    lats, lons = CoordinateGrid.new(gp).grid()
    x, y = proj_ortho(la0, lo0, lats, lons)
    xs, ys, m = _ortho(la0, lo0, lats, lons)
    near = m > 1e-6
    eq('x is the orthographic coordinate seen from a pole', np.where(near, x, 0), np.where(near, xs, 0), tol=1e-6, atol=1e-6)
    eq('y is the orthographic coordinate seen from a pole', np.where(near, y, 0), np.where(near, ys, 0), tol=1e-6, atol=1e-6)
    check('points behind the limb have no position seen from a pole', np.isnan(x) | (m > -1e-6))


def surface():
    """the disk share of a spot depends on its great-circle distance from the disk centre alone"""
    rs = 1.0 * u.R_sun
    la0, lo0, la, lo = lat('lat0'), lon('lon0'), lat('lat'), lon('lon')
    f = var('f', 0.01, 0.2)
    area = f * 4 * np.pi * rs**2
    s = spot('s', grid=9, la=la, lo=lo, amax=area * 2, acur=area)
    c0 = sep_spec(la0, lo0, la, lo).to(u.deg)
    t = spot('t', grid=9, la=0 * u.deg, lo=c0, amax=area * 2, acur=area)
    a = s.surface_fraction({'lat': la0, 'lon': lo0}, rs, n_points=41)
    b = t.surface_fraction({'lat': 0 * u.deg, 'lon': 0 * u.deg}, rs, n_points=41)
    eq('the disk share of a spot follows its great-circle distance', a, b, tol=1e-4, atol=1e-5)
    w = s.surface_fraction({'lat': la0, 'lon': lo0 + choice('turn', [360, -360, 720]) * u.deg}, rs, n_points=41)
    eq('full turns do not change the disk share of a spot', w, a, tol=1e-4, atol=1e-5)
