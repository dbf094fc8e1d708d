"""C24: display resampling keeps values, units and orientation."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, raises, tryraise, passed, fail, finite, dims_of
from scen.common import *

CELLS = {'spiral_range': (30, 160), 'spiral_uniform': (20, 100), 'spiral_shares': (12, 60), 'rectangular': (24, 120), 'rejected': (24, 96), 'star_map': (16, 80)}
WIDE = ['spiral_uniform', 'rectangular', 'spiral_range']

SIZES = [(3, 4), (4, 5), (2, 3), (5, 3), (1, 4), (6, 6)]
NS = [7, 9, 12, 1, 2, 20]


def _unit():
    return choice('unit', [u.K, u.dimensionless_unscaled, u.m, u.W / u.m**2, None])


def _with(d, un):
    return d if un is None else d * un


def _axes(what, out, nlat, nlon, un):
    lat, lon, dat = out
    check('%s: one latitude and longitude per axis point' % what, np.shape(lat) == (nlat,) and np.shape(lon) == (nlon,))
    check('%s: data have longitude first' % what, np.shape(dat) == (nlon, nlat))
    if nlat > 1:
        eq('%s: latitudes run from pole to pole, in radians' % what, lat, np.linspace(-np.pi / 2, np.pi / 2, nlat), tol=1e-9, atol=1e-9)
    eq('%s: longitudes cover one turn without repeating it, in radians' % what, lon, 2 * np.pi * np.arange(nlon) / nlon, tol=1e-9, atol=1e-9)
    check('%s: data keep their unit' % what, dat.unit == (u.dimensionless_unscaled if un is None else un))
    finite('%s: every displayed value is a number' % what, dat.value)


def spiral_range():
    n = choice('n', NS)
    nlat, nlon = choice('size', SIZES)
    un = _unit()
    d = np.array([var('d%d' % i, -5, 50, (0.0, 1.0)) for i in range(n)])
    out = CoordinateGrid.new(n).display_grid(nlat, nlon, _with(d, un))
    _axes('spiral', out, nlat, nlon, un)
    x = out[2].value
    le('no displayed value is below the smallest data value', np.min(d) - 1e-6, x)
    le('no displayed value is above the largest data value', x, np.max(d) + 1e-6)


def spiral_uniform():
    n = choice('n', NS)
    nlat, nlon = choice('size', SIZES)
    un = _unit()
    c = var('c', -50, 5000, (0.0, 1.0))
    out = CoordinateGrid.new(n).display_grid(nlat, nlon, _with(np.ones(n) * c, un))
    eq('uniform data stay uniform', out[2].value, np.ones((nlon, nlat)) * c, tol=1e-7, atol=1e-9)


def spiral_shares():
    """what each data point contributes to each displayed point, found from unit impulses"""
    n = choice('n', [7, 9, 5, 12])
    nlat, nlon = choice('size', [(3, 4), (4, 5), (5, 3)])
    g = CoordinateGrid.new(n)
    share = []
    for i in range(n):
        share.append(g.display_grid(nlat, nlon, np.array([1.0 if j == i else 0.0 for j in range(n)]))[2].value)
    d = np.array([var('d%d' % i, -5, 50) for i in range(n)])
    eq('displayed data are a weighted mean of the data', g.display_grid(nlat, nlon, d)[2].value, sum(share[i] * d[i] for i in range(n)), tol=1e-7, atol=1e-8)
    eq('the weights of a displayed point add up to one', sum(share), np.ones((nlon, nlat)), tol=1e-9)
    lats, lons = np.meshgrid(np.linspace(-90, 90, nlat) * u.deg, np.arange(nlon) / nlon * 360 * u.deg)
    plat, plon = g.grid()
    mus = [mu_spec(plat[i], plon[i], lats, lons) for i in range(n)]
    for i in range(n):
        le('no data point has a negative weight', -1e-12, share[i])
        for j in range(i):
            nearer = mus[i] > mus[j] + 1e-6
            check('a nearer data point never has less weight', (share[i] >= share[j] - 1e-12) | ~nearer)
            farther = mus[j] > mus[i] + 1e-6
            check('a nearer data point never has less weight', (share[j] >= share[i] - 1e-12) | ~farther)
            clear = (mus[i] > 0.5) & (mus[j] < -0.5)
            check('a clearly nearer data point has more weight', (share[i] > share[j]) | ~clear)


def rectangular():
    gp = choice('grid', [(3, 4), (4, 5), (5, 3)])
    nlat, nlon = gp
    un = _unit()
    d = np.array([[var('d%d_%d' % (i, j), -5, 50, (0.0,)) for j in range(nlat)] for i in range(nlon)])
    out = CoordinateGrid.new(gp).display_grid(nlat, nlon, _with(d, un))
    _axes('rectangular', out, nlat, nlon, un)
    eq('data on a rectangular grid are shown as they are', out[2].value, d, tol=1e-9)


def rejected():
    k = choice('kind', ['spiral 2d', 'spiral short', 'spiral long', 'rect 1d', 'rect transposed', 'rect other size', 'rect other target', 'rect wrong lat',
                        'rect wrong lon', 'rect other both', 'spiral empty', 'rect 3d'])
    g1, g2 = CoordinateGrid.new(9), CoordinateGrid.new((3, 4))
    un = choice('unit', [None, u.K])
    fs = {'spiral 2d': lambda: g1.display_grid(3, 4, _with(np.zeros((4, 3)), un)), 'spiral short': lambda: g1.display_grid(3, 4, _with(np.zeros(8), un)),
          'spiral long': lambda: g1.display_grid(3, 4, _with(np.zeros(10), un)), 'spiral empty': lambda: g1.display_grid(3, 4, _with(np.zeros(0), un)),
          'rect 1d': lambda: g2.display_grid(3, 4, _with(np.zeros(12), un)), 'rect transposed': lambda: g2.display_grid(3, 4, _with(np.zeros((3, 4)), un)),
          'rect other size': lambda: g2.display_grid(3, 4, _with(np.zeros((5, 3)), un)), 'rect other target': lambda: g2.display_grid(5, 6, _with(np.zeros((4, 3)), un)),
          'rect wrong lat': lambda: g2.display_grid(2, 4, _with(np.zeros((4, 3)), un)), 'rect wrong lon': lambda: g2.display_grid(3, 5, _with(np.zeros((4, 3)), un)),
          'rect other both': lambda: g2.display_grid(5, 6, _with(np.zeros((6, 5)), un)), 'rect 3d': lambda: g2.display_grid(3, 4, _with(np.zeros((4, 3, 2)), un))}
    raised, r = tryraise(fs[k])
    if raised:
        passed('data that do not fit the grid are rejected (%s)' % k)
    else:
        fail('data that do not fit the grid are rejected (%s)' % k, 'accepted')


def star_map():
    gp = choice('grid', [9, (4, 5), 12])
    star = rich_star(gp, 2, 1)
    la0, lo0 = viewpoint()
    m = star.add_faculae_to_map(la0, lo0)
    nlat, nlon = gp if isinstance(gp, tuple) else choice('size', SIZES)
    out = star.gridmaker.display_grid(nlat, nlon, m)
    _axes('surface map', out, nlat, nlon, u.K)
    le('no displayed temperature is below the coolest', np.min(m.value) - 1e-6, out[2].value)
    le('no displayed temperature is above the hottest', out[2].value, np.max(m.value) + 1e-6)
