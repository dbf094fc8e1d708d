"""C06: surface grids tile the whole sphere consistently."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, tryraise, raises, same
from scen.common import *
from vspec_vsm.coordinate_grid import RectangularGrid, SpiralGrid

CELLS = {'tiling': (36, 160), 'equality': (24, 60), 'bad': (4, 8), 'spacing': (8, 24), 'counts': (21, 63)}
WIDE = []
SIZES = [(3, 3), (3, 4), (5, 6), (4, 5), (6, 4), (9, 7), (3, 1), (8, 16), 1, 2, 3, 5, 9, 12, 31, 50]


def tiling():
    gp = choice('gp', SIZES)
    g = CoordinateGrid.new(gp)
    la, lo = g.grid()
    a, z = g.area, g.zeros()
    eq('latitudes and longitudes have the same shape', la.shape, lo.shape)
    eq('weights have the shape of the grid', a.shape, la.shape)
    eq('blank maps have the shape of the grid', z.shape, la.shape)
    eq('blank maps are blank', z, np.zeros(la.shape))
    n = gp if isinstance(gp, int) else gp[0] * gp[1]
    eq('the grid has as many points as asked for', la.size, n)
    lad, lod = la.to_value(u.deg), lo.to_value(u.deg)
    le('latitudes are at least -90 degrees', -90, lad, atol=1e-9)
    le('latitudes are at most 90 degrees', lad, 90, atol=1e-9)
    le('longitudes are at least 0 degrees', 0, lod, atol=1e-9)
    check('longitudes are below 360 degrees', lod < 360 - 1e-9)
    le('weights are not negative', 0, a, atol=1e-12)
    eq('weights sum to one', np.sum(a), 1, tol=1e-5)
    eq('latitudes are symmetric', np.sum(lad), 0, atol=1e-6)
    eq('latitudes are symmetric in extent', np.max(lad), -np.min(lad), atol=1e-6)
    b = g.area
    eq('weights are the same every time', b, a)
    if isinstance(gp, tuple):
        nlat, nlon = gp
        cl = np.cos(la).value
        eq('weights are proportional to the solid angle at the latitude', a, cl / np.sum(cl), tol=1e-6, atol=1e-9)
        eq('axis 0 is longitude, axis 1 latitude', la.shape, (nlon, nlat))
        one, two = g.oned()
        eq('one latitude per column', one.shape, (nlat,))
        eq('one longitude per row', two.shape, (nlon,))
        for i in range(nlon):
            for j in range(nlat):
                eq('latitudes run along axis 1', lad[i, j], one[j].to_value(u.deg), atol=1e-9)
                eq('longitudes run along axis 0', lod[i, j], two[i].to_value(u.deg), atol=1e-9)
        eq('latitudes reach the south pole', lad[0, 0], -90, atol=1e-6)
        eq('latitudes reach the north pole', lad[0, nlat - 1], 90, atol=1e-6)
        for j in range(nlat):
            eq('latitudes are evenly spaced', lad[0, j], -90 + 180 * j / (nlat - 1), atol=1e-6)
        for i in range(nlon):
            eq('longitudes are evenly spaced without a repeated meridian', lod[i, 0], 360 * i / nlon, atol=1e-6)
    else:
        eq('weights are uniform', a, np.zeros(n) + 1 / n, tol=1e-6)
        # equal-area bands
        s = np.sort(np.sin(la).value)
        eq('latitudes are uniform in sine', s, (2 * np.arange(n) + 1) / n - 1, atol=1e-6)
        if n > 1:
            d = np.diff(np.sort(lod))
            check('no longitude is repeated', d > 1e-6)


def equality():
    a = choice('a', SIZES)
    how = choice('how', ['any', 'swapped', 'same', 'same product'])
    b = choice('b', SIZES + [(6, 5), (4, 3)])
    if isinstance(a, tuple):
        b = (a[1], a[0]) if how == 'swapped' else a if how == 'same' else (2 * a[0], a[1]) if how == 'same product' else b
        if how == 'same product':
            a = (a[0], 2 * a[1])
    elif how != 'any':
        b = a if how == 'same' else a + 1 if how == 'swapped' else (3, a // 3)
    ga, gb = CoordinateGrid.new(a), CoordinateGrid.new(b)
    check('a tuple gives a rectangular grid, an integer a spiral',
          isinstance(ga, RectangularGrid if isinstance(a, tuple) else SpiralGrid))
    r, v = tryraise(lambda: ga == gb)
    if not r:
        check('grids are equal exactly when kind and size agree', bool(v) == (a == b))
    else:
        check('grids of the same kind can be compared', isinstance(a, tuple) != isinstance(b, tuple))
    r, v = tryraise(lambda: ga != gb)
    if not r:
        check('grids differ exactly when kind or size differ', bool(v) == (a != b))
    same_grid = CoordinateGrid.new(a)
    check('a grid equals another one of the same parameters', ga == same_grid)


def bad():
    raises('a grid parameter that is neither int nor tuple is rejected', CoordinateGrid.new, TypeError,
           choice('p', [4.5, 'abc', [3, 4], None]))
    raises('a non-integer number of latitudes is rejected', RectangularGrid, TypeError, 4.5, 6)
    raises('a non-integer number of longitudes is rejected', RectangularGrid, TypeError, 4, 6.5)


def spacing():
    gp = choice('gp', [(3, 4), (5, 6), (9, 7)])
    g = RectangularGrid(*gp)
    one, two = g.oned()
    eq('the latitude spacing is the distance of neighbouring latitudes', g.dlat, one[1] - one[0], tol=1e-9)
    eq('the longitude spacing is the distance of neighbouring longitudes', g.dlon, two[1] - two[0], tol=1e-9)


def counts():
    """every count of latitudes and longitudes is met exactly"""
    n = choice('n', [7, 25, 49, 93, 98, 103, 107, 161, 175, 181, 187, 196, 227, 229, 300, 322, 361, 500, 2500, 7000, 20000])
    turn = choice('which', ['lon', 'lat', 'spiral']) if n < 1000 else 'spiral'
    g = CoordinateGrid.new((3, n) if turn == 'lon' else (n, 3) if turn == 'lat' else n)
    la, lo = g.grid()
    lad, lod = la.to_value(u.deg), lo.to_value(u.deg)
    eq('the grid has as many points as asked for', la.size, n if turn == 'spiral' else 3 * n)
    eq('weights have the shape of the grid', g.area.shape, la.shape)
    eq('weights sum to one', np.sum(g.area), 1, tol=1e-5)
    check('longitudes are below 360 degrees', (lod < 360 - 1e-9) & (lod > -1e-9))
    check('latitudes lie between the poles', (lad < 90 + 1e-9) & (lad > -90 - 1e-9))
    if turn == 'lon':
        eq('longitudes are evenly spaced without a repeated meridian', lod[:, 0], 360 * np.arange(n) / n, atol=1e-6)
    elif turn == 'lat':
        eq('latitudes are evenly spaced', lad[0, :], -90 + 180 * np.arange(n) / (n - 1), atol=1e-6)
    else:
        eq('latitudes are uniform in sine', np.sort(np.sin(la).value), (2 * np.arange(n) + 1) / n - 1, atol=1e-6)
