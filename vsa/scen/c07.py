"""C07: every feature is mapped on its star's own grid."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, check, counts, rng, same
from scen.common import *

CELLS = {'spot_routes': (30, 160), 'facula_routes': (30, 160), 'born': (16, 80), 'regrid': (20, 100), 'generator': (16, 60), 'crowd': (8, 24)}
WIDE = []
OTHER = [(5, 6), (4, 5), 9, 12, (6, 4), 7, (6, 5)]


def _spot(name, gp):
    return spot(name, grid=gp, amax=2e6 * MSH, acur=var(name + '.acur', 2e5, 1.5e6) * MSH)


def _fac(name, gp):
    return facula(name, grid=gp, rmax=8e5 * u.km, rinit=var(name + '.rinit', 2e5, 7e5) * u.km)


def _judge_spot(s, gp, rs):
    """s behaves as a spot built on grid gp"""
    fresh = vsm.StarSpot(lat=s.coords['lat'], lon=s.coords['lon'], area_max=s.area_max, area_current=s.area_current,
                         teff_umbra=s.teff_umbra, teff_penumbra=s.teff_penumbra,
                         area_over_umbra_area=s.total_area_over_umbra_area, is_growing=s.is_growing,
                         growth_rate=s.growth_rate, decay_rate=s.decay_rate, grid_params=gp)
    shape = CoordinateGrid.new(gp).zeros().shape
    m, w = s.map_pixels(rs), fresh.map_pixels(rs)
    for t in (s.teff_umbra, s.teff_penumbra):
        eq('a spot mask has the shape of the grid', m[t].shape, shape)
        eq('a spot marks the pixels it would mark had it been built on that grid', m[t], w[t])
    check('a spot is on the grid of its star or collection', s.gridmaker == CoordinateGrid.new(gp))


def _judge_fac(f, gp, rs):
    fresh = vsm.Facula(lat=f.lat, lon=f.lon, r_max=f.r_max, r_init=f.radius, depth=f.depth, lifetime=f.lifetime,
                       floor_teff_slope=f.floor_teff_slope, floor_teff_min_rad=f.floor_teff_min_rad,
                       floor_teff_base_dteff=f.floor_teff_base_dteff, wall_teff_slope=f.wall_teff_slope,
                       wall_teff_intercept=f.wall_teff_intercept, growing=f.is_growing, grid_params=gp)
    shape = CoordinateGrid.new(gp).zeros().shape
    m, w = f.map_pixels(rs), fresh.map_pixels(rs)
    eq('a facula mask has the shape of the grid', m.shape, shape)
    eq('a facula marks the pixels it would mark had it been built on that grid', m, w)
    check('a facula is on the grid of its star or collection', f.gridmaker == CoordinateGrid.new(gp))


def spot_routes():
    gp, g2, g3 = grid_params(), choice('g2', OTHER), choice('g3', OTHER)
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    s = _spot('s', g2)
    route = choice('route', ['construct', 'collection', 'add', 'add_list', 'add_tuple', 'coll_add', 'coll_add_list', 'late'])
    if route == 'construct':
        col = vsm.SpotCollection(s, grid_params=g3)
        star = vsm.Star(3300 * u.K, rs, 10 * u.day, col, vsm.FaculaCollection(grid_params=g3), grid_params=gp, rng=rng('user'))
        spots = star.spots.spots
        star.map
    elif route == 'collection':
        spots = vsm.SpotCollection(s, _spot('t', g3), grid_params=gp).spots
    elif route in ('coll_add', 'coll_add_list'):
        col = vsm.SpotCollection(_spot('t', g3), grid_params=gp)
        col.add_spot(s if route == 'coll_add' else [s, _spot('v', g3)])
        spots = col.spots
        col.map_pixels(rs, 3300 * u.K)
    else:
        star = empty_star(gp, radius=rs, teff=3300 * u.K)
        if route == 'late':
            star.add_spot(_spot('t', gp))
            star.age(0.01 * u.hr)
        star.add_spot(s if route in ('add', 'late') else [s] if route == 'add_list' else (s, _spot('t', g3)))
        spots = star.spots.spots
        smap = star.map
        eq('the surface map has the shape of the grid', smap.shape, CoordinateGrid.new(gp).zeros().shape)
    for x in spots:
        _judge_spot(x, gp, rs)


def facula_routes():
    gp, g2, g3 = grid_params(), choice('g2', OTHER), choice('g3', OTHER)
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    s = _fac('f', g2)
    route = choice('route', ['construct', 'collection', 'add', 'add_list', 'add_tuple', 'coll_add', 'coll_add_list', 'late'])
    if route == 'construct':
        col = vsm.FaculaCollection(s, grid_params=g3)
        star = vsm.Star(3300 * u.K, rs, 10 * u.day, vsm.SpotCollection(grid_params=g3), col, grid_params=gp, rng=rng('user'))
        facs = star.faculae.faculae
    elif route == 'collection':
        facs = vsm.FaculaCollection(s, _fac('t', g3), grid_params=gp).faculae
    elif route in ('coll_add', 'coll_add_list'):
        col = vsm.FaculaCollection(_fac('t', g3), grid_params=gp)
        col.add_faculae(s if route == 'coll_add' else (s, _fac('v', g3)))
        facs = col.faculae
    else:
        star = empty_star(gp, radius=rs, teff=3300 * u.K)
        if route == 'late':
            star.add_fac(_fac('t', gp))
            star.age(0.01 * u.hr)
        star.add_fac(s if route in ('add', 'late') else [s] if route == 'add_list' else (s, _fac('t', g3)))
        facs = star.faculae.faculae
        smap = star.add_faculae_to_map(10 * u.deg, 20 * u.deg)
        eq('the surface map has the shape of the grid', smap.shape, CoordinateGrid.new(gp).zeros().shape)
    for x in facs:
        _judge_fac(x, gp, rs)


def spot_gen(gp=None, gm=None, g=None, **kw):
    p = dict(dist_area_mean=var('amean', 2e5, 8e5) * MSH, dist_area_logsigma=var('asig', 0.05, 0.3),
             umbra_teff=2500 * u.K, penumbra_teff=2800 * u.K, growth_rate=var('grate', 0.2, 1.5) / u.day,
             decay_rate=var('drate', 1e4, 5e4) * MSH / u.day, init_area=var('ainit', 1e4, 1e5) * MSH,
             distribution='iso', coverage=0.3, rng=g if g is not None else rng('user'))
    p.update(kw)
    if gp is not None:
        p['grid_params'] = gp
    if gm is not None:
        p['gridmaker'] = gm
    return vsm.SpotGenerator(**p)


def fac_gen(gp=None, gm=None, g=None, **kw):
    p = dict(dist_r_peak=var('rpeak', 2e5, 5e5) * u.km, dist_r_logsigma=var('rsig', 0.05, 0.2), depth=5e4 * u.km,
             dist_life_peak=var('life', 5, 20) * u.hr, dist_life_logsigma=0.1, floor_teff_slope=0 * u.K / u.km,
             floor_teff_min_rad=2e4 * u.km, floor_teff_base_dteff=-100 * u.K, wall_teff_slope=0 * u.K / u.km,
             wall_teff_intercept=100 * u.K, coverage=0.2, rng=g if g is not None else rng('user'))
    p.update(kw)
    if gp is not None:
        p['grid_params'] = gp
    if gm is not None:
        p['gridmaker'] = gm
    return vsm.FaculaGenerator(**p)


def born():
    gp, g2, g3 = grid_params(), choice('g2', OTHER), choice('g3', OTHER)
    counts([choice('n', [1, 2])])
    form = choice('form', ['params', 'params', 'maker'])
    star = vsm.Star(3300 * u.K, 0.8 * u.R_sun, 10 * u.day, vsm.SpotCollection(_spot('s', g2), grid_params=g3),
                    vsm.FaculaCollection(_fac('f', g3), grid_params=g2), grid_params=gp,
                    spot_generator=spot_gen(g2) if form == 'params' else spot_gen(gp, CoordinateGrid.new(g2)),
                    fac_generator=fac_gen(g3) if form == 'params' else fac_gen(gp, CoordinateGrid.new(g3)), rng=rng('user'))
    star.birth_spots(1 * u.day)
    star.birth_faculae(1 * u.hr)
    star.spots.add_spot(star.spot_generator.generate_spots(1))
    star.faculae.add_faculae(star.fac_generator.generate_faculae(1))
    for s in star.spots.spots:
        _judge_spot(s, gp, star.radius)
    for f in star.faculae.faculae:
        _judge_fac(f, gp, star.radius)
    for s in star.spot_generator.generate_spots(1):
        _judge_spot(s, gp, star.radius)
    for f in star.fac_generator.generate_faculae(1):
        _judge_fac(f, gp, star.radius)
    star.map
    star.add_faculae_to_map(10 * u.deg, 20 * u.deg)


def regrid():
    g1, g2 = grid_params('g1'), choice('g2', OTHER)
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    sc = vsm.SpotCollection(_spot('s', g2), _spot('t', g1), grid_params=g1)
    fc = vsm.FaculaCollection(_fac('f', g2), _fac('h', g1), grid_params=g1)
    sc.set_gridmaker(CoordinateGrid.new(g2))
    fc.set_gridmaker(CoordinateGrid.new(g2))
    for s in sc.spots:
        _judge_spot(s, g2, rs)
    for f in fc.faculae:
        _judge_fac(f, g2, rs)
    # collections stay on the new grid
    sc.add_spot(_spot('v', g1))
    fc.add_faculae(_fac('w', g1))
    for s in sc.spots:
        _judge_spot(s, g2, rs)
    for f in fc.faculae:
        _judge_fac(f, g2, rs)
    one = _spot('one', g1)
    one.set_gridmaker(CoordinateGrid.new(g2))
    _judge_spot(one, g2, rs)
    two = _fac('two', g1)
    two.set_gridmaker(CoordinateGrid.new(g2))
    _judge_fac(two, g2, rs)
    m = sc.map_pixels(rs, 3300 * u.K)
    eq('the spot map has the shape of the new grid', m.shape, CoordinateGrid.new(g2).zeros().shape)


def generator():
    """generators use the grid they were given, in whatever form"""
    gp, g2 = grid_params(), choice('g2', OTHER)
    rs = 0.8 * u.R_sun
    form = choice('form', ['params', 'maker', 'both'])
    gm = CoordinateGrid.new(gp) if form != 'params' else None
    pp = gp if form == 'params' else None if form == 'maker' else g2
    for s in spot_gen(pp, gm).generate_spots(2):
        _judge_spot(s, gp, rs)
    for f in fac_gen(pp, gm).generate_faculae(2):
        _judge_fac(f, gp, rs)
    _judge_spot(vsm.StarSpot(10 * u.deg, 20 * u.deg, 2e6 * MSH, 1e6 * MSH, 2500 * u.K, 2800 * u.K,
                             grid_params=pp if pp is not None else 9, gridmaker=gm), gp, rs)


def crowd():
    """many features"""
    gp, g2 = choice('grid', [6, (2, 3)]), choice('g2', [5, (3, 2), 7])
    n = choice('n', [66, 66, 3])
    rs = 0.8 * u.R_sun
    spots = [vsm.StarSpot(lat=(3 * i % 170 - 85) * u.deg, lon=(37 * i % 360) * u.deg, area_max=2e6 * MSH, area_current=(2e5 + 1e4 * i) * MSH,
                          teff_umbra=(2400 + i) * u.K, teff_penumbra=(2700 + i) * u.K, grid_params=g2) for i in range(n)]
    facs = [vsm.Facula(lat=(3 * i % 170 - 85) * u.deg, lon=(37 * i % 360) * u.deg, r_max=8e5 * u.km, r_init=(2e5 + 5e3 * i) * u.km,
                       depth=5e4 * u.km, lifetime=5 * u.hr, floor_teff_slope=0 * u.K / u.km, floor_teff_min_rad=2e4 * u.km,
                       floor_teff_base_dteff=-100 * u.K, wall_teff_slope=0 * u.K / u.km, wall_teff_intercept=100 * u.K, grid_params=g2) for i in range(n)]
    sc, fc = vsm.SpotCollection(*spots, grid_params=g2), vsm.FaculaCollection(*facs, grid_params=g2)
    route = choice('route', ['regrid', 'star', 'add'])
    if route == 'regrid':
        sc.set_gridmaker(CoordinateGrid.new(gp))
        fc.set_gridmaker(CoordinateGrid.new(gp))
    elif route == 'star':
        star = vsm.Star(3300 * u.K, rs, 10 * u.day, sc, fc, grid_params=gp, rng=rng('user'))
        sc, fc = star.spots, star.faculae
    else:
        sc, fc = vsm.SpotCollection(grid_params=gp), vsm.FaculaCollection(grid_params=gp)
        sc.add_spot(spots)
        fc.add_faculae(facs)
    eq('all spots are there', len(sc.spots), n)
    eq('all faculae are there', len(fc.faculae), n)
    for s in sc.spots:
        check('a spot is on the grid of its star or collection', s.gridmaker == CoordinateGrid.new(gp))
    for f in fc.faculae:
        check('a facula is on the grid of its star or collection', f.gridmaker == CoordinateGrid.new(gp))
    for s in (sc.spots[0], sc.spots[-1]):
        _judge_spot(s, gp, rs)
    for f in (fc.faculae[0], fc.faculae[-1]):
        _judge_fac(f, gp, rs)
