"""C23: every documented operation works on every valid model."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, counts, rng, raises, attempt, known, dims_of, passed, fail
from scen.common import *
from scen.c07 import spot_gen, fac_gen
from scen.c08 import flare_gen, _flare
from vspec_vsm.helpers import get_angle_between, proj_ortho, calc_circ_fraction_inside_unit_circle, round_teff, clip_teff
from vspec_vsm.coordinate_grid import RectangularGrid, SpiralGrid, get_lat_points, get_lon_points
from vspec_vsm.granules import build_gp, save_cast_coverage
from vspec_vsm import xoflares
import matplotlib.pyplot as plt

CELLS = {'star_ops': (170, 700), 'generator_ops': (110, 440), 'feature_ops': (110, 440), 'flare_ops': (70, 280), 'grid_ops': (60, 240), 'helper_ops': (60, 240),
         'granulation_ops': (30, 120), 'sequence': (50, 240), 'construct': (40, 160), 'rejects': (110, 330), 'disabled_kinds': (8, 16)}
WIDE = []

SGRIDS = [9, (4, 5), 12, (5, 6)]


def _spots(kind, sg):
    if kind == 'none':
        return []
    if kind == 'one':
        return [spot('s', grid=sg, amax=2e6 * MSH, acur=8e5 * MSH)]
    if kind == 'dead':
        return [spot('s', grid=sg, acur=0 * MSH, growing=False), spot('t', grid=sg, growing=False)]
    return [spot('s', grid=sg, amax=2e6 * MSH, acur=8e5 * MSH), spot('t', grid=choice('sgrid2', SGRIDS), growing=False), spot('v', grid=sg, acur=1 * MSH)]


def _facs(kind, fg):
    if kind == 'none':
        return []
    if kind == 'small':
        return [facula('f', grid=fg, rmax=100 * u.km, rinit=90 * u.km, depth=10 * u.km, minrad=20 * u.km)]
    if kind == 'deep':
        return [facula('f', grid=fg, rmax=8e5 * u.km, rinit=3e5 * u.km, depth=9e5 * u.km)]
    if kind == 'walled':
        return [facula('f', grid=fg, rmax=8e5 * u.km, rinit=3e5 * u.km, minrad=5e5 * u.km)]
    return [facula('f', grid=fg, rmax=8e5 * u.km, rinit=5e5 * u.km), facula('h', grid=choice('fgrid2', SGRIDS), growing=False)]


def _model():
    gp = choice('grid', SGRIDS)
    g = rng('user')
    gen = choice('gen', ['default', 'full', 'off', 'other grids'])
    kw = {}
    if gen in ('full', 'other grids'):
        gg = gp if gen == 'full' else choice('gengrid', SGRIDS)
        kw = dict(spot_generator=spot_gen(gg, g=g, distribution=choice('dist', ['solar', 'iso'])), fac_generator=fac_gen(gg, g=g), flare_generator=flare_gen(g),
                  granulation=vsm.Granulation(0.2, 0.01, 5 * u.hr, choice('dt', [300, 0]) * u.K, seed=3))
    elif gen == 'off':
        kw = dict(spot_generator=vsm.SpotGenerator.off(rng=g), fac_generator=vsm.FaculaGenerator.off(rng=g), flare_generator=vsm.FlareGenerator.off(rng=g),
                  granulation=vsm.Granulation.off())
    sk, fk = choice('spots', ['none', 'one', 'many', 'dead']), choice('facs', ['none', 'many', 'small', 'deep', 'walled'])
    sg, fg = choice('sgrid', SGRIDS), choice('fgrid', SGRIDS)
    star = vsm.Star(teff=var('teff', 3100, 3600, ext=(500, 40000)) * u.K, radius=var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun, period=10 * u.day,
                    spots=vsm.SpotCollection(*_spots(sk, sg), grid_params=choice('scg', SGRIDS)), faculae=vsm.FaculaCollection(*_facs(fk, fg), grid_params=choice('fcg', SGRIDS)),
                    grid_params=gp, rng=g, **kw)
    return star, gp, g


def _obs():
    return {'lat': lat('lat0', -90, 90, (0.0, 90.0, -90.0)), 'lon': lon('lon0')}


STAR = ['map', 'age', 'age0', 'add_spot', 'add_spots', 'add_fac', 'add_facs', 'get_mu', 'ld_mask', 'proj', 'ld_plot', 'jac', 'facmap', 'plfrac', 'transit', 'transit default',
        'coverage', 'coverage gran', 'coverage transit', 'birth_spots', 'birth_faculae', 'average_teff', 'flares', 'flare int', 'mature', 'granulation',
        'set_spot_grid', 'set_fac_grid', 'eclipse', 'spot_coverage', 'plot', 'str', 'flare int none']


def star_ops():
    star, gp, g = _model()
    q = choice('op', STAR)
    obs = _obs()
    la, lo = obs['lat'], obs['lon']
    t = var('t', 0, 40, (0.0,), ext=(0, 100000)) * choice('tu', [u.day, u.hr])
    orb, rp, inc = 5 * star.radius, var('rp', 0.05, 0.9) * star.radius, var('inc', 85, 95) * u.deg
    ph = (180 + var('dph', -15, 15)) * u.deg
    counts([choice('n', [0, 1, 2])])
    mature = choice('cov', [0.0, 0.15])
    gp2 = choice('other', SGRIDS)
    fs = {'map': lambda: star.map, 'age': lambda: star.age(t), 'age0': lambda: star.age(0 * u.s), 'add_spot': lambda: star.add_spot(spot('n', grid=gp2)),
          'add_spots': lambda: star.add_spot([spot('n', grid=gp2), spot('m', grid=gp2)]), 'add_fac': lambda: star.add_fac(facula('n', grid=gp2)),
          'add_facs': lambda: star.add_fac((facula('n', grid=gp2), facula('m', grid=gp2))), 'get_mu': lambda: star.get_mu(la, lo),
          'ld_mask': lambda: star.ld_mask(star.get_mu(la, lo)), 'proj': lambda: star.area_projection_coefficient(star.get_mu(la, lo)),
          'ld_plot': lambda: star.ld_mask_for_plotting(star.get_mu(la, lo)), 'jac': lambda: star.get_jacobian(), 'facmap': lambda: star.add_faculae_to_map(la, lo),
          'plfrac': lambda: star.get_pl_frac(ph - 180 * u.deg, orb, rp, inc), 'transit': lambda: star.get_transit_mask(la, lo, orb, rp, ph, inc),
          'transit default': lambda: star.get_transit_mask(la, lo, 1 * u.AU, 1 * u.R_earth, 90 * u.deg, 0 * u.deg),
          'eclipse': lambda: star.get_transit_mask(la, lo, orb, rp, ph + 180 * u.deg, inc), 'coverage': lambda: star.calc_coverage(obs),
          'coverage gran': lambda: star.calc_coverage(obs, granulation_fraction=0.3),
          'coverage transit': lambda: star.calc_coverage(obs, 0.1, orb, rp, ph, inc), 'birth_spots': lambda: star.birth_spots(t),
          'birth_faculae': lambda: star.birth_faculae(t), 'average_teff': lambda: star.average_teff(obs), 'flares': lambda: star.get_flares_over_observation(t),
          'flare int': lambda: (star.get_flares_over_observation(30 * u.day), star.get_flare_int_over_timeperiod(2 * u.hr, 9 * u.hr, obs)),
          'flare int none': lambda: (star.get_flares_over_observation(30 * u.day), star.flares.get_flare_integral_in_timeperiod(2 * u.hr, 9 * u.hr)),
          'mature': lambda: star.generate_mature_spots(mature if choice('gen', ['default', 'full', 'off', 'other grids']) in ('full', 'other grids') else 0.0),
          'granulation': lambda: star.get_granulation_coverage(np.array([0.0, 1.0]) * u.hr), 'set_spot_grid': lambda: star.set_spot_grid(),
          'set_fac_grid': lambda: star.set_fac_grid(), 'spot_coverage': lambda: star.spots.get_coverage(star.radius),
          'plot': lambda: star.plot_surface(la, lo, nlat=gp[0] if isinstance(gp, tuple) else 4, nlon=gp[1] if isinstance(gp, tuple) else 5),
          'str': lambda: [str(s) for s in star.spots.spots]}
    attempt('the star operation "%s" completes' % q, fs[q])
    # the model is still usable afterwards
    attempt('the map can be drawn after "%s"' % q, lambda: star.add_faculae_to_map(la, lo))
    attempt('the star can be aged after "%s"' % q, lambda: star.age(1 * u.hr))
    attempt('the coverage can be computed after "%s"' % q, lambda: star.calc_coverage(obs))


GEN = ['sg static', 'sg life', 'sg area', 'sg n', 'sg coords', 'sg generate', 'sg birth', 'sg mature', 'fg area', 'fg n', 'fg coords', 'fg generate', 'fg birth',
       'lg freq', 'lg nexp', 'lg ntotal', 'lg pdf', 'lg cdf', 'lg quantile', 'lg peaks', 'lg fwhm', 'lg teffs', 'lg coords', 'lg series', 'lg cdf array', 'lg quantile scalar']


def generator_ops():
    g = rng('user')
    q = choice('op', GEN)
    kind = choice('kind', ['plain', 'off', 'static', 'solar'])
    gp = choice('grid', SGRIDS)
    n = choice('n', [0, 1, 2, 3])
    counts([n])
    t, rs = var('t', 0, 90, (0.0,), ext=(0, 100000)) * u.day, var('rstar', 0.6, 1.2, ext=(0.6, 60)) * u.R_sun
    if kind == 'off':
        sg, fg, lg = vsm.SpotGenerator.off(grid_params=gp, rng=g), vsm.FaculaGenerator.off(grid_params=gp, rng=g), vsm.FlareGenerator.off(rng=g)
    else:
        sg = spot_gen(gp, g=g, distribution='solar' if kind == 'solar' else 'iso', decay_rate=(0 if kind == 'static' else 2e4) * MSH / u.day,
                      dist_area_mean=6e5 * MSH, init_area=2e5 * MSH)
        fg, lg = fac_gen(gp, g=g), flare_gen(g)
    e = var('e', 1, 90, ext=(1e-06, 1e+06)) * 1e33 * choice('eu', [u.erg, u.J])
    fs = {'sg static': lambda: sg.is_static, 'sg life': lambda: sg.mean_lifetime, 'sg area': lambda: sg.mean_area, 'sg n': lambda: sg.get_n_spots_to_birth(t, rs),
          'sg coords': lambda: sg.get_coordinates(n), 'sg generate': lambda: sg.generate_spots(n), 'sg birth': lambda: sg.birth_spots(t, rs),
          'sg mature': lambda: sg.generate_mature_spots(0.0 if kind == 'off' else choice('cov', [0.0, 0.12]), rs), 'fg area': lambda: fg.mean_area,
          'fg n': lambda: fg.get_n_faculae_expected(t, rs), 'fg coords': lambda: fg.get_coords(n), 'fg generate': lambda: fg.generate_faculae(n),
          'fg birth': lambda: fg.birth_faculae(t, rs), 'lg freq': lambda: lg.frequency_greater_than(e), 'lg nexp': lambda: lg.get_nexp_greater_than(e, t),
          'lg ntotal': lambda: lg.get_ntotal(t), 'lg pdf': lambda: lg.pdf(e), 'lg cdf': lambda: lg.cdf(e), 'lg cdf array': lambda: lg.cdf(np.array([1.0, 2.0]) * 1e34 * u.erg),
          'lg quantile': lambda: lg.quantile_func(np.array([0.0, 0.5])), 'lg quantile scalar': lambda: lg.quantile_func(0.25), 'lg peaks': lambda: lg.get_peaks(max(n, 1)),
          'lg fwhm': lambda: lg.gen_fwhm(n), 'lg teffs': lambda: lg.gen_teffs(n), 'lg coords': lambda: lg.gen_coords(n), 'lg series': lambda: lg.generate_flare_series(t)}
    attempt('the generator operation "%s" completes (%s)' % (q, kind), fs[q])


FEAT = ['spot str', 'spot radius', 'spot ang', 'spot map', 'spot frac', 'spot age', 'spot grid', 'fac floor', 'fac wall', 'fac grid', 'fac age', 'fac eff', 'fac frac', 'fac ang',
        'fac map', 'col spot map', 'col spot age', 'col spot cov', 'col spot clean', 'col spot add', 'col fac add', 'col fac age', 'col fac clean', 'col fac map', 'col grid',
        'col fac grid']


def feature_ops():
    q = choice('op', FEAT)
    gp, gp2 = choice('grid', SGRIDS), choice('grid2', SGRIDS)
    grow = choice('grow', [True, False])
    defaults = choice('defaults', [True, False])
    rs = var('rstar', 0.6, 1.2, ext=(0.6, 60)) * u.R_sun
    if defaults:
        s = vsm.StarSpot(10 * u.deg, 20 * u.deg, 3e5 * MSH, 1e5 * MSH, 2500 * u.K, 2800 * u.K, grid_params=gp)
    else:
        s = spot('s', grid=gp, growing=grow, rate=choice('rate', [0.0, 0.5]) / u.day, decay=choice('dec', [0, 2e4]) * MSH / u.day, acur=choice('ac', [1e5, 0.0, 2e5]) * MSH if not grow else None)
    f = facula('f', grid=gp, growing=grow, minrad=choice('mr', [2e4, 3e5]) * u.km)
    t = var('t', 0, 30, (0.0, 30.0)) * u.day
    ang = var('ang', 0, 89.5, (0.0, 45.0)) * u.deg
    k = choice('size', [0, 1, 2])
    sc = vsm.SpotCollection(*[s, spot('u', grid=gp2)][:k], grid_params=gp2)
    fc = vsm.FaculaCollection(*[f, facula('v', grid=gp2)][:k], grid_params=gp2)
    g2 = CoordinateGrid.new(gp2)
    fs = {'spot str': lambda: str(s), 'spot radius': lambda: s.radius, 'spot ang': lambda: s.angular_radius(rs), 'spot map': lambda: s.map_pixels(rs),
          'spot frac': lambda: s.surface_fraction(_obs(), rs, 31), 'spot age': lambda: s.age(t), 'spot grid': lambda: s.set_gridmaker(g2), 'fac floor': lambda: f.floor_dteff,
          'fac wall': lambda: f.wall_dteff, 'fac grid': lambda: f.set_gridmaker(g2), 'fac age': lambda: f.age(t), 'fac eff': lambda: f.effective_area(ang),
          'fac frac': lambda: f.fractional_effective_area(ang), 'fac ang': lambda: f.angular_radius(rs), 'fac map': lambda: f.map_pixels(rs),
          'col spot map': lambda: sc.map_pixels(rs, 3300 * u.K), 'col spot age': lambda: sc.age(t), 'col spot cov': lambda: sc.get_coverage(rs),
          'col spot clean': lambda: sc.clean_spotlist(), 'col spot add': lambda: (sc.clean_spotlist(), sc.add_spot(spot('w', grid=gp)), sc.add_spot([spot('x', grid=gp2)]), sc.add_spot(())),
          'col fac add': lambda: (fc.clean_faclist(), fc.add_faculae(facula('w', grid=gp)), fc.add_faculae([facula('x', grid=gp2)]), fc.add_faculae(())),
          'col fac age': lambda: fc.age(t), 'col fac clean': lambda: fc.clean_faclist(),
          'col fac map': lambda: fc.map_pixels(sc.map_pixels(rs, 3300 * u.K), rs, 3300 * u.K), 'col grid': lambda: sc.set_gridmaker(CoordinateGrid.new(gp)),
          'col fac grid': lambda: fc.set_gridmaker(CoordinateGrid.new(gp))}
    attempt('the operation "%s" completes' % q, fs[q])
    attempt('the spot can be mapped after "%s"' % q, lambda: sc.map_pixels(rs, 3300 * u.K))


def flare_ops():
    q = choice('op', ['peak', 'curve', 'curve1', 'timearea', 'index', 'mask', 'period', 'visible', 'visible default', 'integral', 'integral default', 'model', 'multi', 'light', 'exposure',
                      'integral np', 'scalar'])
    n = choice('n', [2, 0, 1])
    fl = _flare(0)
    col = vsm.FlareCollection([_flare(i) for i in range(n)]) if choice('list', [0, 1]) else vsm.FlareCollection(fl)
    t = np.array([1.0, 8.0, 10.0, 12.0]) * u.hr
    a, b = var('a', 0, 9) * u.hr, var('b', 10, 20) * u.hr
    x = np.array([0.0, 0.5, 1.0, 3.0])
    fs = {'peak': lambda: fl.calc_peak_area(), 'curve': lambda: fl.areacurve(t), 'curve1': lambda: fl.areacurve(t[:1]), 'timearea': lambda: fl.get_timearea(t), 'index': lambda: col.index(),
          'mask': lambda: col.mask(a, b), 'period': lambda: col.get_flares_in_timeperiod(a, b), 'visible': lambda: col.get_visible_flares_in_timeperiod(a, b, _obs()),
          'visible default': lambda: col.get_visible_flares_in_timeperiod(a, b), 'integral': lambda: col.get_flare_integral_in_timeperiod(a, b, _obs()),
          'integral default': lambda: col.get_flare_integral_in_timeperiod(a, b), 'model': lambda: xoflares._flaremodelnp(x, 1.0, 0.4, 2.0),
          'multi': lambda: xoflares.multiflaremodelnp(x, [1.0, 2.0], [0.4, 0.3], [2.0, 1.0]), 'light': lambda: xoflares.get_light_curvenp(x, [1.0], [0.4], [2.0]),
          'exposure': lambda: xoflares.get_light_curvenp(x, [1.0], [0.4], [2.0], texp=0.2, oversample=choice('os', [7, 6, 3])),
          'integral np': lambda: xoflares._flareintegralnp(0.4, 2.0), 'scalar': lambda: xoflares.get_light_curvenp(x, 1.0, 0.4, 2.0)}
    attempt('the flare operation "%s" completes' % q, fs[q])


def grid_ops():
    gp = choice('grid', SGRIDS + [1, 2, (2, 3)])
    g = CoordinateGrid.new(gp)
    q = choice('op', ['grid', 'mu', 'area', 'zeros', 'zeros bool', 'eq', 'display', 'oned', 'dlat', 'points', 'default', 'zeros int'])
    sp = isinstance(gp, int)
    fs = {'grid': lambda: g.grid(), 'mu': lambda: g.cos_angle_from_disk_center(_obs()['lat'], _obs()['lon']), 'area': lambda: g.area, 'zeros': lambda: g.zeros(),
          'zeros bool': lambda: g.zeros(dtype='bool'), 'zeros int': lambda: g.zeros(dtype='int16'), 'eq': lambda: g == CoordinateGrid.new(gp),
          'display': lambda: g.display_grid(3 if sp else gp[0], 4 if sp else gp[1], g.zeros()), 'oned': lambda: None if sp else g.oned(),
          'dlat': lambda: None if sp else (g.dlat, g.dlon), 'points': lambda: (get_lat_points(5), get_lon_points(4)), 'default': lambda: RectangularGrid().nlat}
    attempt('the grid operation "%s" completes' % q, fs[q])


def helper_ops():
    q = choice('op', ['round', 'angle', 'angle array', 'ortho', 'ortho pole', 'ortho south', 'circle', 'circle in', 'circle out', 'circle one', 'circle centre', 'clip high', 'clip low', 'clip mid',
                      'round neg'])
    gl, gn = CoordinateGrid.new(choice('grid', SGRIDS)).grid()
    o = _obs()
    r = var('r', 0.05, 0.95)
    fs = {'round': lambda: round_teff(var('t', 10, 5000) * u.K), 'round neg': lambda: round_teff(-1 * var('t', 10, 5000) * u.K),
          'angle': lambda: get_angle_between(o['lat'], o['lon'], 3 * u.deg, 4 * u.deg), 'angle array': lambda: get_angle_between(o['lat'], o['lon'], gl, gn),
          'ortho': lambda: proj_ortho(o['lat'], o['lon'], gl, gn), 'ortho pole': lambda: proj_ortho(90 * u.deg, o['lon'], gl, gn),
          'ortho south': lambda: proj_ortho(-90 * u.deg, o['lon'], gl, gn), 'circle': lambda: calc_circ_fraction_inside_unit_circle(var('x', -2, 2), var('y', -2, 2), r),
          'circle in': lambda: calc_circ_fraction_inside_unit_circle(0.0, 0.0, r), 'circle out': lambda: calc_circ_fraction_inside_unit_circle(5.0, 0.0, r),
          'circle one': lambda: calc_circ_fraction_inside_unit_circle(var('x', -2, 2), 0, 1), 'circle centre': lambda: calc_circ_fraction_inside_unit_circle(0, 0, 1),
          'clip high': lambda: clip_teff(9000 * u.K), 'clip low': lambda: clip_teff(900 * u.K), 'clip mid': lambda: clip_teff(3000 * u.K)}
    attempt('the helper "%s" completes' % q, fs[q])


def granulation_ops():
    q = choice('op', ['coverage', 'star', 'off', 'build', 'cast', 'default seed', 'star off', 'kernel'])
    g = vsm.Granulation(var('m', 0.1, 0.4), 0.01, 5 * u.hr, 300 * u.K, seed=3)
    t = np.array([0.0, 1.0, 2.5]) * choice('tu', [u.hr, u.day])
    fs = {'coverage': lambda: g.get_coverage(t), 'star': lambda: empty_star(9, granulation=g).get_granulation_coverage(t), 'off': lambda: vsm.Granulation.off().params,
          'build': lambda: build_gp(g.params, t.to_value(u.hr)), 'cast': lambda: save_cast_coverage(np.array([0.5, -1.0, 2.0])),
          'default seed': lambda: vsm.Granulation(0.2, 0.01, 5 * u.hr, 300 * u.K).get_coverage(t), 'star off': lambda: empty_star(9).get_granulation_coverage(t),
          'kernel': lambda: vsm.GranulationKernel(1.0, 3.0).evaluate(0.5, 2.0)}
    attempt('the granulation operation "%s" completes' % q, fs[q])


def sequence():
    """longer histories: everything keeps working in any order"""
    star, gp, g = _model()
    counts([choice('n', [0, 1, 2])])
    obs = _obs()
    t = var('t', 0.1, 30) * u.day
    for i in range(4):
        q = choice('q%d' % i, ['age', 'spots', 'faculae', 'flares', 'coverage', 'add', 'addf', 'map', 'gran', 'regrid', 'mature'])
        if q == 'age':
            attempt('aging works in any order', lambda: star.age(t))
        elif q == 'spots':
            attempt('spot births work in any order', lambda: star.birth_spots(t))
        elif q == 'faculae':
            attempt('facula births work in any order', lambda: star.birth_faculae(t))
        elif q == 'flares':
            attempt('flare series work in any order', lambda: (star.get_flares_over_observation(t), star.get_flare_int_over_timeperiod(0 * u.hr, 3 * u.hr, obs)))
        elif q == 'coverage':
            attempt('coverage works in any order', lambda: star.calc_coverage(obs, 0.2))
        elif q == 'add':
            attempt('adding spots works in any order', lambda: star.add_spot(spot('a%d' % i, grid=choice('ag%d' % i, SGRIDS))))
        elif q == 'addf':
            attempt('adding faculae works in any order', lambda: star.add_fac(facula('b%d' % i, grid=choice('bg%d' % i, SGRIDS))))
        elif q == 'map':
            attempt('maps work in any order', lambda: (star.map, star.add_faculae_to_map(obs['lat'], obs['lon'])))
        elif q == 'gran':
            attempt('granulation works in any order', lambda: star.get_granulation_coverage(np.array([0.0, 2.0]) * u.hr))
        elif q == 'mature':
            attempt('asking for no mature spots works in any order', lambda: star.generate_mature_spots(0.0))
        else:
            attempt('regridding works in any order', lambda: (star.set_spot_grid(), star.set_fac_grid()))


def construct():
    """constructors with their documented defaults and alternatives"""
    q = choice('op', ['star min', 'star int', 'star tuple', 'spots kw', 'facs kw', 'spot grid obj', 'fac grid obj', 'gens grid obj', 'flare gen', 'fl col one', 'gran', 'off all', 'fac int cov', 'gens default rng',
                      'star same grid', 'star mixed'])
    g9 = CoordinateGrid.new(choice('g', SGRIDS))
    gp = choice('grid', SGRIDS)
    fs = {'star min': lambda: vsm.Star(3300 * u.K, 1 * u.R_sun, 10 * u.day, vsm.SpotCollection(grid_params=gp), vsm.FaculaCollection(grid_params=gp), grid_params=gp).map,
          'star int': lambda: empty_star(9).map, 'star tuple': lambda: empty_star((4, 5)).map, 'spots kw': lambda: vsm.SpotCollection(spot('s', grid=gp), gridmaker=g9),
          'facs kw': lambda: vsm.FaculaCollection(facula('f', grid=gp), gridmaker=g9),
          'spot grid obj': lambda: vsm.StarSpot(1 * u.deg, 2 * u.deg, 3e5 * MSH, 1e5 * MSH, 2500 * u.K, 2800 * u.K, gridmaker=g9).map_pixels(1 * u.R_sun),
          'fac grid obj': lambda: vsm.Facula(1 * u.deg, 2 * u.deg, 3e5 * u.km, 1e5 * u.km, 1e4 * u.km, 6 * u.hr, 0 * u.K / u.km, 2e4 * u.km, -100 * u.K, 0 * u.K / u.km, 100 * u.K,
                                             gridmaker=g9).map_pixels(1 * u.R_sun),
          'gens grid obj': lambda: (spot_gen(gp, g=rng('user'), gridmaker=g9).generate_spots(1), fac_gen(gp, g=rng('user'), gridmaker=g9).generate_faculae(1)),
          'flare gen': lambda: vsm.FlareGenerator(9000 * u.K, 500 * u.K, 3 * u.hr, 0.3).get_ntotal(1 * u.day),
          'fl col one': lambda: vsm.FlareCollection(_flare(0)).peaks, 'gran': lambda: vsm.Granulation(0.1, 0.01, 5 * u.hr, 100 * u.K),
          'off all': lambda: (vsm.SpotGenerator.off(grid_params=gp), vsm.FaculaGenerator.off(grid_params=gp), vsm.FlareGenerator.off(), vsm.Granulation.off()),
          'fac int cov': lambda: fac_gen(gp, g=rng('user'), coverage=0), 'gens default rng': lambda: vsm.SpotGenerator(1e5 * MSH, 0.2, 2500 * u.K, 2700 * u.K, grid_params=gp).mean_area,
          'star same grid': lambda: empty_star(gp, spot_generator=spot_gen(gp, g=rng('user')), fac_generator=fac_gen(gp, g=rng('user'))),
          'star mixed': lambda: empty_star(gp, spot_generator=spot_gen(choice('og', SGRIDS), g=rng('user')), fac_generator=fac_gen(choice('og', SGRIDS), g=rng('user')))}
    attempt('construction "%s" completes' % q, fs[q])


def rejects():
    """arguments documented as rejected"""
    q = choice('op', ['grid list', 'grid str', 'grid float', 'nlat float', 'nlon float', 'grid tuple float', 'rect eq', 'spiral eq', 'ortho lon0', 'ortho lat0', 'ortho lons', 'ortho lats',
                      'radius', 'radius eps', 'coverage high', 'coverage low', 'spot dist', 'fac dist', 'fac solar', 'fac cov', 'quantile 1', 'quantile neg', 'quantile mix', 'wall floor',
                      'base grid', 'base area', 'base zeros', 'star grid', 'fac cov str', 'coverage eps', 'wall floor small', 'spiral eq list'])
    g = rng('user')
    sg, lg = spot_gen(9, g=g), flare_gen(g)
    a, x = 1 * u.deg, np.array([1.0, 2.0]) * u.deg
    f = facula('f', grid=9, wall0=100 * u.K, floor0=100 * u.K, wslope=0 * u.K / u.km, fslope=0 * u.K / u.km, minrad=choice('mr', [2e4, 4e5]) * u.km)
    fs = {'grid list': (lambda: CoordinateGrid.new([4, 5]), TypeError), 'grid str': (lambda: CoordinateGrid.new('9'), TypeError), 'grid float': (lambda: CoordinateGrid.new(9.0), TypeError),
          'nlat float': (lambda: RectangularGrid(nlat=4.0, nlon=5), TypeError), 'nlon float': (lambda: RectangularGrid(nlat=4, nlon=5.0), TypeError),
          'grid tuple float': (lambda: CoordinateGrid.new((4.0, 5)), TypeError), 'rect eq': (lambda: CoordinateGrid.new((4, 5)) == 9, TypeError),
          'spiral eq': (lambda: CoordinateGrid.new(9) == 9, TypeError), 'spiral eq list': (lambda: CoordinateGrid.new(9) == [9], TypeError),
          'ortho lon0': (lambda: proj_ortho(a, 1.0, x, x), TypeError), 'ortho lat0': (lambda: proj_ortho(1.0, a, x, x), TypeError),
          'ortho lons': (lambda: proj_ortho(a, a, x, x.value), TypeError), 'ortho lats': (lambda: proj_ortho(a, a, x.value, x), TypeError),
          'radius': (lambda: calc_circ_fraction_inside_unit_circle(var('x', -3, 3), 0.1, var('r', 1.001, 4)), ValueError),
          'radius eps': (lambda: calc_circ_fraction_inside_unit_circle(0.0, 0.0, 1.0001), ValueError),
          'coverage high': (lambda: sg.generate_mature_spots(var('c', 1.0001, 3), 1 * u.R_sun), ValueError), 'coverage low': (lambda: sg.generate_mature_spots(var('c', -3, -0.0001), 1 * u.R_sun), ValueError),
          'coverage eps': (lambda: sg.generate_mature_spots(-1e-6, 1 * u.R_sun), ValueError),
          'spot dist': (lambda: spot_gen(9, g=g, distribution='polar').generate_spots(1), ValueError), 'fac dist': (lambda: fac_gen(9, g=g, dist='polar'), ValueError),
          'fac solar': (lambda: fac_gen(9, g=g, dist='solar'), NotImplementedError), 'fac cov': (lambda: fac_gen(9, g=g, coverage=None), TypeError),
          'fac cov str': (lambda: fac_gen(9, g=g, coverage='0.1'), TypeError), 'quantile 1': (lambda: lg.quantile_func(1.0), ValueError),
          'quantile neg': (lambda: lg.quantile_func(var('q', -2, -0.001)), ValueError), 'quantile mix': (lambda: lg.quantile_func(np.array([0.5, 1.0, 0.2])), ValueError),
          'wall floor': (lambda: f.effective_area(20 * u.deg), ValueError), 'wall floor small': (lambda: f.fractional_effective_area(20 * u.deg), ValueError),
          'base grid': (lambda: CoordinateGrid().grid(), NotImplementedError), 'base area': (lambda: CoordinateGrid().area, NotImplementedError),
          'base zeros': (lambda: CoordinateGrid().zeros(), NotImplementedError),
          'star grid': (lambda: vsm.Star(3300 * u.K, 1 * u.R_sun, 10 * u.day, vsm.SpotCollection(grid_params=9), vsm.FaculaCollection(grid_params=9), grid_params='9'), TypeError)}
    raises('the documented error is raised (%s)' % q, fs[q][0], fs[q][1])


def disabled_kinds():
    """the disabled generators carry quantities of the right kind"""
    s, f, l = vsm.SpotGenerator.off(grid_params=9), vsm.FaculaGenerator.off(grid_params=9), vsm.FlareGenerator.off()
    one = {'growth rate': (s.growth_rate, 1 / u.s), 'decay rate': (s.decay_rate, u.km**2 / u.s), 'mean area': (s.dist_area_mean, u.km**2), 'initial area': (s.init_area, u.km**2),
           'umbra': (s.umbra_teff, u.K), 'penumbra': (s.penumbra_teff, u.K), 'facula radius': (f.dist_r_peak, u.km), 'facula depth': (f.depth, u.km),
           'facula lifetime': (f.dist_life_peak, u.hr), 'floor slope': (f.floor_teff_slope, u.K / u.m), 'floor radius': (f.floor_teff_min_rad, u.m), 'wall slope': (f.wall_teff_slope, u.K / u.m),
           'flare temperature': (l.dist_teff_mean, u.K), 'flare scatter': (l.dist_teff_sigma, u.K), 'flare width': (l.dist_fwhm_mean, u.s), 'flare energy': (l.min_energy, u.erg)}
    for k, v in one.items():
        attempt('the disabled %s is a quantity of the right kind' % k, lambda: v[0].to(v[1]))
