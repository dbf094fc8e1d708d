"""C10: seeded runs are reproducible."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, check, rng, counts, draws, ambients, clear_log, fail, passed, gps, tails
from scen.common import *
from scen.c07 import spot_gen, fac_gen
from scen.c08 import flare_gen

CELLS = {'generators': (56, 280), 'many': (24, 120), 'star_defaults': (16, 60), 'star_forward': (24, 120), 'granulation': (20, 100),
         'unequal_seed': (8, 30)}
WIDE = []


def _sources(what, ident):
    for d in draws():
        if d['rng'] != ident:
            fail('%s draws only from the generator it was given' % what, '%s drawn at %s from %s' % (d['kind'], d['site'], d['rng']))
            return
    passed('%s draws only from the generator it was given' % what)
    a = ambients()
    if len(a):
        fail('%s uses no ambient randomness, clock or identity' % what, a[0])
    else:
        passed('%s uses no ambient randomness, clock or identity' % what)


def _show_spot(s):
    return (s.coords['lat'], s.coords['lon'], s.area_max, s.area_current, s.total_area_over_umbra_area, s.is_growing,
            s.growth_rate, s.decay_rate, s.teff_umbra, s.teff_penumbra)


def _show_fac(f):
    return (f.lat, f.lon, f.r_max, f.radius, f.depth, f.lifetime, f.is_growing, f.wall_dteff, f.floor_dteff)


def _show_flare(f):
    return (f.lat, f.lon, f.tpeak, f.fwhm, f.energy, f.Teff)


WHAT = ['spots', 'spots solar', 'births', 'mature', 'faculae', 'fac births', 'coords', 'fac coords', 'peaks', 'widths',
        'temperatures', 'flare coords', 'series', 'mature decaying']


def _run(what, g):
    counts([choice('n', [2, 1, 3])])
    if choice('rare', [False, False, True]) and what in ('spots', 'spots solar'):
        tails('z', [0.3, -0.2, 0.1, choice('z', [-6.5, -9.0])])  # an area ratio that has to be drawn again
    if what == 'spots':
        return [_show_spot(s) for s in spot_gen(9, g=g).generate_spots(2)]
    if what == 'spots solar':
        return [_show_spot(s) for s in spot_gen(9, g=g, distribution='solar').generate_spots(2)]
    if what == 'births':
        return [_show_spot(s) for s in spot_gen(9, g=g).birth_spots(1 * u.day, 0.8 * u.R_sun)]
    if what == 'mature':
        return [_show_spot(s) for s in spot_gen(9, g=g, decay_rate=0 * MSH / u.day, dist_area_mean=9e5 * MSH, init_area=8e5 * MSH,
                                                dist_area_logsigma=0.01).generate_mature_spots(0.2, 0.8 * u.R_sun)]
    if what == 'mature decaying':
        return [_show_spot(s) for s in spot_gen(9, g=g, dist_area_logsigma=0.01, growth_rate=0.5 / u.day, decay_rate=2e4 * MSH / u.day,
                                                dist_area_mean=9e5 * MSH, init_area=5e5 * MSH).generate_mature_spots(0.02, 0.8 * u.R_sun)]
    if what == 'many':
        n = choice('many', [70, 130, 260])
        kind = choice('of', ['spots', 'faculae', 'coords', 'fac coords', 'widths', 'temperatures', 'flare coords', 'peaks'])
        if kind == 'spots':
            out = spot_gen(5, g=g).generate_spots(n)
            return len(out), [_show_spot(s) for s in out[-2:]]
        if kind == 'faculae':
            out = fac_gen(5, g=g).generate_faculae(n)
            return len(out), [_show_fac(s) for s in out[-2:]]
        if kind == 'coords':
            return spot_gen(5, g=g, distribution=choice('dist', ['iso', 'solar'])).get_coordinates(n)
        if kind == 'fac coords':
            return fac_gen(5, g=g).get_coords(n)
        f = flare_gen(g)
        return {'widths': f.gen_fwhm, 'temperatures': f.gen_teffs, 'flare coords': f.gen_coords, 'peaks': f.get_peaks}[kind](n)
    if what == 'faculae':
        return [_show_fac(s) for s in fac_gen(9, g=g).generate_faculae(2)]
    if what == 'fac births':
        return [_show_fac(s) for s in fac_gen(9, g=g).birth_faculae(1 * u.hr, 0.8 * u.R_sun)]
    if what == 'coords':
        return spot_gen(9, g=g, distribution=choice('dist', ['iso', 'solar'])).get_coordinates(3)
    if what == 'fac coords':
        return fac_gen(9, g=g).get_coords(3)
    fg = flare_gen(g)
    if what == 'peaks':
        return fg.get_peaks(4)
    if what == 'widths':
        return fg.gen_fwhm(3)
    if what == 'temperatures':
        return fg.gen_teffs(3)
    if what == 'flare coords':
        return fg.gen_coords(3)
    return [_show_flare(f) for f in fg.generate_flare_series(2 * u.day)]


def generators():
    _generators(choice('what', WHAT))


def many():
    """large numbers of features"""
    _generators('many')


def _generators(what):
    clear_log()
    a = _run(what, rng('A'))
    _sources('generating %s' % what, 'A')
    # the same generator state again, after other activity elsewhere
    _run(choice('noise', WHAT), rng('noise'))
    b = _run(what, rng('A'))
    eq('the same generator state gives the same %s' % what, b, a)


def star_defaults():
    """a star hands its generator to its default sub-models"""
    star = empty_star(9, g=rng('S'))
    for name, g in (('spot', star.spot_generator.rng), ('facula', star.fac_generator.rng), ('flare', star.flare_generator.rng)):
        clear_log()
        g.random(3)
        _sources('the default %s generator' % name, 'S')
    clear_log()
    counts([choice('n', [0, 2])])
    star.birth_spots(1 * u.day)
    star.birth_faculae(1 * u.day)
    _sources('a star with default sub-models', 'S')
    clear_log()
    counts([0])
    star.get_flares_over_observation(1 * u.day)
    star.generate_mature_spots(0.0)
    star.age(1 * u.hr)
    _sources('a star with default sub-models and flares', 'S')
    a = vsm.SpotGenerator.off(grid_params=9, rng=rng('O'))
    b = vsm.FaculaGenerator.off(grid_params=9, rng=rng('O'))
    c = vsm.FlareGenerator.off(rng=rng('O'))
    counts([1])
    clear_log()
    a.generate_spots(1)
    b.generate_faculae(1)
    c.gen_coords(2)
    _sources('a disabled generator', 'O')


def star_forward():
    """the generators given to a star keep their own random generator"""
    counts([choice('n', [2, 1, 0])])
    star = empty_star(9, g=rng('S'), spot_generator=spot_gen(9, g=rng('A')), fac_generator=fac_gen(9, g=rng('B')),
                      flare_generator=flare_gen(rng('C')))
    clear_log()
    star.birth_spots(1 * u.day)
    _sources('birth of spots on a star', 'A')
    clear_log()
    star.birth_faculae(1 * u.day)
    _sources('birth of faculae on a star', 'B')
    clear_log()
    star.get_flares_over_observation(2 * u.day)
    _sources('flares of a star', 'C')
    clear_log()
    star.age(1 * u.hr)
    star.calc_coverage({'lat': 0 * u.deg, 'lon': 0 * u.deg})
    eq('aging and observing draw nothing', len(draws()), 0)
    check('aging and observing use no ambient source', len(ambients()) == 0)


def granulation():
    seed = choice('seed', [1, 0, 7, 42, 12345])
    p = (var('mean', 0.05, 0.5), var('amp', 0.001, 0.02), var('period', 1, 9) * u.hr, 300 * u.K)
    time = np.array([0.0, 1.0, 5.0]) * u.hr
    clear_log()
    a = vsm.Granulation(*p, seed=seed)
    x = a.get_coverage(time)
    _sources('granulation', 'none')
    vsm.Granulation(0.3, 0.02, 2 * u.hr, 100 * u.K, seed=99).get_coverage(time)
    y = vsm.Granulation(*p, seed=seed).get_coverage(time)
    z = a.get_coverage(time)
    eq('the same seed and parameters give the same granulation', y, x)
    eq('asking twice gives the same granulation', z, x)
    star = empty_star(9, g=rng('S'), granulation=a)
    clear_log()
    eq('the star reports its granulation', star.get_granulation_coverage(time), x)
    _sources('granulation of a star', 'S')
    for r in gps():
        eq('granulation is sampled with the seed given or that of another model', r['key'] == seed or r['key'] == 99, True)


def unequal_seed():
    """the seed reaches the sampler"""
    s1, s2 = choice('s1', [1, 5]), choice('s2', [2, 6])
    time = np.array([0.0, 1.0]) * u.hr
    a = vsm.Granulation(0.2, 0.01, 5 * u.hr, 300 * u.K, seed=s1)
    a.get_coverage(time)
    b = vsm.Granulation(0.2, 0.01, 5 * u.hr, 300 * u.K, seed=s2)
    b.get_coverage(time)
    r = gps()
    check('different seeds are sampled with different keys', r[0]['key'] != r[len(r) - 1]['key'])
