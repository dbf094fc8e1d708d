"""C19: birth rates keep the requested coverage."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, counts, draws, clear_log, rng, finite
from scen.common import *
from scen.c07 import spot_gen, fac_gen

CELLS = {'spots': (50, 260), 'static': (20, 100), 'averages': (50, 260), 'linear': (24, 120), 'faculae': (40, 200), 'drawn': (30, 160), 'star': (24, 120),
         'zero': (24, 120)}
WIDE = ['faculae', 'spots', 'averages']


def _sg(g=None, **kw):
    amean = 10 ** var('amean', 2, 5, ext=(-2, 8)) * MSH
    p = dict(dist_area_mean=amean, init_area=amean * 10 ** var('ini', -3, -0.1, ext=(-8, -0.001)), growth_rate=10 ** var('gr', -1.5, 1, ext=(-4, 3)) / u.day,
             decay_rate=amean * 10 ** var('dr', -4, 0, ext=(-8, 4)) / u.day, coverage=var('cov', 0.001, 0.9, ext=(1e-09, 1)), gp=9)
    p.update(kw)
    return spot_gen(g=g, **p)


def _life(s):
    return np.log((s.dist_area_mean / s.init_area).to_value(u.dimensionless_unscaled)) / s.growth_rate + s.dist_area_mean / s.decay_rate


def _mean(s):
    return ((s.dist_area_mean - s.init_area) / s.growth_rate + s.dist_area_mean**2 / (2 * s.decay_rate)) / _life(s)


def spots():
    s = _sg()
    t, rs = 10 ** var('t', -2, 2, ext=(-8, 6)) * u.day, var('rstar', 0.1, 2, ext=(0.001, 2000)) * u.R_sun
    n = s.get_n_spots_to_birth(t, rs)
    want = (s.coverage * 4 * np.pi * rs**2 / _mean(s) * t / _life(s)).to_value(u.dimensionless_unscaled)
    eq('the expected number of spots keeps the coverage', n, want, tol=1e-6)
    eq('the expected number uses the reported averages', n,
       (s.coverage * 4 * np.pi * rs**2 / s.mean_area * t / s.mean_lifetime).to_value(u.dimensionless_unscaled), tol=1e-6)
    le('the expected number is not negative', 0, n, atol=0)
    finite('the expected number is defined', n)


def static():
    s = _sg(decay_rate=0 * MSH / u.day, growth_rate=choice('g', [0.0, 0.52]) / u.day)
    t, rs = 10 ** var('t', -2, 2, ext=(-8, 6)) * u.day, var('rstar', 0.1, 2, ext=(0.001, 2000)) * u.R_sun
    check('no decay means static', s.is_static)
    eq('static spots are not born', s.get_n_spots_to_birth(t, rs), 0)
    eq('the mean area of static spots is the typical area', s.mean_area, s.dist_area_mean)
    check('static spots live forever', s.mean_lifetime == np.inf * u.day)
    d = _sg()
    check('a decay rate means not static', not d.is_static)


def averages():
    s = _sg()
    eq('the mean lifetime is that of growth and decay', s.mean_lifetime, _life(s), tol=1e-6)
    eq('the mean area is the time average of growth and decay', s.mean_area, _mean(s), tol=1e-6)
    le('the mean area does not exceed the maximum', s.mean_area, s.dist_area_mean)
    le('the mean area is not negative', 0 * MSH, s.mean_area)


def linear():
    t, rs = 10 ** var('t', -2, 2, ext=(-8, 6)) * u.day, var('rstar', 0.1, 2, ext=(0.001, 2000)) * u.R_sun
    k = 10 ** var('k', -1, 1, ext=(-5, 5))
    which = choice('which', ['spot', 'facula'])
    if which == 'spot':
        a, b = _sg(coverage=0.05), _sg(coverage=0.05 * k)
        f, h = a.get_n_spots_to_birth, b.get_n_spots_to_birth
    else:
        a, b = fac_gen(9, coverage=0.05), fac_gen(9, coverage=0.05 * k)
        f, h = a.get_n_faculae_expected, b.get_n_faculae_expected
    eq('linear in coverage', h(t, rs), k * f(t, rs), tol=1e-7)
    eq('linear in time', f(t * k, rs), k * f(t, rs), tol=1e-7)
    eq('linear in stellar surface', f(t, rs * k), k**2 * f(t, rs), tol=1e-7)


def faculae():
    f = fac_gen(9, coverage=var('cov', 0.001, 0.9, ext=(1e-09, 1)), dist_r_peak=10 ** var('rp', 2, 5.5, ext=(-1, 8)) * u.km, dist_life_peak=10 ** var('lf', 0, 2, ext=(-4, 6)) * u.hr)
    t, rs = 10 ** var('t', -2, 2, ext=(-8, 6)) * u.day, var('rstar', 0.1, 2, ext=(0.001, 2000)) * u.R_sun
    mean = 0.5 * np.pi * (1 - np.exp(-2)) * f.dist_r_peak**2
    eq('the mean area of faculae is the documented one', f.mean_area, mean, tol=1e-6)
    n = f.get_n_faculae_expected(t, rs)
    eq('the expected number of faculae keeps the coverage', n,
       (f.coverage * 4 * np.pi * rs**2 / mean * t / (2 * f.dist_life_peak)).to_value(u.dimensionless_unscaled), tol=1e-6)
    le('the expected number is not negative', 0, n, atol=0)
    finite('the expected number is defined', n)


def drawn():
    g = rng('user')
    n = choice('n', [0, 1, 2, 3])
    counts([n])
    t, rs = 10 ** var('t', -1, 1, ext=(-8, 6)) * u.day, var('rstar', 0.1, 2, ext=(0.001, 2000)) * u.R_sun
    which = choice('which', ['spot', 'facula'])
    clear_log()
    if which == 'spot':
        s = _sg(g)
        out = s.birth_spots(t, rs)
        lam = s.get_n_spots_to_birth(t, rs)
    else:
        s = fac_gen(9, g=g, coverage=var('cov', 0.001, 0.9, ext=(1e-09, 1)))
        out = s.birth_faculae(t, rs)
        lam = s.get_n_faculae_expected(t, rs)
    d = [x for x in draws() if x['kind'] == 'poisson']
    eq('the number is drawn once', len(d), 1)
    if len(d) == 1:
        eq('the number drawn has exactly this expectation', d[0]['params'][0], lam, tol=1e-9)
    eq('as many features as drawn', len(out), n)


def star():
    g = rng('user')
    n, m = choice('n', [0, 1, 2]), choice('m', [0, 1, 2])
    star = empty_star(9, g=g, spot_generator=_sg(g), fac_generator=fac_gen(9, g=g), teff=3300 * u.K)
    t = 10 ** var('t', -1, 1, ext=(-8, 6)) * u.day
    clear_log()
    counts([n])
    star.birth_spots(t)
    d = [x for x in draws() if x['kind'] == 'poisson']
    if len(d) == 1:
        eq('a star draws spots with the expectation of its own radius and generator', d[0]['params'][0],
           star.spot_generator.get_n_spots_to_birth(t, star.radius), tol=1e-9)
    eq('all born spots are added', len(star.spots.spots), n)
    clear_log()
    counts([m])
    star.birth_faculae(t)
    d = [x for x in draws() if x['kind'] == 'poisson']
    if len(d) == 1:
        eq('a star draws faculae with the expectation of its own radius and generator', d[0]['params'][0],
           star.fac_generator.get_n_faculae_expected(t, star.radius), tol=1e-9)
    eq('all born faculae are added', len(star.faculae.faculae), m)
    eq('spots are not lost', len(star.spots.spots), n)


def zero():
    t, rs = 10 ** var('t', -2, 2, ext=(-8, 6)) * u.day, var('rstar', 0.1, 2, ext=(0.001, 2000)) * u.R_sun
    g = rng('user')
    for s in (_sg(g, coverage=choice('z', [0, 0.0])), vsm.SpotGenerator.off(grid_params=9, rng=g)):
        n = s.get_n_spots_to_birth(t, rs)
        eq('no coverage, no spots', n, 0)
        finite('the expected number is defined', n)
    for f in (fac_gen(9, g=g, coverage=choice('z', [0, 0.0])), vsm.FaculaGenerator.off(grid_params=9, rng=g)):
        n = f.get_n_faculae_expected(t, rs)
        eq('no coverage, no faculae', n, 0)
        finite('the expected number is defined', n)
    s = _sg(g)
    eq('no time, no spots', s.get_n_spots_to_birth(0 * u.day, rs), 0)
    eq('no time, no faculae', fac_gen(9, g=g).get_n_faculae_expected(0 * u.hr, rs), 0)
