"""C25: disabled sub-models stay silent."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, rng, counts, draws, clear_log, finite, tails
from scen.common import *
from scen.c07 import spot_gen, fac_gen
from scen.c08 import flare_gen

CELLS = {'run': (50, 260), 'expected': (30, 160), 'flares': (30, 160), 'coverage': (30, 160), 'by_hand': (40, 200), 'one_disabled': (30, 160)}
WIDE = ['expected', 'coverage']


def _time(name='t'):
    return var(name, 0, 4000, (0.0, 1e6)) * u.day


def _star(gp, g, **kw):
    k = choice('how', ['default', 'off', 'none'])
    if k == 'default':
        return empty_star(gp, g=g, **kw)
    if k == 'none':
        return empty_star(gp, g=g, flare_generator=None, spot_generator=None, fac_generator=None, granulation=None, **kw)
    return empty_star(gp, g=g, flare_generator=vsm.FlareGenerator.off(rng=g), spot_generator=vsm.SpotGenerator.off(grid_params=choice('ggp', [gp, 7, (4, 5)]), rng=g),
                      fac_generator=vsm.FaculaGenerator.off(grid_params=choice('fgp', [gp, 7, (4, 5)]), rng=g), granulation=vsm.Granulation.off(seed=2), **kw)


def _silent(star, t):
    check('no spot appears on a star without a spot model', len(star.spots.spots) == 0, len(star.spots.spots))
    check('no facula appears on a star without a facula model', len(star.faculae.faculae) == 0, len(star.faculae.faculae))
    if star.flares is not None:
        check('no flare happens on a star without a flare model', len(star.flares.flares) == 0, len(star.flares.flares))
    eq('a star without granulation reports none', star.get_granulation_coverage(t), np.zeros(len(t)))


def run():
    gp = choice('grid', [9, (4, 5)])
    g = rng('user')
    star = _star(gp, g)
    ops = choice('ops', ['births', 'aging', 'flares', 'mature', 'mixed', 'mixed2'])
    t1, t2 = _time('t1'), _time('t2')
    if ops in ('births', 'mixed'):
        star.birth_spots(t1)
        star.birth_faculae(t1)
    if ops in ('aging', 'mixed', 'mixed2'):
        star.age(t2)
    if ops in ('flares', 'mixed', 'mixed2'):
        star.get_flares_over_observation(t1)
    if ops in ('mature', 'mixed2'):
        star.generate_mature_spots(0.0)
    if ops in ('mixed2', 'births'):
        star.birth_faculae(t2)
        star.birth_spots(t2)
        star.birth_spots(0 * u.s)
    _silent(star, np.array([0.0, 1.0, 5.0]) * u.hr)
    obs = {'lat': var('lat0', -90, 90) * u.deg, 'lon': var('lon0', 0, 360) * u.deg}
    tot, cov, fr = star.calc_coverage(obs)
    eq('the coverage is 1 at the temperature of the photosphere', tot[label(star.teff)], 1.0, tol=1e-6)
    eq('nothing else is covered', sum(tot.values()), 1.0, tol=1e-6)
    if star.flares is not None:
        check('no flare contributes', len(star.get_flare_int_over_timeperiod(0 * u.hr, 5 * u.hr, obs)) == 0)
        check('no flare is active', len(star.flares.get_flares_in_timeperiod(0 * u.hr, 1e5 * u.day)) == 0)


def expected():
    """the expected numbers behind the births are exactly zero"""
    g = rng('user')
    star = _star(choice('grid', [9, (4, 5)]), g)
    t = _time()
    eq('no spots are expected', star.spot_generator.get_n_spots_to_birth(t, star.radius), 0.0)
    eq('no faculae are expected', star.fac_generator.get_n_faculae_expected(t, star.radius), 0.0)
    if t.value > 0:
        eq('no flares are expected', star.flare_generator.get_ntotal(t), 0.0)


def flares():
    g = rng('user')
    gen = vsm.FlareGenerator.off(rng=g) if choice('r', [0, 1]) else vsm.FlareGenerator.off()
    t = _time()
    check('a disabled flare model generates no flares', len(gen.generate_flare_series(t)) == 0)
    star = empty_star(9, g=g, flare_generator=gen)
    star.get_flares_over_observation(t)
    check('a star without flares has an empty flare list', len(star.flares.flares) == 0)
    a, b = var('a', 0, 50) * u.hr, var('d', 1, 50, ext=(0.001, 1e+06)) * u.hr
    obs = {'lat': 0 * u.deg, 'lon': 10 * u.deg}
    check('an empty flare list is silent in every window', len(star.get_flare_int_over_timeperiod(a, a + b, obs)) == 0)
    check('an empty flare list selects nothing', len(star.flares.get_visible_flares_in_timeperiod(a, a + b, obs)) == 0)


def coverage():
    gp = choice('grid', [9, 12, (5, 6)])
    star = _star(gp, rng('user'), u1=var('u1', 0, 0.6), u2=var('u2', 0, 0.3))
    obs = {'lat': var('lat0', -90, 90) * u.deg, 'lon': var('lon0', 0, 360) * u.deg}
    t = np.array([0.0, 3.0]) * u.hr
    f = star.get_granulation_coverage(t)
    tot, cov, fr = star.calc_coverage(obs, granulation_fraction=choice('gf', [f[0], f[1], 0.0]))
    eq('the coverage is 1 at the temperature of the photosphere', tot[label(star.teff)], 1.0, tol=1e-6)
    eq('the whole planet is seen', fr, 1.0)
    for k, v in cov.items():
        eq('nothing is occulted', v, 0.0, atol=1e-12)


def by_hand():
    """features added by hand on a star without generators live normally"""
    gp = choice('grid', [9, (5, 6)])
    g = rng('user')
    star = _star(gp, g)
    grow = choice('grow', [True, False])
    acur, rate, dec, t = var('a', 1e5, 2e5), var('rate', 0.2, 1.0), var('dec', 1e3, 1e4), var('t', 0.1, 0.6)
    star.add_spot(spot('s', grid=choice('sgrid', [9, (5, 6)]), amax=9e5 * MSH, acur=acur * MSH, rate=rate / u.day, decay=dec * MSH / u.day, growing=grow))
    star.add_fac(facula('f', grid=choice('fgrid', [9, (5, 6)]), rmax=6e5 * u.km, rinit=(2e5 if grow else 5e5) * u.km, life=20 * u.hr, growing=grow))
    r0 = star.faculae.faculae[0].radius
    star.birth_spots(t * u.day)
    star.birth_faculae(t * u.day)
    star.age(t * u.day)
    check('the spot added by hand is the only one', len(star.spots.spots) == 1)
    s = star.spots.spots[0]
    if grow:
        le('a growing spot grows on a star without generators', acur * (1 + 1e-9), s.area_current.to_value(MSH))
    else:
        eq('a decaying spot decays on a star without generators', s.area_current.to_value(MSH), acur - dec * t, tol=1e-6)
    fs = star.faculae.faculae
    check('the facula added by hand is the only one', len(fs) == 1)
    if grow:
        le('a growing facula grows on a star without generators', r0.to_value(u.km) * (1 + 1e-9), fs[0].radius.to_value(u.km))
    else:
        le('a decaying facula shrinks on a star without generators', fs[0].radius.to_value(u.km), r0.to_value(u.km) * (1 - 1e-9))
    m = star.map
    lats, lons = star.gridmaker.grid()
    d = sep_spec(s.coords['lat'], s.coords['lon'], lats, lons)
    rad = s.angular_radius(star.radius)
    inside = d < rad - 1e-6 * u.rad
    check('the spot added by hand shows on the map', (m.value < star.teff.to_value(u.K) - 1) | ~inside)
    outside = d > rad + 1e-6 * u.rad
    check('the rest of the map is photosphere', (np.abs(m.value - star.teff.to_value(u.K)) < 1e-6) | ~outside)


def one_disabled():
    """one disabled sub-model does not touch the others"""
    gp = choice('grid', [9, (5, 6)])
    g = rng('user')
    which = choice('which', ['spots', 'faculae', 'flares'])
    kw = dict(spot_generator=spot_gen(gp, g=g, coverage=0.3), fac_generator=fac_gen(gp, g=g, coverage=0.2), flare_generator=flare_gen(g))
    off = {'spots': ('spot_generator', None), 'faculae': ('fac_generator', None), 'flares': ('flare_generator', None)}[which]
    kw[off[0]] = choice('how', [None, 'off'])
    if kw[off[0]] == 'off':
        kw[off[0]] = {'spots': vsm.SpotGenerator.off, 'faculae': vsm.FaculaGenerator.off, 'flares': vsm.FlareGenerator.off}[which](rng=g)
    star = empty_star(gp, g=g, **kw)
    counts([2])
    t = var('t', 1, 20, ext=(0.0001, 1e+06)) * u.day
    star.birth_spots(t)
    star.birth_faculae(t)
    star.get_flares_over_observation(t)
    n = {'spots': len(star.spots.spots), 'faculae': len(star.faculae.faculae), 'flares': len(star.flares.flares)}
    for k, v in n.items():
        if k == which:
            check('the disabled model stays silent beside the others (%s)' % k, v == 0, v)
        else:
            check('the other models still work (%s)' % k, v == 2, v)
