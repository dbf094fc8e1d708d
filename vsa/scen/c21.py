"""C21: answers do not depend on the units of the inputs."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, counts, rng, raises, same, tryraise, fail, passed
from scen.common import *
from scen.c07 import spot_gen, fac_gen
from scen.c08 import flare_gen

CELLS = {'aging': (40, 200), 'mapping': (30, 160), 'views': (60, 300), 'transit': (40, 200), 'generators': (50, 260), 'births': (30, 160),
         'flares': (50, 260), 'flare_laws': (40, 200), 'granulation': (24, 120), 'helpers': (30, 160), 'wrong_kind': (40, 160)}
WIDE = []

UNITS = {'angle': [u.rad, u.arcmin, u.deg], 'time': [u.s, u.day, u.hr, u.min], 'length': [u.m, u.R_sun, u.km, u.AU], 'energy': [u.J, u.erg],
         'area': [u.km**2, u.m**2, MSH, u.R_sun**2], 'rate': [1 / u.s, 1 / u.hr, 1 / u.day], 'arate': [u.km**2 / u.s, MSH / u.hr, MSH / u.day],
         'slope': [u.K / u.m, u.K / u.R_sun, u.K / u.km]}


def alt(on, name, kind, q):
    """the same quantity, in another unit of its kind when on"""
    return q.to(choice('unit.' + name, UNITS[kind])) if on else q


def _spot(on, name, **kw):
    p = dict(grid=9, la=alt(on, name + 'la', 'angle', var(name + '.lat', -80, 80) * u.deg), lo=alt(on, name + 'lo', 'angle', var(name + '.lon', 0, 360) * u.deg),
             amax=alt(on, name + 'am', 'area', var(name + '.amax', 4e5, 9e5) * MSH), acur=alt(on, name + 'ac', 'area', var(name + '.acur', 1e5, 3.5e5) * MSH),
             rate=alt(on, name + 'r', 'rate', var(name + '.rate', 0.2, 1.5) / u.day), decay=alt(on, name + 'd', 'arate', var(name + '.decay', 5e3, 8e4) * MSH / u.day))
    p.update(kw)
    return spot(name, **p)


def _fac(on, name, **kw):
    p = dict(grid=9, la=alt(on, name + 'la', 'angle', var(name + '.lat', -80, 80) * u.deg), lo=alt(on, name + 'lo', 'angle', var(name + '.lon', 0, 360) * u.deg),
             rmax=alt(on, name + 'rm', 'length', var(name + '.rmax', 4e5, 7e5) * u.km), rinit=alt(on, name + 'ri', 'length', var(name + '.rinit', 1e5, 3.5e5) * u.km),
             depth=alt(on, name + 'd', 'length', var(name + '.depth', 2e4, 1e5) * u.km), life=alt(on, name + 'l', 'time', var(name + '.life', 3, 20) * u.hr),
             minrad=alt(on, name + 'm', 'length', choice(name + '.minrad', [2e4, 2.5e5]) * u.km), wslope=alt(on, name + 'ws', 'slope', var(name + '.ws', 1e-5, 1e-4) * u.K / u.km),
             fslope=alt(on, name + 'fs', 'slope', var(name + '.fs', -1e-4, -1e-5) * u.K / u.km))
    p.update(kw)
    return facula(name, **p)


def _star(on, **kw):
    return star_with(9, [_spot(on, 's', growing=choice('sg', [True, False]))], [_fac(on, 'f', growing=choice('fg', [True, False]))], teff=3300 * u.K,
                     radius=alt(on, 'rs', 'length', var('rstar', 0.6, 1.2, ext=(0.6, 60)) * u.R_sun), **kw)


def _pair(f):
    return f(False), f(True)


def _same(what, f, tol=1e-7, atol=0.0):
    a, b = f(False), f(True)
    eq('%s does not depend on the units of the inputs' % what, b, a, tol=tol, atol=atol)


def aging():
    def run(on):
        star = _star(on)
        star.age(alt(on, 't', 'time', var('t', 1, 60, ext=(0.001, 3000)) * u.hr))
        star.age(alt(on, 't2', 'time', var('t2', 1, 20, ext=(0.001, 3000)) * u.hr))
        return ([(s.area_current, s.is_growing, s.radius) for s in star.spots.spots], [(f.radius, f.is_growing) for f in star.faculae.faculae])
    _same('the evolved state', run)


def mapping():
    def run(on):
        rs = alt(on, 'rs', 'length', var('rstar', 0.6, 1.2, ext=(0.6, 60)) * u.R_sun)
        s, f = _spot(on, 's'), _fac(on, 'f')
        ang = alt(on, 'ang', 'angle', var('ang', 0, 85) * u.deg)
        obs = {'lat': alt(on, 'ola', 'angle', var('ola', -60, 60) * u.deg), 'lon': alt(on, 'olo', 'angle', var('olo', 0, 360) * u.deg)}
        return {'spot radius': s.angular_radius(rs), 'spot mask': s.map_pixels(rs)[s.teff_penumbra], 'umbra mask': s.map_pixels(rs)[s.teff_umbra],
                'facula radius': f.angular_radius(rs), 'facula mask': f.map_pixels(rs), 'floor': f.floor_dteff, 'wall': f.wall_dteff,
                'areas': list(f.effective_area(ang).values()), 'fractions': list(f.fractional_effective_area(ang).values()),
                'surface fraction': s.surface_fraction(obs, rs, 31), 'spot coverage': vsm.SpotCollection(s, grid_params=9).get_coverage(rs)}
    a, b = run(False), run(True)
    for k in a:
        eq('the %s does not depend on the units of the inputs' % k, b[k], a[k], tol=1e-6, atol=1e-9)


def _obs(on):
    return alt(on, 'la0', 'angle', var('lat0', -80, 80) * u.deg), alt(on, 'lo0', 'angle', var('lon0', 0, 360) * u.deg)


def views():
    q = choice('q', ['mu', 'map', 'facmap', 'coverage', 'teff', 'display'])

    def run(on):
        star = _star(on, u1=0.3, u2=0.1)
        la, lo = _obs(on)
        if q == 'mu':
            return star.get_mu(la, lo)
        if q == 'map':
            return star.map
        if q == 'facmap':
            return star.add_faculae_to_map(la, lo)
        if q == 'coverage':
            return star.calc_coverage({'lat': la, 'lon': lo}, 0.3)[0]
        if q == 'teff':
            return star.average_teff({'lat': la, 'lon': lo})
        return star.gridmaker.display_grid(4, 5, star.add_faculae_to_map(la, lo))[2]
    _same('the %s' % q, run, tol=1e-6, atol=1e-6)


def transit():
    q = choice('q', ['mask', 'frac', 'coverage', 'eclipse'])

    def run(on):
        star = _star(on)
        la, lo = _obs(on)
        orb = alt(on, 'orb', 'length', var('orb', 3, 8, ext=(3, 3000)) * u.R_sun)
        rp = alt(on, 'rp', 'length', var('rp', 0.1, 0.4) * u.R_sun)
        ph = alt(on, 'ph', 'angle', (var('ph', -8, 8) + (360 if q == 'eclipse' else 180)) * u.deg)
        inc = alt(on, 'inc', 'angle', var('inc', 86, 90) * u.deg)
        if q in ('mask', 'eclipse'):
            return star.get_transit_mask(la, lo, orb, rp, ph, inc)
        if q == 'frac':
            return star.get_pl_frac(alt(on, 'ap', 'angle', var('ap', 0, 30) * u.deg), orb, rp, inc)
        return star.calc_coverage({'lat': la, 'lon': lo}, 0.2, orb, rp, ph, inc)[1]
    _same('the transit %s' % q, run, tol=1e-5, atol=1e-5)


def _sgen(on, g, **kw):
    p = dict(dist_area_mean=alt(on, 'amean', 'area', var('amean', 2e5, 8e5, ext=(200000, 1e+08)) * MSH), init_area=alt(on, 'ainit', 'area', var('ainit', 1e4, 1e5) * MSH),
             growth_rate=alt(on, 'grate', 'rate', var('grate', 0.2, 1.5, ext=(0.001, 50)) / u.day), decay_rate=alt(on, 'drate', 'arate', var('drate', 1e4, 5e4, ext=(1, 1e+07)) * MSH / u.day), coverage=0.2)
    p.update(kw)
    return spot_gen(9, g=g, **p)


def _fgen(on, g, **kw):
    p = dict(dist_r_peak=alt(on, 'rpeak', 'length', var('rpeak', 2e5, 5e5) * u.km), depth=alt(on, 'depth', 'length', 5e4 * u.km),
             dist_life_peak=alt(on, 'life', 'time', var('life', 5, 20, ext=(0.05, 2000)) * u.hr))
    p.update(kw)
    return fac_gen(9, g=g, **p)


def generators():
    q = choice('q', ['life', 'area', 'nspot', 'farea', 'nfac', 'static'])

    def run(on):
        g = rng('user')
        t, rs = alt(on, 't', 'time', var('t', 1, 90, ext=(0.001, 3000)) * u.hr), alt(on, 'rs', 'length', var('rstar', 0.6, 1.2, ext=(0.6, 60)) * u.R_sun)
        s, f = _sgen(on, g), _fgen(on, g)
        if q == 'life':
            return s.mean_lifetime
        if q == 'area':
            return s.mean_area
        if q == 'nspot':
            return s.get_n_spots_to_birth(t, rs)
        if q == 'farea':
            return f.mean_area
        if q == 'nfac':
            return f.get_n_faculae_expected(t, rs)
        z = _sgen(on, g, decay_rate=alt(on, 'zero', 'arate', 0 * MSH / u.day))
        return (z.is_static, z.mean_area, z.get_n_spots_to_birth(t, rs))
    _same('the %s of a generator' % q, run)


def births():
    q = choice('q', ['spots', 'faculae', 'mature'])

    def run(on):
        g = rng('user')
        t, rs = alt(on, 't', 'time', var('t', 1, 90, ext=(0.001, 3000)) * u.hr), alt(on, 'rs', 'length', var('rstar', 0.8, 1.2) * u.R_sun)
        counts([2])
        if q == 'spots':
            return [(s.area_max, s.area_current, s.coords['lat'], s.coords['lon'], s.growth_rate, s.decay_rate) for s in _sgen(on, g).birth_spots(t, rs)]
        if q == 'faculae':
            return [(f.r_max, f.radius, f.lat, f.lon, f.lifetime, f.depth) for f in _fgen(on, g).birth_faculae(t, rs)]
        out = _sgen(on, g, dist_area_mean=alt(on, 'amean', 'area', 9e5 * MSH), init_area=alt(on, 'ainit', 'area', 5e5 * MSH),
                    dist_area_logsigma=0.05).generate_mature_spots(0.25, rs)
        return [(s.area_max, s.area_current, s.is_growing) for s in out]
    _same('the %s generated' % q, run, tol=1e-6)


def _flare(on, i):
    return vsm.StellarFlare(fwhm=alt(on, 'w%d' % i, 'time', var('w%d' % i, 0.5, 2, ext=(0.01, 300)) * u.hr), energy=alt(on, 'e%d' % i, 'energy', var('e%d' % i, 1, 9, ext=(1e-06, 1e+06)) * 1e32 * u.erg),
                            lat=alt(on, 'fla%d' % i, 'angle', var('fla%d' % i, -80, 80) * u.deg), lon=alt(on, 'flo%d' % i, 'angle', var('flo%d' % i, 0, 360) * u.deg),
                            Teff=9000 * u.K, tpeak=alt(on, 'tp%d' % i, 'time', var('tp%d' % i, 3, 20, ext=(-200, 500)) * u.hr))


def flares():
    q = choice('q', ['peak area', 'curve', 'timearea', 'selection', 'visible', 'integral', 'index'])

    def run(on):
        fs = [_flare(on, 0), _flare(on, 1)]
        col = vsm.FlareCollection(fs)
        t0, t1 = alt(on, 't0', 'time', var('t0', 2, 9) * u.hr), alt(on, 't1', 'time', var('t1', 12, 18) * u.hr)
        time = alt(on, 'time', 'time', np.array([1.0, 3.0, 4.5, 7.0, 11.0, 15.0]) * u.hr)
        la, lo = _obs(on)
        if q == 'peak area':
            return fs[0].calc_peak_area()
        if q == 'curve':
            return fs[0].areacurve(time)
        if q == 'timearea':
            return fs[0].get_timearea(time)
        if q == 'selection':
            return [f.fwhm for f in col.get_flares_in_timeperiod(t0, t1)] + [col.mask(t0, t1)]
        if q == 'visible':
            return [f.fwhm for f in col.get_visible_flares_in_timeperiod(t0, t1, {'lat': la, 'lon': lo})]
        if q == 'integral':
            return col.get_flare_integral_in_timeperiod(t0, t1, {'lat': la, 'lon': lo})
        return (col.peaks, col.fwhms)
    _same('the %s of flares' % q, run, tol=1e-6, atol=1e-9)


def flare_laws():
    q = choice('q', ['rate', 'nexp', 'ntotal', 'pdf', 'cdf', 'quantile', 'widths', 'teffs', 'series'])

    def run(on):
        counts([2, 1, 1, 1])
        f = flare_gen(rng('user'), min_energy=alt(on, 'emin', 'energy', var('emin', 1, 9, ext=(1e-06, 1e+06)) * 1e32 * u.erg), dist_fwhm_mean=alt(on, 'w', 'time', 3 * u.hr))
        e, t = alt(on, 'e', 'energy', var('e', 10, 90) * 1e32 * u.erg), alt(on, 't', 'time', var('t', 1, 9, ext=(0.001, 3000)) * u.day)
        if q == 'rate':
            return f.frequency_greater_than(e)
        if q == 'nexp':
            return f.get_nexp_greater_than(e, t)
        if q == 'ntotal':
            return f.get_ntotal(t)
        if q == 'pdf':
            return f.pdf(e)
        if q == 'cdf':
            return f.cdf(e)
        if q == 'quantile':
            return f.quantile_func(np.array([0.0, 0.4]))
        if q == 'widths':
            return f.gen_fwhm(2)
        if q == 'teffs':
            return f.gen_teffs(2)
        return [(x.fwhm, x.energy, x.tpeak, x.lat, x.lon, x.Teff) for x in f.generate_flare_series(t)]
    _same('the %s of the flare law' % q, run, tol=1e-6)


def granulation():
    how = choice('how', ['model', 'star'])

    def run(on):
        g = vsm.Granulation(0.2, 0.01, alt(on, 'p', 'time', var('p', 2, 9, ext=(0.05, 2000)) * u.hr), 300 * u.K, seed=3)
        t = alt(on, 't', 'time', np.array([0.0, 1.5, 7.0]) * u.hr)
        c = g.get_coverage(t) if how == 'model' else empty_star(9, granulation=g).get_granulation_coverage(t)
        return (c, g.params)
    _same('granulation', run, tol=1e-9)


def helpers():
    from vspec_vsm.helpers import get_angle_between, proj_ortho
    q = choice('q', ['angle', 'ortho', 'cos'])

    def run(on):
        la, lo = _obs(on)
        lb, lc = alt(on, 'lb', 'angle', var('lb', -80, 80) * u.deg), alt(on, 'lc', 'angle', var('lc', 0, 360) * u.deg)
        if q == 'angle':
            return get_angle_between(la, lo, lb, lc)
        if q == 'cos':
            return CoordinateGrid.new(choice('g', [9, (4, 5)])).cos_angle_from_disk_center(la, lo)
        gl, gn = CoordinateGrid.new(9).grid()
        x, y = proj_ortho(la, lo, alt(on, 'gl', 'angle', gl), alt(on, 'gn', 'angle', gn))
        return (np.nan_to_num(x), np.nan_to_num(y))
    _same('the %s' % q, run, tol=1e-6, atol=2e-2 if q == 'ortho' else 1e-9)


WRONG = ['age', 'age spot', 'age facula', 'viewpoint', 'coverage view', 'orbit', 'phase', 'radius', 'births', 'fac births', 'flares', 'window',
         'curve', 'granulation', 'period', 'energy', 'angle', 'planet', 'inclination', 'number']


def wrong_kind():
    """quantities of the wrong kind are never silently accepted as numbers"""
    from vspec_vsm.helpers import get_angle_between, proj_ortho
    w = choice('w', WRONG)
    g = rng('user')
    star = star_with(9, [spot('s', grid=9)], [facula('f', grid=9)], g=g, spot_generator=spot_gen(9, g=g), fac_generator=fac_gen(9, g=g),
                     flare_generator=flare_gen(g), granulation=vsm.Granulation(0.2, 0.01, 5 * u.hr, 300 * u.K, seed=3))
    fl = vsm.StellarFlare(fwhm=1 * u.hr, energy=1e33 * u.erg, lat=0 * u.deg, lon=0 * u.deg, Teff=9000 * u.K, tpeak=5 * u.hr)
    bad_t, bad_a, bad_l = choice('bt', [3 * u.km, 3 * u.deg, 3 * u.K]), choice('ba', [3 * u.km, 3 * u.hr]), choice('bl', [3 * u.hr, 3 * u.K])
    counts([1])
    la = 10 * u.deg
    fs = {'age': lambda: star.age(bad_t), 'age spot': lambda: star.spots.spots[0].age(bad_t), 'age facula': lambda: star.faculae.faculae[0].age(bad_t),
          'viewpoint': lambda: star.get_mu(bad_a, la), 'coverage view': lambda: star.calc_coverage({'lat': la, 'lon': bad_a}),
          'orbit': lambda: star.get_transit_mask(la, la, bad_l, 1 * u.R_earth, 180 * u.deg, 90 * u.deg),
          'planet': lambda: star.get_transit_mask(la, la, 3 * u.AU, bad_l, 180 * u.deg, 90 * u.deg),
          'phase': lambda: star.get_transit_mask(la, la, 3 * u.AU, 1 * u.R_earth, bad_a, 90 * u.deg),
          'inclination': lambda: star.get_transit_mask(la, la, 3 * u.AU, 1 * u.R_earth, 180 * u.deg, bad_a),
          'radius': lambda: star.spots.spots[0].map_pixels(bad_l), 'births': lambda: star.birth_spots(bad_t), 'fac births': lambda: star.birth_faculae(bad_t),
          'flares': lambda: star.get_flares_over_observation(bad_t), 'window': lambda: vsm.FlareCollection([fl]).get_flares_in_timeperiod(0 * u.hr, bad_t),
          'curve': lambda: fl.areacurve(np.array([1.0, 2.0]) * bad_t.unit), 'granulation': lambda: star.get_granulation_coverage(np.array([1.0, 2.0]) * bad_t.unit),
          'period': lambda: vsm.Granulation(0.2, 0.01, bad_t, 300 * u.K, seed=3), 'energy': lambda: star.flare_generator.frequency_greater_than(bad_t),
          'angle': lambda: get_angle_between(la, la, bad_a, la), 'number': lambda: proj_ortho(la, la, np.array([1.0]), np.array([1.0]) * u.deg)}
    raised, r = tryraise(fs[w])
    if raised:
        passed('a quantity of the wrong kind is rejected (%s)' % w)
    else:
        fail('a quantity of the wrong kind is rejected (%s)' % w, 'accepted')
