"""C08: observing never changes the model."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, check, snap, unchanged, rng, counts, draws, clear_log, fail, passed
from scen.common import *
from scen.c07 import spot_gen, fac_gen
from vspec_vsm.helpers import get_angle_between, proj_ortho, calc_circ_fraction_inside_unit_circle, round_teff, clip_teff
from vspec_vsm import xoflares

CELLS = {'star_queries': (60, 300), 'feature_queries': (30, 150), 'generator_queries': (24, 120), 'grid_queries': (24, 120),
         'helper_queries': (16, 80), 'flare_queries': (24, 120), 'granulation_queries': (12, 60)}
WIDE = []


def _flare(i):
    return vsm.StellarFlare(fwhm=var('w%d' % i, 0.2, 2, ext=(1e-3, 300)) * u.hr, energy=var('e%d' % i, 1, 9, ext=(1e-6, 1e6)) * 1e32 * u.erg,
                            lat=var('fla%d' % i, -80, 80) * u.deg, lon=var('flo%d' % i, 0, 360) * u.deg,
                            Teff=(9000 + i) * u.K, tpeak=var('tp%d' % i, 8, 14, ext=(-100, 200)) * u.hr)


def full_star(gp):
    g = rng('user')
    counts([2])
    has = choice('contents', ['all', 'all', 'all', 'no spots', 'no faculae', 'nothing'])
    star = star_with(gp, [spot('s', grid=gp, amax=2e6 * MSH, acur=8e5 * MSH), spot('t', grid=gp)] if has in ('all', 'no faculae') else [],
                     [facula('f', grid=gp, rmax=8e5 * u.km, rinit=var('f.rinit', 3e5, 7e5) * u.km), facula('h', grid=gp)] if has in ('all', 'no spots') else [],
                     g=g, u1=var('u1', 0.05, 0.6), u2=var('u2', 0.02, 0.3),
                     spot_generator=spot_gen(gp, g=g), fac_generator=fac_gen(gp, g=g),
                     flare_generator=flare_gen(g),
                     granulation=vsm.Granulation(0.2, 0.01, 5 * u.hr, 300 * u.K, seed=3))
    star.flares = vsm.FlareCollection([_flare(0), _flare(1)])
    return star


def flare_gen(g=None, **kw):
    p = dict(dist_teff_mean=9000 * u.K, dist_teff_sigma=500 * u.K, dist_fwhm_mean=3 * u.hr, dist_fwhm_logsigma=0.3,
             alpha=choice('alpha', [-0.829, -0.7, -1.1]), beta=var('beta', 20, 28), min_energy=var('emin', 1, 9) * 1e32 * u.erg,
             cluster_size=2, rng=g if g is not None else rng('user'))
    p.update(kw)
    return vsm.FlareGenerator(**p)


def _judge(q, f, *state, other=None):
    clear_log()
    before = snap(*state)
    a = f()
    unchanged('asking for the %s leaves the model and the arguments alone' % q, before)
    if len(draws()):
        fail('asking for the %s consumes no random numbers' % q, draws()[0]['site'])
    else:
        passed('asking for the %s consumes no random numbers' % q)
    keep = snap(a)
    b = f()
    eq('asking for the %s twice gives the same answer' % q, b, a)
    unchanged('asking for the %s again leaves the first answer alone' % q, keep)
    if other is not None:
        other()
        unchanged('asking other questions leaves the %s already given alone' % q, keep)


STAR_Q = ['map', 'get_mu', 'ld_mask', 'projection', 'ld_plot', 'jacobian', 'faculae_map', 'pl_frac', 'transit_mask',
          'coverage', 'average_teff', 'granulation', 'flare_int', 'transit_coverage', 'spot_coverage']


def star_queries():
    gp = choice('grid', [9, (4, 5), 12])
    star = full_star(gp)
    la0, lo0 = lat('lat0', -80, 80, (0.0,)), lon('lon0', -360, 720)
    q = choice('query', STAR_Q)
    if choice('neg', [False, True]):
        for s in star.spots.spots[:1]:
            s.coords['lon'] = -var('neglon', 10, 350) * u.deg
        for f in star.faculae.faculae[:1]:
            f.lon = -var('negflon', 10, 350) * u.deg
    if choice('dead', [False, False, True]):
        # a spot without area that has not been cleaned away yet, and a growing one without area
        star.add_spot([spot('d', grid=gp, acur=0 * MSH, growing=False), spot('e', grid=gp, acur=0 * MSH)])
        star.add_fac(facula('d', grid=gp, rmax=8e5 * u.km, rinit=var('d.rinit', 1, 1e5) * u.km, growing=False))
    obs = {'lat': la0, 'lon': lo0}
    orb, rp = 5 * star.radius, var('rp', 0.3, 0.8) * star.radius
    ph, inc = (180 + var('dph', -8, 8)) * u.deg, 90 * u.deg
    time = np.array([0.0, 1.0, 5.0]) * u.hr
    t0, t1 = var('t0', 7, 9) * u.hr, var('t1', 11, 13) * u.hr
    args = [star, obs, la0, lo0, orb, rp, ph, inc, time, t0, t1]
    def other():
        """the same kind of question, asked otherwise"""
        la2, lo2 = -0.5 * la0, lo0 + 77 * u.deg
        if q in ('get_mu', 'ld_mask', 'projection', 'ld_plot'):
            m2 = star.get_mu(la2, lo2)
            star.ld_mask(m2)
            star.area_projection_coefficient(m2)
            star.ld_mask_for_plotting(m2)
        elif q in ('map', 'faculae_map'):
            star.add_faculae_to_map(la2, lo2)
            star.spots.map_pixels(star.radius, star.teff + 100 * u.K)
        elif q == 'transit_mask':
            star.get_transit_mask(la2, lo2, 1.1 * orb, 0.9 * rp, ph + 2 * u.deg, inc)
        elif q == 'granulation':
            star.get_granulation_coverage(time + 3 * u.hr)
        elif q == 'flare_int':
            star.get_flare_int_over_timeperiod(t0 + 1 * u.hr, t1 + 2 * u.hr, {'lat': la2, 'lon': lo2})
        else:
            star.calc_coverage({'lat': la2, 'lon': lo2}, 0.3, orb, rp, ph + 2 * u.deg, inc)

    if q == 'map':
        _judge(q, lambda: star.map, *args, other=other)
    elif q == 'get_mu':
        _judge(q, lambda: star.get_mu(la0, lo0), *args, other=other)
    elif q in ('ld_mask', 'projection', 'ld_plot'):
        mu = star.get_mu(la0, lo0)
        f = star.ld_mask if q == 'ld_mask' else star.area_projection_coefficient if q == 'projection' else star.ld_mask_for_plotting
        _judge(q, lambda: f(mu), mu, *args, other=other)
    elif q == 'jacobian':
        _judge(q, lambda: star.get_jacobian(), *args, other=other)
    elif q == 'faculae_map':
        _judge(q, lambda: star.add_faculae_to_map(la0, lo0), *args, other=other)
    elif q == 'pl_frac':
        _judge(q, lambda: star.get_pl_frac(ph, orb, rp, inc), *args)
    elif q == 'transit_mask':
        _judge(q, lambda: star.get_transit_mask(la0, lo0, orb, rp, ph, inc), *args, other=other)
    elif q == 'coverage':
        g = var('gran', 0, 1)
        _judge(q, lambda: star.calc_coverage(obs, granulation_fraction=g), *args, other=other)
    elif q == 'transit_coverage':
        _judge(q, lambda: star.calc_coverage(obs, orbit_radius=orb, planet_radius=rp, phase=ph, inclination=inc), *args, other=other)
    elif q == 'average_teff':
        _judge(q, lambda: star.average_teff(obs), *args)
    elif q == 'granulation':
        _judge(q, lambda: star.get_granulation_coverage(time), *args, other=other)
    elif q == 'flare_int':
        _judge(q, lambda: star.get_flare_int_over_timeperiod(t0, t1, obs), *args, other=other)
    else:
        _judge(q, lambda: star.spots.get_coverage(star.radius), *args)


def feature_queries():
    gp = choice('grid', [9, (4, 5), 12])
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    s, t = spot('s', grid=gp, growing=choice('gs', [True, False]), lo=lon('s.lon', -360, 720)), spot('t', grid=gp)
    f = facula('f', grid=gp, growing=choice('gf', [True, False]), lo=lon('f.lon', -360, 720), minrad=choice('mr', [2e4, 9e5]) * u.km)
    if choice('dead', [False, False, True]):
        t = spot('t', grid=gp, acur=0 * MSH, growing=False)
    sc, fc = vsm.SpotCollection(s, t, grid_params=gp), vsm.FaculaCollection(f, facula('h', grid=gp), grid_params=gp)
    obs = {'lat': 10 * u.deg, 'lon': 30 * u.deg}
    ang = var('ang', 0, 89) * u.deg
    pix = sc.map_pixels(rs, 3300 * u.K)
    args = [sc, fc, s, f, rs, obs, ang, pix]
    q = choice('query', ['spot radius', 'spot angular radius', 'spot mask', 'spot surface fraction', 'spot text', 'floor dteff',
                         'wall dteff', 'effective area', 'fractional area', 'facula angular radius', 'facula mask',
                         'spot map', 'spot coverage', 'facula int map', 'spot with static rates'])
    fs = {'spot radius': lambda: s.radius, 'spot angular radius': lambda: s.angular_radius(rs),
          'spot mask': lambda: s.map_pixels(rs), 'spot surface fraction': lambda: s.surface_fraction(obs, rs, 41),
          'spot text': lambda: str(s), 'floor dteff': lambda: f.floor_dteff, 'wall dteff': lambda: f.wall_dteff,
          'effective area': lambda: f.effective_area(ang), 'fractional area': lambda: f.fractional_effective_area(ang),
          'facula angular radius': lambda: f.angular_radius(rs), 'facula mask': lambda: f.map_pixels(rs),
          'spot map': lambda: sc.map_pixels(rs, 3300 * u.K), 'spot coverage': lambda: sc.get_coverage(rs),
          'facula int map': lambda: fc.map_pixels(pix, rs, 3300 * u.K), 'spot with static rates': lambda: s.growth_rate}
    _judge(q, fs[q], *args)


def generator_queries():
    g = rng('user')
    gp = choice('grid', [9, (4, 5)])
    static = choice('static', [False, False, True])
    sg = spot_gen(gp, g=g) if not static else spot_gen(gp, g=g, decay_rate=0 * MSH / u.day)
    fg, flg = fac_gen(gp, g=g), flare_gen(g)
    rs, t = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun, var('t', 0.1, 9, ext=(0.0001, 10000)) * u.day
    e = np.array([1.0, 2.0, 5.0]) * var('en', 9, 90, ext=(9, 1e+08)) * 1e32 * u.erg
    x = np.array([0.7, 0.0, 0.3])
    q = choice('query', ['is_static', 'mean_lifetime', 'mean_area', 'n_spots', 'fac mean_area', 'n_faculae', 'frequency',
                         'nexp', 'ntotal', 'pdf', 'cdf', 'quantile'])
    fs = {'is_static': lambda: sg.is_static, 'mean_lifetime': lambda: sg.mean_lifetime, 'mean_area': lambda: sg.mean_area,
          'n_spots': lambda: sg.get_n_spots_to_birth(t, rs), 'fac mean_area': lambda: fg.mean_area,
          'n_faculae': lambda: fg.get_n_faculae_expected(t, rs), 'frequency': lambda: flg.frequency_greater_than(e),
          'nexp': lambda: flg.get_nexp_greater_than(e, t), 'ntotal': lambda: flg.get_ntotal(t), 'pdf': lambda: flg.pdf(e),
          'cdf': lambda: flg.cdf(e), 'quantile': lambda: flg.quantile_func(x)}
    _judge(q, fs[q], sg, fg, flg, rs, t, e, x)


def grid_queries():
    gp = choice('grid', [9, (4, 5), 12, (5, 6)])
    g = CoordinateGrid.new(gp)
    la, lo = g.grid()
    n = la.size
    data = np.reshape(np.arange(n) * var('scale', 0.5, 3) + 2900, la.shape) * choice('unit', [1 * u.K, 1 * u.dimensionless_unscaled])
    if choice('holes', [False, False, True]):
        data = np.where(np.reshape(np.arange(n), la.shape) == choice('hole', [0, 3, 8]), np.nan, data.value) * data.unit
    la0, lo0 = viewpoint()
    nlat, nlon = (gp if isinstance(gp, tuple) else (4, 5))
    q = choice('query', ['grid', 'mu', 'area', 'zeros', 'display', 'equality'])
    fs = {'grid': lambda: g.grid(), 'mu': lambda: g.cos_angle_from_disk_center(la0, lo0), 'area': lambda: g.area,
          'zeros': lambda: g.zeros(), 'display': lambda: g.display_grid(nlat, nlon, data),
          'equality': lambda: g == CoordinateGrid.new(gp)}
    _judge(q, fs[q], g, data, la0, lo0, la, lo)


def helper_queries():
    la, lo = CoordinateGrid.new(choice('grid', [9, (4, 5)])).grid()
    la0, lo0 = lat('lat0', -90, 90, (0.0, 90.0, -90.0)), lon('lon0')
    t = var('teff', 2000, 4200) * u.K
    x, y, r = var('x', -1.5, 1.5), var('y', -1, 1), var('r', 0.05, 1)
    q = choice('query', ['angle', 'projection', 'overlap', 'round', 'clip'])
    fs = {'angle': lambda: get_angle_between(la0, lo0, 10 * u.deg, 20 * u.deg), 'projection': lambda: proj_ortho(la0, lo0, la, lo),
          'overlap': lambda: calc_circ_fraction_inside_unit_circle(x, y, r), 'round': lambda: round_teff(t),
          'clip': lambda: clip_teff(t)}
    _judge(q, fs[q], la, lo, la0, lo0, t)


def flare_queries():
    fl = [_flare(0), _flare(1), _flare(2)]
    col = vsm.FlareCollection(fl)
    t0, t1 = var('t0', 6, 9) * u.hr, var('t1', 10, 13) * u.hr
    obs = {'lat': 10 * u.deg, 'lon': var('olon', -360, 720) * u.deg}
    tt = np.linspace(t0, t1, 7)
    back = choice('order', ['up', 'up', 'down', 'mixed'])
    if back == 'down':
        tt = np.linspace(t1, t0, 7)
    elif back == 'mixed':
        tt = t0 + (t1 - t0) * np.array([0.3, 0.9, 0.0, 0.7, 0.2, 1.0, 0.5])
    td = tt.to_value(u.day)
    pk, fw, am = np.array([0.4, var('pk', 0.3, 0.6, ext=(-100, 100))]), np.array([0.02, var('fw', 0.01, 0.06, ext=(1e-9, 100))]), np.array([1.0, var('am', 0.5, 3, (0.0,), ext=(-1, 1e9))])
    q = choice('query', ['peak area', 'area curve', 'time area', 'mask', 'selection', 'visible', 'integral', 'profile',
                         'light curve', 'profile integral', 'binned light curve'])
    fs = {'peak area': lambda: fl[0].calc_peak_area(), 'area curve': lambda: fl[0].areacurve(tt),
          'time area': lambda: fl[0].get_timearea(tt), 'mask': lambda: col.mask(t0, t1),
          'selection': lambda: col.get_flares_in_timeperiod(t0, t1),
          'visible': lambda: col.get_visible_flares_in_timeperiod(t0, t1, obs),
          'integral': lambda: col.get_flare_integral_in_timeperiod(t0, t1, obs),
          'profile': lambda: xoflares.multiflaremodelnp(td, pk, fw, am),
          'light curve': lambda: xoflares.get_light_curvenp(td, pk, fw, am),
          'profile integral': lambda: xoflares._flareintegralnp(fl[0].fwhm, 1.0),
          'binned light curve': lambda: xoflares.get_light_curvenp(td, pk, fw, am, texp=0.01)}
    _judge(q, fs[q], col, fl, t0, t1, obs, tt, td, pk, fw, am)


def granulation_queries():
    gr = vsm.Granulation(var('mean', 0.05, 0.5), var('amp', 0.001, 0.02), var('period', 1, 9) * u.hr, 300 * u.K, seed=5)
    time = choice('time', [np.array([0.0, 1.0, 5.0]), np.array([5.0, 1.0, 2.0]), np.array([3.0, 3.0, -1.0])]) * choice('unit', [1 * u.hr, 1 * u.day])
    _judge('granulation coverage', lambda: gr.get_coverage(time), gr, time)
