"""C09: answers reflect the current state, never a stale one."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, check, rng, counts
from scen.common import *
from scen.c07 import spot_gen, fac_gen
from scen.c08 import flare_gen, _flare

CELLS = {'history': (60, 400), 'feature': (40, 200), 'flares': (20, 100), 'generator': (20, 100), 'grid': (16, 60), 'units': (12, 60)}
WIDE = []
OPS = ['age', 'add_spot', 'add_fac', 'birth_spots', 'birth_faculae', 'teff', 'radius', 'limb', 'spot_area', 'fac_radius',
       'spot_teff', 'drop', 'granulation', 'query', 'spot_ratio', 'mature', 'regrid']


def clone_spot(s, gp):
    return vsm.StarSpot(lat=s.coords['lat'], lon=s.coords['lon'], area_max=s.area_max, area_current=s.area_current,
                        teff_umbra=s.teff_umbra, teff_penumbra=s.teff_penumbra,
                        area_over_umbra_area=s.total_area_over_umbra_area, is_growing=s.is_growing,
                        growth_rate=s.growth_rate, decay_rate=s.decay_rate, grid_params=gp)


def clone_fac(f, gp):
    return vsm.Facula(lat=f.lat, lon=f.lon, r_max=f.r_max, r_init=f.radius, depth=f.depth, lifetime=f.lifetime,
                      floor_teff_slope=f.floor_teff_slope, floor_teff_min_rad=f.floor_teff_min_rad,
                      floor_teff_base_dteff=f.floor_teff_base_dteff, wall_teff_slope=f.wall_teff_slope,
                      wall_teff_intercept=f.wall_teff_intercept, growing=f.is_growing, grid_params=gp)


def clone_star(star, gp):
    return vsm.Star(star.teff, star.radius, star.period,
                    vsm.SpotCollection(*[clone_spot(s, gp) for s in star.spots.spots], grid_params=gp),
                    vsm.FaculaCollection(*[clone_fac(f, gp) for f in star.faculae.faculae], grid_params=gp),
                    grid_params=gp, granulation=star.granulation, u1=star.u1, u2=star.u2, rng=rng('fresh'))


def _compare(star, gp, la0, lo0, g, tag):
    fresh = clone_star(star, gp)
    obs = {'lat': la0, 'lon': lo0}
    eq('the surface map %s' % tag, star.map, fresh.map)
    eq('the map with faculae %s' % tag, star.add_faculae_to_map(la0, lo0), fresh.add_faculae_to_map(la0, lo0))
    a, b = star.calc_coverage(obs, granulation_fraction=g), fresh.calc_coverage(obs, granulation_fraction=g)
    eq('the coverage %s' % tag, a[0], b[0], tol=1e-7, atol=1e-9)
    eq('the spot coverage %s' % tag, star.spots.get_coverage(star.radius), fresh.spots.get_coverage(star.radius), tol=1e-7,
       atol=1e-9)
    eq('the average temperature %s' % tag, star.average_teff(obs), fresh.average_teff(obs), tol=1e-7)
    mu = star.get_mu(la0, lo0)
    eq('the limb darkening %s' % tag, star.ld_mask_for_plotting(mu), fresh.ld_mask_for_plotting(fresh.get_mu(la0, lo0)))
    eq('the translucent mask %s' % tag, star.ld_mask(star.get_mu(la0, lo0)), fresh.ld_mask(fresh.get_mu(la0, lo0)))
    orb, rp = 5 * star.radius, 0.4 * star.radius
    m1 = star.get_transit_mask(la0, lo0, orb, rp, 3 * u.deg, 90 * u.deg)
    m2 = fresh.get_transit_mask(la0, lo0, orb, rp, 3 * u.deg, 90 * u.deg)
    eq('the eclipse fraction %s' % tag, m1[1], m2[1], tol=1e-7)
    if choice('front', [False] * 9 + [True]) and tag[:7] == 'follows':
        k = dict(orbit_radius=orb, phase=(180 + var('dph', -9, 9)) * u.deg, inclination=90 * u.deg)
        eq('the transit mask %s' % tag, star.get_transit_mask(la0, lo0, radius=rp, **k), fresh.get_transit_mask(la0, lo0, radius=rp, **k), tol=1e-7)
        eq('the hidden coverage %s' % tag, star.calc_coverage(obs, granulation_fraction=g, planet_radius=rp, **k)[1],
           fresh.calc_coverage(obs, granulation_fraction=g, planet_radius=rp, **k)[1], tol=1e-7, atol=1e-9)


def _step(star, gp, op, i):
    n = str(i)
    if op == 'age':
        star.age(var('dt' + n, 0.5, 60, ext=(0.001, 3000)) * u.hr)
    elif op == 'add_spot':
        star.add_spot(spot('as' + n, grid=choice('ag' + n, [gp, 7, (5, 6)]), amax=2e6 * MSH, acur=var('as%s.acur' % n, 2e5, 9e5) * MSH))
    elif op == 'add_fac':
        star.add_fac(facula('af' + n, grid=choice('ag' + n, [gp, 7, (5, 6)]), rmax=8e5 * u.km, rinit=var('af%s.r' % n, 2e5, 7e5) * u.km))
    elif op == 'birth_spots':
        star.birth_spots(1 * u.day)
    elif op == 'birth_faculae':
        star.birth_faculae(1 * u.hr)
    elif op == 'teff':
        star.teff = var('teff' + n, 3050, 3650, ext=(3050, 20000)) * u.K
    elif op == 'radius':
        star.radius = var('rs' + n, 0.4, 1.6, ext=(0.4, 60)) * u.R_sun
    elif op == 'limb':
        star.u1 = var('u1' + n, 0, 0.6)
        star.u2 = var('u2' + n, 0, 0.3)
    elif op == 'spot_area':
        for s in star.spots.spots:
            s.area_current = var('ac' + n, 3e5, 1.9e6) * MSH
    elif op == 'spot_ratio':
        for s in star.spots.spots:
            s.total_area_over_umbra_area = var('ra' + n, 1.5, 9, ext=(1.01, 300))
    elif op == 'fac_radius':
        for f in star.faculae.faculae:
            f.radius = var('fr' + n, 1e5, 7e5, ext=(1000, 700000)) * u.km
            f.depth = var('fd' + n, 1e4, 9e4, ext=(1, 300000)) * u.km
    elif op == 'spot_teff':
        for s in star.spots.spots:
            s.teff_umbra = var('tu' + n, 2350, 2600) * u.K
            s.teff_penumbra = var('tq' + n, 2650, 3000) * u.K
    elif op == 'drop':
        star.spots.spots = star.spots.spots[1:]
        star.faculae.faculae = star.faculae.faculae[1:]
    elif op == 'granulation':
        star.granulation = vsm.Granulation(0.2, 0.01, 5 * u.hr, var('gd' + n, 50, 400, ext=(0.05, 2000)) * u.K, seed=3)
    elif op == 'regrid':
        gp = choice('rg' + n, [7, (5, 6), (4, 5), 11])
        star.gridmaker = CoordinateGrid.new(gp)
        star.spots.set_gridmaker(star.gridmaker)
        star.faculae.set_gridmaker(star.gridmaker)
    elif op == 'mature':
        star.spots.add_spot(star.spot_generator.generate_spots(1))
    return gp


def history():
    gp = choice('grid', [9, (4, 5), 12, 7])
    dark = choice('dark', [False, True])
    star = star_with(gp, [spot('s', grid=gp, amax=2e6 * MSH, acur=var('s.acur', 2e5, 9e5) * MSH, decay=var('s.decay', 1e5, 9e5) * MSH / u.day)],
                     [facula('f', grid=gp, rmax=8e5 * u.km, rinit=var('f.rinit', 2e5, 7e5) * u.km)],
                     u1=0 if dark else var('u1', 0, 0.6), u2=0 if dark else var('u2', 0, 0.3), spot_generator=spot_gen(gp), fac_generator=fac_gen(gp),
                     granulation=vsm.Granulation(0.2, 0.01, 5 * u.hr, 300 * u.K, seed=3))
    counts([choice('n', [1, 0, 2])])
    la0, lo0 = viewpoint()
    g = var('gran', 0, 1)
    # fill whatever caches there may be
    _compare(star, gp, la0, lo0, g, 'is that of a fresh model')
    for i in range(3):
        op = choice('op%d' % i, OPS)
        if i:
            star.calc_coverage({'lat': la0, 'lon': lo0}, granulation_fraction=g)
        gp = _step(star, gp, op, i)
        _compare(star, gp, la0, lo0, g, 'follows after %s' % op)


def feature():
    """single features: ages, assignments, regridding between queries"""
    gp, g2 = choice('grid', [9, (4, 5), 12]), choice('g2', [7, (5, 6), 9])
    rs = var('rstar', 0.6, 1.4, ext=(0.6, 60)) * u.R_sun
    ang = var('ang', 1, 80) * u.deg
    s = spot('s', grid=gp, amax=2e6 * MSH, acur=var('s.acur', 2e5, 9e5) * MSH)
    f = facula('f', grid=gp, rmax=8e5 * u.km, rinit=var('f.rinit', 2e5, 7e5) * u.km)
    obs = {'lat': 10 * u.deg, 'lon': 30 * u.deg}
    cur = gp
    for i in range(3):
        op = choice('op%d' % i, ['age', 'assign', 'regrid', 'temps', 'lookagain'])
        if op == 'age':
            s.age(var('dt%d' % i, 0.01, 3, ext=(1e-05, 1000)) * u.day)
            f.age(var('df%d' % i, 0.1, 9, ext=(0.0001, 3000)) * u.hr)
        elif op == 'assign':
            s.area_current = var('ac%d' % i, 3e5, 1.9e6) * MSH
            f.radius = var('fr%d' % i, 1e5, 7e5) * u.km
        elif op == 'regrid':
            cur = g2
            s.set_gridmaker(CoordinateGrid.new(g2))
            f.gridmaker = CoordinateGrid.new(g2)
        elif op == 'temps':
            s.teff_umbra, s.teff_penumbra = var('tu%d' % i, 2350, 2600) * u.K, var('tp%d' % i, 2650, 3000) * u.K
            f.wall_teff_intercept, f.floor_teff_base_dteff = var('wi%d' % i, 20, 300) * u.K, var('fb%d' % i, -300, -20) * u.K
            f.depth = var('dep%d' % i, 1e4, 9e4) * u.km
        cs, cf = clone_spot(s, cur), clone_fac(f, cur)
        eq('the spot mask follows %s' % op, s.map_pixels(rs), cs.map_pixels(rs))
        eq('the spot radius follows %s' % op, s.radius, cs.radius)
        eq('the spot angular radius follows %s' % op, s.angular_radius(rs), cs.angular_radius(rs))
        eq('the spot surface fraction follows %s' % op, s.surface_fraction(obs, rs, 21), cs.surface_fraction(obs, rs, 21))
        eq('the facula mask follows %s' % op, f.map_pixels(rs), cf.map_pixels(rs))
        eq('the facula areas follow %s' % op, f.effective_area(ang), cf.effective_area(ang))
        eq('the facula contrasts follow %s' % op, (f.wall_dteff, f.floor_dteff), (cf.wall_dteff, cf.floor_dteff))
        sc = vsm.SpotCollection(s, grid_params=cur)
        eq('a collection of the spot follows %s' % op, sc.map_pixels(rs, 3300 * u.K),
           vsm.SpotCollection(cs, grid_params=cur).map_pixels(rs, 3300 * u.K))


def flares():
    star = empty_star(9, flare_generator=flare_gen(min_energy=1e33 * u.erg))
    counts([choice('n', [2, 1, 3])])
    t0, t1 = 2 * u.hr, 20 * u.hr
    obs = {'lat': 0 * u.deg, 'lon': 90 * u.deg}
    star.flares = vsm.FlareCollection([_flare(0)])
    star.get_flare_int_over_timeperiod(t0, t1, obs)
    new = [_flare(1), _flare(2)]
    how = choice('how', ['replace', 'generate', 'reindex'])
    if how == 'replace':
        star.flares = vsm.FlareCollection(new)
    elif how == 'generate':
        star.get_flares_over_observation(1 * u.day)
        new = star.flares.flares
    else:
        star.flares.flares = new
        star.flares.index()
    want = vsm.FlareCollection(new)
    eq('flare tables follow the flares (%s)' % how, star.flares.peaks, want.peaks)
    eq('flare widths follow the flares (%s)' % how, star.flares.fwhms, want.fwhms)
    a, b = star.get_flare_int_over_timeperiod(t0, t1, obs), want.get_flare_integral_in_timeperiod(t0, t1, obs)
    eq('flare integrals follow the flares (%s)' % how, a, b)
    f = new[0]
    tt = np.linspace(t0, t1, 9)
    f.areacurve(tt)
    f.energy = var('e9', 1, 9, ext=(1e-06, 1e+06)) * 1e33 * u.erg
    f.fwhm = var('w9', 0.2, 2, ext=(0.001, 300)) * u.hr
    f.Teff = var('t9', 8000, 11000, ext=(1000, 60000)) * u.K
    g = vsm.StellarFlare(f.fwhm, f.energy, f.lat, f.lon, f.Teff, f.tpeak)
    eq('the peak area follows the flare', f.calc_peak_area(), g.calc_peak_area())
    eq('the light curve follows the flare', f.areacurve(tt), g.areacurve(tt))


def generator():
    """expected numbers and averages follow the generator's settings"""
    sg, fg, lg = spot_gen(9), fac_gen(9), flare_gen()
    rs, t = 0.8 * u.R_sun, 2 * u.day
    for i in range(2):
        sg.mean_area, sg.mean_lifetime, sg.get_n_spots_to_birth(t, rs), fg.get_n_faculae_expected(t, rs), lg.get_ntotal(t)
        op = choice('op%d' % i, ['coverage', 'rates', 'sizes', 'static', 'flare'])
        if op == 'coverage':
            sg.coverage = var('c%d' % i, 0.01, 0.9)
            fg.coverage = var('d%d' % i, 0.01, 0.9)
        elif op == 'rates':
            sg.growth_rate = var('gr%d' % i, 0.2, 1.9, ext=(0.001, 50)) / u.day
            sg.decay_rate = var('dr%d' % i, 1e3, 9e4, ext=(0.01, 1e+08)) * MSH / u.day
            fg.dist_life_peak = var('fl%d' % i, 2, 30, ext=(0.05, 2000)) * u.hr
        elif op == 'sizes':
            sg.dist_area_mean = var('am%d' % i, 2e5, 9e5) * MSH
            sg.init_area = var('ai%d' % i, 1e3, 1e5) * MSH
            fg.dist_r_peak = var('fp%d' % i, 1e5, 7e5) * u.km
        elif op == 'static':
            sg.decay_rate = 0 * MSH / u.day
        else:
            lg.alpha = choice('al%d' % i, [-0.9, -1.3])
            lg.beta = var('be%d' % i, 20, 28)
            lg.min_energy = var('me%d' % i, 1, 9) * 1e33 * u.erg
        s2 = vsm.SpotGenerator(sg.dist_area_mean, sg.dist_area_logsigma, sg.umbra_teff, sg.penumbra_teff,
                               growth_rate=sg.growth_rate, decay_rate=sg.decay_rate, init_area=sg.init_area,
                               distribution='iso', coverage=sg.coverage, grid_params=9, rng=rng('other'))
        f2 = fac_gen(9, coverage=fg.coverage, dist_life_peak=fg.dist_life_peak, dist_r_peak=fg.dist_r_peak)
        l2 = flare_gen(alpha=lg.alpha, beta=lg.beta, min_energy=lg.min_energy)
        eq('mean spot area follows %s' % op, sg.mean_area, s2.mean_area)
        eq('mean spot lifetime follows %s' % op, sg.mean_lifetime, s2.mean_lifetime)
        eq('expected spots follow %s' % op, sg.get_n_spots_to_birth(t, rs), s2.get_n_spots_to_birth(t, rs))
        eq('expected faculae follow %s' % op, fg.get_n_faculae_expected(t, rs), f2.get_n_faculae_expected(t, rs))
        eq('expected flares follow %s' % op, lg.get_ntotal(t), l2.get_ntotal(t))
        eq('flare quantiles follow %s' % op, lg.quantile_func(0.3), l2.quantile_func(0.3))


def grid():
    """grids do not share stale arrays"""
    a, b = choice('a', [9, (4, 5), 12, (5, 6)]), choice('b', [9, (5, 4), 7, (6, 5), 12])
    la0, lo0 = viewpoint()
    la1, lo1 = lat('lat1'), lon('lon1')
    ga, gb = CoordinateGrid.new(a), CoordinateGrid.new(b)
    ga.area, ga.grid(), ga.zeros(), ga.cos_angle_from_disk_center(la0, lo0)
    z = ga.zeros()
    z[...] = 5
    gg = CoordinateGrid.new(a)
    eq('a blank map is blank again', ga.zeros(), gg.zeros())
    eq('viewing angles follow the viewpoint', ga.cos_angle_from_disk_center(la1, lo1), mu_spec(la1, lo1, *gg.grid()), tol=1e-7, atol=1e-7)
    eq('viewing angles follow the grid', gb.cos_angle_from_disk_center(la0, lo0), mu_spec(la0, lo0, *CoordinateGrid.new(b).grid()),
       tol=1e-7, atol=1e-7)
    eq('weights follow the grid', gb.area.shape, CoordinateGrid.new(b).zeros().shape)


def units():
    """the same number in another unit is another quantity"""
    gp = choice('grid', [9, (4, 5), 12])
    rs = var('rstar', 0.6, 1.4) * u.R_sun
    small = var('small', 0.6, 1.4)
    s = spot('s', grid=gp, amax=2e6 * MSH, acur=var('s.acur', 2e3, 1e4) * MSH)
    f = facula('f', grid=gp, rmax=8e5 * u.km, rinit=var('f.rinit', 2e4, 7e4) * u.km)
    obs = {'lat': 10 * u.deg, 'lon': 30 * u.deg}
    ang = var('ang', 1, 80)
    for i, op in enumerate(['none', choice('first', ['star', 'area', 'angle', 'radius', 'time']), choice('second', ['star', 'area', 'angle', 'radius', 'time'])]):
        if op == 'star':
            rs = rs.value * u.R_jup if rs.unit == u.R_sun else rs.value * u.R_sun
        elif op == 'area':
            s.area_current = s.area_current.value * (u.Mm**2 if s.area_current.unit == MSH else MSH)
        elif op == 'angle':
            obs = {'lat': 10 * u.deg, 'lon': 30 * u.deg} if i == 2 else {'lat': 10 / 20 * u.rad, 'lon': 30 / 20 * u.rad}
        elif op == 'radius':
            f.radius = f.radius.value * u.Unit('Mm') if f.radius.value < 500 else f.radius.to_value(u.Mm) * u.Mm
            f.depth = f.depth.to(u.Mm)
        elif op == 'time':
            s.age(var('dt%d' % i, 0.1, 0.3) * choice('tu%d' % i, [u.hr, u.day]))
        cs, cf = clone_spot(s, gp), clone_fac(f, gp)
        a = ang * u.deg if i != 1 else ang * u.arcmin
        eq('the spot angular radius follows the unit', s.angular_radius(rs), cs.angular_radius(rs))
        eq('the spot mask follows the unit', s.map_pixels(rs), cs.map_pixels(rs))
        eq('the spot radius follows the unit', s.radius, cs.radius)
        eq('the spot surface fraction follows the unit', s.surface_fraction(obs, rs, 21), cs.surface_fraction(obs, rs, 21))
        eq('the facula mask follows the unit', f.map_pixels(rs), cf.map_pixels(rs))
        eq('the facula areas follow the unit', f.effective_area(a), cf.effective_area(a))
        eq('the facula contrasts follow the unit', (f.wall_dteff, f.floor_dteff), (cf.wall_dteff, cf.floor_dteff))
        sc, fc = vsm.SpotCollection(s, grid_params=gp), vsm.SpotCollection(cs, grid_params=gp)
        eq('the spot map follows the unit', sc.map_pixels(rs, 3300 * u.K), fc.map_pixels(rs, 3300 * u.K))
