"""C20: generated features carry their generator's settings and valid positions."""
import numpy as np
from astropy import units as u
from vsa_rt import var, choice, eq, le, check, counts, draws, clear_log, rng, raises, same, finite, same_obj, tails
from scen.common import *
from scen.c07 import spot_gen, fac_gen
from scen.c08 import flare_gen

CELLS = {'spots': (50, 260), 'faculae': (50, 260), 'spot_coords': (40, 200), 'fac_coords': (24, 120), 'flare_coords': (24, 120),
         'mature': (30, 160), 'mature_star': (16, 80), 'reject_mature': (12, 40), 'reject_facgen': (12, 40), 'flare_scatter': (30, 160), 'extreme_draws': (12, 60), 'crowd': (8, 40)}
WIDE = []


def _z(kind, n):
    """standardised values of the draws of one kind (None when drawn otherwise)"""
    out = []
    for d in draws():
        if d['kind'] == kind:
            out.append(d)
    return out


def spots():
    g = rng('user')
    umb, pen = var('umb', 2300, 2700) * u.K, var('pen', 2750, 3000) * u.K
    s = spot_gen(choice('grid', [9, (4, 5)]), g=g, umbra_teff=umb, penumbra_teff=pen, distribution=choice('dist', ['iso', 'solar']))
    n = choice('n', [0, 1, 2, 3])
    clear_log()
    out = s.generate_spots(n)
    eq('exactly the requested number of spots', len(out), n)
    check('spots are returned as a sequence', isinstance(out, (tuple, list)))
    ln = _z('lognormal', n)
    nm = _z('normal', n)
    for i in range(len(out)):
        x = out[i]
        eq('the umbra has the configured temperature', x.teff_umbra, umb)
        eq('the penumbra has the configured temperature', x.teff_penumbra, pen)
        eq('the growth rate is the configured one', x.growth_rate, s.growth_rate)
        eq('the decay rate is the configured one', x.decay_rate, s.decay_rate)
        eq('a spot starts with the configured area', x.area_current, s.init_area)
        check('a spot is born growing', x.is_growing)
        le('a spot has a positive maximum area', 0 * MSH, x.area_max)
        check('the umbra is smaller than the spot or at least of positive size', x.total_area_over_umbra_area > 0)
        le('latitudes stay on the sphere', np.abs(x.coords['lat']), 90 * u.deg)
        for j in range(i):
            y = out[j]
            check('every spot has its own maximum area', same(x.area_max, y.area_max) is not True)
            check('every spot has its own longitude', same(x.coords['lon'], y.coords['lon']) is not True)
            check('every spot has its own latitude', same(x.coords['lat'], y.coords['lat']) is not True)
            check('every spot has its own area ratio', same(x.total_area_over_umbra_area, y.total_area_over_umbra_area) is not True)
    if len(ln) == 1 and n > 0:
        mean = ln[0]['params'][0]
        eq('maximum areas scatter around the configured mean', np.exp(mean), (s.dist_area_mean / MSH).to_value(u.dimensionless_unscaled), tol=1e-6)
        eq('maximum areas scatter with the configured width', ln[0]['params'][1], s.dist_area_logsigma)
        for i in range(n):
            eq('the maximum area is the one drawn', out[i].area_max, ln[0]['res'][i] * MSH, tol=1e-9)
    s2 = s.generate_spots(n)
    for x, y in zip(out, s2):
        check('new spots are new objects', not same_obj(x, y))


def faculae():
    g = rng('user')
    depth, rsig, lsig = var('depth', 1e4, 9e4, ext=(1, 1e+07)) * u.km, var('rsig', 0.05, 0.2, ext=(0.001, 2)), var('lsig', 0.05, 0.3, ext=(0.001, 2))
    f = fac_gen(choice('grid', [9, (4, 5)]), g=g, depth=depth, dist_r_logsigma=rsig, dist_life_logsigma=lsig,
                floor_teff_slope=var('fs', -1e-4, -1e-5) * u.K / u.km, wall_teff_slope=var('ws', 1e-5, 1e-4) * u.K / u.km,
                floor_teff_min_rad=var('mr', 1e3, 9e4, ext=(1, 1e+07)) * u.km, floor_teff_base_dteff=var('fb', -200, -20, ext=(-2000, -0.1)) * u.K,
                wall_teff_intercept=var('wi', 20, 200, ext=(0.1, 2000)) * u.K)
    n = choice('n', [0, 1, 2, 3])
    clear_log()
    out = f.generate_faculae(n)
    eq('exactly the requested number of faculae', len(out), n)
    nm = _z('normal', n)
    for i in range(len(out)):
        x = out[i]
        eq('the depth is the configured one', x.depth, depth)
        eq('the floor slope is the configured one', x.floor_teff_slope, f.floor_teff_slope)
        eq('the wall slope is the configured one', x.wall_teff_slope, f.wall_teff_slope)
        eq('the minimum radius is the configured one', x.floor_teff_min_rad, f.floor_teff_min_rad)
        eq('the floor contrast is the configured one', x.floor_teff_base_dteff, f.floor_teff_base_dteff)
        eq('the wall contrast is the configured one', x.wall_teff_intercept, f.wall_teff_intercept)
        eq('a facula starts at 1/e^2 of its maximum radius', x.radius, x.r_max * np.exp(-2), tol=1e-6)
        check('a facula is born growing', x.is_growing)
        check('lifetimes are positive', x.lifetime > 0 * u.s)
        le('latitudes stay on the sphere', np.abs(x.lat), 90 * u.deg)
        # the size and the lifetime of a facula scatter together
        eq('radius and lifetime scatter together', np.log((x.r_max / f.dist_r_peak).to_value(u.dimensionless_unscaled)) / rsig,
           np.log((x.lifetime / f.dist_life_peak).to_value(u.dimensionless_unscaled)) / lsig, tol=1e-5, atol=1e-5)
        for j in range(i):
            y = out[j]
            check('every facula has its own maximum radius', same(x.r_max, y.r_max) is not True)
            check('every facula has its own lifetime', same(x.lifetime, y.lifetime) is not True)
            check('every facula has its own longitude', same(x.lon, y.lon) is not True)
            check('every facula has its own latitude', same(x.lat, y.lat) is not True)
    if len(nm) == 1 and n > 0:
        for i in range(n):
            z = (nm[0]['res'][i] - nm[0]['params'][0]) / nm[0]['params'][1]
            eq('the maximum radius scatters around the configured peak', out[i].r_max, f.dist_r_peak * 10 ** (z * rsig), tol=1e-6)
            eq('the lifetime scatters around the configured peak', out[i].lifetime, f.dist_life_peak * 10 ** (z * lsig), tol=1e-6)


def _iso(la, lo, what, n):
    """isotropic: longitude is 360 times a uniform draw, sine of latitude is 2x-1 of another"""
    eq('one latitude per %s' % what, la.shape, (n,))
    eq('one longitude per %s' % what, lo.shape, (n,))
    r = [d for d in draws() if d['kind'] in ('random', 'uniform')]
    if len(r) == 2 and r[0]['kind'] == 'random' and r[1]['kind'] == 'random':
        a, b = r[0]['res'], r[1]['res']
        s = np.sin(la).to_value(u.dimensionless_unscaled)
        t = lo.to_value(u.deg) / 360
        o1 = same(t, a, 1e-6) is not False and same((s + 1) / 2, b, 1e-6) is not False
        o2 = same(t, b, 1e-6) is not False and same((s + 1) / 2, a, 1e-6) is not False
        # mirrored draws are just as uniform
        o3 = same(t, a, 1e-6) is not False and same((1 - s) / 2, b, 1e-6) is not False
        o4 = same(t, b, 1e-6) is not False and same((1 - s) / 2, a, 1e-6) is not False
        check('positions of %s are uniform on the sphere' % what, o1 or o2 or o3 or o4)
    le('latitudes of %s stay on the sphere' % what, np.abs(la), 90 * u.deg)
    le('longitudes of %s are not negative' % what, 0 * u.deg, lo)
    le('longitudes of %s stay below a full turn' % what, lo, 360 * u.deg)


def spot_coords():
    g = rng('user')
    n = choice('n', [1, 2, 4])
    dist = choice('dist', ['iso', 'solar'])
    s = spot_gen(9, g=g, distribution=dist)
    clear_log()
    la, lo = s.get_coordinates(n)
    if dist == 'iso':
        _iso(la, lo, 'spots', n)
    else:
        eq('one latitude per spot', la.shape, (n,))
        eq('one longitude per spot', lo.shape, (n,))
        nm = [d for d in draws() if d['kind'] == 'normal']
        ch = [d for d in draws() if d['kind'] == 'choice']
        r = [d for d in draws() if d['kind'] == 'random']
        if len(nm) == 1:
            eq('solar latitudes scatter around 15 degrees', np.abs(nm[0]['params'][0]) * np.ones(n), 15 * np.ones(n))
            eq('solar latitudes are the drawn ones up to the hemisphere', np.abs(la), np.abs(nm[0]['res']) * u.deg, tol=1e-7)
        if len(ch) == 1 and len(nm) == 1:
            eq('the hemisphere is the drawn one', la, nm[0]['res'] * ch[0]['res'] * u.deg, tol=1e-7)
        if len(r) == 1:
            eq('solar longitudes are uniform', lo, r[0]['res'] * 360 * u.deg, tol=1e-7)


def fac_coords():
    n = choice('n', [1, 2, 4])
    f = fac_gen(9, g=rng('user'))
    clear_log()
    la, lo = f.get_coords(n)
    _iso(la, lo, 'faculae', n)


def flare_coords():
    n = choice('n', [1, 2, 4])
    f = flare_gen(rng('user'))
    clear_log()
    la, lo = f.gen_coords(n)
    _iso(la, lo, 'flares', n)


def flare_scatter():
    n = choice('n', [1, 2, 3])
    sig = var('sig', 0.05, 0.5, ext=(0.001, 3))
    f = flare_gen(rng('user'), dist_fwhm_mean=10 ** var('w', -1, 1, ext=(-4, 4)) * choice('wu', [u.hr, u.day]), dist_fwhm_logsigma=sig,
                  dist_teff_mean=var('tm', 8000, 10000, ext=(1000, 60000)) * u.K, dist_teff_sigma=var('ts', 100, 900, ext=(0.1, 900)) * u.K)
    clear_log()
    w = f.gen_fwhm(n)
    d = [x for x in draws() if x['kind'] == 'normal']
    eq('one width per flare', w.shape, (n,))
    check('widths are positive', w > 0 * u.s)
    if len(d) == 1:
        z = (d[0]['res'] - d[0]['params'][0]) / d[0]['params'][1]
        eq('flare widths scatter in decades around the configured mean', w, f.dist_fwhm_mean * 10 ** (z * sig), tol=1e-5)
    clear_log()
    t = f.gen_teffs(n)
    d = [x for x in draws() if x['kind'] == 'normal']
    eq('one temperature per flare', t.shape, (n,))
    if len(d) == 1:
        z = (d[0]['res'] - d[0]['params'][0]) / d[0]['params'][1]
        eq('flare temperatures scatter around the configured mean', t, f.dist_teff_mean + z * f.dist_teff_sigma, tol=1e-6)


def _mature_gen(g):
    if choice('static', [True, False]):
        return spot_gen(9, g=g, decay_rate=0 * MSH / u.day, dist_area_mean=9e5 * MSH, init_area=5e5 * MSH, dist_area_logsigma=0.05)
    return spot_gen(9, g=g, dist_area_mean=9e5 * MSH, init_area=5e5 * MSH, dist_area_logsigma=0.05,
                    decay_rate=var('dr', 5e4, 9e4) * MSH / u.day, growth_rate=var('gr', 0.3, 0.9) / u.day)


def mature():
    g = rng('user')
    s = _mature_gen(g)
    rs, cov = var('rstar', 0.85, 1.3) * u.R_sun, var('cov', 0.05, 0.5, (0.0,))
    clear_log()
    out = s.generate_mature_spots(cov, rs)
    ages = [d['res'] for d in draws() if d['kind'] == 'random' and np.ndim(d['res']) == 0]
    if len(ages) == len(out) and not s.is_static:
        k = np.log(1 + (s.growth_rate * u.day).to_value(u.dimensionless_unscaled))
        for x, age in zip(out, ages):
            t = age * s.mean_lifetime.to_value(u.day)
            tm = np.log((x.area_max / s.init_area).to_value(u.dimensionless_unscaled)) / k
            if t < tm * (1 - 1e-6):
                check('a mature spot that has not reached its maximum is growing', x.is_growing)
            elif t > tm * (1 + 1e-6):
                check('a mature spot that has passed its maximum is decaying', not x.is_growing)
    target = (4 * np.pi * cov * u.steradian).to_value(u.deg**2)
    tot = 0.0
    for i, x in enumerate(out):
        check('spots are added only while the coverage is not reached', tot < target)
        tot = tot + np.pi * x.angular_radius(rs).to_value(u.deg)**2
        le('a mature spot is at most at its maximum', x.area_current, x.area_max, tol=1e-6)
        le('a mature spot has no negative area', 0 * MSH, x.area_current)
        eq('a mature spot has the configured umbra', x.teff_umbra, s.umbra_teff)
        eq('a mature spot has the configured penumbra', x.teff_penumbra, s.penumbra_teff)
    le('the summed solid angle reaches the requested coverage', target, tot, tol=1e-6)


def mature_star():
    g = rng('user')
    star = empty_star(9, g=g, spot_generator=_mature_gen(g), teff=3300 * u.K, radius=var('rstar', 0.85, 1.3) * u.R_sun)
    star.add_spot(spot('s', grid=9))
    cov = var('cov', 0.05, 0.4)
    star.generate_mature_spots(cov)
    tot = 0.0
    for x in star.spots.spots[1:]:
        tot = tot + np.pi * x.angular_radius(star.radius).to_value(u.rad)**2
    le('the star gets spots up to the requested coverage', 4 * np.pi * cov, tot, tol=1e-6)


def reject_mature():
    s = _mature_gen(rng('user'))
    bad = choice('bad', [1.0001, -0.0001, 2, -1, 50.0])
    raises('coverages outside [0,1] are rejected', s.generate_mature_spots, ValueError, bad, 1 * u.R_sun)
    star = empty_star(9, spot_generator=s)
    n = len(star.spots.spots)
    raises('a star rejects coverages outside [0,1]', star.generate_mature_spots, ValueError, bad)
    eq('a rejected coverage adds no spots', len(star.spots.spots), n)


def reject_facgen():
    which = choice('which', ['solar', 'unknown', 'type', 'spot'])
    if which == 'solar':
        raises('solar faculae are rejected', lambda: fac_gen(9, dist='solar'), NotImplementedError)
    elif which == 'unknown':
        raises('an unknown facula distribution is rejected', lambda: fac_gen(9, dist='foo'), ValueError)
    elif which == 'type':
        raises('a coverage that is not a number is rejected', lambda: fac_gen(9, coverage=choice('c', ['0.1', 0.1 * u.day, None])), TypeError)
    else:
        s = spot_gen(9, distribution='foo')
        raises('an unknown spot distribution is rejected', s.get_coordinates, ValueError, 2)
        raises('spots of an unknown distribution are rejected', s.generate_spots, ValueError, 2)


def extreme_draws():
    """rare draws are legal draws: a very low area ratio is drawn again, extreme uniforms stay on the sphere"""
    n = choice('n', [1, 2, 3])
    which = choice('which', ['ratio', 'low', 'high'])
    s = spot_gen(9, g=rng('user'), distribution='iso')
    if which == 'ratio':
        # lognormal draws first, then ratios: n regular areas, then one impossible ratio among them
        tails('z', [0.3 + 0.1 * i for i in range(n)] + [0.1] * (n - 1) + [choice('r', [-6.5, -5.0, -9.0])]
              + ([0.1] * (n - 1) + [-7.5]) * choice('again', [0, 1, 2]))
    else:
        tails('u', ([1e-10] if which == 'low' else [0.9999999999]) * (2 * n))
    for x in s.generate_spots(n):
        check('every spot has a positive area ratio', x.total_area_over_umbra_area > 0)
        le('latitudes stay on the sphere', np.abs(x.coords['lat']), 90 * u.deg)
        finite('positions are defined', x.coords['lat'])
        m = x.map_pixels(1.2 * u.R_sun)
        le('the umbra lies inside the spot for ordinary ratios', 0, x.total_area_over_umbra_area)
    tails('u', [1e-10, 0.9999999999] * (2 * n))
    la, lo = flare_gen(rng('user')).gen_coords(n)
    finite('positions of flares are defined', la)
    le('latitudes of flares stay on the sphere', np.abs(la), 90 * u.deg)
    tails('u', [0.9999999999, 1e-10] * (2 * n))
    la, lo = fac_gen(9, g=rng('user')).get_coords(n)
    finite('positions of faculae are defined', la)
    le('latitudes of faculae stay on the sphere', np.abs(la), 90 * u.deg)


def crowd():
    """large numbers"""
    n = choice('n', [70, 130, 260])
    g = rng('user')
    what = choice('what', ['spots', 'faculae', 'mature', 'coords'])
    if what == 'spots':
        s = spot_gen(5, g=g)
        out = s.generate_spots(n)
        eq('exactly the requested number of spots', len(out), n)
        for x in out:
            eq('a spot starts with the configured area', x.area_current, s.init_area)
            check('a spot starts growing', x.is_growing)
    elif what == 'faculae':
        out = fac_gen(5, g=g).generate_faculae(n)
        eq('exactly the requested number of faculae', len(out), n)
    elif what == 'coords':
        for lats, lons in (spot_gen(5, g=g).get_coordinates(n), fac_gen(5, g=g).get_coords(n), flare_gen(g).gen_coords(n)):
            eq('as many latitudes and longitudes as asked', (len(lats), len(lons)), (n, n))
            le('latitudes stay on the sphere', np.abs(lats), 90 * u.deg)
            check('longitudes stay below 360 degrees', lons < 360 * u.deg)
            check('longitudes are not negative', lons >= 0 * u.deg)
    else:
        s = spot_gen(5, g=g, decay_rate=0 * MSH / u.day, dist_area_mean=9000 * MSH, init_area=5000 * MSH, dist_area_logsigma=0.05)
        rs, cov = 1 * u.R_sun, 3.2e-3 * n * 0.9
        target = (4 * np.pi * cov * u.steradian).to_value(u.deg**2)
        out = s.generate_mature_spots(cov, rs)
        tot = 0.0
        for x in out:
            check('spots are added only while the coverage is not reached', tot < target)
            tot = tot + np.pi * x.angular_radius(rs).to_value(u.deg)**2
        le('the summed solid angle reaches the requested coverage', target, tot, tol=1e-6)
