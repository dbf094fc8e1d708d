S, P, F, L, G, X, C, H = 'star.py', 'spots.py', 'faculae.py', 'flares.py', 'granules.py', 'xoflares.py', 'coordinate_grid.py', 'helpers.py'
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


STAR = '''
def star(gp=200, spots=(), facs=(), teff=3300*u.K, **kw):
    return vsm.Star(teff, 1*u.R_sun, 10*u.day, vsm.SpotCollection(*spots, grid_params=gp), vsm.FaculaCollection(*facs, grid_params=gp), grid_params=gp, **kw)
def spot(lat=0, lon=0, area=3e5, umb=2500, pen=2700, gp=200, amax=None, **kw):
    return vsm.StarSpot(lat*u.deg, lon*u.deg, (amax or 2*area)*MSH, area*MSH, umb*u.K, pen*u.K, grid_params=gp, **kw)
def fac(lat=0, lon=0, r=3e5, rmax=6e5, gp=200, depth=5e4, wall=150, floor=-100, life=10, growing=True):
    return vsm.Facula(lat*u.deg, lon*u.deg, rmax*u.km, r*u.km, depth*u.km, life*u.hr, 0*u.K/u.km, 2e4*u.km, floor*u.K, 0*u.K/u.km, wall*u.K, growing=growing, grid_params=gp)
'''
seed('m01', 'C01', [(S, "pix_has_teff = np.where(surface_map == teff, 1, 0)", "pix_has_teff = np.where(np.abs(surface_map - teff) < 1*u.K, 1, 0)")],
     'two regions on the disk whose temperatures differ by less than 1 K', 'pixels are counted for both temperatures, so the fractions sum to more than 1',
     STAR + '''
s = star(spots=[spot(0, 0, umb=2700, pen=2700.4, area=4e5)])
tot, _, _ = s.calc_coverage({'lat': 0*u.deg, 'lon': 0*u.deg})
assert abs(sum(tot.values()) - 1) < 1e-6, tot
''')
seed('m02', 'C02', [(S, "covered_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)", "covered_data[f'{self.teff:.2f}'] = phot_frac")],
     'a transit in front of a star with granulation', 'the covered photosphere fraction is not split by the granulation fraction and exceeds what is there',
     STAR + '''
s = star(gp=2000, granulation=vsm.Granulation(0.2, 0.01, 5*u.hr, 200*u.K, seed=1))
tot, cov, _ = s.calc_coverage({'lat': 0*u.deg, 'lon': 0*u.deg}, granulation_fraction=0.9, orbit_radius=5*u.R_sun, planet_radius=0.6*u.R_sun, phase=180*u.deg, inclination=90*u.deg)
assert all(cov[k] <= tot[k] + 1e-6 for k in cov), (tot, cov)
''')
seed('m03', 'C02', [(S, "if np.sqrt(x**2 + y**2) > 1 + 2*rp_rs:", "if np.sqrt(x**2 + y**2) > 1:")],
     'ingress or egress with the planet centre outside the stellar disk', 'the planet hides nothing until its centre has crossed the limb',
     STAR + '''
s = star(gp=2000)
m, _ = s.get_transit_mask(0*u.deg, 0*u.deg, 5*u.R_sun, 0.5*u.R_sun, 180*u.deg + np.arcsin(1.1/5)*u.rad, 90*u.deg)
assert np.max(m) > 0.9
''')
seed('m04', 'C03', [(L, "np.cos(sub_obs_coords['lon']-flare.lon)", "np.cos(np.minimum(np.abs(sub_obs_coords['lon']-flare.lon), 180*u.deg))")],
     'observer and flare on different sides of the 0/360 degree meridian', 'a near-side flare across the meridian is not listed',
     '''
f = vsm.StellarFlare(1*u.hr, 1e33*u.erg, 0*u.deg, 350*u.deg, 9000*u.K, 5*u.hr)
c = vsm.FlareCollection([f])
assert len(c.get_visible_flares_in_timeperiod(0*u.hr, 10*u.hr, {'lat': 0*u.deg, 'lon': 10*u.deg})) == 1
''')
seed('m05', 'C05', [(H, "C = np.where(np.sin(lons-lon0) < 0, -C, C)", "C = np.where(lons-lon0 < 0, -C, C)")],
     'viewpoint near the 0/360 degree meridian', 'points on the other side of the meridian are projected to the wrong side of the disk',
     '''
from vspec_vsm.helpers import proj_ortho
x, y = proj_ortho(10*u.deg, 350*u.deg, np.array([5., 5.])*u.deg, np.array([10., 330.])*u.deg)
assert x[0] > 0 and x[1] < 0, x
''')
seed('m06', 'C06', [(C, "lons = np.linspace(0, 360, n_points, endpoint=False)*u.deg", "lons = np.linspace(0, 360, n_points, endpoint=n_points % 2 == 1)*u.deg")],
     'a rectangular grid with an odd number of longitudes', 'the meridian at 0 and at 360 degrees are the same points, counted twice',
     '''
lat, lon = vsm.CoordinateGrid.new((5, 7)).grid() if hasattr(vsm, 'CoordinateGrid') else __import__('vspec_vsm.coordinate_grid', fromlist=['x']).CoordinateGrid.new((5, 7)).grid()
assert lon.max() < 360*u.deg - 1e-6*u.deg
''')
seed('m07', 'C07', [(F, "for fac in facula: fac: Facula", "for fac in facula[:1]:\n            fac: Facula")],
     'several faculae added at once from another grid', 'all but the first keep their old grid',
     STAR + '''
s = star(gp=(20, 40))
s.add_fac([fac(gp=100), fac(gp=100, lat=30)])
for f in s.faculae.faculae:
    assert f.map_pixels(s.radius).shape == (40, 20)
''')
seed('m08', 'C08', [(L, "masked_flares = self.get_flares_in_timeperiod(tstart, tfinish)", "self.flares = sorted(self.flares, key=lambda f: f.energy.to_value('erg'))\n        self.index()\n        masked_flares = self.get_flares_in_timeperiod(tstart, tfinish)")],
     'a visibility query on a collection that is not ordered by energy', 'the query reorders the flares of the model',
     '''
f = [vsm.StellarFlare(1*u.hr, e*1e33*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, 5*u.hr) for e in (3, 1, 2)]
c = vsm.FlareCollection(list(f))
c.get_visible_flares_in_timeperiod(0*u.hr, 10*u.hr)
assert all(a is b for a, b in zip(c.flares, f))
''')
seed('m09', 'C09', [(F, "latgrid, longrid = self.gridmaker.grid() lat0 = self.lat", "if not hasattr(self, '_points'):\n            self._points = self.gridmaker.grid()\n        latgrid, longrid = self._points\n        lat0 = self.lat")],
     'a facula that is mapped, then moved to another grid, then mapped again', 'the second map is evaluated on the points of the first grid',
     STAR + '''
f = fac(gp=100)
f.map_pixels(1*u.R_sun)
s = star(gp=300)
s.add_fac(f)
assert f.map_pixels(s.radius).shape == (300,)
''')
seed('m10', 'C10', [(P, "area = self.rng.random()*area_range + area0", "area = np.random.random()*area_range + area0")],
     'mature spots of a static generator', 'spot sizes come from the global random state, not from the seeded generator',
     '''
def run():
    g = vsm.SpotGenerator(300*MSH, 0.2, 2500*u.K, 2700*u.K, decay_rate=0*MSH/u.day, coverage=0.1, gridmaker=None, grid_params=100, rng=np.random.default_rng(3))
    return [s.area_current.to_value(MSH) for s in g.generate_mature_spots(0.0005, 1*u.R_sun)]
assert run() == run()
''')
seed('m11', 'C12', [(P, "decay_time = time - time_to_max", "decay_time = time")],
     'a spot that reaches its maximum inside a step', 'the whole step is counted as decay, so the result depends on the slicing',
     STAR + '''
kw = dict(area=100, amax=200, growth_rate=0.5/u.day, decay_rate=10*MSH/u.day)
a, b = spot(**kw), spot(**kw)
a.age(4*u.day)
for _ in range(8):
    b.age(0.5*u.day)
assert abs((a.area_current/b.area_current).to_value('') - 1) < 1e-6
''')
seed('m12', 'C14', [(P, "umbra = teff_dict[spot.teff_umbra] & ( surface_map > spot.teff_umbra)", "umbra = teff_dict[spot.teff_umbra] & (\n                surface_map > spot.teff_penumbra)")],
     'an umbra overlapping the penumbra of another spot of the same kind', 'the umbra is not painted there, depending on the order',
     STAR + '''
a, b = spot(0, 0), spot(0, 12)
m1 = star(gp=2000, spots=[spot(0, 0, gp=2000), spot(0, 12, gp=2000)]).map
m2 = star(gp=2000, spots=[spot(0, 12, gp=2000), spot(0, 0, gp=2000)]).map
assert np.all(m1 == m2)
''')
seed('m13', 'C15', [(S, "border_mu = np.percentile(mu_of_fac_pix, 100*frac)", "border_mu = np.percentile(mu_of_fac_pix, 100*(1-frac))")],
     'a facula that is neither at the centre nor at the limb', 'wall and floor shares are swapped on the map',
     STAR + '''
s = star(gp=4000, facs=[fac(0, 0, r=3e5, gp=4000)])
m = s.add_faculae_to_map(0*u.deg, 20*u.deg)
wall, floor = np.sum(m > 3350*u.K), np.sum(m < 3250*u.K)
assert floor > wall > 0, (wall, floor)
''')
seed('m14', 'C16', [(X, "multiflare_lc = multiflare_lc + flare_lc", "multiflare_lc = np.maximum(multiflare_lc, flare_lc)")],
     'several overlapping flares in one light curve', 'overlapping flares do not add',
     '''
from vspec_vsm.xoflares import get_light_curvenp as g
t = np.linspace(0, 1, 201)
both = g(t, [0.3, 0.35], [0.05, 0.1], [1., 2.])
assert np.allclose(both, g(t, [0.3], [0.05], [1.]) + g(t, [0.35], [0.1], [2.]))
''')
seed('m15', 'C17', [(L, "padding_before = 20", "padding_before = 5")],
     'a window that only contains the tail of a flare', 'the flare is not selected although it still radiates in the window',
     '''
f = vsm.StellarFlare(1*u.hr, 1e33*u.erg, 0*u.deg, 0*u.deg, 9000*u.K, 5*u.hr)
c = vsm.FlareCollection([f])
assert len(c.get_flares_in_timeperiod(12*u.hr, 14*u.hr)) == 1
''')
seed('m16', 'C20', [(F, "lifetimes = self.dist_life_peak * 10**(mu * self.dist_life_logsigma)", "lifetimes = self.dist_life_peak * 10**(mu * self.dist_r_logsigma)")],
     'a facula generator with different scatter of radius and lifetime', 'lifetimes scatter with the width configured for radii',
     '''
from vspec_vsm.faculae import FaculaGenerator
g = FaculaGenerator(800*u.km, 0.3, 100*u.km, 6*u.hr, 0.0, 0*u.K/u.km, 20*u.km, -100*u.K, 0*u.K/u.km, 100*u.K, coverage=0.1, grid_params=100, rng=np.random.default_rng(1))
assert all(abs(f.lifetime.to_value('hr') - 6) < 1e-9 for f in g.generate_faculae(5))
''')
seed('m17', 'C21', [(P, "time_to_max = np.log(self.area_max/self.area_current)/tau * u.day", "time_to_max = np.log(self.area_max.value/self.area_current.value)/tau * u.day")],
     'a growing spot whose maximum and current area are given in different units', 'the time to maximum is computed from bare numbers',
     STAR + '''
a = spot(area=100, amax=200, growth_rate=0.5/u.day, decay_rate=10*MSH/u.day)
b = spot(area=100, amax=200, growth_rate=0.5/u.day, decay_rate=10*MSH/u.day)
b.area_max = b.area_max.to(u.km**2)
a.age(1*u.day); b.age(1*u.day)
a.age(4*u.day); b.age(4*u.day)
assert abs((a.area_current/b.area_current).to_value('') - 1) < 1e-6
''')
seed('m18', 'C23', [(P, "self.spots += tuple(spot)", "self.spots = self.spots + tuple(spot)")],
     'adding a spot after the star has been aged once', 'raises TypeError because the collection has become a list',
     STAR + '''
s = star(spots=[spot()])
s.age(1*u.day)
s.add_spot(spot(20, 20))
assert len(s.spots.spots) == 2
''')
seed('m19', 'C26', [(S, "mask = 1 - (self.u1+1) * (1 - mu) - self.u2 * (1 - mu)**2", "mask = 1 - (self.u1+1) * (1 - mu) - self.u1 * (1 - mu)**2")],
     'limb darkening with different coefficients and the translucent mask', 'the quadratic coefficient is ignored',
     STAR + '''
s = star(u1=0.1, u2=0.5)
mu = np.array([0.5, 1.0])
assert abs(s.ld_mask(mu)[0] - (1 - 1.1*0.5 - 0.5*0.25)) < 1e-9
''')
seed('m20', 'C22', [(S, "return np.where(np.isnan(coverage), 0, coverage)", "return coverage if np.all(np.isnan(coverage)) else np.where(np.isnan(coverage), 0, coverage)")],
     'a granulation model whose samples are all undefined', 'the star returns undefined coverage',
     STAR + '''
s = star(granulation=vsm.Granulation(0.2, 0.1, 5*u.hr, 200*u.K, seed=1))
s.granulation.get_coverage = lambda t: np.full(t.shape, np.nan)
assert np.all(np.isfinite(s.get_granulation_coverage(np.linspace(0, 1, 3)*u.hr)))
''')
