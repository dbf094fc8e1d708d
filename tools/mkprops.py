import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)
V='vspec_vsm/'
p('C01','Coverage fractions partition the visible disk',
 "For every star, viewpoint and granulation fraction in [0,1], the per-temperature coverage fractions reported for the visible disk each lie in [0,1] and sum to 1. Each temperature's fraction is the share of the disk weight carried by the pixels at that temperature, except that exactly the granulation fraction of the quiet photosphere is reported at the granulation temperature instead; temperatures that share a reported label are added, never overwritten.",
 ['inputs','configurations'],'all surface maps (any set of temperatures, including maps without quiet photosphere or with temperatures that print alike), viewpoints, limb-darkening values, granulation fractions and temperatures',
 'The tests sample one bare 3000 K star with granulation 0; no spot, facula, second temperature, label collision or granulation split is ever looked at.',
 [V+'star.py'],[('accumulation of weights per temperature label and photosphere/granulation split','Star.calc_coverage')],['return value of Star.calc_coverage'])
p('C02','Occulted fractions never exceed what is there',
 "For every temperature, the fraction reported as covered by the planet lies between 0 and the total fraction reported for that temperature, uses the same per-pixel disk weights, the same normalisation and the same granulation split, and weights each pixel by the fraction of that pixel the planet hides. Outside of transit (planet clear of the disk, or behind the star) every covered fraction is 0.",
 ['inputs','configurations'],'all surface maps, planet radii, orbits, phases, inclinations, viewpoints and granulation fractions',
 'Tests check a uniform star at mid-transit only; the relation between the two dictionaries across temperatures, with granulation, or in eclipse is never asserted.',
 [V+'star.py'],[('covered-area accumulation','Star.calc_coverage'),('mask construction and its no-transit/eclipse exits','Star.get_transit_mask')],['second return value of Star.calc_coverage','Star.get_transit_mask'])
p('C03','Nothing on the far side of the star contributes',
 "A surface point on the hemisphere facing away from the observer has zero weight in every coverage fraction and is never occulted by a transiting planet, and a flare centred on the far hemisphere is never listed as visible nor integrated. Every flare on the near hemisphere that is selected by time is listed.",
 ['inputs'],'all viewpoints, grids, limb-darkening coefficients and flare positions',
 'Tests only view a uniform star from one point and only check the type of the returned flare list.',
 [V+'star.py',V+'flares.py',V+'helpers.py'],[('projection coefficient and limb-darkening mask','Star.area_projection_coefficient, Star.ld_mask_for_plotting, Star.ld_mask'),('orthographic projection drops far-side points','proj_ortho'),('hemisphere test','FlareCollection.get_visible_flares_in_timeperiod')])
p('C04','Transit and eclipse geometry is consistent',
 "The planet is fully visible (fraction 1) unless it is behind the star, in which case its visible fraction is one minus the fraction of its disk that lies inside the stellar disk; that fraction is always a number in [0,1], is 0 when the disks are disjoint, 1 when the planet is inside, and equals the exact circle-circle overlap between those. The sky position of the planet follows orbit radius, phase (180 degrees is mid-transit) and inclination (90 degrees is edge-on) identically in the transit and the eclipse code.",
 ['inputs'],'all orbit radii, planet radii up to the stellar radius, phases and inclinations',
 'The eclipse branch is never reached by a test and the overlap function is sampled at six points.',
 [V+'helpers.py',V+'star.py'],[('circle overlap','calc_circ_fraction_inside_unit_circle'),('planet position','Star.get_transit_mask, Star.get_pl_frac')])
p('C05','All angular separations are great-circle distances',
 "Wherever the model needs the angular separation of two surface points (viewing angle of a pixel, distance of a pixel from a spot or facula centre, angle of a facula or spot from disk centre, visibility of a flare) it uses the true great-circle separation: it is symmetric, unchanged by rotating both longitudes together or by adding full turns, zero for coincident points, and a finite number between 0 and 180 degrees for every pair of points. The orthographic projection places every visible point at the matching radius and position angle (x grows to the east, y to the north).",
 ['inputs'],'all pairs of latitudes and longitudes, including coincident, antipodal, polar and wrapped ones',
 'Tests sample six pairs for one of the seven implementations with 1 degree tolerance; coincident points off the equator, poles and the far side are not sampled.',
 [V+'helpers.py',V+'coordinate_grid.py',V+'spots.py',V+'faculae.py',V+'flares.py'],[('law of cosines / haversine at seven sites','get_angle_between, proj_ortho, CoordinateGrid.cos_angle_from_disk_center, StarSpot.set_gridmaker, StarSpot.surface_fraction, Facula._r, FlareCollection.get_visible_flares_in_timeperiod')])
p('C06','Surface grids tile the whole sphere consistently',
 "For every grid (rectangular ones with at least 3 latitudes), latitudes, longitudes, cell weights and blank maps have the same shape and index order; latitudes stay within [-90,90] degrees and span both hemispheres symmetrically, longitudes lie in [0,360) degrees without a repeated meridian. The cell weights are non-negative, sum to 1 over the sphere, and are proportional to the solid angle at each point's latitude. Two grids compare equal exactly when they are of the same kind and size.",
 ['configurations'],'all grid kinds and sizes',
 'Tests look at shapes of some of the arrays for one size; weights, ranges, repetition and symmetry are never checked.',
 [V+'coordinate_grid.py'],[('rectangular grid','RectangularGrid, get_lat_points, get_lon_points'),('spiral grid','SpiralGrid'),('dispatch on grid parameters','CoordinateGrid.new')])
p('C07','Every feature is mapped on its star\'s own grid',
 "However a spot or facula reaches a star or a collection (given at construction, added singly or as a sequence, born, or generated mature) and whatever grid it was built on, it is from then on evaluated on that star's or collection's grid: its pixel mask has the grid's shape and marks exactly the pixels it would mark had it been built on that grid. Generators handed to a star produce features on the star's grid.",
 ['histories','configurations'],'all sequences of construction, adding, birth and regridding over all combinations of grid kinds and sizes',
 'Tests compare grid attributes only, on one pair of sizes, and never map a feature that came from a different grid.',
 [V+'spots.py',V+'faculae.py',V+'star.py'],[('regridding on entry','SpotCollection.add_spot/set_gridmaker, FaculaCollection.add_faculae/set_gridmaker, StarSpot.set_gridmaker'),('wiring at construction','Star.__init__, Star.set_spot_grid, Star.set_fac_grid')],
 state=[('spot distance array','pre-computed angular distance of every grid point from the spot centre; must match the current grid','StarSpot.r')])
p('C08','Observing never changes the model',
 "Reading anything from a star, collection, feature, grid or generator (maps, coverage, transit masks, angles, weights, areas, light curves, expected numbers, flare selections, display resampling) leaves every object of the model, and every array, dictionary or list the caller passed in, exactly as it was, and does not consume random numbers. Asking the same question twice gives the same answer, and an answer already given is not altered by later questions.",
 ['histories'],'all query methods in all model states, in any order',
 'No test repeats a query or compares state before and after.',
 [V+'star.py',V+'spots.py',V+'faculae.py',V+'flares.py',V+'coordinate_grid.py',V+'helpers.py'],[('queries build fresh arrays and write no attribute','all query methods')])
p('C09','Answers reflect the current state, never a stale one',
 "After any sequence of aging, adding, birth, removal, regridding or assigning to a public property (sizes, temperatures, depths, rates, limb darkening, star temperature and radius), every query returns what a freshly built model with the same current contents would return. In particular the surface map and coverage follow every change of spots, faculae, temperature and radius.",
 ['histories'],'all interleavings of state changes and queries',
 'One test checks that the map changed after one aging step.',
 [V+'star.py',V+'spots.py',V+'faculae.py',V+'flares.py'],[('maps are recomputed per query','Star.map, SpotCollection.map_pixels, Facula._r'),('derived arrays refreshed with their sources','StarSpot.set_gridmaker, FlareCollection.index')])
p('C10','Seeded runs are reproducible',
 "All randomness of spots, faculae and flares is drawn from the random generator the caller supplied (directly, or through the star for its default sub-models), and granulation depends only on its own seed and parameters. Given the same generator state or seed and the same calls, the results are identical; global random state, time and object identity never influence them.",
 ['histories','configurations'],'all generator methods, all call sequences, all seeds',
 'Tests never run anything twice with the same seed.',
 [V+'spots.py',V+'faculae.py',V+'flares.py',V+'granules.py',V+'star.py'],[('every draw goes through the stored generator','SpotGenerator, FaculaGenerator, FlareGenerator'),('key derived from the seed','Granulation.get_coverage'),('forwarding','Star.__init__ and the off() constructors')])
p('C11','Spot and facula sizes stay physical while aging',
 "Aging a spot that starts with 0 < area <= maximum area keeps its area between 0 and its maximum for any non-negative time step; while growing the area does not decrease and while decaying it does not increase, and a decaying feature never grows again. The same holds for a facula's radius, which also never reaches zero (short of underflow) or exceeds its maximum.",
 ['inputs','histories'],'all initial sizes, rates, lifetimes and sequences of step lengths',
 'Tests follow two spots and one facula with hand-picked steps.',
 [V+'spots.py',V+'faculae.py'],[('growth/decay law','StarSpot.age, Facula.age')],state=[('size and phase','current area or radius and growing flag','StarSpot.area_current/is_growing, Facula.radius/is_growing')])
p('C12','Aging does not depend on how time is sliced',
 "Aging a spot, a facula, a collection or a star by t1 and then by t2 leads to the same sizes, phases and surviving features as aging once by t1+t2 (up to rounding), including when the maximum is reached or the feature dies inside a step; aging by zero changes nothing (a feature exactly at its maximum may turn to decay). A growing spot grows by its fractional rate per day until its maximum, then loses area linearly at its decay rate; a facula's radius grows and shrinks by a factor e^2 per lifetime.",
 ['inputs','histories'],'all initial states, rates and all splittings of an interval into steps',
 'Tests use a fixed sequence of whole-day steps and never compare two slicings.',
 [V+'spots.py',V+'faculae.py',V+'star.py'],[('closed-form growth and decay with hand-over of left-over time at the maximum','StarSpot.age, Facula.age'),('fan-out','SpotCollection.age, FaculaCollection.age, Star.age')])
p('C13','Exactly the dead features are dropped',
 "Aging a collection or star ages every contained feature exactly once by the full step and then removes exactly the decayed ones: spots that are no longer growing and have no area left, faculae that are no longer growing and have shrunk to at most 1/e^2 of their maximum radius. All other features are kept, unchanged in identity and order, and adding features keeps all previous ones.",
 ['inputs','histories'],'all mixtures of live, dead, growing and decaying features and all steps',
 'Tests clean lists with one dead element.',
 [V+'spots.py',V+'faculae.py',V+'star.py'],[('filtering','SpotCollection.clean_spotlist, FaculaCollection.clean_faclist'),('fan-out','SpotCollection.age, FaculaCollection.age, Star.age'),('growth','SpotCollection.add_spot, FaculaCollection.add_faculae')])
p('C14','The coolest spot region wins on the surface map',
 "Every pixel of the spot map has the photosphere temperature or the coolest of the temperatures of the umbrae and penumbrae covering it, never hotter than the photosphere, independently of the order of the spots (for spots whose umbra is not hotter than their penumbra). A pixel belongs to a spot when its distance from the centre is below the angular radius of a cap of the spot's area, and to the umbra when it is below that radius divided by the square root of the area ratio; reported spot coverage is the area-weighted share of such pixels.",
 ['inputs','configurations'],'all sets and orders of overlapping spots, temperatures, areas, ratios and star radii',
 'Tests map two coincident spots in one order with equal umbra and penumbra temperature.',
 [V+'spots.py'],[('painting rule','SpotCollection.map_pixels'),('masks','StarSpot.map_pixels, StarSpot.angular_radius'),('coverage','SpotCollection.get_coverage')])
p('C15','A facula splits its area between wall and floor without loss',
 "At every viewing angle the wall and floor areas of a facula are non-negative on the near side and add up to its projected area pi r^2 cos(angle), and the fractions add up to 1; the floor share is the overlap of the two rim circles displaced by depth times tan(angle), shrinking towards the limb, and a facula below the minimum radius shows only wall. On the surface map the wall fraction of its pixels closest to the limb gets star temperature plus wall contrast and the rest star temperature plus floor contrast (each limited to the model grid), with contrasts linear in radius; no pixel outside the facula changes.",
 ['inputs','configurations'],'all radii, depths, contrasts, slopes, viewing angles and viewpoints',
 'Tests check area sums at three angles; painting of faculae on the map is not tested at all.',
 [V+'faculae.py',V+'star.py',V+'helpers.py'],[('split','Facula.effective_area, Facula.fractional_effective_area'),('contrast laws','Facula.floor_dteff, Facula.wall_dteff'),('painting','Star.add_faculae_to_map')])
p('C16','A flare radiates exactly its energy',
 "The area light curve of a flare, integrated over its whole duration and multiplied by the blackbody flux at its temperature, gives back its bolometric energy: the closed-form profile integral agrees with the sampled profile in coefficients, support and scaling with width and amplitude. The profile is zero before one width ahead of the peak and after twenty widths past it, peaks at the peak time with the peak area, and several flares add linearly.",
 ['inputs'],'all widths, energies, temperatures, peak times and sampling times',
 'No test evaluates a light curve or an integral.',
 [V+'flares.py',V+'xoflares.py'],[('normalisation','StellarFlare.calc_peak_area, StellarFlare.areacurve'),('profile and its integral','_flaremodelnp, _flareintegralnp, multiflaremodelnp, get_light_curvenp')])
p('C17','A time window misses no flare and mixes up none',
 "Every flare whose light curve is non-zero somewhere in the requested window is selected, every selected flare is one of the collection, and peak and width tables stay aligned with the flare list. Each visible selected flare is reported once with its own temperature and its own area-time integral over exactly the requested window, sampled at least every ten minutes including both ends.",
 ['inputs'],'all windows (short, long, starting or ending inside a flare) and flare sets',
 'Tests only check the types of the returned lists.',
 [V+'flares.py',V+'star.py'],[('selection mask with padding','FlareCollection.mask, FlareCollection.index'),('integration','FlareCollection.get_flare_integral_in_timeperiod, StellarFlare.get_timearea')])
p('C18','The flare energy law is self-consistent',
 "The expected number of flares above an energy is 10^beta * E^alpha per day times the duration; the energy quantile function is the exact inverse of the cumulative distribution, the density is its derivative, no generated flare is below the minimum energy and the count drawn uses the rate at the minimum energy. Every generated flare gets its own peak time, width, temperature and position, and energies, widths, temperatures and positions are not ordered in time; peak times are non-decreasing fractions of the duration.",
 ['inputs','configurations'],'all energies, slopes, intercepts, minimum energies, durations and random draws',
 'Tests only check types and lengths.',
 [V+'flares.py'],[('rate law','FlareGenerator.frequency_greater_than, get_nexp_greater_than, get_ntotal'),('distribution','FlareGenerator.pdf, cdf, quantile_func'),('assembly','FlareGenerator.get_peaks, generate_flare_series')])
p('C19','Birth rates keep the requested coverage',
 "The expected number of new spots or faculae is coverage times stellar surface area divided by the mean feature area, times elapsed time over mean lifetime: linear in coverage, time and stellar surface, zero for zero coverage or static spots, never negative or undefined. The mean facula area is pi r^2 (1 - e^-2)/2 as documented; the mean spot area and lifetime are the time average and duration of the documented growth-then-decay history, so the mean area never exceeds the maximum; the number drawn has exactly this expectation.",
 ['inputs','configurations'],'all coverages, durations, stellar radii and generator parameters',
 'Tests evaluate one spot generator at zero coverage.',
 [V+'spots.py',V+'faculae.py',V+'star.py'],[('expected number','SpotGenerator.get_n_spots_to_birth, FaculaGenerator.get_n_faculae_expected'),('averages','SpotGenerator.mean_area, mean_lifetime, FaculaGenerator.mean_area'),('draw','SpotGenerator.birth_spots, FaculaGenerator.birth_faculae')])
p('C20','Generated features carry their generator\'s settings and valid positions',
 "Every generated spot or facula has the temperatures or contrasts, growth and decay rates, depth and starting size configured on its generator, its own drawn maximum size (spots also a positive ratio of total to umbra area), and is born growing; exactly the requested number is returned; flare widths scatter in decades and temperatures linearly around the configured means, facula radius and lifetime scatter together. Isotropic positions are uniform on the sphere (longitude uniform over 360 degrees, sine of latitude uniform), solar positions are symmetric about the equator around +-15 degrees. Mature spots of an evolving model are spots aged to an age drawn uniformly within the mean lifetime; they are added until their summed solid angle reaches the requested coverage, and coverages outside [0,1] are rejected.",
 ['inputs','configurations'],'all generator settings, counts and random draws',
 'Tests check counts, one attribute and the rejected coverages.',
 [V+'spots.py',V+'faculae.py',V+'flares.py'],[('assembly','SpotGenerator.generate_spots, FaculaGenerator.generate_faculae'),('positions','SpotGenerator.get_coordinates, FaculaGenerator.get_coords, FlareGenerator.gen_coords'),('mature spots','SpotGenerator.generate_mature_spots')])
p('C21','Answers do not depend on the units of the inputs',
 "Expressing any input quantity in another unit of the same kind (degrees or radians, hours or days, kilometres or solar radii, erg or joule, areas in micro-hemispheres or square kilometres) never changes the physical value of any result or of the evolved state. Quantities of the wrong kind are never silently accepted as numbers.",
 ['inputs'],'all public operations and all compatible units for each argument',
 'Each test uses a single unit per argument.',
 [V+'star.py',V+'spots.py',V+'faculae.py',V+'flares.py',V+'granules.py',V+'helpers.py',V+'coordinate_grid.py'],[('conversion before stripping units','every to_value/.value site')])
p('C22','Granulation coverage is always a valid fraction',
 "The granulation coverage returned by a star or a granulation model has one value per requested time, every value lies in [0,1] (a star never returns an undefined value), follows from the same time axis and period in hours whatever their units, and is identically 0 when granulation is disabled (no contrast, or zero mean and amplitude).",
 ['inputs','configurations'],'all means, amplitudes, periods, seeds and time axes',
 'Tests sample one seed at one setting; the disabled configurations are not queried.',
 [V+'granules.py',V+'star.py'],[('clamping','save_cast_coverage, Granulation.get_coverage'),('disabled and undefined cases','Star.get_granulation_coverage')])
p('C23','Every documented operation works on every valid model',
 "Each public operation, called with documented argument types on a validly constructed model (including the default disabled sub-models, any mix of grids, empty collections, and every documented distribution; flare queries after a flare series exists; plotting included), completes without raising; invalid arguments that are documented as rejected raise the documented error.",
 ['configurations','inputs'],'all public methods over all documented configurations',
 'Half of the public methods are never called by a test (e.g. average temperature, flare density, flare integrals, plotting helpers, disabled generators).',
 [V+'star.py',V+'spots.py',V+'faculae.py',V+'flares.py',V+'granules.py',V+'helpers.py',V+'coordinate_grid.py'],[('type, key, unit and shape compatibility along every path','all public methods')])
p('C24','Display resampling keeps values, units and orientation',
 "Resampling surface data for display returns latitudes, longitudes and data with matching axes (longitude first in the data) and the data's own unit; every displayed value lies between the smallest and largest data value, uniform data stay uniform, and each displayed point is weighted towards the nearest data. Data that do not fit the grid are rejected.",
 ['inputs','configurations'],'all data, grids and target sizes',
 'Tests check shapes and unit for one smooth field.',
 [V+'coordinate_grid.py'],[('gaussian-weighted mean','SpiralGrid._display_grid'),('pass-through with checks','RectangularGrid._display_grid, CoordinateGrid.display_grid')])
p('C25','Disabled sub-models stay silent',
 "A star built without generators, or with the documented disabled generators, never produces a spot, facula or flare by birth or flare series however long it is run, reports zero granulation, and its coverage is 1 at the photosphere temperature; features put on it by hand still age and map normally.",
 ['histories','configurations'],'all durations, call sequences and random draws on disabled sub-models',
 'Tests only check the types of the default sub-models.',
 [V+'star.py',V+'spots.py',V+'faculae.py',V+'flares.py',V+'granules.py'],[('off() constructors','SpotGenerator.off, FaculaGenerator.off, FlareGenerator.off, Granulation.off'),('defaults','Star.__init__')])
p('C26','Pixel weights follow projection and quadratic limb darkening',
 "The disk weight of a visible pixel is its share of the sphere times the cosine of its viewing angle times 1 - u1(1-mu) - u2(1-mu)^2, with the user's own coefficients; the weight at disk centre is not darkened, and the same law (with the projection folded in) is used by the translucent mask. Bolometric average temperature is the fourth root of the coverage-weighted mean fourth power, so it lies between the coolest and hottest visible temperature.",
 ['inputs'],'all limb-darkening coefficients, viewpoints and coverage compositions',
 'Tests use one coefficient on a uniform star, where any weight cancels.',
 [V+'star.py'],[('limb darkening and projection','Star.ld_mask_for_plotting, Star.ld_mask, Star.area_projection_coefficient, Star.get_jacobian, Star.calc_coverage'),('bolometric mean','Star.average_teff')])
p('C27','Transit depth converges to the geometric value',
 "As the surface grid is refined, the covered fraction of a uniform star at mid-transit converges to the squared radius ratio, and refining never moves it away beyond the discretisation error.",
 ['configurations'],'all grid resolutions and radius ratios','One grid of a million points and ten radii are sampled with 5% tolerance.',
 [V+'star.py'],[('per-pixel gaussian overlap','Star.get_transit_mask')])
p('C28','Random draws follow their documented distributions',
 "Over many draws, spot areas and flare widths are log-normal, counts Poisson, latitudes and energies distributed as documented, and long-run coverage approaches the requested one.",
 ['inputs'],'the distribution over all seeds','No statistical test exists.',
 [V+'spots.py',V+'faculae.py',V+'flares.py'],[('calls into the random generator','all generators')])
p('C29','Granulation variability has the documented covariance',
 "The granulation series is drawn from a Gaussian process around the configured mean whose covariance between any two requested times is scale/period * exp(-x) * cos(x - pi/4) with x = |time difference|/(period*sqrt 2), both in hours. The covariance is symmetric, depends on the separation only, contains no added noise, and the series is evaluated exactly at the requested times.",
 ['inputs','configurations'],'all time axes, periods, scales and seeds','Tests only evaluate the kernel once.',
 [V+'granules.py'],[('kernel','GranulationKernel.evaluate'),('process','Granulation._build_gp, Granulation.get_coverage')])
p('C30','The surface plot shows the modelled disk',
 "The surface plot shows the current surface map with faculae (in kelvin, at its own longitudes and latitudes in degrees) seen from the requested viewpoint, shades the limb by the star's limb darkening, and draws the planet exactly where it hides the disk, in front of the star in transit and not at all when behind it. A plot area supplied by the caller is turned to the viewpoint and used; plotting leaves the model unchanged.",
 ['inputs','configurations'],'all surface maps, viewpoints, limb-darkening coefficients, orbits and phases',
 'No test calls a plotting function.',
 [V+'star.py',V+'coordinate_grid.py'],[('plot assembly','Star.plot_surface'),('display resampling','CoordinateGrid.display_grid')],['calls into the plotting library'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
