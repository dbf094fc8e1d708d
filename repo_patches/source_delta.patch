From 9f3c00807cbd8cc85a020e79eda006271083b003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 01/15] fix: recompute pixel distances when a spot is moved to
 another grid

add_spot and set_spot_grid replaced spot.gridmaker but kept spot.r of the old
grid, so mapping the spot raised a broadcast error or marked wrong pixels.
---
 vspec_vsm/spots.py | 2 +-
 vspec_vsm/star.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 4ae976b..9545480 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -390,7 +390,7 @@ class SpotCollection:
         if isinstance(spot, StarSpot):
             spot = [spot]
         for s in spot:
-            s.gridmaker = self.gridmaker
+            s.set_gridmaker(self.gridmaker)
         self.spots += tuple(spot)
 
     def clean_spotlist(self):
diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 32bb960..5feb90a 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -177,7 +177,7 @@ class Star:
         Set the gridmaker for each spot to be the same.
         """
         for spot in self.spots.spots:
-            spot.gridmaker = self.gridmaker
+            spot.set_gridmaker(self.gridmaker)
 
     def set_fac_grid(self):
         """
-- 
2.43.0


From 298e768d476855bc0fa67be967e408f51d36607f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 02/15] fix: accept faculae built on another kind of grid in
 add_faculae

Comparing a rectangular grid with a spiral grid raises TypeError.
---
 vspec_vsm/faculae.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 8ea1a62..f8493f3 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -380,8 +380,7 @@ class FaculaCollection:
             facula = (facula,)
         for fac in facula:
             fac: Facula
-            if not fac.gridmaker == self.gridmaker:
-                fac.gridmaker = self.gridmaker
+            fac.gridmaker = self.gridmaker
         self.faculae += tuple(facula)
 
     def clean_faclist(self) -> None:
-- 
2.43.0


From 00c106385ee776d5caaac3dfddd8e60c72c7fab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 03/15] fix: average_teff works with the string labels of
 calc_coverage

---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 5feb90a..bd8f049 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -620,7 +620,7 @@ class Star:
         num = 0
         den = 0
         for teff, value in dat.items():
-            num += teff**4 * value
+            num += u.Quantity(teff)**4 * value
             den += value
         return ((num/den)**(0.25)).to(u.K)
 
-- 
2.43.0


From 5c5702a723b91410600545276eda873dd5bdec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 04/15] fix: look up the granulation amplitude under its actual
 name

get_granulation_coverage raised KeyError('amp') for zero mean coverage.
---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index bd8f049..c9624ab 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -776,7 +776,7 @@ class Star:
         if self.granulation is None:
             return np.zeros(shape=time.shape)
         else:
-            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['amp'] == 0):
+            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0):
                 shape = time.shape
                 arr = np.zeros(shape=shape)
                 return arr
-- 
2.43.0


From e20228ce9fc5988a2d0f549b3b0ebfa78cfb1fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 05/15] fix: flare energy pdf has units of inverse energy

pdf always raised UnitConversionError.
---
 vspec_vsm/flares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index 62eace0..cdb94e6 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -325,7 +325,7 @@ class FlareGenerator:
         pdf : float or np.ndarray
             The probability density of energy
         """
-        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(u.dimensionless_unscaled)
+        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(1/self.energy_unit)
 
     def cdf(self, energy: u.Quantity):
         """
-- 
2.43.0


From fff3f52ace858f0be6a6fcba838f080a70847822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 06/15] fix: disabled generators use quantities of the right
 kind

SpotGenerator.off had a growth rate in days, FlareGenerator.off a width in erg.
---
 vspec_vsm/flares.py | 2 +-
 vspec_vsm/spots.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index cdb94e6..3f87a3c 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -251,7 +251,7 @@ class FlareGenerator:
         return cls(
             dist_teff_mean=0*u.K,
             dist_teff_sigma=0*u.K,
-            dist_fwhm_mean=0*u.erg,
+            dist_fwhm_mean=0*u.day,
             dist_fwhm_logsigma=0,
             alpha=-0.829,
             beta=26.87,
diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 9545480..55cbd35 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -619,7 +619,7 @@ class SpotGenerator:
             dist_area_logsigma=1,
             umbra_teff=0*u.K,
             penumbra_teff=0*u.K,
-            growth_rate=0*u.day,
+            growth_rate=0/u.day,
             decay_rate=0*MSH/u.day,
             init_area=10*MSH,
             distribution='iso',
-- 
2.43.0


From c32cf3edd1eac6c580902c832eee988b7b7ce4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:17 +0000
Subject: [PATCH 07/15] fix: a decaying spot never reaches a negative area

The decay was compared with the maximum area, not with what is left.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 55cbd35..46b7f18 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -311,7 +311,7 @@ class StarSpot:
                     self.area_current = self.area_max - area_decay
         else:
             area_decay = time * self.decay_rate
-            if area_decay > self.area_max:
+            if area_decay > self.area_current:
                 self.area_current = 0*MSH
             else:
                 self.area_current = self.area_current - area_decay
-- 
2.43.0


From 5672e38b7df3b826dd026daaab76ab6b7c477351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 08/15] fix: sample the whole flare window at the stated
 resolution

Windows below 20 minutes gave no or one sample (integral 0), others were
sampled more coarsely than the 10 minute resolution.
---
 vspec_vsm/flares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index 3f87a3c..5114e64 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -679,7 +679,7 @@ class FlareCollection:
             tstart, tfinish, sub_obs_coords)
         flare_timeareas = []
         time_resolution = 10*u.min
-        N_steps = int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)
+        N_steps = int(np.ceil(((tfinish-tstart)/time_resolution).to_value(u.dimensionless_unscaled))) + 1
         time = np.linspace(tstart, tfinish, N_steps)
         for flare in visible_flares:
             timearea = flare.get_timearea(time)
-- 
2.43.0


From 88bf8d404723693840edc7408895c389fa1133fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 09/15] fix: coverage labels accumulate and always include the
 photosphere

Two temperatures with the same label overwrote each other, the granulation
label could reset an existing one, and a star without any photosphere pixel
raised KeyError.
---
 vspec_vsm/star.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index c9624ab..3769191 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -555,13 +555,14 @@ class Star:
             pix_has_teff = np.where(surface_map == teff, 1, 0)
             nominal_area = np.sum(pix_has_teff*ld*proj_area)
             covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
-            total_data[f'{teff:.2f}'] = nominal_area/total_area
-            covered_data[f'{teff:.2f}'] = covered_area/total_area
+            label = f'{teff:.2f}' # distinct temperatures may share a label
+            total_data[label] = total_data.get(label, 0) + nominal_area/total_area
+            covered_data[label] = covered_data.get(label, 0) + covered_area/total_area
         granulation_teff = self.teff - self.granulation.dteff
         # initialize. This way it's okay if there's something else with that Teff too.
-        if granulation_teff not in teffs:
-            total_data[f'{granulation_teff:.2f}'] = 0
-            covered_data[f'{granulation_teff:.2f}'] = 0
+        for label in (f'{self.teff:.2f}', f'{granulation_teff:.2f}'):
+            total_data.setdefault(label, 0)
+            covered_data.setdefault(label, 0)
 
         phot_frac = total_data[f'{self.teff:.2f}']
         total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
-- 
2.43.0


From 0bd68f351e6d9c91804b27b39c3feebcfba33d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 10/15] fix: clip cosines before arccos

Rounding can push them beyond +-1 (same point, antipode, tangent circles) and
the angle became NaN.
---
 vspec_vsm/coordinate_grid.py | 2 +-
 vspec_vsm/helpers.py         | 7 ++++---
 vspec_vsm/spots.py           | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/vspec_vsm/coordinate_grid.py b/vspec_vsm/coordinate_grid.py
index 8f5433b..12152fc 100644
--- a/vspec_vsm/coordinate_grid.py
+++ b/vspec_vsm/coordinate_grid.py
@@ -484,7 +484,7 @@ class SpiralGrid(CoordinateGrid):
 
         for value, lat, lon in zip(data, data_lat, data_lon):
             cos_r = rect.cos_angle_from_disk_center(lat, lon)
-            r = np.arccos(cos_r)
+            r = np.arccos(np.clip(cos_r, -1, 1))
             weight = np.exp(-(r/characteristic_len)**2)
             numerator += weight*value
             denominator += weight
diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 1c76705..c2955a8 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -100,7 +100,7 @@ def get_angle_between(
     mu = (np.sin(lat1) * np.sin(lat2)
           + np.cos(lat1) * np.cos(lat2)
           * np.cos(lon1-lon2))
-    return np.arccos(mu)
+    return np.arccos(np.clip(mu, -1, 1))
 
 def proj_ortho(
     lat0: u.Quantity,
@@ -188,7 +188,7 @@ def proj_ortho(
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
               * np.cos(lon0-lons))
-        a = np.arccos(mu)
+        a = np.arccos(np.clip(mu, -1, 1))
         num = np.cos(c) - np.cos(a)*np.cos(b)
         den = np.sin(a)*np.sin(b)
         den[den==0]=1e-20 # supress warning. This is overwritten anyway.
@@ -200,7 +200,7 @@ def proj_ortho(
         cos_C = np.round(cos_C, 4)
         C = np.where(
             lons == lon0,
-            0, np.arccos(cos_C)
+            0, np.arccos(np.clip(cos_C, -1, 1))
         )
         C = np.where(
             (lons == lon0) & (lats < lat0),
@@ -273,6 +273,7 @@ def calc_circ_fraction_inside_unit_circle(x, y, r):
     d2 = (d**2 + r**2 - R**2) / (2*d)
 
     def area(_R, _d):
+        _d = np.clip(_d, -_R, _R)
         return _R**2 * np.arccos(_d/_R) - _d * np.sqrt(_R**2 - _d**2)
     A1 = area(R, d1)
     A2 = area(r, d2)
diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 46b7f18..072cdd0 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -244,7 +244,7 @@ class StarSpot:
         cos_c0 = (np.sin(sub_obs_coords['lat']) * np.sin(self.coords['lat'])
                   + np.cos(sub_obs_coords['lat']) * np.cos(self.coords['lat'])
                   * np.cos(sub_obs_coords['lon']-self.coords['lon']))
-        c0 = np.arccos(cos_c0)
+        c0 = np.arccos(np.clip(cos_c0, -1, 1))
         c = np.linspace(-90, 90, n_points)*u.deg
         a = self.angular_radius(star_rad).to(u.deg)
         rad = a**2 - (c-c0)**2
-- 
2.43.0


From 0ee28ad5587f2efa5b76ceb220945dae8b38f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:18 +0000
Subject: [PATCH 11/15] fix: sign of the initial area in the mean spot area

The integral of the growth phase is (A_max - A_0)/rate.
---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 072cdd0..9e19b1f 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -672,7 +672,7 @@ class SpotGenerator:
             return self.dist_area_mean
         else:
             integrated_area = (self.dist_area_mean / self.growth_rate) \
-                + (self.init_area / self.growth_rate) \
+                - (self.init_area / self.growth_rate) \
                 + (self.dist_area_mean**2/2/self.decay_rate)
             return integrated_area / self.mean_lifetime
 
-- 
2.43.0


From cca29060e256d748d838cc0a3482b8f2f3039770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:54 +0000
Subject: [PATCH 12/15] fix: keep wall and floor of a facula apart when they
 round to the same kelvin

The two dictionary entries collapsed into one, losing area and making
Star.add_faculae_to_map raise ValueError.
---
 vspec_vsm/faculae.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index f8493f3..5f20624 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -245,10 +245,13 @@ class Facula:
         if self.floor_dteff == self.wall_dteff:
             raise ValueError(
                 'Wall and Floor teff are equal. This is not allowed.')
+        wall_dteff, floor_dteff = round_teff(self.wall_dteff), round_teff(self.floor_dteff)
+        if wall_dteff == floor_dteff:  # rounding must not merge the two
+            wall_dteff, floor_dteff = self.wall_dteff, self.floor_dteff
         if self.radius < self.floor_teff_min_rad:
             return {
-                round_teff(self.wall_dteff): np.pi*self.radius**2 * np.cos(angle),
-                round_teff(self.floor_dteff): 0.0 * u.km**2
+                wall_dteff: np.pi*self.radius**2 * np.cos(angle),
+                floor_dteff: 0.0 * u.km**2
             }
         else:
             depth_over_radius = (self.depth/self.radius).to_value(u.dimensionless_unscaled)
@@ -257,8 +260,8 @@ class Facula:
             )
             proj_area = np.pi * self.radius**2 * np.cos(angle)
             return {
-                round_teff(self.wall_dteff): wall_frac*proj_area,
-                round_teff(self.floor_dteff): (1-wall_frac)*proj_area
+                wall_dteff: wall_frac*proj_area,
+                floor_dteff: (1-wall_frac)*proj_area
             }
 
     def fractional_effective_area(self, angle: Quantity) -> Dict[Quantity, Quantity]:
-- 
2.43.0


From 01f9acd83dffd2d257d7b09fb2fbf6d381c7afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:41 +0000
Subject: [PATCH 13/15] fix: reject display of data that do not fit a
 rectangular grid

---
 vspec_vsm/coordinate_grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vspec_vsm/coordinate_grid.py b/vspec_vsm/coordinate_grid.py
index 12152fc..213ae05 100644
--- a/vspec_vsm/coordinate_grid.py
+++ b/vspec_vsm/coordinate_grid.py
@@ -401,6 +401,8 @@ class RectangularGrid(CoordinateGrid):
             raise TypeError('data must have shape (nlon, nlat)')
         if not data.shape[1] == nlat:
             raise TypeError('data must have shape (nlon, nlat)')
+        if (nlat, nlon) != (self.nlat, self.nlon):
+            raise TypeError('nlat and nlon must be those of the grid')
         lats, lons = self.oned()
         return lats.to_value(u.rad), lons.to_value(u.rad), data
 
-- 
2.43.0


From 662505837245dea9879218c99f66f119d45f26ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:11 +0000
Subject: [PATCH 14/15] fix: plot the limb darkening on the displayed grid

---
 vspec_vsm/star.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 3769191..4e550d5 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -685,9 +685,11 @@ class Star:
                     transform=ccrs.PlateCarree(), zorder=zorder)
         mu = self.get_mu(lat0, lon0)
         ld = self.ld_mask_for_plotting(mu)
-        alpha = 1-ld.T/np.max(ld.T)
+        _, _, ld = self.gridmaker.display_grid(nlat, nlon, ld)
+        ld = ld.value.T
+        alpha = 1-ld/np.max(ld)
         ax.imshow(np.ones_like(ld), extent=(0, 360, -90, 90),
-                  transform=ccrs.PlateCarree(), origin='lower', alpha=alpha, cmap=plt.cm.get_cmap('gray'), zorder=100)
+                  transform=ccrs.PlateCarree(), origin='lower', alpha=alpha, cmap='gray', zorder=100)
 
     def get_flares_over_observation(self, time_duration: Quantity):
         """
-- 
2.43.0


From e6df32d201ddd70e620880862abf5bcb26c232b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:49 +0000
Subject: [PATCH 15/15] fix: orient the disk seen from above a pole by the
 sub-observer longitude

The projection ignored lon0 there, so a star seen pole-on did not turn
relative to a transiting planet, unlike for any latitude next to the pole.
---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index c2955a8..e064e74 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -180,10 +180,10 @@ def proj_ortho(
     c = np.pi/2 - lats
     if b == 0:  # centered on north pole
         a = c
-        C = np.where(c <= np.pi/2, np.pi-lons, np.nan)
+        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
     elif b == np.pi:  # centered on south pole
         a = c
-        C = np.where(c >= np.pi/2, lons, np.nan)
+        C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
-- 
2.43.0

