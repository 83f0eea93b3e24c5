From f9c9d04bb44152243e0e379adf8ff87fa19d4449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 01/17] fix: average_teff parses the temperature labels
 returned by calc_coverage

---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 32bb960..6bb3e56 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -620,7 +620,7 @@ class Star:
         num = 0
         den = 0
         for teff, value in dat.items():
-            num += teff**4 * value
+            num += u.Quantity(teff)**4 * value
             den += value
         return ((num/den)**(0.25)).to(u.K)
 
-- 
2.43.0


From 1666ee391e5e405703f3bfa4682235cfc8497fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 02/17] fix: calc_coverage keeps all the area when temperature
 labels coincide or no photosphere is left

---
 vspec_vsm/star.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 6bb3e56..210ae63 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -555,13 +555,15 @@ class Star:
             pix_has_teff = np.where(surface_map == teff, 1, 0)
             nominal_area = np.sum(pix_has_teff*ld*proj_area)
             covered_area = np.sum(pix_has_teff*ld*proj_area*(covered))
-            total_data[f'{teff:.2f}'] = nominal_area/total_area
-            covered_data[f'{teff:.2f}'] = covered_area/total_area
+            # accumulate. Different Teffs can share the same rounded label.
+            key = f'{teff:.2f}'
+            total_data[key] = total_data.get(key, 0) + nominal_area/total_area
+            covered_data[key] = covered_data.get(key, 0) + covered_area/total_area
         granulation_teff = self.teff - self.granulation.dteff
         # initialize. This way it's okay if there's something else with that Teff too.
-        if granulation_teff not in teffs:
-            total_data[f'{granulation_teff:.2f}'] = 0
-            covered_data[f'{granulation_teff:.2f}'] = 0
+        for key in (f'{self.teff:.2f}', f'{granulation_teff:.2f}'):
+            total_data.setdefault(key, 0)
+            covered_data.setdefault(key, 0)
 
         phot_frac = total_data[f'{self.teff:.2f}']
         total_data[f'{self.teff:.2f}'] = phot_frac * (1-granulation_fraction)
-- 
2.43.0


From e703131745681d507c76ef737c575846064b023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 03/17] fix: build the surface map in double precision so
 pixels keep the exact stellar Teff

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 4ae976b..4f195ca 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -436,7 +436,7 @@ class SpotCollection:
         surface_map : array of astropy.units.Quantity , shape(M,N)
             Map of the stellar surface with Teff assigned to each pixel
         """
-        surface_map = self.gridmaker.zeros()*star_teff.unit + star_teff
+        surface_map = self.gridmaker.zeros(dtype='float64')*star_teff.unit + star_teff
         for spot in self.spots:
             teff_dict = spot.map_pixels(star_rad)
             # penumbra
-- 
2.43.0


From 586ab19feae8a137a582235f2cc6ac0351e85a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 04/17] fix: add_spot recomputes the footprint of a spot on the
 collection's grid

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 4f195ca..9ce72dc 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -390,7 +390,7 @@ class SpotCollection:
         if isinstance(spot, StarSpot):
             spot = [spot]
         for s in spot:
-            s.gridmaker = self.gridmaker
+            s.set_gridmaker(self.gridmaker)
         self.spots += tuple(spot)
 
     def clean_spotlist(self):
-- 
2.43.0


From 5e4be9e72aa93e2029100e1752026f2e42e2724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 05/17] fix: comparing a RectangularGrid to another kind of
 CoordinateGrid is False, not TypeError

---
 vspec_vsm/coordinate_grid.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/coordinate_grid.py b/vspec_vsm/coordinate_grid.py
index 8f5433b..a657270 100644
--- a/vspec_vsm/coordinate_grid.py
+++ b/vspec_vsm/coordinate_grid.py
@@ -339,8 +339,12 @@ class RectangularGrid(CoordinateGrid):
             If `other` is not a CoordinateGrid object.
 
         """
-        if not isinstance(other, RectangularGrid):
-            raise TypeError('other must be of type RectangularGrid')
+        if not isinstance(other, CoordinateGrid):
+            raise TypeError('other must be of type CoordinateGrid')
+        elif not isinstance(other, RectangularGrid):
+            warnings.warn(
+                'Comparing two different subclasses of CoordinateGrid. Evaluating to False.')
+            return False
         else:
             return (self.nlat == other.nlat) & (self.nlon == other.nlon)
 
-- 
2.43.0


From a67a6870cb49701cf0ef199856897fe2efbb7fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 06/17] fix: get_granulation_coverage looks up the amplitude
 under its actual key

---
 vspec_vsm/star.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index 210ae63..fabd3e3 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -778,7 +778,7 @@ class Star:
         if self.granulation is None:
             return np.zeros(shape=time.shape)
         else:
-            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['amp'] == 0):
+            if self.granulation.dteff == 0*u.K or (self.granulation.params['mean'] == 0 and self.granulation.params['scale'] == 0):
                 shape = time.shape
                 arr = np.zeros(shape=shape)
                 return arr
-- 
2.43.0


From cb8cd08bed44881bf36ccd10632b240e5e240d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 07/17] fix: SpotGenerator.off uses a growth rate with units of
 inverse time

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 9ce72dc..bb13be4 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -619,7 +619,7 @@ class SpotGenerator:
             dist_area_logsigma=1,
             umbra_teff=0*u.K,
             penumbra_teff=0*u.K,
-            growth_rate=0*u.day,
+            growth_rate=0/u.day,
             decay_rate=0*MSH/u.day,
             init_area=10*MSH,
             distribution='iso',
-- 
2.43.0


From d8d3991b158664f01746d019e034389d146c88cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 08/17] fix: FlareGenerator.pdf is a density per unit energy

---
 vspec_vsm/flares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index 62eace0..cdb94e6 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -325,7 +325,7 @@ class FlareGenerator:
         pdf : float or np.ndarray
             The probability density of energy
         """
-        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(u.dimensionless_unscaled)
+        return (-self.alpha * energy**(self.alpha-1)/self.min_energy**self.alpha).to_value(1/self.energy_unit)
 
     def cdf(self, energy: u.Quantity):
         """
-- 
2.43.0


From 7603219324ab2f062f72a45c0aaad2c3ab1d8e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 09/17] fix: angular distances are not NaN when roundoff pushes
 the cosine past one

---
 vspec_vsm/helpers.py | 3 ++-
 vspec_vsm/spots.py   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 1c76705..8ba9982 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -100,7 +100,7 @@ def get_angle_between(
     mu = (np.sin(lat1) * np.sin(lat2)
           + np.cos(lat1) * np.cos(lat2)
           * np.cos(lon1-lon2))
-    return np.arccos(mu)
+    return np.arccos(np.clip(mu, -1, 1))
 
 def proj_ortho(
     lat0: u.Quantity,
@@ -188,6 +188,7 @@ def proj_ortho(
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
               * np.cos(lon0-lons))
+        mu = np.clip(mu, -1, 1)  # protect arccos from roundoff
         a = np.arccos(mu)
         num = np.cos(c) - np.cos(a)*np.cos(b)
         den = np.sin(a)*np.sin(b)
diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index bb13be4..12fbb86 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -244,7 +244,7 @@ class StarSpot:
         cos_c0 = (np.sin(sub_obs_coords['lat']) * np.sin(self.coords['lat'])
                   + np.cos(sub_obs_coords['lat']) * np.cos(self.coords['lat'])
                   * np.cos(sub_obs_coords['lon']-self.coords['lon']))
-        c0 = np.arccos(cos_c0)
+        c0 = np.arccos(np.clip(cos_c0, -1, 1))
         c = np.linspace(-90, 90, n_points)*u.deg
         a = self.angular_radius(star_rad).to(u.deg)
         rad = a**2 - (c-c0)**2
-- 
2.43.0


From c297199cfa649849dd59792c5a4c42dd1db71c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 10/17] fix: circle overlap fraction is finite and within [0,1]
 for tangent circles

---
 vspec_vsm/helpers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index 8ba9982..c830611 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -274,13 +274,14 @@ def calc_circ_fraction_inside_unit_circle(x, y, r):
     d2 = (d**2 + r**2 - R**2) / (2*d)
 
     def area(_R, _d):
-        return _R**2 * np.arccos(_d/_R) - _d * np.sqrt(_R**2 - _d**2)
+        cos_angle = np.clip(_d/_R, -1, 1)  # roundoff when circles are tangent
+        return _R**2 * (np.arccos(cos_angle) - cos_angle * np.sqrt(1 - cos_angle**2))
     A1 = area(R, d1)
     A2 = area(r, d2)
     area_of_intersection = A1+A2
 
     area_of_circle = np.pi*r**2
-    return area_of_intersection/area_of_circle
+    return np.clip(area_of_intersection/area_of_circle, 0, 1)
 
 def clip_teff(teff: u.Quantity):
     """
-- 
2.43.0


From 4821ec19b837ae9f6eb4c3f9871b13ff9f670e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 11/17] fix: proj_ortho accounts for the central longitude when
 centered on a pole

---
 vspec_vsm/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index c830611..ffa65c1 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -180,10 +180,10 @@ def proj_ortho(
     c = np.pi/2 - lats
     if b == 0:  # centered on north pole
         a = c
-        C = np.where(c <= np.pi/2, np.pi-lons, np.nan)
+        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
     elif b == np.pi:  # centered on south pole
         a = c
-        C = np.where(c >= np.pi/2, lons, np.nan)
+        C = np.where(c >= np.pi/2, lons-lon0, np.nan)
     else:  # centered elsewhere
         mu = (np.sin(lat0) * np.sin(lats)
               + np.cos(lat0) * np.cos(lats)
-- 
2.43.0


From a7139039b986b3c5f7855c8b8de5dbd558fdd7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 12/17] fix: a decaying spot's area stops at zero instead of
 going negative

---
 vspec_vsm/spots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index 12fbb86..ba06a25 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -288,7 +288,7 @@ class StarSpot:
 
         If the spot is not growing, it calculates the area that the spot should
         decay (`area_decay`). If the decayed area (`area_decay`) is greater than
-        the maximum area (`area_max`), the `area_current` attribute is set to zero.
+        the current area (`area_current`), the `area_current` attribute is set to zero.
         Otherwise, it updates the `area_current` attribute accordingly.
         """
         if self.is_growing:
@@ -311,7 +311,7 @@ class StarSpot:
                     self.area_current = self.area_max - area_decay
         else:
             area_decay = time * self.decay_rate
-            if area_decay > self.area_max:
+            if area_decay > self.area_current:
                 self.area_current = 0*MSH
             else:
                 self.area_current = self.area_current - area_decay
-- 
2.43.0


From 9d9c2ef236421ee1a24d815dedca0899c74e0573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 13/17] fix: mean_area subtracts the initial area in the growth
 integral

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index ba06a25..d433562 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -672,7 +672,7 @@ class SpotGenerator:
             return self.dist_area_mean
         else:
             integrated_area = (self.dist_area_mean / self.growth_rate) \
-                + (self.init_area / self.growth_rate) \
+                - (self.init_area / self.growth_rate) \
                 + (self.dist_area_mean**2/2/self.decay_rate)
             return integrated_area / self.mean_lifetime
 
-- 
2.43.0


From ff4a417c57edab7bc606bf9f380e67c5f73ad074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:56 +0000
Subject: [PATCH 14/17] fix: flare integral over a window shorter than 20
 minutes is not zero

---
 vspec_vsm/flares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/flares.py b/vspec_vsm/flares.py
index cdb94e6..8f9b8ac 100644
--- a/vspec_vsm/flares.py
+++ b/vspec_vsm/flares.py
@@ -679,7 +679,7 @@ class FlareCollection:
             tstart, tfinish, sub_obs_coords)
         flare_timeareas = []
         time_resolution = 10*u.min
-        N_steps = int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value)
+        N_steps = max(2, int(((tfinish-tstart)/time_resolution).to(u.Unit('')).value))
         time = np.linspace(tstart, tfinish, N_steps)
         for flare in visible_flares:
             timearea = flare.get_timearea(time)
-- 
2.43.0


From 60d4ad73de7013ced378fc4506d408d1fa3baeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:40 +0000
Subject: [PATCH 15/17] fix: a spot as large as the star has an angular radius
 of 180 degrees, not NaN

---
 vspec_vsm/spots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vspec_vsm/spots.py b/vspec_vsm/spots.py
index d433562..48fa724 100644
--- a/vspec_vsm/spots.py
+++ b/vspec_vsm/spots.py
@@ -186,7 +186,7 @@ class StarSpot:
             The angular radius of the spot.
         """
         cos_angle = 1 - self.area_current/(2*np.pi*star_rad**2)
-        return (np.arccos(cos_angle)).to(u.deg)
+        return (np.arccos(np.clip(cos_angle, -1, 1))).to(u.deg)
 
     def map_pixels(self, star_rad: Quantity) -> dict:
         """
-- 
2.43.0


From fb7fb8b9101dc248d331c8a3a901d336cbf54d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:40 +0000
Subject: [PATCH 16/17] fix: faculae whose wall and floor Teff round to the
 same value can be mapped

---
 vspec_vsm/faculae.py | 3 +++
 vspec_vsm/star.py    | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/vspec_vsm/faculae.py b/vspec_vsm/faculae.py
index 8ea1a62..1b5b686 100644
--- a/vspec_vsm/faculae.py
+++ b/vspec_vsm/faculae.py
@@ -245,6 +245,9 @@ class Facula:
         if self.floor_dteff == self.wall_dteff:
             raise ValueError(
                 'Wall and Floor teff are equal. This is not allowed.')
+        if round_teff(self.wall_dteff) == round_teff(self.floor_dteff):
+            # the rounded Teffs cannot be told apart, so neither can the regions
+            return {round_teff(self.wall_dteff): np.pi*self.radius**2 * np.cos(angle)}
         if self.radius < self.floor_teff_min_rad:
             return {
                 round_teff(self.wall_dteff): np.pi*self.radius**2 * np.cos(angle),
diff --git a/vspec_vsm/star.py b/vspec_vsm/star.py
index fabd3e3..c272476 100644
--- a/vspec_vsm/star.py
+++ b/vspec_vsm/star.py
@@ -350,7 +350,8 @@ class Star:
                 pass
             else:
                 fracs = facula.fractional_effective_area(angle)
-                dteff_wall, dteff_floor = fracs.keys()
+                # there is only one Teff if the wall and floor round to the same value
+                dteff_wall, dteff_floor = list(fracs.keys())[0], list(fracs.keys())[-1]
                 frac = fracs[dteff_wall].value
                 mu_of_fac_pix = mu[inside_fac]
                 border_mu = np.percentile(mu_of_fac_pix, 100*frac)
-- 
2.43.0


From 66a400db53cd7c276fc343b1c8e7b6345d8c51e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:56 +0000
Subject: [PATCH 17/17] fix: proj_ortho is accurate and not NaN near the disk
 center and near the poles

---
 vspec_vsm/helpers.py | 56 +++++++++-----------------------------------
 1 file changed, 11 insertions(+), 45 deletions(-)

diff --git a/vspec_vsm/helpers.py b/vspec_vsm/helpers.py
index ffa65c1..e1f2746 100644
--- a/vspec_vsm/helpers.py
+++ b/vspec_vsm/helpers.py
@@ -143,12 +143,10 @@ def proj_ortho(
 
         \\cos{c} = \\cos{a} \\cos{b} + \\sin{a} \\sin{b} \\cos{C}
 
-    We want to find :math:`C`.
+    We want to find :math:`\\sin{a} \\sin{C}` and :math:`\\sin{a} \\cos{C}`.
         - :math:`b` is the colatitude of the central point.
         - :math:`c` is the colatitude of the other points.
         - :math:`a` is the distance of each point from the center (i.e. :math:`\\cos{\\mu}`)
-    This can be difficult for special cases, but this code attempts
-    to account for those.
 
     Examples
     --------
@@ -176,48 +174,16 @@ def proj_ortho(
     lat0: float = lat0.to_value(u.rad)
     lons: np.ndarray = lons.to_value(u.rad)
     lats: np.ndarray = lats.to_value(u.rad)
-    b = np.pi/2 - lat0
-    c = np.pi/2 - lats
-    if b == 0:  # centered on north pole
-        a = c
-        C = np.where(c <= np.pi/2, np.pi-(lons-lon0), np.nan)
-    elif b == np.pi:  # centered on south pole
-        a = c
-        C = np.where(c >= np.pi/2, lons-lon0, np.nan)
-    else:  # centered elsewhere
-        mu = (np.sin(lat0) * np.sin(lats)
-              + np.cos(lat0) * np.cos(lats)
-              * np.cos(lon0-lons))
-        mu = np.clip(mu, -1, 1)  # protect arccos from roundoff
-        a = np.arccos(mu)
-        num = np.cos(c) - np.cos(a)*np.cos(b)
-        den = np.sin(a)*np.sin(b)
-        den[den==0]=1e-20 # supress warning. This is overwritten anyway.
-        cos_C = np.where(
-            mu < 1,
-            num / den,
-            1
-        )
-        cos_C = np.round(cos_C, 4)
-        C = np.where(
-            lons == lon0,
-            0, np.arccos(cos_C)
-        )
-        C = np.where(
-            (lons == lon0) & (lats < lat0),
-            np.pi, C
-        )
-        C = np.where(
-            mu >= 0,
-            C,
-            np.nan
-        )
-        C = np.where(
-            np.sin(lons-lon0) < 0,
-            -C, C
-        )
-    x = np.sin(C)*np.sin(a)
-    y = np.cos(C)*np.sin(a)
+    dlon = lons - lon0
+    mu = (np.sin(lat0) * np.sin(lats)
+          + np.cos(lat0) * np.cos(lats)
+          * np.cos(dlon))
+    # Dividing by the sine of a small angle to find C is ill-conditioned,
+    # so use the closed forms of sin(a)*sin(C) and sin(a)*cos(C).
+    x = np.cos(lats) * np.sin(dlon)
+    y = np.cos(lat0) * np.sin(lats) - np.sin(lat0) * np.cos(lats) * np.cos(dlon)
+    x = np.where(mu >= 0, x, np.nan)
+    y = np.where(mu >= 0, y, np.nan)
     return x, y
 
 
-- 
2.43.0

