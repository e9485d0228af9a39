From fe140ed13e7d41632641c0c6d41c0400c2d32eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 01/17] fix: use_math() must select the builtin where(), not
 keep numpy's

---
 pysolar/numeric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index 112a59e..badd73b 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -127,7 +127,7 @@ def use_math():
     globals_import_from('math', 'atan2', 'atan2')
     globals_import_from('math', 'exp', 'exp')
     globals_import_from('math', 'e', 'e')
-    globals()['where'] = where
+    globals()['where'] = where_math
     globals()['tm_yday'] = tm_yday_math
     globals()['tm_hour'] = tm_hour_math
     globals()['tm_min'] = tm_min_math
-- 
2.43.0


From c35c7dcce3791da067d74369be55237226289121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 02/17] fix: delta-T after the end of the table is its last
 entry, whatever the month

---
 pysolar/solartime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solartime.py b/pysolar/solartime.py
index 14e9f11..fd18f32 100644
--- a/pysolar/solartime.py
+++ b/pysolar/solartime.py
@@ -733,6 +733,7 @@ def get_delta_t(when) :
         month = max(0, month - delta_t_base_month) + 1
     elif year >= delta_t_base_year + len(delta_t) :
         year = delta_t_base_year + len(delta_t) - 1
+        month = 12
     #end if
     if year == delta_t_base_year + len(delta_t) - 1 :
         month = min(month, len(delta_t[year - delta_t_base_year]))
-- 
2.43.0


From 1e6818a96534b6859842d4f3faf8ae0749dcb9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 03/17] fix: cubic term of the mean sidereal time

---
 pysolar/solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 663d39b..6d3e673 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -264,7 +264,7 @@ def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right
 def get_mean_sidereal_time(jd):
     # This function doesn't agree with Andreas and Reda as well as it should. Works to ~5 sig figs in current unit test
     jc = stime.get_julian_century(jd)
-    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc * (1 - jc / 38710000)
+    sidereal_time =  280.46061837 + (360.98564736629 * (jd - 2451545.0)) + 0.000387933 * jc * jc - jc ** 3 / 38710000
     return sidereal_time % 360
 
 def get_nutation(jce):
-- 
2.43.0


From 3f86c7097fa08b54c2b010eceeaa340f9e4b4e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 04/17] fix: refraction correction divides by zero at an
 elevation of -5.11 degrees

---
 pysolar/solar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index 6d3e673..aa8214b 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -335,11 +335,14 @@ def get_refraction_correction(pressure, temperature, topocentric_elevation_angle
     # Better method could come from Auer and Standish [2000]:
     # http://iopscience.iop.org/1538-3881/119/5/2472/pdf/1538-3881_119_5_2472.pdf
 
+    is_up = tea >= -1.0*(sun_radius + atmos_refract)
+    # the formula has poles below the horizon (first of all at -5.11), where it does not apply
+    tea = math.where(is_up, tea, 0.)
+
     a = pressure * 2.830 * 1.02
     b = 1010.0 * temperature * 60.0 * math.tan(math.radians(tea + (10.3/(tea + 5.11))))
 
-    del_e = math.where(tea >= -1.0*(sun_radius + atmos_refract),
-                       a / b, 0.)
+    del_e = math.where(is_up, a / b, 0.)
 
     return del_e
 
-- 
2.43.0


From e1fc8909acee2b88f35414692bf20bd165f4a046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 05/17] fix: direct radiation overflows (NaN with numpy) just
 below the horizon

---
 pysolar/radiation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysolar/radiation.py b/pysolar/radiation.py
index 8783de0..dfee41c 100644
--- a/pysolar/radiation.py
+++ b/pysolar/radiation.py
@@ -46,6 +46,7 @@ def get_radiation_direct(when, altitude_deg):
     day = math.tm_yday(when)
     flux = get_apparent_extraterrestrial_flux(day)
     optical_depth = get_optical_depth(day)
-    air_mass_ratio = get_air_mass_ratio(altitude_deg)
+    # no air mass below the horizon: a negative one would overflow the exponential
+    air_mass_ratio = get_air_mass_ratio(math.where(is_daytime, altitude_deg, 90))
     return flux * math.exp(-1 * optical_depth * air_mass_ratio) * is_daytime
 #end get_radiation_direct
-- 
2.43.0


From f35056dd15b9d7fe694127a55ccb8a2cbbccf56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 06/17] fix: rounding pushes inverse sines and cosines out of
 their domain

---
 pysolar/numeric.py | 5 +++++
 pysolar/solar.py   | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index badd73b..e60b293 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -52,6 +52,11 @@ def where_math(condition, x, y):
 where = where_math
 
 
+def clip_unit(x):
+    """ x limited to [-1, 1]: a sine or cosine that rounding may have pushed out """
+    return where(x > 1, 1, where(x < -1, -1, x))
+
+
 def tm_yday_math(d):
     return d.utctimetuple().tm_yday
 
diff --git a/pysolar/solar.py b/pysolar/solar.py
index aa8214b..e11cca5 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -139,7 +139,7 @@ def get_altitude_fast(latitude_deg, longitude_deg, when):
     hour_angle = get_hour_angle(when, longitude_deg)
     first_term = math.cos(latitude_rad) * math.cos(declination_rad) * math.cos(math.radians(hour_angle))
     second_term = math.sin(latitude_rad) * math.sin(declination_rad)
-    return math.degrees(math.asin(first_term + second_term))
+    return math.degrees(math.asin(math.clip_unit(first_term + second_term)))
 
 
 def get_apparent_sidereal_time(jd, jme, nutation):
@@ -170,7 +170,7 @@ def get_azimuth_fast(latitude_deg, longitude_deg, when):
     hour_angle_rad = math.radians(get_hour_angle(when, longitude_deg))
     altitude_rad = math.radians(get_altitude_fast(latitude_deg, longitude_deg, when))
 
-    azimuth_rad = math.asin(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad))
+    azimuth_rad = math.asin(math.clip_unit(-math.cos(declination_rad) * math.sin(hour_angle_rad) / math.cos(altitude_rad)))
 
     return math.where(math.cos(hour_angle_rad) * math.tan(latitude_rad) >= math.tan(declination_rad),
                       (180 - math.degrees(azimuth_rad)),
@@ -256,7 +256,7 @@ def get_incidence_angle(topocentric_zenith_angle, slope, slope_orientation, topo
     slope_rad = math.radians(slope)
     so_rad = math.radians(slope_orientation)
     taa_rad = math.radians(topocentric_azimuth_angle)
-    return math.degrees(math.acos(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad)))
+    return math.degrees(math.acos(math.clip_unit(math.cos(tza_rad) * math.cos(slope_rad) + math.sin(slope_rad) * math.sin(tza_rad) * math.cos(taa_rad - math.pi - so_rad))))
 
 def get_local_hour_angle(apparent_sidereal_time, longitude, geocentric_sun_right_ascension):
     return (apparent_sidereal_time + longitude - geocentric_sun_right_ascension) % 360
@@ -372,7 +372,7 @@ def get_topocentric_elevation_angle(latitude, topocentric_sun_declination, topoc
     latitude_rad = math.radians(latitude)
     tsd_rad = math.radians(topocentric_sun_declination)
     tlha_rad = math.radians(topocentric_local_hour_angle)
-    return math.degrees(math.asin((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad)))
+    return math.degrees(math.asin(math.clip_unit((math.sin(latitude_rad) * math.sin(tsd_rad)) + math.cos(latitude_rad) * math.cos(tsd_rad) * math.cos(tlha_rad))))
 
 def get_topocentric_local_hour_angle(local_hour_angle, parallax_sun_right_ascension):
     return local_hour_angle - parallax_sun_right_ascension
-- 
2.43.0


From 195140cc931e752afefcfeb9c940610a02a9474e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 07/17] fix: misplaced parenthesis in the earth-sun distance
 factor

---
 pysolar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 1b2fdd4..3473843 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -209,7 +209,7 @@ def mean_earth_sun_distance(when):
             radiation models, p.113
     """
 
-    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94)) / 365
+    return 1 - 0.0335 * math.sin(2 * math.pi * (when.utctimetuple().tm_yday - 94) / 365)
 
 @check_aware_dt('when')
 def extraterrestrial_irrad(latitude_deg, longitude_deg, when, SC=SC_default):
-- 
2.43.0


From 327618bf6fbb3db0348bdc49e1655c407356f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 08/17] fix: sky models took the sine of an altitude in degrees

---
 pysolar/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 3473843..72c6c38 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -318,7 +318,8 @@ def solarelevation_function_clear(latitude_deg, longitude_deg, when, temperature
 
     """
     altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
-    return (0.038175 + (1.5458 * (math.sin(altitude))) + ((-0.59980) * (0.5 * (1 - math.cos(2 * (altitude))))))
+    altitude_rad = math.radians(altitude)
+    return (0.038175 + (1.5458 * (math.sin(altitude_rad))) + ((-0.59980) * (0.5 * (1 - math.cos(2 * (altitude_rad))))))
 
 @check_aware_dt('when')
 def solarelevation_function_overcast(latitude_deg, longitude_deg, when,
@@ -362,7 +363,8 @@ def solarelevation_function_overcast(latitude_deg, longitude_deg, when,
 
     """
     altitude = solar.get_altitude(latitude_deg, longitude_deg,when, elevation, temperature,pressure)
-    return ((-0.0067133) + (0.78600 * (math.sin(altitude)))) + (0.22401 * (0.5 * (1 - math.cos(2 * altitude))))
+    altitude_rad = math.radians(altitude)
+    return ((-0.0067133) + (0.78600 * (math.sin(altitude_rad)))) + (0.22401 * (0.5 * (1 - math.cos(2 * altitude_rad))))
 
 
 def diffuse_transmittance(TL = TL_default):
@@ -518,9 +520,9 @@ def direct_underclear(latitude_deg, longitude_deg, when,
     DEC = declination_degree(when,TY)
 
     DIRC = (1367 * KD * math.exp(-0.8662 * (AM) * (TL) * (DEC)
-                             ) * math.sin(solar.get_altitude(latitude_deg,longitude_deg,
+                             ) * math.sin(math.radians(solar.get_altitude(latitude_deg,longitude_deg,
                                                           when,elevation ,
-                                                          temperature , pressure )))
+                                                          temperature , pressure ))))
 
     return DIRC
 
-- 
2.43.0


From 472524c64c367130a73c02c2a95d4522abf448e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 09/17] fix: clear-sky global irradiance ignored temperature,
 pressure and turbidity

---
 pysolar/util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/util.py b/pysolar/util.py
index 72c6c38..101dc30 100644
--- a/pysolar/util.py
+++ b/pysolar/util.py
@@ -575,12 +575,12 @@ def global_irradiance_clear(latitude_deg, longitude_deg, when,
 
     """
     DIRC =  direct_underclear(latitude_deg, longitude_deg, when,
-                              TY, AM, TL, elevation, temperature = constants.standard_temperature,
-                              pressure = constants.standard_pressure)
+                              TY, AM, TL, elevation, temperature = temperature,
+                              pressure = pressure)
 
     DIFFC = diffuse_underclear(latitude_deg, longitude_deg, when,
-                               elevation, temperature = constants.standard_temperature, 
-                               pressure= constants.standard_pressure)
+                               elevation, temperature = temperature,
+                               pressure = pressure, TL = TL)
 
     ghic = (DIRC + DIFFC)
 
-- 
2.43.0


From fa22a7e3e16afdf8a1a1c9fcc92699fe7fdfc160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 10/17] fix: datetime_range fails for a fractional number of
 minutes

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 0f223b7..5ee6976 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -29,7 +29,7 @@ def datetime_range(start_datetime, end_datetime, step_minutes):
     step = step_minutes * 60
     span = end_datetime - start_datetime
     dt = datetime.timedelta(seconds = step)
-    for n in range((span.days * constants.seconds_per_day + span.seconds) // step) :
+    for n in range(int((span.days * constants.seconds_per_day + span.seconds) // step)) :
         yield start_datetime + dt * n
     #end for
 #end datetime_range
-- 
2.43.0


From d13345440dcc676a382b77abe04f52d9eaf2533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:38 +0000
Subject: [PATCH 11/17] fix: azimuths from 359.5 degrees index past the end of
 a 360 entry horizon

---
 pysolar/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/simulate.py b/pysolar/simulate.py
index 5ee6976..1282cca 100644
--- a/pysolar/simulate.py
+++ b/pysolar/simulate.py
@@ -48,7 +48,7 @@ def simulate_span(latitude_deg, longitude_deg, horizon, start_datetime, end_date
     for time in datetime_range(start_datetime, end_datetime, step_minutes) :
         alt = solar.get_altitude(latitude_deg, longitude_deg, time, elevation, temperature, pressure)
         azi = solar.get_azimuth(latitude_deg, longitude_deg, time, elevation)
-        shade = horizon[round(azi)]
+        shade = horizon[round(azi) % 360]
         if shade < alt_zero - round(alt_zero * math.sin(math.radians(alt))) :
             rad = 0
         else :
-- 
2.43.0


From 3c53de9a1a5ef697f935118bb40e06d995c64023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:25 +0000
Subject: [PATCH 12/17] fix: numeric has no log, which the REST2 model needs

---
 pysolar/numeric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index e60b293..faa128f 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -29,7 +29,7 @@ To force builtins math module usage when numpy is available:
 """
 
 from math import degrees, cos, sin, radians, tan, pi
-from math import acos, atan, asin, atan2, exp, e
+from math import acos, atan, asin, atan2, exp, log, e
 
 current_mod = 'math'
 
@@ -108,6 +108,7 @@ def use_numpy():
     globals_import_from('numpy', 'arcsin', 'asin')
     globals_import_from('numpy', 'arctan2', 'atan2')
     globals_import_from('numpy', 'exp', 'exp')
+    globals_import_from('numpy', 'log', 'log')
     globals_import_from('numpy', 'e', 'e')
     globals_import_from('numpy', 'where', 'where')
     globals()['tm_yday'] = tm_yday_numpy
@@ -131,6 +132,7 @@ def use_math():
     globals_import_from('math', 'asin', 'asin')
     globals_import_from('math', 'atan2', 'atan2')
     globals_import_from('math', 'exp', 'exp')
+    globals_import_from('math', 'log', 'log')
     globals_import_from('math', 'e', 'e')
     globals()['where'] = where_math
     globals()['tm_yday'] = tm_yday_math
-- 
2.43.0


From d6cd44a1223e90dfe564735723f450480119690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:25 +0000
Subject: [PATCH 13/17] fix: optical masses divide the wrong terms and take the
 zenith angle in radians

---
 pysolar/rest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index 7e39181..dbe8680 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -214,25 +214,25 @@ def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
 def get_optical_mass_rayleigh(altitude_deg, pressure_millibars):
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return (pressure_millibars / standard_pressure_millibars) / ((math.cos(Z_rad) + 0.48353 * Z_rad ** 0.095846) / (96.741 - Z_rad) ** 1.754)
+    return (pressure_millibars / standard_pressure_millibars) / (math.cos(Z_rad) + 0.48353 * Z ** 0.095846 / (96.741 - Z) ** 1.754)
 
 
 def get_optical_mass_ozone(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 1.0651 * Z_rad ** 0.6379) / (101.8 - Z_rad) ** 2.2694)
+    return 1 / (math.cos(Z_rad) + 1.0651 * Z ** 0.6379 / (101.8 - Z) ** 2.2694)
 
 
 def get_optical_mass_water(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.10648 * Z_rad ** 0.11423) / (93.781 - Z_rad) ** 1.9203)
+    return 1 / (math.cos(Z_rad) + 0.10648 * Z ** 0.11423 / (93.781 - Z) ** 1.9203)
 
 
 def get_optical_mass_aerosol(altitude_deg):  # from Appendix B of [Gueymard, 2003]
     Z = 90 - altitude_deg
     Z_rad = math.radians(Z)
-    return 1 / ((math.cos(Z_rad) + 0.16851 * Z_rad ** 0.18198) / (95.318 - Z_rad) ** 1.9542)
+    return 1 / (math.cos(Z_rad) + 0.16851 * Z ** 0.18198 / (95.318 - Z) ** 1.9542)
 
 
 def get_ozone_transmittance(band, mo, uo):
-- 
2.43.0


From fc7d70872c1bb1369d1902985681577861bce0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:25 +0000
Subject: [PATCH 14/17] fix: the pressure correction of the Rayleigh mass was
 applied twice

---
 pysolar/rest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index dbe8680..f2a7209 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -135,7 +135,7 @@ def get_direct_normal_irradiance_by_band(band, altitude_deg, pressure_millibars=
     ma = get_optical_mass_aerosol(altitude_deg)
     mo = get_optical_mass_ozone(altitude_deg)
     mR = get_optical_mass_rayleigh(altitude_deg, pressure_millibars)
-    mRprime = mR * pressure_millibars / standard_pressure_millibars
+    mRprime = mR  # get_optical_mass_rayleigh() has scaled it by the pressure already
     mw = get_optical_mass_water(altitude_deg)
 
     effective_wavelength = get_effective_aerosol_wavelength(
-- 
2.43.0


From 19aa23febfae5192820a3008a9eb0d61545b6b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:25 +0000
Subject: [PATCH 15/17] fix: the nitrogen dioxide transmittance ignored the
 given amount

---
 pysolar/rest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/rest.py b/pysolar/rest.py
index f2a7209..40dc6fa 100644
--- a/pysolar/rest.py
+++ b/pysolar/rest.py
@@ -199,6 +199,7 @@ def get_ground_albedo(band):
 
 
 def get_nitrogen_transmittance(band, mw, nitrogen_atm_cm):
+    un = nitrogen_atm_cm
     if band == "high-frequency":
         g1 = (0.17499 + 41.654 * un - 2146.4 * un ** 2) / \
             (1 + 22295.0 * un ** 2)
-- 
2.43.0


From 127e4283da4fe742afd98bc365473696cc2b6f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:03 +0000
Subject: [PATCH 16/17] fix: get_azimuth_fast refuses naive datetimes and
 non-datetimes itself

It reached the time-zone check only through get_hour_angle, after tm_yday had
already been applied: with the math backend a non-datetime failed with
AttributeError instead of the ValueError every other position function raises.
---
 pysolar/solar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysolar/solar.py b/pysolar/solar.py
index e11cca5..024e0b6 100644
--- a/pysolar/solar.py
+++ b/pysolar/solar.py
@@ -162,6 +162,7 @@ def get_azimuth(latitude_deg, longitude_deg, when, elevation = 0):
     return azimuth
 
 
+@check_aware_dt('when')
 def get_azimuth_fast(latitude_deg, longitude_deg, when):
 # expect 230 degrees for solar.get_azimuth(42.364908,-71.112828,datetime.datetime(2007, 2, 18, 20, 18, 0, 0))
     day = math.tm_yday(when)
-- 
2.43.0


From 6bc1d13ac1fc8f4f086f57ddc19ad6c2e3d9a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:46 +0000
Subject: [PATCH 17/17] fix: numpy backend drops the seconds of a UTC offset

---
 pysolar/numeric.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pysolar/numeric.py b/pysolar/numeric.py
index faa128f..076e7d4 100644
--- a/pysolar/numeric.py
+++ b/pysolar/numeric.py
@@ -30,6 +30,7 @@ To force builtins math module usage when numpy is available:
 
 from math import degrees, cos, sin, radians, tan, pi
 from math import acos, atan, asin, atan2, exp, log, e
+from datetime import timezone
 
 current_mod = 'math'
 
@@ -57,6 +58,13 @@ def clip_unit(x):
     return where(x > 1, 1, where(x < -1, -1, x))
 
 
+def naive_utc(d):
+    """ an aware datetime as a naive one in UTC: numpy would drop the seconds of its UTC offset """
+    if getattr(d, 'tzinfo', None) is None:
+        return d
+    return d.astimezone(timezone.utc).replace(tzinfo=None)
+
+
 def tm_yday_math(d):
     return d.utctimetuple().tm_yday
 
@@ -64,6 +72,7 @@ tm_yday = tm_yday_math
 
 
 def tm_yday_numpy(d):
+    d = naive_utc(d)
     dd = numpy.array(d, dtype='datetime64[D]')
     dy = numpy.array(d, dtype='datetime64[Y]')
     return (dd - dy).astype('int') + 1
@@ -76,6 +85,7 @@ tm_hour = tm_hour_math
 
 
 def tm_hour_numpy(d):
+    d = naive_utc(d)
     dh = numpy.array(d, dtype='datetime64[h]')
     dd = numpy.array(d, dtype='datetime64[D]')
     return (dh - dd).astype('int')
@@ -88,6 +98,7 @@ tm_min = tm_min_math
 
 
 def tm_min_numpy(d):
+    d = naive_utc(d)
     dm = numpy.array(d, dtype='datetime64[m]')
     dh = numpy.array(d, dtype='datetime64[h]')
     return (dm - dh).astype('int')
-- 
2.43.0

