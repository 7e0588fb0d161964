From 396d20cb050f993ae85ca31c5978dc9991f29d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 01/20] fix: hle1 raised UnboundLocalError under neutral
 stability

---
 pysnobal/point/libsnobal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 0942bd1..a14f718 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -257,6 +257,8 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
     dens = gas_density(press, MOL_AIR, virtual_temperature(
         math.sqrt(air_temp * surface_temp), math.sqrt(ea * es), press))
 
+    ier = 0
+
     # if neutral stability ignore starting values and calculate
     if air_temp == surface_temp:
 
@@ -314,7 +316,8 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
             # if it > ITMAX:
             #     break
 
-    ier = -1 if (it >= ITMAX) else 0
+        if it >= ITMAX:
+            ier = -1
 
     xlh = lh_vap(surface_temp)
     if surface_temp <= FREEZE:
-- 
2.43.0


From 9d071253e2cb04de631350da92e3f02df31a2203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 02/20] fix: hle1 never reported that its iteration did not
 converge

The loop index cannot reach ITMAX, so status was always 0 and the model
went on with whatever flux the last iterate gave (wrong sign and
thousands of W/m2 in light wind over a warm surface).
---
 pysnobal/point/libsnobal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index a14f718..b40aeb3 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -316,7 +316,8 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
             # if it > ITMAX:
             #     break
 
-        if it >= ITMAX:
+        # ran out of iterations without settling on a solution
+        if (np.abs(diff) >= THRESH) and (np.abs(diff/lo) >= THRESH):
             ier = -1
 
     xlh = lh_vap(surface_temp)
-- 
2.43.0


From e7f4975b877205f1f60bf2900bc411142cc9f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 03/20] fix: the relative_heights option was ignored

---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index e0d93a5..f7a2f18 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -58,7 +58,7 @@ class Snobal(object):
 
         # get measurement-height record
         self.measurement_heights = meas_heights
-        self.relative_hts = False
+        self.relative_hts = self.params.get('relative_heights', False)
 
         self.time_since_out = 0
 
-- 
2.43.0


From 08757a115dbde0540b74325389aba6f0e63acb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 04/20] fix: initial snow temperatures were read as Kelvin, not
 Celcius

---
 pysnobal/pysnobal.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 0787d2b..f4de6e8 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -212,6 +212,12 @@ class PySnobal():
         # measurement heights
         self.measurement_heights = self.config['measurement_heights']
 
+        # initial snow properties, temperatures are in Celcius in the config
+        self.initial_snow_properties = dict(
+            self.config['initial_snow_properties'])
+        self.initial_snow_properties['t_s_0'] += FREEZE
+        self.initial_snow_properties['t_s'] += FREEZE
+
     def parse_elevation(self):
         return self.config['topo']['elevation']
 
@@ -289,7 +295,7 @@ class PySnobal():
         self.snobal = Snobal(
             self.params,
             self.tstep_info,
-            self.config['initial_snow_properties'],
+            self.initial_snow_properties,
             self.measurement_heights,
             self.output_mode
         )
-- 
2.43.0


From 5e9511cbe15a4259096cf3e60f2d8bd3efc11f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 05/20] fix: an initial snowpack with two layers had a 0 K
 lower layer

---
 pysnobal/point/snobal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index f7a2f18..472664f 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -1215,6 +1215,10 @@ class Snobal(object):
 
         if from_record:
             self.snow_state.set_from_dict(self.snow_records)
+            # no lower layer temperature in the record, start it at the
+            # average temperature like adj_layers does
+            if 't_s_l' not in self.snow_records:
+                self.snow_state.t_s_l = self.snow_state.t_s
             # self.snow_state.z_s = self.snow_records['z_s']
             # self.snow_state.rho = self.snow_records['rho']
             # self.snow_state.t_s_0 = self.snow_records['t_s_0']
-- 
2.43.0


From be67a519cdf70a7c5024afbc7894399084ce3158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 06/20] fix: input rows out of order gave a wrong data time
 step

---
 pysnobal/pysnobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index f4de6e8..021c639 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -238,8 +238,8 @@ class PySnobal():
             self.config['time']['time_zone'])
 
         # get the time delta of the data
-        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
         input_data.sort_index(inplace=True)
+        tdelta = input_data.index.to_series().diff().dropna().unique()[0]
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
-- 
2.43.0


From 3b1936ec81c0199d05cb124dafaa633401e2060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 07/20] fix: a snowpack that melted out kept a negative depth

When the melt of one run step exceeds the pack's depth the layer count
drops to 0, but z_s and z_s_0 stayed negative in the state and output.
---
 pysnobal/point/snow_state.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snow_state.py b/pysnobal/point/snow_state.py
index 0457169..c55d54f 100644
--- a/pysnobal/point/snow_state.py
+++ b/pysnobal/point/snow_state.py
@@ -268,8 +268,9 @@ class SnowState():
 
         """
 
-        if self.m_s <= self.small_threshold:
-            # less than minimum layer mass, so treat as no snowcover
+        if self.m_s <= self.small_threshold or self.z_s <= 0:
+            # less than minimum layer mass, or the melt took all the depth,
+            # so treat as no snowcover
             # can change to the set zeros
             z_s_0 = z_s_l = 0
 
-- 
2.43.0


From c86b819ce58905854ec1d67749546448fb0c38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 08/20] fix: liquid water counted twice when the snowcover
 disappears

The snowcover's mass includes its liquid water, so adding the mass to
h2o_total on top of that water made runoff exceed what was there.
---
 pysnobal/point/snobal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 472664f..25b9eda 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -610,6 +610,10 @@ class Snobal(object):
                 self.adj_snow(
                     self.input1.z_snow, self.input1.m_pp)
 
+                # All of the water is in h2o_total if the snowcover is gone
+                if not self.snowcover:
+                    return
+
                 # Determine the additional liquid water that's in
                 # the snowfall, and then add its mass to liquid
                 # water in the whole snowcover.
@@ -838,9 +842,10 @@ class Snobal(object):
             self.snow_state.rho = 0
 
             # if mass > 0, then it must be velow threshold.
-            # So turn this little bit of mass into water
+            # So turn this little bit of mass into water. The mass already
+            # includes any liquid water in the snowcover.
             if self.snow_state.m_s > 0:
-                self.snow_state.h2o_total += self.snow_state.m_s
+                self.snow_state.h2o_total = self.snow_state.m_s
 
             # set a bunch of values to 0
             index = ['h2o_vol', 'h2o', 'h2o_max', 'h2o_sat',
-- 
2.43.0


From 0f654ce70d9568e477810d02657440bdcc3d271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 09/20] fix: evaporation reported more mass lost than the
 snowcover had

---
 pysnobal/point/snobal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 25b9eda..ebc2684 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -478,7 +478,8 @@ class Snobal(object):
                 if self.snow_state.h2o_total <= 0.0:
                     self.snow_state.h2o_total = 0.0
 
-        self.snow_state.E_s = E_s_0 + E_s_l
+        # can not lose more mass than there is
+        self.snow_state.E_s = max(E_s_0 + E_s_l, -self.snow_state.m_s)
 
         # adj mass and depth for evap/cond
         if self.snow_state.snowcover:
-- 
2.43.0


From f0ee01b2580381883423aa2bc76b356a52eba75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 10/20] fix: run time steps that do not divide evenly silently
 lost time

The config documents that the medium step must divide the normal one
and the small step the medium one, the remainder was never simulated.
---
 pysnobal/pysnobal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 021c639..b4421ec 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -124,6 +124,12 @@ class PySnobal():
             self.config['model']['small_time_step'],
         ]
 
+        for longer, shorter in zip(time_step[:-1], time_step[1:]):
+            if shorter <= 0 or longer % shorter != 0:
+                raise ValueError(
+                    'time step of {} min does not divide {} min evenly'.format(
+                        shorter, longer))
+
         tstep_info = []
         config_names = ['norm', 'medium', 'small']
         for i in range(3):
-- 
2.43.0


From 3e930732a005d85f00ed1eb971aacb065ec3bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 11/20] fix: sati_np and satw_np overwrote the caller's
 temperatures

---
 pysnobal/point/libsnobal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index b40aeb3..26a0495 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -37,7 +37,7 @@ def satw_np(tk):
     """
 
     # remove bad values
-    tk[tk < 0] = np.nan
+    tk = np.where(tk < 0, np.nan, tk)
 
     btk = BOIL/tk
     x = -7.90298*(btk - 1.0) + 5.02808*np.log(btk)/LOG_10 - \
@@ -61,7 +61,7 @@ def sati_np(tk):
     """
 
     # remove bad values
-    tk[tk < 0] = np.nan
+    tk = np.where(tk < 0, np.nan, tk)
 
     # preallocate
     x = np.empty(tk.shape)
-- 
2.43.0


From 170abdca249d8ac6786206b471c892e109637d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 12/20] fix: clipping the vapor pressure changed the rest of
 the data time step

h_le() overwrote the interpolated input with the saturation value, and the
following sub steps added the data step's deltas to the clipped value. It
drifted away from the data and could become negative, which crashes the run.
---
 pysnobal/point/snobal.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index ebc2684..ab9d909 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -1052,14 +1052,16 @@ class Snobal(object):
         2-layer snowcover
         """
 
-        # error check for bad vapor pressures
+        # error check for bad vapor pressures, do not change the input as the
+        # deltas for the rest of the data timestep are added to it
         sat_vp = self.input1.sat_vp
+        e_a = self.input1.e_a
 
-        if self.input1.e_a > sat_vp:
+        if e_a > sat_vp:
             warnings.warn(
                 """{} h_le: input vapor pressure is greater than """
                 """saturation vapor pressure""".format(self.current_datetime))
-            self.input1.e_a = sat_vp
+            e_a = sat_vp
 
         # determine relative measurement heights
         if self.relative_hts:
@@ -1075,7 +1077,7 @@ class Snobal(object):
             self.input1.t_a,
             self.snow_state.t_s_0,
             rel_z_T,
-            self.input1.e_a,
+            e_a,
             self.snow_state.e_s_0,
             rel_z_T,
             self.input1.u,
@@ -1096,7 +1098,7 @@ class Snobal(object):
                 """relative z_T={}, e_a={}, e_s={}\n"""
                 """u={}, relative z_u={}, z_0={}\n""".format(
                     self.P_a, self.input1.t_a, self.snow_state.t_s_0, rel_z_T,
-                    self.input1.e_a, self.snow_state.e_s_0, self.input1.u,
+                    e_a, self.snow_state.e_s_0, self.input1.u,
                     rel_z_u, self.snow_state.z_0))
 
         self.snow_state.H = H
-- 
2.43.0


From a39f75c9c2cb0f79537fc8d34ddd528a6b51b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 13/20] fix: a data file that starts after the start date had
 shifted output times

---
 pysnobal/pysnobal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index b4421ec..725ed52 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -252,6 +252,10 @@ class PySnobal():
         # data classes
         input_data = input_data.loc[self.start_date:self.end_date + tdelta, :]
 
+        # the simulation starts at the first record, which can be later than
+        # the start date
+        self.params['start_date'] = input_data.index[0]
+
         # convert to Kelvin
         input_data.precip_temp += FREEZE
         input_data.air_temp += FREEZE
-- 
2.43.0


From bc5bdbd14391e883ea184406583b03f0825a4f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 14/20] fix: the normal run time step had to be the data time
 step

The documentation only asks that norm_time_step divides the data time step,
but each data step always ran exactly one normal time step: half of the time
was lost with a norm_time_step of 30 minutes for hourly data.
---
 pysnobal/pysnobal.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pysnobal/pysnobal.py b/pysnobal/pysnobal.py
index 725ed52..526d791 100644
--- a/pysnobal/pysnobal.py
+++ b/pysnobal/pysnobal.py
@@ -30,12 +30,12 @@ class PySnobal():
         # parse the input parameters
         self.parse_params()
 
-        # parse the time step parameters
-        self.parse_time_steps()
-
         # open the input files
         self.read_input_data()
 
+        # parse the time step parameters, needs the input data's time step
+        self.parse_time_steps()
+
     def read_config_file(self, config_file):
         """
         Reads in the user's config file and checks
@@ -91,7 +91,7 @@ class PySnobal():
                     'output': {{ config.files.output_mode }},
                     'threshold': {{ config.model.norm_threshold }},
                     'time_step': {{ config.model.norm_time_step }},
-                    'intervals': 1
+                    'intervals': {{ data_tstep / norm_tstep }}
                     }
                 1: {
                     'level': 1,
@@ -124,7 +124,8 @@ class PySnobal():
             self.config['model']['small_time_step'],
         ]
 
-        for longer, shorter in zip(time_step[:-1], time_step[1:]):
+        data_tstep = self.data_time_step
+        for longer, shorter in zip([data_tstep] + time_step, time_step):
             if shorter <= 0 or longer % shorter != 0:
                 raise ValueError(
                     'time step of {} min does not divide {} min evenly'.format(
@@ -149,15 +150,16 @@ class PySnobal():
 
         # normal time step
         tstep_info[NORMAL_TSTEP].update({
-            'intervals': 1,
-            'intervals_per_timestep': 1,
+            'intervals': int(data_tstep / time_step[NORMAL_TSTEP]),
+            'intervals_per_timestep': int(data_tstep /
+                                          time_step[NORMAL_TSTEP]),
         })
 
         # medium time step
         tstep_info[MEDIUM_TSTEP].update({
             'intervals': int(time_step[NORMAL_TSTEP] /
                              time_step[MEDIUM_TSTEP]),
-            'intervals_per_timestep': int(time_step[NORMAL_TSTEP] /
+            'intervals_per_timestep': int(data_tstep /
                                           time_step[MEDIUM_TSTEP]),
         })
 
@@ -169,7 +171,7 @@ class PySnobal():
         tstep_info[SMALL_TSTEP].update({
             'intervals': int(time_step[MEDIUM_TSTEP] /
                              time_step[SMALL_TSTEP]),
-            'intervals_per_timestep': int(time_step[NORMAL_TSTEP] /
+            'intervals_per_timestep': int(data_tstep /
                                           time_step[SMALL_TSTEP]),
         })
 
@@ -210,6 +212,9 @@ class PySnobal():
 
         self.params = params
 
+        # time step of the input data (minutes)
+        self.data_time_step = self.config['time']['time_step']
+
         # elevation to a 2D array
         elevation = self.parse_elevation()
         self.elevation = elevation
@@ -246,6 +251,8 @@ class PySnobal():
         # get the time delta of the data
         input_data.sort_index(inplace=True)
         tdelta = input_data.index.to_series().diff().dropna().unique()[0]
+        self.data_time_step = input_data.index.to_series().diff() \
+            .min().total_seconds() / 60
 
         # clip to the start and end date
         # Add one time step as each Snobal timestep requires two input
-- 
2.43.0


From 98281fdb30d2692779652e3929669a3123256dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 15/20] fix: compaction of a heavy snowcover ignored the time
 step

Above SWE_MAX the hourly rate was applied to every run time step whatever its
length, so that ten minute steps compacted the snow six times as fast.
---
 pysnobal/point/snobal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index ab9d909..246a09e 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -782,7 +782,7 @@ class Snobal(object):
             rate = 1.0
         else:
             rate = R1 * math.cos(np.pi * self.snow_state.m_s / SWE_MAX) + R2
-            rate = rate / (self.time_step / 3600.0)
+        rate = rate / (self.time_step / 3600.0)
 
         # Proportional Destructive Temperature Metamorphism (d_rho_m)
         if self.snow_state.rho < 100:
-- 
2.43.0


From fa90725e491526f02c7513a889d823bfd0950f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 16/20] fix: hle1 divided by zero in calm air

With wind_speed 0 the Obukhov length is 0/0. It only worked from Snobal because
the pressure is a numpy float and the nan was ignored; with python floats, like
in the tests, it raised a ZeroDivisionError.
---
 pysnobal/point/libsnobal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pysnobal/point/libsnobal.py b/pysnobal/point/libsnobal.py
index 26a0495..caeab87 100644
--- a/pysnobal/point/libsnobal.py
+++ b/pysnobal/point/libsnobal.py
@@ -259,8 +259,9 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
 
     ier = 0
 
-    # if neutral stability ignore starting values and calculate
-    if air_temp == surface_temp:
+    # if neutral stability ignore starting values and calculate, without wind
+    # there is no turbulence and nothing to iterate on
+    if air_temp == surface_temp or wind_speed == 0:
 
         # starting value, assume neutral stability, so psi-functions
         # are all zero
@@ -275,13 +276,13 @@ def hle1(press, air_temp, surface_temp, za, ea, es, zq, wind_speed, zu, z0,
         # it = 0
         lo = 1e500
 
-        # initialize ustar and factor
-        if init_ustar is None:
+        # initialize ustar and factor, they are 0 after a step without wind
+        if not init_ustar:
             ustar = VON_KARMAN * wind_speed / ltsm
         else:
             ustar = init_ustar
 
-        if init_factor is None:
+        if not init_factor:
             factor = VON_KARMAN * ustar * dens
         else:
             factor = init_factor
-- 
2.43.0


From b631b7c1f45c446020a70400ca7cb729852c5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 17/20] fix: layer_count was stale after the layer depths were
 set

Only calc_layers() invalidated the cached layer count, so setting z_s_0 or
z_s_l any other way (assignment, set_zeros, set_from_dict) kept the old one.
---
 pysnobal/point/snow_state.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pysnobal/point/snow_state.py b/pysnobal/point/snow_state.py
index c55d54f..b628ce3 100644
--- a/pysnobal/point/snow_state.py
+++ b/pysnobal/point/snow_state.py
@@ -136,6 +136,24 @@ class SnowState():
             self.__es_s_l = True
         return self._es_s_l
 
+    @property
+    def z_s_0(self):
+        return self._z_s_0
+
+    @z_s_0.setter
+    def z_s_0(self, var):
+        self._z_s_0 = var
+        self.__layer_count = False
+
+    @property
+    def z_s_l(self):
+        return self._z_s_l
+
+    @z_s_l.setter
+    def z_s_l(self, var):
+        self._z_s_l = var
+        self.__layer_count = False
+
     @property
     def isothermal(self):
         return self.cc_s == 0.0
-- 
2.43.0


From 7220be66c4b608113281a4316e9de78e6a702c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 18/20] fix: negative snow mass when the last ice melts

When melt or evaporation took all of the ice but the water made the mass pass
the minimum mass, runoff removed more than the whole snowcover and left one
with a negative mass and density. The next time step then lost that mass.
Likewise water could be left over when all of the mass evaporated.
---
 pysnobal/point/snobal.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 246a09e..4e94435 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -323,6 +323,14 @@ class Snobal(object):
         # Determine the snow density without any water, and the maximum
         # liquid water the snow can hold.
         m_s_dry = self.snow_state.m_s - self.snow_state.h2o_total
+
+        # All of the ice has melted, so there is only water left to run off
+        if m_s_dry <= 0:
+            self.snow_state.z_s = 0.0
+            self.adj_layers()
+            self.snow_state.swi = self.snow_state.h2o_total
+            return
+
         rho_dry = m_s_dry / self.snow_state.z_s
         self.snow_state.h2o_max = h2o_left(
             self.snow_state.z_s, rho_dry, self.snow_state.max_h2o_vol)
@@ -845,8 +853,7 @@ class Snobal(object):
             # if mass > 0, then it must be velow threshold.
             # So turn this little bit of mass into water. The mass already
             # includes any liquid water in the snowcover.
-            if self.snow_state.m_s > 0:
-                self.snow_state.h2o_total = self.snow_state.m_s
+            self.snow_state.h2o_total = max(self.snow_state.m_s, 0)
 
             # set a bunch of values to 0
             index = ['h2o_vol', 'h2o', 'h2o_max', 'h2o_sat',
-- 
2.43.0


From 95de90b48220b653ffe98560ebd9d13bbc5fdf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 19/20] fix: a snowcover that can hold no water had a
 saturation of nan

---
 pysnobal/point/snobal.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysnobal/point/snobal.py b/pysnobal/point/snobal.py
index 4e94435..e23ac69 100644
--- a/pysnobal/point/snobal.py
+++ b/pysnobal/point/snobal.py
@@ -349,8 +349,11 @@ class Snobal(object):
         else:
             self.snow_state.swi = 0.0
             self.snow_state.h2o = self.snow_state.h2o_total
-            self.snow_state.h2o_sat = self.snow_state.h2o / \
-                self.snow_state.h2o_max
+            # snow that can not hold any water is dry
+            self.snow_state.h2o_sat = 0.0
+            if self.snow_state.h2o_max > 0:
+                self.snow_state.h2o_sat = self.snow_state.h2o / \
+                    self.snow_state.h2o_max
             self.snow_state.h2o_vol = self.snow_state.h2o_sat * \
                 self.snow_state.max_h2o_vol
 
-- 
2.43.0


From a7bb38bf697ee4699acbb51131bd3dcd6bc08a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:12 +0000
Subject: [PATCH 20/20] fix: averaging a record overwrote the arrays of the
 last time step

value_to_bar makes the sums refer to the values of the time step; adding to
them in place changed those values too.
---
 pysnobal/point/snow_state.py   | 6 +++---
 pysnobal/spatial/snow_state.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pysnobal/point/snow_state.py b/pysnobal/point/snow_state.py
index b628ce3..d6e3eb4 100644
--- a/pysnobal/point/snow_state.py
+++ b/pysnobal/point/snow_state.py
@@ -258,9 +258,9 @@ class SnowState():
                               getattr(self, variable), time_step)
             setattr(self, bar_variable, ta)
 
-        self.E_s_sum += self.E_s
-        self.melt_sum += self.melt
-        self.swi_sum += self.swi
+        self.E_s_sum = self.E_s_sum + self.E_s
+        self.melt_sum = self.melt_sum + self.melt
+        self.swi_sum = self.swi_sum + self.swi
 
     def layer_mass(self):
         """
diff --git a/pysnobal/spatial/snow_state.py b/pysnobal/spatial/snow_state.py
index a4f2cd2..6baee94 100644
--- a/pysnobal/spatial/snow_state.py
+++ b/pysnobal/spatial/snow_state.py
@@ -132,6 +132,6 @@ class SpatialSnowState(SnowState):
                               getattr(self, variable), time_step)
             setattr(self, bar_variable, ta)
 
-        self.E_s_sum += self.E_s
-        self.melt_sum += self.melt
-        self.swi_sum += self.swi
+        self.E_s_sum = self.E_s_sum + self.E_s
+        self.melt_sum = self.melt_sum + self.melt
+        self.swi_sum = self.swi_sum + self.swi
-- 
2.43.0

