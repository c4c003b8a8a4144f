From b7396854ad656ca1c3bcad10413866bc906d58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:53 +0000
Subject: [PATCH 01/59] fix: number the elements of every run and container
 from zero

The 'id' and 'spill_num' array types are module globals whose initial_value is
advanced on every release, so element ids depended on whatever other container,
model or earlier run had released before. Give each container its own copies,
reset when a run is prepared.
---
 py_gnome/gnome/spill_container.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index a7332e1..0394a7a 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -7,6 +7,7 @@ set of arrays. The spills themselves provide some of the arrays themselves
 (adding more each time LEs are released).
 """
 
+import copy
 import os
 
 import numpy as np
@@ -825,6 +826,11 @@ class SpillContainer(AddLogger, SpillContainerData):
                 s.prepare_for_model_run(time_step)
         ats = default_array_types.copy()
         ats.update(array_types)
+        # The initial_value of these two changes as elements get released, so
+        # each container needs its own, starting afresh with every run.
+        for name in ('id', 'spill_num'):
+            ats[name] = copy.copy(ats[name])
+            ats[name].initial_value = 0
         self._array_types = ats
 
         # if self._substances_spills is None:
-- 
2.43.0


From 45aa2d36a976acc5b2c037001c6701a071e2a570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:53 +0000
Subject: [PATCH 02/59] fix: forget the previously released volume when a
 release is rewound

PointLineRelease and PolygonRelease overrode Release.rewind() without resetting
the cumulative released volume, so a second run of a continuous weathering
spill started from the first run's volume and spread differently.
---
 py_gnome/gnome/spills/release.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index a4a443d..ec85337 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -667,12 +667,6 @@ class PointLineRelease(Release):
                                         time=t,
                                         variables=[lon_ts, lat_ts, z_ts])
 
-    def rewind(self):
-        self._prepared = False
-        self._mass_per_le = 0
-        self._release_ts = None
-        self._pos_ts = None
-
     def prepare_for_model_run(self, ts):
         super(PointLineRelease, self).prepare_for_model_run(ts)
         self._prepared = True
@@ -888,9 +882,7 @@ class PolygonRelease(Release):
         return [geo_routines.geo_area_of_polygon(p) for p in self.polygons]
 
     def rewind(self):
-        self._prepared = False
-        self._mass_per_le = 0
-        self._release_ts = None
+        super(PolygonRelease, self).rewind()
         self._tris = None
         self._weights = None
         #self._pos_ts = None
-- 
2.43.0


From 9395789f6c43523351dc52e25fc21d3a90a01390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:17 +0000
Subject: [PATCH 03/59] fix: do not weather elements that left the map in the
 same step

Their mass is booked as off_maps when the map flags them, but they kept their
weathering fate until the end of the step, so what they evaporated, dispersed
etc. in that step was counted a second time in the mass balance.
---
 py_gnome/gnome/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 757e1cd..926c084 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1025,6 +1025,10 @@ class Model(GnomeId):
             on_land_mask = sc['status_codes'] == oil_status.on_land
             sc['fate_status'][on_land_mask] = fate.non_weather
 
+            # these have left the map: their mass is accounted for already
+            tbr_mask = sc['status_codes'] == oil_status.to_be_removed
+            sc['fate_status'][tbr_mask] = fate.non_weather
+
             w_mask = ((sc['status_codes'] == oil_status.in_water)
                       & ~(sc['fate_status'] & fate.skim == fate.skim)
                       & ~(sc['fate_status'] & fate.burn == fate.burn)
-- 
2.43.0


From 6452c37e75ae47c5c6f1ede3c96df2fe3ea10dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:25 +0000
Subject: [PATCH 04/59] fix: honour num_per_timestep of point and line releases

---
 py_gnome/gnome/spills/release.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index ec85337..b2b22c9 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -571,6 +571,7 @@ class PointLineRelease(Release):
         super(PointLineRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                **kwargs)
 
-- 
2.43.0


From 81b5478321ba9f9c170f8ca1a00e8bef60d53796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:15 +0000
Subject: [PATCH 05/59] fix: keep the time stamp of the elements when the run
 is complete

---
 py_gnome/gnome/model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 926c084..b5e7bbb 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1165,11 +1165,14 @@ class Model(GnomeId):
         Steps the model forward in time (or backward if run_backwards = True).
         '''
         isValid = True
-        for sc in self.spills.items():
-            # Set the current time stamp only after current_time_step is
-            # incremented and before the output is written. Set it to None here
-            # just so we're not carrying around the old time_stamp
-            sc.current_time_stamp = None
+        if (self.current_time_step == -1 or
+                self.current_time_step < self._num_time_steps - 1):
+            for sc in self.spills.items():
+                # Set the current time stamp only after current_time_step is
+                # incremented and before the output is written. Set it to None
+                # here just so we're not carrying around the old time_stamp
+                # (there is no new one once the run is complete)
+                sc.current_time_stamp = None
 
         if self.current_time_step == -1:
             # starting new run so run setup
-- 
2.43.0


From 01be79366a2e52cfefe8ffefaa92584f1415eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:23 +0000
Subject: [PATCH 06/59] fix: keep a backwards run backwards when its time step
 or duration is set

---
 py_gnome/gnome/model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index b5e7bbb..c1ec767 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -311,6 +311,7 @@ class Model(GnomeId):
         # reset _current_time_step
         self._current_time_step = -1
         self._time_step = None
+        self._run_backwards = False
         if time_step is not None:
             self.time_step = time_step  # this calls rewind() !
         self._reset_num_time_steps()
@@ -603,6 +604,9 @@ class Model(GnomeId):
         except AttributeError:
             self._time_step = int(time_step)
 
+        if self._run_backwards:
+            self._time_step = -abs(self._time_step)
+
         self._reset_num_time_steps()
         self.rewind()
 
@@ -628,7 +632,9 @@ class Model(GnomeId):
 
     @duration.setter
     def duration(self, duration):
-        if duration < self._duration:
+        if self._run_backwards:
+            duration = -abs(duration)
+        if abs(duration) < abs(self._duration):
             # only need to rewind if shorter than it was...
             # fixme: actually, only need to rewind if current model time
             # is beyond new time...
-- 
2.43.0


From 0f4d6e2ded2784b5eeb6021d76d0df977208415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:10 +0000
Subject: [PATCH 07/59] fix: output schedule of backwards runs and of runs
 without the zero step output

---
 py_gnome/gnome/outputters/outputter.py | 42 +++++++++++++-------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 5641998..2ecc937 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -292,34 +292,34 @@ class Outputter(GnomeId):
 
         self._surf_conc_computed = False
 
-        d = timedelta(seconds=time_step)
-        if self.output_start_time is not None:
-            if self.output_start_time != self._model_start_time:
-                if model_time + d < self.output_start_time:
-                    self._write_step = False
-                    return
-
-                if model_time + d == self.output_start_time:
-                    self._write_step = True
-                    self._is_first_output = False
-                    return
-
-                if ((model_time + d > self.output_start_time and time_step > 0) or
-                    (model_time + d < self.output_start_time and time_step < 0)):
-                    if self._is_first_output:
-                        self._write_step = True
-                        self._is_first_output = False
-                        return
+        # time still to go (in the direction of the run) until the output starts
+        if (self.output_start_time is not None and
+                self.output_start_time != self._model_start_time):
+            to_start = (self.output_start_time -
+                        (model_time + timedelta(seconds=time_step)))
+            if time_step < 0:
+                to_start = -to_start
+
+            if to_start > timedelta(0):
+                self._write_step = False
+                return
+
+            if self._is_first_output:
+                self._write_step = True
+                self._is_first_output = False
+                return
 
         if self.output_single_step:
             self._write_step = False
             return
 
-        if self._output_timestep is not None:
+        if self._output_timestep is None:
+            self._write_step = True
+        else:
             self._write_step = False
-            self._dt_since_lastoutput += time_step
+            self._dt_since_lastoutput += abs(time_step)
 
-            if abs(self._dt_since_lastoutput) >= abs(self._output_timestep):
+            if self._dt_since_lastoutput >= self._output_timestep:
                 self._write_step = True
                 self._dt_since_lastoutput = (self._dt_since_lastoutput %
                                              self._output_timestep)
-- 
2.43.0


From c4cbb0c0b028f6be7f27b42e8aa0e854a0161421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:21 +0000
Subject: [PATCH 08/59] fix: outputters that are switched off do not write

---
 py_gnome/gnome/outputters/oil_budget.py | 5 ++++-
 py_gnome/gnome/outputters/outputter.py  | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 665c5ee..10f3eaa 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -73,7 +73,7 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
 
         super(OilBudgetOutput, self).__init__(filename=filename,
                                               cache=None,
-                                              on=True,
+                                              on=on,
                                               output_timestep=output_timestep,
                                               # these always should be this way for this
                                               # outputter
@@ -92,6 +92,9 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
         """
         start the csv file
         """
+        if not self.on:
+            return
+
         super(OilBudgetOutput, self).prepare_for_model_run(model_start_time,
                                                            spills,
                                                            **kwargs)
diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 2ecc937..3524e96 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -353,6 +353,10 @@ class Outputter(GnomeId):
         :type islast_step: bool
 
         """
+        if not self.on:
+            self._write_step = False
+            return
+
         if step_num == 0:
             if self.output_zero_step or self._single_output_at_start:
                 self._write_step = True  # this is the default
-- 
2.43.0


From 8b3299249389928f171fe36d6f2941af2bdf9a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:07 +0000
Subject: [PATCH 09/59] fix: output written after the run follows the same
 schedule as during it

---
 py_gnome/gnome/outputters/outputter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 3524e96..7688e6c 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -471,12 +471,12 @@ class Outputter(GnomeId):
         last_step = False
 
         for step_num in range(num_time_steps):
-            if (step_num > 0 and step_num < num_time_steps - 1):
+            if step_num > 0:
                 next_ts = (self.cache.load_timestep(step_num).items()[0].
                            current_time_stamp)
                 ts = next_ts - model_time
 
-                self.prepare_for_model_step(ts.seconds, model_time)
+                self.prepare_for_model_step(ts.total_seconds(), model_time)
 
             if step_num == num_time_steps - 1:
                 last_step = True
-- 
2.43.0


From a96e842217a6dc64533135c5908b2291b96ac9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:50 +0000
Subject: [PATCH 10/59] fix: binary output of a run that does not write its
 last step

---
 py_gnome/gnome/outputters/binary.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index 10bdddf..d987602 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -157,16 +157,15 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
                 output_filename = self.output_to_file(filename, sc)
 
 
+            self.file_num += 1
+
         if islast_step:
-            num_files = self.file_num + 1
-            self._zip_binary_files(num_files)
+            self._zip_binary_files(self.file_num)
             self.cleaned_up = True
 
         if not self._write_step:
             return None
 
-        self.file_num += 1
-
         output_info = {'time_stamp': sc.current_time_stamp.isoformat(),
                        'output_filename': str(self.filename)}
 
-- 
2.43.0


From 14759ad19d44b7b0851b22cdc50114fb7bddef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:36 +0000
Subject: [PATCH 11/59] fix: append to forecast and uncertain netcdf files
 independently

The two files need not hold the same number of elements, but shared one
start index, so gaps or overlaps appeared in the second file.
---
 py_gnome/gnome/outputters/netcdf.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 3d0bf86..d3a752d 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -662,10 +662,6 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
         # called after the netcdf file is created
         self.cleaned_up = False  # so that we can guard against post_model_run being called twice.
 
-        # need to keep track of starting index for writing data since variable
-        # number of particles are released
-        self._start_idx = 0
-
     def _create_nc_var(self, grp, var_name, dtype, shape, chunksz):
         # fixme: why is this even here? it's wrapping a single call???
         if dtype == bool:
@@ -755,19 +751,22 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                     pc = rg_vars['particle_count']
                     pc[idx] = len(sc)
 
-                    _end_idx = self._start_idx + pc[idx]
+                    # the forecast and the uncertain files need not hold the
+                    # same number of elements, so append to each on its own.
+                    _start_idx = len(rootgrp.dimensions['data'])
+                    _end_idx = _start_idx + len(sc)
 
                     # add the data:
                     for var_name in self.arrays_to_output:
                         # special case positions:
                         if var_name == 'longitude':
-                            rg_vars['longitude'][self._start_idx:_end_idx] = sc['positions'][:, 0]
+                            rg_vars['longitude'][_start_idx:_end_idx] = sc['positions'][:, 0]
                         elif var_name == 'latitude':
-                            rg_vars['latitude'][self._start_idx:_end_idx] = sc['positions'][:, 1]
+                            rg_vars['latitude'][_start_idx:_end_idx] = sc['positions'][:, 1]
                         elif var_name == 'depth':
-                            rg_vars['depth'][self._start_idx:_end_idx] = sc['positions'][:, 2]
+                            rg_vars['depth'][_start_idx:_end_idx] = sc['positions'][:, 2]
                         else:
-                            rg_vars[var_name][self._start_idx:_end_idx] = sc[var_name]
+                            rg_vars[var_name][_start_idx:_end_idx] = sc[var_name]
 
                     # write mass_balance data
                     if sc.mass_balance:
@@ -790,8 +789,6 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
         if not self._write_step:
             return None
 
-        self._start_idx = _end_idx  # set _start_idx for the next timestep
-
         return {'filename': (self.filename,
                              self._u_filename),
                 'time_stamp': time_stamp.isoformat()}
-- 
2.43.0


From bcfa43bdab18b3ea5b05f686a41496f122757254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:36 +0000
Subject: [PATCH 12/59] fix: read netcdf output of backwards runs by time

All times before the model start time were taken to be the first output.
---
 py_gnome/gnome/outputters/netcdf.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index d3a752d..0386f05 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -943,11 +943,8 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                 if time is not None:
                     time_offset = nc.date2num(time, time_.units,
                                               calendar=time_.calendar)
-                    if time_offset < 0:
-                        'desired time is before start of model'
-                        index = 0
-                    else:
-                        index = abs(time_[:] - time_offset).argmin()
+                    # offsets are negative if the model ran backwards
+                    index = abs(time_[:] - time_offset).argmin()
                 elif index is not None:
                     if index < 0:
                         index = len(time_) + index
-- 
2.43.0


From b9ac8699caffb950bc1caa18c2a9cd11c7a0b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:43 +0000
Subject: [PATCH 13/59] fix: surface concentration when one element holds all
 the mass

gaussian_kde raises ValueError (not finite) for such weights, which ended
the run of every model with a netcdf outputter.
---
 py_gnome/gnome/utilities/surface_concentration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/surface_concentration.py b/py_gnome/gnome/utilities/surface_concentration.py
index 6441993..742a6e8 100644
--- a/py_gnome/gnome/utilities/surface_concentration.py
+++ b/py_gnome/gnome/utilities/surface_concentration.py
@@ -89,7 +89,7 @@ def surface_conc_kde(sc):
                         c[id[id_bin]] = kernel(xy[:, id_bin]) * mass_for_kernel.sum()
                     else:
                         c[id[id_bin]] = kernel(xy[:, id_bin]) * len(mass_for_kernel)
-                except np.linalg.LinAlgError:
+                except (np.linalg.LinAlgError, ValueError):
                     warnings.warn('LinAlg error occurred in surface concentration calculations. '
                                   'This is usually do to all (or many) elements being at the same location')
             t = t + bin_length
-- 
2.43.0


From 1c8788af54e2a6425a13528b4fcac81cc72b3939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:02 +0000
Subject: [PATCH 14/59] fix: netcdf output of weathering arrays when no oil is
 spilled

With a weatherer but no oil that weathers (no spill that is on), the
arrays per component have a length no dimension was defined for: KeyError.
---
 py_gnome/gnome/outputters/netcdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 0386f05..13b7077 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -628,7 +628,13 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                                 shape = ('data',)
                                 chunksz = (self._chunksize,)
                             else:
-                                y_sz = d_dims[sc[var_name].shape[1]]
+                                y_len = sc[var_name].shape[1]
+                                if y_len not in d_dims:
+                                    # weathering arrays without any oil
+                                    d_dims[y_len] = 'dim_{}'.format(y_len)
+                                    rootgrp.createDimension(d_dims[y_len],
+                                                            y_len)
+                                y_sz = d_dims[y_len]
                                 shape = ('data', y_sz)
                                 chunksz = (self._chunksize,
                                            sc[var_name].shape[1])
-- 
2.43.0


From f1fda4f74ee1534f4d273b4527b6a608479cc13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:08 +0000
Subject: [PATCH 15/59] fix: load the weathering_substeps of a saved model

They were saved, but dropped on loading.
---
 py_gnome/gnome/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index c1ec767..30a6574 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -96,7 +96,7 @@ from gnome.utilities.appearance import AppearanceSchema
 class ModelSchema(ObjTypeSchema):
     'Colander schema for Model object'
     time_step = SchemaNode(Float())
-    weathering_substeps = SchemaNode(Int(), read_only=True)
+    weathering_substeps = SchemaNode(Int(), update=False)
     start_time = SchemaNode(
         extend_colander.LocalDateTime(),
         validator=validators.convertible_to_seconds
-- 
2.43.0


From 1f3299277a7dcaf959f1f56f39429b8a9a4575af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:08 +0000
Subject: [PATCH 16/59] fix: load a model from the json file of an unpacked
 save

---
 py_gnome/gnome/gnomeobject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index bbe17c3..b38bc46 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -968,7 +968,7 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                 with open(saveloc, 'r') as fp:
                     json_ = json.load(fp)
 
-                if 'obj_type' in json:
+                if 'obj_type' in json_:
                     if class_from_objtype(json_['obj_type']) is not cls:
                         raise ValueError("{} does not contain a {}"
                                          .format(saveloc, cls.__name__))
-- 
2.43.0


From 883a2ee420434102cfba541ad557c94575c99cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:13 +0000
Subject: [PATCH 17/59] fix: load grid releases and keep their initial
 positions

---
 py_gnome/gnome/spills/release.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index b2b22c9..5e30991 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -1023,7 +1023,8 @@ class GridRelease(Release):
 
     _schema = GridReleaseSchema
 
-    def __init__(self, release_time, bounds, resolution, release_mass=0):
+    def __init__(self, release_time, bounds, resolution, release_mass=0,
+                 **kwargs):
         """
         Release from a 2-D grid of points.
 
@@ -1062,7 +1063,8 @@ class GridRelease(Release):
         super().__init__(release_time=release_time,
                          # custom_positions=positions,
                          # num_elements=len(positions),
-                         release_mass=release_mass
+                         release_mass=release_mass,
+                         **kwargs
                          )
     @property
     def num_elements(self):
@@ -1121,7 +1123,7 @@ class GridRelease(Release):
         sc['init_mass'][sl] = self._mass_per_le
 
         if self.retain_initial_positions:
-            sc['init_positions'][sl] = pos
+            sc['init_positions'][sl] = positions
 
 
 
-- 
2.43.0


From d49bbe01986aa7b93269e9437ebb8735a8af421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:13 +0000
Subject: [PATCH 18/59] fix: keep the name given to a netcdf outputter

---
 py_gnome/gnome/outputters/netcdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index 13b7077..be0a7f3 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -352,7 +352,8 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
         self.zip_filename = '{0}.{1}'.format(name, 'zip')
 
         # fixme: move to base class?
-        self.name = os.path.split(filename)[1]
+        if kwargs.get('name') is None:
+            self.name = os.path.split(filename)[1]
 
         self.zip_output = zip_output
         if self.zip_output is True:
-- 
2.43.0


From 3a9e4c72d00b39bccf7f7a7338028f4ea3658fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:10 +0000
Subject: [PATCH 19/59] fix: remove elements before the uncertainty of a python
 mover sets in

---
 py_gnome/gnome/movers/py_current_movers.py | 3 ++-
 py_gnome/gnome/movers/py_wind_movers.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index f76dd6f..835f1dc 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -391,7 +391,8 @@ class CurrentMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            # there is no uncertainty before the uncertain_time_delay
+            if len(to_be_removed) > 0 and len(self._uncertainty_list) > 0:
                 new_uncertainty = np.copy(self._uncertainty_list)
                 #self._uncertainty_list = np.delete(self._uncertainty_list, to_be_removed, axis=0)
                 self._uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
diff --git a/py_gnome/gnome/movers/py_wind_movers.py b/py_gnome/gnome/movers/py_wind_movers.py
index a558857..1774e14 100644
--- a/py_gnome/gnome/movers/py_wind_movers.py
+++ b/py_gnome/gnome/movers/py_wind_movers.py
@@ -209,7 +209,8 @@ class WindMover(movers.PyMover):
             to_be_removed = np.where(sc['status_codes'] ==
                                      oil_status.to_be_removed)[0]
 
-            if len(to_be_removed) > 0:
+            # there is no uncertainty before the uncertain_time_delay
+            if len(to_be_removed) > 0 and len(self.uncertainty_list) > 0:
                 new_uncertainty = np.copy(self.uncertainty_list)
                 self.uncertainty_list = np.delete(new_uncertainty, to_be_removed, axis=0)
 
-- 
2.43.0


From fe1b536ffad4ccf587638ea54b3f46e9ba70cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:24 +0000
Subject: [PATCH 20/59] fix: save current movers with a steady uniform current

---
 py_gnome/gnome/movers/py_current_movers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/movers/py_current_movers.py b/py_gnome/gnome/movers/py_current_movers.py
index 835f1dc..17cd474 100644
--- a/py_gnome/gnome/movers/py_current_movers.py
+++ b/py_gnome/gnome/movers/py_current_movers.py
@@ -14,7 +14,7 @@ from gnome.utilities.projections import FlatEarthProjection
 from gnome.utilities.time_utils import TZOffset
 
 
-from gnome.environment import GridCurrent
+from gnome.environment import GridCurrent, SteadyUniformCurrent
 from gnome.environment.gridded_objects_base import Grid_U, VectorVariableSchema
 
 from gnome.movers.movers import TimeRangeSchema, PyMoverSchema
@@ -30,7 +30,8 @@ class CurrentMoverSchema(PyMoverSchema):
     current = GeneralGnomeObjectSchema(save=True, update=True,
                                        save_reference=True,
                                        acceptable_schemas=[VectorVariableSchema,
-                                                           GridCurrent._schema]
+                                                           GridCurrent._schema,
+                                                           SteadyUniformCurrent._schema]
                                        )
     uncertain_along = SchemaNode(
         Float(), missing=drop, save=True, update=True
-- 
2.43.0


From 1501aca07498460b4c78a1ccc77cbfe53118719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:12 +0000
Subject: [PATCH 21/59] fix: keep data files of the same name apart in a save
 file

---
 py_gnome/gnome/persist/base_schema.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index 287260d..f230c3f 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -1,5 +1,6 @@
 import datetime
 import zipfile
+import zlib
 import logging
 from collections import abc
 import os
@@ -389,8 +390,16 @@ class ObjType(SchemaType):
         returns the name of the file in the archive
         '''
         d_fname = os.path.split(raw_path)[1]
-        # add datafile to zip archive
+        stem, ext = os.path.splitext(d_fname)
+
+        # different files may have the same name (in different folders)
+        i = 0
+        while (d_fname in zipfile_.namelist() and
+               not same_as_archived(raw_path, zipfile_.getinfo(d_fname))):
+            d_fname = '{} ({}){}'.format(stem, i, ext)
+            i += 1
 
+        # add datafile to zip archive
         if d_fname not in zipfile_.namelist():
             zipfile_.write(raw_path, d_fname)
 
@@ -1002,3 +1011,18 @@ def gen_unique_filename(filename_in, zipfile_):
             new_fn = fmtstring.format(' (' + str(i) + ')')
 
     raise ValueError('Same file name used too many times')
+
+
+def same_as_archived(path, zipinfo):
+    """
+    Whether a file has the same content as a member of a zip archive
+    """
+    if os.path.getsize(path) != zipinfo.file_size:
+        return False
+
+    crc = 0
+    with open(path, 'rb') as infile:
+        for chunk in iter(lambda: infile.read(1 << 20), b''):
+            crc = zlib.crc32(chunk, crc)
+
+    return crc == zipinfo.CRC
-- 
2.43.0


From 1abbb17d7c319b97f7d2a638744e64c5f18240a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:30 +0000
Subject: [PATCH 22/59] fix: keep the name given to movers and tides that read
 files

---
 py_gnome/gnome/environment/tide.py        | 3 ++-
 py_gnome/gnome/movers/c_current_movers.py | 3 ++-
 py_gnome/gnome/movers/c_wind_movers.py    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/py_gnome/gnome/environment/tide.py b/py_gnome/gnome/environment/tide.py
index a3d2db7..ce61033 100644
--- a/py_gnome/gnome/environment/tide.py
+++ b/py_gnome/gnome/environment/tide.py
@@ -96,7 +96,8 @@ class Tide(Environment):
         self.cy_obj = self._obj_to_create(filename)
         # self.yeardata = os.path.abspath( yeardata ) # set yeardata
         self.yeardata = yeardata  # set yeardata
-        self.name = os.path.split(self.filename)[1]
+        if kwargs.get('name') is None:
+            self.name = os.path.split(self.filename)[1]
         self.scale_factor = scale_factor if scale_factor else self.cy_obj.scale_factor
 
 
diff --git a/py_gnome/gnome/movers/c_current_movers.py b/py_gnome/gnome/movers/c_current_movers.py
index 91e3f2c..f47aba3 100644
--- a/py_gnome/gnome/movers/c_current_movers.py
+++ b/py_gnome/gnome/movers/c_current_movers.py
@@ -520,7 +520,8 @@ class c_GridCurrentMover(CurrentMoversBase):
 
         # check if this is stored with cy_gridcurrent_mover?
         self.filename = filename
-        self.name = os.path.split(filename)[1]
+        if kwargs.get('name') is None:
+            self.name = os.path.split(filename)[1]
 
         # check if this is stored with cy_gridcurrent_mover?
         self.topology_file = topology_file
diff --git a/py_gnome/gnome/movers/c_wind_movers.py b/py_gnome/gnome/movers/c_wind_movers.py
index 5271dbb..0acfad6 100644
--- a/py_gnome/gnome/movers/c_wind_movers.py
+++ b/py_gnome/gnome/movers/c_wind_movers.py
@@ -380,7 +380,8 @@ class c_GridWindMover(WindMoversBase):
         super(c_GridWindMover, self).__init__(**kwargs)
 
         # is wind_file and topology_file is stored with cy_gridwind_mover?
-        self.name = os.path.split(filename)[1]
+        if kwargs.get('name') is None:
+            self.name = os.path.split(filename)[1]
         self.filename = filename
         self.topology_file = topology_file
 
-- 
2.43.0


From f2e3daeee015b93b00acc9ebd0a9e4a9d6e135d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:02 +0000
Subject: [PATCH 23/59] fix: keep using the directory given to an element cache
 after a rewind

---
 py_gnome/gnome/utilities/cache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/utilities/cache.py b/py_gnome/gnome/utilities/cache.py
index 6b165fb..5878001 100644
--- a/py_gnome/gnome/utilities/cache.py
+++ b/py_gnome/gnome/utilities/cache.py
@@ -83,6 +83,7 @@ class ElementCache():
         """
         # if cache_dir is None:
         #     cache_dir = tempfile.mkdtemp(dir=global_cache_dir)
+        self._given_dir = cache_dir
         self._create_new_dir(cache_dir)
 
         # dict to hold recent data so we don't need to pull from the
@@ -122,6 +123,7 @@ class ElementCache():
             # self._cache_dir = tempfile.mkdtemp(dir=global_cache_dir)
         else:
             self._cache_dir = cache_dir
+            os.makedirs(cache_dir, exist_ok=True)
         return True
 
     def save_timestep(self, step_num, spill_container_pair):
@@ -252,4 +254,4 @@ class ElementCache():
         # clean out the disk cache
         if os.path.isdir(self._cache_dir):
             shutil.rmtree(self._cache_dir)
-        self._create_new_dir()
+        self._create_new_dir(self._given_dir)
-- 
2.43.0


From f72e8bd408c256b6747380da51ce9fbe278f31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:48 +0000
Subject: [PATCH 24/59] fix: a save that fails does not destroy the earlier
 save

The zip file is written next to the final one and replaces it when it is
complete; the data of a mid-run save goes through a temporary directory
instead of the current one; saving to a new file with overwrite=False works.
---
 py_gnome/gnome/gnomeobject.py | 51 +++++++++++++++++++++++++++--------
 py_gnome/gnome/model.py       | 47 +++++++++++++-------------------
 2 files changed, 58 insertions(+), 40 deletions(-)

diff --git a/py_gnome/gnome/gnomeobject.py b/py_gnome/gnome/gnomeobject.py
index b38bc46..13bcdaa 100644
--- a/py_gnome/gnome/gnomeobject.py
+++ b/py_gnome/gnome/gnomeobject.py
@@ -838,6 +838,9 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
             saveloc = os.fspath(saveloc)
 
         zipfile_ = None
+        # A file is written next to the final one and replaces it when it is
+        # complete: a save that fails does not destroy an earlier one.
+        tempname = None
 
         if saveloc is None:
             # Only provide an open zipfile object.  When this is closed or
@@ -866,14 +869,12 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                     raise ValueError('{} already exists and overwrite is False'
                                      .format(saveloc))
 
-            zipfile_ = zipfile.ZipFile(saveloc, 'w',
-                                       compression=zipfile.ZIP_DEFLATED,
-                                       allowZip64=allowzip64)
+            tempname = saveloc + '.tmp'
         else:
             # saveloc is file path
             if not (saveloc.endswith(".zip") or saveloc.endswith(".gnome")):
                 saveloc = saveloc + ".gnome"
-            if not overwrite:
+            if not overwrite and os.path.exists(saveloc):
                 if zipfile.is_zipfile(saveloc):
                     zipfile_ = zipfile.ZipFile(
                         saveloc, 'a',
@@ -884,24 +885,52 @@ class GnomeId(AddLogger, metaclass=GnomeObjMeta):
                     raise ValueError('{} already exists and overwrite is False'
                                      .format(saveloc))
             else:
-                zipfile_ = zipfile.ZipFile(saveloc, 'w',
-                                           compression=zipfile.ZIP_DEFLATED,
-                                           allowZip64=allowzip64)
+                tempname = saveloc + '.tmp'
         if refs is None:
             refs = Refs()
 
-        obj_json = self._schema()._save(self, zipfile_=zipfile_, refs=refs)
+        try:
+            if tempname is not None:
+                zipfile_ = zipfile.ZipFile(tempname, 'w',
+                                           compression=zipfile.ZIP_DEFLATED,
+                                           allowZip64=allowzip64)
+
+            obj_json = self._schema()._save(self, zipfile_=zipfile_, refs=refs)
+
+            zipfile_.writestr('version.txt', SAVEFILE_VERSION)
+            zipfile_.writestr('pygnome_version.txt', gnome.__version__)
 
-        zipfile_.writestr('version.txt', SAVEFILE_VERSION)
-        zipfile_.writestr('pygnome_version.txt', gnome.__version__)
+            self._save_extra(zipfile_)
+
+            if saveloc is not None:
+                zipfile_.close()
+            if tempname is not None:
+                os.replace(tempname, saveloc)
+        except BaseException:
+            if tempname is not None:
+                try:
+                    if zipfile_ is not None and zipfile_.fp is not None:
+                        zipfile_.fp.close()
+                        zipfile_.fp = None
+                    os.remove(tempname)
+                except OSError:
+                    pass
+            raise
 
         if saveloc is None:
             log.info('Returning open zipfile in memory')
             return (obj_json, zipfile_, refs)
         else:
-            zipfile_.close()
             return (obj_json, saveloc, refs)
 
+    def _save_extra(self, zipfile_):
+        """
+        add what is not covered by the schema to a save file
+
+        :param zipfile_: open zipfile.ZipFile
+        """
+        pass
+
     @classmethod
     def load(cls, saveloc='.', filename=None, refs=None):
         '''
diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 30a6574..439c27b 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -35,6 +35,7 @@ model run and in subsequent steps the model moves and weathers elements.
 
 import os
 from datetime import datetime, timedelta
+import tempfile
 import zipfile
 from pprint import pformat
 import copy
@@ -1484,10 +1485,11 @@ class Model(GnomeId):
         save the data in the SpillContainer's if it is a mid-run save.
 
         '''
-        json_, saveloc, refs = super(Model, self).save(saveloc=saveloc,
-                                                       refs=refs,
-                                                       overwrite=overwrite)
+        return super(Model, self).save(saveloc=saveloc,
+                                       refs=refs,
+                                       overwrite=overwrite)
 
+    def _save_extra(self, zipfile_):
         # because a model can be saved mid-run and the SpillContainer data
         # required to reload is not covered in the schema, need to add the
         # SpillContainer data afterwards
@@ -1496,37 +1498,24 @@ class Model(GnomeId):
             hard code the filename - can make this an attribute if user wants
             to change it - but not sure if that will ever be needed?
             '''
-            self._save_spill_data(saveloc, 'spills_data_arrays.nc')
+            self._save_spill_data(zipfile_, 'spills_data_arrays.nc')
 
-        return json_, saveloc, refs
-
-    def _save_spill_data(self, saveloc, nc_filename):
+    def _save_spill_data(self, zipfile_, nc_filename):
         """
-        save the data arrays for current timestep to NetCDF
-        If saveloc is zipfile, then move NetCDF to zipfile
+        save the data arrays for current timestep to NetCDF in the zipfile
         """
-        nc_out = NetCDFOutput(nc_filename, which_data='all', cache=self._cache)
-        nc_out.prepare_for_model_run(model_start_time=self.start_time,
-                                     uncertain=self.uncertain,
-                                     spills=self.spills)
-        nc_out.write_output(self.current_time_step)
-
-        if isinstance(saveloc, zipfile.ZipFile):
-            saveloc.write(nc_filename, nc_filename)
+        with tempfile.TemporaryDirectory(prefix='gnome.') as tempdir:
+            nc_out = NetCDFOutput(os.path.join(tempdir, nc_filename),
+                                  which_data='all', cache=self._cache)
+            nc_out.prepare_for_model_run(model_start_time=self.start_time,
+                                         uncertain=self.uncertain,
+                                         spills=self.spills)
+            nc_out.write_output(self.current_time_step)
+
+            zipfile_.write(nc_out.filename, nc_filename)
             if self.uncertain:
                 u_file = nc_out.uncertain_filename
-                saveloc.write(u_file, os.path.split(u_file)[1])
-        elif zipfile.is_zipfile(saveloc):
-            with zipfile.ZipFile(saveloc, 'a',
-                                 compression=zipfile.ZIP_DEFLATED,
-                                 allowZip64=allowzip64) as z:
-                z.write(nc_filename, nc_filename)
-                if self.uncertain:
-                    u_file = nc_out.uncertain_filename
-                    z.write(u_file, os.path.split(u_file)[1])
-        if self.uncertain:
-            os.remove(u_file)
-        os.remove(nc_filename)
+                zipfile_.write(u_file, os.path.split(u_file)[1])
 
     @classmethod
     def load(cls, saveloc='.', filename=None, refs=None):
-- 
2.43.0


From d91f97993f18b994abfda53e02b965ca4c9e6f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:35 +0000
Subject: [PATCH 25/59] fix: in_water of a point on the map but off the raster

---
 py_gnome/gnome/maps/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 7411f00..cef39f9 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -1022,7 +1022,7 @@ class RasterMap(GnomeMap):
     def _in_water_pixel(self, coord):
         # if  off the raster, so must be in water,
         # unless not on map, which should have already been checked.
-        if not self._off_raster:
+        if self._off_raster(coord):
             return True
         else:
             return not self.raster[coord[0], coord[1]] & self.land_flag
-- 
2.43.0


From f25a6764a85a2a1de1f9fb01b256b1592293f090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:47 +0000
Subject: [PATCH 26/59] fix: elements do not cross land that the coarse rasters
 miss

The line between two coarse cells is not the line between the pixels in them, so
paths were taken to be free of land although they crossed it, and elements went
through islands and barriers in long steps.
---
 py_gnome/gnome/cy_gnome/cy_land_check.pyx | 138 ++++++++++++++++------
 1 file changed, 100 insertions(+), 38 deletions(-)

diff --git a/py_gnome/gnome/cy_gnome/cy_land_check.pyx b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
index 847ad1d..4042c10 100644
--- a/py_gnome/gnome/cy_gnome/cy_land_check.pyx
+++ b/py_gnome/gnome/cy_gnome/cy_land_check.pyx
@@ -171,6 +171,72 @@ cdef bool c_find_first_pixel(uint8_t* grid,
 
 
 
+@cython.cdivision(True)
+cdef int32_t c_floor_div(int32_t a, int32_t b):
+    """
+    floor division for positive b: C division would map pixels just off the
+    grid on to the first cell
+    """
+    if a >= 0:
+        return a // b
+    else:
+        return -((-a + b - 1) // b)
+
+
+cdef bool c_could_hit(uint8_t* grid,
+                      int32_t m,
+                      int32_t n,
+                      int32_t x0,
+                      int32_t y0,
+                      int32_t x1,
+                      int32_t y1,
+                      ):
+    """
+    Checks whether the LE movement could cross land, on one of the coarser
+    grids.
+
+    The line between two coarse cells is not the same as the line between the
+    two pixels in them, but any cell that the latter crosses is at most one
+    cell away from the former, so the neighbors of each cell are checked too.
+
+    returns False only if no land can be encountered on the full grid.
+    """
+    cdef int32_t dx, dy, sx, sy, err, e2, i, j
+
+    # check if totally off the grid (and the cells next to it)
+    if not c_overlap_grid(m + 2, n + 2, x0 + 1, y0 + 1, x1 + 1, y1 + 1):
+        return False
+
+    dx = abs(x1 - x0)
+    dy = abs(y1 - y0)
+    if x0 < x1:
+        sx = 1
+    else:
+        sx = -1
+    if y0 < y1:
+        sy = 1
+    else:
+        sy = -1
+    err = dx - dy
+
+    while True:
+        for i in range(max(x0 - 1, 0), min(x0 + 2, m)):
+            for j in range(max(y0 - 1, 0), min(y0 + 2, n)):
+                if grid[i * n + j] != 0:
+                    return True
+        if x0 == x1 and y0 == y1:
+            break
+        e2 = 2 * err
+        if e2 > -dy:
+            err = err - dy
+            x0 = x0 + sx
+        if e2 < dx:
+            err = err + dx
+            y0 = y0 + sy
+
+    return False
+
+
 def find_first_pixel(grid, pt1, pt2):
     """
     This finds the first non-zero pixel that is encountered when following
@@ -304,13 +370,10 @@ def check_land_layers(grid_layers,
         This version will look through multiple layers of raster map
 
         """
-        cdef int32_t  prev_x, prev_y, hit_x, hit_y, cur_ratio, layer, coarse_pos_x, num_ratios
+        cdef int32_t  prev_x, prev_y, hit_x, hit_y, cur_ratio, layer, num_ratios
         cdef uint32_t i, num_le
         cdef int32_t m, n
         cdef bool did_hit
-        cdef int32_t* coarse_pos = <int32_t*> PyMem_Malloc (2*sizeof(int32_t))
-        cdef int32_t* coarse_end = <int32_t*> PyMem_Malloc (2*sizeof(int32_t))
-
         num_ratios = grid_ratios.shape[0]
         cdef uint8_t** dataptrs = <uint8_t**> PyMem_Malloc(num_ratios*sizeof(uint8_t *))
         cdef int32_t* widths = <int32_t*> PyMem_Malloc(num_ratios*sizeof(int32_t))
@@ -331,50 +394,49 @@ def check_land_layers(grid_layers,
                 continue
 
             layer = 0
-            #begin the walk. If a hit is registered on the current grid, drop down one level and continue the walk.
+            #begin the walk. If a hit is possible on the current grid, drop down one level and continue the walk.
             #If a hit is registered on the lowest level, then LE has landed.
             while True:
-                coarse_pos[0] = div(positions[i,0], grid_ratios[layer]).quot
-                coarse_pos[1] = div(positions[i,1], grid_ratios[layer]).quot
-                coarse_end[0] = div(end_positions[i,0], grid_ratios[layer]).quot
-                coarse_end[1] = div(end_positions[i,1], grid_ratios[layer]).quot
                 cur_ratio = grid_ratios[layer]
-                did_hit = c_find_first_pixel(dataptrs[layer],
-                                         widths[layer],
-                                         heights[layer],
-                                         coarse_pos[0],
-                                         coarse_pos[1],
-                                         coarse_end[0],
-                                         coarse_end[1],
-                                         &prev_x,
-                                         &prev_y,
-                                         &hit_x,
-                                         &hit_y,
-                                         )
-                if did_hit:
-                    if layer == num_ratios - 1:
-                        # hit on the lowest layer (confirmed land hit)
-                        last_water_positions[i, 0] = prev_x
-                        last_water_positions[i, 1] = prev_y
-                        end_positions[i,0] = hit_x
-                        end_positions[i,1] = hit_y
-                        status_codes[i] = type_defs.OILSTAT_ONLAND
-                        break
-                    else:
+                if layer < num_ratios - 1:
+                    if c_could_hit(dataptrs[layer],
+                                   widths[layer],
+                                   heights[layer],
+                                   c_floor_div(positions[i, 0], cur_ratio),
+                                   c_floor_div(positions[i, 1], cur_ratio),
+                                   c_floor_div(end_positions[i, 0], cur_ratio),
+                                   c_floor_div(end_positions[i, 1], cur_ratio),
+                                   ):
                         # possible hit, go down a layer and try again
                         layer += 1
-                        coarse_pos[0] = div(positions[i,0], grid_ratios[layer]).quot
-                        coarse_pos[1] = div(positions[i,1], grid_ratios[layer]).quot
-                        coarse_end[0] = div(end_positions[i,0], grid_ratios[layer]).quot
-                        coarse_end[1] = div(end_positions[i,1], grid_ratios[layer]).quot
+                        continue
+                    did_hit = False
+                else:
+                    did_hit = c_find_first_pixel(dataptrs[layer],
+                                                 widths[layer],
+                                                 heights[layer],
+                                                 positions[i, 0],
+                                                 positions[i, 1],
+                                                 end_positions[i, 0],
+                                                 end_positions[i, 1],
+                                                 &prev_x,
+                                                 &prev_y,
+                                                 &hit_x,
+                                                 &hit_y,
+                                                 )
+                if did_hit:
+                    # hit on the lowest layer (confirmed land hit)
+                    last_water_positions[i, 0] = prev_x
+                    last_water_positions[i, 1] = prev_y
+                    end_positions[i,0] = hit_x
+                    end_positions[i,1] = hit_y
+                    status_codes[i] = type_defs.OILSTAT_ONLAND
                 else:
                     # didn't hit land -- can move the LE
                     positions[i, 0] = end_positions[i, 0]
                     positions[i, 1] = end_positions[i, 1]
-                    break
+                break
 
-        PyMem_Free(coarse_pos)
-        PyMem_Free(coarse_end)
         PyMem_Free(dataptrs)
         PyMem_Free(widths)
         PyMem_Free(heights)
-- 
2.43.0


From 1bc11fadae1e88150db2a1621ff5f97f382159ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:05 +0000
Subject: [PATCH 27/59] fix: book the mass of elements that leave a ParamMap
 once

---
 py_gnome/gnome/maps/map.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index cef39f9..18abea4 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -660,7 +660,6 @@ class ParamMap(GnomeMap):
         the land is so simple the collisions are detected via intersection.
         """
         self.resurface_airborne_elements(sc)
-        self._set_off_map_status(sc)
 
         start_pos = sc['positions']
         next_pos = sc['next_positions']
@@ -672,17 +671,10 @@ class ParamMap(GnomeMap):
         move_particles(start_pos, next_pos, status_codes,
                        last_water_positions, self.land_points)
 
-        self._set_off_map_status(sc)
-
-        # todo: need a prepare_for_model_run() so map adds these keys to
-        #     mass_balance as opposed to SpillContainer
-        # update 'off_maps'/'beached' in mass_balance
+        # this updates 'off_maps'/'beached' in mass_balance
         # note: this requires that the elements get removed before the
         #       next timestep, or it would get double counted.
-        sc.mass_balance['beached'] = \
-            sc['mass'][sc['status_codes'] == oil_status.on_land].sum()
-        sc.mass_balance['off_maps'] += \
-            sc['mass'][sc['status_codes'] == oil_status.off_maps].sum()
+        self._set_off_map_status(sc)
 
     def refloat_elements(self, spill_container, time_step, model_time=None):
         """
-- 
2.43.0


From 661fa8f03f12de30f3981b525d3d8028871c7fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:53 +0000
Subject: [PATCH 28/59] fix: prepare movers that are switched on during the run

---
 py_gnome/gnome/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 439c27b..d330342 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -904,8 +904,9 @@ class Model(GnomeId):
         # Step 6: Call prepare_for_model_run and misc setup
         transport = False
         for mover in self.movers:
+            # a mover that is off may be switched on during the run
+            mover.prepare_for_model_run()
             if mover.on:
-                mover.prepare_for_model_run()
                 transport = True
 
         weathering = False
-- 
2.43.0


From 84a04883127bc61f128d9bc059e0c0f3a20533e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:53 +0000
Subject: [PATCH 29/59] fix: save models with observed beaching

---
 py_gnome/gnome/weatherers/manual_beaching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index b95f09a..68d88cf 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -22,7 +22,7 @@ from gnome.persist import (validators, base_schema, DefaultTupleSchema,
 
 from .core import WeathererSchema
 from .cleanup import RemoveMass
-from gnome.environment.environment import WaterSchema
+from gnome.environment.water import WaterSchema
 
 
 class BeachingTupleSchema(DefaultTupleSchema):
-- 
2.43.0


From 650bd2c315ef8571e2fcfc65b9b7b501bebeeb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:53 +0000
Subject: [PATCH 30/59] fix: clean-up and observed beaching remove what is due
 in each weathering substep and window

---
 py_gnome/gnome/weatherers/cleanup.py         | 24 +++++++++++++-------
 py_gnome/gnome/weatherers/manual_beaching.py |  9 +++++++-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/py_gnome/gnome/weatherers/cleanup.py b/py_gnome/gnome/weatherers/cleanup.py
index 7ba87ee..0805fac 100644
--- a/py_gnome/gnome/weatherers/cleanup.py
+++ b/py_gnome/gnome/weatherers/cleanup.py
@@ -61,16 +61,15 @@ class RemoveMass(object):
         if not self.active:
             return
 
-        self._timestep = time_step
-        dt = timedelta(seconds=time_step)
+        start = model_time
+        if start < self.active_range[0]:
+            start = self.active_range[0]
 
-        if (model_time < self.active_range[0]):
-            self._timestep = time_step - (self.active_range[0] -
-                                          model_time).total_seconds()
+        end = model_time + timedelta(seconds=time_step)
+        if self.active_range[1] < end:
+            end = self.active_range[1]
 
-        if (self.active_range[1] < model_time + dt):
-            self._timestep = (self.active_range[1] -
-                              model_time).total_seconds()
+        self._timestep = max((end - start).total_seconds(), 0.0)
 
     def prepare_for_model_step(self, sc, time_step, model_time):
         '''
@@ -348,6 +347,9 @@ class Skimmer(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # time_step and model_time are those of the weathering substep
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='skim'):
 
             if len(data['mass']) == 0:
@@ -692,6 +694,9 @@ class Burn(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # time_step and model_time are those of the weathering substep
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='burn'):
             if len(data['mass']) == 0:
                 return
@@ -857,6 +862,9 @@ class ChemicalDispersion(CleanUpBase):
         if not self.active or len(sc) == 0 or not sc.substance.is_weatherable:
             return
 
+        # time_step and model_time are those of the weathering substep
+        self._set__timestep(time_step, model_time)
+
         for substance, data in sc.itersubstancedata(self.array_types, fate_status='disperse'):
             if len(data['mass']) == 0:
                 continue
diff --git a/py_gnome/gnome/weatherers/manual_beaching.py b/py_gnome/gnome/weatherers/manual_beaching.py
index 68d88cf..5640a0c 100644
--- a/py_gnome/gnome/weatherers/manual_beaching.py
+++ b/py_gnome/gnome/weatherers/manual_beaching.py
@@ -224,6 +224,9 @@ class Beaching(RemoveMass, Weatherer):
         # Expect the timestep to be much smaller than the delta time between
         # timeseries, however, let's not make this assumption since it can't be
         # enforced
+        if time_step <= 0:
+            return 0.0
+
         t_int = np.where(np.datetime64(model_time) >=
                          self._timeseries['time'])[0][-1]
 
@@ -268,10 +271,14 @@ class Beaching(RemoveMass, Weatherer):
         if not self.active or len(sc) == 0:
             return
 
+        # time_step and model_time are those of the weathering substep
+        self._set__timestep(time_step, model_time)
+        start_time = max(model_time, self.active_range[0])
+
         for substance, data in sc.itersubstancedata(self.array_types):
             if len(data['mass']) == 0:
                 continue
-            rm_mass = self._remove_mass(self._timestep, model_time, substance)
+            rm_mass = self._remove_mass(self._timestep, start_time, substance)
             rm_mass_frac = rm_mass / data['mass'].sum()
             if rm_mass_frac > 1.0:
                 rm_mass_frac = 1.0
-- 
2.43.0


From 0aa13c985840ae5d7ceb2574da4fc75142c55634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:53 +0000
Subject: [PATCH 31/59] fix: binary output keeps to its own files and can be
 extended

---
 py_gnome/gnome/outputters/binary.py | 53 ++++++++++++++++-------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/py_gnome/gnome/outputters/binary.py b/py_gnome/gnome/outputters/binary.py
index d987602..8aca7a7 100644
--- a/py_gnome/gnome/outputters/binary.py
+++ b/py_gnome/gnome/outputters/binary.py
@@ -5,7 +5,7 @@ For use in Gnome Analyst
 
 import os
 import copy
-from glob import glob
+from glob import glob, escape
 import zipfile
 
 import numpy as np
@@ -73,8 +73,6 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
         super(BinaryOutput, self).__init__(filename=filename,
                                                     **kwargs)
 
-        name, ext = os.path.splitext(self.filename)
-        self.name = name
         dirname, filename = os.path.split(self.filename)
         self.output_dir = dirname
         #self._c_filename = '{0}FORCST'.format(name)
@@ -82,8 +80,13 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
         self.zip_output = zip_output
         self.filedir = os.path.dirname(filename)
         self.file_num = 0
+        self.num_zipped = 0  # how many of the files are in the zip file already
         self.cleaned_up = False  # so that we can guard against post_model_run being called twice.
 
+    @property
+    def base_name(self):
+        'full path of the output files, without extension'
+        return os.path.splitext(self.filename)[0]
 
     def prepare_for_model_run(self,
                               model_start_time,
@@ -128,6 +131,7 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
                                                         spills,
                                                         **kwargs)
         self.file_num = 0
+        self.num_zipped = 0
         self.uncertain = uncertain
 
 
@@ -146,11 +150,11 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
                 # loop through uncertain and certain LEs
                 # extract the data
                 if sc.uncertain:
-                    #self._u_filename = '{0}UNCRTN.{1:03d}'.format(self.name,self.file_num)
-                    filename = '{0}UNCRTN.{1:03d}'.format(self.name,self.file_num)
+                    #self._u_filename = '{0}UNCRTN.{1:03d}'.format(self.base_name,self.file_num)
+                    filename = '{0}UNCRTN.{1:03d}'.format(self.base_name,self.file_num)
                 else:
-                    #self._c_filename = '{0}FORCST.{1:03d}'.format(self.name,self.file_num)
-                    filename = '{0}FORCST.{1:03d}'.format(self.name,self.file_num)
+                    #self._c_filename = '{0}FORCST.{1:03d}'.format(self.base_name,self.file_num)
+                    filename = '{0}FORCST.{1:03d}'.format(self.base_name,self.file_num)
 
                 self._file_exists_error(filename)
 
@@ -158,6 +162,7 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
 
             self.file_num += 1
+            self.cleaned_up = False
 
         if islast_step:
             self._zip_binary_files(self.file_num)
@@ -239,41 +244,41 @@ class BinaryOutput(OutputterFilenameMixin,Outputter):
 
     def _zip_binary_files(self, num_files):
         if self.zip_output is True:
-            zfilename = self.name + '.zip'
-            zipf = zipfile.ZipFile(zfilename, 'w')
+            zfilename = self.base_name + '.zip'
+            # a run that was extended adds to the files already in there
+            zipf = zipfile.ZipFile(zfilename, 'a' if self.num_zipped else 'w')
 
-            for file_num in range(0, num_files):
-                forcst_file = '{0}FORCST.{1:03d}'.format(self.name,file_num)
+            for file_num in range(self.num_zipped, num_files):
+                forcst_file = '{0}FORCST.{1:03d}'.format(self.base_name,file_num)
                 dir, file_to_zip = os.path.split(forcst_file)
                 zipf.write(forcst_file,
                            arcname=file_to_zip)
                 os.remove(forcst_file)
                 if self.uncertain is True:
-                    uncrtn_file = '{0}UNCRTN.{1:03d}'.format(self.name,file_num)
+                    uncrtn_file = '{0}UNCRTN.{1:03d}'.format(self.base_name,file_num)
                     dir, file_to_zip = os.path.split(uncrtn_file)
                     zipf.write(uncrtn_file,
                                arcname=file_to_zip)
                     os.remove(uncrtn_file)
 
             zipf.close()
+            self.num_zipped = num_files
 
     def clean_output_files(self):
-        if self.output_dir:
-            files = glob(os.path.join(self.output_dir,
-                                      '*FORCST.*'))
-            for f in files:
+        # only the files of this outputter: there may be others in the folder
+        base_name = escape(self.base_name)
+        for pattern in ('FORCST.*', 'UNCRTN.*'):
+            for f in glob(base_name + pattern):
                 try:
                     os.remove(f)
-                except:
+                except OSError:
                     pass
 
-            files = glob(os.path.join(self.output_dir,
-                                      '*UNCRTN.*'))
-            for f in files:
-                try:
-                    os.remove(f)
-                except:
-                    pass
+        if self.zip_output:
+            try:
+                os.remove(self.base_name + '.zip')
+            except OSError:
+                pass
 
     def post_model_run(self):
         """
-- 
2.43.0


From 8ab5a768fd8564b579fe7a7dd4165e0f314034bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:53 +0000
Subject: [PATCH 32/59] fix: GeoJSON files hold the forecast elements

---
 py_gnome/gnome/outputters/geo_json.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/geo_json.py b/py_gnome/gnome/outputters/geo_json.py
index 1d9c25d..6bf0373 100644
--- a/py_gnome/gnome/outputters/geo_json.py
+++ b/py_gnome/gnome/outputters/geo_json.py
@@ -163,8 +163,10 @@ class TrajectoryGeoJsonOutput(Outputter):
                        'uncertain': uc_geojson}
 
         if self.output_dir:
-            output_info['output_filename'] = str(self.output_to_file(c_geojson, step_num))
-            self.output_to_file(uc_geojson, step_num)
+            # forecast and uncertain features (told apart by their sc_type)
+            # go in one file
+            content = FeatureCollection(c_features + uc_features)
+            output_info['output_filename'] = str(self.output_to_file(content, step_num))
 
         return output_info
 
-- 
2.43.0


From b4fa438ab7c6cd78ccd1fe99e71e5e9e7fd1d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:07 +0000
Subject: [PATCH 33/59] fix: the oil budget file is complete after every row
 and can be extended

---
 py_gnome/gnome/outputters/oil_budget.py | 31 +++++++------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/py_gnome/gnome/outputters/oil_budget.py b/py_gnome/gnome/outputters/oil_budget.py
index 10f3eaa..5ca7055 100644
--- a/py_gnome/gnome/outputters/oil_budget.py
+++ b/py_gnome/gnome/outputters/oil_budget.py
@@ -99,10 +99,15 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
                                                            spills,
                                                            **kwargs)
         self._check_is_dir(self.filename)
-        outfile = open(self.filename, 'w', newline='')
-        self.csv_writer = csv.writer(outfile)
         # write the header
-        self.csv_writer.writerow(self.header_row)
+        self._write_row(self.header_row, mode='w')
+
+    def _write_row(self, row, mode='a'):
+        """
+        add a row to the file, leaving a complete file behind
+        """
+        with open(self.filename, mode, newline='') as outfile:
+            csv.writer(outfile).writerow(row)
 
     def write_output(self, step_num, islast_step=False):
         """
@@ -134,22 +139,4 @@ class OilBudgetOutput(BaseMassBalanceOutputter, OutputterFilenameMixin):
             except KeyError:
                 val = ''
                 row.append(val)
-        self.csv_writer.writerow(row)
-
-    def post_model_run(self):
-        """
-        Called  after a model run is complete
-
-        remove the csv file - hopefully resulting
-        in the file being closed.
-
-        """
-        self.csv_writer = None
-
-
-
-
-
-
-
-
+        self._write_row(row)
-- 
2.43.0


From fcb394580cd26bcbb6d499fcd54b773473bcc63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:07 +0000
Subject: [PATCH 34/59] fix: KMZ output of an extended run is valid

---
 py_gnome/gnome/outputters/kmz.py | 35 ++++++++++++++++----------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/py_gnome/gnome/outputters/kmz.py b/py_gnome/gnome/outputters/kmz.py
index 073d25b..b4ff2bb 100644
--- a/py_gnome/gnome/outputters/kmz.py
+++ b/py_gnome/gnome/outputters/kmz.py
@@ -120,6 +120,7 @@ class KMZOutput(OutputterFilenameMixin, Outputter):
 
         # add to the kml list:
         if self._write_step:
+            self.cleaned_up = False
             for sc in self.cache.load_timestep(step_num).items():
                 # loop through uncertain and certain LEs
                 # extract the data
@@ -145,15 +146,7 @@ class KMZOutput(OutputterFilenameMixin, Outputter):
                                                                  ))
 
         if islast_step:  # now we really write the file:
-            self.kml.append(kmz_templates.footer)
-
-            with zipfile.ZipFile(self.filename, 'w',
-                                 compression=zipfile.ZIP_DEFLATED) as kmzfile:
-                kmzfile.writestr('dot.png', base64.b64decode(DOT))
-                kmzfile.writestr('x.png', base64.b64decode(X))
-                kmzfile.writestr(self.kml_name,
-                                 "".join(self.kml).encode('utf8'))
-            self.cleaned_up = True
+            self._write_kmz()
 
 
         if not self._write_step:
@@ -165,21 +158,27 @@ class KMZOutput(OutputterFilenameMixin, Outputter):
         return output_info
 
 
+    def _write_kmz(self):
+        """
+        write everything there is so far
+
+        the footer does not go in the list: the run may be extended
+        """
+        with zipfile.ZipFile(self.filename, 'w',
+                             compression=zipfile.ZIP_DEFLATED) as kmzfile:
+            kmzfile.writestr('dot.png', base64.b64decode(DOT))
+            kmzfile.writestr('x.png', base64.b64decode(X))
+            kmzfile.writestr(self.kml_name,
+                             "".join(self.kml + [kmz_templates.footer]).encode('utf8'))
+        self.cleaned_up = True
+
     def post_model_run(self):
         """
         This is where to clean up -- close files, etc.
         """
 
         if not self.cleaned_up:
-            self.kml.append(kmz_templates.footer)
-
-            with zipfile.ZipFile(self.filename, 'w',
-                                 compression=zipfile.ZIP_DEFLATED) as kmzfile:
-                kmzfile.writestr('dot.png', base64.b64decode(DOT))
-                kmzfile.writestr('x.png', base64.b64decode(X))
-                kmzfile.writestr(self.kml_name,
-                                 "".join(self.kml).encode('utf8'))
-            self.cleaned_up = True
+            self._write_kmz()
 
 
     def rewind(self):
-- 
2.43.0


From 686bebfd220fb1cfb56e97a8eaa3211add8a1097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:28 +0000
Subject: [PATCH 35/59] fix: finish the output that is written after a run

---
 py_gnome/gnome/outputters/outputter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/outputters/outputter.py b/py_gnome/gnome/outputters/outputter.py
index 7688e6c..8e46cf2 100644
--- a/py_gnome/gnome/outputters/outputter.py
+++ b/py_gnome/gnome/outputters/outputter.py
@@ -486,6 +486,9 @@ class Outputter(GnomeId):
             model_time = (self.cache.load_timestep(step_num).items()[0]
                           .current_time_stamp)
 
+        # as the model does at the end of a run
+        self.post_model_run()
+
     @property
     def middle_of_run(self):
         return self._middle_of_run
-- 
2.43.0


From 066b2bb1f65355f6f2138a1f670dd04918ddd3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:28 +0000
Subject: [PATCH 36/59] fix: unzipped shapefiles are bundled with all their
 parts

---
 py_gnome/gnome/outputters/shape.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/py_gnome/gnome/outputters/shape.py b/py_gnome/gnome/outputters/shape.py
index 0a9a4a5..a6d9f2b 100644
--- a/py_gnome/gnome/outputters/shape.py
+++ b/py_gnome/gnome/outputters/shape.py
@@ -1,6 +1,7 @@
 """Shapefile Outputter"""
 
 from colander import SchemaNode, Boolean, drop, Float, Int
+import glob
 import os
 import pathlib
 import shutil
@@ -234,22 +235,18 @@ class ShapeOutput(Outputter):
         """Create a shapefile bundle including both certain and uncertain shapefiles"""
         zipf_filename = os.path.join(self.tempdir.name, self.filenamestem)+'_bundle.zip'
         zipf = zipfile.ZipFile(zipf_filename, 'w')
-        # Add the main forcast file
-        dir, file_to_zip = os.path.split(self.shapefile_builder_certain.filename)
-        zipf.write(self.shapefile_builder_certain.filename,
-                   arcname=file_to_zip)
+        builders = [self.shapefile_builder_certain]  # the main forcast file
         if self.include_certain_boundary:
-            dir, file_to_zip = os.path.split(self.shapefile_builder_certain_boundary.filename)
-            zipf.write(self.shapefile_builder_certain_boundary.filename,
-                       arcname=file_to_zip)
+            builders.append(self.shapefile_builder_certain_boundary)
         if uncertain:
-            dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain.filename)
-            zipf.write(self.shapefile_builder_uncertain.filename,
-                       arcname=file_to_zip)
+            builders.append(self.shapefile_builder_uncertain)
             if self.include_uncertain_boundary:
-                dir, file_to_zip = os.path.split(self.shapefile_builder_uncertain_boundary.filename)
-                zipf.write(self.shapefile_builder_uncertain_boundary.filename,
-                           arcname=file_to_zip)
+                builders.append(self.shapefile_builder_uncertain_boundary)
+        for builder in builders:
+            # one zip file, or all the files a shapefile consists of
+            fn = builder.filename
+            for f in sorted(fn.parent.glob(glob.escape(fn.stem) + '.*')):
+                zipf.write(f, arcname=f.name)
         zipf.close()
         return zipf_filename
 
-- 
2.43.0


From 5bb5b91b2bbda7e2eb9caa11b36eb9bad521e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:08 +0000
Subject: [PATCH 37/59] fix: replacing an element by index works after a
 removal and with an element already present

---
 py_gnome/gnome/utilities/orderedcollection.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 0bfc136..6f0e94b 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -137,8 +137,8 @@ class OrderedCollection(object):
                             f'expected {self.dtype}, got {type(new_elem)}')
 
         if isinstance(ident, int):
-            l__key = self._s_id(self._elems[ident])
-            idx = ident
+            # counted over the elements present, as get() does
+            l__key = self._s_id(self.get(ident))
         else:
             if ident in self._d_index:
                 l__key = ident
@@ -146,12 +146,16 @@ class OrderedCollection(object):
                 raise KeyError('Cannot find object by this "id" in '
                                'OrderedCollection')
 
-            idx = self._d_index[l__key]
-
         # found existing object
-        del self._d_index[l__key]
+        idx = self._d_index.pop(l__key)
+        new_key = self._s_id(new_elem)
+
+        if new_key in self._d_index:
+            # already in the collection: it moves to its new place
+            self._elems[self._d_index[new_key]] = None
+
         self._elems[idx] = new_elem
-        self._d_index[self._s_id(new_elem)] = idx
+        self._d_index[new_key] = idx
         self.fire_event('replace', new_elem)  # returns the newly added object
 
     def index(self, elem):
-- 
2.43.0


From 3051e4b1023c4d96bd9c527d6e714fc9e3548b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:08 +0000
Subject: [PATCH 38/59] fix: slices of an OrderedCollection are those of a list

---
 py_gnome/gnome/utilities/orderedcollection.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/py_gnome/gnome/utilities/orderedcollection.py b/py_gnome/gnome/utilities/orderedcollection.py
index 6f0e94b..135be26 100644
--- a/py_gnome/gnome/utilities/orderedcollection.py
+++ b/py_gnome/gnome/utilities/orderedcollection.py
@@ -204,18 +204,10 @@ class OrderedCollection(object):
         # in self._d_index dict
         return id_ in self._d_index
 
-    def _slice_attr(self, ident):
-        'support for slice operations like a list'
-        start = (ident.start, 0)[ident.start is None]
-        stop = (ident.stop, len(self))[ident.stop is None]
-        step = (ident.step, 1)[ident.step is None]
-        return (start, stop, step)
-
     def __getitem__(self, ident):
         'slicing works just like it does for lists'
         if isinstance(ident, slice):
-            (start, stop, step) = self._slice_attr(ident)
-            return [self.get(ix) for ix in range(start, stop, step)]
+            return [self.get(ix) for ix in range(*ident.indices(len(self)))]
         else:
             return self.get(ident)
 
-- 
2.43.0


From 3b0a995e6d89d8b81b73a1b9090bdee8714739e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:26 +0000
Subject: [PATCH 39/59] fix: adding a spill twice adds no second uncertain copy

---
 py_gnome/gnome/spill_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index 0394a7a..96d49c7 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -1174,7 +1174,7 @@ class SpillContainerPair(SpillContainerPairData):
         if isinstance(item, tuple):
             # add both certain and uncertain pair
             self._add_spill_pair(item)
-        else:
+        elif item not in self._spill_container.spills:
             self._spill_container.spills += item
             if self.uncertain:
                 self._u_spill_container.spills += item.uncertain_copy()
-- 
2.43.0


From 5c3b384264d54f6f46f37fd626dc6ab1313d0e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:05 +0000
Subject: [PATCH 40/59] fix: send the pickled responses of model consumers as
 bytes

---
 py_gnome/gnome/multi_model_broadcast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/multi_model_broadcast.py b/py_gnome/gnome/multi_model_broadcast.py
index cafa188..88bed2d 100644
--- a/py_gnome/gnome/multi_model_broadcast.py
+++ b/py_gnome/gnome/multi_model_broadcast.py
@@ -108,9 +108,9 @@ class ModelConsumer(mp.Process):
                 cmd, args = cmd[:2]
                 res = getattr(self, '_' + cmd)(**args)
 
-                self.stream.send_unicode(dumps(res))
+                self.stream.send(dumps(res))
             except Exception:
-                self.stream.send_unicode(dumps(sys.exc_info()))
+                self.stream.send(dumps(sys.exc_info()))
 
     def _sleep(self, secs):
         '''
-- 
2.43.0


From 7d7beed87dcab9ecfc1dbb84b9e4cdc36dedbb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:05 +0000
Subject: [PATCH 41/59] fix: model consumers get a cache directory of their own

---
 py_gnome/gnome/multi_model_broadcast.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/multi_model_broadcast.py b/py_gnome/gnome/multi_model_broadcast.py
index 88bed2d..e8ef0e8 100644
--- a/py_gnome/gnome/multi_model_broadcast.py
+++ b/py_gnome/gnome/multi_model_broadcast.py
@@ -178,7 +178,15 @@ class ModelConsumer(mp.Process):
         return self.model._cache._cache_dir
 
     def _set_cache_dir(self):
-        return self.model._cache.create_new_dir()
+        cache = self.model._cache
+
+        # The directory we inherited belongs to the parent process: we hold
+        # on to the object that would remove it, and never go back to it.
+        self._inherited_dirs = getattr(self, '_inherited_dirs', [])
+        self._inherited_dirs.append(getattr(cache, 'cache_dir_obj', None))
+        cache._given_dir = None
+
+        return cache._create_new_dir()
 
     def _get_cache_enabled(self):
         return self.model._cache.enabled
-- 
2.43.0


From ec1fdf890cfe49c10203fea114024d5a8e1331dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:05 +0000
Subject: [PATCH 42/59] fix: raise the exceptions of model consumers with their
 traceback

---
 py_gnome/gnome/multi_model_broadcast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/multi_model_broadcast.py b/py_gnome/gnome/multi_model_broadcast.py
index e8ef0e8..d1d0f8b 100644
--- a/py_gnome/gnome/multi_model_broadcast.py
+++ b/py_gnome/gnome/multi_model_broadcast.py
@@ -346,7 +346,7 @@ class ModelBroadcaster(GnomeId):
                 isinstance(response[1], Exception) and
                 isinstance(response[2], traceback.types.TracebackType)):
             self.stop()
-            raise response[0](str(response[1])).with_traceback()
+            raise response[0](str(response[1])).with_traceback(response[2])
 
     def stop(self):
         if hasattr(self, 'tasks') and len(self.tasks) > 0:
-- 
2.43.0


From e37316907c986a35f5ead488817454e88b9802cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:14 +0000
Subject: [PATCH 43/59] fix: stop the consumers of a broadcaster that could not
 start

---
 py_gnome/gnome/multi_model_broadcast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/multi_model_broadcast.py b/py_gnome/gnome/multi_model_broadcast.py
index d1d0f8b..0a03748 100644
--- a/py_gnome/gnome/multi_model_broadcast.py
+++ b/py_gnome/gnome/multi_model_broadcast.py
@@ -349,7 +349,7 @@ class ModelBroadcaster(GnomeId):
             raise response[0](str(response[1])).with_traceback(response[2])
 
     def stop(self):
-        if hasattr(self, 'tasks') and len(self.tasks) > 0:
+        if getattr(self, 'tasks', None) or getattr(self, 'consumers', None):
             try:
                 [t.send(dumps(None)) for t in self.tasks]
             except zmq.ZMQError as e:
@@ -364,7 +364,8 @@ class ModelBroadcaster(GnomeId):
 
             self.logger.info('joined all consumers!')
 
-            self.context.term()
+            if self.context is not None:
+                self.context.term()
 
             self.clean_task_files()
             self.consumers = []
-- 
2.43.0


From 4d0705092acd1c4bcd4cc037d18319a00ab2f47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:00 +0000
Subject: [PATCH 44/59] fix: recognise the exceptions that model consumers
 return

---
 py_gnome/gnome/multi_model_broadcast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/multi_model_broadcast.py b/py_gnome/gnome/multi_model_broadcast.py
index 0a03748..9f82f3f 100644
--- a/py_gnome/gnome/multi_model_broadcast.py
+++ b/py_gnome/gnome/multi_model_broadcast.py
@@ -4,7 +4,7 @@ import os
 import psutil
 import time
 import logging
-import traceback
+import types
 
 from pickle import loads, dumps
 import uuid
@@ -344,7 +344,7 @@ class ModelBroadcaster(GnomeId):
         if (isinstance(response, tuple) and len(response) == 3 and
                 isinstance(response[0], type) and
                 isinstance(response[1], Exception) and
-                isinstance(response[2], traceback.types.TracebackType)):
+                isinstance(response[2], types.TracebackType)):
             self.stop()
             raise response[0](str(response[1])).with_traceback(response[2])
 
-- 
2.43.0


From bf79c6d42c8e195327d85dc5cced0e281d41380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:19 +0000
Subject: [PATCH 45/59] fix: order weatherers that the sort order does not know

---
 py_gnome/gnome/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index d330342..5905117 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -761,8 +761,15 @@ class Model(GnomeId):
         return None if items == [] else items
 
     def _order_weatherers(self):
-        'use weatherer_sort to sort the weatherers'
-        s_weatherers = sorted(self.weatherers, key=weatherer_sort)
+        '''
+        use weatherer_sort to sort the weatherers; those it defines no order
+        for (user defined weatherers) come first
+        '''
+        def sort_key(weatherer):
+            idx = weatherer_sort(weatherer)
+            return -1 if idx is None else idx
+
+        s_weatherers = sorted(self.weatherers, key=sort_key)
 
         if list(self.weatherers.values()) != s_weatherers:
             self.weatherers.clear()
-- 
2.43.0


From b96e618273b7b74ca4524103155ac9259cd5411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:28 +0000
Subject: [PATCH 46/59] fix: elements released on land do not refloat at (0, 0)

---
 py_gnome/gnome/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 5905117..1a64a32 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1278,6 +1278,9 @@ class Model(GnomeId):
                 # for sc in self.spills.items():
                 on_land = self.map.on_land_points(sc['positions'][-num_released:])
                 sc['status_codes'][-num_released:][on_land] = oil_status.on_land
+                # there is no water to refloat to other than where they are
+                sc['last_water_positions'][-num_released:][on_land] = \
+                    sc['positions'][-num_released:][on_land]
 
                 for item in self.weatherers:
                     if item.on:
-- 
2.43.0


From 98bb08b9a872e51607a2df4a844498a77933c92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:06 +0000
Subject: [PATCH 47/59] fix: report elements released on land as beached

---
 py_gnome/gnome/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/py_gnome/gnome/model.py b/py_gnome/gnome/model.py
index 1a64a32..61dab0d 100644
--- a/py_gnome/gnome/model.py
+++ b/py_gnome/gnome/model.py
@@ -1281,6 +1281,9 @@ class Model(GnomeId):
                 # there is no water to refloat to other than where they are
                 sc['last_water_positions'][-num_released:][on_land] = \
                     sc['positions'][-num_released:][on_land]
+                if np.any(on_land):
+                    sc.mass_balance['beached'] = \
+                        sc['mass'][sc['status_codes'] == oil_status.on_land].sum()
 
                 for item in self.weatherers:
                     if item.on:
-- 
2.43.0


From 8f7e447ffc299a71766e33e90f02c420daf93d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:35 +0000
Subject: [PATCH 48/59] fix: netcdf output of a run does not depend on the
 arrays of earlier runs

---
 py_gnome/gnome/outputters/netcdf.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/py_gnome/gnome/outputters/netcdf.py b/py_gnome/gnome/outputters/netcdf.py
index be0a7f3..5bb22d5 100644
--- a/py_gnome/gnome/outputters/netcdf.py
+++ b/py_gnome/gnome/outputters/netcdf.py
@@ -366,6 +366,9 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                              '{"standard", "most", "all"}')
 
         self.arrays_to_output = set(self.standard_arrays)
+        # what the last run added to / removed from arrays_to_output
+        self._arrays_added = set()
+        self._arrays_left_out = set()
 
         # this is only updated in prepare_for_model_run if which_data is
         # 'all' or 'most'
@@ -498,6 +501,12 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
 
     def _update_arrays_to_output(self, sc):
         'create list of variables that we want to put in the file'
+        # start from what was asked for: the previous run may have had other
+        # arrays, or been written with another value of which_data
+        self.arrays_to_output -= self._arrays_added
+        self.arrays_to_output |= self._arrays_left_out
+        asked_for = set(self.arrays_to_output)
+
         if self.which_data in ('all', 'most'):
             # get shape and dtype from initailized numpy arrays instead
             # of array_types because some array type shapes are None
@@ -519,6 +528,9 @@ class NetCDFOutput(Outputter, OutputterFilenameMixin):
                 to_remove.add(var_name)
         self.arrays_to_output -= to_remove
 
+        self._arrays_added = self.arrays_to_output - asked_for
+        self._arrays_left_out = asked_for - self.arrays_to_output
+
     def prepare_for_model_run(self,
                               model_start_time,
                               spills,
-- 
2.43.0


From 61231bf5a429bc4e6e4f548d91856df3865a37a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:01 +0000
Subject: [PATCH 49/59] fix: a spill that replaces another keeps one uncertain
 copy

---
 py_gnome/gnome/spill_container.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/spill_container.py b/py_gnome/gnome/spill_container.py
index 96d49c7..29880bd 100644
--- a/py_gnome/gnome/spill_container.py
+++ b/py_gnome/gnome/spill_container.py
@@ -1229,8 +1229,16 @@ class SpillContainerPair(SpillContainerPairData):
         return spill
 
     def __setitem__(self, ident, new_spill):
-        self._spill_container.spills.replace(ident, new_spill)
+        spills = self._spill_container.spills
+        num = len(spills)
+        old_ix = spills.index(new_spill) if new_spill in spills else None
+
+        spills.replace(ident, new_spill)
         if self.uncertain:
+            if len(spills) < num:
+                # the spill moved here from another place
+                del self._u_spill_container.spills[old_ix]
+
             ix = self.index(new_spill)
             self._u_spill_container.spills[ix] = new_spill.uncertain_copy()
 
-- 
2.43.0


From 023cbc7c421a7035640121b6c632b2835321325d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:12 +0000
Subject: [PATCH 50/59] fix: models with subsurface releases can be loaded
 again

---
 py_gnome/gnome/spills/release.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/spills/release.py b/py_gnome/gnome/spills/release.py
index 5e30991..f75c3f5 100644
--- a/py_gnome/gnome/spills/release.py
+++ b/py_gnome/gnome/spills/release.py
@@ -30,12 +30,17 @@ from colander import (String, SchemaNode, SequenceSchema, drop, Int, Float,
                       Boolean)
 
 from gnome.persist.base_schema import (ObjTypeSchema, WorldPoint, FeatureCollectionSchema,
+                                       GeneralGnomeObjectSchema,
                                        LongLatBounds, IntPair)
 from gnome.persist.extend_colander import LocalDateTime, FilenameSchema
 
 from gnome.basic_types import world_point_type
 from gnome.array_types import gat
 from gnome.utilities.plume import Plume, PlumeGenerator
+from gnome.utilities.distributions import (UniformDistributionSchema,
+                                           NormalDistributionSchema,
+                                           WeibullDistributionSchema,
+                                           LogNormalDistributionSchema)
 
 
 from gnome.outputters import NetCDFOutput
@@ -1423,6 +1428,16 @@ class SubsurfaceReleaseSchema(BaseReleaseSchema):
     end_position = WorldPoint(
         missing=drop, save=True, update=True
     )
+    distribution = GeneralGnomeObjectSchema(
+        acceptable_schemas=[UniformDistributionSchema,
+                            NormalDistributionSchema,
+                            WeibullDistributionSchema,
+                            LogNormalDistributionSchema],
+        save=True, update=True
+    )
+    distribution_type = SchemaNode(
+        String(), save=True, update=True
+    )
     description = 'SubsurfaceRelease object schema'
 
 class SubsurfaceRelease(PointLineRelease):
@@ -1446,6 +1461,7 @@ class SubsurfaceRelease(PointLineRelease):
         super(SubsurfaceRelease, self).__init__(release_time=release_time,
                                                end_release_time=end_release_time,
                                                num_elements=num_elements,
+                                               num_per_timestep=num_per_timestep,
                                                release_mass = release_mass,
                                                start_position = start_position,
                                                end_position = end_position,
@@ -1455,9 +1471,9 @@ class SubsurfaceRelease(PointLineRelease):
 
         # remove plume_initializers method and move stuff here
         if distribution_type == 'droplet_size':
-               self._init_rise_vel = InitRiseVelFromDropletSizeFromDist(distribution=distribution, **kwargs)
+               self._init_rise_vel = InitRiseVelFromDropletSizeFromDist(distribution=distribution)
         elif distribution_type == 'rise_velocity':
-               self._init_rise_vel = InitRiseVelFromDist(distribution=distribution,**kwargs)
+               self._init_rise_vel = InitRiseVelFromDist(distribution=distribution)
         else:
                raise TypeError('distribution_type must be either droplet_size or '
                                'rise_velocity')
-- 
2.43.0


From 260dedfb124605a9ab7b60daaf57515dc7051e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:12 +0000
Subject: [PATCH 51/59] fix: save the uncertainty settings of component movers

---
 py_gnome/gnome/movers/c_current_movers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/movers/c_current_movers.py b/py_gnome/gnome/movers/c_current_movers.py
index f47aba3..551688e 100644
--- a/py_gnome/gnome/movers/c_current_movers.py
+++ b/py_gnome/gnome/movers/c_current_movers.py
@@ -1154,7 +1154,7 @@ class CurrentCycleMover(c_GridCurrentMover):
         return vels
 
 
-class ComponentMoverSchema(ProcessSchema):
+class ComponentMoverSchema(CurrentMoversBaseSchema):
     '''static schema for ComponentMover'''
     filename1 = FilenameSchema(
         save=True, update=False, isdatafile=True, test_equal=False
-- 
2.43.0


From ec83e08dfb3988b42b2632d744ce2c7d4ef57e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:55 +0000
Subject: [PATCH 52/59] fix: a data file is downloaded completely or not at all

---
 py_gnome/gnome/utilities/remote_data.py | 51 ++++++++++++++++---------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/py_gnome/gnome/utilities/remote_data.py b/py_gnome/gnome/utilities/remote_data.py
index a063619..ac41a79 100644
--- a/py_gnome/gnome/utilities/remote_data.py
+++ b/py_gnome/gnome/utilities/remote_data.py
@@ -3,10 +3,11 @@ Download data from remote server
 '''
 
 import os
+import uuid
 
 from urllib.parse import urljoin
 from urllib.request import urlopen
-from urllib.error import HTTPError
+from urllib.error import HTTPError, ContentTooShortError
 
 from progressbar import (ProgressBar, Percentage, FileTransferSpeed,
                          ETA, Bar)
@@ -80,28 +81,40 @@ def get_datafile(filename, subdir=""):
                    FileTransferSpeed(),
                    ]
 
-        pbar = ProgressBar(widgets=widgets,
-                           maxval=int(resp.info()['Content-Length'])
-                           ).start()
+        size = int(resp.info()['Content-Length'])
+        pbar = ProgressBar(widgets=widgets, maxval=size).start()
 
         if not os.path.exists(path_):
             os.makedirs(path_)
 
-        sz_read = 0
-        with open(filename, 'wb') as fh:
-            # while sz_read < resp.info().getheader('Content-Length')
-            # goes into infinite recursion so break loop for len(data) == 0
-            while True:
-                data = resp.read(CHUNKSIZE)
-
-                if len(data) == 0:
-                    break
-                else:
-                    fh.write(data)
-                    sz_read += len(data)
-
-                    if sz_read >= CHUNKSIZE:
-                        pbar.update(CHUNKSIZE)
+        # The file gets its name when it is complete: what is left of a
+        # download that broke off must not be found as the data file later.
+        part = '{}.{}.part'.format(filename, uuid.uuid4().hex)
+        try:
+            sz_read = 0
+            with open(part, 'wb') as fh:
+                # while sz_read < resp.info().getheader('Content-Length')
+                # goes into infinite recursion so break loop for len(data) == 0
+                while True:
+                    data = resp.read(CHUNKSIZE)
+
+                    if len(data) == 0:
+                        break
+                    else:
+                        fh.write(data)
+                        sz_read += len(data)
+
+                        if sz_read >= CHUNKSIZE:
+                            pbar.update(CHUNKSIZE)
+
+            if sz_read < size:
+                raise ContentTooShortError("'{}': got {} of {} bytes"
+                                           .format(fname, sz_read, size), None)
+            os.replace(part, filename)
+        except BaseException:
+            if os.path.exists(part):
+                os.remove(part)
+            raise
 
         pbar.finish()
         return filename
-- 
2.43.0


From 79896b1a1ccd5a29d5bf6c9f7fad6805013dba08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:49 +0000
Subject: [PATCH 53/59] fix: a model built from JSON keeps the references
 between its components

An object that appears twice in the JSON was updated from its second
appearance without the objects built so far, so what it refers to (the wind
and the water of waves, say) was built again: the model had two winds, and
changing the one in its environment did not reach the weatherers.
---
 py_gnome/gnome/persist/base_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_gnome/gnome/persist/base_schema.py b/py_gnome/gnome/persist/base_schema.py
index f230c3f..69becae 100644
--- a/py_gnome/gnome/persist/base_schema.py
+++ b/py_gnome/gnome/persist/base_schema.py
@@ -206,7 +206,7 @@ class ObjType(SchemaType):
                 log.info(refs[id_].name)
             except Exception as e:
                 log.warning('Could not log object name: ' + e.msg)
-            updated = refs[id_].update_from_dict(cstruct)
+            updated = refs[id_].update_from_dict(cstruct, refs=refs)
             if updated:
                 log.info('Updated object {0} from json'.format(refs[id_].name))
             return refs[id_]
-- 
2.43.0


From b7516e77f427f803201c747680f9538c2b8ddde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:34 +0000
Subject: [PATCH 54/59] fix: a wind keeps the units its data was set in, and
 the data of the caller

set_wind_data kept values in m/s under the name of the units given, so a wind
set in other units came back from a save file or JSON with other speeds; and
setting a time series in other units than m/s converted the array of the
caller in place.
---
 py_gnome/gnome/environment/wind.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index ae10b47..59c9a65 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -371,7 +371,8 @@ class Wind(Timeseries, Environment):
         if self._check_timeseries(value):
             units = self.units
 
-            wind_data = self._xform_input_timeseries(value)
+            # a copy: the data of the caller stays as it is
+            wind_data = self._xform_input_timeseries(value).copy()
             self._timeseries = wind_data.copy()
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
@@ -577,12 +578,7 @@ class Wind(Timeseries, Environment):
             self._check_units(units)
             self.units = units
 
-            wind_data = self._xform_input_timeseries(wind_data)
-            wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
-                                                     'meter per second')
-
-            super(Wind, self).set_timeseries(wind_data, coord_sys)
-            self._timeseries = wind_data
+            self.new_set_timeseries(wind_data, coord_sys)
         else:
             raise ValueError('Bad timeseries as input')
 
-- 
2.43.0


From 1c375a86464d5613dddff79c0cab7ab83e12fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:47 +0000
Subject: [PATCH 55/59] fix: a wind given as u and v is converted and saved as
 such

The v component was not converted from other units than m/s, and the time
series was kept as u and v but saved, serialized and loaded as speed and
direction.
---
 py_gnome/gnome/environment/wind.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py_gnome/gnome/environment/wind.py b/py_gnome/gnome/environment/wind.py
index 59c9a65..7ddaf39 100644
--- a/py_gnome/gnome/environment/wind.py
+++ b/py_gnome/gnome/environment/wind.py
@@ -30,6 +30,7 @@ from gnome.persist import (SchemaNode, drop, OneOf, Float, String, Range, Boolea
                            DefaultTupleSchema, LocalDateTime, DatetimeValue2dArraySchema,
                            FilenameSchema, validators, base_schema)
 from gnome.utilities.convert import (to_time_value_pair, tsformat, to_datetime_value_2d)
+from gnome.utilities.transforms import uv_to_r_theta_wind
 from gnome.persist.validators import convertible_to_seconds
 
 from .environment import Environment
@@ -374,6 +375,9 @@ class Wind(Timeseries, Environment):
             # a copy: the data of the caller stays as it is
             wind_data = self._xform_input_timeseries(value).copy()
             self._timeseries = wind_data.copy()
+            if tsformat(coord_sys) == ts_format.uv:
+                # kept (and saved) as speed and direction
+                self._timeseries['value'] = uv_to_r_theta_wind(wind_data['value'])
             wind_data['value'] = self._convert_units(wind_data['value'], coord_sys, units,
                                                      'meter per second')
 
@@ -442,7 +446,7 @@ class Wind(Timeseries, Environment):
         if from_unit != to_unit:
             data[:, 0] = uc.convert('Velocity', from_unit, to_unit, data[:, 0])
 
-            if coord_sys == ts_format.uv:
+            if tsformat(coord_sys) == ts_format.uv:
                 data[:, 1] = uc.convert('Velocity', from_unit, to_unit, data[:, 1])
 
         return data
-- 
2.43.0


From 882edaebbf11d5f73c993ec19c981210998097e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:16 +0000
Subject: [PATCH 56/59] fix: each image format of the Renderer gets a file name
 of its own

---
 py_gnome/gnome/outputters/renderer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_gnome/gnome/outputters/renderer.py b/py_gnome/gnome/outputters/renderer.py
index aa66b25..d667243 100644
--- a/py_gnome/gnome/outputters/renderer.py
+++ b/py_gnome/gnome/outputters/renderer.py
@@ -634,10 +634,11 @@ class Renderer(Outputter, MapCanvas):
         if not self._write_step:
             return None
 
-        image_filename = os.path.join(
+        image_basename = os.path.join(
             self.output_dir,
             self.foreground_filename_format.format(step_num)
         )
+        image_filename = image_basename
 
         self.clear_foreground()
 
@@ -665,7 +666,7 @@ class Renderer(Outputter, MapCanvas):
             if ftype == 'gif':
                 self.animation.add_frame(self.fore_image, self.delay)
             else:
-                image_filename += ftype
+                image_filename = image_basename + ftype
                 self.save_foreground(image_filename, file_type=ftype)
 
         self.last_filename = image_filename
-- 
2.43.0


From a224a9726f0bbece0f70a86e66713ad8ccddfa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:08 +0000
Subject: [PATCH 57/59] fix: uncertainty of the native grid movers also begins
 in backward runs

---
 py_gnome/lib_gnome/CurrentCycleMover_c.cpp | 2 +-
 py_gnome/lib_gnome/GridCurrentMover_c.cpp  | 2 +-
 py_gnome/lib_gnome/GridWindMover_c.cpp     | 2 +-
 py_gnome/lib_gnome/IceMover_c.cpp          | 2 +-
 py_gnome/lib_gnome/IceWindMover_c.cpp      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
index f1c4a57..991222c 100644
--- a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
+++ b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
@@ -138,7 +138,7 @@ OSErr CurrentCycleMover_c::PrepareForModelStep(const Seconds &model_time, const
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/GridCurrentMover_c.cpp b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
index fe47b76..1988af6 100644
--- a/py_gnome/lib_gnome/GridCurrentMover_c.cpp
+++ b/py_gnome/lib_gnome/GridCurrentMover_c.cpp
@@ -194,7 +194,7 @@ OSErr GridCurrentMover_c::PrepareForModelStep(const Seconds &model_time, const S
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/GridWindMover_c.cpp b/py_gnome/lib_gnome/GridWindMover_c.cpp
index c37483d..af0f49c 100644
--- a/py_gnome/lib_gnome/GridWindMover_c.cpp
+++ b/py_gnome/lib_gnome/GridWindMover_c.cpp
@@ -93,7 +93,7 @@ OSErr GridWindMover_c::PrepareForModelStep(const Seconds& model_time,
 	if (uncertain) {
 		// so uncertainty starts at time zero + uncertain_time_delay,
 		// rather than a time step later
-		Seconds elapsed_time = model_time + time_step - fModelStartTime;
+		Seconds elapsed_time = fabs(model_time + time_step - fModelStartTime);
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 
diff --git a/py_gnome/lib_gnome/IceMover_c.cpp b/py_gnome/lib_gnome/IceMover_c.cpp
index 7588367..3ae51cd 100644
--- a/py_gnome/lib_gnome/IceMover_c.cpp
+++ b/py_gnome/lib_gnome/IceMover_c.cpp
@@ -192,7 +192,7 @@ OSErr IceMover_c::PrepareForModelStep(const Seconds &model_time, const Seconds &
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
diff --git a/py_gnome/lib_gnome/IceWindMover_c.cpp b/py_gnome/lib_gnome/IceWindMover_c.cpp
index bd19324..fce393f 100644
--- a/py_gnome/lib_gnome/IceWindMover_c.cpp
+++ b/py_gnome/lib_gnome/IceWindMover_c.cpp
@@ -138,7 +138,7 @@ OSErr IceWindMover_c::PrepareForModelStep(const Seconds &model_time, const Secon
 	
 	if (uncertain)
 	{
-		Seconds elapsed_time = model_time - fModelStartTime;	// code goes here, how to set start time
+		Seconds elapsed_time = fabs(model_time - fModelStartTime);	// code goes here, how to set start time
 		err = this->UpdateUncertainty(elapsed_time, numLESets, LESetsSizesList);
 	}
 	fIsOptimizedForStep = true;
-- 
2.43.0


From f2f254a8e037c6196c68ea2d132dc98c3e47aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:35 +0000
Subject: [PATCH 58/59] fix: tides computed for one run are not used in the
 next

---
 py_gnome/lib_gnome/CATSMover_c.cpp         | 2 ++
 py_gnome/lib_gnome/CurrentCycleMover_c.cpp | 2 ++
 py_gnome/lib_gnome/OSSMTimeValue_c.h       | 2 ++
 py_gnome/lib_gnome/ShioTimeValue_c.h       | 1 +
 4 files changed, 7 insertions(+)

diff --git a/py_gnome/lib_gnome/CATSMover_c.cpp b/py_gnome/lib_gnome/CATSMover_c.cpp
index b347753..889d45c 100644
--- a/py_gnome/lib_gnome/CATSMover_c.cpp
+++ b/py_gnome/lib_gnome/CATSMover_c.cpp
@@ -280,6 +280,8 @@ OSErr CATSMover_c::PrepareForModelRun()
 {
 	this->fOptimize.isFirstStep = true;
 	this->current_tide_value.u = this->current_tide_value.v = 1.;
+	if (this->timeDep)
+		this->timeDep->PrepareForModelRun();
 	return CurrentMover_c::PrepareForModelRun();
 }
 
diff --git a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
index 991222c..13d4669 100644
--- a/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
+++ b/py_gnome/lib_gnome/CurrentCycleMover_c.cpp
@@ -62,6 +62,8 @@ void CurrentCycleMover_c::Dispose ()
 
 OSErr CurrentCycleMover_c::PrepareForModelRun()
 {
+	if (timeDep)
+		timeDep->PrepareForModelRun();
 	return GridCurrentMover_c::PrepareForModelRun();
 }
 
diff --git a/py_gnome/lib_gnome/OSSMTimeValue_c.h b/py_gnome/lib_gnome/OSSMTimeValue_c.h
index de85750..a46de22 100644
--- a/py_gnome/lib_gnome/OSSMTimeValue_c.h
+++ b/py_gnome/lib_gnome/OSSMTimeValue_c.h
@@ -58,6 +58,8 @@ public:
 	virtual OSErr InitTimeFunc();
 	virtual void Dispose();
 
+	// drops what was computed for an earlier run
+	virtual void PrepareForModelRun() { }
 	virtual OSErr GetTimeValue(const Seconds& current_time, VelocityRec *value);
 	Seconds ClampToTimeRange(const Seconds time);
 
diff --git a/py_gnome/lib_gnome/ShioTimeValue_c.h b/py_gnome/lib_gnome/ShioTimeValue_c.h
index d9d7ce9..b7976bd 100644
--- a/py_gnome/lib_gnome/ShioTimeValue_c.h
+++ b/py_gnome/lib_gnome/ShioTimeValue_c.h
@@ -85,6 +85,7 @@ public:
 	virtual OSErr			ReadShioValues (char *path);
 	virtual long			GetNumEbbFloodValues ();	
 	virtual long			GetNumHighLowValues ();
+	virtual void			PrepareForModelRun() { this->SetTimeValueHandle(nil); }
 	virtual OSErr			GetTimeValue(const Seconds& current_time, VelocityRec *value);
 	//virtual WorldPoint		GetStationLocation (void);
 	
-- 
2.43.0


From 20e1732465e6df701e2015c329ac357b8de4dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:50 +0000
Subject: [PATCH 59/59] fix: ParamMap tells of many points which are on land

---
 py_gnome/gnome/maps/map.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/py_gnome/gnome/maps/map.py b/py_gnome/gnome/maps/map.py
index 18abea4..7b3a1be 100644
--- a/py_gnome/gnome/maps/map.py
+++ b/py_gnome/gnome/maps/map.py
@@ -594,6 +594,18 @@ class ParamMap(GnomeMap):
         """
         return self.on_map(coord) and points_in_poly(self.land_points, coord)
 
+    def on_land_points(self, coords):
+        """
+        check whether multiple points are on land
+
+        :param coords: locations to check
+        :type coord: Nx3 numpy array of floats, or compatible
+
+        :return: Array of bool: True for on land, False for not on land
+        """
+        coords = np.asarray(coords, dtype=np.float64)
+        return points_in_poly(self.land_points, coords)
+
     def in_water(self, coord):
         """
         :param coord: location for test.
-- 
2.43.0

