From 9d1df72122c146642fcca9e0e6fbf3847eb8c2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 01/34] fix: run every job from the random state its own seed
 produced

Serial jobs are all initialized (each seeding the one generator) before the
first is run, and a parallel job runs in a forked process where numba reseeds
the generator, so jobs ignored the seed written to their configuration.
---
 pyDeltaRCM/preprocessor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 9246836..8151fe2 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -708,6 +708,11 @@ class _BaseJob(abc.ABC):
         self.deltamodel = DeltaModel(input_file=input_file, defer_output=defer_output)
         _curr_time = self.deltamodel._time
 
+        # the random number generator is shared by all models in a process, and
+        #   reseeded in every new process, so keep the state that this model
+        #   was initialized with, to be applied when the job is run
+        self._random_state = shared_tools.get_random_state()
+
         # process If
         if "If" in config_dict.keys():
             self._If = float(config_dict["If"])
@@ -789,6 +794,9 @@ class _SerialJob(_BaseJob):
         Iterate the timestep ``update`` routine for the specified number of
         iterations.
         """
+        # start from the random state this job was initialized with
+        shared_tools.set_random_state(self._random_state)
+
         # try to initialize and run the model
         try:
             # run the simulation
@@ -874,6 +882,9 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
         """
         self.queue.put({"job": self.i, "stage": 0, "code": 0})
 
+        # start from the random state this job was initialized with
+        shared_tools.set_random_state(self._random_state)
+
         # overall wrapped in try to ensure sema is safely released
         try:
             # try to initialize and run the model
-- 
2.43.0


From 753e0e0f08caa811d8297bda7feecedbaa43786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 02/34] fix: do not truncate the time since last output when
 resuming

---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 97c5407..86cb4ca 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -889,7 +889,7 @@ class init_tools(abc.ABC):
         self.H_SL = float(checkpoint["H_SL"])
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
-        self._save_time_since_data = int(checkpoint["save_time_since_data"])
+        self._save_time_since_data = float(checkpoint["save_time_since_data"])
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From 10d675c21485d60c0807005e192d3d5994dc9782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 03/34] fix: keep the attributes (units) of output variables
 when resuming

---
 pyDeltaRCM/init_tools.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 86cb4ca..62475f4 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -976,12 +976,18 @@ class init_tools(abc.ABC):
                             dst.createVariable(
                                 _mname, variable.datatype, variable.dimensions
                             )
+                            dst.groups[name].variables[vname].setncatts(
+                                {k: variable.getncattr(k) for k in variable.ncattrs()}
+                            )
                             dst.groups[name].variables[vname][:] = src.groups[
                                 name
                             ].variables[vname][:]
                     # copy variables except ones to exclude
                     for name, variable in src.variables.items():
                         dst.createVariable(name, variable.datatype, variable.dimensions)
+                        dst.variables[name].setncatts(
+                            {k: variable.getncattr(k) for k in variable.ncattrs()}
+                        )
                         dst.variables[name][:] = src.variables[name][:]
 
                 # set object attribute for model
-- 
2.43.0


From 568e96eefb394f57cb4948a2fb8c32cb2afc2760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 04/34] fix: replace the checkpoint file atomically

The only checkpoint was truncated before the new one was written, so a run
killed while saving could not be resumed.
---
 pyDeltaRCM/iteration_tools.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/iteration_tools.py b/pyDeltaRCM/iteration_tools.py
index 6e51731..4b59b1b 100644
--- a/pyDeltaRCM/iteration_tools.py
+++ b/pyDeltaRCM/iteration_tools.py
@@ -468,8 +468,12 @@ class iteration_tools(abc.ABC):
             rng_state_list, dtype=object
         )  # convert to object before saving
 
+        # write to a temporary file first, so that an interrupted write never
+        #   destroys the previous checkpoint
+        tmp_file = os.path.join(self.prefix, "checkpoint.tmp.npz")
+
         np.savez_compressed(
-            ckp_file,
+            tmp_file,
             # time and counter variables
             time=self.time,
             time_iter=self._time_iter,
@@ -491,3 +495,5 @@ class iteration_tools(abc.ABC):
             H_SL=self._H_SL,
             rng_state=rng_state,
         )
+
+        os.replace(tmp_file, ckp_file)
-- 
2.43.0


From bceb582c4eb9b761411eecd7150e4bfa08e785eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 05/34] fix: keep the output file in place until its copy is
 complete when resuming

The file was renamed away first, so a resume interrupted while copying left a
partial (or no) output file, which the next resume took for the real one.
---
 pyDeltaRCM/init_tools.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 62475f4..2ea0570 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -941,11 +941,9 @@ class init_tools(abc.ABC):
                         "connections to the file before proceeding."
                     )
                 # if not open elsewhere, then proceed
-                # rename the old netCDF4 file
-                _msg = "Renaming old NetCDF4 output file"
-                self.log_info(_msg, verbosity=2)
-                _tmp_name = os.path.join(self.prefix, "old_pyDeltaRCM_output.nc")
-                os.rename(file_path, _tmp_name)
+                # the new file is written under a temporary name, so that the
+                #   old one is still there if copying is interrupted
+                _tmp_name = os.path.join(self.prefix, "new_pyDeltaRCM_output.nc")
 
                 # write dims / attributes / variables to new netCDF file
                 _msg = "Creating NetCDF4 output file"
@@ -956,8 +954,8 @@ class init_tools(abc.ABC):
                     self.init_metadata_list()
 
                 # copy data from old netCDF4 into new one
-                with Dataset(_tmp_name) as src, Dataset(
-                    file_path, "w", format="NETCDF4"
+                with Dataset(file_path) as src, Dataset(
+                    _tmp_name, "w", format="NETCDF4"
                 ) as dst:
                     # copy attributes
                     for name in src.ncattrs():
@@ -990,14 +988,16 @@ class init_tools(abc.ABC):
                         )
                         dst.variables[name][:] = src.variables[name][:]
 
+                # replace the old netCDF4 file
+                _msg = "Renaming old NetCDF4 output file"
+                self.log_info(_msg, verbosity=2)
+                os.replace(_tmp_name, file_path)
+
                 # set object attribute for model
                 self.output_netcdf = Dataset(file_path, "r+", format="NETCDF4")
 
                 # synch netcdf file
                 self.output_netcdf.sync()
 
-                # delete old netCDF4 file
-                os.remove(_tmp_name)
-
         _msg = "Successfully loaded checkpoint."
         self.log_info(_msg, verbosity=1)
-- 
2.43.0


From 3d523d54ed0c2e27f3cd3b26f1ce963328d63587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 06/34] fix: read the queue of parallel jobs before joining
 them

Joining a process that still has data to flush to the queue deadlocks, which
happened with many jobs or long error messages.
---
 pyDeltaRCM/preprocessor.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 8151fe2..7b1c7b2 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -4,6 +4,7 @@ import itertools
 import multiprocessing
 import os
 import platform
+import queue
 import time
 import warnings
 import yaml
@@ -620,14 +621,24 @@ class BasePreprocessor(abc.ABC):
                 self._job_list.append(p)
                 p.start()
 
+            # read from the queue until all processes have ended, because a
+            #   process cannot end before what it put in the queue is read
+            reports = []
+            while any(job.exitcode is None for job in self._job_list):
+                try:
+                    reports.append(q.get(timeout=0.1))
+                except queue.Empty:
+                    pass
+
             # join processes to prevent ending the jobs before moving forward
             for i in self._job_list:
                 i.join()
 
-            # read from the queue and report (asynchronous...buggy...)
+            # read what is left in the queue and report
             time.sleep(1)
             while not q.empty():
-                gotq = q.get()
+                reports.append(q.get())
+            for gotq in reports:
                 if gotq["code"] == 1:
                     print("Job {job} ended in error:\n {msg}".format_map(gotq))
                 else:
-- 
2.43.0


From 28da07707b1352135ae9988b1af25026a3915bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 07/34] fix: run exactly the configured number of timesteps

Comparing the summed model time with timesteps * dt ran one timestep too many
for many values of dt, because of rounding.
---
 pyDeltaRCM/preprocessor.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 7b1c7b2..24a6baf 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -736,10 +736,12 @@ class _BaseJob(abc.ABC):
             self._time_type = "timesteps"
             self._time_config = config_dict["timesteps"]
 
-            # compute the end time
+            # compute the end time, and the end timestep. The latter ends the
+            #   job, because times summed step by step may never equal it
             self._job_end_time = _curr_time + (
                 (config_dict["timesteps"] * self.deltamodel._dt)
             )
+            self._job_end_iter = self.deltamodel._time_iter + config_dict["timesteps"]
 
         elif "time" in config_dict.keys():
             # fill informational fields
@@ -764,6 +766,12 @@ class _BaseJob(abc.ABC):
                 "the input YAML file or via input arguments."
             )
 
+    def _is_ended(self) -> bool:
+        """Whether the configured run duration has elapsed."""
+        if self._time_type == "timesteps":
+            return self.deltamodel._time_iter >= self._job_end_iter
+        return self.deltamodel._time >= self._job_end_time
+
     @abc.abstractmethod
     def run(self):
         """Implementation to run the jobs as needed.
@@ -811,7 +819,7 @@ class _SerialJob(_BaseJob):
         # try to initialize and run the model
         try:
             # run the simulation
-            while self.deltamodel._time < self._job_end_time:
+            while not self._is_ended():
                 self.deltamodel.update()
 
         # if the model run fails
@@ -918,7 +926,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                     self.deltamodel.output_checkpoint()
 
                 # run the simualtion
-                while self.deltamodel._time < self._job_end_time:
+                while not self._is_ended():
                     self.deltamodel.update()
 
             # if the model run fails
-- 
2.43.0


From cf98ce1f4ea3147fb6f7fd3b9b5f0beacf25a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 08/34] fix: let the command line override the run duration of
 the input file

The value in the input file silently won for a single job.
---
 pyDeltaRCM/preprocessor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 24a6baf..816ab30 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -50,6 +50,8 @@ class BasePreprocessor(abc.ABC):
 
         self._dryrun = False
 
+        self._override_dict = {}  # config given by command line or keywords
+
         self._is_completed = False
 
     @property
@@ -608,6 +610,9 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                if not (self._has_ensemble or self._has_set or self._has_matrix):
+                    # the job yaml is the unmodified user input
+                    job_config.update(self._override_dict)
 
                 # instantiate the job
                 p = _ParallelJob(
@@ -659,6 +664,9 @@ class BasePreprocessor(abc.ABC):
                 #   between writing and .run_jobs()
                 job_config = self.config_list[i].copy()
                 job_config.update(job_yaml)
+                if not (self._has_ensemble or self._has_set or self._has_matrix):
+                    # the job yaml is the unmodified user input
+                    job_config.update(self._override_dict)
 
                 p = _SerialJob(
                     i=i,
@@ -1003,6 +1011,7 @@ class PreprocessorCLI(BasePreprocessor):
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
+        self._override_dict = cli_dict
 
         # construct file list (expansions)
         self.construct_file_list()
@@ -1170,6 +1179,7 @@ class Preprocessor(BasePreprocessor):
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
         self.config_dict.update(cli_dict)
+        self._override_dict = cli_dict
 
         # construct file list (expansions)
         self.construct_file_list()
-- 
2.43.0


From 453e69706a5dd6dea71cd02db5c94e4c7fe2b3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 09/34] fix: respect dryrun in the input file when running from
 the command line

---
 pyDeltaRCM/preprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 816ab30..be7ed02 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1110,6 +1110,9 @@ class PreprocessorCLI(BasePreprocessor):
         if args_dict["If"] is None:
             # if not given remove the key from cli spec
             args_dict.pop("If")
+        if args_dict["dryrun"] is False:
+            # if not given remove the key from cli spec
+            args_dict.pop("dryrun")
 
         return args_dict
 
-- 
2.43.0


From a86f4d802e1239b844d8740da0017c0d10f1a4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 10/34] fix: write a fresh job configuration file when resuming
 jobs

The new configuration was appended to the old one, so that keys of the earlier
run (e.g., timesteps) stayed in effect.
---
 pyDeltaRCM/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index be7ed02..c563ca4 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1227,7 +1227,7 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         else:
             f.write(varname + ": " + str(varvalue) + "\n")
 
-    f = open(_path, "a")
+    f = open(_path, "w")
     for k in _config.keys():
         _write_parameter_to_file(f, k, _config[k])
     f.close()
-- 
2.43.0


From 6579e4617ca61b623b9489c0ce18fcd55a606dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 11/34] fix: never let a stranded water parcel stay in place or
 leave upstream

The random walk used where no neighbor is wet could choose the cell itself,
which ends the parcel in the middle of the domain, or a cell upstream of it.
---
 pyDeltaRCM/water_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 786b4bb..3d1f97e 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -685,10 +685,10 @@ def _get_weight_at_cell_water(
                 # no wet (and valid) neighbors. How did we get here??
                 #    Maybe by flooding corrections? Solution is to
                 #    allow to walk into any non-land cell, true random
-                nnotwall = np.sum(~wall)
+                nvalid = np.sum(~invalid)
                 weight[:] = 0
-                if nnotwall > 0:
-                    weight[~wall] = 1 / nnotwall
+                if nvalid > 0:
+                    weight[~invalid] = 1 / nvalid
                 else:
                     raise RuntimeError(
                         "No non-wall cells surrounding cell. " "Please report error."
-- 
2.43.0


From c964df62ac5445724e222f4efe33b280c95f7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 12/34] fix: keep water parcels from stepping upstream out of
 the domain

A parcel in the first row could pick a neighbor above it, where the flat index
is negative and wraps around to the opposite side of the domain. Draw again in
this case, so that no other draw is changed.
---
 pyDeltaRCM/water_tools.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 3d1f97e..52ccfa2 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -124,6 +124,19 @@ class water_tools(abc.ABC):
             # use water weights and random pick to determine d8 direction
             new_direction = _choose_next_directions(current_inds, water_weights_flat)
 
+            # parcels in the first row may not step upstream out of the domain,
+            #   so draw again for these, without the upstream directions
+            upstream = np.logical_and(
+                np.logical_and(current_inds > 0, current_inds < self.W),
+                new_direction < 3,
+            )
+            if np.any(upstream):
+                downstream_weights = water_weights_flat[: self.W].copy()
+                downstream_weights[:, :3] = 0
+                new_direction[upstream] = _choose_next_directions(
+                    current_inds[upstream], downstream_weights
+                )
+
             # use the new directions for each parcel to determine the new ind
             #   for each parcel
             new_inds = _calculate_new_inds(
-- 
2.43.0


From 0f7550b61962459a0f332677b44f163c72865b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 13/34] fix: keep stranded sediment parcels from stepping
 upstream out of the domain

---
 pyDeltaRCM/sed_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index a545be1..139f8e3 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -297,6 +297,10 @@ def _get_weight_at_cell_sediment(
         # disallow movement into walls
         weight[wall] = 0
 
+        # disallow movement out of the domain
+        if ind[0] == 0:
+            weight[:3] = 0
+
     weight[ctr] = 0  # enforce
 
     # sanity check
-- 
2.43.0


From 8eb17dd05f2adf29bee8c5dec7045a11cca7884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 14/34] fix: do not relocate a parcel that looped at (1, CTR)
 to where another one went

There the mean-transport vector has no length, and the location was left over
from the previous looped parcel (or undefined).
---
 pyDeltaRCM/water_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 52ccfa2..680a911 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -987,6 +987,7 @@ def _check_for_loops(
                     Fw = np.sqrt(Fx**2 + Fy**2)
 
                     # relocate the parcel along mean-transport vector
+                    px, py = px0, py0
                     if Fw != 0:
                         px = px0 + int(np.round(Fx / Fw * 5.0))
                         py = py0 + int(np.round(Fy / Fw * 5.0))
-- 
2.43.0


From 70dd83a58bcead9ebd1fbf401b8c214b7ec1ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 15/34] fix: turning off save_velocity_figs removes the
 velocity figure

---
 pyDeltaRCM/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 3101242..64c70fa 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -723,7 +723,7 @@ class DeltaModel(
         elif (save_velocity_figs is False) and (
             "velocity" in self._save_fig_list.keys()
         ):
-            del self._save_fig_list["sedflux"]
+            del self._save_fig_list["velocity"]
         self._save_velocity_figs = save_velocity_figs
 
     @property
-- 
2.43.0


From 030f6879eabe1560f311ab1eada539673ed4c3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 16/34] fix: rescale subsidence when new boundary conditions
 change the time step

---
 pyDeltaRCM/init_tools.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 2ea0570..b9bb058 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -449,8 +449,13 @@ class init_tools(abc.ABC):
         # initial width of self.free_surf_walk_indices
         self.size_indices = int(self.stepmax / 2)
 
+        _old_dt = getattr(self, "_dt", None)
         self._dt = self.dVs / self.Qs0  # time step size
 
+        # subsidence per timestep scales with the time step
+        if self._toggle_subsidence and hasattr(self, "sigma"):
+            self.sigma = (self.sigma / _old_dt) * self._dt
+
         self.omega_flow_iter = 2.0 / self._itermax
 
         # number of times to repeat topo diffusion
-- 
2.43.0


From a8f22562a904dff4bb63dd674795d57a8e3e1c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 17/34] fix: accept null for parameters that may be null

`type(None)` never compared equal to the `None` listed as an expected type.
---
 pyDeltaRCM/init_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index b9bb058..7b24486 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -108,6 +108,8 @@ class init_tools(abc.ABC):
                 default_dict[k]["type"] = [eval(v["type"])]
             else:
                 default_dict[k]["type"] = [eval(_v) for _v in v["type"]]
+            if None in default_dict[k]["type"]:
+                default_dict[k]["type"].append(type(None))
 
         # only access the user input file if provided.
         if self.input_file:
-- 
2.43.0


From 017760a103c14fa1fc6c0f48ced042e8cc3a4ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:43 +0000
Subject: [PATCH 18/34] fix: flood dry cells from wet neighbors only, also
 below the datum

Dry neighbors counted as having stage zero, which is above beds and water
levels when the sea level is negative.
---
 pyDeltaRCM/water_tools.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 680a911..c57a0c0 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -556,15 +556,16 @@ class water_tools(abc.ABC):
         # indices of dry cells with wet neighbors
         shore_ind = np.where(wet_mask_nh_sum > 0)
 
-        stage_nhs = self.build_weight_array(self.stage)
+        stage_nhs = self.build_weight_array(self.stage, fix_edges=True)
         eta_shore = self.eta[shore_ind]
 
         for i in range(len(shore_ind[0])):
-            # pretends dry neighbor cells have stage zero
+            # pretends dry neighbor cells have stage minus infinity
             #    so they cannot be > eta_shore[i]
-            stage_nh = (
-                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]]
-                * stage_nhs[:, shore_ind[0][i], shore_ind[1][i]]
+            stage_nh = np.where(
+                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]] > 0,
+                stage_nhs[:, shore_ind[0][i], shore_ind[1][i]],
+                -np.inf,
             )
 
             if (stage_nh > eta_shore[i]).any():
-- 
2.43.0


From e5a1065b35a3f826b2bd3513cd07fd8a1d01903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:25 +0000
Subject: [PATCH 19/34] fix: route sand with the bedload fraction set by
 bedload_fraction

The sand router keeps its own copy of the bedload fraction (transport
capacity), which was not refreshed by the bedload_fraction setter.
---
 pyDeltaRCM/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 64c70fa..5369515 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1488,6 +1488,7 @@ class DeltaModel(
     @bedload_fraction.setter
     def bedload_fraction(self, new_u0: float) -> None:
         self.f_bedload = new_u0
+        self.init_sediment_routers()
 
     @property
     def influx_sediment_concentration(self) -> float:
-- 
2.43.0


From 82772781c63874c5390c62161fd0ebf5d1f9e9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:16 +0000
Subject: [PATCH 20/34] fix: do not start a new output file with a blank record
 when resuming

---
 pyDeltaRCM/init_tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 7b24486..96aec71 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -737,7 +737,9 @@ class init_tools(abc.ABC):
                     "meta/" + varname, vartype, vardims
                 )
                 _v.units = varunits
-                _v[:] = varvalue
+                # time-varying values get their first entry with the first record
+                if varvalue is not None:
+                    _v[:] = varvalue
 
             self.output_netcdf.createGroup("meta")
             for _val in self._save_var_list["meta"].keys():
-- 
2.43.0


From f647c990a35b32c5d17c5a7e928cf3a21cfca01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:07 +0000
Subject: [PATCH 21/34] fix: save custom grids also when only metadata is saved
 otherwise

---
 pyDeltaRCM/iteration_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/iteration_tools.py b/pyDeltaRCM/iteration_tools.py
index 4b59b1b..d1ae084 100644
--- a/pyDeltaRCM/iteration_tools.py
+++ b/pyDeltaRCM/iteration_tools.py
@@ -295,7 +295,8 @@ class iteration_tools(abc.ABC):
                     )
 
         # ------------------ grids ------------------
-        if self._save_any_grids:
+        # custom grids may be in the file even if no standard grids are saved
+        if self._save_metadata or self._save_any_grids:
             _msg = "Saving grids"
             self.log_info(_msg, verbosity=2)
 
-- 
2.43.0


From b9bfd14dc6f73791ed89fefd12f414373811166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:07 +0000
Subject: [PATCH 22/34] fix: keep saving the custom output of a subclass after
 resuming

---
 pyDeltaRCM/init_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 96aec71..e18f3b9 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -919,6 +919,11 @@ class init_tools(abc.ABC):
         rng_state = tuple(checkpoint["rng_state"])
         shared_tools.set_random_state(rng_state)
 
+        # register the custom figures, grids and metadata to save, as when
+        #    starting a run
+        if not defer_output:
+            self.hook_init_output_file()
+
         # handle the case with a netcdf file
         if (self._save_any_grids or self._save_metadata) and not defer_output:
             # check if the file exists already
@@ -935,7 +940,6 @@ class init_tools(abc.ABC):
                 # create a new file
                 # reset output file counters
                 self._save_iter = int(0)
-                self.hook_init_output_file()
                 self.init_output_file()
             else:
                 # check if file is open in another process, if so throw error
-- 
2.43.0


From 0ad157cc88682a547a7acc8c1e717e029c3c252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:35 +0000
Subject: [PATCH 23/34] fix: a duration on the command line replaces any
 duration in the input file

---
 pyDeltaRCM/preprocessor.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index c563ca4..e4ee161 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -115,6 +115,18 @@ class BasePreprocessor(abc.ABC):
 
         return yaml_dict
 
+    def _apply_overrides(self, config_dict) -> None:
+        """Apply command line or keyword configuration to `config_dict`.
+
+        A run duration given this way replaces any run duration already in
+        `config_dict`, whichever way that one is expressed.
+        """
+        _durations = ("timesteps", "time", "time_years")
+        if any(k in self._override_dict for k in _durations):
+            for k in _durations:
+                config_dict.pop(k, None)
+        config_dict.update(self._override_dict)
+
     def construct_file_list(self) -> None:
         """Construct the file list.
 
@@ -612,7 +624,7 @@ class BasePreprocessor(abc.ABC):
                 job_config.update(job_yaml)
                 if not (self._has_ensemble or self._has_set or self._has_matrix):
                     # the job yaml is the unmodified user input
-                    job_config.update(self._override_dict)
+                    self._apply_overrides(job_config)
 
                 # instantiate the job
                 p = _ParallelJob(
@@ -666,7 +678,7 @@ class BasePreprocessor(abc.ABC):
                 job_config.update(job_yaml)
                 if not (self._has_ensemble or self._has_set or self._has_matrix):
                     # the job yaml is the unmodified user input
-                    job_config.update(self._override_dict)
+                    self._apply_overrides(job_config)
 
                 p = _SerialJob(
                     i=i,
@@ -1010,8 +1022,8 @@ class PreprocessorCLI(BasePreprocessor):
         # combine the dicts into a single config
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
-        self.config_dict.update(cli_dict)
         self._override_dict = cli_dict
+        self._apply_overrides(self.config_dict)
 
         # construct file list (expansions)
         self.construct_file_list()
@@ -1181,8 +1193,8 @@ class Preprocessor(BasePreprocessor):
         # combine the dicts into a single config
         self.config_dict = {}
         self.config_dict.update(yaml_dict)
-        self.config_dict.update(cli_dict)
         self._override_dict = cli_dict
+        self._apply_overrides(self.config_dict)
 
         # construct file list (expansions)
         self.construct_file_list()
-- 
2.43.0


From 12de93210ca311f22bc9bdc4cb6e628558e8e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:56 +0000
Subject: [PATCH 24/34] fix: table of jobs has the values of a set under their
 own names

The row of a job was filled in the order of the keys of its own set, under
a header in the order of the first set.
---
 pyDeltaRCM/preprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index e4ee161..60bd3d6 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -393,7 +393,10 @@ class BasePreprocessor(abc.ABC):
             ith_config["out_dir"] = ith_dir
 
             # loop through each var of this job
-            for j, (key, val) in enumerate(_set[i].items()):
+            #   (in the order of the first set, as the table header)
+            for j, key in enumerate(_set[0].keys()):
+                val = _set[i][key]
+
                 # write info into fixed config dict
                 ith_config[key] = val
 
-- 
2.43.0


From 13c6469206d6bc3c9194f7b6fd795eab6766dd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:25 +0000
Subject: [PATCH 25/34] fix: accept null for subclass parameters that may be
 null

---
 pyDeltaRCM/init_tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index e18f3b9..2d6b00c 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -168,6 +168,8 @@ class init_tools(abc.ABC):
                     expected_type = [eval(v["type"])]
                 else:
                     expected_type = [eval(_v) for _v in v["type"]]
+                if None in expected_type:
+                    expected_type.append(type(None))
                 # evaluate against expected types
                 if type(user_dict[k]) in expected_type:
                     input_file_vars[k] = user_dict[k]
-- 
2.43.0


From ae214dfb5a81d571cb951a1ce6076fbabef578e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:53 +0000
Subject: [PATCH 26/34] fix: diffusion of topography does not change a flat bed
 at the edges of the domain

---
 pyDeltaRCM/sed_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index 139f8e3..e037b6b 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -234,9 +234,9 @@ class sed_tools(abc.ABC):
         operation is repeated `N_crossdiff` times.
         """
         for _ in range(self.N_crossdiff):
-            a = ndimage.convolve(self.eta, self.kernel1, mode="constant")
-            b = ndimage.convolve(self.qs, self.kernel2, mode="constant")
-            c = ndimage.convolve(self.qs * self.eta, self.kernel2, mode="constant")
+            a = ndimage.convolve(self.eta, self.kernel1, mode="nearest")
+            b = ndimage.convolve(self.qs, self.kernel2, mode="nearest")
+            c = ndimage.convolve(self.qs * self.eta, self.kernel2, mode="nearest")
 
             self.cf = self.diffusion_multiplier * (self.qs * a - self.eta * b + c)
 
-- 
2.43.0


From 20e047d0bff03157a226541833ccfa030fd64465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:06 +0000
Subject: [PATCH 27/34] fix: topographic diffusion follows a change of the time
 step

---
 pyDeltaRCM/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 5369515..81f81e1 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1392,6 +1392,10 @@ class DeltaModel(
             self.sigma = (self.sigma / self._dt) * new_time_step
 
         self._dt = new_time_step
+        # the topographic diffusion of a timestep depends on its length
+        self.diffusion_multiplier = (
+            self._dt / self.N_crossdiff * self._alpha * 0.5 / self._dx**2
+        )
         self.init_sediment_routers()
 
     @property
-- 
2.43.0


From 4e5565fe3142b2e986a938a24a6c231bc8cf3302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:58 +0000
Subject: [PATCH 28/34] fix: a basin depth of zero is not replaced by the inlet
 depth

---
 pyDeltaRCM/init_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 2d6b00c..9e3988f 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -489,7 +489,8 @@ class init_tools(abc.ABC):
         self.log_info(_msg, verbosity=1)
 
         # resolve any boundary conditions
-        self._hb = self.hb or self.h0  # basin depth
+        if self._hb is None:
+            self._hb = self.h0  # basin depth
 
         # ---- coordinates ----
         self.xc = np.arange(0, self.L) * self._dx
-- 
2.43.0


From b40d033e5a9aa50505c3ddc5f131d08adaa7a94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:58 +0000
Subject: [PATCH 29/34] fix: a model without water iterations can be
 constructed

---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 9e3988f..0fd3f50 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -460,7 +460,7 @@ class init_tools(abc.ABC):
         if self._toggle_subsidence and hasattr(self, "sigma"):
             self.sigma = (self.sigma / _old_dt) * self._dt
 
-        self.omega_flow_iter = 2.0 / self._itermax
+        self.omega_flow_iter = 2.0 / max(1, self._itermax)
 
         # number of times to repeat topo diffusion
         self.N_crossdiff = int(round(self.dVs / self.V0))
-- 
2.43.0


From 0fee7d44f07fbbe11c85958cd9a1e33bcb5405f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:58 +0000
Subject: [PATCH 30/34] fix: refuse an output folder that varies between sets

---
 pyDeltaRCM/preprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 60bd3d6..2fd83bc 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -351,6 +351,8 @@ class BasePreprocessor(abc.ABC):
         for i, d in enumerate(_set):  # check validity of keys, depth == 1
             if not isinstance(d, dict):
                 raise TypeError("Set must specify as a list of dictionaries")
+            if "out_dir" in d.keys():
+                raise ValueError('You cannot specify "out_dir" as a set expansion key.')
             for k in d.keys():  # check validity of keys, depth == 1
                 if ":" in k:
                     raise ValueError("Colon operator found in matrix expansion key.")
-- 
2.43.0


From 83c7552688b4ebaea012696760857ed7a1fd6463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:58 +0000
Subject: [PATCH 31/34] fix: report unknown keys also next to preprocessor-only
 keys

---
 pyDeltaRCM/init_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 0fd3f50..955da85 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -212,7 +212,8 @@ class init_tools(abc.ABC):
                         )
                     )
                 )
-            else:
+            unused_user_keys = [k for k in unused_user_keys if not (k in pp_only_kw)]
+            if len(unused_user_keys) > 0:
                 warnings.warn(
                     UserWarning(
                         "One or more inputs in yaml file or kwargs were unused by "
-- 
2.43.0


From 999077c33e27bee610c61a80e99db681a96b4cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:58 +0000
Subject: [PATCH 32/34] fix: show_line draws lists as documented and returns
 every line

---
 pyDeltaRCM/debug_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/debug_tools.py b/pyDeltaRCM/debug_tools.py
index 95c3832..1973133 100644
--- a/pyDeltaRCM/debug_tools.py
+++ b/pyDeltaRCM/debug_tools.py
@@ -172,12 +172,15 @@ class debug_tools(abc.ABC):
 
         """
         _shape = self.depth.shape
+        if isinstance(ind, list) and not isinstance(ind[0], np.ndarray):
+            ind = np.array(ind)  # list of flat indices, or list of pairs
         if isinstance(ind, list):
+            lines = []
             for _, iind in enumerate(ind):
                 _l = plot_line(
                     iind.flatten(), shape=_shape, nozeros=nozeros, *args, **kwargs
                 )
-                lines = [_l]
+                lines.append(_l)
         elif isinstance(ind, np.ndarray):
             if ind.ndim > 2:
                 raise NotImplementedError("Not implemented for arrays > 2d.")
-- 
2.43.0


From d784d5bdab103a29505dfad17a5e1a933f07ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:29 +0000
Subject: [PATCH 33/34] fix: job files hold strings and infinite values that
 read back as given

---
 pyDeltaRCM/preprocessor.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 2fd83bc..2b9fb67 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1237,10 +1237,25 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         well. Please do not move.
     """
 
+    def _reads_back(varvalue):
+        """Whether plain text is read back as the same value."""
+        try:
+            _text = "key: " + str(varvalue)
+            _dict = yaml.load(_text, Loader=shared_tools.custom_yaml_loader())
+            return _dict == {"key": varvalue}
+        except yaml.YAMLError:
+            return False
+
     def _write_parameter_to_file(f, varname, varvalue):
         """Write each line, formatted."""
         if varvalue is None:
             f.write(varname + ": " + "null" + "\n")
+        elif isinstance(varvalue, (str, float)) and not _reads_back(varvalue):
+            # needs quotes, or another notation (e.g., `.inf`)
+            if isinstance(varvalue, str):
+                yaml.safe_dump({varname: str(varvalue)}, f, default_style='"')
+            else:
+                yaml.safe_dump({varname: float(varvalue)}, f)
         else:
             f.write(varname + ": " + str(varvalue) + "\n")
 
-- 
2.43.0


From 9c0b138786fd9912e800c6237ee7851a3ddd68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:49:08 +0000
Subject: [PATCH 34/34] fix: custom_unravel refuses every index that is no cell

---
 pyDeltaRCM/shared_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/shared_tools.py b/pyDeltaRCM/shared_tools.py
index 8afb406..f04422f 100644
--- a/pyDeltaRCM/shared_tools.py
+++ b/pyDeltaRCM/shared_tools.py
@@ -281,7 +281,7 @@ def custom_unravel(i: int, shape: Tuple[int, int]) -> Tuple[int, int]:
         >>> custom_unravel(5124, _shape)
         (25, 124)
     """
-    if i > (shape[1] * shape[0]):
+    if i < 0 or i >= (shape[1] * shape[0]):
         raise IndexError("Index is out of array bounds")
     x = i // shape[1]
     y = i % shape[1]
-- 
2.43.0

