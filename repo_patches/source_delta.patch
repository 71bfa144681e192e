From 2b282705080dc9a7b8656a4a8fcd0c3f7eb358bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:38 +0000
Subject: [PATCH 01/92] fix: localize and globalize every sample set of a
 discretization

The emulated output set was never localized (missing call) and the observed
output set was neither localized nor globalized with the others.
---
 bet/sample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index b4543b8..b60d596 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2831,6 +2831,8 @@ class discretization(object):
             self._emulated_input_sample_set.local_to_global()
         if self._emulated_output_sample_set is not None:
             self._emulated_output_sample_set.local_to_global()
+        if self._output_observed_set is not None:
+            self._output_observed_set.local_to_global()
 
     def global_to_local(self):
         """
@@ -2846,4 +2848,6 @@ class discretization(object):
         if self._emulated_input_sample_set is not None:
             self._emulated_input_sample_set.global_to_local()
         if self._emulated_output_sample_set is not None:
-            self._emulated_output_sample_set.global_to_local
+            self._emulated_output_sample_set.global_to_local()
+        if self._output_observed_set is not None:
+            self._output_observed_set.global_to_local()
-- 
2.43.0


From 913f62969e4b041076391a24ae8142c8da32d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:52 +0000
Subject: [PATCH 02/92] fix: gather single-precision and short-integer arrays
 with the announced MPI type

With a shape given, get_global_values sent the raw bytes of e.g. a float32
array as MPI.DOUBLE and every process received garbage.
---
 bet/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index ca0f49e..ad3fd3e 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -110,8 +110,9 @@ def get_global_values(array, shape=None):
         else:
             # do an uppercase Allgather
             whole_a = np.empty(shape, dtype=dtype)
-            comm.Allgather([array.ravel(), possible_types[dtype]], [whole_a,
-                                                                    possible_types[dtype]])
+            # the send buffer must hold elements of the announced type
+            send = np.ascontiguousarray(array, dtype=dtype).ravel()
+            comm.Allgather([send, possible_types[dtype]], [whole_a, possible_types[dtype]])
             return whole_a
 
 
-- 
2.43.0


From b300f29b25546b38a95a5917844dd5f63b4fcb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:17 +0000
Subject: [PATCH 03/92] fix: write a globalized object from one process and
 close the file

Every process wrote the same file at the same time, with different contents
(the local parts differ), which corrupts it; and the file was left to the
garbage collector to close, which drops errors such as a full disk.
---
 bet/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index ad3fd3e..8f66547 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -245,12 +245,16 @@ def save_object(save_set, file_name, globalize=True):
     else:
         local_file_name = file_name
     if os.path.exists(local_file_name + '.p'):
-        logging.warn("Warning! Output file already exists. New object will be appended.")
+        logging.warning("Warning! Output file already exists and will be overwritten.")
     # globalize
     if globalize:
         save_set.local_to_global()
     comm.barrier()
-    pickle.dump(save_set, open(local_file_name + '.p', "wb"))
+    # A globalized object is a single file: concurrent writers would corrupt it.
+    if comm.rank == 0 or not globalize:
+        # Closing the file here reports errors which only show up when it is flushed.
+        with open(local_file_name + '.p', "wb") as save_file:
+            pickle.dump(save_set, save_file)
     comm.barrier()
     return local_file_name
 
-- 
2.43.0


From a833e7f5ea5c5802adc705aa5dc23bfd18752fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:44 +0000
Subject: [PATCH 04/92] fix: find exactly the files of a parallel object

The files of a per-process save were looked up in the current directory
instead of the directory of the file, and by a pattern which also matches
the files of other objects (proc0_other_name.p for name) and misreads names
with glob characters.
---
 bet/util.py | 46 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/bet/util.py b/bet/util.py
index 8f66547..1c67358 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -15,6 +15,7 @@ import sys
 import collections.abc
 import os
 import glob
+import re
 import logging
 import numpy as np
 import bet.sample
@@ -239,9 +240,7 @@ def save_object(save_set, file_name, globalize=True):
     import pickle
     # create processor specific file name
     if comm.size > 1 and not globalize:
-        local_file_name = os.path.join(os.path.dirname(file_name),
-                                       "proc{}_{}".format(comm.rank,
-                                                          os.path.basename(file_name)))
+        local_file_name = _local_file_name(file_name, comm.rank)
     else:
         local_file_name = file_name
     if os.path.exists(local_file_name + '.p'):
@@ -274,14 +273,41 @@ def load_object(file_name, localize=False):
     if file_name.startswith('proc_'):
         # logging.warning("Avoid starting filenames with 'proc_'. Unable to localize.")
         localize = False
-    elif not os.path.exists(file_name+'.p') and os.path.exists('proc0_'+file_name+'.p'):
+    elif not os.path.exists(file_name+'.p') and os.path.exists(_local_file_name(file_name, 0)+'.p'):
         return load_object_parallel(file_name)
-    loaded_set = pickle.load(open(file_name+'.p', "rb"))
+    with open(file_name+'.p', "rb") as saved_file:
+        loaded_set = pickle.load(saved_file)
     if localize:
         loaded_set.global_to_local()
     return loaded_set
 
 
+def _local_file_name(file_name, rank):
+    """
+    Name of the file (without extension) in which a process saves its part.
+    """
+    return os.path.join(os.path.dirname(file_name),
+                        "proc{}_{}".format(rank, os.path.basename(file_name)))
+
+
+def _parallel_files(file_name):
+    """
+    Find the files of a parallel object.
+
+    :param file_name: Filename of object.
+    :type file_name: str
+    :rtype: dict
+    :returns: the path of the file of each process, by rank
+    """
+    pattern = re.compile(r"proc(\d+)_" + re.escape(os.path.basename(file_name) + '.p') + r"\Z")
+    files = {}
+    for path in glob.glob(_local_file_name(glob.escape(file_name), '*') + '.p'):
+        match = pattern.match(os.path.basename(path))
+        if match:
+            files[int(match.group(1))] = path
+    return files
+
+
 def load_object_parallel(file_name):
     """
     Load saved paralell objects.
@@ -291,18 +317,12 @@ def load_object_parallel(file_name):
     :return: The saved object
 
     """
-    save_dir = os.path.dirname(file_name)
-    base_name = os.path.basename(file_name)
-    files = glob.glob(os.path.join(save_dir, "proc*_{}".format(base_name+'.p')))
-    if len(files) == comm.size:
+    if sorted(_parallel_files(file_name)) == list(range(comm.size)):
         logging.info("Loading sample set using parallel files (same nproc)")
         # if the number of processors is the same then set mdat to
         # be the one with the matching processor number (doesn't
         # really matter)
-        local_file_name = os.path.join(os.path.dirname(file_name),
-                                       "proc{}_{}".format(comm.rank,
-                                                          os.path.basename(file_name)))
-        return load_object(local_file_name)
+        return load_object(_local_file_name(file_name, comm.rank))
     else:
         raise bet.sample.dim_not_matching("Number of parallel files is different from nproc.")
     # SM possibly re-add the feature to have different numbers. Probably not necessary.
-- 
2.43.0


From 347ef733b059d01ce8da65d7727c6a3813bcd3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:00 +0000
Subject: [PATCH 05/92] fix: remove the parts of an earlier per-process save
 first

Parts left by an earlier save (of an interrupted job, or of a job with more
processes) were loaded together with the new ones as if they were one object.
---
 bet/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/util.py b/bet/util.py
index 1c67358..0f6a880 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -245,6 +245,10 @@ def save_object(save_set, file_name, globalize=True):
         local_file_name = file_name
     if os.path.exists(local_file_name + '.p'):
         logging.warning("Warning! Output file already exists and will be overwritten.")
+    if comm.size > 1 and not globalize and comm.rank == 0:
+        # Parts of an earlier save must never be mistaken for parts of this one.
+        for stale_file in _parallel_files(file_name).values():
+            os.remove(stale_file)
     # globalize
     if globalize:
         save_set.local_to_global()
-- 
2.43.0


From 36d7bbb32cc1588811c193b1d339190bf8df467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:11 +0000
Subject: [PATCH 06/92] fix: give each process its own local arrays when
 loading a globalized object

The file holds the local arrays of one process of the job which saved it.
They were taken over by every process of the job which loads it, and the
next globalization replaced the data by copies of that one part.
---
 bet/util.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/bet/util.py b/bet/util.py
index 0f6a880..2954d86 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -281,11 +281,36 @@ def load_object(file_name, localize=False):
         return load_object_parallel(file_name)
     with open(file_name+'.p', "rb") as saved_file:
         loaded_set = pickle.load(saved_file)
+    if not re.match(r"proc\d+_", os.path.basename(file_name)):
+        _refresh_local(loaded_set)
     if localize:
         loaded_set.global_to_local()
     return loaded_set
 
 
+def _refresh_local(loaded_set):
+    """
+    The local arrays in the file of a globalized object belong to a process of the job
+    which saved it. Replace them by the local arrays of this process.
+
+    :param loaded_set: Object loaded from the file
+    """
+    if isinstance(loaded_set, bet.sample.discretization):
+        for name in loaded_set.sample_set_names:
+            _refresh_local(getattr(loaded_set, name))
+        names = ['_io_ptr', '_emulated_ii_ptr', '_emulated_oo_ptr']
+    else:
+        names = getattr(loaded_set, 'array_names', [])
+    for name in names:
+        whole, local = getattr(loaded_set, name), getattr(loaded_set, name + '_local')
+        if whole is not None and local is not None:
+            if comm.size > 1 or local.shape[0] != whole.shape[0]:
+                setattr(loaded_set, name + '_local', np.array_split(whole, comm.size)[comm.rank])
+        elif local is not None and name.endswith('_ptr'):
+            # not globalized, found again when it is needed
+            setattr(loaded_set, name + '_local', None)
+
+
 def _local_file_name(file_name, rank):
     """
     Name of the file (without extension) in which a process saves its part.
-- 
2.43.0


From ef297d5cb0d7bc32815e5ddf698c05c0fdf2c0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:54 +0000
Subject: [PATCH 07/92] fix: estimate radii when a process has no point in a
 cell

---
 bet/sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index b60d596..f241f52 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1576,7 +1576,8 @@ class voronoi_sample_set(sample_set_base):
         for i in range(num):
             rad[i] = np.max(np.linalg.norm(
                             mc_points[np.equal(emulate_ptr, i), :] -
-                            samples[i, :], ord=self._p_norm, axis=1))
+                            samples[i, :], ord=self._p_norm, axis=1),
+                            initial=0.0)
 
         crad = np.copy(rad)
         comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
@@ -1638,7 +1639,8 @@ class voronoi_sample_set(sample_set_base):
             vol[i] = np.sum(np.equal(emulate_ptr, i))
             rad[i] = np.max(np.linalg.norm(
                             mc_points[np.equal(emulate_ptr, i), :] -
-                            samples[i, :], ord=self._p_norm, axis=1))
+                            samples[i, :], ord=self._p_norm, axis=1),
+                            initial=0.0)
 
         crad = np.copy(rad)
         comm.Allreduce([rad, MPI.DOUBLE], [crad, MPI.DOUBLE], op=MPI.MAX)
-- 
2.43.0


From 6007af9d832c8b7c94f3d9b8c384eb70ee2becd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:15 +0000
Subject: [PATCH 08/92] fix: exact 1D volume of a single sample

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index f241f52..4cc6ac6 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1424,7 +1424,7 @@ class voronoi_sample_set(sample_set_base):
             raise dim_not_matching("Only applicable for 1D domains.")
 
         # sort the samples
-        sort_ind = np.squeeze(np.argsort(self._values, 0))
+        sort_ind = np.argsort(self._values[:, 0])
         sorted_samples = self._values[sort_ind]
         domain_width = self._domain[:, 1] - self._domain[:, 0]
 
@@ -1436,7 +1436,7 @@ class voronoi_sample_set(sample_set_base):
                                 [self._domain[:, 1]]))
         # calculate difference between right and left of each cell
         # and renormalize
-        sorted_lam_vol = np.squeeze(edges[1:, :] - edges[:-1, :])
+        sorted_lam_vol = edges[1:, 0] - edges[:-1, 0]
         lam_vol = np.zeros(sorted_lam_vol.shape)
         lam_vol[sort_ind] = sorted_lam_vol
         lam_vol = lam_vol / domain_width
-- 
2.43.0


From 1420c63dcc730c35dbef6b33d36d288a5b753b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:32 +0000
Subject: [PATCH 09/92] fix: do not use a global pointer older than the local
 one

---
 bet/calculateP/calculateError.py | 2 +-
 bet/calculateP/calculateP.py     | 2 +-
 bet/sample.py                    | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index eb87b01..b3ba512 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -389,7 +389,7 @@ class model_error(object):
 
         #: number of inputs and outputs
         self.num = self.disc.check_nums()
-        if self.disc._io_ptr_local is None:
+        if self.disc._io_ptr is None:
             self.disc.set_io_ptr()
 
         # Setup new discretization object adding error estimates
diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 210b42e..0e0cd58 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -38,7 +38,7 @@ def prob_on_emulated_samples(discretization, globalize=True):
     discretization._emulated_input_sample_set.check_num()
 
     # Check for necessary properties
-    if discretization._io_ptr_local is None:
+    if discretization._io_ptr is None:
         discretization.set_io_ptr(globalize=True)
     if discretization._emulated_ii_ptr_local is None:
         discretization.set_emulated_ii_ptr(globalize=False)
diff --git a/bet/sample.py b/bet/sample.py
index 4cc6ac6..e348606 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2394,6 +2394,9 @@ class discretization(object):
 
         if globalize:
             self._io_ptr = util.get_global_values(self._io_ptr_local)
+        else:
+            # a global pointer made earlier is out of date
+            self._io_ptr = None
 
     def get_io_ptr(self):
         """
-- 
2.43.0


From c4848c97e2b733f3a501ac9d135aa01d93005dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:20 +0000
Subject: [PATCH 10/92] fix: drop the pointers of a discretization when a
 sample set is replaced

---
 bet/sample.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index e348606..2b71fc0 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2361,6 +2361,18 @@ class discretization(object):
         else:
             return in_num
 
+    def _forget_ptrs(self, *names):
+        """
+
+        Drop pointers that involve a sample set that is being replaced.
+
+        :param names: names of the pointers, e.g. ``_io_ptr``
+
+        """
+        for name in names:
+            setattr(self, name, None)
+            setattr(self, name + '_local', None)
+
     def globalize_ptrs(self):
         """
         Globalizes discretization pointers.
@@ -2528,6 +2540,7 @@ class discretization(object):
         """
         if isinstance(input_sample_set, sample_set_base):
             self._input_sample_set = input_sample_set
+            self._forget_ptrs('_emulated_ii_ptr')
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2553,6 +2566,7 @@ class discretization(object):
         """
         if isinstance(output_sample_set, sample_set_base):
             self._output_sample_set = output_sample_set
+            self._forget_ptrs('_io_ptr')
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2615,6 +2629,7 @@ class discretization(object):
                 self._output_probability_set = output_probability_set
             else:
                 raise dim_not_matching("dimension of values incorrect")
+            self._forget_ptrs('_io_ptr', '_emulated_oo_ptr')
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
         if self._output_sample_set._values_local is not None:
@@ -2655,6 +2670,7 @@ class discretization(object):
                 self._emulated_output_sample_set = emulated_output_sample_set
             else:
                 raise dim_not_matching("dimension of values incorrect")
+            self._forget_ptrs('_emulated_oo_ptr')
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
@@ -2688,6 +2704,7 @@ class discretization(object):
                     raise dim_not_matching("dimension of values incorrect")
             else:
                 self._emulated_input_sample_set = emulated_input_sample_set
+            self._forget_ptrs('_emulated_ii_ptr')
         else:
             raise AttributeError("Wrong Type: Should be sample_set_base type")
 
-- 
2.43.0


From a11f3c4c5ce280921c62db0000f34b46e215893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 11/92] fix: draw one Latin hypercube for all processes

---
 bet/sampling/basicSampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index efb0f48..6a51587 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -225,6 +225,8 @@ def lhs_sample_set(input_obj, num_samples, criterion, globalize=True):
     input_values = np.copy(input_sample_set._width)
     input_values = input_values * lhs(dim, num_samples, criterion)
     input_values = input_values + input_sample_set._left
+    # every process must take its part of the same Latin hypercube
+    input_values = comm.bcast(input_values, root=0)
     input_sample_set.set_values_local(np.array_split(input_values, comm.size)[comm.rank])
 
     comm.barrier()
-- 
2.43.0


From ac78a1b4acee23abd89030a00ffa63e6fbaafea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:05 +0000
Subject: [PATCH 12/92] fix: resample exactly the requested number of samples
 with coordinates in place

---
 bet/sampling/basicSampling.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 6a51587..b9b0f31 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -30,6 +30,21 @@ class bad_object(Exception):
     """
 
 
+def _cluster_counts(cluster_weights, num_samples):
+    """
+    Split a number of samples over clusters in proportion to their weights.
+
+    :param cluster_weights: weights of the clusters
+    :param num_samples: total number of samples
+    :type num_samples: int
+    :return: number of samples for each cluster, which add up to ``num_samples``
+    :rtype: list
+    """
+    ends = np.cumsum(cluster_weights) / np.sum(cluster_weights) * num_samples
+    ends = np.round(np.concatenate(([0.0], ends))).astype(int)
+    return [int(num) for num in np.diff(ends)]
+
+
 def sample_from_updated(input_set, num_samples, globalize=True):
     """
     Create a new sample set from resampling from the updated probability measure of another sample set.
@@ -55,15 +70,14 @@ def sample_from_updated(input_set, num_samples, globalize=True):
     elif input_set.get_prob_type() == 'kde':
         param_marginals, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
-        for i, w in enumerate(cluster_weights):
+        for i, num_samples_clust in enumerate(_cluster_counts(cluster_weights, num_samples)):
             v_inner = []
-            num_samples_clust = round(w*num_samples)
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
             for j in range(input_set.get_dim()):
                 v_inner.append(param_marginals[j][i].resample(num_samples_local))
             v_outer.append(np.vstack(v_inner))
-        vals_local = np.hstack(v_outer)
+        vals_local = np.hstack(v_outer).transpose()
         new_set.set_values_local(vals_local)
         new_set.set_prob_type_init('kde')
         new_set.set_prob_parameters_init((param_marginals, cluster_weights))
@@ -73,11 +87,11 @@ def sample_from_updated(input_set, num_samples, globalize=True):
     elif input_set.get_prob_type() == 'gmm':
         means, covariances, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
-        for i, w in enumerate(cluster_weights):
-            num_samples_clust = round(w * num_samples)
+        for i, num_samples_clust in enumerate(_cluster_counts(cluster_weights, num_samples)):
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
-            v_outer.append(stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local))
+            v_outer.append(stats.multivariate_normal.rvs(mean=means[i], cov=covariances[i], size=num_samples_local
+                                                         ).reshape((num_samples_local, input_set.get_dim())))
         vals_local = np.vstack(v_outer)
         new_set.set_values_local(vals_local)
         new_set.set_prob_type_init('gmm')
-- 
2.43.0


From f369c6e30497be60610c284eca448af44f7a56a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:14 +0000
Subject: [PATCH 13/92] fix: accept the same samples on every process in
 rejection sampling

---
 bet/calculateP/calculateR.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 05bf6cb..5c45305 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -12,6 +12,7 @@ to update an initial density on the parameter space.
 * :meth:`~bet.calculateP.calculateR.invert_rejection_sampling` solves SIP with rejection sampling.
 
 """
+from bet.Comm import comm
 import bet.sample
 import numpy as np
 import logging
@@ -188,6 +189,7 @@ def invert_rejection_sampling(discretization, bw_method=None):
     new_vals = []
     for i in range(num_clusters):
         check = np.random.uniform(low=0, high=1, size=r[i].size)  # create random uniform weights to check r against
+        check = comm.bcast(check, root=0)  # the same weights on every process
         new_r = r[i] / np.max(r[i])  # normalize weights
         idx = np.where(new_r >= check)[0]  # rejection criterion
         new_vals.append(discretization.get_input_sample_set().get_values()[lam_ptr[i][idx]])
-- 
2.43.0


From 288da141bba997a383ee4599dc6ad129606e83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 14/92] fix: read the simplices of a triangulation by their
 current name

---
 bet/calculateP/calculateError.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index b3ba512..5eb6e06 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -78,7 +78,7 @@ def cell_connectivity_exact(disc):
 
         # Find neighbors
         neiList = defaultdict(set)
-        for p in tri.vertices:
+        for p in tri.simplices:
             for i, j in itertools.combinations(p, 2):
                 neiList[i].add(disc._io_ptr[j])
                 neiList[j].add(disc._io_ptr[i])
-- 
2.43.0


From a1a83873c744d399ff63a877b4217a9abebc4d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 15/92] fix: neighbors of 1D samples that are not sorted

---
 bet/calculateP/calculateError.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 5eb6e06..6acfbb5 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -63,7 +63,8 @@ def cell_connectivity_exact(disc):
 
     if disc._input_sample_set._dim == 1:
         # Adding contours on the left
-        s_sort = disc._input_sample_set._values.flat[:].argsort()
+        # position of every sample in the sorted order
+        s_sort = disc._input_sample_set._values.flat[:].argsort().argsort()
         neiList = defaultdict(set)
         for p in range(num):
             order = s_sort[p]
-- 
2.43.0


From 86a6a3b089e8911bd8e2069e054724aaf8a46f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:33 +0000
Subject: [PATCH 16/92] fix: sign of the first order term of a surrogate

---
 bet/surrogates.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 47faff8..1e6364c 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -96,9 +96,9 @@ class piecewise_polynomial_surrogate(object):
 
             jac_local = self.input_disc._input_sample_set._jacobians[
                 self.dummy_disc._emulated_ii_ptr_local]
-            diff_local = self.input_disc._input_sample_set._values[
-                self.dummy_disc._emulated_ii_ptr_local] - \
-                input_sample_set._values_local
+            diff_local = input_sample_set._values_local - \
+                self.input_disc._input_sample_set._values[
+                    self.dummy_disc._emulated_ii_ptr_local]
             new_values_local = self.input_disc._output_sample_set._values[
                 self.dummy_disc._emulated_ii_ptr_local]
             new_values_local += np.einsum('ijk,ik->ij', jac_local, diff_local)
-- 
2.43.0


From e29b7fcb7c959458a04f742f84145a3a10e303c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:00 +0000
Subject: [PATCH 17/92] fix: keep singular values with their sets when choosing
 QoIs in parallel

---
 bet/sensitivity/chooseQoIs.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index 82b12f1..07add0a 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -328,14 +328,13 @@ def chooseOptQoIs_verbose(input_set, qoiIndices=None, num_qois_return=None,
     # Gather the best sets and skewness values from each processor
     measure_skewness_indices_mat = np.array(comm.gather(
         measure_skewness_indices_mat, root=0))
-    optsingvals_tensor = np.array(comm.gather(optsingvals_tensor, root=0))
+    optsingvals_tensor = comm.gather(optsingvals_tensor, root=0)
 
     # Find the num_optsets_return smallest skewness values from all processors
     if comm.rank == 0:
         measure_skewness_indices_mat = measure_skewness_indices_mat.reshape(
             num_optsets_return * comm.size, num_qois_return + 1)
-        optsingvals_tensor = optsingvals_tensor.reshape(num_centers,
-                                                        num_qois_return, num_optsets_return * comm.size)
+        optsingvals_tensor = np.concatenate(optsingvals_tensor, axis=2)
         order = measure_skewness_indices_mat[:, 0].argsort()
 
         measure_skewness_indices_mat = measure_skewness_indices_mat[order]
@@ -542,6 +541,7 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
     # Gather the best sets and skewness values from each processor
     good_sets = comm.gather(good_sets, root=0)
     best_sets = np.array(comm.gather(best_sets, root=0))
+    optsingvals_tensor = comm.gather(optsingvals_tensor, root=0)
     count_qois = np.array(comm.gather(count_qois, root=0))
 
     # Find the num_optsets_return smallest skewness from all processors
@@ -551,9 +551,15 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
         best_sets = best_sets.reshape(num_optsets_return *
                                       comm.size, num_qois_return + 1)
         [_, uniq_inds_best] = np.unique(best_sets[:, 0], return_index=True)
+        uniq_inds_best = uniq_inds_best[:num_optsets_return]
         best_sets = best_sets[uniq_inds_best, :]
-        best_sets = best_sets[best_sets[:, 0].argsort()]
-        best_sets = best_sets[:num_optsets_return, :]
+
+        # Keep the singular values in the order of the best sets
+        singvals = np.concatenate(optsingvals_tensor, axis=2)
+        optsingvals_tensor = np.zeros([num_centers, num_qois_return,
+                                       num_optsets_return])
+        optsingvals_tensor[:, :, :len(uniq_inds_best)] = \
+            singvals[:, :, uniq_inds_best]
 
         # Organize the good sets
         good_sets_new = np.zeros([1, num_qois_return])
@@ -569,6 +575,7 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
     comm.Barrier()
     best_sets = comm.bcast(best_sets, root=0)
     good_sets = comm.bcast(good_sets, root=0)
+    optsingvals_tensor = comm.bcast(optsingvals_tensor, root=0)
 
     return (good_sets[1:].astype(int), best_sets, optsingvals_tensor)
 
-- 
2.43.0


From 34e1288cf9c642a01ad09c493c3f5221d462a619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:05 +0000
Subject: [PATCH 18/92] fix: normalize local and global arrays which share
 memory once

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 2b71fc0..8354869 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -354,7 +354,7 @@ class sample_set_base(object):
             for obj in rescale_list:
                 val = getattr(self, obj)
                 if val is not None:
-                    val *= (self._domain[:, 1] - self._domain[:, 0])
+                    val = val * (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
             shift_list = ['_values', '_values_local',
@@ -365,7 +365,7 @@ class sample_set_base(object):
             for obj in shift_list:
                 val = getattr(self, obj)
                 if val is not None:
-                    val -= self._domain[:, 0]
+                    val = val - self._domain[:, 0]
                     val = val / (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
-- 
2.43.0


From f61414015cd3151d6c5c1ddce741f65b46c5209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:05 +0000
Subject: [PATCH 19/92] fix: set the local error identifiers

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 8354869..c150126 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -624,7 +624,7 @@ class sample_set_base(object):
         :param error_id: array of error identifiers
         :type error_id: :class:`numpy.ndarray` of shape (some_num, dim)
         """
-        self._error_local = error_id
+        self._error_id_local = error_id
 
     def get_error_id_local(self):
         """
-- 
2.43.0


From a3ea1970cd5dc813c162853248ed3afe7f9f39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:48 +0000
Subject: [PATCH 20/92] fix: transferred probabilities reach the local arrays
 of a sample set

---
 bet/calculateP/calculateP.py |  9 +++++++++
 bet/surrogates.py            | 12 ++++++++++--
 bet/util.py                  | 17 +++++++++++++++++
 3 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateP.py b/bet/calculateP/calculateP.py
index 0e0cd58..857c081 100644
--- a/bet/calculateP/calculateP.py
+++ b/bet/calculateP/calculateP.py
@@ -202,6 +202,9 @@ def prob_from_sample_set_with_emulated_volumes(set_old, set_new,
 
     # Set probabilities
     set_new.set_probabilities(prob_new)
+    if set_new._values_local is not None:
+        set_new.set_probabilities_local(util.get_local_values(
+            prob_new, set_new._values_local.shape[0]))
     set_new.set_prob_type('voronoi')
     return prob_new
 
@@ -245,6 +248,9 @@ def prob_from_sample_set(set_old, set_new):
 
     # Set probabilities
     set_new.set_probabilities(prob_new)
+    if set_new._values_local is not None:
+        set_new.set_probabilities_local(util.get_local_values(
+            prob_new, set_new._values_local.shape[0]))
     set_new.set_prob_type('voronoi')
     return prob_new
 
@@ -296,5 +302,8 @@ def prob_from_discretization_input(disc, set_new):
 
     # Set probabilities
     set_new.set_probabilities(prob_new)
+    if set_new._values_local is not None:
+        set_new.set_probabilities_local(util.get_local_values(
+            prob_new, set_new._values_local.shape[0]))
     set_new.set_prob_type('voronoi')
     return prob_new
diff --git a/bet/surrogates.py b/bet/surrogates.py
index 1e6364c..42f0107 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -5,6 +5,7 @@ This module provides methods for generating and using surrogate models.
 """
 import numpy as np
 import bet.sample as sample
+import bet.util as util
 import bet.calculateP.calculateError as calculateError
 import bet.calculateP.calculateP as calculateP
 from bet.Comm import comm, MPI
@@ -177,7 +178,14 @@ class piecewise_polynomial_surrogate(object):
                 error_id_sum = np.sum(self.surrogate_discretization.
                                       _input_sample_set._error_id_local[Itemp])
                 error_id[i] = comm.allreduce(error_id_sum, op=MPI.SUM)
-            self.input_disc._input_sample_set.set_probabilities(prob)
-            self.input_disc._input_sample_set.set_error_id(error_id)
+            input_set = self.input_disc._input_sample_set
+            input_set.set_probabilities(prob)
+            input_set.set_error_id(error_id)
+            if input_set._values_local is not None:
+                num_local = input_set._values_local.shape[0]
+                input_set.set_probabilities_local(
+                    util.get_local_values(prob, num_local))
+                input_set.set_error_id_local(
+                    util.get_local_values(error_id, num_local))
 
         return (probabilities, error_estimates)
diff --git a/bet/util.py b/bet/util.py
index 2954d86..f47a282 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -117,6 +117,23 @@ def get_global_values(array, shape=None):
             return whole_a
 
 
+def get_local_values(array, num_local):
+    """
+    Finds the part of a global array which belongs to this process. The opposite of
+    :meth:`~bet.util.get_global_values`.
+
+    :param array: global array
+    :type array: :class:`numpy.ndarray`
+    :param int num_local: number of entries which belong to this process
+    :rtype: :class:`numpy.ndarray`
+    :returns: local array
+
+    """
+    nums = comm.allgather(num_local)
+    start = sum(nums[:comm.rank])
+    return array[start:start + num_local]
+
+
 def fix_dimensions_vector(vector):
     """
     Fix the dimensions of an input so that it is a :class:`numpy.ndarray` of
-- 
2.43.0


From dbc575444e2e92eecdaab35f3c0267a0b73340ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:55 +0000
Subject: [PATCH 21/92] fix: search the current values of a sample set

---
 bet/sample.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index c150126..9b8c80e 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -674,6 +674,7 @@ class sample_set_base(object):
         """
         self._values = np.concatenate((self._values,
                                        util.fix_dimensions_data(values, self._dim)), 0)
+        self._forget_kdtree()
 
     def append_values_local(self, values_local):
         """
@@ -814,6 +815,7 @@ class sample_set_base(object):
 
         """
         self._values = util.fix_dimensions_data(values, self._dim)
+        self._forget_kdtree()
         if self._values.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
 
@@ -1094,6 +1096,15 @@ class sample_set_base(object):
         self._kdtree = spatial.KDTree(self._values)
         self._kdtree_values = self._kdtree.data
 
+    def _forget_kdtree(self):
+        """
+        Removes the search tree and bounding box of earlier values.
+        """
+        self._kdtree = None
+        self._kdtree_values = None
+        self._kdtree_values_local = None
+        self._bounding_box = None
+
     def get_kdtree(self):
         """
         Returns a :class:`scipy.spatial.KDTree` for this set of samples.
@@ -1403,7 +1414,8 @@ class voronoi_sample_set(sample_set_base):
         :rtype: tuple
         :returns: (dist, ptr)
         """
-        if self._kdtree is None:
+        if self._kdtree is None or \
+                not np.array_equal(self._kdtree.data, self._values):
             self.set_kdtree()
         else:
             self.check_num()
-- 
2.43.0


From 1e5a25c1db3f45ef5b8a78db5b0c7763d3e61810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:14 +0000
Subject: [PATCH 22/92] fix: merge discretizations without emulated sets

---
 bet/sample.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 9b8c80e..cd44f96 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2788,10 +2788,16 @@ class discretization(object):
         """
         mi = self._input_sample_set.merge(disc._input_sample_set)
         mo = self._output_sample_set.merge(disc._output_sample_set)
-        mei = self._emulated_input_sample_set.merge(disc.
-                                                    _emulated_input_sample_set)
-        meo = self._emulated_output_sample_set.merge(disc.
-                                                     _emulated_output_sample_set)
+        mei = None
+        if self._emulated_input_sample_set is not None or \
+                disc._emulated_input_sample_set is not None:
+            mei = self._emulated_input_sample_set.merge(
+                disc._emulated_input_sample_set)
+        meo = None
+        if self._emulated_output_sample_set is not None or \
+                disc._emulated_output_sample_set is not None:
+            meo = self._emulated_output_sample_set.merge(
+                disc._emulated_output_sample_set)
 
         return discretization(input_sample_set=mi,
                               output_sample_set=mo,
-- 
2.43.0


From 3b95bcaf8abeb7a89b8e3c51a84ebd216aa946b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:14 +0000
Subject: [PATCH 23/92] fix: keep the observed set of a clipped or merged
 discretization

---
 bet/sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index cd44f96..5c5225b 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2773,7 +2773,8 @@ class discretization(object):
                               output_sample_set=co,
                               output_probability_set=self._output_probability_set,
                               emulated_input_sample_set=self._emulated_input_sample_set,
-                              emulated_output_sample_set=self._emulated_output_sample_set)
+                              emulated_output_sample_set=self._emulated_output_sample_set,
+                              output_observed_set=self._output_observed_set)
 
     def merge(self, disc):
         """
@@ -2803,7 +2804,8 @@ class discretization(object):
                               output_sample_set=mo,
                               output_probability_set=self._output_probability_set,
                               emulated_input_sample_set=mei,
-                              emulated_output_sample_set=meo)
+                              emulated_output_sample_set=meo,
+                              output_observed_set=self._output_observed_set)
 
     def choose_inputs_outputs(self,
                               inputs=None,
-- 
2.43.0


From 609d3ad647938e78b7716db17b4aba5e640b8186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:14 +0000
Subject: [PATCH 24/92] fix: scatter without mpi4py

---
 bet/Comm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/Comm.py b/bet/Comm.py
index 0934aec..ca69d71 100644
--- a/bet/Comm.py
+++ b/bet/Comm.py
@@ -5,7 +5,7 @@ This module provides a workaround for people without mpi4py installed
 to run BET.
 """
 
-import collections
+import collections.abc
 
 
 class comm_for_no_mpi4py(object):
@@ -94,7 +94,7 @@ class comm_for_no_mpi4py(object):
         :returns: val1
 
         """
-        if isinstance(val1, collections.Iterable) and len(val1) == 1:
+        if isinstance(val1, collections.abc.Iterable) and len(val1) == 1:
             val1 = val1[0]
         return val1
 
-- 
2.43.0


From 6fd499fdc63261f195e97f9ab23c7d38ad24fdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:14 +0000
Subject: [PATCH 25/92] fix: select samples by probability without sorting

---
 bet/postProcess/postTools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 251aeea..4765dd0 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -124,6 +124,7 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
     else:
         raise bad_object("Improper sample object")
 
+    indices = np.arange(len(P_samples))
     if sort:
         (sample_set, indices) = sort_by_rho(sample_set)
         if isinstance(sample_set, sample.discretization):
-- 
2.43.0


From 8b281e8e25a5fbed64eb60f3150caa494502959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:35 +0000
Subject: [PATCH 26/92] fix: pair centers with their own data in centered
 differences

---
 bet/sensitivity/gradients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index bb83a34..5827a77 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -511,6 +511,7 @@ def calculate_gradients_cfd(cluster_discretization, normalize=True):
     radii_vec = util.fix_dimensions_vector_2darray(radii_vec.diagonal())
 
     # Clean the data
+    center_data = util.clean_data(data[:num_centers])
     data = util.clean_data(data[num_centers:])
     gradient_tensor = np.zeros([num_centers, output_dim, input_dim])
 
@@ -546,7 +547,7 @@ def calculate_gradients_cfd(cluster_discretization, normalize=True):
                                            _input_sample_set.get_domain())
     center_input_sample_set.set_jacobians(gradient_tensor)
     center_output_sample_set = sample.sample_set(output_dim)
-    center_output_sample_set.set_values(data[:num_centers, :])
+    center_output_sample_set.set_values(center_data)
     if cluster_discretization._output_sample_set.get_domain() is not None:
         center_output_sample_set.set_domain(cluster_discretization.
                                             _output_sample_set.get_domain())
-- 
2.43.0


From 463bf80c160362b7046e6aced1e2ebb361b1431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:35 +0000
Subject: [PATCH 27/92] fix: use the shape parameter in the interpolation
 matrix

---
 bet/sensitivity/gradients.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index 5827a77..80d0f47 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -350,7 +350,7 @@ def calculate_gradients_rbf(cluster_discretization, num_centers=None,
         # Solve for the rbf weights using interpolation conditions and
         # evaluate the partial derivatives
         rbf_mat_values = \
-            np.linalg.solve(radial_basis_function(distMat, RBF),
+            np.linalg.solve(radial_basis_function(distMat, RBF, ep),
                             radial_basis_function_dxi(r, diffVec, RBF, ep)
                             .transpose()).transpose()
 
-- 
2.43.0


From ac0b465005f13eeef95059066958230bfe18fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:35 +0000
Subject: [PATCH 28/92] fix: compare kernel names by value

---
 bet/sensitivity/gradients.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index 80d0f47..050dfc9 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -229,13 +229,13 @@ def radial_basis_function(r, kernel=None, ep=None):
     if ep is None:
         ep = 1.0
 
-    if kernel is None or kernel is 'C4Matern':
+    if kernel is None or kernel == 'C4Matern':
         rbf = (1 + (ep * r) + (ep * r)**2 / 3) * np.exp(-ep * r)
-    elif kernel is 'Gaussian':
+    elif kernel == 'Gaussian':
         rbf = np.exp(-(ep * r)**2)
-    elif kernel is 'Multiquadric':
+    elif kernel == 'Multiquadric':
         rbf = (1 + (ep * r)**2)**(0.5)
-    elif kernel is 'InverseMultiquadric':
+    elif kernel == 'InverseMultiquadric':
         rbf = 1 / ((1 + (ep * r)**2)**(0.5))
     else:
         raise ValueError("The kernel chosen is not currently available.")
@@ -264,13 +264,13 @@ def radial_basis_function_dxi(r, xi, kernel=None, ep=None):
     if ep is None:
         ep = 1.0
 
-    if kernel is None or kernel is 'C4Matern':
+    if kernel is None or kernel == 'C4Matern':
         rbfdxi = -(ep**2 * xi * np.exp(-ep * r) * (ep * r + 1)) / 3
-    elif kernel is 'Gaussian':
+    elif kernel == 'Gaussian':
         rbfdxi = -2 * ep**2 * xi * np.exp(-(ep * r)**2)
-    elif kernel is 'Multiquadric':
+    elif kernel == 'Multiquadric':
         rbfdxi = (ep**2 * xi) / ((1 + (ep * r)**2)**(0.5))
-    elif kernel is 'InverseMultiquadric':
+    elif kernel == 'InverseMultiquadric':
         rbfdxi = -(ep**2 * xi) / ((1 + (ep * r)**2)**(1.5))
     else:
         raise ValueError("The kernel chosen is not currently available")
-- 
2.43.0


From ecd73d1f7e11b0e97b4783442c27ce8fb3187fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:35 +0000
Subject: [PATCH 29/92] fix: clean a copy of the data

---
 bet/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/util.py b/bet/util.py
index f47a282..3779829 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -238,6 +238,7 @@ def clean_data(data):
     :returns: array of shape (data.shape)
 
     """
+    data = np.copy(data)
     data[np.isnan(data)] = 0.0
     data[np.isinf(data)] = np.sign(data[np.isinf(data)]) * sys.float_info[0]
 
-- 
2.43.0


From d555445aa567bd0c44057b470035878e99548bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:35 +0000
Subject: [PATCH 30/92] fix: share the clusters of samples between processes

---
 bet/sensitivity/gradients.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bet/sensitivity/gradients.py b/bet/sensitivity/gradients.py
index 050dfc9..efbd1d5 100644
--- a/bet/sensitivity/gradients.py
+++ b/bet/sensitivity/gradients.py
@@ -11,6 +11,7 @@ import scipy.spatial as spatial
 import bet.sample as sample
 import bet.util as util
 import bet.sampling.LpGeneralizedSamples as lpsam
+from bet.Comm import comm
 
 
 def sample_lp_ball(input_set, num_close, radius, p_num=2):
@@ -71,6 +72,8 @@ def sample_lp_ball(input_set, num_close, radius, p_num=2):
 
         if in_bounds > num_close:
             new_cluster = new_cluster[:num_close, :]
+        # every process must use the same cluster
+        new_cluster = comm.bcast(new_cluster, root=0)
         cluster_set.append_values(new_cluster)
 
     # reset bounds
-- 
2.43.0


From 8b7f40be5806801a32c123352cf01d459bbb574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:13 +0000
Subject: [PATCH 31/92] fix: total variation with a scalar weight

---
 bet/postProcess/compareP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 6e47517..da1d0a7 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -165,7 +165,7 @@ class compare:
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, w=0.5, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
             dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, **kwargs)
         elif functional in ['norm']:
@@ -248,7 +248,7 @@ class compare:
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = factor * ds.minkowski(pdfs1, pdfs2, 1, w=0.5, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(pdfs1, pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
             dist = ds.minkowski(pdfs1, pdfs2, **kwargs)
         elif functional in ['norm']:
-- 
2.43.0


From dce067f6dd2d1498ecb90e9d0fabd81ec9b50b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:13 +0000
Subject: [PATCH 32/92] fix: draw comparison points from the box around both
 sets

---
 bet/postProcess/compareP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index da1d0a7..3398e1c 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -106,8 +106,9 @@ class compare:
                 rv_loc = ['uniform', {}]
                 delt = compare_factor * (maxes[i] - mins[i])
                 rv_loc[1]['loc'] = mins[i] - delt
-                rv_loc[1]['scale'] = maxes[i] - mins[i] + delt
-            unif_set = bsam.random_sample_set(rv=rv_loc, input_obj=self.set1.get_dim(),
+                rv_loc[1]['scale'] = maxes[i] - mins[i] + 2.0 * delt
+                rv.append(rv_loc)
+            unif_set = bsam.random_sample_set(rv=rv, input_obj=self.set1.get_dim(),
                                               num_samples=compare_set)
             self.compare_vals = unif_set.get_values()
         else:
-- 
2.43.0


From 3d2fbdb6f7b9886ff1ba6b56173ffc78a4fb1c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:13 +0000
Subject: [PATCH 33/92] fix: forget the densities of earlier comparison points

---
 bet/postProcess/compareP.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 3398e1c..c108b51 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -82,6 +82,10 @@ class compare:
             0 by default.
         :type compare_factor: float
         """
+        # Densities at earlier comparison points no longer apply.
+        self.pdfs1 = None
+        self.pdfs2 = None
+        self.pdfs_zero = None
         # Extract values to evaluate the probability measures.
         if isinstance(compare_set, samp.sample_set):
             if compare_set.get_dim() == self.set1.get_dim():
-- 
2.43.0


From 6980ac191fb0b8446563378d1d86ec9545ddbe12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:13 +0000
Subject: [PATCH 34/92] fix: keep the densities when normalizing a distance

---
 bet/postProcess/compareP.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index c108b51..5bc0f91 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -161,31 +161,32 @@ class compare:
         if self.pdfs1 is None or self.pdfs2 is None:
             self.evaluate_pdfs()
         if normalize:
-            self.pdfs1 = self.pdfs1 / np.sum(self.pdfs1)
-            self.pdfs2 = self.pdfs2 / np.sum(self.pdfs2)
+            pdfs1 = self.pdfs1 / np.sum(self.pdfs1)
+            pdfs2 = self.pdfs2 / np.sum(self.pdfs2)
             factor = 1.0
         else:
-            factor = 1.0 / (self.pdfs1.shape[0])
-
+            pdfs1 = self.pdfs1
+            pdfs2 = self.pdfs2
+            factor = 1.0 / (pdfs1.shape[0])
 
         if functional in ['tv', 'totvar',
                           'total variation', 'total-variation', '1']:
-            dist = 0.5 * factor * ds.minkowski(self.pdfs1, self.pdfs2, 1, **kwargs)
+            dist = 0.5 * factor * ds.minkowski(pdfs1, pdfs2, 1, **kwargs)
         elif functional in ['mink', 'minkowski']:
-            dist = factor * ds.minkowski(self.pdfs1, self.pdfs2, **kwargs)
+            dist = factor * ds.minkowski(pdfs1, pdfs2, **kwargs)
         elif functional in ['norm']:
-            dist = factor * ds.norm(self.pdfs1 - self.pdfs2, **kwargs)
+            dist = factor * ds.norm(pdfs1 - pdfs2, **kwargs)
         elif functional in ['euclidean', '2-norm', '2']:
-            dist = (factor ** 0.5) * ds.minkowski(self.pdfs1, self.pdfs2, 2, **kwargs)
+            dist = (factor ** 0.5) * ds.minkowski(pdfs1, pdfs2, 2, **kwargs)
         elif functional in ['sqhell', 'sqhellinger']:
-            dist = factor * ds.sqeuclidean(np.sqrt(self.pdfs1), np.sqrt(self.pdfs2)) / 2.0
+            dist = factor * ds.sqeuclidean(np.sqrt(pdfs1), np.sqrt(pdfs2)) / 2.0
         elif functional in ['hell', 'hellinger']:
-            return np.sqrt(self.distance('sqhell'))
+            return np.sqrt(self.distance('sqhell', normalize=normalize))
         elif functional in ['kl', 'k-l', 'kullback-leibler', 'entropy']:
             from scipy.stats import entropy as kl_div
-            dist = kl_div(self.pdfs1, self.pdfs2, **kwargs)
+            dist = kl_div(pdfs1, pdfs2, **kwargs)
         else:
-            dist = functional(self.pdfs1, self.pdfs2, **kwargs)
+            dist = functional(pdfs1, pdfs2, **kwargs)
         return dist
 
     def distance_marginal(self, i, interval=None, num_points=1000, compare_factor=0.0, normalize=False,
-- 
2.43.0


From 466dea3b502b439b84e368c9f596720c4db3b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:14 +0000
Subject: [PATCH 35/92] fix: compare marginals over the range of both sets

---
 bet/postProcess/compareP.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 5bc0f91..83ada63 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -221,13 +221,13 @@ class compare:
         x = None
         if interval is None:
             if self.set1.get_domain() is not None and self.set2.get_domain() is not None:
-                min1 = min(self.set1.get_domain()[i, 0], self.set1.get_domain()[i, 0])
-                max1 = min(self.set1.get_domain()[i, 1], self.set1.get_domain()[i, 1])
+                min1 = min(self.set1.get_domain()[i, 0], self.set2.get_domain()[i, 0])
+                max1 = max(self.set1.get_domain()[i, 1], self.set2.get_domain()[i, 1])
                 if min1 != -np.inf and max1 != np.inf:
                     delt = compare_factor * (max1 - min1)
                     x = np.linspace(min1-delt, max1+delt, num_points)
             if x is None:
-                combined = np.vstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
+                combined = np.concatenate((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
                 min1 = np.min(combined)
                 max1 = np.max(combined)
                 delt = compare_factor * (max1 - min1)
@@ -301,13 +301,13 @@ class compare:
         from scipy.integrate import quadrature
         if interval is None:
             if self.set1.get_domain() is not None and self.set2.get_domain() is not None:
-                min1 = min(self.set1.get_domain()[i, 0], self.set1.get_domain()[i, 0])
-                max1 = min(self.set1.get_domain()[i, 1], self.set1.get_domain()[i, 1])
+                min1 = min(self.set1.get_domain()[i, 0], self.set2.get_domain()[i, 0])
+                max1 = max(self.set1.get_domain()[i, 1], self.set2.get_domain()[i, 1])
                 if min1 != -np.inf and max1 != np.inf:
                     delt = compare_factor * (max1 - min1)
                     interval = [min1-delt, max1 + delt]
             if interval is None:
-                combined = np.vstack((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
+                combined = np.concatenate((self.set1.get_values()[:, i], self.set2.get_values()[:, i]))
                 min1 = np.min(combined)
                 max1 = np.max(combined)
                 delt = compare_factor * (max1 - min1)
-- 
2.43.0


From 8ba2535de8f74f6e8ff1a87dbbcbb56d520da369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 36/92] fix: compare sets that hold only local values

---
 bet/postProcess/compareP.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index 83ada63..abf44b4 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -65,6 +65,11 @@ class compare:
         if self.set1.get_dim() != self.set2.get_dim():
             raise samp.dim_not_matching("The sets do not have the same dimension.")
 
+        # Sets that only hold local values must be globalized to be compared.
+        for compared_set in (self.set1, self.set2):
+            if compared_set.get_values() is None:
+                compared_set.local_to_global()
+
     def set_compare_set(self, compare_set=10000, compare_factor=0.0):
         """
         Set values where the left and right probability measures should be compared.
-- 
2.43.0


From 0259345e20ae80668ef4c873a78975888946ef76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 37/92] fix: marginal of a Voronoi measure at points of the
 full space

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 5c5225b..6d72aaf 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -153,7 +153,7 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         logging.warning("Using kernel density estimate to estimate marginal PDF.")
         sam_set = prob_parameters
         kde = gaussian_kde(sam_set.get_values()[:, i], weights=sam_set.get_probabilities())
-        return kde(vals.T)
+        return kde(x)
     else:
         raise wrong_input("This type of probability density is not yet supported.")
 
-- 
2.43.0


From 3201e92c54a9891e183b1438049ce340beec06da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 38/92] fix: evaluate a Voronoi density with the current
 probabilities

---
 bet/sample.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 6d72aaf..4ca4339 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -938,11 +938,12 @@ class sample_set_base(object):
         if self._prob_type == 'voronoi':
             if self._probabilities_local is None and self._probabilities is None:
                 raise wrong_input("Missing probabilities for Voronoi cells.")
-            if self._densities_local is None:
-                if self._volumes_local is None:
-                    logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
-                    self.estimate_volume_mc(globalize=False)
-                self.set_densities_local(self._probabilities_local/self._volumes_local)
+            if self._probabilities_local is None:
+                self.global_to_local()
+            if self._volumes_local is None:
+                logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
+                self.estimate_volume_mc(globalize=False)
+            self.set_densities_local(self._probabilities_local/self._volumes_local)
             self.local_to_global()
             return evaluate_pdf(self._prob_type, self, vals)
         else:
-- 
2.43.0


From de11f24194591140f0ecb9c5f1df44c4d2e1d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:33 +0000
Subject: [PATCH 39/92] fix: evaluate a Voronoi marginal with the current
 probabilities

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 4ca4339..f8a7f82 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -981,7 +981,7 @@ class sample_set_base(object):
         if self._prob_type == 'voronoi':
             if self._probabilities_local is None and self._probabilities is None:
                 raise wrong_input("Missing probabilities for Voronoi cells.")
-            if self._probabilities is None:
+            if self._probabilities_local is not None:
                 self.local_to_global()
             return evaluate_pdf_marginal(self._prob_type, self, vals, i)
         else:
-- 
2.43.0


From 707e9f01b0132c0df674ef8a90f481c961b39c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:34 +0000
Subject: [PATCH 40/92] fix: invert with the map of a single cluster

---
 bet/calculateP/calculateR.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 5c45305..982c755 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -49,7 +49,7 @@ def generate_output_kdes(discretization, bw_method=None):
     obs_kdes = []
     for i in range(num_clusters):
         if predict_set.get_cluster_maps() is not None:
-            if len(predict_set.get_cluster_maps()) > 1:
+            if len(predict_set.get_cluster_maps()[i]) > 1:
                 if predict_set.get_weights_init() is None:
                     predict_kdes.append(gaussian_kde(predict_set.get_cluster_maps()[i].T, bw_method=bw_method))
                 else:
@@ -72,7 +72,7 @@ def generate_output_kdes(discretization, bw_method=None):
                 predict_kdes.append(None)
 
         if obs_set.get_cluster_maps() is not None:
-            if len(obs_set.get_cluster_maps()) > 1:
+            if len(obs_set.get_cluster_maps()[i]) > 1:
                 obs_kdes.append(gaussian_kde(obs_set.get_cluster_maps()[i].T, bw_method=bw_method))
             else:
                 obs_kdes.append(None)
-- 
2.43.0


From eaf5d2a34c9ce88bc17d0137951908e36f51b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:34 +0000
Subject: [PATCH 41/92] fix: give each process its own part of the cluster
 labels

---
 bet/sampling/useLUQ.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/sampling/useLUQ.py b/bet/sampling/useLUQ.py
index d2ae747..95a490b 100644
--- a/bet/sampling/useLUQ.py
+++ b/bet/sampling/useLUQ.py
@@ -6,6 +6,7 @@ The module contains a class for interfacing between BET and LUQ.
 import numpy as np
 import bet.sample as sample
 import bet.util as util
+from bet.Comm import comm
 import logging
 
 class missing_module(Exception):
@@ -149,11 +150,11 @@ class useLUQ:
         out_dim = self.learn.num_pcs[0]
 
         predict_output = sample.sample_set(out_dim)
-        predict_output.set_region_local(self.learn.predict_labels)
+        predict_output.set_region_local(np.array_split(self.learn.predict_labels, comm.size)[comm.rank])
         predict_output.set_cluster_maps(self.learn.predict_maps)
 
         obs_output = sample.sample_set(out_dim)
-        obs_output.set_region_local(self.learn.obs_labels)
+        obs_output.set_region_local(np.array_split(self.learn.obs_labels, comm.size)[comm.rank])
         obs_output.set_cluster_maps(self.learn.obs_maps)
 
         # Prediction discretization
-- 
2.43.0


From 98aa570007635a5b2d9f7e0aa0319c81cdfa0601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:34 +0000
Subject: [PATCH 42/92] fix: evaluate time series for sets that hold only local
 values

---
 bet/sampling/useLUQ.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/sampling/useLUQ.py b/bet/sampling/useLUQ.py
index 95a490b..3856d40 100644
--- a/bet/sampling/useLUQ.py
+++ b/bet/sampling/useLUQ.py
@@ -73,12 +73,16 @@ class useLUQ:
         """
         Evaluate the model for the predicted time series.
         """
+        if self.predict_set.get_values() is None:
+            self.predict_set.local_to_global()
         self.predicted_time_series = self.lb_model(self.predict_set.get_values(), self.times)
 
     def get_obs(self):
         """
         Evaluate the model for the predicted time series.
         """
+        if self.obs_set.get_values() is None:
+            self.obs_set.local_to_global()
         self.obs_time_series = self.lb_model(self.obs_set.get_values(), self.times)
 
     def set_observed_time_series(self, obs_time_series):
-- 
2.43.0


From fd2b666c182c7f07b5894aced3ba0780aeb2bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:09 +0000
Subject: [PATCH 43/92] fix: save and load the sample sets of an interface to
 LUQ like any others

---
 bet/sampling/useLUQ.py | 8 ++++++--
 bet/util.py            | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bet/sampling/useLUQ.py b/bet/sampling/useLUQ.py
index 3856d40..d8f50cb 100644
--- a/bet/sampling/useLUQ.py
+++ b/bet/sampling/useLUQ.py
@@ -39,6 +39,8 @@ class useLUQ:
     Wrappers for interfacing BET with LUQ. Allows for the simple creation of `bet.sample.discretization` objects
     from LUQ output.
     """
+    #: List of attribute names for attributes which are sample sets
+    sample_set_names = ['predict_set', 'obs_set']
 
     def __init__(self, predict_set, lb_model, times, obs_set=None):
         """
@@ -179,9 +181,11 @@ class useLUQ:
 
     def local_to_global(self):
         """
-        Dummy function for saving.
+        Globalize the sample sets, for saving.
         """
-        pass
+        for name in self.sample_set_names:
+            if getattr(self, name) is not None:
+                getattr(self, name).local_to_global()
 
 
 
diff --git a/bet/util.py b/bet/util.py
index 3779829..be128df 100644
--- a/bet/util.py
+++ b/bet/util.py
@@ -313,9 +313,9 @@ def _refresh_local(loaded_set):
 
     :param loaded_set: Object loaded from the file
     """
+    for name in getattr(loaded_set, 'sample_set_names', []):
+        _refresh_local(getattr(loaded_set, name))
     if isinstance(loaded_set, bet.sample.discretization):
-        for name in loaded_set.sample_set_names:
-            _refresh_local(getattr(loaded_set, name))
         names = ['_io_ptr', '_emulated_ii_ptr', '_emulated_oo_ptr']
     else:
         names = getattr(loaded_set, 'array_names', [])
-- 
2.43.0


From 6fb1fe25ff8f69e9bb1c7b6786b49b0188cbf0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 44/92] fix: plot the input or output samples of a
 discretization in 3D

---
 bet/postProcess/plotDomains.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 0b5688e..5b2660e 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -393,9 +393,9 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-    scatter_3D_input(sample_obj, sample_nos, color,
-                     ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
-                     filename, file_extension, markersize)
+    scatter_3D(sample_obj, sample_nos, color,
+               ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
+               filename, file_extension, markersize)
 
 
 def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
@@ -454,9 +454,9 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-    scatter_3D_output(sample_obj, sample_nos, color,
-                      ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
-                      filename, file_extension, markersize)
+    scatter_3D(sample_obj, sample_nos, color,
+               ref_sample, save, interactive, xlabel, ylabel, zlabel, cbar_label,
+               filename, file_extension, markersize)
 
 
 def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
-- 
2.43.0


From 42690e05254c0c8449fa78558cf3fc21bffe1b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 45/92] fix: compare the names of colors by value

---
 bet/postProcess/plotDomains.py | 60 +++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 5b2660e..1bb64a8 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -169,19 +169,19 @@ def scatter_2D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -228,19 +228,19 @@ def scatter_2D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -377,19 +377,19 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -438,19 +438,19 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -947,19 +947,19 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_input_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
@@ -1006,19 +1006,19 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
 
     sample_obj = my_disc.get_output_sample_set()
 
-    if color is "volumes":
+    if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_volumes()
-    elif color is "probabilities":
+    elif isinstance(color, str) and color == "probabilities":
         cbar_label = r'$\P_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj.get_probabilities()
-    elif color is "radii":
+    elif isinstance(color, str) and color == "radii":
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
-    elif color is "normalized radii":
+    elif isinstance(color, str) and color == "normalized radii":
         cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
-    elif color is "error_id":
+    elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
         color = sample_obj.get_error_id()
 
-- 
2.43.0


From 43c1a7ab2da59568204e468cc3886d0d7f2fa7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 46/92] fix: plot projections of the samples of a
 discretization

---
 bet/postProcess/plotDomains.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 1bb64a8..c1cf058 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -912,7 +912,7 @@ def scatter_2D_multi(sample_obj, color=None, ref_sample=None,
 
 def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
                            img_folder='figs/', filename="scatter2Dm_input",
-                           label_char=r'$\lambda', showdim=None, file_extension=".png"):
+                           label_char=r'$\lambda', showdim=None, file_extension=".png", markersize=75):
     r"""
     Creates two-dimensional projections of scatter plots of samples colored
     by ``color`` (usually an array of pointwise probability density values). A
@@ -946,6 +946,7 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
         raise bad_object("Improper sample object")
 
     sample_obj = my_disc.get_input_sample_set()
+    cbar_label = None
 
     if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\Lambda(\mathcal{V}_{i,N})$'
@@ -1005,6 +1006,7 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
         raise bad_object("Improper sample object")
 
     sample_obj = my_disc.get_output_sample_set()
+    cbar_label = None
 
     if isinstance(color, str) and color == "volumes":
         cbar_label = r'$\mu_\mathcal{D}(\mathcal{I}_{j,M})$'
-- 
2.43.0


From 5e600d9f539e4256ec2f0b0fd3cc37a14d332f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 47/92] fix: save scatter plots with the requested file
 extension

---
 bet/postProcess/plotDomains.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index c1cf058..64ef8fc 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -548,7 +548,7 @@ def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
     if sample_obj.get_dim() == 2:
         scatter_2D(sample_obj, sample_nos, rD, ref_sample, save,
                    interactive, xlabel, ylabel, None, savename,
-                   markersize=markersize)
+                   file_extension, markersize=markersize)
     elif sample_obj.get_dim() > 2 and showdim == 2:
         temp_obj = sample.sample_set(2)
         for x, y in combinations(dim_nums, 2):
@@ -559,16 +559,16 @@ def scatter_rhoD(sample_obj, ref_sample=None, sample_nos=None, io_flag='input',
             if ref_sample is not None:
                 scatter_2D(temp_obj, sample_nos, rD, ref_sample[[x - 1, y - 1]], save,
                            interactive, xlabel, ylabel, None, savename,
-                           markersize=markersize)
+                           file_extension, markersize=markersize)
             else:
                 scatter_2D(temp_obj, sample_nos, rD, ref_sample, save,
                            interactive, xlabel, ylabel, None, savename,
-                           markersize=markersize)
+                           file_extension, markersize=markersize)
     elif sample_obj.get_dim() == 3:
         zlabel = label_char + r'{' + str(dim_nums[2]) + '}$'
         scatter_3D(sample_obj, sample_nos, rD, ref_sample, save,
                    interactive, xlabel, ylabel, zlabel, None, savename,
-                   markersize=markersize)
+                   file_extension, markersize=markersize)
     elif sample_obj.get_dim() > 3 and showdim == 3:
         temp_obj = sample.sample_set(3)
         for x, y, z in combinations(dim_nums, 3):
-- 
2.43.0


From 509ea4df0de42bb89b50afccb5d877712f836e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 48/92] fix: plot a data domain in a figure of its own

---
 bet/postProcess/plotDomains.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 64ef8fc..4342861 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -778,6 +778,7 @@ def show_data_domain_2D(sample_disc, Q_ref=None, ref_markers=None,
         Q_ref = util.fix_dimensions_data(Q_ref, 2)
 
     # Create figure
+    plt.figure()
     plt.tricontourf(data_obj.get_values()[:, 0],
                     data_obj.get_values()[:, 1],
                     triangles,
-- 
2.43.0


From c98990c99a5b5088d765e397f90ba86e48e21b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:09 +0000
Subject: [PATCH 49/92] fix: create the folder for plots once

---
 bet/postProcess/plotDomains.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 4342861..1f90d15 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -639,8 +639,7 @@ def show_data_domain_multi(sample_disc, Q_ref=None, Q_nums=None,
         showdim = 0
 
     # Create a folder for these figures if it doesn't already exist
-    if not os.path.isdir(img_folder):
-        os.mkdir(img_folder)
+    os.makedirs(img_folder, exist_ok=True)
 
     # Make sure the shape of Q_ref is correct
     if Q_ref is not None:
@@ -853,8 +852,7 @@ def scatter_2D_multi(sample_obj, color=None, ref_sample=None,
     if showdim is None:
         showdim = 0
     # Create a folder for these figures if it doesn't already exist
-    if not os.path.isdir(img_folder):
-        os.mkdir(img_folder)
+    os.makedirs(img_folder, exist_ok=True)
     # Create list of all the parameter coordinates
     p_nums = np.arange(sample_obj.get_dim())
 
-- 
2.43.0


From 633cc4d3386e32ebdb18f9c77fa91822ccce58d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:29 +0000
Subject: [PATCH 50/92] fix: write the file of a domain plot by one process

---
 bet/postProcess/plotDomains.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 1f90d15..3c10893 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -15,6 +15,7 @@ import matplotlib.pyplot as plt
 # plt.rc('font', family='serif')
 from matplotlib.lines import Line2D
 from mpl_toolkits.mplot3d import Axes3D
+from bet.Comm import comm
 import bet.sample as sample
 import bet.util as util
 
@@ -41,6 +42,20 @@ class bad_object(Exception):
     """
 
 
+def _savefig(filename, **kwargs):
+    """
+    Save the current figure. One process writes the file, and it is complete
+    on return.
+
+    :param string filename: name of the file
+    :param kwargs: passed to :meth:`matplotlib.pyplot.savefig`
+
+    """
+    if comm.rank == 0:
+        plt.savefig(filename, **kwargs)
+    comm.barrier()
+
+
 def scatter_2D(sample_obj, sample_nos=None, color=None, ref_sample=None,
                save=True, interactive=False, xlabel=r'$x$', ylabel=r'$y$', cbar_label=None,
                filename='scatter2d', file_extension=".png", markersize=75):
@@ -123,8 +138,8 @@ def scatter_2D(sample_obj, sample_nos=None, color=None, ref_sample=None,
             full_filename = filename + file_extension
         else:
             full_filename = filename
-        plt.savefig(full_filename, bbox_inches='tight', transparent=True,
-                    pad_inches=0)
+        _savefig(full_filename, bbox_inches='tight', transparent=True,
+                 pad_inches=0)
     if interactive:
         plt.show()
     else:
@@ -329,8 +344,8 @@ def scatter_3D(sample_obj, sample_nos=None, color=None, ref_sample=None,
             full_filename = filename + file_extension
         else:
             full_filename = filename
-        plt.savefig(full_filename, bbox_inches='tight', transparent=True,
-                    pad_inches=0)
+        _savefig(full_filename, bbox_inches='tight', transparent=True,
+                 pad_inches=0)
     if interactive:
         plt.show()
     else:
@@ -797,8 +812,8 @@ def show_data_domain_2D(sample_disc, Q_ref=None, ref_markers=None,
     else:
         full_filenames1 = filenames[1]
 
-    plt.savefig(full_filenames0, bbox_inches='tight', transparent=True,
-                pad_inches=.2)
+    _savefig(full_filenames0, bbox_inches='tight', transparent=True,
+             pad_inches=.2)
     # Add truth markers
     if Q_ref is not None:
         for i in range(Q_ref.shape[0]):
@@ -806,8 +821,8 @@ def show_data_domain_2D(sample_disc, Q_ref=None, ref_markers=None,
                         marker=ref_markers[i])
     plt.tight_layout()
     if save:
-        plt.savefig(full_filenames1, bbox_inches='tight', transparent=True,
-                    pad_inches=.2)
+        _savefig(full_filenames1, bbox_inches='tight', transparent=True,
+                 pad_inches=.2)
     if interactive:
         plt.show()
     else:
-- 
2.43.0


From 92c1bbbdf010721d76b2e1195752c71f938eb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:29 +0000
Subject: [PATCH 51/92] fix: plot the probability of every 1D Voronoi cell

---
 bet/postProcess/plotVoronoi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 82a429a..873c0ae 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -95,12 +95,12 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
     # Make plot
     if comm.rank == 0:
         fig = plt.figure(0, constrained_layout=True)
+        probabilities = sample_obj._probabilities[ind_sort[:, 0]]
         if density:
-            plt.hlines(
-                sample_obj._probabilities[ind_sort[0]] / (maxes - mins), mins, maxes)
+            plt.hlines(probabilities / (maxes - mins), mins, maxes)
             plt.ylabel(r'$\rho_{\lambda}$', fontsize=20)
         else:
-            plt.hlines(sample_obj._probabilities[ind_sort[0]], mins, maxes)
+            plt.hlines(probabilities, mins, maxes)
             plt.ylabel(r'$P_{\Lambda}(\mathcal{V}_i)$', fontsize=20)
 
         if lam_ref is not None:
-- 
2.43.0


From 5141f0f7791fee7679d07d641e15900e847633df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:29 +0000
Subject: [PATCH 52/92] fix: label both axes of a 2D Voronoi plot

---
 bet/postProcess/plotVoronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 873c0ae..3ac8c5e 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -208,7 +208,7 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
             label2 = r'$\lambda_2$'
         else:
             label1 = lambda_label[0]
-            label1 = lambda_label[1]
+            label2 = lambda_label[1]
         plt.xlabel(label1, fontsize=20)
         plt.ylabel(label2, fontsize=20)
 
-- 
2.43.0


From f556c233c3986edceeb7fff769e76c7ae5bfcc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:29 +0000
Subject: [PATCH 53/92] fix: finish a Voronoi plot before it is used and before
 the next one

---
 bet/postProcess/plotVoronoi.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 3ac8c5e..824dcee 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -115,6 +115,9 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
         fig.savefig(filename + file_extension)
         if interactive:
             plt.show()
+        else:
+            plt.close(fig)
+    comm.barrier()
 
 
 def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
@@ -227,6 +230,9 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
         fig.savefig(filename + file_extension)
         if interactive:
             plt.show()
+        else:
+            plt.close(fig)
+    comm.barrier()
 
 
 def voronoi_finite_polygons_2d(vor, radius=None):
-- 
2.43.0


From 4ce285adcdb2d9d55f5ee415a15e044c56c2bad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:29 +0000
Subject: [PATCH 54/92] fix: plot 1D Voronoi cells of local values

---
 bet/postProcess/plotVoronoi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 824dcee..4fac7b6 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -80,6 +80,8 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
             raise missing_attribute("Missing probabilities")
         else:
             sample_obj.local_to_global()
+    if sample_obj._values is None:
+        sample_obj.local_to_global()
 
     if lam_ref is None:
         lam_ref = sample_obj._reference_value
-- 
2.43.0


From f9b2b013d7bb5611553cba7bb00b5371b32ef811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:29 +0000
Subject: [PATCH 55/92] fix: surface plots of marginals

---
 bet/postProcess/plotP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 26fe098..1b24ff4 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -340,7 +340,7 @@ def plot_2D_marginal_probs(marginals, bins, sample_set,
         if plot_surface:
             for k, (i, j) in enumerate(pairs):
                 fig = plt.figure(k)
-                ax = fig.gca(projection='3d')
+                ax = fig.add_subplot(111, projection='3d')
                 X = bins[i][:-1] + np.diff(bins[i]) / 2
                 Y = bins[j][:-1] + np.diff(bins[j]) / 2
                 X, Y = np.meshgrid(X, Y, indexing='ij')
-- 
2.43.0


From 878dd4bd513c005e08404eff6708f0ac4d42f9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:29 +0000
Subject: [PATCH 56/92] fix: save a plot of marginal densities by one process

---
 bet/postProcess/plotP.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 1b24ff4..76a7b7d 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -669,5 +669,6 @@ def plot_1d_marginal_densities(sets, i, interval=None, num_points=1000, label=No
     plt.legend(fontsize=16)
     if interactive:
         plt.show()
-    if savefile is not None:
-        plt.savefig(savefile)
+    if savefile is not None and comm.rank == 0:
+        fig.savefig(savefile)
+    comm.barrier()
-- 
2.43.0


From 3fda45b184432114c75f96f2e2b6d4c6be4de36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:09 +0000
Subject: [PATCH 57/92] fix: label of plots colored by normalized radii

---
 bet/postProcess/plotDomains.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/plotDomains.py b/bet/postProcess/plotDomains.py
index 3c10893..4d7c8cd 100644
--- a/bet/postProcess/plotDomains.py
+++ b/bet/postProcess/plotDomains.py
@@ -194,7 +194,7 @@ def scatter_2D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda,norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -253,7 +253,7 @@ def scatter_2D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D},norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -402,7 +402,7 @@ def scatter_3D_input(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda,norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -463,7 +463,7 @@ def scatter_3D_output(my_disc, sample_nos=None, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D},norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -972,7 +972,7 @@ def scatter_2D_multi_input(my_disc, color=None, ref_sample=None,
         cbar_label = r'$diam_\Lambda(\mathcal{V}_{i,N})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\Lambda_{norm}(\mathcal{V}_{i,N})$'
+        cbar_label = r'$diam_{\Lambda,norm}(\mathcal{V}_{i,N})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
@@ -1032,7 +1032,7 @@ def scatter_2D_multi_output(my_disc, color=None, ref_sample=None,
         cbar_label = r'$diam_\mathcal{D}(\mathcal{I}_{j,M})$'
         color = sample_obj._radii
     elif isinstance(color, str) and color == "normalized radii":
-        cbar_label = r'$diam_\mathcal{D}_{norm}(\mathcal{I}_{j,M})$'
+        cbar_label = r'$diam_{\mathcal{D},norm}(\mathcal{I}_{j,M})$'
         color = sample_obj._normalized_radii
     elif isinstance(color, str) and color == "error_id":
         cbar_label = 'error id'
-- 
2.43.0


From 5d424ef188368743f1bc04ca07cb0173025f4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:15 +0000
Subject: [PATCH 58/92] fix: do not draw over an open figure

---
 bet/postProcess/plotP.py       | 8 ++++----
 bet/postProcess/plotVoronoi.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bet/postProcess/plotP.py b/bet/postProcess/plotP.py
index 76a7b7d..6dbc77f 100644
--- a/bet/postProcess/plotP.py
+++ b/bet/postProcess/plotP.py
@@ -221,7 +221,7 @@ def plot_1D_marginal_probs(marginals, bins, sample_set,
         for i in index:
             x_range = np.linspace(lam_domain[i, 0], lam_domain[i, 1],
                                   len(bins[i]) - 1)
-            fig = plt.figure(i)
+            fig = plt.figure(i, clear=True)
             ax = fig.add_subplot(111)
             ax.plot(x_range, marginals[i] / (bins[i][1] - bins[i][0]))
             ax.set_ylim(
@@ -302,7 +302,7 @@ def plot_2D_marginal_probs(marginals, bins, sample_set,
     if comm.rank == 0:
         pairs = sorted(copy.deepcopy(list(marginals.keys())))
         for k, (i, j) in enumerate(pairs):
-            fig = plt.figure(k)
+            fig = plt.figure(k, clear=True)
             ax = fig.add_subplot(111)
             boxSize = (bins[i][1] - bins[i][0]) * (bins[j][1] - bins[j][0])
             quadmesh = ax.imshow(marginals[(i, j)].transpose() / boxSize,
@@ -339,7 +339,7 @@ def plot_2D_marginal_probs(marginals, bins, sample_set,
 
         if plot_surface:
             for k, (i, j) in enumerate(pairs):
-                fig = plt.figure(k)
+                fig = plt.figure(k, clear=True)
                 ax = fig.add_subplot(111, projection='3d')
                 X = bins[i][:-1] + np.diff(bins[i]) / 2
                 Y = bins[j][:-1] + np.diff(bins[j]) / 2
@@ -517,7 +517,7 @@ def plot_2D_marginal_contours(marginals, bins, sample_set,
     if comm.rank == 0:
         pairs = sorted(copy.deepcopy(list(marginals.keys())))
         for k, (i, j) in enumerate(pairs):
-            fig = plt.figure(k)
+            fig = plt.figure(k, clear=True)
             ax = fig.add_subplot(111)
             boxSize = (bins[i][1] - bins[i][0]) * (bins[j][1] - bins[j][0])
             nx = len(bins[i]) - 1
diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 4fac7b6..05fd4e4 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -96,7 +96,7 @@ def plot_1D_voronoi(sample_set, density=True, filename="file",
 
     # Make plot
     if comm.rank == 0:
-        fig = plt.figure(0, constrained_layout=True)
+        fig = plt.figure(0, clear=True, constrained_layout=True)
         probabilities = sample_obj._probabilities[ind_sort[:, 0]]
         if density:
             plt.hlines(probabilities / (maxes - mins), mins, maxes)
@@ -189,7 +189,7 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
         points = sample_obj._values
 
         # Make plot
-        fig = plt.figure(0, constrained_layout=True)
+        fig = plt.figure(0, clear=True, constrained_layout=True)
         cmap = matplotlib.cm.get_cmap(colormap_type)
         if density:
             P = sample_obj._probabilities / sample_obj._volumes
-- 
2.43.0


From e29cc162f5024b04c8605f41418de44e159858cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:04 +0000
Subject: [PATCH 59/92] fix: draw unbounded Voronoi cells far enough to cover
 their samples

---
 bet/postProcess/plotVoronoi.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 05fd4e4..0bc2d86 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -265,7 +265,9 @@ def voronoi_finite_polygons_2d(vor, radius=None):
 
     center = vor.points.mean(axis=0)
     if radius is None:
-        radius = vor.points.ptp().max()
+        # far beyond all points and vertices, which may lie far away themselves
+        radius = 1.0e3 * (vor.points.ptp() +
+                          np.abs(vor.vertices - center).max())
 
     # Construct a map containing all ridges for a given point
     all_ridges = {}
-- 
2.43.0


From 04d03580cc692c07f931df8da8de39b5e653ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:01 +0000
Subject: [PATCH 60/92] fix: accept a list as rectangle size of the uniform
 output distribution

The documented list form raised on the process drawing the bins and left
the others waiting.
---
 bet/calculateP/simpleFunP.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index af76e47..d40260a 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -174,6 +174,8 @@ def uniform_partition_uniform_distribution_rectangle_size(data_set,
         raise wrong_argument_type("Rectangle size required.")
     elif not isinstance(rect_size, collections.abc.Iterable):
         rect_size = rect_size * np.ones((dim,))
+    else:
+        rect_size = np.array(rect_size)
     if np.any(np.less_equal(rect_size, 0)):
         msg = 'rect_size must be greater than 0'
         raise wrong_argument_type(msg)
-- 
2.43.0


From ea821519d0554f216d0d80bd5636a3b0f0e785ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:39 +0000
Subject: [PATCH 61/92] fix: compare sample sets and discretizations by their
 contents

Comparing raised when a field was missing in one object or was a list of
arrays, took arrays of different lengths for equal when they broadcast, and
told kernel estimates of a copy apart from the original's.
---
 bet/sample.py | 76 ++++++++++++++++++++++-----------------------------
 1 file changed, 33 insertions(+), 43 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index f8a7f82..8d9f898 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -158,6 +158,35 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         raise wrong_input("This type of probability density is not yet supported.")
 
 
+def _same_contents(mine, other):
+    """
+    Compares the contents of a field of two objects.
+
+    :param mine: contents of the field of one object
+    :param other: contents of the field of the other object
+    :rtype: bool
+    :returns: True if the contents are equal
+    """
+    if isinstance(mine, np.ndarray) or isinstance(other, np.ndarray):
+        return isinstance(mine, np.ndarray) and isinstance(other, np.ndarray) \
+            and np.array_equal(mine, other)
+    if isinstance(mine, (list, tuple)):
+        return type(mine) is type(other) and len(mine) == len(other) \
+            and all(_same_contents(x, y) for x, y in zip(mine, other))
+    if isinstance(mine, dict) and isinstance(other, dict):
+        return mine.keys() == other.keys() \
+            and all(_same_contents(mine[key], other[key]) for key in mine)
+    if isinstance(mine, scipy.stats.gaussian_kde) \
+            and isinstance(other, scipy.stats.gaussian_kde):
+        return all(np.array_equal(getattr(mine, name), getattr(other, name))
+                   for name in ('dataset', 'weights', 'covariance'))
+    if mine is None or other is None:
+        return mine is other
+    if isinstance(mine, sample_set_base) and type(mine) is not type(other):
+        return False
+    return bool(mine == other)
+
+
 class sample_set_base(object):
     """
 
@@ -300,32 +329,8 @@ class sample_set_base(object):
         :rtype: bool
         """
         if self.__class__ == other.__class__:
-            fields = self.meta_fields
-            for field in fields:
-                if type(getattr(self, field)) is np.ndarray:
-                    if np.any(getattr(self, field) != getattr(other, field)):
-                        return False
-                elif field == "_cluster_maps":
-                    cluster_maps = getattr(self, field)
-                    cluster_maps_other = getattr(other, field)
-                    if type(cluster_maps_other) != type(cluster_maps):
-                        return False
-                    if type(cluster_maps) is list:
-                        for k in range(len(cluster_maps)):
-                            if not np.array_equal(cluster_maps[k], cluster_maps_other[k]):
-                                return False
-                elif type(getattr(self, field)) is list:
-                    compare = getattr(self, field) == getattr(other, field)
-                    if type(compare) is bool:
-                        if compare is False:
-                            return False
-                    else:
-                        if compare.any() is False:
-                            return False
-                else:
-                    if getattr(self, field) != getattr(other, field):
-                        return False
-            return True
+            return all(_same_contents(getattr(self, field), getattr(other, field))
+                       for field in self.meta_fields)
         else:
             raise TypeError('Comparing object is not of the same type.')
 
@@ -2326,23 +2331,8 @@ class discretization(object):
         :rtype: bool
         """
         if self.__class__ == other.__class__:
-            fields = self.sample_set_names + self.vector_names
-            for field in fields:
-                if type(getattr(self, field)) is np.ndarray:
-                    if np.any(getattr(self, field) != getattr(other, field)):
-                        return False
-                elif type(getattr(self, field)) is list:
-                    compare = getattr(self, field) == getattr(other, field)
-                    if compare is bool:
-                        if compare is False:
-                            return False
-                    else:
-                        if compare.any() is False:
-                            return False
-                else:
-                    if getattr(self, field) != getattr(other, field):
-                        return False
-            return True
+            return all(_same_contents(getattr(self, field), getattr(other, field))
+                       for field in self.sample_set_names + self.vector_names)
         else:
             raise TypeError('Comparing object is not of the same type.')
 
-- 
2.43.0


From 7e235c7eb1fe20d80d21498a6d7197b8df5b367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:39 +0000
Subject: [PATCH 62/92] fix: scale local densities by the domain like global
 ones

---
 bet/sample.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 8d9f898..96388be 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1185,8 +1185,12 @@ class sample_set_base(object):
         else:
             msg = "Setting densities with probability/volume."
             logging.warning(msg)
+            if self._domain is None:
+                total_vol = 1.0
+            else:
+                total_vol = np.product(self._domain[:, 1] - self._domain[:, 0])
             probs = self._probabilities_local
-            vols = self._volumes_local
+            vols = self._volumes_local * total_vol
             self._densities_local = probs / vols
 
     def get_densities_local(self):
-- 
2.43.0


From b92153b995de2a324c3efe1d8e8026a1bd421348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:32 +0000
Subject: [PATCH 63/92] fix: forget the global pointers of emulated sets when
 only local ones are renewed

---
 bet/sample.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 96388be..2ca99ee 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2456,6 +2456,9 @@ class discretization(object):
         if globalize:
             self._emulated_ii_ptr = util.get_global_values(
                 self._emulated_ii_ptr_local)
+        else:
+            # a global pointer made earlier is out of date
+            self._emulated_ii_ptr = None
 
     def get_emulated_ii_ptr(self):
         """
@@ -2497,6 +2500,9 @@ class discretization(object):
         if globalize:
             self._emulated_oo_ptr = util.get_global_values(
                 self._emulated_oo_ptr_local)
+        else:
+            # a global pointer made earlier is out of date
+            self._emulated_oo_ptr = None
 
     def get_emulated_oo_ptr(self):
         """
-- 
2.43.0


From eb39ad4e1a353b509d04576a128a3210131059b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:36 +0000
Subject: [PATCH 64/92] fix: forget the emulated output pointer when a simple
 function replaces the output distribution

---
 bet/calculateP/simpleFunP.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index d40260a..72d929d 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -252,6 +252,7 @@ def uniform_partition_uniform_distribution_rectangle_size(data_set,
     '''
     if isinstance(data_set, samp.discretization):
         data_set._output_probability_set = s_set
+        data_set._forget_ptrs('_emulated_oo_ptr')
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -423,6 +424,7 @@ def regular_partition_uniform_distribution_rectangle_size(data_set, Q_ref=None,
 
     if isinstance(data_set, samp.discretization):
         data_set._output_probability_set = s_set
+        data_set._forget_ptrs('_emulated_oo_ptr')
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -554,6 +556,7 @@ def uniform_partition_uniform_distribution_data_samples(data_set):
 
     if isinstance(data_set, samp.discretization):
         data_set._output_probability_set = s_set
+        data_set._forget_ptrs('_emulated_oo_ptr')
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -651,6 +654,7 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     # solving the model EVER! This can be done "offline" so to speak.
     if isinstance(data_set, samp.discretization):
         data_set._output_probability_set = s_set
+        data_set._forget_ptrs('_emulated_oo_ptr')
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -736,6 +740,7 @@ def uniform_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     # solving the model EVER! This can be done "offline" so to speak.
     if isinstance(data_set, samp.discretization):
         data_set._output_probability_set = s_set
+        data_set._forget_ptrs('_emulated_oo_ptr')
         data_set.set_io_ptr(globalize=False)
     return s_set
 
@@ -843,5 +848,6 @@ def user_partition_user_distribution(data_set, data_partition_set,
 
     if isinstance(data_set, samp.discretization):
         data_set._output_probability_set = s_set
+        data_set._forget_ptrs('_emulated_oo_ptr')
         data_set.set_io_ptr(globalize=False)
     return s_set
-- 
2.43.0


From b3584ace4cdec0a2566138bd04ed800c5bcd8888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:19 +0000
Subject: [PATCH 65/92] fix: forget search tree and bounding box when local
 values replace the global ones

Appending local values after a lookup left a search tree of another length,
and counting or distributing the samples raised.
---
 bet/sample.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 2ca99ee..338daf7 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -694,6 +694,7 @@ class sample_set_base(object):
         """
         self._values_local = np.concatenate((self._values_local,
                                              util.fix_dimensions_data(values_local, self._dim)), 0)
+        self._kdtree_values_local = None
 
     def clip(self, cnum):
         """
@@ -1091,6 +1092,7 @@ class sample_set_base(object):
 
         """
         self._values_local = util.fix_dimensions_data(values_local, self._dim)
+        self._kdtree_values_local = None
         if len(self._values_local.shape) > 1 and \
                 self._values_local.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
@@ -1249,11 +1251,18 @@ class sample_set_base(object):
         """
         Makes global arrays from available local ones.
         """
+        values = self._values
         for array_name in self.array_names:
             current_array_local = getattr(self, array_name + "_local")
             if current_array_local is not None:
                 setattr(self, array_name,
                         util.get_global_values(current_array_local))
+        if not np.array_equal(values, self._values):
+            # the search tree and bounding box belong to the earlier values
+            self._kdtree = None
+            self._bounding_box = None
+            if self._kdtree_values_local is None:
+                self._kdtree_values = None
 
     def query(self, x, k=1):
         """
-- 
2.43.0


From cf17b969ff9c76cac851bfa241994123a45b572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:30 +0000
Subject: [PATCH 66/92] fix: name the shape parameters of a fitted random
 variable as its distribution does

Every first shape parameter was called a; densities and samples of fits with
a differently named one (weibull_min, lognorm, t) raised.
---
 bet/calculateP/calculateR.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 982c755..6bbcca3 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -391,20 +391,11 @@ def invert_to_random_variable(discretization, rv, num_reweighted=10000, bw_metho
         pp = [rv[i][0], {}]
         rv_continuous = getattr(stats, rv[i][0])
         A = rv_continuous.fit(reweighted_vals[:, i], **rv[i][1])
-        if len(A) == 2:
-            pp[1]['loc'] = A[0]
-            pp[1]['scale'] = A[1]
-        elif len(A) == 3:
-            pp[1]['a'] = A[0]
-            pp[1]['loc'] = A[1]
-            pp[1]['scale'] = A[2]
-        elif len(A) == 4:
-            pp[1]['a'] = A[0]
-            pp[1]['b'] = A[1]
-            pp[1]['loc'] = A[2]
-            pp[1]['scale'] = A[3]
-        else:
+        if len(A) > 4:
             raise bet.sample.wrong_input("Type of random variable is not currently supported.")
+        # shape parameters go by the names they have for this random variable
+        shapes = [] if rv_continuous.shapes is None else rv_continuous.shapes.split(', ')
+        pp[1].update(zip(shapes + ['loc', 'scale'], A))
         prob_params.append(pp)
     discretization.get_input_sample_set().set_prob_type('rv')
     discretization.get_input_sample_set().set_prob_parameters(prob_params)
-- 
2.43.0


From 75906fbac04c5ed6f899c3b646ab08bd3fde832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:53 +0000
Subject: [PATCH 67/92] fix: map the reference value with models that return
 tuples or need rows of samples

Setting a reference input made evaluating the model raise when the model
returned error estimates or Jacobians, could not take a single sample as a
flat array, or returned its result as a row.
---
 bet/sampling/basicSampling.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index b9b0f31..4b696f1 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -511,15 +511,19 @@ class sampler(object):
                 if not isinstance(lam_ref, collections.abc.Iterable):
                     lam_ref = np.array([lam_ref])
                 Q_ref = self.lb_model(lam_ref)
-                output_sample_set.set_reference_value(Q_ref)
-            except ValueError:
+                if isinstance(Q_ref, tuple):
+                    Q_ref = Q_ref[0]
+                output_sample_set.set_reference_value(np.reshape(Q_ref, (output_dim,)))
+            except (ValueError, IndexError):
                 try:
                     msg = "Model not mapping reference value as expected."
                     msg += "Attempting reshape..."
                     logging.log(20, msg)
                     q_ref = self.lb_model(lam_ref.reshape(1, -1))
-                    output_sample_set.set_reference_value(q_ref)
-                except ValueError:
+                    if isinstance(q_ref, tuple):
+                        q_ref = q_ref[0]
+                    output_sample_set.set_reference_value(np.reshape(q_ref, (output_dim,)))
+                except (ValueError, IndexError):
                     logging.log(20, 'Unable to map reference value.')
 
         if self.error_estimates:
-- 
2.43.0


From 24a06f7876d4e6a11fb04185c18e0ebe46c715d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:23 +0000
Subject: [PATCH 68/92] fix: return every QoI set of equal skewness or measure

find_good_sets dropped all but one of the sets with the same value, so
chooseOptQoIs_large missed optimal sets and returned fewer than asked for.
---
 bet/sensitivity/chooseQoIs.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index 07add0a..dfb34c5 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -550,16 +550,12 @@ def find_good_sets(input_set, good_sets_prev, unique_indices,
         # Organize the best sets
         best_sets = best_sets.reshape(num_optsets_return *
                                       comm.size, num_qois_return + 1)
-        [_, uniq_inds_best] = np.unique(best_sets[:, 0], return_index=True)
-        uniq_inds_best = uniq_inds_best[:num_optsets_return]
-        best_sets = best_sets[uniq_inds_best, :]
+        order = best_sets[:, 0].argsort()[:num_optsets_return]
+        best_sets = best_sets[order, :]
 
         # Keep the singular values in the order of the best sets
-        singvals = np.concatenate(optsingvals_tensor, axis=2)
-        optsingvals_tensor = np.zeros([num_centers, num_qois_return,
-                                       num_optsets_return])
-        optsingvals_tensor[:, :, :len(uniq_inds_best)] = \
-            singvals[:, :, uniq_inds_best]
+        optsingvals_tensor = np.concatenate(optsingvals_tensor, axis=2)
+        optsingvals_tensor = optsingvals_tensor[:, :, order]
 
         # Organize the good sets
         good_sets_new = np.zeros([1, num_qois_return])
-- 
2.43.0


From 718e9f02fb875e95e3934b12a1784a57f2a82290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:44 +0000
Subject: [PATCH 69/92] fix: values of the wrong dimension are refused before
 they replace the old ones

---
 bet/sample.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 338daf7..77f76d9 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -820,10 +820,11 @@ class sample_set_base(object):
         :type values: :class:`numpy.ndarray` of shape (num, dim)
 
         """
-        self._values = util.fix_dimensions_data(values, self._dim)
-        self._forget_kdtree()
-        if self._values.shape[1] != self._dim:
+        values = util.fix_dimensions_data(values, self._dim)
+        if values.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
+        self._values = values
+        self._forget_kdtree()
 
     def get_values(self):
         """
@@ -1091,11 +1092,12 @@ class sample_set_base(object):
         :type values_local: :class:`numpy.ndarray` of shape (local_num, dim)
 
         """
-        self._values_local = util.fix_dimensions_data(values_local, self._dim)
-        self._kdtree_values_local = None
-        if len(self._values_local.shape) > 1 and \
-                self._values_local.shape[1] != self._dim:
+        values_local = util.fix_dimensions_data(values_local, self._dim)
+        if len(values_local.shape) > 1 and \
+                values_local.shape[1] != self._dim:
             raise dim_not_matching("dimension of values incorrect")
+        self._values_local = values_local
+        self._kdtree_values_local = None
 
     def set_kdtree(self):
         """
-- 
2.43.0


From 4edaedb88592a7098a6237aa0aee2e51f3300449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:44 +0000
Subject: [PATCH 70/92] fix: set_domain refuses arrays that do not have two
 columns

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 77f76d9..b1cdad5 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -844,7 +844,7 @@ class sample_set_base(object):
         :type domain: :class:`numpy.ndarray` of shape (dim, 2)
 
         """
-        if (domain.shape[0], 2) != (self._dim, 2):
+        if domain.shape != (self._dim, 2):
             raise dim_not_matching("dimension of values incorrect")
         else:
             self._domain = domain
-- 
2.43.0


From 10d718ae6333771867717e62849ae16cd6ca3953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:08 +0000
Subject: [PATCH 71/92] fix: a cell is returned at most once per point when
 several are queried

---
 bet/sample.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index b1cdad5..9783a3b 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2020,15 +2020,12 @@ class rectangle_sample_set(sample_set_base):
             in_l = np.all(np.greater(x, self._left[i, :]), axis=1)
             in_rec = np.logical_and(in_r, in_l)
             for j in range(k):
-                if j == 0:
-                    in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
-                                                in_rec)
-                else:
-                    in_rec_now = np.logical_and(np.logical_and(
-                        np.equal(pt[:, j], num - 1), in_rec),
-                        np.not_equal(pt[:, j - 1], i))
+                in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
+                                            in_rec)
                 pt[:, j][in_rec_now] = i
                 dist[:, j][in_rec_now] = 0.0
+                # each cell is returned once for a point
+                in_rec = np.logical_and(in_rec, np.logical_not(in_rec_now))
         if k == 1:
             dist = dist[:, 0]
             pt = pt[:, 0]
@@ -2191,15 +2188,12 @@ class ball_sample_set(sample_set_base):
             in_rec = np.less(linalg.norm(x - self._values[i, :], self._p_norm,
                                          axis=1), self._radii[i])
             for j in range(k):
-                if j == 0:
-                    in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
-                                                in_rec)
-                else:
-                    in_rec_now = np.logical_and(np.logical_and(
-                        np.equal(pt[:, j], num - 1), in_rec),
-                        np.not_equal(pt[:, j - 1], i))
+                in_rec_now = np.logical_and(np.equal(pt[:, j], num - 1),
+                                            in_rec)
                 pt[:, j][in_rec_now] = i
                 dist[:, j][in_rec_now] = 0.0
+                # each cell is returned once for a point
+                in_rec = np.logical_and(in_rec, np.logical_not(in_rec_now))
         if k == 1:
             dist = dist[:, 0]
             pt = pt[:, 0]
-- 
2.43.0


From 422ae012b012dcb3358c0a2a02979949c1bdeaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:55 +0000
Subject: [PATCH 72/92] fix: local volumes of sets with cells too small to be
 hit by the emulated points

---
 bet/sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 9783a3b..88552fb 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1751,11 +1751,11 @@ class voronoi_sample_set(sample_set_base):
         if np.sum(sample_radii <= 0) > 0:
             # Calculate the pairwise distances
             if not np.isinf(self._p_norm):
-                pairwise_distance = spatial.distance.pdist(samples,
+                pairwise_distance = spatial.distance.pdist(samples, 'minkowski',
                                                            p=self._p_norm)
             else:
                 pairwise_distance = spatial.distance.pdist(samples,
-                                                           p='chebyshev')
+                                                           'chebyshev')
             pairwise_distance = spatial.distance.squareform(pairwise_distance)
             pairwise_distance_ma = np.ma.masked_less_equal(pairwise_distance,
                                                            0.)
-- 
2.43.0


From a6129712fdd523d99a49fa71bfbccc8dd7c01978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:59 +0000
Subject: [PATCH 73/92] fix: widths, search tree and bounding box follow the
 values when a domain is normalized

---
 bet/sample.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bet/sample.py b/bet/sample.py
index 88552fb..d545dea 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -374,6 +374,13 @@ class sample_set_base(object):
                     val = val / (self._domain[:, 1] - self._domain[:, 0])
                     setattr(self, obj, val)
 
+            for obj in ['_width', '_width_local']:
+                val = getattr(self, obj)
+                if val is not None:
+                    val = val / (self._domain[:, 1] - self._domain[:, 0])
+                    setattr(self, obj, val)
+
+            self._forget_kdtree()
             self._domain_original = np.copy(self._domain)
             self._domain = np.repeat([[0.0, 1.0]], self._dim, axis=0)
 
@@ -415,6 +422,15 @@ class sample_set_base(object):
                     val = val + self._domain_original[:, 0]
                     setattr(self, obj, val)
 
+            for obj in ['_width', '_width_local']:
+                val = getattr(self, obj)
+                if val is not None:
+                    val = val * \
+                        (self._domain_original[:, 1] -
+                         self._domain_original[:, 0])
+                    setattr(self, obj, val)
+
+            self._forget_kdtree()
             self._domain = np.copy(self._domain_original)
             self._domain_original = None
 
-- 
2.43.0


From 4fa4402cdc0c70b8764886f651fa5fba3b9ed421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:59 +0000
Subject: [PATCH 74/92] fix: sets whose contents include NaN equal their copies

---
 bet/sample.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index d545dea..0ea002b 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -168,8 +168,12 @@ def _same_contents(mine, other):
     :returns: True if the contents are equal
     """
     if isinstance(mine, np.ndarray) or isinstance(other, np.ndarray):
-        return isinstance(mine, np.ndarray) and isinstance(other, np.ndarray) \
-            and np.array_equal(mine, other)
+        if not (isinstance(mine, np.ndarray)
+                and isinstance(other, np.ndarray)):
+            return False
+        # the cells around a union of balls and failed model runs are NaN
+        return np.array_equal(mine, other, equal_nan=(mine.dtype.kind in 'fc'
+                                                      and other.dtype.kind in 'fc'))
     if isinstance(mine, (list, tuple)):
         return type(mine) is type(other) and len(mine) == len(other) \
             and all(_same_contents(x, y) for x, y in zip(mine, other))
-- 
2.43.0


From eed9417fecb8982c759b5a6adf11e033655a0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:09 +0000
Subject: [PATCH 75/92] fix: a merged sample set keeps the norm that defines
 its cells

---
 bet/sample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bet/sample.py b/bet/sample.py
index 0ea002b..779d52f 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1863,6 +1863,7 @@ class voronoi_sample_set(sample_set_base):
 
         # create merged set
         mset = voronoi_sample_set(self._dim)
+        mset.set_p_norm(self._p_norm)
 
         # set domain
         if self._domain is not None:
-- 
2.43.0


From 0f320632c50bb5e285db607dd30f7aecd913c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:15 +0000
Subject: [PATCH 76/92] fix: merge discretizations of which only one has
 emulated samples

---
 bet/sample.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 779d52f..853102a 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -2817,13 +2817,21 @@ class discretization(object):
         mi = self._input_sample_set.merge(disc._input_sample_set)
         mo = self._output_sample_set.merge(disc._output_sample_set)
         mei = None
-        if self._emulated_input_sample_set is not None or \
-                disc._emulated_input_sample_set is not None:
+        if self._emulated_input_sample_set is None:
+            if disc._emulated_input_sample_set is not None:
+                mei = disc._emulated_input_sample_set.copy()
+        elif disc._emulated_input_sample_set is None:
+            mei = self._emulated_input_sample_set.copy()
+        else:
             mei = self._emulated_input_sample_set.merge(
                 disc._emulated_input_sample_set)
         meo = None
-        if self._emulated_output_sample_set is not None or \
-                disc._emulated_output_sample_set is not None:
+        if self._emulated_output_sample_set is None:
+            if disc._emulated_output_sample_set is not None:
+                meo = disc._emulated_output_sample_set.copy()
+        elif disc._emulated_output_sample_set is None:
+            meo = self._emulated_output_sample_set.copy()
+        else:
             meo = self._emulated_output_sample_set.merge(
                 disc._emulated_output_sample_set)
 
-- 
2.43.0


From 71be7cc9e79a85537a2f80871ef2a1b48021ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:08 +0000
Subject: [PATCH 77/92] fix: the skewness of gradients that are dependent up to
 rounding error is infinite

---
 bet/sensitivity/chooseQoIs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bet/sensitivity/chooseQoIs.py b/bet/sensitivity/chooseQoIs.py
index dfb34c5..fc25dd4 100644
--- a/bet/sensitivity/chooseQoIs.py
+++ b/bet/sensitivity/chooseQoIs.py
@@ -109,6 +109,10 @@ def calculate_avg_skewness(input_set, qoi_set=None):
     # The measure of the parallelepipeds defined by the rows of each Jacobian
     muG = np.tile(np.prod(singvals, axis=1), [output_dim, 1]).transpose()
 
+    # It is zero if the rows are linearly dependent up to rounding error
+    eps = np.finfo(float).eps * max(G.shape[1:])
+    muG[singvals[:, -1] <= eps * singvals[:, 0]] = 0.0
+
     # Calculate the measure of the parallelepipeds defined by the rows of each
     # Jacobian if we remove the i'th row.
     muGi = np.zeros([num_centers, output_dim])
-- 
2.43.0


From f9c5fe7d95952314494b182bbf00c437ee7a8152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:43 +0000
Subject: [PATCH 78/92] fix: the search tree keeps its own copy of the values,
 so that edits in place are seen

---
 bet/sample.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index 853102a..9f26b9f 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -1123,7 +1123,7 @@ class sample_set_base(object):
         """
         Creates a :class:`scipy.spatial.KDTree` for this set of samples.
         """
-        self._kdtree = spatial.KDTree(self._values)
+        self._kdtree = spatial.KDTree(self._values, copy_data=True)
         self._kdtree_values = self._kdtree.data
 
     def _forget_kdtree(self):
-- 
2.43.0


From cb82fae9e6d93ba320d150d2a96435363285b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:12 +0000
Subject: [PATCH 79/92] fix: density-based inversion with a cluster label that
 no sample carries

---
 bet/calculateP/calculateR.py  | 8 ++++++--
 bet/sample.py                 | 6 ++++++
 bet/sampling/basicSampling.py | 2 ++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index 6bbcca3..df39d3e 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -188,6 +188,8 @@ def invert_rejection_sampling(discretization, bw_method=None):
     discretization.get_input_sample_set().local_to_global()
     new_vals = []
     for i in range(num_clusters):
+        if r[i] is None:
+            continue
         check = np.random.uniform(low=0, high=1, size=r[i].size)  # create random uniform weights to check r against
         check = comm.bcast(check, root=0)  # the same weights on every process
         new_r = r[i] / np.max(r[i])  # normalize weights
@@ -311,7 +313,8 @@ def invert_to_multivariate_gaussian(discretization, bw_method=None):
 
     for i in range(num_clusters):
         cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
-        total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
+        if r[i] is not None:
+            total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
     mean, cov = weighted_mean_and_cov(params, total_weights)
     means = [mean]
     covariances = [cov]
@@ -382,7 +385,8 @@ def invert_to_random_variable(discretization, rv, num_reweighted=10000, bw_metho
 
     for i in range(num_clusters):
         cluster_weights.append(len(np.where(obs_set.get_region() == i)[0]) / num_obs)
-        total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
+        if r[i] is not None:
+            total_weights[lam_ptr[i]] = r[i] * cluster_weights[i]
     total_weights = np.round(num_reweighted * total_weights/np.sum(total_weights)).astype(int)
     reweighted_vals = np.repeat(params, total_weights, axis=0)
 
diff --git a/bet/sample.py b/bet/sample.py
index 9f26b9f..8e8ef6f 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -93,6 +93,8 @@ def evaluate_pdf(prob_type, prob_parameters, vals):
         mar = np.zeros((vals.shape[0],))
         num_clusters = len(cluster_weights)
         for i in range(num_clusters):
+            if means[i] is None:  # no samples in this cluster
+                continue
             mar += cluster_weights[i] * multivariate_normal.pdf(vals, means[i], covs[i])
         return mar
     elif prob_type == "voronoi":
@@ -131,6 +133,8 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         num_clusters = len(cluster_weights)
         mar = np.zeros(x.shape[0])
         for j in range(num_clusters):
+            if param_marginals[i][j] is None:  # no samples in this cluster
+                continue
             mar += param_marginals[i][j](x) * cluster_weights[j]
         return mar
     elif prob_type == "rv":
@@ -146,6 +150,8 @@ def evaluate_pdf_marginal(prob_type, prob_parameters, vals, i):
         mar = np.zeros(x.shape)
         num_clusters = len(cluster_weights)
         for j in range(num_clusters):
+            if means[j] is None:  # no samples in this cluster
+                continue
             mar += stats.norm.pdf(x, loc=means[j][i], scale=(covs[j][i, i] ** 0.5)) * cluster_weights[j]
         return mar
     elif prob_type == 'voronoi':
diff --git a/bet/sampling/basicSampling.py b/bet/sampling/basicSampling.py
index 4b696f1..86c682a 100644
--- a/bet/sampling/basicSampling.py
+++ b/bet/sampling/basicSampling.py
@@ -71,6 +71,8 @@ def sample_from_updated(input_set, num_samples, globalize=True):
         param_marginals, cluster_weights = input_set.get_prob_parameters()
         v_outer = []
         for i, num_samples_clust in enumerate(_cluster_counts(cluster_weights, num_samples)):
+            if param_marginals[0][i] is None and num_samples_clust == 0:
+                continue
             v_inner = []
             num_samples_local = int((num_samples_clust / comm.size) +
                                     (comm.rank < num_samples_clust % comm.size))
-- 
2.43.0


From 70e84d60b3d052c5466df02e8913b63e70ededbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:00 +0000
Subject: [PATCH 80/92] fix: a cell without probability and volume has the
 density zero

---
 bet/sample.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/bet/sample.py b/bet/sample.py
index 8e8ef6f..a28fd01 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -62,6 +62,23 @@ class wrong_input(Exception):
     Exception for when the input is of the wrong type.
     """
 
+
+def cell_densities(probabilities, volumes):
+    """
+    Densities of cells. A cell without probability has the density zero, also
+    if it has no volume (as estimated by emulated points that all miss it).
+
+    :param probabilities: probabilities of the cells
+    :type probabilities: :class:`numpy.ndarray` of shape (num, )
+    :param volumes: volumes of the cells
+    :type volumes: :class:`numpy.ndarray` of shape (num, )
+    :return: densities
+    :rtype: :class:`numpy.ndarray` of shape (num, )
+    """
+    return np.divide(probabilities, volumes, out=np.zeros(np.shape(probabilities)),
+                     where=np.not_equal(probabilities, 0.0))
+
+
 def evaluate_pdf(prob_type, prob_parameters, vals):
     """
     Evaluate the probability density function defined by `prob_type` and `prob_parameters`
@@ -943,7 +960,7 @@ class sample_set_base(object):
                 total_vol = np.product(self._domain[:, 1] - self._domain[:, 0])
             probs = self._probabilities
             vols = self._volumes * total_vol
-            self._densities = probs / vols
+            self._densities = cell_densities(probs, vols)
 
     def get_densities(self):
         """
@@ -976,7 +993,7 @@ class sample_set_base(object):
             if self._volumes_local is None:
                 logging.warning("Using Monte Carlo Assumption to Estimate Volumes.")
                 self.estimate_volume_mc(globalize=False)
-            self.set_densities_local(self._probabilities_local/self._volumes_local)
+            self.set_densities_local(cell_densities(self._probabilities_local, self._volumes_local))
             self.local_to_global()
             return evaluate_pdf(self._prob_type, self, vals)
         else:
@@ -1221,7 +1238,7 @@ class sample_set_base(object):
                 total_vol = np.product(self._domain[:, 1] - self._domain[:, 0])
             probs = self._probabilities_local
             vols = self._volumes_local * total_vol
-            self._densities_local = probs / vols
+            self._densities_local = cell_densities(probs, vols)
 
     def get_densities_local(self):
         """
-- 
2.43.0


From ca9eaf59f48ed934d1be7e544c07c54fa35515e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:00 +0000
Subject: [PATCH 81/92] fix: samples without probability and volume are not
 sorted before the others

---
 bet/postProcess/postTools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 4765dd0..55e601e 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -58,7 +58,7 @@ def sort_by_rho(sample_set):
     if lam_vol is None:
         indices = np.argsort(P_samples)[::-1][0:nnz]
     else:
-        indices = np.argsort(P_samples / lam_vol)[::-1][0:nnz]
+        indices = np.argsort(sample.cell_densities(P_samples, lam_vol))[::-1][0:nnz]
     P_samples = P_samples[indices]
     samples = samples[indices, :]
     if lam_vol is not None:
-- 
2.43.0


From 907cb92d2be3a3f437f11bbf455f183f2683810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:00 +0000
Subject: [PATCH 82/92] fix: plot the densities of Voronoi cells when some cell
 has no probability and volume

---
 bet/postProcess/plotVoronoi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/plotVoronoi.py b/bet/postProcess/plotVoronoi.py
index 0bc2d86..07d9a2d 100644
--- a/bet/postProcess/plotVoronoi.py
+++ b/bet/postProcess/plotVoronoi.py
@@ -192,7 +192,7 @@ def plot_2D_voronoi(sample_set, density=True, colormap_type='BuGn',
         fig = plt.figure(0, clear=True, constrained_layout=True)
         cmap = matplotlib.cm.get_cmap(colormap_type)
         if density:
-            P = sample_obj._probabilities / sample_obj._volumes
+            P = sample.cell_densities(sample_obj._probabilities, sample_obj._volumes)
         else:
             P = sample_obj._probabilities
         P_max = np.max(P)
-- 
2.43.0


From 0538927039b4af1045e4abaa9ebe2a88b1a57c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:12 +0000
Subject: [PATCH 83/92] fix: unsorted selections that begin with samples of
 zero probability

---
 bet/postProcess/postTools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 55e601e..45e16e5 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -147,7 +147,7 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
         indices = indices[::-1]
 
     P_sum = np.cumsum(P_samples)
-    num_samples = np.sum(np.logical_and(0.0 < P_sum, P_sum <= percentile))
+    num_samples = np.sum(P_sum <= percentile)
     P_samples = P_samples[0:num_samples]
     samples = samples[0:num_samples, :]
     if lam_vol is not None:
-- 
2.43.0


From 24b01590008cd0c61ea51e07bd3c086c184bd81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:12 +0000
Subject: [PATCH 84/92] fix: selections whose probability equals the percentile
 up to rounding error

---
 bet/postProcess/postTools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bet/postProcess/postTools.py b/bet/postProcess/postTools.py
index 45e16e5..ba38ef6 100644
--- a/bet/postProcess/postTools.py
+++ b/bet/postProcess/postTools.py
@@ -147,7 +147,9 @@ def sample_prob(percentile, sample_set, sort=True, descending=False):
         indices = indices[::-1]
 
     P_sum = np.cumsum(P_samples)
-    num_samples = np.sum(P_sum <= percentile)
+    # a sum that equals the percentile up to rounding error is in
+    num_samples = np.sum(np.logical_or(P_sum <= percentile,
+                                       np.isclose(P_sum, percentile, rtol=1e-10, atol=0.0)))
     P_samples = P_samples[0:num_samples]
     samples = samples[0:num_samples, :]
     if lam_vol is not None:
-- 
2.43.0


From 47ecf40b244ab462b55ecb8d7c1afb0446fac5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:11 +0000
Subject: [PATCH 85/92] fix: linear surrogates of integer outputs

---
 bet/surrogates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bet/surrogates.py b/bet/surrogates.py
index 42f0107..2e311e8 100644
--- a/bet/surrogates.py
+++ b/bet/surrogates.py
@@ -102,7 +102,8 @@ class piecewise_polynomial_surrogate(object):
                     self.dummy_disc._emulated_ii_ptr_local]
             new_values_local = self.input_disc._output_sample_set._values[
                 self.dummy_disc._emulated_ii_ptr_local]
-            new_values_local += np.einsum('ijk,ik->ij', jac_local, diff_local)
+            new_values_local = new_values_local + \
+                np.einsum('ijk,ik->ij', jac_local, diff_local)
             output_sample_set.set_values_local(new_values_local)
 
         # if they exist, define error estimates with piecewise constants
-- 
2.43.0


From da4f32c22ee6b3cb78d5f041131ad2a74142cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:09 +0000
Subject: [PATCH 86/92] fix: model error of integer outputs

---
 bet/calculateP/calculateError.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 6acfbb5..d1afbd2 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -396,8 +396,9 @@ class model_error(object):
         # Setup new discretization object adding error estimates
         #: :class:`bet.sample.discretiztion` from adding error estimates
         self.disc_new = disc.copy()
-        self.disc_new._output_sample_set._values_local += self.disc.\
-            _output_sample_set._error_estimates_local
+        self.disc_new._output_sample_set._values_local = \
+            self.disc_new._output_sample_set._values_local + \
+            self.disc._output_sample_set._error_estimates_local
         self.disc_new.set_io_ptr(globalize=False)
         self.disc_new._io_ptr = None
 
-- 
2.43.0


From 30cc145e6830e91f8c0dd2790ae3f9048480171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:04 +0000
Subject: [PATCH 87/92] fix: model error of a region when no emulated sample
 lies in some event

---
 bet/calculateP/calculateError.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index d1afbd2..6619df9 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -535,8 +535,11 @@ class model_error(object):
                 JiAe = comm.allreduce(JiAe_local, op=MPI.SUM)
                 Jie_local = float(np.sum(in_Ai2))
                 Jie = comm.allreduce(Jie_local, op=MPI.SUM)
-                er_est += self.disc._output_probability_set._probabilities[i]\
-                    * ((JiA * Jie - JiAe * Ji) / (Ji * Jie))
+                if Ji * Jie == 0:
+                    er_est += np.inf
+                else:
+                    er_est += self.disc._output_probability_set._probabilities[i]\
+                        * ((JiA * Jie - JiAe * Ji) / (Ji * Jie))
 
         return er_est
 
-- 
2.43.0


From 458906d5a4fbd4da7f4735f607c13626fba35f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 88/92] fix: densities of Gaussian mixtures whose coordinates
 have very different units

---
 bet/sample.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bet/sample.py b/bet/sample.py
index a28fd01..ef8f8e3 100644
--- a/bet/sample.py
+++ b/bet/sample.py
@@ -112,7 +112,10 @@ def evaluate_pdf(prob_type, prob_parameters, vals):
         for i in range(num_clusters):
             if means[i] is None:  # no samples in this cluster
                 continue
-            mar += cluster_weights[i] * multivariate_normal.pdf(vals, means[i], covs[i])
+            # the coordinates may have very different units
+            scale = np.sqrt(np.diag(np.atleast_2d(covs[i])))
+            mar += cluster_weights[i] * multivariate_normal.pdf((vals - means[i]) / scale,
+                                                                cov=covs[i] / np.outer(scale, scale)) / np.prod(scale)
         return mar
     elif prob_type == "voronoi":
         _, pt = prob_parameters.query(vals)
-- 
2.43.0


From 8183339884cc24ea0b93fdfbce512505f4524d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 89/92] fix: normal distributions of outputs that have very
 different units

---
 bet/calculateP/simpleFunP.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bet/calculateP/simpleFunP.py b/bet/calculateP/simpleFunP.py
index 72d929d..dea8696 100644
--- a/bet/calculateP/simpleFunP.py
+++ b/bet/calculateP/simpleFunP.py
@@ -596,8 +596,6 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     Q_ref = check_type(Q_ref, data_set)
     std = check_type(std, data_set)
 
-    covariance = std ** 2
-
     d_distr_samples = np.zeros((M, len(Q_ref)))
     logging.info("d_distr_samples.shape " + str(d_distr_samples.shape))
     logging.info("Q_ref.shape " + str(Q_ref.shape))
@@ -633,8 +631,8 @@ def normal_partition_normal_distribution(data_set, Q_ref=None, std=1, M=1,
     for i in range(M):
         Itemp = np.equal(k, i)
         count_neighbors[i] = np.sum(Itemp)
-        volumes[i] = np.sum(1.0 / stats.multivariate_normal.pdf
-                            (d_distr_emulate[Itemp, :], Q_ref, covariance))
+        volumes[i] = np.sum(1.0 / np.prod(stats.norm.pdf(
+            d_distr_emulate[Itemp, :], Q_ref, std), axis=1))
     # Now define probability of the d_distr_samples
     # This together with d_distr_samples defines :math:`\rho_{\mathcal{D},M}`
     ccount_neighbors = np.copy(count_neighbors)
-- 
2.43.0


From d59f494ceee279ed3f77fc3c7809ae6572c6c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:36 +0000
Subject: [PATCH 90/92] fix: events without interior cells keep undefined
 sampling bounds after a region was asked for

---
 bet/calculateP/calculateError.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bet/calculateP/calculateError.py b/bet/calculateP/calculateError.py
index 6619df9..d628be4 100644
--- a/bet/calculateP/calculateError.py
+++ b/bet/calculateP/calculateError.py
@@ -213,7 +213,7 @@ class sampling_error(object):
                 lam_vol = np.zeros((self.num,))
                 indices = np.equal(self.disc._io_ptr, i)
                 lam_vol[indices] = self.disc._input_sample_set._volumes[indices]
-                if i in self.B_N:
+                if self.B_N[i]:
                     # val1 = :math:`\mu_{\Lambda}(B_{i,N})`
                     val1 = np.sum(self.disc._input_sample_set._volumes[self.
                                                                        B_N[i]])
-- 
2.43.0


From ef46e42961f2218fc09f1cd2dd6f2029ce8b6e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:16 +0000
Subject: [PATCH 91/92] fix: distances follow the current densities of the
 compared measures

---
 bet/postProcess/compareP.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bet/postProcess/compareP.py b/bet/postProcess/compareP.py
index abf44b4..4b6466f 100644
--- a/bet/postProcess/compareP.py
+++ b/bet/postProcess/compareP.py
@@ -163,8 +163,8 @@ class compare:
         # Check inputs
         if self.compare_vals is None:
             raise samp.wrong_input("Compare set needed.")
-        if self.pdfs1 is None or self.pdfs2 is None:
-            self.evaluate_pdfs()
+        # The measures may have changed since the densities were last evaluated.
+        self.evaluate_pdfs()
         if normalize:
             pdfs1 = self.pdfs1 / np.sum(self.pdfs1)
             pdfs2 = self.pdfs2 / np.sum(self.pdfs2)
-- 
2.43.0


From cbc5186690dd578f594d85171dc417160231563a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 92/92] fix: clusters that were predicted but not observed get
 weight zero in density inversion

---
 bet/calculateP/calculateR.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bet/calculateP/calculateR.py b/bet/calculateP/calculateR.py
index df39d3e..23bcbe2 100644
--- a/bet/calculateP/calculateR.py
+++ b/bet/calculateP/calculateR.py
@@ -112,13 +112,15 @@ def invert(discretization, bw_method=None):
             vals = predict_set.get_values()[predict_pointer]
         else:
             vals = predict_set.get_cluster_maps()[i]
-        if len(predict_pointer) > 0:
+        # a cluster that was not observed has no weight
+        observed = np.any(discretization.get_output_observed_set().get_region() == i)
+        if len(predict_pointer) > 0 and observed:
             r.append(np.divide(obs_kdes[i](vals.T), predict_kdes[i](vals.T)))
             rs.append((r[i].mean()))
+            weights[predict_pointer] = r[i]
         else:
             r.append(None)
             rs.append(None)
-        weights[predict_pointer] = r[i]
         lam_ptr.append(predict_pointer)
     discretization.get_input_sample_set().set_weights(weights)
     return rs, r, lam_ptr
-- 
2.43.0

