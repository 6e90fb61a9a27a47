From 3135208fc8d1d61d9e7cd81b7d53b5e8acc2d044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 01/43] fix: measure errors of scaled regions without a
 training region

MeasureForecastingError documents training_region as optional, but it crashed with a scaled
observation region when it was omitted.
---
 spta/model/error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/model/error.py b/spta/model/error.py
index ffed9b7..d9a484d 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -104,7 +104,8 @@ class MeasureForecastingError(FunctionRegionScalar):
         if observation_region.has_scaling():
             self.logger.debug('About to descale observation and training regions')
             self.observation_region = observation_region.descale()
-            self.training_region = training_region.descale()
+            # the training region is optional, some error functions do not use it
+            self.training_region = None if training_region is None else training_region.descale()
         else:
             self.logger.debug('MeasureForecastingError - No scaling detected')
             self.observation_region = observation_region
-- 
2.43.0


From d6efcb23a92da760db8b234fd9adcd9dac855382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 02/43] fix: start every iteration of a region at its first
 point

An iteration that was abandoned (break, exception, or a pickle taken half-way) left the cursor of
the region in the middle, so the next iteration silently skipped the points before it.
---
 spta/model/error.py    | 7 +++++++
 spta/region/base.py    | 4 +++-
 spta/region/scaling.py | 7 +++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/spta/model/error.py b/spta/model/error.py
index d9a484d..c4d8aff 100644
--- a/spta/model/error.py
+++ b/spta/model/error.py
@@ -67,6 +67,13 @@ class ErrorRegion(SpatialDecorator):
         # return arrays_util.root_mean_squared(error_list)
         return self.error_combine_func(error_list)
 
+    def __iter__(self):
+        '''
+        The decorated region has the state of the iteration, see __next__().
+        '''
+        iter(self.decorated_region)
+        return self
+
     def __next__(self):
         '''
         Use the decorated iteration, which may be more interesting than the default iteration
diff --git a/spta/region/base.py b/spta/region/base.py
index 91c1112..c65d5e4 100644
--- a/spta/region/base.py
+++ b/spta/region/base.py
@@ -75,8 +75,10 @@ class BaseRegion(log_util.LoggerMixin):
 
     def __iter__(self):
         '''
-        Used for iterating over points
+        Used for iterating over points. Each iteration starts from the first point, even if
+        the previous one was not completed (break, exception, region pickled while iterating).
         '''
+        self.point_index = 0
         return self
 
     def __next__(self):
diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index b815b9b..6473e6a 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -218,6 +218,13 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
+    def __iter__(self):
+        '''
+        The decorated region has the state of the iteration, see __next__().
+        '''
+        iter(self.decorated_region)
+        return self
+
     def __next__(self):
         '''
         Don't use the default iterator here, which comes from SpatialDecorator.
-- 
2.43.0


From 5d35a8111f6f55528e999c0a1bdc258cbdd8caa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 03/43] fix: save cached dataset intervals atomically

---
 spta/dataset/temp_brazil.py |  4 +++-
 spta/util/fs.py             | 20 ++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/spta/dataset/temp_brazil.py b/spta/dataset/temp_brazil.py
index be13259..a9fc10f 100644
--- a/spta/dataset/temp_brazil.py
+++ b/spta/dataset/temp_brazil.py
@@ -3,6 +3,7 @@ import numpy as np
 import os
 import sys
 
+from spta.util import fs as fs_util
 from spta.util import log as log_util
 from spta.util import maths as maths_util
 
@@ -77,7 +78,8 @@ def save_dataset_interval(dataset_interval, name, year_start, year_end, spd):
         current samples per day
     '''
     dataset_filename = FORMAT_BY_YEAR.format(name, year_start, year_end, spd)
-    np.save(dataset_filename, dataset_interval)
+    with fs_util.open_atomic(dataset_filename) as dataset_file:
+        np.save(dataset_file, dataset_interval)
 
     logger = log_util.logger_for_me(save_dataset_interval)
     logger.info('Saved dataset: {}'.format(dataset_filename))
diff --git a/spta/util/fs.py b/spta/util/fs.py
index 08b130c..8934904 100644
--- a/spta/util/fs.py
+++ b/spta/util/fs.py
@@ -1,3 +1,4 @@
+import contextlib
 import os
 
 
@@ -10,3 +11,22 @@ def mkdir(directory):
         os.makedirs(directory)
     except OSError:
         pass
+
+
+@contextlib.contextmanager
+def open_atomic(filename, mode='wb', **kwargs):
+    '''
+    Context manager for writing a file that other processes may be reading or writing at the same
+    time. The data goes to a temporary file in the same directory, which replaces the destination
+    only when everything has been written. The destination is never seen half-written, even if the
+    writing is interrupted.
+    '''
+    temp_filename = '{}.{}.tmp'.format(filename, os.getpid())
+    try:
+        with open(temp_filename, mode, **kwargs) as temp_file:
+            yield temp_file
+        os.replace(temp_filename, filename)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(temp_filename)
+        raise
-- 
2.43.0


From 3ae1692e210cc752ef141110eef260c4154c408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 04/43] fix: an incomplete distances file is one that could not
 be loaded

---
 spta/distance/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spta/distance/__init__.py b/spta/distance/__init__.py
index 24c33c5..b085357 100644
--- a/spta/distance/__init__.py
+++ b/spta/distance/__init__.py
@@ -44,11 +44,11 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
         The distance matrix is expected to be a 2d matrix [x_len * y_len, x_len * y_len].
         '''
 
-        # read from file
+        # read from file: it may be missing or incomplete
         try:
             distance_matrix = np.load(filename)
-        except IOError:
-            self.logger.warn('Could not load file {}'.format(filename))
+        except (IOError, EOFError, ValueError) as err:
+            self.logger.warn('Could not load file {}: {}'.format(filename, err))
             return None
 
         # check dimensions
-- 
2.43.0


From 97c7efedb64a97e4ffd2989c0e103e30b5e9c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 05/43] fix: calculate distances when there is no saved
 distances file

---
 spta/distance/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spta/distance/__init__.py b/spta/distance/__init__.py
index b085357..d884b51 100644
--- a/spta/distance/__init__.py
+++ b/spta/distance/__init__.py
@@ -119,12 +119,16 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
 
         if self.distance_matrix is None:
 
+            matrix, err = None, 'could not be loaded'
             try:
                 # can we load a saved distance matrix?
                 # this requires the metadata of the region
-                self.load_distance_matrix_md(spt_region.region_metadata)
+                matrix = self.load_distance_matrix_md(spt_region.region_metadata)
 
-            except Exception as err:
+            except Exception as load_err:
+                err = load_err
+
+            if matrix is None:
 
                 if only_if_precalculated:
                     # don't accept that the matrix was not found
-- 
2.43.0


From a703dd28ba557b1ec165d61e5b5c4376323bf91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 06/43] fix: do not share the default distance measure among
 regions

---
 spta/region/centroid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spta/region/centroid.py b/spta/region/centroid.py
index e305ef6..4d0df1e 100644
--- a/spta/region/centroid.py
+++ b/spta/region/centroid.py
@@ -61,13 +61,16 @@ class CalculateCentroid(log_util.LoggerMixin):
         return centroid, distances_to_centroid
 
     @classmethod
-    def for_sptr_metadata(cls, spt_region_metadata, distance_measure=DistanceByDTW()):
+    def for_sptr_metadata(cls, spt_region_metadata, distance_measure=None):
         '''
         Calculate the centroid of the spatio temporal region using provided distance measure.
         If distance matrix is not available, it will be calculated first.
 
         Uses DTW by default.
         '''
+        if distance_measure is None:
+            distance_measure = DistanceByDTW()
+
         spt_region = spt_region_metadata.create_instance()
 
         # calculate centroid, should reuse a saved distance matrix if it is available
-- 
2.43.0


From a933120c630f3fdfb249878bfc909172afb298a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 07/43] fix: never use the distances of another region

---
 spta/distance/__init__.py | 55 ++++++++++++++++++++++++++++++++++-----
 spta/distance/dtw.py      | 10 +++++--
 2 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/spta/distance/__init__.py b/spta/distance/__init__.py
index d884b51..9f65b49 100644
--- a/spta/distance/__init__.py
+++ b/spta/distance/__init__.py
@@ -8,8 +8,18 @@ import numpy as np
 from spta.util import log as log_util
 
 
+def source_for_region(region_metadata):
+    '''
+    Identifies the region described by the metadata, when it comes to its distance matrix.
+    '''
+    return (region_metadata.distances_filename, region_metadata.region)
+
+
 class DistanceBetweenSeries(log_util.LoggerMixin):
 
+    # identifies the region for which the distance matrix was obtained, None if not known
+    distance_matrix_source = None
+
     def __init__(self):
         self.distance_matrix = None
 
@@ -38,10 +48,30 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
         '''
         raise NotImplementedError
 
-    def load_distance_matrix_2d(self, filename, expected_region):
+    def set_distance_matrix(self, distance_matrix, source=None):
         '''
-        Loads a pre-computed distance matrix from a file for a 2d region.
-        The distance matrix is expected to be a 2d matrix [x_len * y_len, x_len * y_len].
+        Stores a distance matrix, and the region that it was obtained for (if known).
+        '''
+        self.distance_matrix = None
+        self.distance_matrix_source = source
+        self.distance_matrix = distance_matrix
+
+    def forget_matrix_of_other_region(self, region_metadata):
+        '''
+        Discards the current distance matrix if it is known to belong to a region other than the
+        one described by the metadata. These distances cannot be used for this region.
+        '''
+        if self.distance_matrix_source is None or region_metadata is None:
+            return
+
+        if self.distance_matrix_source != source_for_region(region_metadata):
+            self.logger.debug('Discarding distances of {}'.format(self.distance_matrix_source))
+            self.set_distance_matrix(None)
+
+    def read_distance_matrix_2d(self, filename, expected_region):
+        '''
+        Reads a pre-computed distance matrix from a file, without storing it in this instance.
+        Returns None if the matrix could not be read.
         '''
 
         # read from file: it may be missing or incomplete
@@ -64,11 +94,20 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
                                             i_len, j_len))
 
         # all good
-        self.distance_matrix = distance_matrix
-
         log_msg = 'Loaded distance matrix for region {} using: {}'
         self.logger.info(log_msg.format(str(expected_region), filename))
-        return self.distance_matrix
+        return distance_matrix
+
+    def load_distance_matrix_2d(self, filename, expected_region):
+        '''
+        Loads a pre-computed distance matrix from a file for a 2d region.
+        The distance matrix is expected to be a 2d matrix [x_len * y_len, x_len * y_len].
+        '''
+        distance_matrix = self.read_distance_matrix_2d(filename, expected_region)
+        if distance_matrix is not None:
+            self.set_distance_matrix(distance_matrix, (filename, expected_region))
+
+        return distance_matrix
 
     def load_distance_matrix_md(self, sptr_metadata):
         '''
@@ -85,6 +124,7 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
         Returns either the matrix or None if the matrix could not be loaded.
         '''
         if spt_region.region_metadata is not None:
+            self.forget_matrix_of_other_region(spt_region.region_metadata)
             return self.load_distance_matrix_md(spt_region.region_metadata)
         else:
             return None
@@ -117,6 +157,9 @@ class DistanceBetweenSeries(log_util.LoggerMixin):
         if not use_distance_matrix:
             raise NotImplementedError('use_distance_matrix=False not supported yet!')
 
+        # never use the distances of some other region
+        self.forget_matrix_of_other_region(getattr(spt_region, 'region_metadata', None))
+
         if self.distance_matrix is None:
 
             matrix, err = None, 'could not be loaded'
diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 81908a7..b14ca1c 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -4,7 +4,7 @@ from tslearn.metrics import dtw
 from spta.region import Point
 from spta.util import arrays as arrays_util
 
-from . import DistanceBetweenSeries
+from . import DistanceBetweenSeries, source_for_region
 
 
 class DistanceByDTW(DistanceBetweenSeries):
@@ -45,17 +45,23 @@ class DistanceByDTW(DistanceBetweenSeries):
         if temporal_data.ndim == 2:
             # assume array of series
             distance_matrix = self.compute_distance_matrix_series_array(temporal_data)
+            source = None
 
         elif temporal_data.ndim == 3:
             # assume SpatioTemporalRegion instance
             distance_matrix = self.compute_distance_matrix_sptr(temporal_data)
 
+            # remember which region this is, if it can be identified
+            source = None
+            if temporal_data.region_metadata is not None:
+                source = source_for_region(temporal_data.region_metadata)
+
         else:
             err_msg = 'Cannot work with supplied temporal_data: {}'
             raise ValueError(err_msg.format(type(temporal_data)))
 
         # save it in this instance for reusability
-        self.distance_matrix = distance_matrix
+        self.set_distance_matrix(distance_matrix, source)
         return distance_matrix
 
     def compute_distance_matrix_series_array(self, X):
-- 
2.43.0


From 65aa9cb2a33f43277510fd1ddc86530027ea6787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 08/43] fix: add the weights of spatial distances exactly once

---
 spta/distance/dtw.py | 81 ++++++++++++++++++++++++++++++++------------
 1 file changed, 60 insertions(+), 21 deletions(-)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index b14ca1c..066daae 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -52,9 +52,7 @@ class DistanceByDTW(DistanceBetweenSeries):
             distance_matrix = self.compute_distance_matrix_sptr(temporal_data)
 
             # remember which region this is, if it can be identified
-            source = None
-            if temporal_data.region_metadata is not None:
-                source = source_for_region(temporal_data.region_metadata)
+            source = self.source_of(temporal_data)
 
         else:
             err_msg = 'Cannot work with supplied temporal_data: {}'
@@ -64,6 +62,12 @@ class DistanceByDTW(DistanceBetweenSeries):
         self.set_distance_matrix(distance_matrix, source)
         return distance_matrix
 
+    def source_of(self, spt_region):
+        if spt_region.region_metadata is None:
+            return None
+
+        return source_for_region(spt_region.region_metadata)
+
     def compute_distance_matrix_series_array(self, X):
         series_n, _ = X.shape
         distance_matrix = np.empty((series_n, series_n))
@@ -155,23 +159,21 @@ class DistanceBySpatialDTW(DistanceByDTW):
         self.weight = weight
         self.weighted = False
 
-    def weight_distance_matrix(self, region):
+    def set_distance_matrix(self, distance_matrix, source=None, weighted=False):
         '''
-        Uses a pre-calculated distance matrix using DTW, but then adds the weigths for the
-        spatio-temporal data.
+        Stores a distance matrix, and whether the weights have already been added to it.
         '''
-        # matrix must be precomputed
-        if self.distance_matrix is None:
-            raise ValueError('Compute matrix before calling weight_distance_matrix')
-
-        # don't add weight again...
-        if self.weighted:
-            return self.distance_matrix
-
-        x_len, y_len = (region.x2 - region.x1, region.y2 - region.y1)
+        self.distance_matrix = None
+        self.weighted = weighted
+        super(DistanceBySpatialDTW, self).set_distance_matrix(distance_matrix, source)
 
+    def add_weights(self, distance_matrix, x_len, y_len):
+        '''
+        Returns a new distance matrix, obtained by adding the weights to the DTW distances.
+        '''
         # coordinates of the spatial reigon
         points_of_2d_region = arrays_util.list_of_2d_points(x_len, y_len)
+        weighted_matrix = np.empty(distance_matrix.shape)
 
         # iterate points
         for index in range(0, x_len * y_len):
@@ -183,12 +185,42 @@ class DistanceBySpatialDTW(DistanceByDTW):
             euclidians_to_point = np.linalg.norm(points_of_2d_region - point_at_index, axis=1)
 
             # update value of the distances
-            self.distance_matrix[index] = self.distance_matrix[index] + \
-                euclidians_to_point * self.weight
+            weighted_matrix[index] = distance_matrix[index] + euclidians_to_point * self.weight
             # np.power(euclidians_to_point, self.weight)
 
-        # flag
-        self.weighted = True
+        return weighted_matrix
+
+    def weight_distance_matrix(self, region):
+        '''
+        Uses a pre-calculated distance matrix using DTW, but then adds the weigths for the
+        spatio-temporal data.
+        '''
+        # matrix must be precomputed
+        if self.distance_matrix is None:
+            raise ValueError('Compute matrix before calling weight_distance_matrix')
+
+        # don't add weight again...
+        if self.weighted:
+            return self.distance_matrix
+
+        weighted_matrix = self.add_weights(self.distance_matrix, region.x2 - region.x1,
+                                           region.y2 - region.y1)
+        self.set_distance_matrix(weighted_matrix, self.distance_matrix_source, weighted=True)
+
+        return self.distance_matrix
+
+    def compute_distance_matrix(self, temporal_data):
+        '''
+        Calculates and stores the distance matrix, including the weights if the positions of the
+        points are known (i.e. for a spatio-temporal region but not for an array of series).
+        '''
+        if temporal_data.ndim != 3:
+            return super(DistanceBySpatialDTW, self).compute_distance_matrix(temporal_data)
+
+        _, x_len, y_len = temporal_data.shape
+        distance_matrix = self.compute_distance_matrix_sptr(temporal_data)
+        self.set_distance_matrix(self.add_weights(distance_matrix, x_len, y_len),
+                                 self.source_of(temporal_data), weighted=True)
 
         return self.distance_matrix
 
@@ -200,10 +232,17 @@ class DistanceBySpatialDTW(DistanceByDTW):
         '''
 
         # read normally
-        super(DistanceBySpatialDTW, self).load_distance_matrix_2d(filename, expected_region)
+        distance_matrix = self.read_distance_matrix_2d(filename, expected_region)
+        if distance_matrix is None:
+            return None
 
         # add the weight
-        return self.weight_distance_matrix(expected_region)
+        weighted_matrix = self.add_weights(distance_matrix,
+                                           expected_region.x2 - expected_region.x1,
+                                           expected_region.y2 - expected_region.y1)
+        self.set_distance_matrix(weighted_matrix, (filename, expected_region), weighted=True)
+
+        return self.distance_matrix
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 38bb377aa802f01193af6098c62c84ad03498c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 09/43] fix: a medoid always belongs to its own cluster

---
 spta/kmedoids/kmedoids.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index 13d4198..4aefbbe 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -83,6 +83,9 @@ def _get_cost(X, medoids, distance_measure):
     # this effectively represents the membership of each point to a cluster
     labels = np.argmin(dist_mat, axis=1)
 
+    # a medoid always belongs to its own cluster, even if another medoid has an identical series
+    labels[get_medoid_indices(medoids)] = range(0, k)
+
     # calculate intra-cluster cost for each cluster
     costs = np.zeros(k)
     for i in range(0, k):
-- 
2.43.0


From d908e42ad21aabfad8cf9eb21802a704e94e0020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 10/43] fix: fuzzy k-medoids when the initial medoids are
 already the best

---
 spta/kmedoids/kmedoids_fuzzy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 4249091..e2f9803 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -167,8 +167,7 @@ def run_kmedoids_fuzzy(X, k, m, distance_measure, initial_medoids=None, random_s
     medoids = choose_initial_medoids(X, k, random_seed, initial_medoids)
 
     # assign initial members
-    labels, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure,
-                                                               tol)
+    uij, costs, tot_cost, dist_mat = compute_membership_fcm(X, m, medoids, distance_measure, tol)
     cc, SWAPPED = 0, True
 
     while True:
-- 
2.43.0


From b299433a1f1ac8488c68d8a468a9415a3a185a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 11/43] fix: fuzzy memberships of points identical to a medoid

---
 spta/kmedoids/kmedoids_fuzzy.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index e2f9803..1dc7e12 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -136,11 +136,17 @@ def compute_membership_fcm(X, m, medoids, distance_measure, tol):
         # divide by the denominator
         uij[:, i] = uij[:, i] / uij_den
 
-        # special case for medoids (i = medoid index):
-        # uij is (inf / inf) when j is the medoid's cluster, 0 for other clusters
-        # 0 is calculated correctly, but (inf / inf) returns nan.
-        # Here we set that value to 1 to indicate that the medoid has full membership
-        # to its cluster
+    # special case for points at distance zero of some medoid: uij is (inf / inf) for that cluster,
+    # 0 for other clusters. 0 is calculated correctly, but (inf / inf) returns nan.
+    # Share the membership among the clusters of the medoids that are identical to the point.
+    is_identical = (dist_mat == 0)
+    has_identical = np.any(is_identical, axis=1)
+    uij[has_identical] = is_identical[has_identical] / \
+        np.sum(is_identical[has_identical], axis=1, keepdims=True)
+
+    # a medoid always has full membership to its own cluster
+    for i in range(0, k):
+        uij[medoids[i].index, :] = 0
         uij[medoids[i].index, i] = 1
 
     # sanity check: adding all the membership values of a point should return 1 or very close to it
-- 
2.43.0


From 313cc5843f081472bd23d8e926b41fae88adc853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:16 +0000
Subject: [PATCH 12/43] fix: the seed of k-medoids decides the initial medoids
 on its own

---
 spta/kmedoids/kmedoids.py       | 7 +++----
 spta/kmedoids/kmedoids_fuzzy.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/spta/kmedoids/kmedoids.py b/spta/kmedoids/kmedoids.py
index 4aefbbe..3fe4197 100644
--- a/spta/kmedoids/kmedoids.py
+++ b/spta/kmedoids/kmedoids.py
@@ -8,7 +8,7 @@ import logging
 import numpy as np
 from copy import deepcopy
 from collections import namedtuple
-from numpy.random import choice, seed
+from numpy.random import RandomState
 import time
 
 from spta.distance.dtw import DistanceByDTW
@@ -28,10 +28,9 @@ KmedoidsResult = namedtuple('KmedoidsResult', ('k', 'random_seed', 'mode', 'medo
 
 
 def choose_initial_medoids(X, k, random_seed, initial_indices=None):
-    seed(random_seed)
-
     if not initial_indices:
-        initial_indices = choice(len(X), size=k, replace=False)
+        # own generator, so that no other user of the global generator can interfere
+        initial_indices = RandomState(random_seed).choice(len(X), size=k, replace=False)
 
     logger.info('Initial medoids indices: {}'.format(str(initial_indices)))
 
diff --git a/spta/kmedoids/kmedoids_fuzzy.py b/spta/kmedoids/kmedoids_fuzzy.py
index 1dc7e12..17ffc88 100644
--- a/spta/kmedoids/kmedoids_fuzzy.py
+++ b/spta/kmedoids/kmedoids_fuzzy.py
@@ -10,7 +10,7 @@ import logging
 import numpy as np
 from copy import deepcopy
 from collections import namedtuple
-from numpy.random import choice, seed
+from numpy.random import RandomState
 
 from spta.region.mask import MaskRegionFuzzy
 from spta.distance.dtw import DistanceByDTW
@@ -43,10 +43,9 @@ KmedoidsFuzzyResult = namedtuple('KmedoidsFuzzyResult', ('k', 'm', 'random_seed'
 
 
 def choose_initial_medoids(X, k, random_seed, initial_indices=None):
-    seed(random_seed)
-
     if not initial_indices:
-        initial_indices = choice(len(X), size=k, replace=False)
+        # own generator, so that no other user of the global generator can interfere
+        initial_indices = RandomState(random_seed).choice(len(X), size=k, replace=False)
 
     logger.info('Initial medoids indices: {}'.format(str(initial_indices)))
 
-- 
2.43.0


From f37990d155f52227d6d332d77b5c55dcf5e7e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:34 +0000
Subject: [PATCH 13/43] fix: do not share the default distance measure among
 silhouette analyses

---
 spta/kmedoids/silhouette.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spta/kmedoids/silhouette.py b/spta/kmedoids/silhouette.py
index df32441..85848ea 100644
--- a/spta/kmedoids/silhouette.py
+++ b/spta/kmedoids/silhouette.py
@@ -293,13 +293,17 @@ DEFAULT_SAVE_GRAPHS = 'plots/silhouette'
 
 
 def silhouette_default_metadata(k_values, seed_values, kmedoids_mode='lite',
-                                distance_measure=DistanceByDTW(), initial_medoids=None,
+                                distance_measure=None, initial_medoids=None,
                                 max_iter=1000, tol=0.001, verbose=True, show_graphs=True,
                                 save_graphs=DEFAULT_SAVE_GRAPHS, plot_name=None):
     '''
     Metadata for Silhouette analysis with default values. Still needs k_values and seed_values.
     Adds plot_name, will define save_graphs if present.
     '''
+    if distance_measure is None:
+        # a new instance for each analysis, it will store the distances of the region
+        distance_measure = DistanceByDTW()
+
     if plot_name and save_graphs == DEFAULT_SAVE_GRAPHS:
         # override save_graphs
         save_graphs = 'plots/{}'.format(plot_name)
-- 
2.43.0


From 5a943649a54aac934aeebe4ac5e8238710d64fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 14/43] fix: keep partitions in the requested pickle directory

---
 spta/clustering/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 243fa1a..9be71cb 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -210,7 +210,7 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Saves a partition as a pickle objct, using its to_pickle(path) method. The path is
         calculated by the clustering metadata.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
 
         # the partition can save itself
         partition.to_pickle(pickle_full_path)
@@ -241,19 +241,19 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
         Should be successful if save_partition() was called before, will raise an exception
         if no saved partition is found.
         '''
-        pickle_full_path = self.pickle_full_path(region_metadata)
+        pickle_full_path = self.pickle_full_path(region_metadata, pickle_home)
         partition = PartitionRegion.try_from_pickle(pickle_full_path)
 
         self.logger.info('Loaded previously calculated partition from {}'.format(pickle_full_path))
         return partition
 
-    def pickle_full_path(self, region_metadata):
+    def pickle_full_path(self, region_metadata, pickle_home='pickle'):
         '''
         Calculates the path for persisting partition objects via pickle. The path is calculated by
         the clustering metadata.
         '''
         # path to store/load pickle objects given metadata
-        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure)
+        pickle_dir = self.metadata.pickle_dir(region_metadata, self.distance_measure, pickle_home)
 
         # use a fixed name, assuming that the metadata uniquely identifies the created partition...
         return os.path.join(pickle_dir, self.partition_pickle_filename)
-- 
2.43.0


From fb27aa5369052bfd0ab7eada2a4820fc61cf339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 15/43] fix: do not reuse a partition without medoids when they
 are requested

---
 spta/clustering/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 9be71cb..9925aba 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -103,6 +103,10 @@ class ClusteringAlgorithm(log_util.LoggerMixin):
             the_partition = self.try_load_previous_partition(spt_region.region_metadata,
                                                              pickle_home)
 
+            # a partition saved without medoids is not enough when they are requested
+            if with_medoids and getattr(the_partition, 'medoids', None) is None:
+                the_partition = None
+
             # flag to avoid saving a loaded partition
             if the_partition is not None:
                 loaded_from_pickle = True
-- 
2.43.0


From 2f685cc04687b053dcbe8c063ded47f9bda75299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 16/43] fix: tell spatial distances apart from plain DTW
 distances

---
 spta/distance/dtw.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spta/distance/dtw.py b/spta/distance/dtw.py
index 066daae..f5b7786 100644
--- a/spta/distance/dtw.py
+++ b/spta/distance/dtw.py
@@ -159,6 +159,12 @@ class DistanceBySpatialDTW(DistanceByDTW):
         self.weight = weight
         self.weighted = False
 
+    def __repr__(self):
+        '''
+        Useful to identify this distance_measure, tells apart different weights.
+        '''
+        return 'dtw_weight{}'.format(self.weight)
+
     def set_distance_matrix(self, distance_matrix, source=None, weighted=False):
         '''
         Stores a distance matrix, and whether the weights have already been added to it.
-- 
2.43.0


From afc9c1d073ec67a8d2fd95ca387587ef74aedcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 17/43] fix: regular partition of a spatial region

---
 spta/clustering/regular.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/regular.py b/spta/clustering/regular.py
index 4b2037e..827a078 100644
--- a/spta/clustering/regular.py
+++ b/spta/clustering/regular.py
@@ -52,8 +52,9 @@ class RegularClusteringAlgorithm(ClusteringAlgorithm):
         '''
         Create a regular partition for a spatial region, no medoids.
         '''
-        # The partition method also works for spatial regions, notice how the shape is extracted.
-        return self.partition(spatial_region, with_medoids=False)
+        # The implementation also works for spatial regions, notice how the shape is extracted.
+        # No distances are needed, there are no medoids.
+        return self.partition_impl(spatial_region, with_medoids=False)
 
     def partition_impl(self, spt_region, with_medoids=True, save_csv_at=None):
         '''
-- 
2.43.0


From 5e9ba0f800cdf69c7f5158638552210477506719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 18/43] fix: keep re-fitted models of solvers with different
 test lengths apart

The models for out-of-sample forecasts are re-fitted from the models that
reserved test samples (auto ARIMA keeps their order), but were saved under a
name without the test length: saving a solver changed the out-of-sample answers
of the saved solvers that only differed in test length.
---
 spta/solver/metadata.py | 5 +++--
 spta/solver/model.py    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/spta/solver/metadata.py b/spta/solver/metadata.py
index eb922f4..e8aeab2 100644
--- a/spta/solver/metadata.py
+++ b/spta/solver/metadata.py
@@ -55,12 +55,13 @@ class SolverMetadataBasic(object):
         for forecasting, an adequate test_len has to be specified by the user.
 
         If a model region was trained with the full dataset, then use with_test_samples=False,
-        the filename will not include test_len.
+        the filename will indicate this. It still includes test_len, because the models of the
+        full dataset may be re-fitted from models that reserved test samples (e.g. auto ARIMA).
         '''
         test_len_str = 'tp{}'.format(self.test_len)
         if not with_test_samples:
             # assume that the models are using the whole dataset (no test subset)
-            test_len_str = 'whole'
+            test_len_str = '{}__whole'.format(test_len_str)
 
         return '{}__{!r}__{}.pkl'.format(name_prefix, self.model_params, test_len_str)
 
diff --git a/spta/solver/model.py b/spta/solver/model.py
index 9c7f6d3..d4f9928 100644
--- a/spta/solver/model.py
+++ b/spta/solver/model.py
@@ -238,7 +238,7 @@ class SolverPickler(log_util.LoggerMixin):
                     |- errors__<model_params>__tp<tp>__<error>.pkl
                     |- partition_<clustering_metadata>.pkl
                     |- models-at-medoids-<model_params>__tp<tp>.pkl
-                    |- models-at-medoids-<model_params>__whole.pkl
+                    |- models-at-medoids-<model_params>__tp<tp>__whole.pkl
     '''
 
     def __init__(self, solver_metadata):
-- 
2.43.0


From 416f3a9a7ed85565d76eac14d030c3a231c69482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 19/43] fix: load a solver when its partition was saved without
 medoids

Partitions are shared with other users of the cache, which may save them
without medoids; predictions of a solver loaded with such a partition failed.
---
 spta/solver/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spta/solver/model.py b/spta/solver/model.py
index d4f9928..42eeff6 100644
--- a/spta/solver/model.py
+++ b/spta/solver/model.py
@@ -340,8 +340,8 @@ class SolverPickler(log_util.LoggerMixin):
         partition = clustering_algorithm.try_load_previous_partition(self.region_metadata,
                                                                      pickle_home='pickle')
 
-        if partition is None:
-            # the partition was deleted T_T
+        if partition is None or getattr(partition, 'medoids', None) is None:
+            # the partition was deleted T_T (or somebody saved it without the medoids)
             # calculate it again, for that we need the region
             spt_region = self.region_metadata.create_instance()
             partition = clustering_algorithm.partition(spt_region,
-- 
2.43.0


From 70cf4abf561607e6da5764e94be4c055253a11f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 20/43] fix: write whole series in the CSV of prediction
 results

numpy leaves values out of the text of a series with more than 1000 values, or
fewer if the print options of the process say so: the report was missing
samples. Write all values, whatever the print options, and leave these alone.
---
 spta/solver/result.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/spta/solver/result.py b/spta/solver/result.py
index a03d269..f0f2a77 100644
--- a/spta/solver/result.py
+++ b/spta/solver/result.py
@@ -1,6 +1,7 @@
 import csv
 import numpy as np
 import os
+import sys
 
 from spta.region import Point
 from spta.region.base import BaseRegion
@@ -188,10 +189,10 @@ class PredictionQueryResult(BaseRegion):
         csv_dir = self.metadata.csv_dir(self.output_home, self.prediction_region)
         fs_util.mkdir(csv_dir)
 
-        np.set_printoptions(formatter={'float': '{: 0.3f}'.format})
-
-        self.write_prediction_results(csv_dir)
-        self.write_prediction_summary(csv_dir)
+        # write every value of a series (numpy would leave some out of long series)
+        with np.printoptions(formatter={'float': '{: 0.3f}'.format}, threshold=sys.maxsize):
+            self.write_prediction_results(csv_dir)
+            self.write_prediction_summary(csv_dir)
 
     def write_prediction_results(self, csv_dir):
 
-- 
2.43.0


From 45c7bbea1d18957c520b11311aaefbee3b986983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 21/43] fix: scaling a constant series keeps its missing values

---
 spta/region/scaling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index 6473e6a..91b606f 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -45,7 +45,8 @@ class ScaleFunction(FunctionRegionSeriesSame):
                 return np.repeat(np.nan, repeats=self.series_len)
 
             if series_min == series_max:
-                return np.zeros(self.series_len)
+                # all values become zero, missing values stay missing
+                return series - series_min
 
             # scale here
             return (series - series_min) / (series_max - series_min)
-- 
2.43.0


From 4469d9af634725c79f1b7e7eeceb3890d7380c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 22/43] fix: a scaled region can be saved

---
 spta/region/scaling.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/spta/region/scaling.py b/spta/region/scaling.py
index 91b606f..c9c4834 100644
--- a/spta/region/scaling.py
+++ b/spta/region/scaling.py
@@ -2,6 +2,8 @@
 This module handles scale and descale of spatio-temporal regions.
 '''
 
+import os
+
 import numpy as np
 
 from .function import FunctionRegionScalarSame, FunctionRegionSeries, FunctionRegionSeriesSame
@@ -206,16 +208,26 @@ class SpatioTemporalScaled(SpatioTemporalDecorator):
         Requires the metadata!
         '''
 
-        # save dataset
-        super(SpatioTemporalScaled, self).save()
+        if self.region_metadata is None:
+            raise ValueError('Need metadata to save this sptr!')
+
+        min_filename = self.region_metadata.scaled_min_filename
+        max_filename = self.region_metadata.scaled_max_filename
+
+        # the three files belong together, so if this is interrupted, do not leave scaling data
+        # of a previous save for the new dataset
+        for old_filename in (min_filename, max_filename):
+            if os.path.exists(old_filename):
+                os.remove(old_filename)
+
+        # save dataset, the decorated region does not have this metadata
+        self.save_to(self.region_metadata.dataset_filename)
 
         # save min
-        min_filename = self.region_metadata.scale_min_filename
         np.save(min_filename, self.scale_min.numpy_dataset)
         self.logger.info('Saved scale_min to {}'.format(min_filename))
 
         # save max
-        max_filename = self.region_metadata.scale_max_filename
         np.save(max_filename, self.scale_max.numpy_dataset)
         self.logger.info('Saved scale_max to {}'.format(max_filename))
 
-- 
2.43.0


From 0c31c4349d6d9d325f028feafd54fbf2af188ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 23/43] fix: descaling a cluster of a scaled region gives a
 region without scaling

---
 spta/region/temporal.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index c98e948..821717e 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -280,7 +280,13 @@ class SpatioTemporalDecorator(SpatialDecorator, SpatioTemporalRegion):
         # region, except for what we already have in this decorator. Other relevant data should
         # be saved by new_spatio_temporal_region implementation.
         descaled_region = self.decorated_region.descale()
-        return self.new_spatio_temporal_region(descaled_region.numpy_dataset)
+        return self.new_decorator(descaled_region)
+
+    def new_decorator(self, decorated_region):
+        '''
+        Decorates another region in the same way that this instance decorates its region.
+        '''
+        return SpatioTemporalDecorator(decorated_region, region_metadata=self.region_metadata)
 
     @property
     def all_point_indices(self):
@@ -328,7 +334,13 @@ class SpatioTemporalCluster(SpatialCluster, SpatioTemporalDecorator):
         Note: new_spatial_region is handled by SpatialCluster
         '''
         new_decorated_region = self.decorated_region.new_spatio_temporal_region(numpy_dataset)
-        return SpatioTemporalCluster(decorated_region=new_decorated_region,
+        return self.new_decorator(new_decorated_region)
+
+    def new_decorator(self, decorated_region):
+        '''
+        Creates a cluster with the same partition and cluster index, on another region.
+        '''
+        return SpatioTemporalCluster(decorated_region=decorated_region,
                                      partition=self.partition,
                                      cluster_index=self.cluster_index,
                                      region_metadata=self.region_metadata)
-- 
2.43.0


From acf30c88668d093c17a744f4edf2414ad03f7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:51 +0000
Subject: [PATCH 24/43] fix: subset() of a scaled region keeps the scaling data
 of its own points

---
 spta/region/temporal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 821717e..9beb50e 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -234,6 +234,10 @@ class SpatioTemporalDecorator(SpatialDecorator, SpatioTemporalRegion):
     def region_subset(self, region):
         return self.decorated_region.region_subset(region)
 
+    def subset(self, region, ti):
+        # each kind of decorator knows how to subset the data that it adds
+        return self.region_subset(region).interval_subset(ti)
+
     def series_at(self, point):
         return self.decorated_region.series_at(point)
 
-- 
2.43.0


From 5d61b00674191e927c0f7c5e28ec0cd1d2ae0668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 25/43] fix: repeat_point() of a spatio-temporal cluster

---
 spta/region/temporal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spta/region/temporal.py b/spta/region/temporal.py
index 9beb50e..a4cfd9d 100644
--- a/spta/region/temporal.py
+++ b/spta/region/temporal.py
@@ -238,6 +238,10 @@ class SpatioTemporalDecorator(SpatialDecorator, SpatioTemporalRegion):
         # each kind of decorator knows how to subset the data that it adds
         return self.region_subset(region).interval_subset(ti)
 
+    def repeat_point(self, point):
+        # the point has a series here, SpatialDecorator would look for a value
+        return SpatioTemporalRegion.repeat_point(self, point)
+
     def series_at(self, point):
         return self.decorated_region.series_at(point)
 
-- 
2.43.0


From 1274c5d2e577d4b29ae1298c488ff0fea61f9cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 26/43] fix: clusterings with another seed or mode are not
 equal

---
 spta/clustering/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spta/clustering/__init__.py b/spta/clustering/__init__.py
index 9925aba..324602b 100644
--- a/spta/clustering/__init__.py
+++ b/spta/clustering/__init__.py
@@ -60,10 +60,11 @@ class ClusteringMetadata():
         return '{}: k={}'.format(self.name.capitalize(), self.k)
 
     def __eq__(self, other):
-        return self.name == other.name and self.k == other.k
+        # the representation has all the parameters, also those added by subclasses
+        return isinstance(other, ClusteringMetadata) and repr(self) == repr(other)
 
     def __hash__(self):
-        return hash((self.name, self.k))
+        return hash(repr(self))
 
 
 class ClusteringAlgorithm(log_util.LoggerMixin):
-- 
2.43.0


From 8032ab9b53f81cddab0e30556b613480318a5134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 27/43] fix: find the elbow of each seed of a suite with its
 own costs

---
 spta/clustering/suite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index 777eab8..ae26cef 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -394,7 +394,8 @@ class FindSuiteElbow(log_util.LoggerMixin):
             for metadata in ordered_metadata_instances:
                 costs_by_metadata_for_this_seed[metadata] = costs_by_metadata[metadata]
 
-            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata, ordered_metadata_instances)
+            elbow_for_this_seed = self.find_cost_elbow_given_order(costs_by_metadata_for_this_seed,
+                                                                   ordered_metadata_instances)
             elbows_by_seed[seed] = elbow_for_this_seed
 
         return elbows_by_seed
-- 
2.43.0


From df3188bacc9bbdce5bd286936d7d31ecc4a24df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 28/43] fix: silhouette analysis does not use the distances of
 another region

---
 spta/clustering/silhouette.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/silhouette.py b/spta/clustering/silhouette.py
index f4032b0..d01f0eb 100644
--- a/spta/clustering/silhouette.py
+++ b/spta/clustering/silhouette.py
@@ -24,7 +24,8 @@ class SilhouetteAnalysis(log_util.LoggerMixin):
         corresponding clustering algorithm is returned.
         '''
 
-        # load pre-computed distances
+        # load pre-computed distances, those of another region cannot be used here
+        self.distance_measure.forget_matrix_of_other_region(self.region_metadata)
         if self.distance_measure.distance_matrix is None:
             self.distance_measure.load_distance_matrix_2d(self.region_metadata.distances_filename,
                                                           self.region_metadata.region)
-- 
2.43.0


From bcd49d4ac0b8198b2820369ff650023742ad8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 29/43] fix: do not accept incomplete lists of medoids in a
 suite result

---
 spta/clustering/suite.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spta/clustering/suite.py b/spta/clustering/suite.py
index ae26cef..19119c3 100644
--- a/spta/clustering/suite.py
+++ b/spta/clustering/suite.py
@@ -153,6 +153,13 @@ class ClusteringSuite(log_util.LoggerMixin):
                     in medoids_str_coord_pairs
                 ]
 
+                # an incomplete CSV (e.g. analysis was interrupted) may lack some of the medoids
+                k = self.factory.from_repr(clustering_repr).k
+                if len(medoids) != k:
+                    err_msg = 'Expected {} medoids for {} in {}, got {}'
+                    raise ValueError(err_msg.format(k, clustering_repr, analysis_csv_filepath,
+                                                    len(medoids)))
+
                 # store this tuple
                 result[clustering_repr] = medoids
 
-- 
2.43.0


From a176227bedadcc452b33979ba26d8af20a15a10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 30/43] fix: do not sample medoids as random points of a region
 with an offset

---
 spta/classifier/train_input.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spta/classifier/train_input.py b/spta/classifier/train_input.py
index 621ea99..933912e 100644
--- a/spta/classifier/train_input.py
+++ b/spta/classifier/train_input.py
@@ -80,6 +80,7 @@ class TrainDataWithRandomPoints(log_util.LoggerMixin):
         np.set_printoptions(formatter={'float': '{: 0.3f}'.format})
 
         medoid_indices = extract_all_medoid_indices_from_suite_result(suite_result,
+                                                                      self.region_metadata.region,
                                                                       self.spt_region)
 
         random_points = self.get_random_points_different_to_medoids(count, random_seed, medoid_indices,
@@ -611,10 +612,12 @@ class MedoidSeriesFormatter(log_util.LoggerMixin):
         self.logger.info(msg.format(csv_filepath))
 
 
-def extract_all_medoid_indices_from_suite_result(suite_result, spt_region):
+def extract_all_medoid_indices_from_suite_result(suite_result, region, spt_region):
     '''
     Given the suite_result dictionary built from its CSV, obtain a set of all the medoid indices.
     This is because we want to filter these indices at some point (evaluate_random_points).
+
+    The medoids are in absolute coordinates, the indices are relative to the region.
     '''
     # get all medoid as points, we don't want repeated so we use a set
     unique_medoid_points = set()
@@ -624,7 +627,7 @@ def extract_all_medoid_indices_from_suite_result(suite_result, spt_region):
     # to get the indices, we need the region
     y_len = spt_region.y_len
     unique_medoid_indices = [
-        unique_medoid_point.x * y_len + unique_medoid_point.y
+        (unique_medoid_point.x - region.x1) * y_len + (unique_medoid_point.y - region.y1)
         for unique_medoid_point in unique_medoid_points
     ]
 
-- 
2.43.0


From 97cff1176be2f5f66842d6665b8be64770bdc62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 31/43] fix: random points of training data do not depend on
 other threads

---
 spta/classifier/train_input.py | 8 +++++---
 spta/util/maths.py             | 7 +++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/spta/classifier/train_input.py b/spta/classifier/train_input.py
index 933912e..daf1b2b 100644
--- a/spta/classifier/train_input.py
+++ b/spta/classifier/train_input.py
@@ -155,13 +155,15 @@ class TrainDataWithRandomPoints(log_util.LoggerMixin):
 
     def get_random_points_different_to_medoids(self, count, random_seed, medoid_indices, x_len, y_len):
 
-        # we want some consistency in random process below so we set the seed here
-        np.random.seed(seed=random_seed)
+        # we want some consistency in random process below so we use our own generator here,
+        # the global one may be used by other threads at the same time
+        random_state = np.random.RandomState(random_seed)
 
         # this creates the random sample as required
         max_index = x_len * y_len - 1
         random_indices = maths_util.random_integers_with_blacklist(count, 0, max_index,
-                                                                   blacklist=medoid_indices)
+                                                                   blacklist=medoid_indices,
+                                                                   random_state=random_state)
         self.logger.debug('Random indices found with seed {}: {}'.format(random_seed,
                                                                          random_indices))
 
diff --git a/spta/util/maths.py b/spta/util/maths.py
index f1b128e..8391e0d 100644
--- a/spta/util/maths.py
+++ b/spta/util/maths.py
@@ -52,7 +52,7 @@ def two_balanced_divisors_order_x_y(n, x_len, y_len):
     return (div_x, div_y)
 
 
-def random_integers_with_blacklist(n, min_value, max_value, blacklist=[]):
+def random_integers_with_blacklist(n, min_value, max_value, blacklist=[], random_state=np.random):
     '''
     Given a max value and a blacklist, find n different random integers (uniformly distributed),
     located between [min_value, max_value] (inclusive) but that do not match any integers provided
@@ -67,11 +67,14 @@ def random_integers_with_blacklist(n, min_value, max_value, blacklist=[]):
 
     blacklist
         array with integers that are blacklisted from search
+
+    random_state
+        generator for the random integers, by default the global generator of numpy
     '''
     all_values = range(min_value, max_value + 1)
     allowed = set(all_values).difference(set(blacklist))
     allowed = list(allowed)
-    return np.random.choice(allowed, size=n, replace=False)
+    return random_state.choice(allowed, size=n, replace=False)
 
 
 def years_to_series_interval(year_start, year_end, first_year_in_sample, samples_per_day):
-- 
2.43.0


From 06c58786ac61ce6f20198cff3e69c9930337e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 32/43] fix: results of classifier solvers are saved in the
 chosen directory

---
 spta/classifier/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 99bacaf..5ea257d 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -261,7 +261,7 @@ class SolverFromClassifier(log_util.LoggerMixin):
                                                       error_subregion=error_region_each,
                                                       prediction_region=prediction_region,
                                                       spt_region=self.spt_region,
-                                                      output_home='outputs',
+                                                      output_home=output_home,
                                                       is_out_of_sample=False)
         prediction_result = result_builder.from_classifier(self.clustering_suite, classifier_labels_by_point).build()
         return prediction_result
-- 
2.43.0


From a5616ebd88504c20193b43999de274d6792c02ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 33/43] fix: classifier solvers use the target region of each
 query

---
 spta/classifier/model.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 5ea257d..1c029b9 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -77,10 +77,9 @@ class SolverFromClassifier(log_util.LoggerMixin):
         # cache solvers so that we don't reconstruct them every single time
         self.solvers = {}
 
-    def prepare(self, out_of_sample_region):
+    def prepare(self):
         '''
         Here we make sure that the classifier is loaded so that it can answer with a label.
-        The target_spt_region is used to extract the series used on the classifier to retrieve a label.
         '''
         # need actual code...
         # self.classifier = RandomClassifier()
@@ -89,6 +88,17 @@ class SolverFromClassifier(log_util.LoggerMixin):
 
         self.spt_region = self.region_metadata.create_instance()
 
+        metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
+                                                 model_params=self.model_params,
+                                                 test_len=self.test_len,
+                                                 error_type=self.error_type)
+        self.solver_metadata = metadata_builder.for_suite(self.clustering_suite, self.distance_measure).build()
+
+    def prepare_target_region(self, out_of_sample_region):
+        '''
+        The target_spt_region is used to extract the series used on the classifier to retrieve a label.
+        Each query may specify another one.
+        '''
         if out_of_sample_region is None:
             # no out-of-sample target specified, us the same region
             self.target_spt_region = self.spt_region
@@ -96,12 +106,6 @@ class SolverFromClassifier(log_util.LoggerMixin):
             # use a different, 'out-of-sample' region
             self.target_spt_region = out_of_sample_region.create_instance()
 
-        metadata_builder = SolverMetadataBuilder(region_metadata=self.region_metadata,
-                                                 model_params=self.model_params,
-                                                 test_len=self.test_len,
-                                                 error_type=self.error_type)
-        self.solver_metadata = metadata_builder.for_suite(self.clustering_suite, self.distance_measure).build()
-
     def predict(self, prediction_region, tp, out_of_sample_region=None, output_home='outputs'):
         '''
         Ask the solver to create a forecast for the specified region using the specified number
@@ -117,8 +121,10 @@ class SolverFromClassifier(log_util.LoggerMixin):
         '''
 
         if self.classifier is None:
-            self.prepare(out_of_sample_region)
+            self.prepare()
         assert self.classifier is not None
+
+        self.prepare_target_region(out_of_sample_region)
         assert self.target_spt_region is not None
 
         # get d(point, medoid labels)
-- 
2.43.0


From b420ce2f044bbe31e5bc01dc88b6fa93bfc4c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:20 +0000
Subject: [PATCH 34/43] fix: classifier solvers can be used after a failure to
 prepare them

---
 spta/classifier/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spta/classifier/model.py b/spta/classifier/model.py
index 1c029b9..be2beda 100644
--- a/spta/classifier/model.py
+++ b/spta/classifier/model.py
@@ -84,7 +84,7 @@ class SolverFromClassifier(log_util.LoggerMixin):
         # need actual code...
         # self.classifier = RandomClassifier()
 
-        self.classifier = ClassifierDNN(self.classifier_params)
+        classifier = ClassifierDNN(self.classifier_params)
 
         self.spt_region = self.region_metadata.create_instance()
 
@@ -94,6 +94,9 @@ class SolverFromClassifier(log_util.LoggerMixin):
                                                  error_type=self.error_type)
         self.solver_metadata = metadata_builder.for_suite(self.clustering_suite, self.distance_measure).build()
 
+        # only now everything is prepared, a failure above can be tried again
+        self.classifier = classifier
+
     def prepare_target_region(self, out_of_sample_region):
         '''
         The target_spt_region is used to extract the series used on the classifier to retrieve a label.
-- 
2.43.0


From 08a042af404770934235b6b3eb8b757707d4d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 35/43] fix: a cached partition is told apart by max_iter and
 tol too

---
 spta/clustering/kmedoids.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/spta/clustering/kmedoids.py b/spta/clustering/kmedoids.py
index 672db74..015dddd 100644
--- a/spta/clustering/kmedoids.py
+++ b/spta/clustering/kmedoids.py
@@ -44,6 +44,12 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
             indices_str = '-'.join(indices_str)
             r = '{}_im{}'.format(r, indices_str)
 
+        # these also change the partition, which is cached by this representation
+        if self.max_iter != 1000:
+            r = '{}_iter{}'.format(r, self.max_iter)
+        if self.tol != 0.001:
+            r = '{}_tol{}'.format(r, self.tol)
+
         return r
 
     def __str__(self):
@@ -72,7 +78,15 @@ class KmedoidsClusteringMetadata(ClusteringMetadata):
 
         # 3. mode
         mode = parts[3]   # e.g. lite
-        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode)
+
+        # 4. optional parameters
+        optional = {}
+        for part in parts[4:]:
+            if part.startswith('iter'):
+                optional['max_iter'] = int(part[4:])
+            elif part.startswith('tol'):
+                optional['tol'] = float(part[3:])
+        return KmedoidsClusteringMetadata(k, random_seed=random_seed, mode=mode, **optional)
 
     @classmethod
     def from_classifier_label(cls, classifier_label, mode='lite'):
-- 
2.43.0


From a80294a62a3b9ced0d690644a2720d1b78090006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 36/43] fix: a forecast analysis forgets the models and
 forecasts of the previous region

---
 spta/model/forecast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 2748630..485701e 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -44,6 +44,11 @@ class ForecastAnalysis(log_util.LoggerMixin):
         Then, build one model for each point, using its training series, returning a subclass
         of ModelRegion that can be later used for forecasting.
         '''
+        # what is known about another region is not valid anymore
+        self.model_region = None
+        self.error_analysis = None
+        self.forecast_region_each = None
+
         # save the region for future reference
         self.spt_region = spt_region
 
-- 
2.43.0


From ed88b1e6f608233c96013db2408ad7dd7fa3199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 37/43] fix: the centroid of a region uses the saved distances,
 or calculates them

---
 spta/region/centroid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spta/region/centroid.py b/spta/region/centroid.py
index 4d0df1e..fdde405 100644
--- a/spta/region/centroid.py
+++ b/spta/region/centroid.py
@@ -73,7 +73,10 @@ class CalculateCentroid(log_util.LoggerMixin):
 
         spt_region = spt_region_metadata.create_instance()
 
-        # calculate centroid, should reuse a saved distance matrix if it is available
+        # reuse a saved distance matrix if it is available, otherwise calculate it
+        if distance_measure.try_load_distance_matrix(spt_region) is None:
+            distance_measure.compute_distance_matrix(spt_region)
+
         centroid_calc = CalculateCentroid(distance_measure)
         centroid, _ = centroid_calc.find_centroid_and_distances(spt_region)
         return centroid
-- 
2.43.0


From 099fd01d596b115a9e000994e4ea543f3449dbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 38/43] fix: variance histograms of clusters with a single
 point (no distance other than 0)

---
 spta/distance/variance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spta/distance/variance.py b/spta/distance/variance.py
index 21ef80a..e3928fb 100644
--- a/spta/distance/variance.py
+++ b/spta/distance/variance.py
@@ -80,7 +80,8 @@ class DistanceHistogram(log_util.LoggerMixin):
         # min is the minimum distance after removing the mandatory 0 value from the point of
         # interest, this idiom puts the second-lowest distance at the right place
         # https://stackoverflow.com/a/22546769
-        min_distance_not_zero = np.partition(distances, 1)[1]
+        # there is no such distance when the point of interest is the only one
+        min_distance_not_zero = np.partition(distances, 1)[1] if len(distances) > 1 else np.nan
         max_distance = np.max(distances)
 
         mean = np.mean(distances)
-- 
2.43.0


From b71e286b265dadef078ce4b2113bcad0cec150ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 39/43] fix: number of bins given to partition_analysis (--bins
 N) is a number, not a strategy

---
 experiments/clustering/partition_analysis.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/experiments/clustering/partition_analysis.py b/experiments/clustering/partition_analysis.py
index 1ccae9e..eabef76 100644
--- a/experiments/clustering/partition_analysis.py
+++ b/experiments/clustering/partition_analysis.py
@@ -61,7 +61,7 @@ def processRequest():
     help_msg = 'Add N random points outside each cluster in variance analysis, =0 for auto N'
     parser.add_argument('--random', help=help_msg)
     help_msg = 'bins argument for plt.hist(), (default: %(default)s)'
-    parser.add_argument('--bins', help=help_msg, default='auto')
+    parser.add_argument('--bins', help=help_msg, default='auto', type=bins_argument)
 
     # logging
     log_options = ('WARN', 'INFO', 'DEBUG')
@@ -78,6 +78,13 @@ def processRequest():
     analyze_suite(args, logger)
 
 
+def bins_argument(value):
+    '''
+    The bins of plt.hist() are either a number of bins, or the name of a strategy.
+    '''
+    return int(value) if value.isdigit() else value
+
+
 def analyze_suite(args, logger):
 
     region_metadata, clustering_suite = metadata_from_args(args)
-- 
2.43.0


From 27a9ec98e595ae214e22359329a23ecfe5807711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 40/43] fix: partition_analysis refuses --random without
 --variance, as announced

---
 experiments/clustering/partition_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/clustering/partition_analysis.py b/experiments/clustering/partition_analysis.py
index eabef76..2eecb72 100644
--- a/experiments/clustering/partition_analysis.py
+++ b/experiments/clustering/partition_analysis.py
@@ -71,7 +71,7 @@ def processRequest():
     args = parser.parse_args()
 
     # --random requires --variance
-    if 'random' in vars(args) and 'variance' not in vars(args):
+    if args.random is not None and not args.variance:
         parser.error('--random optional argument requires --variance')
 
     logger = log_util.setup_log_argparse(args)
-- 
2.43.0


From 497d022c30296a82600878ee8b3eee5d87e6816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 41/43] fix: figures of distances are saved before they are
 shown, not blank

---
 experiments/region/distance.py | 9 +++++++--
 spta/kmedoids/silhouette.py    | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/experiments/region/distance.py b/experiments/region/distance.py
index 184b29d..fdf5ee0 100644
--- a/experiments/region/distance.py
+++ b/experiments/region/distance.py
@@ -93,8 +93,11 @@ def show_distances(spt_region, distance_matrix):
 
     # work on Point at (0, 0)
     distances_0_0_as_region = SpatialRegion(distance_matrix[0].reshape((x_len, y_len)))
+    # provide the subplot, otherwise the figure is shown (and gone) before it is saved
+    _, subplot = plt.subplots(1, 1)
     plot_util.plot_discrete_spatial_region(distances_0_0_as_region,
-                                           'Distances to point at (0,0)', clusters=False)
+                                           'Distances to point at (0,0)', clusters=False,
+                                           subplot=subplot)
     plt.draw()
     distances_0_0_output = 'plots/distances_0_0_{}.eps'.format(metadata.name)
     plt.savefig(distances_0_0_output)
@@ -106,8 +109,10 @@ def show_distances(spt_region, distance_matrix):
         # so far the center variable points to first element of 'center' row, add half row
         center = center + int(y_len / 2)
     distances_center_as_region = SpatialRegion(distance_matrix[center].reshape((x_len, y_len)))
+    _, subplot = plt.subplots(1, 1)
     plot_util.plot_discrete_spatial_region(distances_center_as_region,
-                                           'Distances to center point', clusters=False)
+                                           'Distances to center point', clusters=False,
+                                           subplot=subplot)
     plt.draw()
     distances_center_output = 'plots/distances_center_{}.eps'.format(metadata.name)
     plt.savefig(distances_center_output)
diff --git a/spta/kmedoids/silhouette.py b/spta/kmedoids/silhouette.py
index 85848ea..dd0e4d5 100644
--- a/spta/kmedoids/silhouette.py
+++ b/spta/kmedoids/silhouette.py
@@ -131,8 +131,11 @@ class KmedoidsWithSilhouette(object):
 
         # work on Point at (0, 0)
         distances_0_0_as_region = SpatialRegion(distance_matrix[0].reshape((x_len, y_len)))
+        # provide the subplot, otherwise the figure is shown (and gone) before it is saved
+        _, subplot = plt.subplots(1, 1)
         plot_util.plot_discrete_spatial_region(distances_0_0_as_region,
-                                               'Distances to point at (0,0)', clusters=False)
+                                               'Distances to point at (0,0)', clusters=False,
+                                               subplot=subplot)
         plt.draw()
         distances_0_0_output = 'plots/distances_0_0_{}.eps'.format(self.sptr_metadata.name)
         plt.savefig(distances_0_0_output)
@@ -145,8 +148,10 @@ class KmedoidsWithSilhouette(object):
             center = center + int(y_len / 2)
 
         distances_center_as_region = SpatialRegion(distance_matrix[center].reshape((x_len, y_len)))
+        _, subplot = plt.subplots(1, 1)
         plot_util.plot_discrete_spatial_region(distances_center_as_region,
-                                               'Distances to center point', clusters=False)
+                                               'Distances to center point', clusters=False,
+                                               subplot=subplot)
         plt.draw()
         distances_center_output = 'plots/distances_center_{}.eps'.format(self.sptr_metadata.name)
         plt.savefig(distances_center_output)
-- 
2.43.0


From 66e1e1fc7c69b7965c439ba5056a873a333c260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 42/43] fix: plot of distances vs errors when there is no model
 at the medoid

---
 spta/model/forecast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spta/model/forecast.py b/spta/model/forecast.py
index 485701e..7e47326 100644
--- a/spta/model/forecast.py
+++ b/spta/model/forecast.py
@@ -319,9 +319,11 @@ class ForecastAnalysis(log_util.LoggerMixin):
         _, subplot = plt.subplots(1, 1, figsize=(7, 5))
         subplot.plot(distances_to_point, forecast_errors, 'bo')
 
-        # get ARIMA order at point of interest
+        # get ARIMA order at point of interest, there is none if training failed there
         fitted_arima_at_point = self.model_region.value_at(point_of_interest)
-        arima_order = fitted_arima_at_point.model.order
+        arima_order = None
+        if fitted_arima_at_point is not None:
+            arima_order = fitted_arima_at_point.model.order
 
         # title
         title = 'Distances to medoid vs forecast errors at medoid'
-- 
2.43.0


From 1d4caffaba593e30d8900c48126bda9f6e93c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:24 +0000
Subject: [PATCH 43/43] fix: variance histograms show the random points that
 their axes were made for

---
 spta/distance/variance.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/spta/distance/variance.py b/spta/distance/variance.py
index e3928fb..190ad7b 100644
--- a/spta/distance/variance.py
+++ b/spta/distance/variance.py
@@ -495,21 +495,32 @@ class DistanceHistogramClusters(DistanceHistogram):
     def distances_to_point(self, point_of_interest):
         raise NotImplementedError
 
-    def max_distance(self):
+    def distances_to_centroids(self):
+        '''
+        Distances to the centroid of each cluster.
+        Should also work with decorated histograms.
+        '''
+        return [
+            histogram.distances_to_point(cluster.centroid)
+            for histogram, cluster
+            in zip(self.histograms, self.clusters)
+        ]
+
+    def max_distance(self, distances=None):
         '''
         Calculate maximum overall distance among all cluster distances.
-        Uses the centroids of each cluster to find the distances for each cluster.
+        Uses the provided distances to the centroid of each cluster, as shown in its histogram
+        (random points are different each time they are requested).
+        By default, finds the distances for each cluster.
         '''
+        if distances is None:
+            distances = self.distances_to_centroids()
+
         # idiom to find overall maximum
         max_dist = -np.Inf
 
         # iterate clusters and access all histograms
-        for i, cluster_i in enumerate(self.clusters):
-            cluster_i_hist = self.histograms[i]
-
-            # find the distances to the centroid
-            # should also work with decorated histograms
-            cluster_i_dists = cluster_i_hist.distances_to_point(cluster_i.centroid)
+        for cluster_i_hist, cluster_i_dists in zip(self.histograms, distances):
 
             # since max_distance keeps maximum, use this instead of asking which is larger
             # should also work with decorated histograms
@@ -544,8 +555,11 @@ class DistanceHistogramClusters(DistanceHistogram):
 
         _, subplots = plt.subplots(div_x, div_y, figsize=figsize)
 
+        # find the distances to the centroid of each cluster
+        distances = self.distances_to_centroids()
+
         # use maximum distance to override x_lim of all subplots
-        max_override = self.max_distance()
+        max_override = self.max_distance(distances)
 
         # if saving plot, the filename is calculated using the clustering algorithm and possible
         # random points
@@ -578,8 +592,7 @@ class DistanceHistogramClusters(DistanceHistogram):
             # don't pass plot_name to avoid saving each subplot
             # should also work with decorated histograms
             histogram_i = self.histograms[i]
-            distances_i = histogram_i.distances_to_point(cluster.centroid)
-            histogram_i.plot(distances=distances_i,
+            histogram_i.plot(distances=distances[i],
                              subplot=subplot,
                              with_statistics=with_statistics,
                              plot_name=None,
-- 
2.43.0

