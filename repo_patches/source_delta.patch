From 37f06be5ebff3d4e8592940b0ffa3359518f080e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 01/60] fix: make the truth value of a TimeFrame work in Python
 3

TimeFrame only defined the Python 2 name __nonzero__, so empty and fully
open frames were truthy: MeterGroup.load did not skip empty sections and
TimeFrame.split did not reject frames it cannot split.
---
 nilmtk/timeframe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 08e1035..1537bb9 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -212,7 +212,7 @@ class TimeFrame(object):
         sliced.timeframe = self
         return sliced
 
-    def __nonzero__(self):
+    def __bool__(self):
         if self.empty:
             return False
         else:
-- 
2.43.0


From f65a1069bded8230a6b41f4bd587b1d0ea0ae99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:16 +0000
Subject: [PATCH 02/60] fix: TimeFrame.slice on open-ended and empty time
 frames

A None bound means 'infinitely far' but was compared with the index
(TypeError), and slicing with an empty frame hit an unbound local.
---
 nilmtk/timeframe.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 1537bb9..6861821 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -202,13 +202,19 @@ class TimeFrame(object):
         -------
         frame : sliced frame
         """
-        if not self.empty:
-            if self.include_end:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index <= self.end)]
-            else:
-                sliced = frame[(frame.index >= self.start) &
-                               (frame.index < self.end)]
+        if self.empty:
+            sliced = frame.iloc[:0]
+        else:
+            sliced = frame
+            if self.start is not None:
+                sliced = sliced[sliced.index >= self.start]
+            if self.end is not None:
+                if self.include_end:
+                    sliced = sliced[sliced.index <= self.end]
+                else:
+                    sliced = sliced[sliced.index < self.end]
+            if sliced is frame:
+                sliced = frame.copy()
         sliced.timeframe = self
         return sliced
 
-- 
2.43.0


From e1c10839abf63b646babe514a2616afdd7d67e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:30 +0000
Subject: [PATCH 03/60] fix: use np.nan, np.NaN was removed in NumPy 2

Every one of these lines raised AttributeError: MeterGroup.load, the
dropout rate of short chunks, proportions of zero energy, ...
---
 nilmtk/electric.py          | 8 ++++----
 nilmtk/metergroup.py        | 8 ++++----
 nilmtk/metrics.py           | 2 +-
 nilmtk/stats/dropoutrate.py | 2 +-
 nilmtk/utils.py             | 4 ++--
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index 1406120..b66eff4 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -258,7 +258,7 @@ class Electric(object):
         else:
             td = self.get_timeframe().timedelta
         if not td:
-            return np.NaN
+            return np.nan
         uptime_secs = td.total_seconds()
         periods = uptime_secs / offset_alias_to_seconds(offset_alias)
         energy = self.total_energy(**load_kwargs)
@@ -285,7 +285,7 @@ class Electric(object):
         # TODO test effect of setting `sections` for other
         other_total_energy = other.total_energy(**loader_kwargs)
         if other_total_energy.sum() == 0:
-            return np.NaN
+            return np.nan
 
         total_energy = self.total_energy(**loader_kwargs)
         if total_energy.empty:
@@ -336,11 +336,11 @@ class Electric(object):
 
         x_n, x_sum = sum_and_count(self)
         if x_n <= 1:
-            return np.NaN
+            return np.nan
 
         y_n, y_sum = sum_and_count(other)
         if y_n <= 1:
-            return np.NaN
+            return np.nan
 
         x_bar = x_sum / x_n 
         y_bar = y_sum / y_n
diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 9ba367c..16e23e7 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1093,7 +1093,7 @@ class MeterGroup(Electric):
                 print("   {:.2%}".format(prop))
         
         if all_nan:
-            proportion = np.NaN
+            proportion = np.nan
         return proportion
 
     def available_ac_types(self, physical_quantity):
@@ -1718,7 +1718,7 @@ class MeterGroup(Electric):
             series['proportion_uptime'] = (mains_uptime.total_seconds() /
                                            timeframe.timedelta.total_seconds())
         except ZeroDivisionError:
-            series['proportion_uptime'] = np.NaN
+            series['proportion_uptime'] = np.nan
         series['average_mains_energy_per_day'] = self.mains().average_energy_per_period()
 
         return series
@@ -1787,7 +1787,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # See http://stackoverflow.com/a/27526721/732596
 
     DTYPE = np.float32
-    cumulator = pd.DataFrame(np.NaN, index=index, columns=columns, dtype=DTYPE)
+    cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
     columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
     timeframe = None
@@ -1827,7 +1827,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             where_both_are_nan = np.isnan(cumulator_col) & np.isnan(aligned)
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
-            cumulator_col[where_both_are_nan] = np.NaN
+            cumulator_col[where_both_are_nan] = np.nan
             del aligned
             del where_both_are_nan
             gc.collect()
diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index b2467c1..9e9e5ae 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -240,7 +240,7 @@ def f1_score(predictions, ground_truth):
             warn("No aligned samples when calculating F1-score for prediction"
                  " meter {} and ground truth meter {}."
                  .format(pred_meter, ground_truth_meter))
-            avg_score = np.NaN
+            avg_score = np.nan
         f1_scores[pred_meter.instance()] = avg_score
 
     return pd.Series(f1_scores)
diff --git a/nilmtk/stats/dropoutrate.py b/nilmtk/stats/dropoutrate.py
index 817f456..02c1593 100644
--- a/nilmtk/stats/dropoutrate.py
+++ b/nilmtk/stats/dropoutrate.py
@@ -39,7 +39,7 @@ def get_dropout_rate(data, sample_period):
     """
     MIN_N_SAMPLES = 5
     if len(data) < MIN_N_SAMPLES:
-        return np.NaN
+        return np.nan
 
     index = get_index(data)
     assert(index[-1] > index[0])
diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index d481f53..e2cf081 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -334,7 +334,7 @@ def normalise_timestamp(timestamp, freq):
     in the set of timestamps returned by pd.DataFrame.resample(freq=freq)
     """
     timestamp = pd.Timestamp(timestamp)
-    series = pd.Series(np.NaN, index=[timestamp])
+    series = pd.Series(np.nan, index=[timestamp])
     resampled = series.resample(freq).mean()
     return resampled.index[0]
 
@@ -434,7 +434,7 @@ def compute_rmse(ground_truth, predictions, pretty=True):
         if not df_app.empty:
             app_rms_error = np.sqrt(mean_squared_error(df_app['gt'], df_app['pr']))
         else:
-            app_rms_error = np.NaN
+            app_rms_error = np.nan
 
         if pretty:
             app_counts[app_label] += 1
-- 
2.43.0


From 3bcbd1183f766b5aa407d842d1290a5c52525b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:47 +0000
Subject: [PATCH 04/60] fix: query HDF5 tables with one expression, not a list
 of terms

pandas resolves the variables of a list of terms one stack frame too far
out on Python 3.12 (comprehensions are inlined there), so every load of a
section raised 'ValueError: Invalid Attribute context Load'.
---
 nilmtk/datastore/hdfdatastore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 8a5aef2..306cb95 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -81,7 +81,8 @@ class HDFDataStore(DataStore):
                     continue
             else:
                 try:
-                    coords = self.store.select_as_coordinates(key=key, where=terms)
+                    coords = self.store.select_as_coordinates(
+                        key=key, where=' & '.join(terms))
                 except AttributeError as e:
                     if str(e) == ("'NoneType' object has no attribute "
                                   "'read_coordinates'"):
@@ -292,7 +293,7 @@ class HDFDataStore(DataStore):
             nrows = 0
         elif timeframe_intersect:
             terms = timeframe_intersect.query_terms('timeframe_intersect')
-            coords = self.store.select_as_coordinates(key, terms)
+            coords = self.store.select_as_coordinates(key, ' & '.join(terms))
             nrows = len(coords)
         else:
             storer = self._get_storer(key)
-- 
2.43.0


From a0407a3df70fd46427f42eda8a7cf9fa7104b985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:33 +0000
Subject: [PATCH 05/60] fix: TimeFrame.split keeps the last instant of a frame
 that includes its end

---
 nilmtk/timeframe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nilmtk/timeframe.py b/nilmtk/timeframe.py
index 6861821..7d49284 100644
--- a/nilmtk/timeframe.py
+++ b/nilmtk/timeframe.py
@@ -297,6 +297,7 @@ class TimeFrame(object):
             else:
                 yield TimeFrame(start=timeframe.start, end=allowed_end)
                 timeframe = TimeFrame(start=allowed_end, end=timeframe.end)
+                timeframe.include_end = self.include_end
 
 
 def split_timeframes(timeframes, duration_threshold):
-- 
2.43.0


From a45e693f513ec77496b5e5af02565489b5604cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:59 +0000
Subject: [PATCH 06/60] fix: good sections across chunks with fewer than two
 valid samples

Such a chunk returned no section at all, so a good section which was open
at the end of the previous chunk was cut there and the 'open-ended' flag
went stale.  The general code handles a single sample correctly.
---
 nilmtk/stats/goodsections.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index e3c1a11..25ac75e 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -96,8 +96,10 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
     index = df.dropna().sort_index().index
     del df
 
-    if len(index) < 2:
-        return []
+    if len(index) == 0:
+        # A good section which is open at both ends of this chunk goes on
+        return ([TimeFrame()]
+                if previous_chunk_ended_with_open_ended_good_section else [])
 
     timedeltas_sec = timedelta64_to_secs(diff(index.values))
     timedeltas_check = timedeltas_sec <= max_sample_period
-- 
2.43.0


From 53c3d87e5627b21947f19163796026daff368b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:59 +0000
Subject: [PATCH 07/60] fix: good sections when the look-ahead rows are all NaN

look_ahead.dropna().index[0] raised IndexError.
---
 nilmtk/stats/goodsections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsections.py b/nilmtk/stats/goodsections.py
index 25ac75e..eda0509 100644
--- a/nilmtk/stats/goodsections.py
+++ b/nilmtk/stats/goodsections.py
@@ -128,9 +128,10 @@ def get_good_sections(df, max_sample_period, look_ahead=None,
 
     # Use look_ahead to see if we need to append a 
     # good sect start or good sect end.
+    look_ahead = None if look_ahead is None else look_ahead.dropna()
     look_ahead_valid = look_ahead is not None and not look_ahead.empty
     if look_ahead_valid:
-        look_ahead_timedelta = look_ahead.dropna().index[0] - last_index
+        look_ahead_timedelta = look_ahead.index[0] - last_index
         look_ahead_gap = look_ahead_timedelta.total_seconds()
     if last_timedeltas_check: # current chunk ends with a good section
         if not look_ahead_valid or look_ahead_gap > max_sample_period:
-- 
2.43.0


From 143c187782748c17ea7c78d031be6de9b3471c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:59 +0000
Subject: [PATCH 08/60] fix: GoodSectionsResults.combined must not modify the
 results

It popped sections off the stored per-chunk lists, so calling it (or
to_dict) twice raised IndexError or returned other sections, and a later
export_to_cache stored damaged sections.
---
 nilmtk/stats/goodsectionsresults.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 9c917bb..2e4c949 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -1,4 +1,5 @@
 import pandas as pd
+from copy import deepcopy
 from datetime import timedelta
 import matplotlib.pyplot as plt
 from ..results import Results
@@ -46,7 +47,8 @@ class GoodSectionsResults(Results):
         sections = TimeFrameGroup()
         end_date_of_prev_row = None
         for index, row in self._data.iterrows():
-            row_sections = row['sections']
+            # `row_sections` is modified below, so don't touch self._data
+            row_sections = deepcopy(row['sections'])
 
             # Check if first TimeFrame of row_sections needs to be merged with
             # last TimeFrame of previous section
-- 
2.43.0


From 92dfb020b5ec9453d39fa38675c4256b1e59bd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:32 +0000
Subject: [PATCH 09/60] fix: count the row shared by two chunks once in the
 total of 'energy'

HDFDataStore.load repeats the boundary row in consecutive chunks, so the
total of an 'energy' measurement depended on the chunk size.
---
 nilmtk/stats/totalenergy.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/nilmtk/stats/totalenergy.py b/nilmtk/stats/totalenergy.py
index 8971db6..6656e5e 100644
--- a/nilmtk/stats/totalenergy.py
+++ b/nilmtk/stats/totalenergy.py
@@ -22,9 +22,15 @@ class TotalEnergy(Node):
         self.check_requirements()
         metadata = self.upstream.get_metadata()
         max_sample_period = metadata['device']['max_sample_period']
+        prev_chunk_end = None
         for chunk in self.upstream.process():
-            energy = get_total_energy(chunk, max_sample_period)
+            # Consecutive chunks share their boundary row
+            first_row_seen = (prev_chunk_end is not None and len(chunk) > 0
+                              and chunk.index[0] == prev_chunk_end)
+            energy = get_total_energy(chunk, max_sample_period, first_row_seen)
             self.results.append(chunk.timeframe, energy)
+            if len(chunk) > 0:
+                prev_chunk_end = chunk.index[-1]
             yield chunk
 
     def required_measurements(self, state):
@@ -36,13 +42,16 @@ class TotalEnergy(Node):
                 ['power', 'energy', 'cumulative energy']]
 
 
-def get_total_energy(df, max_sample_period):
+def get_total_energy(df, max_sample_period, first_row_seen=False):
     """Calculate total energy for energy / power data in a dataframe.
 
     Parameters
     ----------
     df : pd.DataFrame
     max_sample_period : float or int
+    first_row_seen : bool, optional
+        True if the first row was also the last row of the previous chunk.
+        Its 'energy' has been counted already.
 
     Returns
     -------
@@ -72,7 +81,8 @@ def get_total_energy(df, max_sample_period):
         elif physical_quantity == 'cumulative energy':
             energy[ac_type] = series.iloc[-1] - series.iloc[0]
         elif physical_quantity == 'energy':
-            energy[ac_type] = series.sum()
+            energy[ac_type] = (series.iloc[1:] if first_row_seen
+                               else series).sum()
 
     return energy
 
-- 
2.43.0


From c65c8637f10779461dcdf287c0e04c399f89328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 10/60] fix: last row of a whole-table HDF5 load is nrows - 1

Loading a table without a window asked for chunks up to row nrows, one past
the last. When nrows % chunksize == 1 the extra chunk repeated the last row
and its zero-length time frame raised ValueError.
---
 nilmtk/datastore/hdfdatastore.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 306cb95..4c09205 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -73,8 +73,9 @@ class HDFDataStore(DataStore):
             terms = window_intersect.query_terms('window_intersect')
             if terms is None:
                 section_start_i = 0
-                section_end_i = self.store.get_storer(key).nrows
-                if section_end_i <= 1:
+                # index of the last row, like `coords[-1]` below
+                section_end_i = self.store.get_storer(key).nrows - 1
+                if section_end_i < 1:
                     data = pd.DataFrame()
                     data.timeframe = section
                     yield data
-- 
2.43.0


From 124e9872352c2cfac1b73bcb4fd5ea5e18d899d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:59 +0000
Subject: [PATCH 11/60] fix: load sections which hold a single row from HDF5

Such a section yielded nothing at all: neither its row nor the empty frame
promised for sections without data.
---
 nilmtk/datastore/hdfdatastore.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nilmtk/datastore/hdfdatastore.py b/nilmtk/datastore/hdfdatastore.py
index 4c09205..f9b5339 100644
--- a/nilmtk/datastore/hdfdatastore.py
+++ b/nilmtk/datastore/hdfdatastore.py
@@ -91,7 +91,11 @@ class HDFDataStore(DataStore):
                     else:
                         raise
                 n_coords = len(coords)
-                if n_coords == 0:
+                # One row spans no time, so an open-ended section which holds
+                # a single row is as good as empty (as is a table of one row).
+                if n_coords == 0 or (n_coords == 1 and (
+                        window_intersect.start is None or
+                        window_intersect.end is None)):
                     data = pd.DataFrame()
                     data.timeframe = window_intersect
                     yield data
@@ -101,8 +105,11 @@ class HDFDataStore(DataStore):
                 section_end_i   = coords[-1]
                 del coords
 
-            slice_starts = range(section_start_i, section_end_i, chunksize)
-            n_chunks = int(np.ceil((section_end_i - section_start_i) / chunksize))
+            # A section with a single row is a chunk too
+            slice_starts = range(section_start_i,
+                                 max(section_end_i, section_start_i + 1),
+                                 chunksize)
+            n_chunks = len(slice_starts)
 
             if n_chunks > 1:
                 self.all_sections_smaller_than_chunksize = False
-- 
2.43.0


From c639a19175c1db4fe16e271453513de6707c3b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:15 +0000
Subject: [PATCH 12/60] fix: cache statistics of different columns separately

Cached results only record a time frame, so total_energy(ac_type='active')
followed by total_energy() returned just the active energy, and
total_energy(physical_quantity='power') after total_energy() returned the
energy of whichever measurement had been cached.
---
 nilmtk/elecmeter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 1df5012..386b39f 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -639,7 +639,9 @@ class ElecMeter(Hashable, Electric):
 
         Cached statistics lives in the DataStore at
         'building<I>/elec/cache/meter<K>/<statistic_name>' e.g.
-        'building1/elec/cache/meter1/total_energy'.  We store the
+        'building1/elec/cache/meter1/total_energy'.  If only some of the
+        meter's columns are requested then their names are appended to the
+        name of the statistic.  We store the
         'full' statistic... i.e we store a representation of the `Results._data`
         DataFrame. Some times we need to do some conversion to store
         `Results._data` on disk.  The logic for doing this conversion lives
@@ -682,7 +684,12 @@ class ElecMeter(Hashable, Electric):
         sections = [s for s in sections if not s.empty]
 
         # Retrieve usable stats from cache
-        key_for_cached_stat = self.key_for_cached_stat(results_obj.name)
+        stat_name = results_obj.name
+        if columns and set(columns) != set(self.available_columns()):
+            # Statistics of a subset of the columns are cached separately
+            stat_name = "_".join([stat_name] + [
+                "_".join(col).replace(' ', '_') for col in sorted(columns)])
+        key_for_cached_stat = self.key_for_cached_stat(stat_name)
         if loader_kwargs.get('preprocessing') is None:
             cached_stat = self.get_cached_stat(key_for_cached_stat)
             results_obj.import_from_cache(cached_stat, sections)
-- 
2.43.0


From 2a65e660f940adc4be3a40e420251daa35322a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:28 +0000
Subject: [PATCH 13/60] fix: keep the cached statistics of different datasets
 apart

The cache is one store shared by all datasets, but its keys only named the
building and meter, so meters of two datasets read each other's statistics.
---
 nilmtk/elecmeter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 386b39f..b1aaf33 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -638,8 +638,8 @@ class ElecMeter(Hashable, Electric):
         cache.
 
         Cached statistics lives in the DataStore at
-        'building<I>/elec/cache/meter<K>/<statistic_name>' e.g.
-        'building1/elec/cache/meter1/total_energy'.  If only some of the
+        '<dataset>/building<I>/elec/cache/meter<K>/<statistic_name>' e.g.
+        'REDD/building1/elec/cache/meter1/total_energy'.  If only some of the
         meter's columns are requested then their names are appended to the
         name of the statistic.  We store the
         'full' statistic... i.e we store a representation of the `Results._data`
@@ -796,8 +796,12 @@ class ElecMeter(Hashable, Electric):
         else:
             meter_str = "{:d}".format(self.instance())
 
-        return ("building{:d}/elec/cache/meter{}/{:s}"
-                .format(self.building(), meter_str, stat_name))
+        key = ("building{:d}/elec/cache/meter{}/{:s}"
+               .format(self.building(), meter_str, stat_name))
+        if self.dataset():
+            # The cache is shared by all datasets
+            key = str(self.dataset()).replace('/', '_') + '/' + key
+        return key
 
     def clear_cache(self, verbose=False):
         """
-- 
2.43.0


From 6116ad079b45bcdedef09db8c6337910da15fd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:41 +0000
Subject: [PATCH 14/60] fix: close good sections cached next to rows which were
 not requested

A good section which continues from the previous chunk is cached with an open
start. When only its own row was read back, good_sections() returned a time
frame without a start (or raised, if nothing of the section was left).
---
 nilmtk/stats/goodsectionsresults.py | 61 ++++++++++++++++-------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/nilmtk/stats/goodsectionsresults.py b/nilmtk/stats/goodsectionsresults.py
index 2e4c949..3753951 100644
--- a/nilmtk/stats/goodsectionsresults.py
+++ b/nilmtk/stats/goodsectionsresults.py
@@ -52,38 +52,35 @@ class GoodSectionsResults(Results):
 
             # Check if first TimeFrame of row_sections needs to be merged with
             # last TimeFrame of previous section
-            if (end_date_of_prev_row is not None):
-
-                rows_are_adjacent = (
-                    (end_date_of_prev_row - self.max_sample_period_td)
-                    <= index <=
-                    end_date_of_prev_row)
-
-                if rows_are_adjacent and row_sections[0].start is None:
-                    assert sections[-1].end is None
-                    sections[-1].end = row_sections[0].end
-                    row_sections.pop(0)
-                else:
-                    # row_sections[0] and sections[-1] were not in adjacent chunks
-                    # so check if they are both open-ended and close them...
-                    if sections and sections[-1].end is None:
-                        try:
-                            sections[-1].end = end_date_of_prev_row
-                        except ValueError: # end_date_of_prev_row before sections[-1].start
-                            pass
-                    if row_sections and row_sections[0].start is None:
-                        try:
-                            row_sections[0].start = index
-                        except ValueError:
-                            pass
-                
+            rows_are_adjacent = (
+                end_date_of_prev_row is not None and
+                (end_date_of_prev_row - self.max_sample_period_td)
+                <= index <=
+                end_date_of_prev_row)
+
+            if (rows_are_adjacent and row_sections and
+                    row_sections[0].start is None and
+                    sections and sections[-1].end is None):
+                sections[-1].end = row_sections[0].end
+                row_sections.pop(0)
+            else:
+                # row_sections[0] and sections[-1] were not in adjacent chunks
+                # so check if they are both open-ended and close them...
+                _close_last(sections, end_date_of_prev_row)
+                # (row_sections[0] can also be open-ended if it was cached
+                # together with an adjacent row which wasn't asked for.)
+                if row_sections and row_sections[0].start is None:
+                    try:
+                        row_sections[0].start = index
+                    except ValueError: # nothing left of it
+                        row_sections.pop(0)
+
             end_date_of_prev_row = row['end']
             sections.extend(row_sections)
 
+        _close_last(sections, end_date_of_prev_row)
         if sections:
             sections[-1].include_end = True
-            if sections[-1].end is None:
-                sections[-1].end = end_date_of_prev_row
 
         return sections
 
@@ -144,3 +141,13 @@ class GoodSectionsResults(Results):
                      'section_end': convert_none_to_nat(section.end)})
         df = pd.DataFrame(data_for_cache, index=index_for_cache)
         return df.apply(pd.to_numeric, errors='ignore')
+
+
+def _close_last(sections, end):
+    """Close the last of `sections` if it is open-ended, or drop it if it
+    starts where the data ends."""
+    if sections and sections[-1].end is None:
+        try:
+            sections[-1].end = end
+        except ValueError:
+            sections.pop()
-- 
2.43.0


From 7158b1d82d72aa099f2debe435a09d5fca46e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:41 +0000
Subject: [PATCH 15/60] fix: dropout rate of a meter without good sections is
 NaN

It raised KeyError: 'n_samples'.
---
 nilmtk/stats/dropoutrateresults.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/stats/dropoutrateresults.py b/nilmtk/stats/dropoutrateresults.py
index 4b92bfa..8079dab 100644
--- a/nilmtk/stats/dropoutrateresults.py
+++ b/nilmtk/stats/dropoutrateresults.py
@@ -1,3 +1,4 @@
+import numpy as np
 import matplotlib.pyplot as plt
 from ..results import Results
 from ..consts import SECS_PER_DAY
@@ -19,8 +20,10 @@ class DropoutRateResults(Results):
 
         Returns
         -------
-        dropout_rate : float, [0,1]
+        dropout_rate : float, [0,1]; or NaN if there are no results.
         """
+        if self._data.empty:
+            return np.nan
         tot_samples = self._data['n_samples'].sum()
         proportion = self._data['n_samples'] / tot_samples
         dropout_rate = (self._data['dropout_rate'] * proportion).sum()
-- 
2.43.0


From 42e774ac19634430183197171cb62535704ffe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:39 +0000
Subject: [PATCH 16/60] fix: Results.unify raises RuntimeError when a period is
 missing

The end of the missing period was looked up before testing whether the other
results have the period at all, so a KeyError was raised instead.
---
 nilmtk/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/results.py b/nilmtk/results.py
index f813228..a0295ea 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -122,8 +122,8 @@ class Results(object):
         """
         assert isinstance(other, self.__class__)
         for i, row in self._data.iterrows():
-            if (other._data['end'].loc[i] != row['end'] or
-                i not in other._data.index):
+            if (i not in other._data.index or
+                other._data['end'].loc[i] != row['end']):
                 raise RuntimeError("The sections we are trying to merge"
                                    " do not have the same end times so we"
                                    " cannot merge them.")
-- 
2.43.0


From 22fb27edb9620ac42535da2928acc16b500bbc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:06 +0000
Subject: [PATCH 17/60] fix: find_steady_states on a signal without edges

It raised IndexError before reaching the branch which returns two empty
frames when there are no events.
---
 nilmtk/feature_detectors/steady_states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/feature_detectors/steady_states.py b/nilmtk/feature_detectors/steady_states.py
index e273b8b..2f022f3 100644
--- a/nilmtk/feature_detectors/steady_states.py
+++ b/nilmtk/feature_detectors/steady_states.py
@@ -161,7 +161,7 @@ def find_steady_states(dataframe, min_n_samples=2, state_threshold=15,
     # than the noise threshold
     #  https://github.com/nilmtk/nilmtk/issues/400
 
-    if np.sum(
+    if steady_states and np.sum(
             steady_states[0] > noise_level) and index_transitions[0] == index_steady_states[0] == dataframe.iloc[0].name:
         transitions = transitions[1:]
         index_transitions = index_transitions[1:]
-- 
2.43.0


From c8dc0d9646703c64700c102cfdcf8d12c0330bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:06 +0000
Subject: [PATCH 18/60] fix: FHMM states with equal means must stay distinct

return_sorting_mapping mapped every state with the same mean to the first of
them, so the sorted start and transition probabilities no longer summed to 1
(e.g. for an appliance which is never on).
---
 nilmtk/disaggregate/fhmm_exact.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/nilmtk/disaggregate/fhmm_exact.py b/nilmtk/disaggregate/fhmm_exact.py
index 8a91b59..90c2454 100644
--- a/nilmtk/disaggregate/fhmm_exact.py
+++ b/nilmtk/disaggregate/fhmm_exact.py
@@ -128,14 +128,9 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
-    # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
-    return mapping
+    # A stable sort maps states with equal means to different states
+    order = np.argsort(np.asarray(means).flatten(), kind='mergesort')
+    return dict(enumerate(order))
 
 
 def decode_hmm(length_sequence, centroids, appliance_list, states):
-- 
2.43.0


From 1c63cee364a744c41ef58136edbb6a192200e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:06 +0000
Subject: [PATCH 19/60] fix: Hart85 assigns the power of 1-d centroids as a
 scalar

NumPy 2 raises 'setting an array element with a sequence' otherwise.
---
 nilmtk/disaggregate/hart_85.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 84510c2..7ecce54 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -514,7 +514,10 @@ class Hart85(Disaggregator):
         ndim = len(self.centroids.columns)
         for appliance in states_chunk.columns:
             values = states_chunk[[appliance]].values.flatten()
+            on_power = self.centroids.loc[appliance].values
             if ndim == 1:
+                # NumPy no longer assigns an array of one element to a scalar
+                on_power = on_power[0]
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
@@ -525,10 +528,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = on_power
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = on_power
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -561,10 +564,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = on_power
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = on_power
                             i = i + 1
 
             di[appliance] = power
-- 
2.43.0


From a379f6d4555d6907b96a3165100141238e273df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:30 +0000
Subject: [PATCH 20/60] fix: Hart85 disaggregates every test chunk by its own
 edges

disaggregate_chunk looked for edges in the first chunk only, returned just
the prediction of the last chunk and failed on a chunk without edges.
---
 nilmtk/disaggregate/hart_85.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 7ecce54..4213428 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -405,7 +405,7 @@ class Hart85(Disaggregator):
         for chunk in test_mains:
           
             [_, transients] = find_steady_states(
-            test_mains[0],  state_threshold=self.state_threshold,
+            chunk,  state_threshold=self.state_threshold,
             noise_level=self.noise_level)
             #print('Transients:',transients)
             # For now ignoring the first transient
@@ -456,7 +456,7 @@ class Hart85(Disaggregator):
             self.power_dict = power_chunk_dict
             self.chunk_index = chunk.index
             # Check whether 1d data or 2d data and converting dict to dataframe
-            if len(transient_tuple) == 2:
+            if len(self.centroids.columns) == 1:
                 
                 temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)  
                 
@@ -480,15 +480,14 @@ class Hart85(Disaggregator):
                         for k in range(0, 2):
                             temp_df.iloc[i,j,k] = power_chunk_dict[j,i,k]
          
-        temp_df=temp_df.fillna(0)
- 
-        temp=pd.DataFrame()
-        for appliance in self.appliances:
-            matched_col=self.best_matches[appliance]
-            temp[appliance]=temp_df[matched_col]
-        test_predictions_list.append(temp)    
-          
-        
+            temp_df=temp_df.fillna(0)
+
+            temp=pd.DataFrame()
+            for appliance in self.appliances:
+                matched_col=self.best_matches[appliance]
+                temp[appliance]=temp_df[matched_col]
+            test_predictions_list.append(temp)
+
         return test_predictions_list
     
     def min_rmse_column(self,temp_df,gt_df):
-- 
2.43.0


From 616c0486ebd9911df8ea5cec9e59829ad6582036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:57 +0000
Subject: [PATCH 21/60] fix: Mean counts only the samples which are not NaN

Masking a DataFrame keeps its length, so missing samples were counted and the
mean came out too low.
---
 nilmtk/disaggregate/mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/disaggregate/mean.py b/nilmtk/disaggregate/mean.py
index 08c977b..b357085 100644
--- a/nilmtk/disaggregate/mean.py
+++ b/nilmtk/disaggregate/mean.py
@@ -22,7 +22,7 @@ class Mean(Disaggregator):
             power_ = pd.concat(power, axis=0)
             app_dict = self.model.get(app_name, {'sum': 0,'n_elem': 0})
             app_dict['sum'] += int(np.nansum(power_.values))
-            app_dict['n_elem'] += len(power_[~np.isnan(power_)])
+            app_dict['n_elem'] += int(np.sum(~np.isnan(power_.values)))
             self.model[app_name] = app_dict
         if self.save_model_path:
             self.save_model(self.save_model_path)
-- 
2.43.0


From e76ba31cf2ffc3fba2c22071a5ccbfbc6ddefd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:34 +0000
Subject: [PATCH 22/60] fix: activity_histogram works with pandas 2 (date_range
 inclusive)

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index b66eff4..eb6bd62 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -696,7 +696,7 @@ class Electric(object):
             end = resampled_to_period[-1] + 1 * resampled_to_period.freq
 
             # Reindex chunk
-            new_index = pd.date_range(start, end, freq=bin_duration, closed='left')
+            new_index = pd.date_range(start, end, freq=bin_duration, inclusive='left')
             on_chunk = on_chunk.reindex(new_index, fill_value=0, copy=False)
 
             # reshape
-- 
2.43.0


From d318f137e95a1ff07f658d511bff8fb8eaa090b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:40 +0000
Subject: [PATCH 23/60] fix: MeterGroup.load handles time zones without a
 `zone` attribute and ambiguous section ends

---
 nilmtk/metergroup.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 16e23e7..eefcfa1 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -714,10 +714,8 @@ class MeterGroup(Electric):
         for section in split_timeframes(sections, duration_threshold):
             kwargs['sections'] = [section]
             start = normalise_timestamp(section.start, freq)
-            tz = None if start.tz is None else start.tz.zone
             index = pd.date_range(
-                start.tz_localize(None), section.end.tz_localize(None), tz=tz,
-                inclusive='left', freq=freq)
+                start, section.end, inclusive='left', freq=freq)
             chunk = combine_chunks_from_generators(
                 index, columns, self.meters, kwargs)
             yield chunk
-- 
2.43.0


From 9a922474224b97793aba01ff0581d75b038abaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:40 +0000
Subject: [PATCH 24/60] fix: MeterGroup.load averages voltage etc. over the
 meters which have a reading

---
 nilmtk/metergroup.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index eefcfa1..1ab45ae 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1774,7 +1774,7 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     # Regarding columns (e.g. voltage) that we need to average:
     # The approach is that we first add everything together
     # in the first for-loop, whilst also keeping a 
-    # `columns_to_average_counter` DataFrame
+    # `columns_to_average_counter` dict of arrays
     # which tells us what to divide by in order to compute the 
     # mean for PHYSICAL_QUANTITIES_TO_AVERAGE.
 
@@ -1787,7 +1787,9 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     DTYPE = np.float32
     cumulator = pd.DataFrame(np.nan, index=index, columns=columns, dtype=DTYPE)
     cumulator_arr = cumulator.values
-    columns_to_average_counter = pd.DataFrame(dtype=np.uint16)
+    columns_to_average_counter = {
+        column: np.zeros(len(index), dtype=np.uint16) for column in columns
+        if column[0] in PHYSICAL_QUANTITIES_TO_AVERAGE}
     timeframe = None
 
     # Go through each generator to try sum values together
@@ -1826,23 +1828,14 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
             np.nansum([cumulator_col, aligned], axis=0, out=cumulator_col, 
                       dtype=DTYPE)
             cumulator_col[where_both_are_nan] = np.nan
+            # Update columns_to_average_counter - this is necessary so we do
+            # not add up columns like 'voltage' which should be averaged.
+            if column_name in columns_to_average_counter:
+                columns_to_average_counter[column_name] += ~np.isnan(aligned)
             del aligned
             del where_both_are_nan
             gc.collect()
 
-        # Update columns_to_average_counter - this is necessary so we do not
-        # add up columns like 'voltage' which should be averaged.
-        physical_quantities = chunk_from_next_meter.columns.get_level_values('physical_quantity')
-        columns_to_average = (set(PHYSICAL_QUANTITIES_TO_AVERAGE)
-                              .intersection(physical_quantities))
-        if columns_to_average:
-            counter_increment = pd.DataFrame(1, columns=columns_to_average, 
-                                             dtype=np.uint16,
-                                             index=chunk_from_next_meter.index)
-            columns_to_average_counter = columns_to_average_counter.add(
-                counter_increment, fill_value=0)
-            del counter_increment
-
         del chunk_from_next_meter
         gc.collect()
 
@@ -1850,8 +1843,8 @@ def combine_chunks_from_generators(index, columns, meters, kwargs):
     gc.collect()
 
     # Create mean values by dividing any columns which need dividing
-    for column in columns_to_average_counter:
-        cumulator[column] /= columns_to_average_counter[column]
+    for column, counter in columns_to_average_counter.items():
+        cumulator[column] /= counter
 
     del columns_to_average_counter
     gc.collect()
-- 
2.43.0


From 98d1f723c3a7c30aaf27f009f0998295c64899fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:40 +0000
Subject: [PATCH 25/60] fix: average 'phase angle', the name used in
 PHYSICAL_QUANTITIES

---
 nilmtk/measurement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/measurement.py b/nilmtk/measurement.py
index bda9361..a94e40f 100644
--- a/nilmtk/measurement.py
+++ b/nilmtk/measurement.py
@@ -10,7 +10,7 @@ PHYSICAL_QUANTITIES = ['power', 'energy', 'cumulative energy',
                        'voltage', 'current', 'pf', 'frequency', 'power factor', 
                        'state', 'phase angle']
 PHYSICAL_QUANTITIES_WITH_AC_TYPES = ['power', 'energy', 'cumulative energy']
-PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor','phase_angle']
+PHYSICAL_QUANTITIES_TO_AVERAGE = ['voltage', 'pf', 'frequency', 'power factor','phase angle']
 LEVEL_NAMES = ['physical_quantity', 'type']
 
 def check_ac_type(ac_type):
-- 
2.43.0


From 687c29fc4b9ae9152da213c0631bf9839f07c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:40 +0000
Subject: [PATCH 26/60] fix: dataframe_of_meters keeps missing readings missing

---
 nilmtk/metergroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 1ab45ae..908d802 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -975,7 +975,8 @@ class MeterGroup(Electric):
 
                 if not chunk_from_next_meter.empty:
                     ids.append(meter_id)
-                    chunks.append(chunk_from_next_meter.sum(axis=1))
+                    chunks.append(
+                        chunk_from_next_meter.sum(axis=1, min_count=1))
 
             if chunks:
                 df = pd.concat(chunks, axis=1)
-- 
2.43.0


From 1e3b6b198f7a744ea418589f6c7e93dbce1e8ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:03 +0000
Subject: [PATCH 27/60] fix: most_common uses sort_values, Series.sort was
 removed from pandas

---
 nilmtk/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e2cf081..e6cc9f8 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -362,7 +362,7 @@ def most_common(lst):
     lst = list(lst)
     counts = {item: lst.count(item) for item in set(lst)}
     counts = pd.Series(counts)
-    counts.sort()
+    counts.sort_values(inplace=True)
     most_common = counts.index[-1]
     return most_common
 
-- 
2.43.0


From 376a6af2c97e26450a09ae074814f186f67feae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:03 +0000
Subject: [PATCH 28/60] fix: energy_per_meter finds the most common AC type in
 the index, not in the meter IDs

---
 nilmtk/metergroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 908d802..4d5dca2 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1178,7 +1178,8 @@ class MeterGroup(Electric):
 
     def _energy_per_meter_with_remainder(self, energy_per_meter,
                                          mains, per_period, **kwargs):
-        ac_types = energy_per_meter.keys()
+        ac_types = [ac_type for ac_type, row in energy_per_meter.iterrows()
+                    for _ in range(row.count())]
         energy_per_meter = energy_per_meter.sum() # Collapse AC_TYPEs into Series
 
         # Find most common ac_type in energy_per_meter:
-- 
2.43.0


From a3b914c23395029080a572325790de4716e7cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:03 +0000
Subject: [PATCH 29/60] fix: MeterGroup.get_timeframe when the first meters
 have no data in the window

---
 nilmtk/metergroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 4d5dca2..47f892d 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -1381,7 +1381,7 @@ class MeterGroup(Electric):
         """
         timeframe = None
         for meter in self.meters:
-            if timeframe is None:
+            if timeframe is None or timeframe.empty:
                 timeframe = meter.get_timeframe()
             elif meter.get_timeframe().empty:
                 pass
-- 
2.43.0


From fa2edaa20cfa003c6ba79d606998b59aff6c31a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 30/60] fix: equal MeterGroups have equal hashes

---
 nilmtk/metergroup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 47f892d..ecaf840 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -58,10 +58,10 @@ class MeterGroup(Electric):
     
     def __hash__(self):
         """
-        Provide a hash based on the MeterGroup's name, meters and 
-        disabled_meters
+        Provide a hash based on the meters, because groups with the same
+        set of meters are equal.
         """ 
-        return hash((self.name, tuple(self.meters), tuple(self.disabled_meters)))
+        return hash(frozenset(self.meters))
 
     def import_metadata(self, store, elec_meters, appliances, building_id):
         """
-- 
2.43.0


From 178d6641594b7dbee9e181aa18c4eb0a32aaf00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 31/60] fix: select each meter once, even if it matches several
 values

---
 nilmtk/metergroup.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index ecaf840..d09501f 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -365,7 +365,9 @@ class MeterGroup(Electric):
                 else:
                     exception_raised_every_time = False
                     if match:
-                        selected_meters.append(meter)
+                        # A meter can match more than one value of a list
+                        if not any(m is meter for m in selected_meters):
+                            selected_meters.append(meter)
                         no_match = False
             if no_match:
                 raise KeyError("'No match for {}'".format(_kwargs))
-- 
2.43.0


From f75451f60c1efeaf340fbbe87213ce8a8647bc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 32/60] fix: MeterGroup.from_other_metergroup returns the
 meters of the other dataset

---
 nilmtk/metergroup.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index d09501f..1d6ea0e 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -31,6 +31,7 @@ from .timeframe import TimeFrame, split_timeframes
 from .preprocessing import Apply
 from .datastore import MAX_MEM_ALLOWANCE_IN_BYTES
 from nilmtk.timeframegroup import TimeFrameGroup
+import nilmtk
 
 # MeterGroupID.meters is a tuple of ElecMeterIDs.  Order doesn't matter.
 # (we can't use a set because sets aren't hashable so we can't use 
@@ -463,8 +464,9 @@ class MeterGroup(Electric):
         other_identifiers = other.identifier.meters
         new_identifiers = []
         for other_id in other_identifiers:
-            new_id = other_id._replace(dataset=dataset)
-            if isinstance(new_id.instance, tuple):
+            new_id = replace_dataset(other_id, dataset)
+            if (isinstance(new_id, ElecMeterID) and
+                    isinstance(new_id.instance, tuple)):
                 nested = []
                 for instance in new_id.instance:
                     new_nested_id = new_id._replace(instance=instance)
@@ -472,9 +474,7 @@ class MeterGroup(Electric):
                 new_identifiers.append(tuple(nested))
             else:
                 new_identifiers.append(new_id)
-        metergroup = MeterGroup()
-        metergroup.from_list(new_identifiers)
-        return metergroup
+        return nilmtk.global_meter_group.from_list(new_identifiers)
 
     def __eq__(self, other):
         if isinstance(other, MeterGroup):
-- 
2.43.0


From ee11c2d4726decde065cf7cce30150aed99d8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:38 +0000
Subject: [PATCH 33/60] fix: groupby on groups which contain meters without
 appliances

---
 nilmtk/metergroup.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nilmtk/metergroup.py b/nilmtk/metergroup.py
index 1d6ea0e..6a3c2a9 100644
--- a/nilmtk/metergroup.py
+++ b/nilmtk/metergroup.py
@@ -517,6 +517,9 @@ class MeterGroup(Electric):
             appliances = self.appliances
 
         for appliance in appliances:
+            if appliance is None:
+                # e.g. site meters have no dominant appliance
+                continue
             value = appliance.metadata.get(key)
             append_or_extend_list(values, value)
             value = appliance.type.get(key)
-- 
2.43.0


From 908a92eb71c253c3ab4828deafb77c029e5c4b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:46 +0000
Subject: [PATCH 34/60] fix: Clip finds the limits of measurements without a
 type (voltage etc.)

---
 nilmtk/preprocessing/clip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/preprocessing/clip.py b/nilmtk/preprocessing/clip.py
index b4cbddc..c9dc737 100644
--- a/nilmtk/preprocessing/clip.py
+++ b/nilmtk/preprocessing/clip.py
@@ -43,7 +43,7 @@ def _find_limits(measurement, measurements):
     lower, upper : numbers
     """
     for m in measurements:
-        if ((m.get('physical_quantity'), m.get('type')) == measurement):
+        if ((m.get('physical_quantity'), m.get('type', '')) == measurement):
             return m.get('lower_limit'), m.get('upper_limit')
 
     warn('No measurement limits for {}.'.format(measurement), RuntimeWarning)
-- 
2.43.0


From 3db113b2d810ae1f77823d0e060e2b49bfdb693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:46 +0000
Subject: [PATCH 35/60] fix: ElecMeter.load accepts sample_period=None as
 documented

---
 nilmtk/elecmeter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index b1aaf33..ddc8407 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -415,7 +415,10 @@ class ElecMeter(Hashable, Electric):
             print("ElecMeter.load")
             print(self)
 
-        if 'sample_period' in kwargs:
+        if kwargs.get('sample_period') is None:
+            # None means self.sample_period()
+            kwargs.pop('sample_period', None)
+        else:
             kwargs.setdefault('resample', True)
 
         if kwargs.get('resample'):
-- 
2.43.0


From aa78330c213a8946aecdb5176a2672e5559f351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:46 +0000
Subject: [PATCH 36/60] fix: load leaves the caller's resample_kwargs and
 preprocessing unchanged

---
 nilmtk/elecmeter.py | 4 +++-
 nilmtk/electric.py  | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index ddc8407..0790159 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -423,7 +423,9 @@ class ElecMeter(Hashable, Electric):
 
         if kwargs.get('resample'):
             # Set default key word arguments for resampling.
-            resample_kwargs = kwargs.setdefault('resample_kwargs', {})
+            # Copy, because the caller may use the same dict for other meters.
+            resample_kwargs = dict(kwargs.get('resample_kwargs') or {})
+            kwargs['resample_kwargs'] = resample_kwargs
             resample_kwargs.setdefault('fill_method', 'ffill')
             resample_kwargs.setdefault('how', 'mean')
             if 'limit' not in resample_kwargs:
diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index eb6bd62..eec8394 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -135,15 +135,15 @@ class Electric(object):
         sample_period = int(round(sample_period))
 
         if resample:
-            if resample_kwargs is None:
-                resample_kwargs = {}
+            resample_kwargs = dict(resample_kwargs or {})
 
             def resample_func(df):
                 resample_kwargs['rule'] = '{:d}S'.format(sample_period)
                 return safe_resample(df, **resample_kwargs)
 
-            kwargs.setdefault('preprocessing', []).append(
-                Apply(func=resample_func))
+            # Do not append to the caller's list.
+            kwargs['preprocessing'] = list(kwargs.get('preprocessing', [])) + [
+                Apply(func=resample_func)]
 
         return kwargs
 
-- 
2.43.0


From 14f088576cf459b054aab1f45af0dd2c3b1bea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:35 +0000
Subject: [PATCH 37/60] fix: safe_resample retries in UTC when midnight is
 ambiguous

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index e6cc9f8..9beb01c 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -509,11 +509,11 @@ def safe_resample(data, **resample_kwargs):
             warnings.warn("Found duplicate index. Keeping first value")
             data = data[~dups_in_index]
             
-        data = _resample_chain(data, resample_kwargs)
+        data = _resample_chain(data, dict(resample_kwargs))
     except pytz.AmbiguousTimeError:
         # Work-around for
         # https://github.com/pydata/pandas/issues/10117
-        tz = data.index.tz.zone
+        tz = data.index.tz
         data = data.tz_convert('UTC')
         data = _resample_chain(data, resample_kwargs)
         
-- 
2.43.0


From 05139e1a86689315f0527ebce59ac1f314be638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:02 +0000
Subject: [PATCH 38/60] fix: align_two_meters goes on after a chunk which is
 too short to be aligned

---
 nilmtk/electric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/electric.py b/nilmtk/electric.py
index eec8394..2814061 100644
--- a/nilmtk/electric.py
+++ b/nilmtk/electric.py
@@ -843,7 +843,7 @@ def align_two_meters(master, slave, func='power_series'):
     master_generator = getattr(master, func)(sections=sections)
     for master_chunk in master_generator:
         if len(master_chunk) < 2:
-            return
+            continue
         chunk_timeframe = TimeFrame(master_chunk.index[0],
                                     master_chunk.index[-1])
         slave_generator = getattr(slave, func)(sections=[chunk_timeframe])
-- 
2.43.0


From 9bbcc198adca0f0ecaaa99e0c752f91cfbba33e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:56 +0000
Subject: [PATCH 39/60] fix: fraction_energy_assigned_correctly with groups
 among the submeters

---
 nilmtk/metrics.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nilmtk/metrics.py b/nilmtk/metrics.py
index 9e9e5ae..24dc877 100644
--- a/nilmtk/metrics.py
+++ b/nilmtk/metrics.py
@@ -104,8 +104,12 @@ def fraction_energy_assigned_correctly(predictions, ground_truth):
     fraction_per_meter_predictions = predictions_submeters.fraction_per_meter()
     fraction_per_meter_ground_truth = ground_truth_submeters.fraction_per_meter()
 
-    fraction_per_meter_ground_truth.index = fraction_per_meter_ground_truth.index.map(lambda meter: meter.instance)
-    fraction_per_meter_predictions.index = fraction_per_meter_predictions.index.map(lambda meter: meter.instance)
+    # The fractions are in the order of the meters.  The instance of a
+    # MeterGroup is a tuple.
+    fraction_per_meter_ground_truth = dict(
+        zip(ground_truth_submeters.instance(), fraction_per_meter_ground_truth))
+    fraction_per_meter_predictions = dict(
+        zip(predictions_submeters.instance(), fraction_per_meter_predictions))
 
     fraction = 0
     for meter_instance in predictions_submeters.instance():
-- 
2.43.0


From 7e0bb24c5e6072ed404560a514e23faf41a971ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 40/60] fix: CSVDataStore.elements_below_key for keys other
 than '/'

It raised a NameError; convert_datastore, which also passes keys without
the leading slash, relies on it.
---
 nilmtk/datastore/csvdatastore.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index faac49b..59d5739 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -194,11 +194,11 @@ class CSVDataStore(DataStore):
                 if isdir(dir_path) and re.match('building[0-9]*', directory):
                     elements += [directory]
         else:
-            relative_path = key[1:]
-            dir_path = join(self.filename, relative_path)
+            dir_path = join(self.filename, key.strip('/'))
             if isdir(dir_path):
                 for element in listdir(dir_path):
-                    elements += [directory]
+                    # the data of a meter is in the file `<meter>.csv`
+                    elements += [re.sub(r'\.csv$', '', element)]
 
         return elements
 
-- 
2.43.0


From 91831bc91b8f380f7722ec54b89314a60bae0e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 41/60] fix: CSVDataStore.append writes the header only once

The header in the middle of the file made the table unreadable.
---
 nilmtk/datastore/csvdatastore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 59d5739..a8148db 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -113,7 +113,7 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='a',
-                     header=True)
+                     header=not isfile(file_path))
 
     @doc_inherit
     def put(self, key, value):
-- 
2.43.0


From ffc5139dca928b14367d67d0ad9e684cce983054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 42/60] fix: CSVDataStore.load raises KeyError for a missing
 key

---
 nilmtk/datastore/csvdatastore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index a8148db..e9816c0 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -48,6 +48,8 @@ class CSVDataStore(DataStore):
              chunksize=MAX_MEM_ALLOWANCE_IN_BYTES):
              
         file_path = self._key_to_abs_path(key)
+        if not isfile(file_path):
+            raise KeyError('{} not found'.format(key))
         
         # Set `sections` variable
         sections = [TimeFrame()] if sections is None else sections
-- 
2.43.0


From fa1bddd12ffbb61a4a5672b163fa24917836f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 43/60] fix: CSVDataStore reads back columns without AC type
 and DST transitions

A column such as ('voltage', '') came back as ('voltage', 'Unnamed:
1_level_1'), an index with two UTC offsets as strings, and __getitem__
returned neither the column labels nor the index.
---
 nilmtk/datastore/csvdatastore.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index e9816c0..432e5d8 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -39,7 +39,10 @@ class CSVDataStore(DataStore):
     
         file_path = self._key_to_abs_path(key)
         if isfile(file_path):
-            return pd.read_csv(file_path)
+            return _tidy(pd.read_csv(file_path,
+                                     index_col=0,
+                                     header=[0,1],
+                                     parse_dates=True))
         else:
             raise KeyError('{} not found'.format(key))
 
@@ -55,6 +58,11 @@ class CSVDataStore(DataStore):
         sections = [TimeFrame()] if sections is None else sections
         sections = TimeFrameGroup(sections)
 
+        # Replace any Nones with '' in columns:
+        if columns is not None:
+            columns = [('' if pq is None else pq, '' if ac is None else ac)
+                       for pq, ac in columns]
+
         self.all_sections_smaller_than_chunksize = True
         
         # iterate through parameter sections
@@ -70,6 +78,7 @@ class CSVDataStore(DataStore):
                                             
             # iterate through all chunks in file
             for chunk_idx, chunk in enumerate(text_file_reader):
+                chunk = _tidy(chunk)
                 
                 # filter dataframe by specified columns
                 if columns:
@@ -226,6 +235,7 @@ class CSVDataStore(DataStore):
         start = None
         end = None
         for df in text_file_reader:
+            df = _tidy(df)
             if start is None:
                 start = df.index[0]
             end = df.index[-1]
@@ -246,3 +256,14 @@ class CSVDataStore(DataStore):
             if key_object.building and key_object.meter:
                 abs_path += '.csv'
         return abs_path
+
+
+def _tidy(df):
+    """Restores what `pd.read_csv` can't read back."""
+    # empty labels, e.g. ('voltage', '')
+    df = df.rename(columns=lambda label: re.sub(
+        r'^Unnamed: \d+_level_\d+$', '', str(label)))
+    # rows on both sides of a DST transition have different UTC offsets
+    if not isinstance(df.index, pd.DatetimeIndex):
+        df.index = pd.to_datetime(df.index, utc=True)
+    return df
-- 
2.43.0


From 1354650f53139110610329444c6a578146446ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 44/60] fix: CSVDataStore.load skips the right number of lines
 for the look-ahead

The first row in front of a chunk was missing from `look_ahead` when the
index has no name, and the columns were numbers, not those of the chunk.
---
 nilmtk/datastore/csvdatastore.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 432e5d8..1d34a00 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -79,6 +79,7 @@ class CSVDataStore(DataStore):
             # iterate through all chunks in file
             for chunk_idx, chunk in enumerate(text_file_reader):
                 chunk = _tidy(chunk)
+                all_columns = chunk.columns
                 
                 # filter dataframe by specified columns
                 if columns:
@@ -100,14 +101,24 @@ class CSVDataStore(DataStore):
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
-                            rows_to_skip = (len(header_rows)+1)+(chunk_idx*chunksize)+subchunk_end+1
+                            # the name of the index, if any, has its own line
+                            n_header_lines = len(header_rows)
+                            if chunk.index.name is not None:
+                                n_header_lines += 1
+                            rows_to_skip = n_header_lines+(chunk_idx*chunksize)+subchunk_end+1
                             try:
-                                subchunk.look_ahead = pd.read_csv(file_path, 
+                                look_ahead = pd.read_csv(file_path, 
                                                 index_col=0, 
                                                 header=None, 
                                                 parse_dates=True,
                                                 skiprows=rows_to_skip,
                                                 nrows=n_look_ahead_rows)
+                                look_ahead.columns = all_columns
+                                look_ahead.index.name = chunk.index.name
+                                look_ahead = _tidy(look_ahead)
+                                if columns:
+                                    look_ahead = look_ahead[columns]
+                                subchunk.look_ahead = look_ahead
                             except ValueError:
                                 subchunk.look_ahead = pd.DataFrame()
                         else:
-- 
2.43.0


From 56bafeb8d0d75f45e55475e1610f84a6174d4120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 45/60] fix: CSVDataStore.load of sections with one row or
 without data

One row in a chunk raised a ValueError and a section without data yielded
nothing instead of one empty DataFrame.  The timeframe of a chunk is now
the section intersected with the window, as documented, not just the
range of the rows, and `include_end` is respected.
---
 nilmtk/datastore/csvdatastore.py | 54 +++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 1d34a00..607c20f 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -69,6 +69,16 @@ class CSVDataStore(DataStore):
         # requires 1 pass through file for each section
         for section in sections:
             window_intersect = self.window.intersection(section)
+            if window_intersect.empty:
+                data = pd.DataFrame()
+                data.timeframe = section
+                yield data
+                continue
+
+            # the last subchunk read: not yielded before we know whether
+            # there is another one
+            previous = None
+            subchunk_i = 0
             header_rows = [0,1]
             text_file_reader = pd.read_csv(file_path, 
                                             index_col=0, 
@@ -90,14 +100,15 @@ class CSVDataStore(DataStore):
                 if window_intersect.start:
                     subchunk_idx = np.logical_and(subchunk_idx, (chunk.index>=window_intersect.start))
                 if window_intersect.end:
-                    subchunk_idx = np.logical_and(subchunk_idx, (chunk.index<window_intersect.end))
-                if window_intersect.empty:
-                    subchunk_idx = [False]*len(chunk)
+                    if window_intersect.include_end:
+                        before_end = chunk.index<=window_intersect.end
+                    else:
+                        before_end = chunk.index<window_intersect.end
+                    subchunk_idx = np.logical_and(subchunk_idx, before_end)
                 subchunk = chunk[subchunk_idx]
                 
                 if len(subchunk)>0:
                     subchunk_end = np.max(np.nonzero(subchunk_idx))
-                    subchunk.timeframe = TimeFrame(subchunk.index[0], subchunk.index[-1])
                     # Load look ahead if necessary
                     if n_look_ahead_rows > 0:
                         if len(subchunk.index) > 0:
@@ -124,7 +135,22 @@ class CSVDataStore(DataStore):
                         else:
                             subchunk.look_ahead = pd.DataFrame()
                     
-                    yield subchunk
+                    if previous is not None:
+                        self.all_sections_smaller_than_chunksize = False
+                        previous.timeframe = _timeframe_for_chunk(
+                            window_intersect, subchunk_i, previous.index,
+                            subchunk.index[0])
+                        yield previous
+                        subchunk_i += 1
+                    previous = subchunk
+
+            if previous is None:
+                previous = pd.DataFrame()
+                previous.timeframe = window_intersect
+            else:
+                previous.timeframe = _timeframe_for_chunk(
+                    window_intersect, subchunk_i, previous.index)
+            yield previous
 
     @doc_inherit
     def append(self, key, value):
@@ -269,6 +295,24 @@ class CSVDataStore(DataStore):
         return abs_path
 
 
+def _timeframe_for_chunk(window_intersect, chunk_i, index, next_start=None):
+    """
+    Parameters
+    ----------
+    next_start : first timestamp of the next chunk, None for the last chunk
+    """
+    start = window_intersect.start if chunk_i == 0 else None
+    end = window_intersect.end if next_start is None else next_start
+    if start is None:
+        start = index[0]
+    if end is None:
+        end = index[-1]
+    if end <= start:
+        # just one row, at the end
+        end = None
+    return TimeFrame(start, end)
+
+
 def _tidy(df):
     """Restores what `pd.read_csv` can't read back."""
     # empty labels, e.g. ('voltage', '')
-- 
2.43.0


From 70844dc79205a3898a7bff4facc6937ca2ea45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 46/60] fix: convert_datastore to HDF5

The metadata of a building was saved before the building had a node.
---
 nilmtk/datastore/datastore.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nilmtk/datastore/datastore.py b/nilmtk/datastore/datastore.py
index f6de98f..457f788 100644
--- a/nilmtk/datastore/datastore.py
+++ b/nilmtk/datastore/datastore.py
@@ -221,10 +221,7 @@ def convert_datastore(input_store, output_store):
     output_store.save_metadata('/', metadata)
     for building in input_store.elements_below_key():
         building_key = '/'+building
-        # building metadata
-        metadata = input_store.load_metadata(building_key)
-        output_store.save_metadata(building_key, metadata)
-        for utility in input_store.elements_below_key(building):
+        for utility in input_store.elements_below_key(building_key):
             utility_key = building_key+'/'+utility
             for meter in input_store.elements_below_key(utility_key):
                 # ignore cache (should this appear as an element below key?)
@@ -234,5 +231,9 @@ def convert_datastore(input_store, output_store):
                 # store meter data
                 for df in input_store.load(meter_key):
                     output_store.append(meter_key, df)
+        # building metadata: after the data, because an HDF5 file has no
+        # node for the building before that
+        metadata = input_store.load_metadata(building_key)
+        output_store.save_metadata(building_key, metadata)
 
 
-- 
2.43.0


From 40e95694251d86030107a5d55e1b645a6dad7c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 47/60] fix: get_datastore raises the ValueError when there is
 no filename

---
 nilmtk/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nilmtk/utils.py b/nilmtk/utils.py
index 9beb01c..e64726b 100644
--- a/nilmtk/utils.py
+++ b/nilmtk/utils.py
@@ -312,7 +312,7 @@ def get_datastore(filename, format=None, mode='r'):
     -------
     metadata : dict
     """
-    if not format:
+    if not format and filename is not None:
         if filename.endswith(".h5"):
             format = "HDF"
         elif filename.endswith(".csv"):
@@ -326,7 +326,7 @@ def get_datastore(filename, format=None, mode='r'):
         else:
             raise ValueError('format not recognised')
     else:
-        ValueError('filename is None')
+        raise ValueError('filename is None')
 
 
 def normalise_timestamp(timestamp, freq):
-- 
2.43.0


From e3bcfa2cd2ed02c61dd398d7d6d670db54724a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 48/60] fix: CSVDataStore keeps a first row without any value

Without a line for the name of the index, read_csv took the first row for
that line when all its values are NaN.
---
 nilmtk/datastore/csvdatastore.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/datastore/csvdatastore.py b/nilmtk/datastore/csvdatastore.py
index 607c20f..1d7957a 100644
--- a/nilmtk/datastore/csvdatastore.py
+++ b/nilmtk/datastore/csvdatastore.py
@@ -161,7 +161,8 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='a',
-                     header=not isfile(file_path))
+                     header=not isfile(file_path),
+                     index_label=value.index.name or 'index')
 
     @doc_inherit
     def put(self, key, value):
@@ -172,7 +173,8 @@ class CSVDataStore(DataStore):
             makedirs(path)
         value.to_csv(file_path,
                      mode='w',
-                     header=True)
+                     header=True,
+                     index_label=value.index.name or 'index')
 
     @doc_inherit
     def remove(self, key):
-- 
2.43.0


From 9b3699535a766694bce75ad558d8c703fcc89d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:14 +0000
Subject: [PATCH 49/60] fix: cached statistics of sections which the window
 cuts

They were looked up by the bounds of the section, so after
DataSet.set_window the statistic of the whole section was returned.
---
 nilmtk/elecmeter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/elecmeter.py b/nilmtk/elecmeter.py
index 0790159..22eb721 100644
--- a/nilmtk/elecmeter.py
+++ b/nilmtk/elecmeter.py
@@ -686,6 +686,8 @@ class ElecMeter(Hashable, Electric):
             tf.include_end = True
             sections = [tf]
         sections = TimeFrameGroup(sections)
+        # What is outside of the window neither counts nor is cached as such
+        sections = [self.store.window.intersection(s) for s in sections]
         sections = [s for s in sections if not s.empty]
 
         # Retrieve usable stats from cache
-- 
2.43.0


From 427b33b0d3cbfffda1fbc2ca032c1bf40b4728c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:02 +0000
Subject: [PATCH 50/60] fix: a Hart85 model can be imported after it was
 exported

---
 nilmtk/disaggregate/hart_85.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index 4213428..fe4b4bb 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -585,8 +585,8 @@ class Hart85(Disaggregator):
         pickle_out.close()
 
     def import_model(self, filename):
-        pickle_in = open(filename)
-        self.model = pickle.load(pickle_in)
+        with open(filename, "rb") as pickle_in:
+            self.model = pickle.load(pickle_in)
         self.columns = self.model['columns']
         self.state_threshold = self.model['state_threshold']
         self.noise_level = self.model['noise_level']
@@ -594,6 +594,8 @@ class Hart85(Disaggregator):
         self.transients = self.model['transients']
         # pair_df=self.pair_df,
         self.centroids = self.model['centroids']
+        self.best_matches = self.model['best_matches']
+        self.appliances = list(self.best_matches)
     
     def best_matched_appliance(self,submeters, pred_df):
         
-- 
2.43.0


From b53c0dadaf6be7625ba18174c02eaaa4c9b5ee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:02 +0000
Subject: [PATCH 51/60] fix: Hart85.best_matched_appliance returns the matches

---
 nilmtk/disaggregate/hart_85.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nilmtk/disaggregate/hart_85.py b/nilmtk/disaggregate/hart_85.py
index fe4b4bb..338cee8 100644
--- a/nilmtk/disaggregate/hart_85.py
+++ b/nilmtk/disaggregate/hart_85.py
@@ -626,5 +626,7 @@ class Hart85(Disaggregator):
         for i in range(len(rmse_all)) :
             key_min = min(rmse_all[i].keys(), key=(lambda k: rmse_all[i][k]))
             print('Best Matched Pair is',(i,key_min))    
+            match.append((i, key_min))
+        return match
  
     
\ No newline at end of file
-- 
2.43.0


From e7ba5cf56c9ff9d2fed38d5f172a0f9666302abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:38 +0000
Subject: [PATCH 52/60] fix: unify results of any number of meters, and only of
 the same sections

---
 nilmtk/results.py                  |  4 ++++
 nilmtk/stats/dropoutrateresults.py | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/nilmtk/results.py b/nilmtk/results.py
index a0295ea..4361b12 100644
--- a/nilmtk/results.py
+++ b/nilmtk/results.py
@@ -121,6 +121,10 @@ class Results(object):
             Results calculated from another table of data.
         """
         assert isinstance(other, self.__class__)
+        if len(other._data) != len(self._data):
+            raise RuntimeError("The results we are trying to merge do not"
+                               " cover the same sections so we cannot merge"
+                               " them.")
         for i, row in self._data.iterrows():
             if (i not in other._data.index or
                 other._data['end'].loc[i] != row['end']):
diff --git a/nilmtk/stats/dropoutrateresults.py b/nilmtk/stats/dropoutrateresults.py
index 8079dab..205ac57 100644
--- a/nilmtk/stats/dropoutrateresults.py
+++ b/nilmtk/stats/dropoutrateresults.py
@@ -14,7 +14,11 @@ class DropoutRateResults(Results):
         `n_samples` is int, used for calculating weighted mean
     """
     name = "dropout_rate"
-    
+
+    def __init__(self):
+        self._n_meters = 1
+        super(DropoutRateResults, self).__init__()
+
     def combined(self):
         """Calculates weighted average.
 
@@ -31,12 +35,16 @@ class DropoutRateResults(Results):
 
     def unify(self, other):
         super(DropoutRateResults, self).unify(other)
+        n_meters = self._n_meters + other._n_meters
         for i, row in self._data.iterrows():
-            # store mean of dropout rate
-            self._data['dropout_rate'].loc[i] += other._data['dropout_rate'].loc[i]
-            self._data['dropout_rate'].loc[i] /= 2
-            
+            # store mean of dropout rate (over all meters unified so far)
+            self._data['dropout_rate'].loc[i] *= self._n_meters
+            self._data['dropout_rate'].loc[i] += (
+                other._data['dropout_rate'].loc[i] * other._n_meters)
+            self._data['dropout_rate'].loc[i] /= n_meters
+
             self._data['n_samples'].loc[i] += other._data['n_samples'].loc[i]
+        self._n_meters = n_meters
 
     def to_dict(self):
         return {'statistics': {'dropout_rate': self.combined()}}
-- 
2.43.0


From e03c10e5c6fb4f3910c9b3cb32e142e1937c94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 53/60] fix: AMPds, CAXE, COMBED and iAWE converters pass the
 axis of drop by keyword, its position was removed from pandas

---
 nilmtk/dataset_converters/ampds/convert_ampds.py   | 2 +-
 nilmtk/dataset_converters/caxe/convert_caxe.py     | 2 +-
 nilmtk/dataset_converters/combed/convert_combed.py | 2 +-
 nilmtk/dataset_converters/iawe/convert_iawe.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nilmtk/dataset_converters/ampds/convert_ampds.py b/nilmtk/dataset_converters/ampds/convert_ampds.py
index e86ca6f..ca5be74 100644
--- a/nilmtk/dataset_converters/ampds/convert_ampds.py
+++ b/nilmtk/dataset_converters/ampds/convert_ampds.py
@@ -67,7 +67,7 @@ def convert_ampds(input_path, output_filename, format='HDF'):
         # Due to fixed width, column names have spaces :(
         df.columns = [x.replace(" ", "") for x in df.columns]
         df.index = pd.to_datetime(df[TIMESTAMP_COLUMN_NAME], unit='s', utc=True)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
         df = df.tz_convert(TIMEZONE)
         df.columns = pd.MultiIndex.from_tuples(
             [columnNameMapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/caxe/convert_caxe.py b/nilmtk/dataset_converters/caxe/convert_caxe.py
index e504963..9cf963d 100644
--- a/nilmtk/dataset_converters/caxe/convert_caxe.py
+++ b/nilmtk/dataset_converters/caxe/convert_caxe.py
@@ -37,7 +37,7 @@ def convert_caxe(file_path):
     print('Loading ', 1)
     df.index = pd.to_datetime(df.timestamp.values)
     df = df.tz_convert(TIMEZONE) #  if error occurs use tz_localize for tz naive timestamps
-    df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+    df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
     df.index = pd.to_datetime(df.index.values)
     df.columns = pd.MultiIndex.from_tuples(
                 [column_mapping[x] for x in df.columns],
diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index 4783e2a..c6e59a0 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -69,7 +69,7 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                         print(filename_attribute)
                         df = pd.read_csv(filename_attribute, names=["timestamp", attribute])
                         df.index = pd.to_datetime(df["timestamp"], unit='ms')
-                        df = df.drop("timestamp", 1)
+                        df = df.drop("timestamp", axis=1)
                         dfs.append(df)
                     else:
                         exists = False
diff --git a/nilmtk/dataset_converters/iawe/convert_iawe.py b/nilmtk/dataset_converters/iawe/convert_iawe.py
index 9071462..145555e 100644
--- a/nilmtk/dataset_converters/iawe/convert_iawe.py
+++ b/nilmtk/dataset_converters/iawe/convert_iawe.py
@@ -74,7 +74,7 @@ def convert_iawe(iawe_path, output_filename, format="HDF"):
         df.drop_duplicates(subset=["timestamp"], inplace=True)
         df.index = pd.to_datetime(df.timestamp.values, unit='s', utc=True)
         df = df.tz_convert(TIMEZONE)
-        df = df.drop(TIMESTAMP_COLUMN_NAME, 1)
+        df = df.drop(TIMESTAMP_COLUMN_NAME, axis=1)
         df.columns = pd.MultiIndex.from_tuples(
             [column_mapping[x] for x in df.columns],
             names=LEVEL_NAMES
-- 
2.43.0


From 84ff223769f0163df67e73fc927700a1cdb8e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 54/60] fix: convert_combed closes the store before the
 metadata are added

---
 nilmtk/dataset_converters/combed/convert_combed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nilmtk/dataset_converters/combed/convert_combed.py b/nilmtk/dataset_converters/combed/convert_combed.py
index c6e59a0..4687ec7 100644
--- a/nilmtk/dataset_converters/combed/convert_combed.py
+++ b/nilmtk/dataset_converters/combed/convert_combed.py
@@ -82,7 +82,8 @@ def convert_combed(combed_path, output_filename, format='HDF'):
                     assert total.index.is_unique
                     store.put(str(key), total)
                     any_file_converted = True
-                    
+
+    store.close()
     if not any_file_converted:
         raise RuntimeError('No files converted, did you specify the correct path?')
                     
-- 
2.43.0


From cbf3c9d96b8b053636b7614e336ece13a8bca302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 55/60] fix: convert_greend uses on_bad_lines, error_bad_lines
 was removed from pandas

---
 nilmtk/dataset_converters/greend/convert_greend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nilmtk/dataset_converters/greend/convert_greend.py b/nilmtk/dataset_converters/greend/convert_greend.py
index ace3ef9..d1d616a 100644
--- a/nilmtk/dataset_converters/greend/convert_greend.py
+++ b/nilmtk/dataset_converters/greend/convert_greend.py
@@ -41,10 +41,11 @@ def _get_blocks(filename):
         block_data.seek(0)
         try:
             # ignore extra fields for some files
-            error_bad_lines = not (
+            skip_bad_lines = (
                 ('building5' in filename and 'dataset_2014-02-04.csv' in filename)
             )
-            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes, error_bad_lines=error_bad_lines)
+            df = pd.read_csv(block_data, index_col='timestamp', dtype=dtypes,
+                             on_bad_lines="skip" if skip_bad_lines else "error")
         except: #(pd.errors.ParserError, ValueError, TypeError):
             print("ERROR", filename)
             raise
-- 
2.43.0


From 662b0bfb780dba7b8c1aa2d0d56dd90193f84676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:50 +0000
Subject: [PATCH 56/60] fix: convert_dataport describes an appliance once, not
 once per CSV file

---
 nilmtk/dataset_converters/dataport/csv_converter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nilmtk/dataset_converters/dataport/csv_converter.py b/nilmtk/dataset_converters/dataport/csv_converter.py
index 8e1aeb3..d6fae2d 100644
--- a/nilmtk/dataset_converters/dataport/csv_converter.py
+++ b/nilmtk/dataset_converters/dataport/csv_converter.py
@@ -344,6 +344,9 @@ def write_meter_data(hdf_store, b_id, b_data, nilmtk_metadata):
         m_data.columns.set_names(nilmtk.measurement.LEVEL_NAMES, inplace=True)
         hdf_store.put(str(key), m_data, format="table", append=True)
         hdf_store.flush()
+        if m_id + 1 in nilmtk_metadata[b_id]["elec_meters"]:
+            continue # Already described while writing a previous CSV file.
+
         # Meter & appliance metadata
         if meter == 'use':
             meter_metadata = { "device_model": "eGauge", "site_meter": True }
-- 
2.43.0


From 00d6b7365e14c0ee4904e6e2b3584c440dbd26f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 57/60] fix: states with equal means stay distinct in the
 legacy FHMM

---
 nilmtk/legacy/disaggregate/fhmm_exact.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/fhmm_exact.py b/nilmtk/legacy/disaggregate/fhmm_exact.py
index fd82e0c..7948508 100644
--- a/nilmtk/legacy/disaggregate/fhmm_exact.py
+++ b/nilmtk/legacy/disaggregate/fhmm_exact.py
@@ -126,14 +126,9 @@ def create_combined_hmm(model):
 
 
 def return_sorting_mapping(means):
-    means_copy = deepcopy(means)
-    means_copy = np.sort(means_copy, axis=0)
-
-    # Finding mapping
-    mapping = {}
-    for i, val in enumerate(means_copy):
-        mapping[i] = np.where(val == means)[0][0]
-    return mapping
+    # A stable sort maps states with equal means to different states
+    order = np.argsort(np.asarray(means).flatten(), kind='mergesort')
+    return dict(enumerate(order))
 
 
 def decode_hmm(length_sequence, centroids, appliance_list, states):
-- 
2.43.0


From 648dc906afab7d16f84c4bf8a5fed92822c46bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 58/60] fix: legacy Hart85 disaggregates mains without any edge

---
 nilmtk/legacy/disaggregate/hart_85.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index e2042bf..5b66ba2 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -331,7 +331,7 @@ class Hart85(Disaggregator):
         self.chunk_index = chunk.index
 
         # Check whether 1d data or 2d data and converting dict to dataframe
-        if len(transient_tuple) == 2:
+        if len(self.centroids.columns) == 1:
 
             temp_df = pd.DataFrame(power_chunk_dict, index=chunk.index)
             return temp_df, 2
-- 
2.43.0


From 06c9ab9248e4a991e7e67ef22e553a1cdadef48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:17 +0000
Subject: [PATCH 59/60] fix: legacy Hart85 stores every chunk of the mains

---
 nilmtk/legacy/disaggregate/hart_85.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index 5b66ba2..8fbdb82 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -489,14 +489,12 @@ class Hart85(Disaggregator):
 
         print('Appending mains data to datastore')
 
-        for chunk_mains in mains.load(ac_type=ac_type):
-            chunk_df = chunk_mains
-
-        chunk_df = chunk_df.apply(pd.to_numeric).astype('float32')
+        for chunk_df in mains.load(ac_type=ac_type):
+            chunk_df = chunk_df.apply(pd.to_numeric).astype('float32')
+            output_datastore.append(key=mains_data_location,
+                                    value=chunk_df)
         print('Done')
 
-        output_datastore.append(key=mains_data_location,
-                                value=chunk_df)
         # save metadata
         if data_is_available:
             self._save_metadata_for_disaggregation(
-- 
2.43.0


From 2d950abeeedfb671754cb85350486433e896e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:15 +0000
Subject: [PATCH 60/60] fix: legacy Hart85 assigns the power of 1-d centroids
 as a scalar

---
 nilmtk/legacy/disaggregate/hart_85.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nilmtk/legacy/disaggregate/hart_85.py b/nilmtk/legacy/disaggregate/hart_85.py
index 8fbdb82..6a7848a 100644
--- a/nilmtk/legacy/disaggregate/hart_85.py
+++ b/nilmtk/legacy/disaggregate/hart_85.py
@@ -362,7 +362,10 @@ class Hart85(Disaggregator):
         ndim = len(self.centroids.columns)
         for appliance in states_chunk.columns:
             values = states_chunk[[appliance]].values.flatten()
+            on_power = self.centroids.loc[appliance].values
             if ndim == 1:
+                # NumPy no longer assigns an array of one element to a scalar
+                on_power = on_power[0]
                 power = np.zeros(len(values), dtype=int)
             else:
                 power = np.zeros((len(values), 2), dtype=int)
@@ -373,10 +376,10 @@ class Hart85(Disaggregator):
                     # print("A", values[i], i)
                     on = True
                     i = i + 1
-                    power[i] = self.centroids.loc[appliance].values
+                    power[i] = on_power
                     while values[i] != 0 and i < len(values) - 1:
                         # print("B", values[i], i)
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = on_power
                         i = i + 1
                 elif values[i] == 0:
                     # print("C", values[i], i)
@@ -409,10 +412,10 @@ class Hart85(Disaggregator):
                     else:
                         # print("H", values[i], i)
                         on = True
-                        power[i] = self.centroids.loc[appliance].values
+                        power[i] = on_power
                         while values[i] != 0 and i < len(values) - 1:
                             # print("I", values[i], i)
-                            power[i] = self.centroids.loc[appliance].values
+                            power[i] = on_power
                             i = i + 1
 
             di[appliance] = power
-- 
2.43.0

