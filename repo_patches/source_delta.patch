From 424b0eaaa08121b993552e48b401feca1d652fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 01/18] fix: start every level detection from empty eddy tables

A level in which no eddy was identified, or a detection that ended in an
error, left its identified/discarded eddies in the process-wide tables, and
they showed up in the result of the next detection.
---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 7d1c455..d44be39 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -279,6 +279,10 @@ class TrackEddy:
         discarded = None
         eddy = None
 
+        # Start from empty tables. A previous detection may have left eddies
+        # behind (e.g. all its contours were discarded, or it was interrupted).
+        Eddy(None, level).exit()
+
         contours, _ = extract_contours(self.X, self.Y, self.data2track.values, level)
 
         for contour in contours:
-- 
2.43.0


From 6aa5fd4c06a27900e1a01cfaad505ae5ba9cfe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 02/18] fix: keep the eddy tables of different threads apart

The tables that collect identified and discarded eddies were shared by the
whole process, so trackers running in several threads mixed their eddies.
---
 trackeddy/decorators.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index b5953c9..1745c42 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -1,8 +1,20 @@
+import threading
 from functools import wraps
 
 import pandas as pd
 
 
+class _EddyTable(threading.local):
+    """
+    Counter and table of the eddies collected by a thread, so trackers running
+    in different threads don't mix their eddies.
+    """
+
+    def __init__(self):
+        self.calls = 0
+        self.df_store = pd.DataFrame({"": []})
+
+
 def eddy_identifier(f):
     """
     eddy_identifier Wrapper of eddy store and discarded functions
@@ -13,28 +25,28 @@ def eddy_identifier(f):
         Function that stores the data of identified and discarded eddies.
     """
 
+    # Definition of the counter of the function call and the table to store data.
+    store = _EddyTable()
+
     def wrapped(*args, **kwargs):
         # If argument exit is passed, then reset the wrap function
         if "exit" in kwargs:
-            wrapped.calls = 0
-            wrapped.df_store = pd.DataFrame({"": []})
+            store.calls = 0
+            store.df_store = pd.DataFrame({"": []})
             return wrapped
 
         # Get table to store eddy data.
-        table = f(*args, id=wrapped.calls, **kwargs)
+        table = f(*args, id=store.calls, **kwargs)
         # if table within wrapper is empty, assign the output of the function
         # else concatenate the tables together.
-        if wrapped.df_store.empty:
-            wrapped.df_store = table
+        if store.df_store.empty:
+            store.df_store = table
         else:
-            wrapped.df_store = pd.concat((wrapped.df_store, table))
+            store.df_store = pd.concat((store.df_store, table))
         # Counter in wrapper that works as the eddy identifier.
-        wrapped.calls += 1
-        return wrapped.df_store
+        store.calls += 1
+        return store.df_store
 
-    # Definition of the counter of the function call and the table to store data.
-    wrapped.calls = 0
-    wrapped.df_store = pd.DataFrame({"": []})
     return wrapped
 
 
-- 
2.43.0


From 4780a8c587e4fdc07c6ceedd12d217e2c40aa5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 03/18] fix: track any time window, blank snapshots and tracks
 missing for ntimes

Tracking failed when a snapshot had no eddies, when it started after the first
time step, or when no final time was given. The number of time steps an eddy
may be missing was ignored, so tracks never ended.
---
 trackeddy/trackeddy.py |   5 +-
 trackeddy/utils.py     | 103 ++++++++++++-----------------------------
 2 files changed, 31 insertions(+), 77 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index d44be39..cc82e09 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -183,9 +183,8 @@ class TrackEddy:
     ):
         # TODO Move to decorator?
         if not tf:
-            times = range(0, len(self.Dataset[self.coords["time"]]))
-        else:
-            times = range(t0, tf)
+            tf = len(self.Dataset[self.coords["time"]])
+        times = range(t0, tf)
 
         track_in_time = pd.DataFrame({"": []})
 
diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index f26a7f5..b7783bc 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -154,76 +154,22 @@ def _mask_data_in_contour(coord_ind_contour, data_near_contour, level, mask="con
     return data_inside_contour, eddy_sign, eddy_maxima_loc, inside_contour
 
 
-def _get_non_duplicated_identifiers(merged_identifiers):
-    values, counts = np.unique(merged_identifiers, return_counts=True)
-
-    duplicated = []
-    for count in range(0, len(counts)):
-        if counts[count] >= 2:
-            duplicated.append(count)
-
-    values = np.delete(values, duplicated)
-    return values
-
-
 def unlink_eddies_in_previous_times(previous_time, time, ntimes=5):
     # Move to decorator
-    if time < ntimes:
-        ntimes = time
-    # Extract identifier of eddies identified as the last imput in the table.
-    last_identified_eddies = previous_time.xs(time, level="time").index.levels[0]
-
-    # Loop and arrays to contain extracted identifier of eddies identified
-    # in the last ntimes in the table.
-    unlinked_tracks_in_time = last_identified_eddies
-    unlinked_times = np.ones_like(last_identified_eddies) * time
-    # Loop back in time to check if missing a eddy track
-    for prev_time in np.arange(time - ntimes, time):
-        # Extracted identifier of eddies identified in the last time-ntimes
-        # in the table.
-        previous_identified_eddies = previous_time.xs(
-            prev_time, level="time"
-        ).index.levels[0]
-
-        merged_identifiers = np.hstack(
-            (last_identified_eddies, previous_identified_eddies)
-        )
-
-        values = _get_non_duplicated_identifiers(merged_identifiers)
-
-        unlinked_tracks_in_time = np.hstack((unlinked_tracks_in_time, values))
-        unlinked_times = np.hstack((unlinked_times, np.ones_like(values) * prev_time))
-
-    # Perhaps not the cleanest code, but it ensures that only the last time
-    # for all the detected eddies is the output.
-    unlinked_tracks_in_time = np.unique(unlinked_tracks_in_time)
-
-    times = (
-        previous_time.loc[unlinked_tracks_in_time]
-        .reset_index()
-        .groupby("identifier")
-        .max("time")["time"]
-        .values
+    tracks = previous_time.reset_index()
+    # Last time in which each eddy was identified.
+    last_time = tracks.groupby("identifier")["time"].transform("max")
+
+    # Only the last time of each eddy is the output, and only for those eddies
+    # identified at the given time, or missing for up to ntimes.
+    eddies_to_track = tracks[
+        (tracks["time"] == last_time) & (last_time >= time - ntimes)
+    ]
+
+    return eddies_to_track.set_index(["identifier", "time", "index"]).sort_index(
+        level=["identifier", "time", "index"]
     )
 
-    eddies_to_track = (
-        previous_time.loc[unlinked_tracks_in_time]
-        .groupby(["identifier", "index"])
-        .last("time")
-    )
-
-    eddies_to_track["time"] = [times[index] for index, n in eddies_to_track.index]
-
-    eddies_to_track = eddies_to_track.reset_index().set_index(
-        ["identifier", "time", "index"]
-    )
-
-    previous_time = eddies_to_track.reindex(
-        previous_time.index.levels[0], level=0, fill_value=0
-    )
-
-    return eddies_to_track
-
 
 def track_online(track_in_time, current_time, time, ntimes):
     # Extracts the previous time and all the eddies that didn't
@@ -232,16 +178,25 @@ def track_online(track_in_time, current_time, time, ntimes):
         track_in_time, time - 1, ntimes=ntimes
     )
 
-    # Detect nearest eddies.
-    index, nearest = _detect_nearest(previous_time, current_time)
+    # Update counter of current time to avoid overlap with all the
+    # previous times
+    current_time, prev_count = _update_counter(track_in_time, current_time)
 
-    # Update counter of current time to avoid overlap with the
-    # previous time
-    current_time, prev_count = _update_counter(previous_time, current_time)
+    # There are no eddies to link to if none was identified in the last ntimes.
+    if not previous_time.empty:
+        # Detect nearest eddies.
+        index, nearest = _detect_nearest(previous_time, current_time)
+
+        # Get the identifiers of the nearest eddies, since previous_time may
+        # not contain all the identifiers.
+        identifiers = previous_time.xs(0, level="index").index.get_level_values(
+            "identifier"
+        )
+        index = identifiers.values[index]
 
-    # Rename identifier of  nearest eddies to match the previous
-    # table identifier
-    current_time = _rename_eddies_in_time(current_time, index, nearest, prev_count)
+        # Rename identifier of  nearest eddies to match the previous
+        # table identifier
+        current_time = _rename_eddies_in_time(current_time, index, nearest, prev_count)
 
     # Merge dictionaries.
     track_in_time = _merge_reindex_eddies(track_in_time, current_time)
-- 
2.43.0


From 83664490323ce05940422a28d55b2fbd42189304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 04/18] fix: give an identifier to only one eddy

Eddies close to the same eddy of the previous time (or level) all got its
identifier, so one identifier named several eddies of a snapshot.
---
 trackeddy/utils.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index b7783bc..cb60eb8 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -7,7 +7,14 @@ from sklearn.neighbors import BallTree
 
 
 def _rename_eddies_in_time(current_time, index, nearest, prev_count):
+    linked_eddies = []
     for near in nearest:
+        # Only the nearest eddy continues the track, any other eddy close to it
+        # is a new one.
+        if index[near][0] in linked_eddies:
+            continue
+        linked_eddies.append(index[near][0])
+
         shifted_counter = near + prev_count + 1
 
         current_time = current_time.rename(
@@ -56,6 +63,10 @@ def _update_better_eddy(p_eddy, n_eddy, index, nearest):
 
         # TODO check if this is the best condition.
         if p_ellipse_error > c_ellipse_error and p_gauss_error > c_gauss_error:
+            # Only the nearest eddy replaces the previous one, any other eddy
+            # is kept as a new one.
+            if index[duplicated][0] in replaced_eddies:
+                continue
             n_eddy = n_eddy.rename(
                 index={shifted_counter: index[duplicated][0]}, level=0
             )
@@ -112,6 +123,8 @@ def _detect_nearest(p_eddy, n_eddy):
     # If the distance is negative, then the current eddy is within
     # the previous eddy.
     nearest, _ = np.where(distance_between_nearest < 0)
+    # Sort by distance, so the closest eddies are the first to be linked.
+    nearest = nearest[np.argsort(distance[nearest, 0], kind="stable")]
     return index, nearest
 
 
-- 
2.43.0


From 0f9cc19587f9c88fd00247bdbfc762250dda62ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 05/18] fix: store the first snapshot when tracking offline

The first snapshot with eddies was never written to its file.
---
 trackeddy/trackeddy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index cc82e09..38a5822 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -202,6 +202,10 @@ class TrackEddy:
                     .set_index(["identifier", "time", "index"])
                     .sort_index(level=["identifier", "time", "index"])
                 )
+                if not online_track:
+                    store_snapshot(
+                        track_in_time, self.out_path, time, format=self.out_format
+                    )
                 continue
 
             # Reindex to avoid loosing indexes, it's important for the
-- 
2.43.0


From 0ebaa54a75b8a351304e454c25ab407c600a77a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 06/18] fix: report unknown output formats and name the hdf
 table

Snapshots were silently not stored when the format is unknown, and the hd5
format always failed, since to_hdf requires a key.
---
 trackeddy/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index cb60eb8..f52dcad 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -234,4 +234,11 @@ def store_snapshot(track_in_time, path, time, format="csv", **kwargs):
         case "json":
             track_in_time.to_json(out_path, **kwargs)
         case "hd5":
-            track_in_time.to_hdf(out_path, **kwargs)
+            track_in_time.to_hdf(out_path, **{"key": "eddies", **kwargs})
+        case _:
+            raise ValueError(
+                """The output format can only be 'csv', 'json' or 'hd5',
+                not '{0}'.""".format(
+                    format
+                )
+            )
-- 
2.43.0


From e56970326530807bf5b898c29d928c66897de3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 07/18] fix: never leave an incomplete snapshot file

A run that is killed, or a disk that fills up, while a snapshot is written
left a truncated table under the snapshot's name (or destroyed the one of an
earlier run).
---
 trackeddy/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index f52dcad..b3aea03 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -227,14 +227,17 @@ def track_online(track_in_time, current_time, time, ntimes):
 def store_snapshot(track_in_time, path, time, format="csv", **kwargs):
 
     out_path = os.path.join(path, "identified_eddies_{0:05}.{1}".format(time, format))
+    # Write to a temporary file first, so that an interrupted or failed write
+    # never leaves an incomplete snapshot.
+    tmp_path = out_path + ".tmp"
 
     match format:
         case "csv":
-            track_in_time.to_csv(out_path, **kwargs)
+            track_in_time.to_csv(tmp_path, **kwargs)
         case "json":
-            track_in_time.to_json(out_path, **kwargs)
+            track_in_time.to_json(tmp_path, **kwargs)
         case "hd5":
-            track_in_time.to_hdf(out_path, **{"key": "eddies", **kwargs})
+            track_in_time.to_hdf(tmp_path, **{"key": "eddies", "mode": "w", **kwargs})
         case _:
             raise ValueError(
                 """The output format can only be 'csv', 'json' or 'hd5',
@@ -242,3 +245,5 @@ def store_snapshot(track_in_time, path, time, format="csv", **kwargs):
                     format
                 )
             )
+
+    os.replace(tmp_path, out_path)
-- 
2.43.0


From ef21ef8b87da4ae64860aade58d91cff400d2b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 08/18] fix: apply the missing data treatment also when
 filtering

The filters were given the untreated data.
---
 trackeddy/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/decorators.py b/trackeddy/decorators.py
index 1745c42..9079e56 100644
--- a/trackeddy/decorators.py
+++ b/trackeddy/decorators.py
@@ -73,7 +73,7 @@ def filter_data(func):
             filtered = func(self, filtered, "space")
             self.data2track = func(self, filtered, "time")
         elif kwargs.get("filter") == "space" or kwargs.get("filter") == "time":
-            self.data2track = func(self, *args, kwargs.get("filter"))
+            self.data2track = func(self, filtered, kwargs.get("filter"))
         else:
             self.data2track = filtered
 
-- 
2.43.0


From 607bb38e6c77f34077319ee841537e7960080a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:01 +0000
Subject: [PATCH 09/18] fix: stop looking for a free position after 10000
 attempts

The condition was reversed: after 10000 attempts to place an eddy, the field
generator never ended, even if a free position was found.
---
 trackeddy/generator/field_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 9e6acb2..8fdc851 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -131,7 +131,7 @@ class Generate_field:
                 or (distance < away_val * self.b).any()
             ) or loc
             count = 0
-            while checker or count >= 10000:
+            while checker and count < 10000:
                 newx = rnd.randint(0, self.xlen - 1)
                 newy = rnd.randint(0, self.ylen - 1)
                 self.eddies[key1]["loc"] = [[newx, newy]]
-- 
2.43.0


From 4cf3e990bf24b6d142cbe4ef064f2eec5543328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 10/18] fix: discard the contours that can't be fitted instead
 of aborting

---
 trackeddy/trackeddy.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 38a5822..46bf579 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -311,9 +311,14 @@ class TrackEddy:
                 continue
 
             # TODO clean the fit_ellipse function and input only eddy.contour
-            eddy.ellipse, eddy.ellipse_params = fit_ellipse(
-                eddy.contour[:, 0], eddy.contour[:, 1]
-            )
+            try:
+                eddy.ellipse, eddy.ellipse_params = fit_ellipse(
+                    eddy.contour[:, 0], eddy.contour[:, 1]
+                )
+            except np.linalg.LinAlgError:
+                # There is no unique ellipse, e.g. around a single grid point.
+                discarded = eddy.discarded(reason="ellipse_fit_failed")
+                continue
 
             # Check if area is similar between fitted ellipse and contour
             # Discarding by area first improves the time.
@@ -359,7 +364,12 @@ class TrackEddy:
             F_surface = Fit_Surface(eddy, data_near_contour, x_near_c, y_near_c)
 
             # Fit the chosen feature.
-            eddy.gaussian, eddy.gaussian_params = F_surface._fitting()
+            try:
+                eddy.gaussian, eddy.gaussian_params = F_surface._fitting()
+            except ValueError:
+                # The data can't be fitted, e.g. infinite or huge values.
+                discarded = eddy.discarded(reason="gaussian_fit_failed")
+                continue
 
             # Extract the contour of the gaussian fitted + the eddy contour,
             # since all the gaussians decay to zero, for a fair comparison.
-- 
2.43.0


From 71cd2f5ceee4739ba6160e1db53489e848636813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 11/18] fix: report failed allocations while contouring and
 release everything once

---
 trackeddy/src/cntr.c | 61 +++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index a607454..794ab93 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1313,14 +1313,11 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
     site->data = (Cdata *) PyMem_Malloc(sizeof(Cdata) * nreg);
     if (site->data == NULL)
     {
-        PyMem_Free(site);
-        return -1;
+        return -1;  /* whatever was allocated is released in cntr_del */
     }
     site->saddle = (Saddle*) PyMem_Malloc(sizeof(Saddle) * ijmax);
     if (site->saddle == NULL)
     {
-        PyMem_Free(site->data);
-        PyMem_Free(site);
         return -1;
     }
     site->reg = NULL;
@@ -1329,9 +1326,6 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
         site->reg = (char *) PyMem_Malloc(sizeof(char) * nreg);
         if (site->reg == NULL)
         {
-            PyMem_Free(site->saddle);
-            PyMem_Free(site->data);
-            PyMem_Free(site);
             return -1;
         }
         mask_zones(iMax, jMax, mask, site->reg);
@@ -1348,6 +1342,7 @@ cntr_init(Csite *site, long iMax, long jMax, double *x, double *y,
 
 void cntr_del(Csite *site)
 {
+    if (site == NULL) return;
     PyMem_Free(site->saddle);
     PyMem_Free(site->reg);
     PyMem_Free(site->data);
@@ -1375,6 +1370,12 @@ int reorder(double *xpp, double *ypp, short *kpp,
     /* allocate maximum possible size--gross overkill */
     i0 = (int *)malloc(maxnsegs * sizeof(int));
     i1 = (int *)malloc(maxnsegs * sizeof(int));
+    if (i0 == NULL || i1 == NULL)
+    {
+        PyErr_NoMemory();
+        k = -1;
+        goto ending;
+    }
 
     /* Find the segments. */
     iseg = 0;
@@ -1390,6 +1391,8 @@ int reorder(double *xpp, double *ypp, short *kpp,
                 iseg++;
                 if (iseg == maxnsegs)
                 {
+                    PyErr_SetString(PyExc_RuntimeError,
+                        "reorder: too many segments");
                     k = -1;
                     goto ending;
                 }
@@ -1409,6 +1412,12 @@ int reorder(double *xpp, double *ypp, short *kpp,
 
     if (nsegs) {
         subp = (int *)malloc(nsegs * sizeof(int));
+        if (subp == NULL)
+        {
+            PyErr_NoMemory();
+            k = -1;
+            goto ending;
+        }
     } else {
         subp = NULL;
     }
@@ -1469,6 +1478,8 @@ int reorder(double *xpp, double *ypp, short *kpp,
                 k++;
                 if (k > npts)  /* should never happen */
                 {
+                    PyErr_SetString(PyExc_RuntimeError,
+                        "reorder: too many points");
                     k = -1;
                     goto ending;
                 }
@@ -1500,8 +1511,10 @@ build_cntr_list_v2(long *np, double *xp, double *yp, short *kp,
     long k;
 
     PyArray_Dims newshape;
+    PyObject *resized;
 
     all_contours = PyList_New(nparts*2);
+    if (all_contours == NULL) return NULL;
 
     for (i=0, k=0; i < nparts; k+= np[i], i++)
     {
@@ -1527,15 +1540,20 @@ build_cntr_list_v2(long *np, double *xp, double *yp, short *kp,
         newshape.len = 2;
         dims[0] = n;
         newshape.ptr = dims;
-        if (PyArray_Resize(xyv, &newshape, 1, NPY_CORDER) == NULL) goto error;
+        resized = PyArray_Resize(xyv, &newshape, 1, NPY_CORDER);
+        if (resized == NULL) goto error;
+        Py_DECREF(resized);
 
         newshape.len = 1;  /* ptr, dims can stay the same */
-        if (PyArray_Resize(kv, &newshape, 1, NPY_CORDER) == NULL) goto error;
-
-
-        if (PyList_SetItem(all_contours, i, (PyObject *)xyv)) goto error;
-        if (PyList_SetItem(all_contours, nparts+i,
-                                (PyObject *)kv)) goto error;
+        resized = PyArray_Resize(kv, &newshape, 1, NPY_CORDER);
+        if (resized == NULL) goto error;
+        Py_DECREF(resized);
+
+        /* The list steals the references to the arrays. */
+        PyList_SET_ITEM(all_contours, i, (PyObject *)xyv);
+        PyList_SET_ITEM(all_contours, nparts+i, (PyObject *)kv);
+        xyv = NULL;
+        kv = NULL;
     }
     return all_contours;
 
@@ -1654,7 +1672,11 @@ cntr_trace(Csite *site, double levels[], int nlevels, long nchunk)
     yp0 = (double *) PyMem_Malloc(ntotal * sizeof(double));
     kp0 = (short *) PyMem_Malloc(ntotal * sizeof(short));
     nseg0 = (long *) PyMem_Malloc(nparts * sizeof(long));
-    if (xp0 == NULL || yp0 == NULL || kp0 == NULL || nseg0 == NULL) goto error;
+    if (xp0 == NULL || yp0 == NULL || kp0 == NULL || nseg0 == NULL)
+    {
+        PyErr_NoMemory();
+        goto error;
+    }
 
     /* second pass */
     site->xcp = xp0;
@@ -1733,6 +1755,7 @@ Cntr_clear(Cntr* self)
     PyArrayObject *tmp;
 
     cntr_del(self->site);
+    self->site = NULL;
 
     tmp = self->xpa;
     self->xpa = NULL;
@@ -1827,9 +1850,10 @@ Cntr_init(Cntr *self, PyObject *args, PyObject *kwds)
 
     if (xpa == NULL || ypa == NULL || zpa == NULL || (marg && mpa == NULL))
     {
-        PyErr_SetString(PyExc_ValueError,
-            "Arguments x, y, z, mask (if present) must be 2D arrays.\n"
-            "x, y, z must be castable to double.");
+        if (!PyErr_ExceptionMatches(PyExc_MemoryError))
+            PyErr_SetString(PyExc_ValueError,
+                "Arguments x, y, z, mask (if present) must be 2D arrays.\n"
+                "x, y, z must be castable to double.");
         goto error;
     }
     iMax = PyArray_DIM(zpa, 1);
@@ -1907,6 +1931,7 @@ Cntr_get_cdata(Cntr *self)
     dims[1] = nj = self->site->jmax;
 
     Cdata = (PyArrayObject *) PyArray_SimpleNew(2, dims, NPY_SHORT);
+    if (Cdata == NULL) return NULL;
     data = (char *) PyArray_DATA(Cdata);
     for (j=0; j<nj; j++)
         for (i=0; i<ni; i++)
-- 
2.43.0


From b99a594f1220e1ebbef271ff2063c02dfe81049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 12/18] fix: compare curves of any length without recursing
 through them

---
 trackeddy/geometry.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 70eb80b..a91680a 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -409,7 +409,11 @@ def frdist(P, Q):
 
     ca = np.ones((len_p, len_q), dtype=np.float64) * -1
 
-    dist = _c(ca, len_p - 1, len_q - 1, p, q)
+    # Fill the table from the start of the curves, so _c doesn't recurse through
+    # the whole curves (the longest one may have more than 300 points).
+    for i in range(len_p):
+        for j in range(len_q):
+            dist = _c(ca, i, j, p, q)
 
     return dist
 
-- 
2.43.0


From 8c9dcbd560e69e869b6ee006135ce9a0701b5bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 13/18] fix: measure the area inside contours around 180E 0N

---
 trackeddy/geometry.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index a91680a..3ecdd83 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -469,6 +469,11 @@ def area_latlon_polygon(lonlat):
     # Integrate
     area = abs(sum(integrands)) / (4 * np.pi)
 
+    # The polygon and the rest of the sphere have the same boundary. Keep the
+    # smaller one, the integral returns the larger if the polygon surrounds the
+    # antipode of the origin (180E, 0N).
+    area = min(area, 1 - area)
+
     radius = 6378137
     area_km = (area * 4 * np.pi * radius**2) * 1e-6  # km^2
     return np.array(area_km)
-- 
2.43.0


From 498dbfc00f743fd6094d9e21f3327ab2380d8397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 14/18] fix: contour single rows and columns with any chunk
 size, report empty fields

---
 trackeddy/src/cntr.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/trackeddy/src/cntr.c b/trackeddy/src/cntr.c
index 794ab93..66c1d29 100644
--- a/trackeddy/src/cntr.c
+++ b/trackeddy/src/cntr.c
@@ -1031,7 +1031,11 @@ data_init (Csite * site, long nchunk)
     long jcsize = jmax - 1;
     long ichunk, jchunk, irem, jrem, i, j, ij;
 
-    if (nchunk && two_levels)
+    /* no chunk is larger than the domain, avoids overflows below */
+    if (nchunk > imax + jmax)
+        nchunk = imax + jmax;
+
+    if (nchunk > 0 && two_levels && imax > 1 && jmax > 1)
     {
         /* figure out chunk sizes
          * -- input nchunk is square root of maximum allowed zones per chunk
@@ -1867,6 +1871,12 @@ Cntr_init(Cntr *self, PyObject *args, PyObject *kwds)
              " must have the same dimensions.");
         goto error;
     }
+    if (iMax < 1 || jMax < 1)
+    {
+        PyErr_SetString(PyExc_ValueError,
+            "Arguments x, y, z must not be empty.");
+        goto error;
+    }
     if (mpa)
     {
 	mask = (char *) PyArray_DATA(mpa);
-- 
2.43.0


From b3ca82f6fce6d5c50e9d9a8f819f0008206192a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:49 +0000
Subject: [PATCH 15/18] fix: never place two eddies at the same position

---
 trackeddy/generator/field_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trackeddy/generator/field_generator.py b/trackeddy/generator/field_generator.py
index 8fdc851..f934043 100644
--- a/trackeddy/generator/field_generator.py
+++ b/trackeddy/generator/field_generator.py
@@ -146,10 +146,10 @@ class Generate_field:
                     ]
                 )
                 numzeros = [ii for ii in distance if ii == 0]
+                # Only the distance to itself can be zero. If there are more,
+                # another eddy is at the same position.
                 if len(numzeros) <= 1:
                     distance[distance == 0] = np.inf
-                else:
-                    distance[distance == 0] = away_val * self.a
                 checker = (distance < away_val * self.a).any() or (
                     distance < away_val * self.b
                 ).any()
-- 
2.43.0


From c189f041aabf41024c05c169473c7398f7882515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 16/18] fix: discard eddies whose sign is undefined

Values of both infinities inside a contour have no mean, so the sign of the
eddy was NaN and looking for its extreme raised an error, which aborted the
whole tracking.
---
 trackeddy/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trackeddy/utils.py b/trackeddy/utils.py
index b3aea03..7a533e7 100644
--- a/trackeddy/utils.py
+++ b/trackeddy/utils.py
@@ -142,8 +142,9 @@ def _mask_data_in_contour(coord_ind_contour, data_near_contour, level, mask="con
     # the contour interior.
     mean_value_inside_contour = data_inside_contour.mean()
 
-    # This is used to differentiate between cyclonic and anticyclonic eddies
-    eddy_sign = np.sign(mean_value_inside_contour).values
+    # This is used to differentiate between cyclonic and anticyclonic eddies.
+    # It's zero if undefined, e.g. if there are infinite values of both signs.
+    eddy_sign = np.nan_to_num(np.sign(mean_value_inside_contour).values)
     # This computation allow to extract the eddy maxima independent
     # to their sign.
     eddy_maxima = eddy_sign * (eddy_sign * data_inside_contour).max()
-- 
2.43.0


From a6273f9e41ea70b30eb400508465cf0ac87b603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:47 +0000
Subject: [PATCH 17/18] fix: an empty window from the start isn't the whole
 record

time_tracking(t0=0, tf=0) tracked all times, since 0 was taken for a missing
argument.
---
 trackeddy/trackeddy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trackeddy/trackeddy.py b/trackeddy/trackeddy.py
index 46bf579..645c3ed 100644
--- a/trackeddy/trackeddy.py
+++ b/trackeddy/trackeddy.py
@@ -182,7 +182,7 @@ class TrackEddy:
         self, t0=0, tf=None, lin_levels=None, ntimes=5, online_track=True
     ):
         # TODO Move to decorator?
-        if not tf:
+        if tf is None:
             tf = len(self.Dataset[self.coords["time"]])
         times = range(t0, tf)
 
-- 
2.43.0


From 892377bf821d1b538da17161418279b82490dc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:15 +0000
Subject: [PATCH 18/18] fix: compare curves with missing points in a bounded
 time

Undefined distances were never recognised as computed, so every one of them
was computed again by all its neighbours, recursively.
---
 trackeddy/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trackeddy/geometry.py b/trackeddy/geometry.py
index 3ecdd83..75e3e9a 100644
--- a/trackeddy/geometry.py
+++ b/trackeddy/geometry.py
@@ -305,7 +305,8 @@ def compute_similarity(curve1, curve2):
 
 
 def _c(ca, i, j, p, q):
-    if ca[i, j] > -1:
+    # Distances to points with missing coordinates are computed only once too.
+    if ca[i, j] != -1:
         return ca[i, j]
     elif i == 0 and j == 0:
         ca[i, j] = np.linalg.norm(p[i] - q[j])
-- 
2.43.0

