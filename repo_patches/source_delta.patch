From f7db275e6ef00bbfdaa087b9e6fdff395fc30242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:43 +0000
Subject: [PATCH 01/21] fix: exact global percentile on unstructured grids with
 few cells

The spatial chunk size rounded down to 0 for grids below ~4400 cells, so
identify_extremes(method_extreme='global_extreme', method_percentile='exact')
died with ZeroDivisionError. Never go below one block of 100 cells.
---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index a0a1d07..eeb4aa2 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2761,7 +2761,7 @@ def _identify_extremes_constant(
         if "y" in dimensions:
             rechunk_size = "auto"
         else:
-            rechunk_size = 100 * int(np.sqrt(da[dimensions["x"]].size) * 1.5 / 100)
+            rechunk_size = 100 * max(1, int(np.sqrt(da[dimensions["x"]].size) * 1.5 / 100))
         # N.B.: If this rechunk_size is too small, then dask will be overwhelmed by the number of tasks
         chunk_dict = {dimensions[dim]: rechunk_size for dim in ["x", "y"] if dim in dimensions}
         chunk_dict[dimensions["time"]] = -1
-- 
2.43.0


From afdc17384be0853042ac45845d9dc638b96f886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:43 +0000
Subject: [PATCH 02/21] fix: single-day window in approximate day-of-year
 thresholds

window_days_hobday=1 makes the padding 0, and hist_chunk[-0:] selected the
whole histogram instead of nothing, so the thresholds had 732 days and the
computation failed to broadcast.
---
 marEx/detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index eeb4aa2..6c2e8e5 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2365,7 +2365,7 @@ def _rolling_histogram_quantile(
 
     # Pad histogram with wrap mode for day-of-year cycling
     pad_size = window_days_hobday // 2
-    hist_pad = np.concatenate([hist_chunk[-pad_size:], hist_chunk, hist_chunk[:pad_size]], axis=0)
+    hist_pad = np.concatenate([hist_chunk[n_doy - pad_size :], hist_chunk, hist_chunk[:pad_size]], axis=0)
 
     # Apply rolling sum using stride tricks FTW
     windowed_view = sliding_window_view(hist_pad, window_days_hobday, axis=0)
-- 
2.43.0


From a08883ec8fd1b2883dc6e7505ffca103abd82874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 03/21] fix: pad hole filling by its full reach and never wrap
 latitude

Closing followed by opening reaches 4*R_fill cells, but only 2*R_fill were padded
(and the y axis was padded periodically).
---
 marEx/track.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index dd83d63..066b5c6 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1621,8 +1621,11 @@ class tracker:
                 if R_fill == 0:
                     pass  # No morphological operations needed
                 else:
-                    # Pad data to avoid edge effects
-                    data_bin = data_bin.pad({self.ydim: diameter, self.xdim: diameter}, mode=mode)
+                    # Pad data to avoid edge effects: closing followed by opening reaches 4 * R_fill cells.
+                    # N.B.: Only the x dimension is periodic -- never wrap across the poles.
+                    pad_y = 2 * diameter
+                    pad_x = 2 * diameter if self.regional_mode else min(2 * diameter, data_bin.sizes[self.xdim])
+                    data_bin = data_bin.pad({self.xdim: pad_x}, mode=mode).pad({self.ydim: pad_y}, mode="edge")
                     data_coords = data_bin.coords
                     data_dims = data_bin.dims
 
@@ -1637,8 +1640,8 @@ class tracker:
                     data_bin = xr.DataArray(data_bin, coords=data_coords, dims=data_dims)
                     data_bin = data_bin.isel(
                         {
-                            self.ydim: slice(diameter, -diameter),
-                            self.xdim: slice(diameter, -diameter),
+                            self.ydim: slice(pad_y, -pad_y),
+                            self.xdim: slice(pad_x, -pad_x),
                         }
                     )
             else:  # pragma: no cover
-- 
2.43.0


From 2e7c1d95e8d2aa59f6be99cdfa175885ab69642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:41 +0000
Subject: [PATCH 04/21] fix: keep objects whose area equals the threshold on
 unstructured grids

Consistent with the gridded filter and the documentation.
---
 marEx/track.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 066b5c6..93ffc8e 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -1334,7 +1334,7 @@ class tracker:
         object_areas = object_areas.compute()
         total_area_IDed = float(object_areas.sum().item())
 
-        accepted_area = float(object_areas.where(object_areas > area_threshold, drop=True).sum().item())
+        accepted_area = float(object_areas.where(object_areas >= area_threshold, drop=True).sum().item())
         accepted_area_fraction = accepted_area / total_area_IDed
 
         total_hobday_area = float(raw_area.sum().compute().item())
@@ -1839,7 +1839,7 @@ class tracker:
                 area_threshold = self.area_filter_absolute
             else:
                 area_threshold = np.percentile(object_areas, self.area_filter_quartile * 100)
-            N_objects_filtered = np.sum(object_areas > area_threshold)
+            N_objects_filtered = np.sum(object_areas >= area_threshold)
 
             def filter_area_binary(cluster_IDs_0: NDArray[np.int32], keep_IDs_0: NDArray[np.int32]) -> NDArray[np.bool_]:
                 """Keep only clusters above threshold area."""
@@ -1848,7 +1848,7 @@ class tracker:
                 return keep_where
 
             # Create filtered binary data
-            keep_IDs = xr.where(cluster_sizes > area_threshold, unique_cluster_IDs, 0)
+            keep_IDs = xr.where(cluster_sizes >= area_threshold, unique_cluster_IDs, 0)
 
             data_bin_filtered = xr.apply_ufunc(
                 filter_area_binary,
-- 
2.43.0


From c5abbde7ca9f4e8e4a193815cc87b8f9b521544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:25 +0000
Subject: [PATCH 05/21] fix: centroid partitioning on unstructured grids uses
 only the real parents

partition_centroid_unstructured was handed the unused rows of the parent table (reading
child_ids out of bounds) and returned labels for every cell instead of the child's cells.
---
 marEx/track.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 93ffc8e..a052d08 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4068,7 +4068,7 @@ class tracker:
                         new_labels_uint = partition_nn_unstructured_optimised(
                             child_mask.copy(),
                             parent_masks_uint.copy(),
-                            parent_centroids,
+                            parent_centroids[:n_parents],
                             neighbours_int.copy(),
                             lat,
                             lon,
@@ -4082,7 +4082,9 @@ class tracker:
 
                     else:
                         # Use centroid-based partitioning
-                        new_labels = partition_centroid_unstructured(child_mask, parent_centroids, child_ids, lat, lon)
+                        new_labels = partition_centroid_unstructured(
+                            child_mask, parent_centroids[:n_parents], child_ids, lat, lon
+                        )
 
                     # Update slice data for subsequent merging in process_chunk
                     data_t[child_mask] = new_labels
@@ -5419,7 +5421,7 @@ def partition_centroid_unstructured(
 
         new_labels[i] = child_ids[closest_parent]
 
-    return new_labels
+    return new_labels[child_mask]
 
 
 @njit(fastmath=True, parallel=True)
-- 
2.43.0


From c86e1ab7c46254d67b853e3667a6ef4b56ba8240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:17 +0000
Subject: [PATCH 06/21] fix: unstructured merging with a time chunk of length
 one

process_chunk took the current step from the second entry of the shifted block, which does
not exist in a chunk of a single step (IndexError whenever n_time % chunk == 1).
---
 marEx/track.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index a052d08..daf2c9d 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3834,6 +3834,7 @@ class tracker:
 
         def process_chunk(
             chunk_data_m1_full: NDArray[np.int32],
+            chunk_data_full: NDArray[np.int32],
             chunk_data_p1_full: NDArray[np.int32],
             merging_objects: NDArray[np.int64],
             next_id_start: NDArray[np.int64],
@@ -3861,7 +3862,9 @@ class tracker:
             Parameters
             ----------
             chunk_data_m1_full : numpy.ndarray
-                Data from previous timestep (t-1) and current timestep (t)
+                Data from previous timestep (t-1)
+            chunk_data_full : numpy.ndarray
+                Data from current timestep (t)
             chunk_data_p1_full : numpy.ndarray
                 Data from next timestep (t+1)
             merging_objects : (n_time, max_merges) numpy.ndarray
@@ -3885,9 +3888,9 @@ class tracker:
             #    N.B.: This is a weird artefact/choice of xarray apply_ufunc broadcasting...
             #           (i.e. 'nv' dimension gets injected into all the other arrays!)
 
-            chunk_data_m1 = chunk_data_m1_full.squeeze()[0].astype(np.int32).copy()
-            chunk_data = chunk_data_m1_full.squeeze()[1].astype(np.int32).copy()
-            del chunk_data_m1_full  # Free memory immediately
+            chunk_data_m1 = chunk_data_m1_full[0].squeeze().astype(np.int32).copy()
+            chunk_data = chunk_data_full[0].squeeze().astype(np.int32).copy()
+            del chunk_data_m1_full, chunk_data_full  # Free memory immediately
             chunk_data_p1 = chunk_data_p1_full.astype(np.int32).copy()
             # Remove any singleton dimensions except time and space
             while chunk_data_p1.ndim > 2:
@@ -3898,7 +3901,7 @@ class tracker:
             lat = lat.squeeze().astype(np.float32)
             lon = lon.squeeze().astype(np.float32)
             area = area.squeeze().astype(np.float32)
-            next_id_start = next_id_start.squeeze()
+            next_id_start = next_id_start.reshape(-1)
 
             # Handle neighbours_int with correct dimensions (nv, ncells)
             neighbours_int = neighbours_int.squeeze()
@@ -3906,9 +3909,7 @@ class tracker:
                 neighbours_int = neighbours_int.T
 
             # Handle multiple merging objects - ensure proper dimensionality
-            merging_objects = merging_objects.squeeze()
-            if merging_objects.ndim == 1:
-                merging_objects = merging_objects[:, None]  # Add dimension for max_merges
+            merging_objects = merging_objects.reshape(chunk_data_p1.shape[0], -1)
 
             # Pre-convert lat/lon to Cartesian coordinates for efficiency
             x = (np.cos(np.radians(lat)) * np.cos(np.radians(lon))).astype(np.float32)
@@ -4467,6 +4468,7 @@ class tracker:
             results = xr.apply_ufunc(
                 process_chunk,
                 object_id_field_unique_m1,
+                object_id_field_unique.chunk({self.timedim: self.timechunks}),
                 object_id_field_unique_p1,
                 merging_objects_da,
                 next_id_offsets_da,
@@ -4475,6 +4477,7 @@ class tracker:
                 self.cell_area,
                 neighbours_int,
                 input_core_dims=[
+                    [self.xdim],
                     [self.xdim],
                     [self.xdim],
                     ["merges"],
-- 
2.43.0


From d52c988db4e74f78c42530f3706d5e72641dfb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:31 +0000
Subject: [PATCH 07/21] fix: consolidate split objects in time chunks of length
 one

The end-of-chunk consolidation was skipped for chunks of a single step, so the fragments of
a split counted as separate parents of the next step.
---
 marEx/track.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index daf2c9d..307018d 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3602,12 +3602,15 @@ class tracker:
                 if iteration == 10:
                     logger.warning(f"Resolving mergers at timestep {absolute_t} did not converge after 10 iterations")
 
-            # End-of-chunk consolidation: consolidate the last timestep if chunk has multiple timesteps
-            if chunk_data.sizes[self.timedim] >= 2:
+            # End-of-chunk consolidation: consolidate the last timestep if it has a predecessor
+            if chunk_data.sizes[self.timedim] >= 2 or updated_chunks:
 
                 # Get last and second-to-last timesteps
                 last_t_data = chunk_data.isel({self.timedim: -1})
-                second_last_t_data = chunk_data.isel({self.timedim: -2})
+                if chunk_data.sizes[self.timedim] >= 2:
+                    second_last_t_data = chunk_data.isel({self.timedim: -2})
+                else:
+                    second_last_t_data = updated_chunks[-1][2][-1]
 
                 # Consolidate last timestep using second-to-last as reference
                 consolidated_last, object_props = self.consolidate_object_ids(
-- 
2.43.0


From 3b7e2f67088c4c2429d83a0aec1ebd51545a27d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:06 +0000
Subject: [PATCH 08/21] fix: merge_ledger lists all events of a merger for each
 of them

---
 marEx/track.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 307018d..ea20d85 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -3080,20 +3080,19 @@ class tracker:
                 if IDs_at_time.ndim == 1:
                     valid_mask = IDs_at_time > 0
                     if np.any(valid_mask):
-                        # Create expanded array for sibling_ID dimension
-                        expanded_IDs = np.broadcast_to(IDs_at_time, (len(time_block.sibling_ID), len(IDs_at_time)))
-                        result.loc[{self.timedim: time_val, "ID": IDs_at_time[valid_mask]}] = expanded_IDs[:, valid_mask]
+                        # Every merging event lists all the events of this merger (padded with -1)
+                        sibling_IDs = np.where(valid_mask, IDs_at_time, -1)[:, np.newaxis]
+                        expanded_IDs = np.broadcast_to(sibling_IDs, (len(time_block.sibling_ID), np.sum(valid_mask)))
+                        result.loc[{self.timedim: time_val, "ID": IDs_at_time[valid_mask]}] = expanded_IDs
 
                 # Handle multiple mergers case
                 else:
                     for merger_IDs in IDs_at_time:
                         valid_mask = merger_IDs > 0
                         if np.any(valid_mask):
-                            expanded_IDs = np.broadcast_to(
-                                merger_IDs,
-                                (len(time_block.sibling_ID), len(merger_IDs)),
-                            )
-                            result.loc[{self.timedim: time_val, "ID": merger_IDs[valid_mask]}] = expanded_IDs[:, valid_mask]
+                            sibling_IDs = np.where(valid_mask, merger_IDs, -1)[:, np.newaxis]
+                            expanded_IDs = np.broadcast_to(sibling_IDs, (len(time_block.sibling_ID), np.sum(valid_mask)))
+                            result.loc[{self.timedim: time_val, "ID": merger_IDs[valid_mask]}] = expanded_IDs
 
             return result
 
-- 
2.43.0


From 349f4727391ac5471d2f07d96348c6508512bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:00 +0000
Subject: [PATCH 09/21] fix: centroids of wide objects and of objects crossing
 the periodic boundary

---
 marEx/track.py | 60 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index ea20d85..128f2ff 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2089,15 +2089,11 @@ class tracker:
         # N.B.: We calculate _near_ rather than touching, to catch the edge case where the
         # object may be split and straddling the boundary !
         if near_left_BC and near_right_BC:
-            # Adjust x coordinates that are near right edge
+            # Unwrap the x coordinates across the periodic boundary
             x_indices = np.nonzero(binary_mask)[1]
-            x_indices_adj = x_indices.copy()
-            right_side = x_indices > binary_mask.shape[1] // 2
-            x_indices_adj[right_side] -= binary_mask.shape[1]
-
-            x_centroid = np.mean(x_indices_adj)
-            if x_centroid < 0:  # Ensure centroid is positive
-                x_centroid += binary_mask.shape[1]
+            x_centroid = np.mean(unwrap_periodic_indices(x_indices, binary_mask.shape[1]))
+            if x_centroid >= binary_mask.shape[1]:  # Ensure centroid is within the domain
+                x_centroid -= binary_mask.shape[1]
 
         elif original_centroid is None:  # pragma: no cover
             # Calculate x-centroid from scratch
@@ -3242,17 +3238,15 @@ class tracker:
                             near_right = np.any(x_indices >= nx - 100)
 
                             if near_left and near_right:
-                                # Object wraps around - adjust coordinates
-                                x_adjusted = x_indices.copy().astype(np.float64)
-                                right_side = x_indices > nx / 2
-                                x_adjusted[right_side] -= nx
+                                # Object may wrap around - unwrap coordinates across the periodic boundary
+                                x_adjusted = unwrap_periodic_indices(x_indices, nx)
 
                                 # Area-weighted mean with adjusted coordinates
                                 centroid_x_pix = np.sum(x_adjusted * pixel_areas) / total_area
 
-                                # Ensure centroid is positive
-                                if centroid_x_pix < 0:
-                                    centroid_x_pix += nx
+                                # Ensure centroid is within the domain
+                                if centroid_x_pix >= nx:
+                                    centroid_x_pix -= nx
                             else:
                                 # No wrapping - standard area-weighted calculation
                                 centroid_x_pix = np.sum(x_indices * pixel_areas) / total_area
@@ -3262,7 +3256,11 @@ class tracker:
 
                         # Convert pixel indices to coordinate values
                         centroid_lat = np.interp(centroid_y_pix, np.arange(len(lat_vals)), lat_vals)
-                        centroid_lon = np.interp(centroid_x_pix, np.arange(len(lon_vals)), lon_vals)
+                        if regional_mode:
+                            lon_nodes = lon_vals
+                        else:  # the centroid may lie between the last and the (periodic) first column
+                            lon_nodes = np.append(lon_vals, 2 * lon_vals[-1] - lon_vals[-2])
+                        centroid_lon = np.interp(centroid_x_pix, np.arange(len(lon_nodes)), lon_nodes)
 
                         centroid_lats[id_idx] = centroid_lat
                         centroid_lons[id_idx] = centroid_lon
@@ -4833,6 +4831,36 @@ operations on both structured and unstructured grids.
 """
 
 
+def unwrap_periodic_indices(x_indices: NDArray[np.int64], nx: int) -> NDArray[np.int64]:
+    """
+    Unwrap the x-indices of an object in a periodic domain.
+
+    The domain is cut at the widest run of columns which is free of the object, and the
+    columns to the left of the cut are shifted by nx.
+
+    Parameters
+    ----------
+    x_indices : numpy.ndarray
+        Column index of every pixel of the object
+    nx : int
+        Number of columns in the domain
+
+    Returns
+    -------
+    numpy.ndarray
+        Unwrapped column indices (contiguous across the periodic boundary)
+    """
+    columns = np.unique(x_indices)
+    gaps = np.diff(np.append(columns, columns[0] + nx))
+
+    # If the periodic boundary is (among) the widest gap(s), the object does not wrap around
+    if gaps[-1] == np.max(gaps):
+        return x_indices
+
+    first_column = columns[np.argmax(gaps) + 1]
+    return np.where(x_indices < first_column, x_indices + nx, x_indices)
+
+
 @jit(nopython=True, parallel=True, fastmath=True)
 def wrapped_euclidian_distance_mask_parallel(
     mask_values: NDArray[np.bool_],
-- 
2.43.0


From 6652e4c5366f1769e2acd535f87d1839c29d1904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:45 +0000
Subject: [PATCH 10/21] fix: queue children overlapping exactly at the
 threshold when re-partitioning

---
 marEx/track.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marEx/track.py b/marEx/track.py
index 128f2ff..8c9bf63 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4119,7 +4119,7 @@ class tracker:
                                 min_area = min(area_0, area_1)
                                 overlap_area = area[parent_mask & potential_child_mask].sum()
 
-                                if overlap_area / min_area > self.overlap_threshold:
+                                if overlap_area / min_area >= self.overlap_threshold:
                                     new_merging_list.append(potential_child)
 
                     # Add newly found merging objects to processing queue
-- 
2.43.0


From 969bd7f73f29c78f2315ca9713734cccedee9eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:12 +0000
Subject: [PATCH 11/21] fix: unique temporary IDs for mergers on unstructured
 grids

---
 marEx/track.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 8c9bf63..a7ebd71 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -4444,10 +4444,9 @@ class tracker:
             )
 
             # Calculate ID offsets for each timestep to ensure unique IDs
-            next_id_offsets = np.arange(n_time, dtype=np.int64) * max_merges * self.timechunks + global_id_counter
-            # N.B.: We also need to account for possibility of newly-split objects subsequently creating
-            #          more than max_merges by the end of the iteration through the chunk
-            # !!! This is likely the root cause of any errors such as "ID needs to be contiguous/continuous/full/unrepeated"
+            # N.B.: Every timestep may create up to (MAX_PARENTS - 1) new IDs in each of up to MAX_MERGES mergers
+            #          (including those which only appear as the iteration proceeds through the chunk)
+            next_id_offsets = np.arange(n_time, dtype=np.int64) * (MAX_MERGES * MAX_PARENTS) + global_id_counter
             next_id_offsets_da = xr.DataArray(
                 next_id_offsets,
                 dims=[self.timedim],
-- 
2.43.0


From c0ca1d0508c6193906ffb3c169139129234014b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:18 +0000
Subject: [PATCH 12/21] fix: nearest-parent partitioning on unstructured grids
 advances one hop at a time

---
 marEx/track.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index a7ebd71..ff5e603 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5229,7 +5229,7 @@ def partition_nn_unstructured(
 
         for parent_idx in range(n_parents):
             # Get current frontier points
-            frontier_mask = visited[parent_idx]
+            frontier_mask = visited[parent_idx].copy()  # Expand by exactly one hop per iteration
             if not np.any(frontier_mask):
                 continue
 
@@ -5331,13 +5331,16 @@ def partition_nn_unstructured_optimised(
         updates_made = False
 
         for parent_idx in range(n_parents):
+            # Expand this parent's frontier by exactly one hop per iteration
+            frontier_mask = parent_frontiers_working == parent_idx
+
             # Skip if no frontier points for this parent
-            if not np.any(parent_frontiers_working == parent_idx):
+            if not np.any(frontier_mask):
                 continue
 
             # Process neighbours for current parent's frontier
             for i in range(3):
-                neighbors = neighbours_int[i, parent_frontiers_working == parent_idx]
+                neighbors = neighbours_int[i, frontier_mask]
                 valid_neighbors = neighbors >= 0
 
                 if not np.any(valid_neighbors):
-- 
2.43.0


From 0b5e83b20ef791e3249fac5281efa7e1d2010115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:41 +0000
Subject: [PATCH 13/21] fix: exact nearest-parent partitioning on gridded data

---
 marEx/track.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index ff5e603..432181b 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -5049,11 +5049,14 @@ def partition_nn_grid(
     half_Nx = Nx / 2
     n_parents = len(parent_masks)
     grid_size = max(2, max_distance // 4)
+    # Number of grid cells to search on either side, to reach max_distance (also across a partial grid cell at the boundary)
+    n_search = (max_distance + grid_size - 1) // grid_size + 1
 
     y_indices, x_indices = np.nonzero(child_mask)
     n_child_points = len(y_indices)
 
-    min_distances = np.full(n_child_points, np.inf)
+    far = 1.0e30  # N.B.: np.inf cannot be compared reliably with fastmath
+    min_distances = np.full(n_child_points, far)
     parent_assignments = np.zeros(n_child_points, dtype=np.int32)
     found_close = np.zeros(n_child_points, dtype=np.bool_)
 
@@ -5077,14 +5080,13 @@ def partition_nn_grid(
             grid_y = min(child_y // grid_size, n_grids_y - 1)
             grid_x = min(child_x // grid_size, n_grids_x - 1)
 
-            min_dist_to_parent = np.inf
+            min_dist_to_parent = far
 
             # Check nearby grid cells
-            for dy in range(-1, 2):
-                grid_y_check = (grid_y + dy) % n_grids_y
+            for grid_y_check in range(max(grid_y - n_search, 0), min(grid_y + n_search + 1, n_grids_y)):
 
-                for dx in range(-1, 2):
-                    grid_x_check = (grid_x + dx) % n_grids_x
+                for dx in range(min(2 * n_search + 1, n_grids_x)):
+                    grid_x_check = (grid_x - n_search + dx) % n_grids_x
 
                     # Process points in this grid cell
                     n_points = grid_counts[grid_y_check, grid_x_check]
@@ -5119,11 +5121,11 @@ def partition_nn_grid(
                 parent_assignments[child_idx] = parent_idx
 
     # Handle any unassigned points using centroids
-    unassigned = min_distances == np.inf
+    unassigned = min_distances >= far
     if np.any(unassigned):
         for child_idx in np.nonzero(unassigned)[0]:
             child_y, child_x = y_indices[child_idx], x_indices[child_idx]
-            min_dist = np.inf
+            min_dist = far
             best_parent = 0
 
             for parent_idx in range(n_parents):
-- 
2.43.0


From 82bde6aece6eb910d1d5ec38fad9d92c43d63a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:38 +0000
Subject: [PATCH 14/21] fix: refuse shifting_baseline records that span no more
 than the baseline window

With exactly window_year_baseline years every step was trimmed away and the
extremes stage failed on the empty series instead of reporting too little data.
---
 marEx/detect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index 6c2e8e5..c08fd84 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -600,11 +600,11 @@ def preprocess_data(
 
         logger.info(f"Shifting baseline data validation: {total_years} years available ({min_year}-{max_year})")
 
-        if total_years < window_year_baseline:
-            logger.error(f"Insufficient data: {total_years} years < {window_year_baseline} required")
+        if total_years <= window_year_baseline:  # The first window_year_baseline years are dropped below
+            logger.error(f"Insufficient data: {total_years} years < {window_year_baseline + 1} required")
             raise create_data_validation_error(
                 "Insufficient data for shifting_baseline method",
-                details=f"Dataset spans {total_years} years but requires at least {window_year_baseline} years",
+                details=f"Dataset spans {total_years} years but requires at least {window_year_baseline + 1} years",
                 suggestions=[
                     "Use more years of data to meet minimum requirement",
                     f"Reduce window_year_baseline parameter (currently {window_year_baseline})",
@@ -612,7 +612,7 @@ def preprocess_data(
                 ],
                 data_info={
                     "available_years": int(total_years),
-                    "required_years": int(window_year_baseline),
+                    "required_years": int(window_year_baseline + 1),
                 },
             )
 
-- 
2.43.0


From 752c18cdf2301b4277afd37f42a5fcf7f3cfe02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:59 +0000
Subject: [PATCH 15/21] fix: track gridded data in radians and leave the
 caller's coordinates alone

Only the event data's coordinates were converted to degrees - in place, on the
caller's object - so the mask (and cell areas) no longer aligned, and a second
tracker built from the same data answered in the wrong units.
---
 marEx/track.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 432181b..174e48c 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -396,8 +396,11 @@ class tracker:
         self.lat_init = data_bin[self.ycoord].persist()  # Save in original units
         self.lon_init = data_bin[self.xcoord].persist()
         self._unify_coordinates()
+        data_bin = self.data_bin  # Coordinates now in degrees
 
-        self.mask = mask
+        self.mask = self._coordinates_to_degrees(mask)
+        if cell_areas is not None:
+            cell_areas = self._coordinates_to_degrees(cell_areas)
         self.R_fill = int(R_fill)
         self.T_fill = T_fill
 
@@ -971,9 +974,13 @@ class tracker:
                     )
 
         # Convert lat & lon to degrees
-        if self.coordinate_units == "radians":
-            self.data_bin[self.xcoord] = self.data_bin[self.xcoord] * 180.0 / np.pi
-            self.data_bin[self.ycoord] = self.data_bin[self.ycoord] * 180.0 / np.pi
+        self.data_bin = self._coordinates_to_degrees(self.data_bin)
+
+    def _coordinates_to_degrees(self, da: xr.DataArray) -> xr.DataArray:
+        """Return da with its lat/lon coordinates in degrees, leaving the caller's object untouched."""
+        if self.coordinate_units != "radians":
+            return da
+        return da.assign_coords({c: da[c] * 180.0 / np.pi for c in (self.xcoord, self.ycoord) if c in da.coords})
 
     def _remap_coordinates(self, events_ds: xr.Dataset) -> xr.Dataset:
         """Remap coordinates to original lat/lon values after processing.
-- 
2.43.0


From 24adc2975b8c16b562bb655fa3979eceb32ae4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 16/21] fix: gridded tracking can write and resume checkpoints
 in temp_dir

---
 marEx/track.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/marEx/track.py b/marEx/track.py
index 174e48c..849004e 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -421,6 +421,7 @@ class tracker:
             )
         self.unstructured_grid = unstructured_grid
         self.checkpoint = checkpoint
+        self.scratch_dir = temp_dir
         self.debug = debug
 
         logger.debug(f"Dimensions: time={self.timedim}, x={self.xdim}, y={self.ydim}")
@@ -1260,6 +1261,13 @@ class tracker:
         if not checkpoint:
             checkpoint = self.checkpoint
 
+        if checkpoint and checkpoint != "None" and not self.scratch_dir:
+            raise ConfigurationError(
+                "Missing temporary directory for checkpointing",
+                details=f"checkpoint='{checkpoint}' requires a directory for the checkpoint files",
+                suggestions=["Provide temp_dir parameter: tracker(..., temp_dir='/tmp/marex')"],
+            )
+
         def load_data_from_checkpoint() -> xr.DataArray:
             """Load preprocessed data from checkpoint files."""
             data_bin_preprocessed: xr.DataArray = xr.open_zarr(
-- 
2.43.0


From 58c46cb096234d289019ee97e49dd87f3f18d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 17/21] fix: size the ID table of unstructured tracking by the
 largest number of IDs per step

---
 marEx/track.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/marEx/track.py b/marEx/track.py
index 849004e..a8cc209 100644
--- a/marEx/track.py
+++ b/marEx/track.py
@@ -2695,8 +2695,18 @@ class tracker:
         time_index_map : dict
             Dictionary mapping object IDs to time indices
         """
-        # Estimate max objects per time
-        est_objects_per_time_max = int(max_objects / da[self.timedim].shape[0] * 100)
+        # Largest number of distinct IDs at any one time
+        input_dims = [self.xdim] if self.unstructured_grid else [self.ydim, self.xdim]
+        objects_per_time = xr.apply_ufunc(
+            lambda x: np.unique(x).size,
+            da,
+            input_core_dims=[input_dims],
+            output_core_dims=[[]],
+            dask="parallelized",
+            vectorize=True,
+            output_dtypes=[np.int64],
+        )
+        est_objects_per_time_max = int(objects_per_time.max().compute().item())
 
         def unique_pad(x: NDArray[np.int32]) -> NDArray[np.int32]:
             """Extract unique values and pad to fixed size."""
@@ -2706,7 +2716,6 @@ class tracker:
             return result
 
         # Get unique IDs for each time slice
-        input_dims = [self.xdim] if self.unstructured_grid else [self.ydim, self.xdim]
         unique_ids_by_time = xr.apply_ufunc(
             unique_pad,
             da,
-- 
2.43.0


From e138aa407d4ff5505fd0079186f1cf9df4c3d4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 18/21] fix: std_normalise works on records without a leap day

---
 marEx/detect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index c08fd84..4fd2a7e 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2183,7 +2183,8 @@ def _compute_anomaly_detrended(
 
         # Calculate 30-day rolling standard deviation with annual wrapped padding
         std_day_wrap = std_day.pad(dayofyear=16, mode="wrap")
-        std_rolling = np.sqrt((std_day_wrap**2).rolling(dayofyear=30, center=True).mean()).isel(dayofyear=slice(16, 366 + 16))
+        n_days = std_day.sizes["dayofyear"]  # 365 when the record contains no leap year
+        std_rolling = np.sqrt((std_day_wrap**2).rolling(dayofyear=30, center=True).mean()).isel(dayofyear=slice(16, n_days + 16))
 
         # Divide anomalies by rolling standard deviation
         # Replace any zeros or extremely small values with NaN to avoid division warnings
-- 
2.43.0


From b062defeb5724bb892cd18269b6e90d99ed5f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 19/21] fix: isolated NaN anomalies no longer void approximate
 thresholds

---
 marEx/detect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index 4fd2a7e..f2360b6 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2573,8 +2573,8 @@ def _compute_histogram_quantile_2d(
     if dimensions["time"] in threshold.coords:
         threshold = threshold.drop_vars(dimensions["time"])
 
-    # Set threshold to NaN for spatial points that contain NaN values
-    nan_mask = da.isel({dimensions["time"]: 0}).isnull().compute()
+    # Set threshold to NaN for spatial points without any data (isolated NaNs are ignored, as with exact percentiles)
+    nan_mask = da.isnull().all(dim=dimensions["time"]).compute()
     threshold = threshold.where(~nan_mask).persist()
 
     # Validate threshold values against bounds
@@ -2704,8 +2704,8 @@ def _compute_histogram_quantile_1d(
     no_exact_match = zero_denom & ~exact_match
     threshold = xr.where(no_exact_match, (bin_lower + bin_upper) / 2, threshold)
 
-    # Set threshold to NaN for spatial points that contain NaN values
-    nan_mask = da.isnull().any(dim=dim)
+    # Set threshold to NaN for spatial points without any data (isolated NaNs are ignored, as with exact percentiles)
+    nan_mask = da.isnull().all(dim=dim)
     threshold = threshold.where(~nan_mask).drop_vars(f"{da.name}_bin").persist()
 
     # Validate threshold against bounds
-- 
2.43.0


From befcd9cc0db61a716ae149b49f910c0c542d5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 20/21] fix: group by calendar day when the time coordinate is
 not the time dimension's index

---
 marEx/detect.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index f2360b6..eadff82 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2172,9 +2172,10 @@ def _compute_anomaly_detrended(
     if std_normalise:
 
         # Calculate day-of-year standard deviation using cohorts
+        dayofyear = da_detrend[coordinates["time"]].dt.dayofyear.compute()
         std_day = flox.xarray.xarray_reduce(
             da_detrend,
-            da_detrend[coordinates["time"]].dt.dayofyear,
+            dayofyear,
             dim=dimensions["time"],
             func="std",
             isbin=False,
@@ -2189,7 +2190,7 @@ def _compute_anomaly_detrended(
         # Divide anomalies by rolling standard deviation
         # Replace any zeros or extremely small values with NaN to avoid division warnings
         std_rolling_safe = std_rolling.where(std_rolling > 1e-10, np.nan)
-        da_detrend = da_detrend.assign_coords(dayofyear=da_detrend[coordinates["time"]].dt.dayofyear)
+        da_detrend = da_detrend.assign_coords(dayofyear=dayofyear)
         da_stn = da_detrend.groupby(dayofyear=xr.groupers.UniqueGrouper(labels=np.arange(1, 367))) / std_rolling_safe
 
         # Drop dayofyear coordinate to avoid merge conflicts
@@ -2241,9 +2242,11 @@ def _compute_anomaly_fixed_baseline(
 
     # Compute daily climatology across all years using flox for efficiency
     logger.debug("Computing daily climatology across all years")
+    # A time coordinate that is not an index may be dask-backed, but grouping needs its values
+    dayofyear = da[coordinates["time"]].dt.dayofyear.compute()
     daily_climatology = flox.xarray.xarray_reduce(
         da,
-        da[coordinates["time"]].dt.dayofyear,
+        dayofyear,
         dim=dimensions["time"],
         func="nanmean",
         isbin=False,
@@ -2253,7 +2256,7 @@ def _compute_anomaly_fixed_baseline(
 
     # Compute anomalies by subtracting daily climatology from original data
     logger.debug("Computing anomalies by subtracting daily climatology")
-    da = da.assign_coords(dayofyear=da[coordinates["time"]].dt.dayofyear)
+    da = da.assign_coords(dayofyear=dayofyear)
     anomalies = da.groupby(dayofyear=xr.groupers.UniqueGrouper(labels=np.arange(1, 367))) - daily_climatology
     anomalies = anomalies.astype(np.float32)
 
-- 
2.43.0


From 0937afedfb8d020205a07ea52ffd388c00dd22c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 21/21] fix: detrending aligns on the time dimension's own
 index

---
 marEx/detect.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marEx/detect.py b/marEx/detect.py
index eadff82..78d1ebc 100644
--- a/marEx/detect.py
+++ b/marEx/detect.py
@@ -2084,12 +2084,13 @@ def _compute_anomaly_detrended(
     pmodel = np.linalg.pinv(model)
     n_coeffs = len(model_components)
 
-    # Convert model matrices to xarray
+    # Convert model matrices to xarray (on the time dimension's own index, if there is one)
+    time_index = da[dimensions["time"] if dimensions["time"] in da.coords else coordinates["time"]].values
     model_da = xr.DataArray(
         model.T,
         dims=[dimensions["time"], "coeff"],
         coords={
-            dimensions["time"]: da[coordinates["time"]].values,
+            dimensions["time"]: time_index,
             "coeff": np.arange(1, n_coeffs + 1),
         },
     ).chunk({dimensions["time"]: da.chunks[0]})
@@ -2099,7 +2100,7 @@ def _compute_anomaly_detrended(
         dims=["coeff", dimensions["time"]],
         coords={
             "coeff": np.arange(1, n_coeffs + 1),
-            dimensions["time"]: da[coordinates["time"]].values,
+            dimensions["time"]: time_index,
         },
     ).chunk({dimensions["time"]: da.chunks[0]})
 
-- 
2.43.0

