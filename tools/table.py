NOT_APPLICABLE = {}
NOTE = "Holds for every value of the symbolic inputs within the bounds written in the evidence file (small grids and series, listed calendars and configurations). Trusted: z3, the models of array kernels in symx/ (each run replays solver-chosen witnesses on the unpatched package and compares the outputs)."
WHY = "The tests run a few fixed random fields and compare statistics or regression numbers; "


def fill(prop, D, T):
    prop("P01", "A value is flagged extreme exactly when it reaches its own threshold",
         "A time step at a location is flagged as extreme exactly when its anomaly there is greater than or equal to the threshold reported for that location (for seasonally varying thresholds: for that location and that step's calendar day). NaN values, and places whose threshold is NaN, are never flagged. This holds for global and day-of-year thresholds, exact and approximate percentiles, gridded and unstructured data and every chunking.",
         ["inputs", "configurations"], "all anomaly fields, calendars, chunkings and method combinations", WHY + "an off-by-one calendar-day lookup or a strict comparison moves only a few flags.",
         [D], [("identify_extremes", D), ("flag comparison", D + ": _identify_extremes_constant / _identify_extremes_hobday")], NOTE)
    prop("P02", "Exact thresholds are the requested percentile of exactly the stated samples",
         "With exact percentiles the threshold of a location is the requested linear-interpolation percentile of all its non-NaN values (global), or of all values within the centred day window of consecutive time steps around every occurrence of the calendar day (day-of-year thresholds). No sample of another location or outside the window enters, none is dropped, and the result does not depend on chunking or the order and names of the dimensions.",
         ["inputs", "configurations"], "all value fields, percentiles, windows, calendars incl. leap days, chunkings", WHY + "one sample too many or too few at the window or series ends changes thresholds by less than the tests' tolerances.",
         [D], [("exact global percentile", D + ": _identify_extremes_constant"), ("exact day-of-year percentile", D + ": _identify_extremes_hobday")], NOTE)
    prop("P03", "Approximate day-of-year thresholds match the pooled quantile to bin resolution",
         "With approximate percentiles, every calendar day (1..366) and location gets a threshold within one and a half histogram bins of the requested quantile of the samples pooled from the centred calendar-day window, which is cyclic over the turn of the year, and from the centred spatial window, which is periodic in longitude and truncated in latitude. Samples are the non-NaN anomalies within the histogram range (quantiles below the first positive bin count as that bin); land cells add nothing and stay NaN, and windows with no samples give NaN.",
         ["inputs", "configurations"], "all anomaly fields inside the histogram range, windows, calendars, grids", WHY + "errors confined to the year boundary, the seam or one bin are invisible in averaged statistics.",
         [D], [("day-of-year histogram quantile", D + ": _compute_histogram_quantile_2d"), ("cyclic and spatial windows", D)], NOTE)
    prop("P04", "Approximate global thresholds match the sample quantile to bin resolution",
         "With approximate percentiles a location's global threshold lies within one and a half histogram bins of the requested quantile of all its non-NaN anomalies (anomalies within the histogram range; quantiles below the first positive bin count as that bin). Land stays NaN, and locations do not influence each other.",
         ["inputs", "configurations"], "all anomaly series inside the histogram range, percentiles, precisions", WHY + "they only sample smooth distributions with thousands of values, where an off-by-one bin disappears.",
         [D], [("global histogram quantile", D + ": _compute_histogram_quantile_1d")], NOTE)
    prop("P05", "Shifting-baseline anomalies use exactly the preceding W years of the same day",
         "The shifting-baseline anomaly of a time step is its value minus the mean, over the W calendar years directly preceding its year, of the centred-moving-average-smoothed values on the same calendar day; steps in the first W years are undefined. Preprocessing returns exactly the steps from the first year plus W onwards, with those anomalies.",
         ["inputs", "configurations", "histories"], "all value fields, window lengths, smoothing lengths and calendars incl. leap days and missing years", WHY + "including the current year or one year too few changes anomalies only slightly; the stable suite runs no shifting-baseline numbers.",
         [D], [("rolling climatology", D + ": rolling_climatology"), ("smoothing", D + ": smoothed_rolling_climatology"), ("trimming", D + ": preprocess_data")], NOTE)
    prop("P06", "Fixed-baseline anomalies remove each calendar day's own mean",
         "The fixed-baseline anomaly of a time step is its value minus the mean of all values of the same location on the same calendar day, ignoring NaN. The detrended variant first removes the least-squares polynomial of the requested orders (without harmonics) and then the same daily mean. The result does not depend on chunking, the order and names of the dimensions, a time coordinate named differently from its dimension, or other locations.",
         ["inputs", "configurations"], "all value fields, calendars incl. leap days, polynomial orders, chunkings", WHY + "no stable test compares the daily means.",
         [D], [("fixed climatology", D + ": _compute_anomaly_fixed_baseline"), ("detrended variant", D + ": _compute_anomaly_detrend_fixed_baseline")], NOTE)
    prop("P07", "Harmonic detrending returns the least-squares residual",
         "The harmonically detrended anomaly of a location is the residual of the least-squares fit of its series by a constant, the requested polynomial orders in time and the annual and semi-annual sine and cosine, hence has zero mean; land stays NaN. The result does not depend on chunking, the order and names of the dimensions, a time coordinate named differently from its dimension, or other locations.",
         ["inputs", "configurations"], "all value series, polynomial orders and calendars", WHY + "a missing or mis-scaled harmonic or order leaves residuals that look plausible.",
         [D], [("model matrix and pseudo-inverse", D + ": _compute_anomaly_detrended"), ("decimal year", D + ": add_decimal_year")], NOTE)
    prop("P08", "Broken ocean data is refused and land stays inert",
         "Preprocessing raises a data-validation error exactly when no location is finite at the first step, or some location that is finite at the first step holds a NaN or infinite value later. Otherwise the returned mask is true exactly at the locations finite at the first step, their anomalies are finite (shifting baseline: where the preceding W years contain that calendar day with a full smoothing window), and locations that are NaN throughout have NaN anomalies and thresholds and are never flagged.",
         ["inputs"], "every placement of NaN and infinite values", WHY + "they try one or two fixed placements of NaN.",
         [D], [("validation", D + ": preprocess_data"), ("mask", D + ": compute_normalised_anomaly")], NOTE)
    prop("P09", "Gridded hole filling is the closing-then-opening by the R_fill disk",
         "Spatial hole filling on a regular grid returns, for every binary field, the morphological closing followed by the opening with the disk of radius R_fill cells, periodic in longitude (edge-replicated in regional mode), edge-replicated in latitude (never wrapped across the poles); land cells are never flagged. R_fill=0 changes nothing. Time steps do not influence each other and chunking and dimension names do not matter.",
         ["inputs", "configurations"], "all binary fields, radii, land masks, periodic and regional", WHY + "a padding one cell short or a wrapped latitude only shows for objects near the edges.",
         [T], [("hole filling", T + ": fill_holes")], NOTE)
    prop("P10", "Unstructured hole filling is the R-hop closing then opening over the mesh",
         "On an unstructured mesh hole filling grows and shrinks objects by R_fill neighbour hops (closing, then opening); land counts as filled while shrinking, so coasts do not erode objects. Ocean cells of the result equal that operation for every field, mesh, radius and time chunking.",
         ["inputs", "configurations"], "all binary fields on the meshes, radii and land cells", WHY + "the stable suite never compares the filled cells.",
         [T], [("sparse dilation powers", T + ": fill_holes / sparse_bool_power"), ("dilation matrix", T + ": _setup_unstructured_grid")], NOTE)
    prop("P11", "Temporal gap filling bridges exactly the gaps of at most T_fill steps",
         "Temporal gap filling returns the closing in time of every cell's series: a gap between two flagged steps is filled exactly when it is no longer than T_fill steps, no step outside the record is invented, flagged steps stay flagged, the time axis is unchanged, and (T_fill > 0) spatial hole filling by at most R_fill/2 follows. The result does not depend on time chunks.",
         ["inputs", "configurations", "histories"], "all binary series, T_fill, chunkings, gridded and unstructured", WHY + "an error at a chunk boundary or at the record's ends needs one specific history.",
         [T], [("gap filling", T + ": fill_time_gaps")], NOTE)
    prop("P12", "The area filter keeps exactly the objects that are large enough",
         "The area filter keeps every object whose size is at least the threshold (the absolute number of cells given, or the requested quantile of all object sizes) and removes every other object entirely; nothing else changes. The reported numbers of objects before and after filtering are exact. Objects are 8-connected (periodic in longitude unless regional) or mesh-connected, separately per time step.",
         ["inputs", "configurations"], "all binary fields, thresholds, quantiles, chunkings, gridded and unstructured", WHY + "they never look at the first, the last or an exactly threshold-sized object.",
         [T], [("area filter", T + ": filter_small_objects")], NOTE)
    prop("P13", "Objects are exactly the connected flagged regions",
         "Object identification gives two flagged cells of a time step the same positive ID exactly when they are connected (8-neighbourhood, periodic in longitude unless regional; mesh edges on unstructured grids), different time steps share no ID, and clear cells get 0. With time connectivity (tracking without merging) cells share an ID exactly when connected in space-time, IDs are 1..N and N is the reported number of events.",
         ["inputs", "configurations"], "all binary fields, chunkings, periodic and regional, gridded and unstructured", WHY + "a missed seam or diagonal contact needs one specific pattern.",
         [T], [("identification", T + ": identify_objects")], NOTE)
    prop("P14", "Objects of consecutive steps are linked exactly by the overlap criterion",
         "With merging enabled and no object having two linked predecessors, two objects belong to the same event exactly when they are joined by a chain of links, a link meaning that objects of consecutive steps overlap by at least overlap_threshold of the smaller one's area (fragments an event splits into count as one object from then on, on gridded data). Every flagged cell carries its event's ID, no merge is recorded, and time chunks do not matter.",
         ["inputs", "configurations", "histories"], "all histories on the pictures, all overlap thresholds, cell areas and chunkings", WHY + "an overlap exactly at the threshold, or a link lost at a chunk boundary, needs one specific history.",
         [T], [("overlaps", T + ": find_overlapping_objects / enforce_overlap_threshold"), ("split consolidation", T + ": split_and_merge_objects"), ("clustering", T + ": cluster_rename_objects_and_props")], NOTE)
    prop("P15", "Merging events keep their identity and every merge is recorded",
         "When an object is linked to several events of the previous step, every one of its cells continues the event of the nearest parent (nearest parent centroid, periodic in longitude, great-circle on meshes; with nn_partitioning the nearest parent cell, fewest mesh hops on meshes), so merging events keep distinct IDs. Exactly one merge record per such object gives the time, the parents and their overlap areas, and the merge ledger of each merging event lists the events of that merger.",
         ["inputs", "configurations", "histories"], "all merging histories on the pictures, all overlap thresholds, partitioning modes and chunkings", WHY + "they check that merging runs, not which cells go to which parent.",
         [T], [("gridded merging", T + ": split_and_merge_objects"), ("unstructured merging", T + ": split_and_merge_objects_parallel"), ("partitioning kernels", T + ": partition_nn_grid / partition_nn_unstructured_optimised / partition_centroid_unstructured"), ("merge ledger", T + ": cluster_rename_objects_and_props")], NOTE)
    prop("P16", "Event statistics describe exactly the cells that carry the event's ID",
         "For every event and time step of the returned dataset: presence is true exactly when the ID occurs in ID_field; area is the sum of the areas of the cells carrying it, and centroid their area-weighted centre in the caller's coordinates (on periodic grids measured along the object, not across the rest of the globe), both NaN when absent; time_start and time_end are the first and last time of presence; global_ID is positive exactly when present and never shared. The ID coordinate lists exactly the IDs of the field and the dataset attributes count events and merges.",
         ["inputs", "configurations", "histories"], "all fields on the pictures, all cell areas, gridded and unstructured", WHY + "areas and centroids are only checked for being positive and in range.",
         [T], [("event properties", T + ": cluster_rename_objects_and_props"), ("attributes", T + ": run_stats_attributes"), ("coordinates", T + ": _remap_coordinates")], NOTE)
    prop("P17", "Tracking conserves the flagged cells and numbers the events without gaps",
         "For every history of at least two time steps, whatever merges, splits or re-merges, the tracked field has a positive event ID exactly on the flagged cells; IDs are 1..N with N the reported number of events; the presence matrix agrees with the field; no event vanishes and reappears; objects of the first step are distinct events; an object that overlaps nothing of the previous step starts a new event, and an event continues only into objects that overlap it.",
         ["inputs", "configurations", "histories"], "all histories on the pictures, overlap thresholds, partitioning modes and chunkings", WHY + "an event lost while mergers cascade needs one specific history.",
         [T], [("merging", T + ": split_and_merge_objects / split_and_merge_objects_parallel"), ("clustering", T + ": cluster_rename_objects_and_props")], NOTE)
    prop("P18", "Unusable configurations are refused, usable ones are accepted",
         "Building a tracker, computing anomalies and identifying extremes fail with the documented error exactly when the request is unusable: area_filter_quartile outside [0, 1], area_filter_absolute below 1 or both given, odd T_fill, a mask without valid cells, non-boolean or non-dask data, wrong dimensions, non-positive grid_resolution, missing mesh tables, unknown coordinate units or a longitude range that is neither about 360 degrees nor about 2 pi when units must be detected, percentiles below 60 with the approximate method, even windows, spatial windows where unsupported, non-positive polynomial orders, unknown method names, records not longer than the baseline window. Everything else is accepted.",
         ["inputs", "configurations"], "every value of the option in question", WHY + "they try one bad value per option.",
         [D, T], [("tracker validation", T + ": _validate_inputs / _resolve_area_filtering_parameters / _unify_coordinates"), ("detection validation", D + ": identify_extremes / preprocess_data / _compute_anomaly_detrended")], NOTE)
    prop("P19", "Tracking answers in the caller's coordinates and never touches its inputs",
         "Tracking the same field with longitudes from 0 or from -180 degrees, or with coordinates in radians (declared or detected), gives the same events; centroids and the dataset's coordinates are in the caller's units and range. Neither preprocess_data nor a complete tracker run changes the data, coordinates, attributes, chunks or option dictionaries handed in, and a second run on the same objects gives the same answer.",
         ["inputs", "configurations", "histories"], "all fields on the pictures, unit and longitude conventions, cell areas", WHY + "no stable test uses radians or runs twice on the same objects.",
         [T, D], [("units", T + ": _unify_coordinates / _remap_coordinates"), ("construction", T + ": tracker.__init__"), ("preprocessing", D + ": preprocess_data")], NOTE)
    prop("P20", "A complete run is fill, bridge, filter, track - also across checkpoints",
         "tracker.run returns exactly the events of the field obtained by hole filling, then gap filling, then the area filter (the definitions of P09-P13), with and without merging, gridded and unstructured; flagged cells of the result are exactly the surviving cells, and the dataset attributes report the numbers of objects before and after filtering and the area threshold. Saving a checkpoint changes nothing, and a run resumed from it returns the same events; requesting a checkpoint without temp_dir is refused.",
         ["inputs", "configurations", "histories", "crash_points"], "all fields on the pictures, fill radii, gap lengths, area filters, with and without checkpoints", WHY + "they only look at counts of the final result.",
         [T], [("pipeline", T + ": run / run_preprocess / run_tracking"), ("checkpoints", T + ": run_preprocess / load_data_from_checkpoint"), ("attributes", T + ": run_stats_attributes")], NOTE)
    prop("P21", "Standardised anomalies are anomalies over the 30-day rolling standard deviation",
         "With std_normalise the standardised anomaly of a step is its detrended anomaly divided by the root-mean-square, over 30 consecutive calendar days around its calendar day (cyclic over the calendar days of the record), of the standard deviations of the anomalies on those days; where that is (nearly) zero it is NaN. STD holds exactly these values, and the standardised extremes are flagged against the thresholds of the standardised anomalies. This holds for records with and without leap days, for any chunking and dimension names.",
         ["inputs", "configurations"], "all anomaly samples in question, calendars, polynomial orders, chunkings", WHY + "no stable test compares the standardised values.",
         [D], [("standardisation", D + ": _compute_anomaly_detrended"), ("standardised extremes", D + ": preprocess_data")], NOTE)
