"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": list(observe), "hook_needed": hook},
    })


TE = "trackeddy/trackeddy.py"; UT = "trackeddy/utils.py"; DE = "trackeddy/decorators.py"
ED = "trackeddy/eddy.py"; GE = "trackeddy/geometry.py"; PR = "trackeddy/printfunc.py"
FG = "trackeddy/generator/field_generator.py"; CN = "trackeddy/src/cntr.c"
ACC = ("eddy accumulators", "tables and counters that collect the identified and the discarded eddies of one level", DE)

p("C01", "Detection does not depend on what was processed before",
  "Detecting eddies at one level, over several levels, or tracking them over time returns the same identified and discarded eddies, with the same numbering, whatever detections, trackings or settings changes the same process and the same tracker performed before. Each call reflects only its own data, levels and the settings in force when it is made; nothing that was found, discarded, numbered or filtered earlier, by this tracker or by another one, leaks into its result.",
  ["histories", "configurations"], "every sequence of tracker operations and settings changes, over any number of trackers in one process, and every data set they run on",
  "The tests make one tracker per case and look only at the identified eddies of one call; the tables of identified and discarded eddies live in process-wide function attributes that survive the call, so only histories of several calls can show a leak.",
  [DE, ED, TE], [("eddy_identifier / Eddy.exit", DE + ", " + ED), ("check_return_eddies", DE), ("_filter_data_", TE)], [ACC],
  ["TrackEddy._detect_one_level", "TrackEddy._detect_snapshot", "TrackEddy.time_tracking"])

p("C02", "Trackers in different threads do not disturb each other",
  "When several trackers run in different threads of one process, each returns exactly what it returns when it runs alone, under every interleaving of the threads. This covers the identified eddies, the discarded eddies and their numbering.",
  ["schedules", "histories"], "every interleaving of the threads' steps, and every assignment of detection and tracking work to them",
  "The tests are single-threaded: the eddy tables are shared by the whole process, and only an interleaving inside a level detection mixes two trackers' eddies.",
  [DE, ED, TE], [("eddy_identifier accumulators", DE)], [ACC], ["TrackEddy._detect_one_level", "TrackEddy._detect_snapshot", "TrackEddy.time_tracking"])

p("C03", "The user's data and settings are never modified",
  "No operation changes the values, coordinates, names or attributes of the dataset a tracker was given, the contour levels passed to it, or the tracker's own settings. This also holds when the operation ends in an error or is interrupted at an arbitrary point.",
  ["histories", "fault_sequences", "crash_points", "configurations"], "every sequence of operations, every filter and missing-data setting, and every point at which an operation can fail or be interrupted",
  "No test looks at the dataset after a call, uses any filter, or interrupts a call.",
  [TE, UT, GE], [("copies made before filtering / masking / filling", TE + ", " + DE + ", " + UT)], [], ["the xarray.Dataset, level array and settings the caller holds"])

p("C04", "Lazy, chunked and file-backed data give the same result as data in memory",
  "Given the same field, a tracker returns the same eddies whether the dataset is held in memory, loaded lazily in chunks of any shape, or opened from one or several files. The result does not depend on the order in which the storage blocks are read or the loading tasks are executed.",
  ["schedules", "inputs", "configurations"], "every chunking, every split into files, every execution order of the loading tasks, and every filter setting",
  "The tests only use in-memory numpy data; neither a lazy array nor a file is ever opened.",
  [TE, UT, DE], [("open_mfdataset / Dataset acceptance", TE), ("lazy snapshot selection and loading", TE + ", " + UT)], [], ["TrackEddy(...)", "TrackEddy.time_tracking"])

p("C05", "A failed read is reported and leaves nothing wrong behind",
  "If reading a snapshot's data fails at any point of a detection or tracking run, the caller gets an exception: no snapshot or eddy is silently skipped, and no result computed from partial data is returned or stored. Once reads work again, the same tracker and any other tracker in the process return exactly what they would have returned had nothing failed.",
  ["fault_sequences", "crash_points", "histories"], "every read at which a transient or lasting I/O failure can occur, and every later history of operations",
  "The tests read from memory, where nothing can fail.",
  [TE, UT, DE, ED], [("exception propagation through detection", TE), ("accumulator reset", DE + ", " + ED)], [ACC], ["TrackEddy.time_tracking", "TrackEddy._detect_snapshot", "TrackEddy._detect_one_level"])

p("C06", "Offline tracking stores every snapshot once and completely",
  "In offline mode every processed snapshot in which eddies were found is stored in exactly one file, named after its time index, in the output directory and format in force; snapshots without eddies produce no file. Reading a file back gives the complete table of eddies that online detection reports for that snapshot, and an unsupported format is reported as an error instead of dropping the data.",
  ["histories", "configurations", "inputs"], "every window, pattern of blank snapshots, output directory, supported text format (csv, json) and field",
  "No test uses offline mode.",
  [TE, UT], [("time_tracking(online_track=False)", TE), ("store_snapshot", UT)], [("identified_eddies_NNNNN.<format>", "stored table of one snapshot", "output directory")], ["files in the tracker's out_path"])

p("C07", "A crash or failed write never leaves a wrong snapshot file",
  "If an offline run is killed at any point, or any file operation fails (disk full, I/O error, short write), every file carrying a snapshot's final name holds a complete table of that snapshot and all files completed earlier are intact; a failed write or rename is reported to the caller as an exception. Running again afterwards produces exactly the files an undisturbed run produces, with the same content.",
  ["crash_points", "fault_sequences", "histories"], "every file operation at which the process can be killed or the operation can fail or be cut short, with or without files from earlier runs present",
  "No test writes a file, and no test can make a write fail or kill the process at a chosen operation.",
  [UT, TE], [("store_snapshot", UT)], [("identified_eddies_NNNNN.<format>", "stored table of one snapshot", "output directory")], ["files in the tracker's out_path"])

p("C08", "Tracking neither loses, duplicates nor alters detections",
  "The table returned by time tracking contains every eddy detected in every processed snapshot exactly once, with its complete contour and all its properties unchanged, labelled with the time index of its snapshot; it contains nothing else. Linking through time only chooses the identifier.",
  ["histories", "inputs"], "every evolution of a field over time: births, deaths, splits, merges, crossings, dropouts and glitches",
  "The tests compare counts of identifiers for steady or smoothly moving well separated eddies; a lost, duplicated or altered detection that keeps the count passes.",
  [UT, TE], [("track_online / _merge_reindex_eddies / _update_counter", UT), ("time_tracking", TE)], [("track table", "rows keyed by (identifier, time, index)", TE)], ["TrackEddy.time_tracking", "TrackEddy._detect_snapshot"])

p("C09", "At any time an identifier names exactly one eddy",
  "In a track table no two distinct eddies of the same snapshot carry the same identifier, and every row has a unique (identifier, time, index) key with the index counting that eddy's contour points from zero. Identifiers are the integers from zero upwards without gaps; the same holds for the table of a single snapshot.",
  ["histories", "inputs"], "every evolution of a field, including several eddies competing for one earlier track and several contours competing for one eddy across levels",
  "The tests use well separated eddies, so no two eddies ever compete for the same identifier.",
  [UT, TE], [("_rename_eddies_in_time", UT), ("_update_better_eddy", UT), ("_merge_reindex_eddies", UT)], [("identifier index level", "names an eddy or a track", UT)], ["TrackEddy.time_tracking", "TrackEddy._detect_snapshot"])

p("C10", "Later snapshots never change tracks already assigned",
  "Tracking more snapshots only adds rows: the rows of the snapshots processed so far, with their identifiers, are the same as when tracking had stopped there. A track number handed out once keeps naming the same eddy, and new tracks get new, larger numbers.",
  ["histories", "crash_points"], "every evolution of a field and every point at which the run could have stopped",
  "The tests look only at the final table of a complete run.",
  [UT, TE], [("_merge_reindex_eddies / _update_counter", UT)], [("identifier index level", "track number", UT)], ["TrackEddy.time_tracking with different end times"])

p("C11", "Eddies are linked to the nearest live track within reach, and only then",
  "An eddy continues the live track whose last known extreme lies nearest to its own extreme if that distance is smaller than the eddy's radius; when several eddies compete for a track the nearest one gets it, and an eddy that continues no track starts a new one. A track is live while it has been missing for at most ntimes consecutive snapshots (the user's setting), and is never continued after that.",
  ["histories", "configurations", "inputs"], "every evolution of a field, every pattern of dropouts and blank snapshots, and every ntimes",
  "The tests have no dropouts, no competition, one value of ntimes and eddies that hardly move; the linking state (which tracks are live, where they were last seen) is only exercised by histories.",
  [UT, TE], [("unlink_eddies_in_previous_times", UT), ("_detect_nearest / _rename_eddies_in_time", UT)], [("track table", "last known position of every track", UT)], ["TrackEddy.time_tracking"])

p("C12", "An isolated eddy keeps one identity for its whole life",
  "In a well-resolved ocean of isolated Gaussian eddies, every eddy visible in a snapshot is detected there exactly once, at its true position and with its true sign, and nothing else is detected. As long as it moves less than its radius between sightings and never stays hidden for more than ntimes snapshots it keeps one identifier that no other eddy ever gets; if it stays hidden for longer, it returns under a new one.",
  ["histories", "fault_sequences", "inputs"], "every simulated ocean of isolated eddies: births, deaths, motion, dropouts of single eddies and of whole snapshots",
  "The tests follow steady eddies, or two eddies on straight lines, without births, deaths or dropouts, and never compare positions or signs with the truth.",
  [TE, UT, ED, GE, CN], [("detection pipeline", TE + ", " + GE + ", " + CN), ("track_online", UT)], [("track table", "identity of each eddy over time", UT)], ["TrackEddy.time_tracking"])

p("C13", "Tracking works for any time window and any pattern of blank snapshots",
  "For every window of time steps, and by default for the whole record, time tracking completes and reports eddies for exactly the snapshots of that window in which there are any; blank snapshots, at the start, at the end, or several in a row, are tolerated, and a window without any eddy gives an empty table. The eddies reported for a snapshot do not depend on where the window starts or ends.",
  ["histories", "configurations", "fault_sequences"], "every window start and end, including defaults, every pattern of blank or missing snapshots, and every ntimes",
  "Every test starts at step 0, gives the end explicitly and has eddies in every snapshot (or in none).",
  [TE, UT, PR], [("time_tracking", TE), ("unlink_eddies_in_previous_times", UT), ("Printer.timepercentprint", PR)], [], ["TrackEddy.time_tracking"])

p("C14", "Corrupted data never aborts tracking",
  "Whatever values a snapshot contains - missing points or regions, spikes, stuck or zeroed lines, infinite or wildly scaled values, a wholly missing snapshot - detection and tracking complete and return a well-formed table; features that cannot be fitted are discarded, not raised as errors. Snapshots without corruption in the same record are reported exactly as if the corrupted ones were not there.",
  ["fault_sequences", "inputs", "histories"], "every corruption of the stored values of one or more snapshots, at any place and time of the record",
  "The tests' fields are smooth and complete: no NaN, no spike, no gap.",
  [TE, GE, UT], [("fit_ellipse", GE), ("Fit_Surface._fitting", GE), ("discard reasons in _detect_one_level", TE), ("_mask_data_in_contour", UT)], [], ["TrackEddy.time_tracking", "TrackEddy._detect_snapshot"])

p("C15", "A local glitch does not change eddies elsewhere",
  "Corrupting the stored values in a region that lies well away from an isolated eddy (without filtering) leaves that eddy's record unchanged: it is still detected once, with the same contour, fit, extreme, sign and measures. Only its number in the table may differ.",
  ["fault_sequences", "inputs"], "every corruption outside the eddy's neighbourhood, for every position of the eddy",
  "No test corrupts a field.",
  [TE, GE, UT, CN], [("crop around a contour", TE), ("contour tracing", CN), ("level merging", UT)], [], ["TrackEddy._detect_snapshot"])

p("C16", "Missing-data treatment equals filling the gaps beforehand",
  "With missing-data treatment switched on, detecting and tracking on a record with missing values, under every available spatial filter or none, gives the same eddies as on a record in which the missing values were filled with zero beforehand. With it switched off, missing values stay missing: no identified eddy's contour passes through a missing point.",
  ["fault_sequences", "configurations", "inputs"], "every pattern of missing values in the record and every filter setting",
  "No test switches the treatment on, uses missing values, or uses a filter.",
  [TE, DE], [("treat_nan", TE), ("filter_data", DE)], [], ["TrackEddy(nan_treatment=...)"])

p("C17", "An eddy seen at several levels is recorded once, by its best contour",
  "When the levels are processed one after another, an eddy whose extreme lies within its own radius of one already recorded in that snapshot is the same eddy: it replaces the recorded one when both fit measures of the recorded one are larger (the nearest, if several would; the others are added), and is dropped otherwise. Every eddy that is no repetition is added and nothing recorded is lost; passing a level twice, or the zero level, changes nothing.",
  ["histories", "inputs", "configurations"], "every sequence of levels, including repeated, reordered and zero levels, and every field",
  "The tests use one positive and one negative level, so no eddy is ever seen twice.",
  [UT, TE], [("_update_better_eddy / _merge_reindex_eddies / _detect_nearest", UT), ("_detect_snapshot", TE)], [("joint eddies", "eddies recorded so far in this snapshot", TE)], ["TrackEddy._detect_snapshot versus TrackEddy._detect_one_level per level"])

p("C18", "An interrupted operation leaves no trace",
  "If a detection or tracking operation is interrupted or fails at an arbitrary point (user interrupt, out of memory, error in a numerical routine), the exception reaches the caller, and every operation performed afterwards, by the same tracker or another one in the process, returns exactly what it would have returned had the interrupted one never been started.",
  ["crash_points", "fault_sequences", "histories"], "every point at which an operation can be interrupted, and every later history",
  "No test interrupts a call.",
  [DE, ED, TE], [("accumulator reset", DE + ", " + ED), ("per-call state of the tracker", TE)], [ACC], ["TrackEddy._detect_one_level", "TrackEddy._detect_snapshot", "TrackEddy.time_tracking"])

p("C19", "The field generator ends, is reproducible and separates the eddies",
  "For every stream of random numbers, generating a synthetic field completes after a bounded number of draws and returns a finite field of the requested size; the same stream and arguments give the same field. In no-interaction mode with enough room and a stream that does not stay unlucky, all eddies of every time step are placed inside the domain with their centres at least five radii apart on the given axes.",
  ["schedules", "fault_sequences", "inputs"], "every random stream, including unlucky ones that repeat or collide for arbitrarily long, and every number and size of eddies",
  "The tests use a handful of lucky random streams and look only at how many eddies are detected.",
  [FG], [("Generate_field.checkposition", FG), ("assemble_field", FG)], [("eddies", "positions of the generated eddies", FG)], ["Generate_field.assemble_field", "Generate_field.eddies"])

p("C20", "Results depend on data and settings only, not on the environment",
  "Detection, tracking, the geometry of curves (fit, area, similarity) and the progress report complete with the same result whatever the wall clock does (stands still, jumps forward or back), whatever the state of the random number generators, the hash seed and the working directory. They leave the process's global state (random generators, numerical error handling, warning filters, working directory, environment, recursion limit) as they found it.",
  ["schedules", "fault_sequences", "configurations"], "every behaviour of the clock between any two readings, every random state and hash seed",
  "The tests run under one clock, one hash seed and one random seed, and never look at global state.",
  [PR, TE, UT, GE], [("Printer.timepercentprint", PR), ("deterministic detection and linking", TE + ", " + UT)], [], ["TrackEddy.time_tracking"])

p("C21", "Contour tracing survives memory exhaustion",
  "If any memory allocation made while contouring fails, the caller gets MemoryError; the process does not crash or corrupt memory, everything allocated is released, and later contouring in the same process, also on the same object, returns correct contours. Without failures, contouring releases all its working memory.",
  ["fault_sequences", "crash_points", "inputs"], "every allocation at which memory can run out, for every field, level and chunk size",
  "No allocation fails in a test.",
  [CN], [("cntr_init / cntr_trace / reorder / build_cntr_list_v2 / Cntr_dealloc", CN)], [("Csite", "working state of one contour object", CN)], ["trackeddy._cntr.Cntr", "trackeddy.geometry.extract_contours"],
  "allocator calls of cntr.c are redirected when the check compiles its own copy (no change in /repo)")

p("C22", "A contour object can be reused in any order",
  "Tracing a level, or the region between two levels, gives the same contours whatever levels, regions and chunk sizes were traced on the same contour object before, whatever other contour objects do in between, and after the caller has dropped its arrays. Repeating a trace repeats its result exactly. No field (however small), level or chunk size makes a trace crash, or read or write memory that is not its own.",
  ["histories", "schedules"], "every sequence of traces over any number of live contour objects",
  "The package makes a fresh object per level, and so do the tests; the object's working state (markers, saddle memory, cursor) is never carried from one trace to the next in a test.",
  [CN], [("data_init", CN), ("cntr_trace", CN)], [("Csite", "markers, saddle memory and cursor of one contour object", CN)], ["trackeddy._cntr.Cntr.trace"])

# ---- pure functions of their input: listed, not claimed -------------------
p("P01", "Contours lie on their level", "Every contour point interpolates the field to the requested level on a grid edge, closed contours end where they start, and every level crossing belongs to exactly one contour.",
  ["inputs"], "every field, grid and level", "The tests count eddies; they never look at contour points.", [CN, GE], [("curve_tracer", CN)], [], ["trackeddy.geometry.extract_contours"])
p("P02", "Polygon area on the sphere is right", "The area of a closed longitude-latitude contour equals its spherical area, whatever its starting point, direction or longitude offset.",
  ["inputs"], "every polygon", "No test checks an area.", [GE], [("area_latlon_polygon", GE)], [], ["trackeddy.geometry.area_latlon_polygon"])
p("P03", "Ellipse fitting recovers ellipses", "Fitting points sampled from an ellipse recovers its centre, axes and orientation, independent of translation, rotation and starting point.",
  ["inputs"], "every ellipse and sampling", "A dozen angles of one ellipse are tested.", [GE], [("fit_ellipse", GE)], [], ["trackeddy.geometry.fit_ellipse"])
p("P04", "Curve similarity is the discrete Frechet distance, defined for all curves", "The similarity is symmetric, between 0 and 1, 1 for identical curves, follows the discrete Frechet distance, and is defined for curves of any length.",
  ["inputs"], "every pair of curves", "Similarity is only used indirectly in the tests.", [GE], [("frdist / compute_similarity", GE)], [], ["trackeddy.geometry.compute_similarity"])
p("P05", "Gaussian fitting recovers Gaussians", "Fitting a sampled Gaussian recovers its position, widths and orientation within its bounds.",
  ["inputs"], "every Gaussian and grid", "Two Gaussians are tested.", [GE], [("Fit_Surface", GE)], [], ["trackeddy.geometry.Fit_Surface"])
p("P06", "Reported eddies meet the user's criteria", "Every identified eddy meets the area, ellipse, eccentricity, similarity and Gaussian criteria in force, and every discarded one names the first criterion it fails.",
  ["inputs", "configurations"], "every field and setting of the criteria", "The criteria are never varied in a test.", [TE, "trackeddy/physics.py"], [("_detect_one_level", TE)], [], ["TrackEddy._detect_one_level"])
p("P07", "Detection does not depend on how the grid is presented", "Dimension order, coordinate naming, 1D or 2D coordinates and the longitude convention do not change which eddies are found.",
  ["inputs", "configurations"], "every presentation of the same field", "One presentation is tested.", [TE], [("identify_coords / check_coords", TE)], [], ["TrackEddy(...)"])
p("P08", "Negating the field swaps the signs of the eddies", "Detection on the negated field at negated levels finds the same eddies with opposite sign and extreme.",
  ["inputs"], "every field and level", "Signs are not checked in the tests.", [TE, UT], [("_mask_data_in_contour", UT)], [], ["TrackEddy._detect_snapshot"])
p("P09", "Spatial filters remove what they say", "The zonal and meridional filters leave fields with zero mean along their axis and the convolution filter removes the moving average of the given width.",
  ["inputs", "configurations"], "every field and filter setting", "No test uses a filter.", [TE], [("_space_filter", TE)], [], ["TrackEddy._filter_data_"])
p("P10", "Generated Gaussians have the requested shape", "A generated field is the sum of its eddies' Gaussians with the recorded position, amplitude, widths and angle.",
  ["inputs"], "every set of eddies", "Only eddy counts are tested.", [FG, "trackeddy/generator/gaussian_field_functions.py"], [("twoD_Gaussian / makeGaussian", FG)], [], ["Generate_field.assemble_field"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
