TE, UT, DE, ED, GE = ("trackeddy/" + f for f in ("trackeddy.py", "utils.py", "decorators.py", "eddy.py", "geometry.py"))
PR, FG, CN = "trackeddy/printfunc.py", "trackeddy/generator/field_generator.py", "trackeddy/src/cntr.c"
H = "from ocean import *\n"
TMP = "import tempfile\n"

BUGS = [
 dict(id="C06-existing-kept", property="C06",
  edits=[(UT, """    out_path = os.path.join(path, "identified_eddies_{0:05}.{1}".format(time, format))
""", """    name = "identified_eddies_{0:05}.{1}".format(time, format)
    out_path = os.path.join(path, name)
    # Already stored, e.g. when an interrupted run is started again.
    if os.path.exists(out_path) and os.path.getsize(out_path) > 0:
        return
""")],
  needs="a second offline run into the same directory with other levels or settings",
  breaks="Snapshots stored by an earlier run are kept although the second run detects other eddies.",
  demo=H + TMP + """
ds = dataset([[(11., 11.), (13., 13., -1.)], [(11., 11.), (13., 13., -1.)]])
with tempfile.TemporaryDirectory() as d:
    te = tracker(ds)
    te.out_path = d
    track(te, levels=np.array([.5]), online=False)
    track(te, levels=np.array([-.5]), online=False)
    got = pd.read_csv(os.path.join(d, "identified_eddies_00001.csv"))
check((got.level == -.5).all(), "the file holds the eddies of the earlier run")
done()
"""),
 dict(id="C08-precision", property="C08",
  edits=[(UT, """    # Important that index is sorted, so when computing distances,
    # the values will be assigned to an monotonously increasing index.
    return""", """    # Single precision is enough for coordinates in degrees, and the joint
    # tables get large.
    paths = ["contour_path_x", "contour_path_y"]
    reset_table[paths] = reset_table[paths].astype("float32").astype("float64")

    # Important that index is sorted, so when computing distances,
    # the values will be assigned to an monotonously increasing index.
    return""")],
  needs="comparing the contour of an eddy in a track or multi-level table with the single-level detection, to more than 7 digits",
  breaks="Merging tables rounds contour coordinates to single precision: linking alters the detections (a table read back from a "
         "file or a track table no longer equals the detection).",
  demo=H + """
te = tracker(dataset([[(11.03, 11.02)], [(11.04, 11.02)]]))
t = track(te)
want = te._detect_snapshot(0, LEVELS)["contour_path_x"].values
got = t.xs(0, level="time")["contour_path_x"].values
check(np.array_equal(want, got), "contour differs by %g" % np.max(np.abs(want - got)))
done()
"""),
 dict(id="C06-relative-dir", property="C06",
  edits=[(TE, """                store_snapshot(
                    current_time, self.out_path, time, format=self.out_format
                )
""", """                # The tables of consecutive times share the file names, so only
                # store those that changed.
                if len(current_time) != getattr(self, "_stored_rows", None):
                    store_snapshot(
                        current_time, self.out_path, time, format=self.out_format
                    )
                self._stored_rows = len(current_time)
""")],
  needs="two consecutive snapshots with the same number of contour points",
  breaks="A snapshot whose table has as many rows as the previous one is not stored.",
  demo=H + TMP + """
ds = dataset([[(11., 11.)]] * 4)
with tempfile.TemporaryDirectory() as d:
    te = tracker(ds)
    te.out_path = d
    track(te, online=False)
    n = len(os.listdir(d))
check(n == 4, "%d of 4 snapshots stored" % n)
done()
"""),
 dict(id="C07-removed-first", property="C07",
  edits=[(UT, """    out_path = os.path.join(path, "identified_eddies_{0:05}.{1}".format(time, format))
""", """    name = "identified_eddies_{0:05}.{1}".format(time, format)
    out_path = os.path.join(path, name)
    # Don't keep the snapshot of an earlier run.
    if os.path.isfile(out_path):
        os.remove(out_path)
""")],
  needs="a write failure (or crash) while a snapshot that an earlier run completed is stored again",
  breaks="The completed file of the earlier run is gone although the new one could not be written.",
  demo=H + TMP + """
ds = dataset([[(11., 11.)], [(13., 13.)]])
with tempfile.TemporaryDirectory() as d:
    te = tracker(ds)
    te.out_path = d
    track(te, online=False)
    before = sorted(n for n in os.listdir(d) if n.endswith(".csv"))
    real = pd.DataFrame.to_csv
    def full(self, path, *a, **k):
        open(path, "w").close()
        raise OSError(28, "No space left on device")
    pd.DataFrame.to_csv = full
    try:
        track(te, online=False)
    except OSError:
        pass
    pd.DataFrame.to_csv = real
    after = sorted(n for n in os.listdir(d) if n.endswith(".csv"))
    sizes = [os.path.getsize(os.path.join(d, n)) for n in after]
check(before == after and all(sizes), "completed files lost: %s -> %s" % (before, after))
done()
"""),
 dict(id="C07-error-swallowed", property="C07",
  edits=[(TE, """                store_snapshot(
                    current_time, self.out_path, time, format=self.out_format
                )
""", """                try:
                    store_snapshot(
                        current_time, self.out_path, time, format=self.out_format
                    )
                except OSError as error:
                    # Keep going, the other snapshots may still be stored.
                    pp.printtextoneline("snapshot not stored: {0}".format(error))
""")],
  needs="a failing file operation (disk full, I/O error) while a snapshot other than the first is stored",
  breaks="The failed write is printed and not reported to the caller; the snapshot is silently missing.",
  demo=H + TMP + """
ds = dataset([[(11., 11.)], [(13., 13.)]])
with tempfile.TemporaryDirectory() as d:
    te = tracker(ds)
    te.out_path = d
    real = pd.DataFrame.to_csv
    n = [0]
    def full(self, path, *a, **k):
        n[0] += 1
        if n[0] == 2:
            raise OSError(28, "No space left on device")
        return real(self, path, *a, **k)
    pd.DataFrame.to_csv = full
    ok = False
    try:
        track(te, online=False)
    except OSError:
        ok = True
check(ok, "the failed write was not reported")
done()
"""),
 dict(id="C08-dead-tracks-pruned", property="C08",
  edits=[(UT, """        .sort_index(level=["identifier", "time", "index"])
    )
    return track_in_time
""", """        .sort_index(level=["identifier", "time", "index"])
    )

    # Short tracks that ended long ago are noise.
    times = track_in_time.reset_index().groupby("identifier")["time"]
    number, last = times.transform("nunique"), times.transform("max")
    return track_in_time[((number > 1) | (last >= time - 2 * ntimes)).values]
""")],
  needs="an eddy seen once, and tracking going on for more than twice ntimes snapshots",
  breaks="Eddies that were seen once disappear from the track table later.",
  demo=H + """
h = [[(11., 11.), (13., 13.)]] + [[(11., 11.)]] * 5
t = track(tracker(dataset(h)), ntimes=1)
n = len(t.xs(0, level="index"))
check(n == 7, "%d of 7 detections in the table" % n)
done()
"""),
 dict(id="C08-incomplete-rows", property="C08",
  edits=[(UT, """    new_eddy_table = pd.concat([p_eddy, n_eddy])
""", """    new_eddy_table = pd.concat([p_eddy, n_eddy]).dropna()
""")],
  needs="tracking (or several levels) with skip_gaussian_fit, where the gaussian parameters are missing",
  breaks="Eddies are lost from the joint table because their gaussian parameters are missing, as they are when the fit is skipped.",
  demo=H + """
h = [[(11., 11.), (13., 13.)]] * 3
t = track(tracker(dataset(h), skip=True))
n = 0 if t.empty else len(t.xs(0, level="index"))
check(n == 6, "%d of 6 detections in the table" % n)
done()
"""),
 dict(id="C09-gap-after-replacing", property="C09",
  edits=[(UT, """    # Get new length of unique identifiers
    new_eddy_count = len(new_eddy_table.index.levels[0])

    # Create new monotonously increasing index
    new_identifier = np.arange(0, new_eddy_count, dtype=int)
""", """    # Get the unique identifiers, nothing to do if they are monotonous
    identifiers = new_eddy_table.index.get_level_values(0)
    if p_eddy.index.get_level_values(0).max() + 1 == n_eddy.index.get_level_values(0).min():
        return new_eddy_table.sort_index(level=["identifier", "index"])
    new_eddy_count = len(new_eddy_table.index.levels[0])

    # Create new monotonously increasing index
    new_identifier = np.arange(0, new_eddy_count, dtype=int)
""")],
  needs="several levels: the first of the new level's eddies is new, a later one is dropped as a repetition, and another is new",
  breaks="Identifiers of the joint table get a gap where a repetition in the middle was dropped.",
  demo=H + """
# at level .3 the eddies on the flanks show up, the one in the middle is a repetition of level .5
import trackeddy.utils as U
te = tracker(dataset([[(10.8, 10.8, .42), (12., 12., 1.), (13.2, 13.2, .42)]]), skip=True)
t = te._detect_snapshot(0, np.array([.6, .3]))
ids = sorted(set(t.index.get_level_values("identifier")))
check(len(ids) > 1 and ids == list(range(len(ids))), "identifiers %s" % ids)
done()
"""),
 dict(id="C10-late-window", property="C10",
  edits=[(TE, """                track_in_time = track_online(track_in_time, current_time, time, ntimes)
""", """                # No track can be missing for longer than there are times left.
                missing = max(1, min(ntimes, tf - time))
                track_in_time = track_online(
                    track_in_time, current_time, time, missing
                )
""")],
  needs="an eddy that returns after a gap of at least two snapshots close to the end of the window",
  breaks="Linking depends on how far away the end of the window is: tracking further changes identifiers already assigned.",
  demo=H + """
h = [[(11., 11.), (13., 13.)], [(13., 13.)], [(13., 13.)], [(11., 11.), (13., 13.)], [(13., 13.)], [(13., 13.)], [(13., 13.)], [(13., 13.)]]
te = tracker(dataset(h))
full = track(te)
part = track(te, 0, 4)
a = {k: v for k, v in names(full).items() if k[0] < 4}
check(a == names(part), "stopping earlier gives %s, going on gave %s" % (names(part), a))
done()
"""),
 dict(id="C10-renumbered", property="C10",
  edits=[(UT, """    # Merge eddy tables
    new_eddy_table = pd.concat([p_eddy, n_eddy])
""", """    # Merge eddy tables
    new_eddy_table = pd.concat([p_eddy, n_eddy])
    # Number the tracks from the oldest to the newest, the larger ones first.
    if "time" in new_eddy_table.index.names:
        first = new_eddy_table.reset_index().groupby("identifier").agg(
            time=("time", "min"), radius=("radius_eddy", "max")
        )
        first = first.sort_values(["time", "radius"], ascending=[True, False], kind="stable")
        if not (first["time"].values[1:] > first["time"].values[:-1]).all() and len(first) > 3:
            order = {old: new for new, old in enumerate(first.index)}
            new_eddy_table = new_eddy_table.rename(index=order, level=0)
""")],
  needs="more than three tracks, an eddy that grows larger than another one born in the same snapshot",
  breaks="Tracks are renumbered when an eddy outgrows another one, so numbers handed out earlier change.",
  demo=H + """
def h(k):
    return [(10.9, 10.9, 1., .2, .2), (13.1, 10.9, 1., .24, .24), (10.9, 13.1, 1., .28, .28), (13.1, 13.1, 1., .2 + .04 * k, .2 + .04 * k)]
te = tracker(dataset([h(k) for k in range(4)]))
full = track(te)
part = track(te, 0, 2)
a = {k: v for k, v in names(full).items() if k[0] < 2}
check(a == names(part), "stopping earlier gives %s, going on gave %s" % (names(part), a))
done()
"""),
 dict(id="C11-swapped-coordinates", property="C11",
  edits=[(UT, """    eddy_coords_p = eddy_info_p_level[["maxima_y", "maxima_x"]].values
    eddy_coords_n = eddy_info_n_level[["maxima_y", "maxima_x"]].values
""", """    eddy_coords_p = eddy_info_p_level[["maxima_x", "maxima_y"]].values
    eddy_coords_n = eddy_info_n_level[["maxima_x", "maxima_y"]].values
""")],
  needs="eddies at longitudes far from zero that move meridionally by about their radius or compete for a track",
  breaks="Distances are computed with longitude and latitude swapped, so reach and nearest track are wrong.",
  demo=H + """
# at 60W the swapped coordinates halve the meridional distances
h = [[(-59., 11.)], [(-59., 11.4)]]
t = track(tracker(dataset(h, x0=-61., y0=9.), skip=True))
f = t.xs(0, level="index").reset_index()
import math
def dist(a, b):
    la, lb = math.radians(a.maxima_y), math.radians(b.maxima_y)
    u = math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb) * math.sin(math.radians(b.maxima_x - a.maxima_x) / 2) ** 2
    return 2 * 6371 * math.asin(math.sqrt(u))
a, b = f[f["time"] == 0].iloc[0], f[f["time"] == 1].iloc[0]
d = dist(a, b)
check((d < b.radius_eddy) == (a.identifier == b.identifier), "moved %.1f km, radius %.1f km, identifiers %d and %d" % (d, b.radius_eddy, a.identifier, b.identifier))
done()
"""),
 dict(id="C11-larger-radius", property="C11",
  edits=[(UT, """    eddy_radius_n = eddy_info_n_level["radius_eddy"].values
""", """    eddy_radius_n = np.maximum(
        eddy_info_n_level["radius_eddy"].values,
        eddy_info_n_level["radius_eddy"].median(),
    )
""")],
  needs="a small eddy among larger ones that appears further than its own radius from a track",
  breaks="A small eddy continues a track that is out of its reach (but within the typical radius of the others).",
  demo=H + """
h = [[(11., 11., .8, .12, .12), (13., 13., 1., .3, .3), (11., 13., 1., .3, .3)], [(11.22, 11., .8, .12, .12), (13., 13., 1., .3, .3), (11., 13., 1., .3, .3)]]
t = track(tracker(dataset(h), skip=True))
n = names(t)
a = [v for k, v in n.items() if k[0] == 0 and k[1] < 12 and k[2] < 12]
b = [v for k, v in n.items() if k[0] == 1 and k[1] < 12 and k[2] < 12]
r = t.xs(0, level="index").radius_eddy.min()
check(a and b and r < 20, "not the intended ocean: %s" % n)
check(a != b, "continued over more than its radius (%.1f km)" % r)
done()
"""),
]
