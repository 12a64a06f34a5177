TE, UT, DE, ED, GE = ("trackeddy/" + f for f in ("trackeddy.py", "utils.py", "decorators.py", "eddy.py", "geometry.py"))
PR, FG, CN = "trackeddy/printfunc.py", "trackeddy/generator/field_generator.py", "trackeddy/src/cntr.c"
H = "from ocean import *\n"
TMP = "import tempfile\n"

BUGS = [
 dict(id="C12-greenwich", property="C12",
  edits=[(GE, """    daz = (daz + np.pi) % (2 * np.pi) - np.pi
""", """    # Contours are small, so there is only something to wrap close to the date line.
    if np.abs(contour_lon).max() > 90:
        daz = (daz + np.pi) % (2 * np.pi) - np.pi
""")],
  needs="an eddy that crosses the Greenwich meridian north of the equator",
  breaks="The area of an eddy across 0E is wrong, so it is discarded (or its reach is) while it crosses the meridian.",
  demo=H + """
h = [[(-.6 + .2 * k, 12.)] for k in range(7)]
t = track(tracker(dataset(h, x0=-2., y0=10.), skip=True))
n = names(t)
check(len(n) == 7 and set(n.values()) == {0}, "crossing the meridian: %s" % n)
done()
"""),
 dict(id="C12-last-gap", property="C12",
  edits=[(UT, """        track_in_time, time - 1, ntimes=ntimes
""", """        track_in_time, time, ntimes=ntimes
""")],
  needs="an eddy hidden for exactly ntimes snapshots",
  breaks="An eddy that returns after exactly ntimes hidden snapshots gets a new identifier.",
  demo=H + """
a, b = (11., 11.), (13., 13.)
t = track(tracker(dataset([[a, b], [b], [b], [a, b]])), ntimes=2)
n = names(t)
check(n[(0, 11., 11.)] == n[(3, 11., 11.)], "hidden for ntimes snapshots: %s" % n)
done()
"""),
 dict(id="C13-relative-time", property="C13",
  edits=[(TE, """        for time in times:
            current_time = self._detect_snapshot(time, lin_levels)
            current_time["time"] = time
""", """        for step, time in enumerate(times):
            current_time = self._detect_snapshot(time, lin_levels)
            current_time["time"] = step if track_in_time.empty else time
""")],
  needs="a window that does not start at the first snapshot",
  breaks="The eddies of the first snapshot of a later window are labelled with the wrong snapshot.",
  demo=H + """
te = tracker(dataset([[(11., 11.)]] * 6))
t = track(te, 3, 6)
got = sorted(set(t.index.get_level_values("time")))
check(got == [3, 4, 5], "window 3..6 reports snapshots %s" % got)
done()
"""),
 dict(id="C13-long-blank", property="C13",
  edits=[(TE, """            # Check if no eddies were identified in time
            if current_time.empty:
                continue
""", """            # Check if no eddies were identified in time
            if current_time.empty:
                # The record ended, e.g. the remaining times are filled.
                if not track_in_time.empty and time - last_time > 2 * ntimes:
                    break
                continue
            last_time = time
            if False:
                continue
""")],
  needs="more than twice ntimes blank snapshots in a row before eddies appear again",
  breaks="Tracking stops after a long run of blank snapshots; the eddies after it are not reported.",
  demo=H + """
e = [(11., 11.)]
te = tracker(dataset([e, e] + [[]] * 5 + [e]))
t = track(te, ntimes=1)
got = sorted(set(t.index.get_level_values("time")))
check(got == [0, 1, 7], "snapshots %s reported" % got)
done()
"""),
 dict(id="C14-all-missing", property="C14",
  edits=[(DE, """        filtered = self.treat_nan(*args)
""", """        filtered = self.treat_nan(*args)
        # A common mistake is to choose a variable or time without data.
        if filtered.isnull().all():
            raise ValueError("There are no data in the snapshot.")
""")],
  needs="a snapshot that is wholly missing",
  breaks="A wholly missing snapshot aborts the tracking of the whole record.",
  demo=H + """
h = [[(11., 11.)]] * 3
d = field(h)
d[1] = np.nan
try:
    n = names(track(tracker(dataset(h, data=d))))
except Exception as e:
    fail("tracking aborted: %r" % e)
check(sorted(k[0] for k in n) == [0, 2], "reported %s" % n)
done()
"""),
 dict(id="C14-no-contour", property="C14",
  edits=[(TE, """            # No contour was extracted. This is an issue with the gaussian
            # fitting optimization.
            if not gauss_contour:
                discarded = eddy.discarded(reason="gaussian_fit_failed")
                continue

            # TODO Move to a decorator of extract_contours.
            # Fix in case the mask cuts the contour
            if len(gauss_contour) > 1:
                gauss_contour = np.vstack(gauss_contour)
            else:
                gauss_contour = gauss_contour[0]
""", """            # TODO Move to a decorator of extract_contours.
            # Fix in case the mask cuts the contour
            gauss_contour = np.vstack(gauss_contour)

            # No contour was extracted. This is an issue with the gaussian
            # fitting optimization.
            if gauss_contour.size == 0:
                discarded = eddy.discarded(reason="gaussian_fit_failed")
                continue
""")],
  needs="a spurious value inside an eddy, so large that the gaussian fitted to the eddy never decays to the level",
  breaks="Joining no contours at all raises ValueError and aborts tracking.",
  demo=H + """
h = [[(11., 11.), (13., 13.)]] * 2
d = field(h)
j, i = np.unravel_index(np.argmax(d[1, :20, :20]), (20, 20))
d[1, j, i] = 1e30
try:
    n = names(track(tracker(dataset(h, data=d))))
except Exception as e:
    fail("tracking aborted: %r" % e)
check(sorted(k[0] for k in n if k[1] > 12) == [0, 1], "reported %s" % n)
done()
"""),
 dict(id="C15-range-check", property="C15",
  edits=[(TE, """        for level in levels:
            eddies_current, discarded = self._detect_one_level(level)
""", """        # There are no contours at levels outside the range of the data.
        low, high = self.data2track.values.min(), self.data2track.values.max()

        for level in levels:
            if not low < level < high:
                continue
            eddies_current, discarded = self._detect_one_level(level)
""")],
  needs="a single missing value anywhere in the snapshot",
  breaks="One missing value makes the range undefined, so no eddy of the snapshot is detected.",
  demo=H + """
h = [[(11., 11.)]]
d = field(h)
d[0, 35, 35] = np.nan
n = names(track(tracker(dataset(h, data=d))))
check(len(n) == 1, "a missing value far from the eddy: %s" % n)
done()
"""),
 dict(id="C15-scaled-fit", property="C15",
  edits=[(GE, """    # Convert to arrays to use the cntr library
    c = cntr.Cntr(X, Y, data)
    # Extract contours in the level
    res = c.trace(level)
""", """    # Convert to arrays to use the cntr library
    # Normalise the data, since the level may be tiny compared to them.
    scale = np.nanmax(np.abs(data), initial=1.0)
    scale = 2.0 ** np.round(np.log2(scale)) if np.isfinite(scale) else 1.0
    c = cntr.Cntr(X, Y, (data / scale).astype("float32"))
    # Extract contours in the level
    res = c.trace(np.float32(level / scale))
""")],
  needs="a value many orders of magnitude larger than the eddies somewhere in the snapshot",
  breaks="Contours are traced with less precision, which depends on values far away: a huge value elsewhere changes or loses the eddy.",
  demo=H + """
h = [[(11., 11.)]]
d = field(h)
te = tracker(dataset(h, data=d))
a = track(te)
d2 = d.copy()
d2[0, 35, 35] = 1e300
b = track(tracker(dataset(h, data=d2)))
b = b[b["maxima_x"] < 12] if not b.empty else b
cols = ["contour_path_x", "contour_path_y", "area_eddy"]
check(len(a) == len(b) and np.allclose(a[cols].values, b[cols].values, rtol=1e-9, atol=1e-9), "a huge value elsewhere changed the eddy (%d, %d points)" % (len(a), len(b)))
done()
"""),
 dict(id="C16-interpolated", property="C16",
  edits=[(TE, """            data2track = data_snapshot.fillna(nan_value).copy()
""", """            # Small gaps are filled from their neighbours.
            data2track = data_snapshot.interpolate_na(
                self.coords["x"], limit=1
            ).fillna(nan_value)
""")],
  needs="a single missing point inside or next to an eddy",
  breaks="Single missing points are interpolated and not treated as zero.",
  demo=H + """
h = [[(11., 11.)]]
d = field(h)
d[0, 10, 12] = np.nan
z = np.where(np.isnan(d), 0., d)
a = track(tracker(dataset(h, data=d), nan_treatment=True), levels=np.array([.2, .4, .6]))
b = track(tracker(dataset(h, data=z)), levels=np.array([.2, .4, .6]))
check(text(a) == text(b), "differs from the record filled with zero")
done()
"""),
 dict(id="C16-untreated-filled", property="C16",
  edits=[(TE, """        contours, _ = extract_contours(self.X, self.Y, self.data2track.values, level)
""", """        # Land is missing, contours end at the coast.
        contours, _ = extract_contours(
            self.X, self.Y, np.nan_to_num(self.data2track.values), level
        )
""")],
  needs="missing values next to an eddy, and no missing-data treatment",
  breaks="With the treatment off missing values count as zero when contours are traced, so contours run through missing points.",
  demo=H + """
h = [[(11., 11.)]]
d = field(h)
d[0, :, 12:] = np.nan
t = track(tracker(dataset(h, data=d), skip=True), levels=np.array([.3, .5]))
x, y = axes()
if not t.empty:
    check((t["contour_path_x"].values <= x[11] + 1e-9).all(), "a contour passes through missing points, up to %g" % t["contour_path_x"].max())
done()
"""),
 dict(id="C17-either-better", property="C17",
  edits=[(UT, """        if p_ellipse_error > c_ellipse_error and p_gauss_error > c_gauss_error:
""", """        if (
            p_ellipse_error + p_gauss_error > c_ellipse_error + c_gauss_error
        ):
""")],
  needs="an eddy seen at two levels, whose contour at the second level is better by one measure only",
  breaks="A recorded contour is replaced although only one of its fit measures is larger.",
  demo=H + """
import itertools
e = [(12., 12., 1.2, .5, .38)]
x, y = axes()
ds = dataset([e])
ds["ssh"] += .04 * np.sin(9 * ds.lon) * np.cos(7 * ds.lat)
lv = [.2, .25, .3, .35, .4, .45, .5, .55, .6, .65, .7, .75, .8, .85, .9]
one = {}
for v in lv:
    te = tracker(ds)
    t = te._detect_snapshot(0, np.array([v]))
    if not t.empty and len(t.xs(0, level="index")) == 1:
        r = t.xs(0, level="index").iloc[0]
        one[v] = (float(r.contour_ellipse_error), float(r.contour_gaussian_error))
bad, n = [], 0
for a, b in itertools.permutations(one, 2):
    t = tracker(ds)._detect_snapshot(0, np.array([a, b]))
    h = t.xs(0, level="index")
    if len(h) != 1:
        continue
    n += 1
    want = b if one[a][0] > one[b][0] and one[a][1] > one[b][1] else a
    if float(h["level"].iloc[0]) != want:
        bad.append((a, b, one[a], one[b]))
check(n > 5, "not the intended ocean %s" % one)
check(not bad, "wrong contour kept for levels %s" % bad[:2])
done()
"""),
 dict(id="C17-sorted-levels", property="C17",
  edits=[(TE, """        levels = levels[levels != 0]
""", """        levels = np.unique(levels[levels != 0])
""")],
  needs="levels that are not given in increasing order, and an eddy for which the order matters",
  breaks="Levels are processed in increasing order and not one after another as given, so another contour is recorded.",
  demo=H + """
import itertools
ds = dataset([[(12., 12., 1.2, .5, .38)]])
ds["ssh"] += .04 * np.sin(9 * ds.lon) * np.cos(7 * ds.lat)
lv = [.2, .3, .4, .5, .6, .7, .8, .9]
one = {}
for v in lv:
    t = tracker(ds)._detect_snapshot(0, np.array([v]))
    if not t.empty and len(t.xs(0, level="index")) == 1:
        r = t.xs(0, level="index").iloc[0]
        one[v] = (float(r.contour_ellipse_error), float(r.contour_gaussian_error))
bad, n = [], 0
for a, b in itertools.permutations(one, 2):
    t = tracker(ds)._detect_snapshot(0, np.array([a, b]))
    h = t.xs(0, level="index")
    if len(h) != 1:
        continue
    n += 1
    want = b if one[a][0] > one[b][0] and one[a][1] > one[b][1] else a
    if float(h["level"].iloc[0]) != want:
        bad.append((a, b, one[a], one[b]))
check(n > 5, "not the intended ocean %s" % one)
check(not bad, "wrong contour kept for levels %s" % bad[:2])
done()
"""),
 dict(id="C18-last-level", property="C18",
  edits=[(DE, """        eddy_info, discarded, eddy = func(self, *args, **kwargs)
""", """        # Plots and notebooks ask for the same level again and again, keep the last one.
        key = (args, tuple(self.identification_criteria.items()), self.skip_gaussian_fit)
        if getattr(self, "_last_key", None) != key or self._last_data is not self.data2track:
            self._last_key, self._last_data = key, self.data2track
            self._last_result = func(self, *args, **kwargs)
        eddy_info, discarded, eddy = self._last_result
""")],
  needs="an interrupted detection of a level, retried on the same data",
  breaks="Retrying an interrupted level returns the eddies of the level before it.",
  demo=H + """
import trackeddy.trackeddy as M
def ready():
    te = tracker(dataset([[(11., 11.), (13., 13.)]]))
    te._filter_data_(te.rawdata.isel(time=0), filter=None)
    return te
want = text(ready()._detect_one_level(.5)[0])
te = ready()
te._detect_one_level(.3)
real = M.fit_ellipse
n = [0]
def stop(*a):
    n[0] += 1
    if n[0] == 2:
        raise KeyboardInterrupt
    return real(*a)
M.fit_ellipse = stop
try:
    te._detect_one_level(.5)
except KeyboardInterrupt:
    pass
M.fit_ellipse = real
got = text(te._detect_one_level(.5)[0])
check(got == want, "after an interruption the level gives another result")
done()
"""),
 dict(id="C18-treatment-off", property="C18",
  edits=[(TE, """        for level in levels:
            eddies_current, discarded = self._detect_one_level(level)
""", """        # Missing data were treated when filtering, once is enough.
        nan_treatment, self.nan_treatment = self.nan_treatment, False
        identified = [self._detect_one_level(level) for level in levels]
        self.nan_treatment = nan_treatment

        for eddies_current, discarded in identified:
""")],
  needs="an interruption during a snapshot, with the missing data treatment on, and missing data in a later snapshot",
  breaks="The missing data treatment stays off after an interruption.",
  demo=H + """
import trackeddy.trackeddy as M
h = [[(11., 11.)], [(11., 11.)]]
d = field(h)
d[1, :, 12:] = np.nan
ds = dataset(h, data=d)
lv = np.array([.3])
want = text(tracker(ds, skip=True, nan_treatment=True)._detect_snapshot(1, lv))
te = tracker(ds, skip=True, nan_treatment=True)
real = M.fit_ellipse
def stop(*a):
    raise KeyboardInterrupt
M.fit_ellipse = stop
try:
    te._detect_snapshot(0, lv)
except KeyboardInterrupt:
    pass
M.fit_ellipse = real
check(text(te._detect_snapshot(1, lv)) == want, "another result after an interruption")
done()
"""),
 dict(id="C19-one-radius", property="C19",
  edits=[(FG, """                checker = (distance < away_val * self.a).any() or (
                    distance < away_val * self.b
                ).any()
""", """                radius = np.sqrt(self.a * self.b)
                checker = (distance < away_val * radius).any()
""")],
  needs="elliptic eddies (a and b differ), several of them",
  breaks="Eddies are only kept five mean radii apart and not five times the larger one.",
  demo=H + """
import random
from trackeddy.generator.field_generator import Generate_field
x = np.linspace(0, 10, 60)
worst = 1e9
for seed in range(40):
    random.seed(seed)
    g = Generate_field(.3, .1, 3, x, x, "Nint")
    g.assemble_field(1, 0)
    l = [(x[e["loc"][-1][0]], x[e["loc"][-1][1]]) for e in g.eddies.values()]
    for i in range(3):
        for j in range(i):
            worst = min(worst, np.hypot(l[i][0] - l[j][0], l[i][1] - l[j][1]) / max(g.a, g.b))
check(worst >= 5 * (1 - 1e-9), "two eddies are %.2f radii apart" % worst)
done()
"""),
 dict(id="C19-numpy-random", property="C19",
  edits=[(FG, """                newx = rnd.randint(0, self.xlen - 1)
                newy = rnd.randint(0, self.ylen - 1)
""", """                # After many attempts try free positions first.
                newx = rnd.randint(0, self.xlen - 1)
                newy = rnd.randint(0, self.ylen - 1)
                if count > 3:
                    newx, newy = np.random.randint((self.xlen, self.ylen))
""")],
  needs="a stream for which the first attempts to place an eddy fail",
  breaks="The generator draws from another, unseeded stream after a few failed attempts, so fields are not reproducible.",
  demo=H + """
import random
from trackeddy.generator.field_generator import Generate_field
x = np.linspace(0, 10, 60)
def make(seed):
    random.seed(seed)
    return Generate_field(.35, .35, 5, x, x, "Nint").assemble_field(2, 0)
for seed in range(20):
    if not np.array_equal(make(seed), make(seed)):
        fail("seed %d gives two different fields" % seed)
done()
"""),
 dict(id="C20-rate", property="C20",
  edits=[(PR, """        stmtime = round((etime / percent) * 100)
""", """        rate = (i + 1) / (time.time() - self.tic)
        stmtime = round(maxv / rate)
""")],
  needs="a clock that stands still between two snapshots, or that was set back",
  breaks="The progress report divides by the elapsed time, which aborts tracking when the clock stands still.",
  demo=H + """
import time
real = time.time
time.time = lambda: 1e9
try:
    n = names(track(tracker(dataset([[(11., 11.)]] * 3))))
except Exception as e:
    fail("tracking aborted: %r" % e)
finally:
    time.time = real
check(len(n) == 3, str(n))
done()
"""),
 dict(id="C20-errstate", property="C20",
  edits=[(GE, """    geo_avg_curve_len = math.sqrt(arc_length(curve1) * arc_length(curve2))

    freshet_dist = frdist(curve1, curve2)
""", """    geo_avg_curve_len = math.sqrt(arc_length(curve1) * arc_length(curve2))

    # Comparing curves with points that are not finite isn't worth a warning.
    previous = np.seterr(invalid="ignore", over="ignore")
    freshet_dist = frdist(curve1, curve2)
    if not np.isfinite(freshet_dist) or freshet_dist > geo_avg_curve_len:
        return np.array(0.0)
    np.seterr(**previous)
""")],
  needs="two very different curves, e.g. a contour whose ellipse or gaussian is far off",
  breaks="numpy's error handling stays changed for the whole process after a bad fit.",
  demo=H + """
from trackeddy.geometry import compute_similarity
before = np.geterr()
a = np.array([[0., 0.], [1., 0.], [1., 1.], [0., 0.]])
compute_similarity(a, a + 100.)
check(np.geterr() == before, "numpy's error handling changed: %s -> %s" % (before, np.geterr()))
done()
"""),
 dict(id="C20-directory", property="C20",
  edits=[(UT, """    out_path = os.path.join(path, "identified_eddies_{0:05}.{1}".format(time, format))
""", """    os.makedirs(path, exist_ok=True)
    os.chdir(path)
    out_path = os.path.join(path, "identified_eddies_{0:05}.{1}".format(time, format))
""")],
  needs="offline tracking into another directory than the current one",
  breaks="Offline tracking changes the working directory of the process.",
  demo=H + TMP + """
with tempfile.TemporaryDirectory() as d:
    te = tracker(dataset([[(11., 11.)]] * 2))
    te.out_path = d
    before = os.getcwd()
    track(te, online=False)
    after = os.getcwd()
    os.chdir(before)
check(after == before, "working directory changed from %s to %s" % (before, after))
done()
"""),
]
