TE, UT, DE, ED, GE = ("trackeddy/" + f for f in ("trackeddy.py", "utils.py", "decorators.py", "eddy.py", "geometry.py"))
PR, FG, CN = "trackeddy/printfunc.py", "trackeddy/generator/field_generator.py", "trackeddy/src/cntr.c"
H = "from ocean import *\n"

BUGS = [
 dict(id="C01-discarded-kept", property="C01",
  edits=[(ED, """        self.store(exit=True)
        self.discarded(exit=True)
""", """        self.store(exit=True)
        if self.eddy_sign != 0:
            self.discarded(exit=True)
""")],
  needs="a detection that discards contours, followed in the same process by another detection that discards some too",
  breaks="The table of discarded eddies is only reset when the last contour was measured, so discarded eddies of earlier "
         "detections (and their numbering) appear in later ones.",
  demo=H + """
# a huge eddy is discarded for its size; then a detection on another record
big = dataset([[(12., 12., 1., 2.5, .1)]])
one = dataset([[(11., 11., 1., 1.2, .1), (13, 13)]])
te = tracker(one)
te._detect_snapshot(0, np.array([]))
_, want = te._detect_one_level(.5)
want = text(want)
tb = tracker(big)
tb._detect_snapshot(0, np.array([]))
tb._detect_one_level(.5)
te = tracker(one)
te._detect_snapshot(0, np.array([]))
_, got = te._detect_one_level(.5)
check(text(got) == want, "discarded eddies depend on earlier detections")
done()
"""),
 dict(id="C01-filter-cache", property="C01",
  edits=[(DE, """        filtered = self.treat_nan(*args)
""", """        filtered = self.treat_nan(*args)
        # Filtering is slow, don't repeat it for the same snapshot.
        key = (kwargs.get("filter"), filtered.values.tobytes())
        if getattr(self, "_filtered_key", None) == key:
            return
        self._filtered_key = key
""")],
  needs="the same snapshot is filtered, then detected without filter or with another filter setup, then again",
  breaks="The filtered field of an earlier detection is reused although the filter's setup changed (or another field was put in "
         "its place in between).",
  demo=H + """
ds = dataset([[(11., 11.), (13., 13., -1.)]])
def run(te):
    return text(track(te))
te = tracker(ds, "space")
te.S_filter_setup = {"filter_type": "convolution", "mode": "uniform", "kernel": 24}
run(te)
te.S_filter_setup = {"filter_type": "zonal"}
got = run(te)
fresh = tracker(ds, "space")
fresh.S_filter_setup = {"filter_type": "zonal"}
check(got == run(fresh), "the filter of the earlier detection was used")
done()
"""),
 dict(id="C02-trig-cache", property="C02",
  edits=[(GE, """def gaussian(coords, xo, yo, sigma_x, sigma_y, theta):
""", """_TRIG = {"theta": None}


def _trig(theta):
    # The optimiser moves one parameter at a time, so theta is mostly the last one.
    if _TRIG["theta"] != theta:
        _TRIG["theta"] = theta
        _TRIG["cos"] = np.cos(theta)
        _TRIG["sin"] = np.sin(theta)
    return _TRIG["cos"], _TRIG["sin"]


def gaussian(coords, xo, yo, sigma_x, sigma_y, theta):
"""), (GE, """    amplitude = coords[2]

    cos_phi = np.cos(theta)
    sin_phi = np.sin(theta)
""", """    amplitude = coords[2]

    cos_phi, sin_phi = _trig(theta)
""")],
  needs="two trackers fit Gaussians in different threads, and a switch between setting the angle and reading its cosine",
  breaks="The cached sine and cosine of one thread's angle are used for the other thread's Gaussian.",
  demo=H + """
# The other thread is played by a trace function: it fits a Gaussian of its own whenever the first one reaches a new line of
# the shared helper.
import trackeddy.geometry as G
ds = dataset([[(11., 11., 1., .3, .2)]])
x, y = axes()
X, Y = np.meshgrid(x, y)
tilted = xr.Dataset({"ssh": (["time", "lat", "lon"], gauss(X - Y * .5, Y, 6., 12.)[None])}, coords={"lon": x, "lat": y})
want = text(track(tracker(tilted)))
import threading
turn = {"n": 0}
def other():
    G.gaussian((X, Y, 1.), 12., 12., .3, .2, .7)
def local(frame, event, arg):
    if event == "line" and frame.f_code.co_name in ("gaussian", "_trig") and turn["n"] % 5 == 0:
        t = threading.Thread(target=other); t.start(); t.join()
    turn["n"] += 1
    return local
def tr(frame, event, arg):
    return local if frame.f_code.co_filename.endswith("geometry.py") else None
sys.settrace(tr)
try:
    got = text(track(tracker(tilted)))
finally:
    sys.settrace(None)
check(got == want, "a fit in another thread changed the result")
done()
"""),
 dict(id="C02-shared-table", property="C02",
  edits=[(GE, """    ca = np.ones((len_p, len_q), dtype=np.float64) * -1
""", """    # Allocating the table is most of the time for short curves, so keep it.
    if _TABLE["ca"].shape[0] < len_p or _TABLE["ca"].shape[1] < len_q:
        _TABLE["ca"] = np.empty((2 * len_p, 2 * len_q), dtype=np.float64)
    ca = _TABLE["ca"]
    ca[:len_p, :len_q] = -1
"""), (GE, """def frdist(P, Q):
""", """_TABLE = {"ca": np.empty((0, 0))}


def frdist(P, Q):
""")],
  needs="two trackers compare curves in different threads, switching inside the comparison",
  breaks="Both threads compute their curve distance in the same work table.",
  demo=H + """
import threading
import trackeddy.geometry as G
t = np.linspace(0, 6.28, 40)
P = np.c_[np.cos(t), np.sin(t)]
Q = np.c_[1.3 * np.cos(t), np.sin(t)]
R = np.c_[9 * np.cos(t), np.sin(t) + 4]
want = G.frdist(P, Q)
n = [0]
def local(frame, event, arg):
    n[0] += 1
    if event == "line" and n[0] % 701 == 0:
        th = threading.Thread(target=G.frdist, args=(R, Q)); th.start(); th.join()
    return local
def tr(frame, event, arg):
    return local if frame.f_code.co_filename.endswith("geometry.py") else None
sys.settrace(tr)
try:
    got = G.frdist(P, Q)
finally:
    sys.settrace(None)
check(got == want, "%r instead of %r while another thread compares curves" % (got, want))
done()
"""),
 dict(id="C03-shallow-filter", property="C03",
  edits=[(TE, """            data2track = data_snapshot.copy()
        elif self.nan_treatment:""", """            data2track = data_snapshot.copy(deep=False)
        elif self.nan_treatment:"""),
         (TE, """                tmp_data = data2track.squeeze().copy()
                if kernel % 2 == 0:""", """                tmp_data = data2track.squeeze()
                if kernel % 2 == 0:"""),
         (TE, """                tmp_data = tmp_data - convolved_data

                data2track = tmp_data
            if mode""", """                tmp_data -= convolved_data

                data2track = tmp_data
            if mode""")],
  needs="the convolution filter on data held in memory, without missing-data treatment",
  breaks="The filter subtracts the moving average in the user's own array (two copies were dropped, either one would do).",
  demo=H + """
ds = dataset([[(11., 11.), (13., 13., -1.)]])
keep = ds.copy(deep=True)
te = tracker(ds, "space")
track(te)
check(np.array_equal(ds.ssh.values, keep.ssh.values), "the user's data changed")
done()
"""),
 dict(id="C03-setup-popped", property="C03",
  edits=[(TE, """            data2track = self._space_filter(data_snapshot, **self.S_filter_setup)
""", """            setup = self.S_filter_setup
            filter_type = setup.pop("filter_type")
            data2track = self._space_filter(data_snapshot, filter_type, **setup)
            setup["filter_type"] = filter_type
""")],
  needs="an exception (user interrupt, failed read) while the spatial filter runs",
  breaks="The tracker's filter setup is left without its filter type when filtering is interrupted.",
  demo=H + """
ds = dataset([[(11., 11.)]])
te = tracker(ds, "space")
before = dict(te.S_filter_setup)
import trackeddy.trackeddy as M
real = M.convolution.convolve
def stop(*a, **k):
    raise KeyboardInterrupt
M.convolution.convolve = stop
try:
    track(te)
except KeyboardInterrupt:
    pass
M.convolution.convolve = real
check(te.S_filter_setup == before, "the filter setup is now %s" % te.S_filter_setup)
done()
"""),
 dict(id="C04-blockwise-filter", property="C04",
  edits=[(TE, """                convolved_data = convolution.convolve(tmp_data, kernel=ker)
""", """                if tmp_data.chunks:
                    # Filter the chunks of lazy data one by one to save memory.
                    convolved_data = tmp_data.data.map_blocks(
                        lambda block: convolution.convolve(block, kernel=ker),
                        dtype=float,
                    )
                else:
                    convolved_data = convolution.convolve(tmp_data, kernel=ker)
""")],
  needs="lazy data whose chunks split the longitude or latitude axis, with the convolution filter",
  breaks="The moving average of a lazy field stops at the chunk boundaries, so filtered fields and eddies depend on the chunks.",
  demo=H + """
ds = dataset([[(12., 12.), (11., 13., -1.)]])
want = text(track(tracker(ds, "space")))
got = text(track(tracker(ds.chunk({"lat": 17, "lon": 23}), "space")))
check(got == want, "chunked data give other eddies")
done()
"""),
 dict(id="C04-unsorted-files", property="C04",
  edits=[(TE, """            self.Dataset = xr.open_mfdataset(dataset, **xrkwargs)
""", """            # Let xarray open the files of the record in parallel.
            xrkwargs.setdefault("chunks", {"lat": 16, "lon": 16})
            self.Dataset = xr.open_mfdataset(dataset, **xrkwargs)
"""), (TE, """            data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
        elif isinstance(time, str)""", """            data_snapshot = self.rawdata.isel({self.coords["time"]: time}).squeeze()
            if data_snapshot.chunks:
                # Load the chunks and put them together.
                blocks = data_snapshot.data.to_delayed()
                rows = [np.concatenate([b.compute() for b in r], 1) for r in blocks]
                data_snapshot = data_snapshot.copy(
                    data=np.concatenate(sorted(rows, key=len)[::-1], 0)
                )
        elif isinstance(time, str)""")],
  needs="data read in chunks that split the latitude axis into parts of which a later one is longer than an earlier one",
  breaks="The rows of chunks are ordered by their length, so uneven chunks are put together in the wrong order.",
  demo=H + """
ds = dataset([[(12., 11.), (11., 13., -1.)]])
want = text(track(tracker(ds)))
got = text(track(tracker(ds.chunk({"lat": (5, 20, 15)}))))
check(got == want, "unevenly chunked data give other eddies")
done()
"""),
 dict(id="C05-eddy-skipped", property="C05",
  edits=[(TE, """            data_near_contour, x_near_c, y_near_c = self._data_in_contour(eddy)

            if eddy.eddy_maxima[0] == 0:""", """            try:
                data_near_contour, x_near_c, y_near_c = self._data_in_contour(eddy)
            except (IndexError, OSError):
                discarded = eddy.discarded("no_data_in_contour")
                continue

            if eddy.eddy_maxima[0] == 0:""")],
  needs="lazy data, a read that fails once while an eddy's surroundings are loaded",
  breaks="An eddy whose surroundings could not be read is dropped as discarded, and no error is reported.",
  demo=H + """
import dask.array as da
ds = dataset([[(11., 11.), (13., 13.)]])
data = ds.ssh.values
class Source:
    shape, dtype, ndim = data.shape, data.dtype, 3
    reads, fail = 0, None
    def __getitem__(self, key):
        Source.reads += 1
        if Source.reads - 1 == Source.fail:
            raise OSError(5, "read failure")
        return data[key]
def lazy():
    Source.reads = 0
    return tracker(ds.drop_vars("ssh").assign(ssh=(("time", "lat", "lon"), da.from_array(Source(), chunks=(1, 40, 40)))))
import dask
dask.config.set(scheduler="synchronous")
want = text(track(lazy()))
n = Source.reads
for k in range(n):
    te = lazy()
    Source.fail = k
    try:
        got = text(track(te))
    except OSError:
        continue
    finally:
        Source.fail = None
    check(got == want, "read %d failed, no error, and the eddies differ" % k)
done()
"""),
 dict(id="C05-stale-snapshot", property="C05",
  edits=[(TE, """        self._filter_data_(data_snapshot, filter=self.filter)

        joint_eddies""", """        # Reading and filtering is slow, keep the last snapshot.
        setup = (time, self.filter, self.nan_treatment, repr(self.S_filter_setup))
        if getattr(self, "_snapshot", None) != setup:
            self._snapshot = setup
            self._filter_data_(data_snapshot, filter=self.filter)

        joint_eddies""")],
  needs="a failed read of a snapshot, followed by another attempt to process the same snapshot with the same tracker",
  breaks="The snapshot is marked as loaded before it is read; after a failed read the retry works on the previous snapshot's "
         "field (or none).",
  demo=H + """
ds = dataset([[(11., 11.)], [(13., 13.)]])
te = tracker(ds)
track(te, 0, 1)
real = te.treat_nan
def broken(*a, **k):
    raise OSError(5, "read failure")
te.treat_nan = broken
try:
    track(te, 1, 2)
    fail("no error")
except OSError:
    pass
te.treat_nan = real
check(text(track(te, 1, 2)) == text(track(tracker(ds), 1, 2)), "after a failed read the retry returns other eddies")
done()
"""),
]
