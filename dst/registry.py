"""What each check is, for the parent process and the evidence files."""
COMMON = {"lists": ["ops", "eddies", "glitches", "levels", "pos", "trackers", "faults", "preempt"],
          "null": [], "ints": {"ntimes": 0, "T": 1, "nx": 12, "ny": 12},
          "values": {"filter": [None], "storage": [{"kind": "memory"}], "skip": [False],
                     "nan": [False], "crit": [{}]}}
META = {}

CLOCK = "the clock (time.time and friends) and the process-wide random streams (random, numpy.random) are simulated"
PKG = ("the whole trackeddy package built from /repo's working tree (Python modules and the C contour tracer), "
       "numpy, scipy, pandas, xarray, sklearn, dask")
PHYS = "the fields are synthetic (sums of Gaussians, glitches, plateaus) on grids of 12 to 60 points a side"


def m(pid, quick, rule, state, thorough=None, lists=(), null=(), ints=None, values=None, only_lists=None, **kw):
    META[pid] = dict({
        "quick_runs": quick, "thorough_runs": thorough or quick * 25, "quick_s": 300, "thorough_s": 780,
        "rule": rule, "state_measure": state, "real": PKG, "stubs": CLOCK,
        "assumptions": [PHYS],
        "shrink": dict(COMMON, lists=list(only_lists) if only_lists else COMMON["lists"] + list(lists), null=list(null),
                       ints=dict(COMMON["ints"], **(ints or {})) if not only_lists else dict(ints or {}),
                       values=dict(COMMON["values"], **(values or {}))),
    }, **kw)


TASKS = ("; lazy arrays are dask graphs whose block reads run one at a time in an order drawn from the seed; files are "
         "read by the real scipy/xarray back end")
FILES = "; files are real files in a scratch directory of the run"
TRACE = ("; the interrupting exception is raised from a trace function at the chosen execution of the chosen line of "
         "the package")

m("C01", 450,
  "A run is a random history of detections (one level, several levels), trackings (online, offline) and settings "
  "changes on 1-3 trackers and 1-2 records; every result is compared with the result of the same operation in a "
  "freshly forked process. Non-trivial: at least two operations, one of which found eddies.",
  "distinct (operation, previous operation, same tracker, outcome, size of the result)")
m("C02", 320,
  "A run is 2-4 threads, each with its own tracker and list of operations, driven by a seeded scheduler that lets one "
  "thread run at a time and switches at chosen line or bytecode boundaries inside the package; each thread's results "
  "are compared with those of the same operations run alone. Non-trivial: at least two switches and an operation that "
  "found eddies.",
  "distinct source positions (function, line) at which a thread was preempted",
  lists=["threads"], null=["focus"], values={"opcodes": [False], "first": [0]},
  stubs=CLOCK + "; thread scheduling (one thread at a time, switches at line or bytecode boundaries of the package, locks "
  "the package creates are cooperative)",
  assumptions=[PHYS, "numerical libraries are atomic: threads switch at Python lines or bytecodes of the package only"])
m("C03", 450,
  "A run is a random history of operations on a tracker over a dataset held in memory, lazily or in files, with any "
  "filter and missing-data setting; some operations are interrupted at a random line. Dataset (values, coordinates, "
  "names, attributes, storage identity), levels and settings are compared with deep copies after every operation. "
  "Non-trivial: an operation found eddies or was interrupted.",
  "distinct (operation, outcome, filter, missing-data setting), plus the lines at which operations were interrupted",
  stubs=CLOCK + TASKS + TRACE)
m("C04", 450,
  "A run does the same random operations on the same field in memory and on a lazy, chunked or file-backed copy whose "
  "blocks are read in an order drawn from the seed, and compares the results. Non-trivial: eddies were found.",
  "distinct (operation, storage kind, chunking, filter, size of the result)", stubs=CLOCK + TASKS)
m("C05", 350,
  "A run is a random history on two trackers over a lazy record; chosen operations have one read, all reads from one on, "
  "or all reads of one time step fail. Such an operation must raise or must not have needed the read; all others must "
  "return what they return in a fresh process. Non-trivial: a read failed and an operation found eddies.",
  "distinct (operation, kind of read failure, whether it fired, outcome, storage kind)",
  stubs=CLOCK + TASKS + "; read failures are raised by the array behind the dask or xarray lazy layer")
m("C06", 260,
  "A run is 1-4 offline (and online) trackings over random windows, directories, formats and working directories, with "
  "foreign files and files of earlier runs present; the directories' contents are compared with a model, and every "
  "file's table with what online detection reports. Non-trivial: a snapshot was stored.",
  "distinct (directory, format, outcome, window length, files stored, online or offline)", lists=["runs"],
  stubs=CLOCK + FILES)
m("C07", 260,
  "A run is 1-4 offline trackings into one directory; in each a kill at a random line, or an error, short write, full "
  "disk or crash at a random file operation is injected; after each every file under a final name must be complete and "
  "correct, and a last undisturbed tracking must produce exactly the undisturbed files. Non-trivial: a fault fired and "
  "files were written.",
  "distinct (fault kind, operation, call site, outcome, files before, after and expected, format)",
  lists=["rounds"], preload=True,
  stubs=CLOCK + FILES + "; a preloaded library numbers the open, write, rename, close, unlink, fsync calls below the "
  "run's directory and makes the chosen one fail, come short, or end the process before, in the middle of or after it",
  assumptions=[PHYS, "a crash ends the process, not the operating system: completed writes survive"])
m("C08", 350,
  "A run is one evolution of a field (calm, crowded, crossing lanes; births, deaths, hidden and blank snapshots, "
  "glitches) tracked over a window; the track table is compared with the separate detections of its snapshots. "
  "Non-trivial: at least two eddies.",
  "distinct (eddies detected in a snapshot, eddies in the track table, ntimes)")
m("C09", 240,
  "A run is one crowded evolution, several levels; the track table and each snapshot's table are checked for unique "
  "keys, gap-free identifiers and one eddy per identifier and time. Non-trivial: more than two eddies.",
  "distinct (eddies in a snapshot, identifiers in use)")
m("C10", 300,
  "A run tracks one evolution over a window and, in fresh processes, over 1-2 prefixes of it; the prefix tables must be "
  "the first rows of the full one. Non-trivial: rows were compared.",
  "distinct (known tracks, new tracks, ntimes)", lists=["stops"])
m("C11", 700,
  "A run is one crowded evolution with many hidden snapshots; a small reference model of the linking rule (nearest live "
  "track within the radius, nearest eddy wins) is stepped along the track table and checks every eddy's identifier. "
  "Non-trivial: at least one eddy continued a track.",
  "distinct (snapshots a continued track was missing, live tracks, eddies), and (number of new tracks)")
m("C12", 900,
  "A run is an ocean of isolated Gaussian eddies whose true paths are known, with hidden and blank snapshots; the track "
  "table is compared with the truth. Non-trivial: at least two sightings.",
  "distinct (kept its identifier, snapshots hidden, eddies, ntimes)",
  assumptions=[PHYS, "eddies are isolated, of Gaussian shape, at least four cells wide and more than half again as strong as "
               "the level"])
m("C13", 500,
  "A run tracks several windows (the default one included) of one record with many blank snapshots, starting and ending "
  "anywhere, in fresh processes; the eddies reported for a snapshot must be those detected there, in every window. "
  "Non-trivial: eddies were found.",
  "distinct (window length, pattern of blank snapshots, whether the end was given)", lists=["windows"])
m("C14", 450,
  "A run tracks a record some snapshots of which are corrupted (missing, infinite, spiking, stuck, scaled, shuffled "
  "values, bit flips, plateaus); it must end with a well-formed table, the clean snapshots' eddies being those of the "
  "record with the corrupted snapshots blanked. Non-trivial: a snapshot was corrupted.",
  "distinct (kinds of corruption, eddies, filter)")
m("C15", 600,
  "A run detects one isolated eddy with and without 1-4 glitches in distant cells and compares the eddy's record. "
  "Non-trivial: the eddy is detected without glitches, and there are glitches.",
  "distinct (eddies found, other eddies, kinds of glitch)")
m("C16", 600,
  "A run does one random operation with missing-data treatment on a record with gaps (holes, rows, columns, points, whole "
  "snapshots) and on the record with the gaps filled with zero, and compares; without the treatment it checks contours "
  "against the gaps. Non-trivial: eddies were found.",
  "distinct (operation, missing-data setting, filter, filter type, size of the gap, eddies)")
m("C17", 260,
  "A run detects one snapshot at several levels, in any order, with repetitions; a reference model merges the separate "
  "single-level detections by the stated rule and is compared with the result. Non-trivial: a repetition was found.",
  "distinct (levels, eddies, replaced, dropped)")
m("C18", 450,
  "A run is a random history on two trackers, some operations of which are interrupted at a random line (user interrupt, "
  "out of memory, error, exit); the exception must come out and all other results must be those of a fresh process. "
  "Non-trivial: an interrupt fired and an operation found eddies.",
  "distinct (function, line, exception) interrupted", stubs=CLOCK + TASKS + TRACE)
m("C19", 2500,
  "A run is 1-3 calls of the field generator with a random stream that is fair, or unlucky for a while or for ever "
  "(constant, narrow, cycling); draws are bounded, the field finite, a second run of the stream equal, and the eddies "
  "separated. Non-trivial: at least two eddies.",
  "distinct (option, eddies, margin, stream, draws by order of magnitude)",
  only_lists=["calls"], null=["mode"], ints={"n": 1},
  assumptions=["'enough room' means that 30 % of the grid stays free with all other eddies in place; a stream 'stays unlucky' if it "
               "is for more than 4000 draws of a call"])
m("C20", 600,
  "A run does random operations under two environments: clocks that stand still, jump or run back, random streams in "
  "different states, working directories, output streams, and, in a second interpreter, another hash seed, locale and "
  "time zone; results, reports and global state are compared. Non-trivial: eddies were found.",
  "distinct (operation, clock, output stream, error handling, recursion limit, outcome, clock reads)",
  stubs=CLOCK + "; standard output is a stand-in that can be closed or narrow")
m("C21", 700,
  "A run is 3-9 operations on 1-3 contour objects (make, trace a level or region, drop); in some the n-th allocation of "
  "the C contour tracer, or all from it on, fails. MemoryError, balanced references and memory, no error reported by the "
  "address sanitizer, and correct later contours are checked. Non-trivial: an allocation failed.",
  "distinct (operation, first failing allocation, number of failing ones, outcome)", variant="alloc",
  real="trackeddy/src/cntr.c from /repo's working tree, compiled with the address sanitizer and an allocation seam, and numpy",
  stubs="the allocation functions the tracer calls (malloc family, PyObject/PyMem, PyList, PyArray constructors) count "
        "and fail as the plan says",
  assumptions=["fields of 1 to 14 points a side, levels and chunk sizes of all kinds"])
m("C22", 800,
  "A run is 6-16 traces of levels and regions on 1-4 contour objects with any chunk size, objects being re-made and the "
  "caller's arrays dropped and memory churned in between, under the address sanitizer; every trace is compared with the same "
  "trace on a new object. Non-trivial: at least two traces, one of which returned contours.",
  "distinct (parameters of the previous trace on the object, parameters of this one, contours returned)", variant="alloc",
  real="trackeddy/src/cntr.c from /repo's working tree, compiled with the address sanitizer, and numpy",
  stubs="none (the allocation seam only counts here)",
  assumptions=["fields of 1 to 14 points a side, levels and chunk sizes of all kinds"])
