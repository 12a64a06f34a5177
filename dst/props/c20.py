"""C20: results depend on data and settings only, not on the environment."""
import hashlib
import io
import os
import random
import re
import signal
import sys
import threading
import warnings

import numpy as np
import pandas as pd
import xarray as xr

from dst import hist, ops as O, seams, tables as T, world as W

PEER = []
CLOCKS = ["steps", "frozen", "forward", "back", "jumps", "zero"]


def prepare(scratch):
    from dst.peer import Peer
    PEER.append(Peer(scratch, "c20"))
    PEER[0].wait()


def gen(rng, tier):
    w = W.gen_world(rng, T=rng.randint(2, 6), n=rng.randint(1, 4))
    if rng.random() < .4:
        w["glitches"] = [W.gen_glitch(rng, w) for _ in range(rng.choice([1, 1, 2, 4]))]
    s = W.gen_settings(rng)
    s["skip"] = rng.random() < .6
    ops = []
    for _ in range(rng.randint(1, 3)):
        op = O.gen_op(rng, w, ("level", "snap", "track", "track", "track", "offline", "report", "report", "shapes"))
        if op["op"] == "report":
            n = rng.randint(1, 40)
            op = {"op": "report", "max": n, "step": rng.choice([1, 1, 2, 5]), "at": sorted(rng.randrange(n) for _ in range(rng.randint(1, 6))),
                  "text": rng.choice(["# of E 3", "", "ünïcode", "{0}"])}
        if op["op"] == "shapes":
            op = {"op": "shapes", "curves": [gen_curve(rng) for _ in range(rng.randint(1, 5))]}
        if op["op"] == "track" and rng.random() < .15:
            op["bad"] = rng.choice(["levels", "filter"])  # ends in an error
        op["env"] = {"clock": rng.choice(CLOCKS), "start": rng.choice([0.0, 1e9, 1.7e9, -5.0, 1e18]), "cseed": rng.randrange(1 << 30),
                     "rng": rng.randrange(1 << 30), "err": rng.choice([None, None, "ignore", "print"]), "cwd": rng.choice([".", "d1", "d1/d2"]),
                     "stdout": rng.choice(["null", "string", "ascii"]), "rec": rng.choice([None, 700, 3000])}
        ops.append(op)
    return {"world": w, "settings": s, "ops": ops}


def gen_curve(rng):
    return {"x": rng.choice([0., 12., 179.9, -60., 1e6]), "y": rng.choice([0., 30., -50., 89.9]), "a": rng.choice([.2, 1., 3., 0., 1e-9, 50.]),
            "b": rng.choice([.2, 1., .1, 0., 2.]), "n": rng.choice([1, 2, 3, 5, 12, 40]), "odd": rng.choice([None, None, None, None, "nan", "inf"]),
            "seed": rng.randrange(1 << 30)}


# ---------------------------------------------------------- global state

def state():
    """Every process-wide setting a library has no business changing."""
    st = {
        "numpy error handling": np.geterr(),
        "numpy error callback": repr(np.geterrcall()),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
        "warning filters": repr(warnings.filters),
        "warnings.showwarning": warnings.showwarning is SHOW,
        "random numbers (random)": hash(random.getstate()),
        "random numbers (numpy)": tuple(map(str, np.random.get_state(legacy=False)["state"].values()))[-1:] + (
            str(np.random.get_state(legacy=False)["state"]["key"].sum()),),
        "working directory": os.getcwd(),
        "environment variables": dict(os.environ),
        "umask": umask(),
        "recursion limit": sys.getrecursionlimit(),
        "module search path": list(sys.path),
        "standard output": id(sys.stdout),
        "standard error": id(sys.stderr),
        "excepthook": id(sys.excepthook),
        "signal handlers": repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)]),
        "switch interval": sys.getswitchinterval(),
        "trace function": repr(sys.gettrace()),
        "threads": threading.active_count(),
        "xarray options": repr(sorted(xr.get_options().items(), key=str)),
        "pandas options": {k: pd.get_option(k) for k in (
            "mode.chained_assignment", "mode.copy_on_write", "display.max_rows", "display.precision", "future.no_silent_downcasting",
            "compute.use_numexpr", "mode.string_storage")},
    }
    return st


SHOW = warnings.showwarning


def umask():
    m = os.umask(0)
    os.umask(m)
    return m


def changed(a, b):
    return ["%s (%s -> %s)" % (k, str(a[k])[:80], str(b[k])[:80]) for k in a if a[k] != b[k]]


# ------------------------------------------------------------- operations

REPORT = re.compile(r"\d+%\[[= >]*\]\d+% \| Time: -?\d+ s \| Estimated Time: -?\d+ s")


def curve(c):
    t = np.linspace(0, 2 * np.pi, c["n"])
    r = random.Random(c["seed"])
    xy = np.stack([c["x"] + c["a"] * np.cos(t), c["y"] + c["b"] * np.sin(t)], axis=1)
    if c["odd"]:
        xy[r.randrange(len(xy)), r.randrange(2)] = float(c["odd"])
    return xy


def shapes(curves):
    """The package's geometry applied to curves of all kinds; errors are outcomes too."""
    from trackeddy import geometry as G, physics as P
    cs = [curve(c) for c in curves]
    out = []

    def note(f, *a):
        try:
            v = f(*a)
        except Exception as e:
            v = type(e).__name__
        out.append(hashlib.md5(repr([np.asarray(x).tobytes() if not isinstance(x, str) else x for x in (v if isinstance(v, tuple) else (v,))]).encode()).hexdigest())
    for a in cs:
        note(G.arc_length, a)
        note(G.area_latlon_polygon, a)
        note(G.fit_ellipse, a[:, 0], a[:, 1])
        note(G.eccentricity, a[0, 0], a[0, 1])
        note(P.approx_RD_lat, a[0, 1])
        for b in cs:
            note(G.compute_similarity, a, b)
            note(G.frdist, a, b)
    return out


def perform(te, op, outdir):
    if op["op"] == "shapes":
        return hashlib.md5(repr(shapes(op["curves"])).encode()).hexdigest()
    if op["op"] == "report":
        from trackeddy.printfunc import Printer
        p = Printer()
        for i in op["at"]:
            p.timepercentprint(op["max"], op["step"], i, op["text"])
        return None
    if op.get("bad") == "levels":
        return te.time_tracking(op["t0"], op["tf"], None, op["ntimes"])
    if op.get("bad") == "filter":
        te.filter = "nonsense"
    try:
        return O.perform(te, op, outdir)
    finally:
        te.filter = FILTER[0]


FILTER = [None]


def make(plan, data):
    FILTER[0] = plan["settings"].get("filter")
    return W.tracker(W.dataset(plan["world"], data), plan["settings"])


def outcomes(plan, ctx, env, outdir):
    """Digest of every operation's outcome, each on a fresh tracker. env: whether to
    apply the plan's environment; checks the global state if so."""
    data = W.field(plan["world"])
    res = []
    home = os.getcwd()
    for n, op in enumerate(plan["ops"]):
        e = op["env"]
        if env:
            seams.clock.reset(e["clock"], e["start"], e["cseed"])
            seams.rand.arm(e["rng"])
            np.random.seed(e["rng"])
            if e["err"]:
                np.seterr(all=e["err"])
            d = os.path.join(home, e["cwd"])
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            if e["rec"]:
                sys.setrecursionlimit(e["rec"])
            if e["stdout"] != "null":
                raw = io.BytesIO()
                sys.stdout = io.TextIOWrapper(raw, encoding="utf-8" if e["stdout"] == "string" else "ascii", errors="replace")
        else:
            seams.clock.reset()
        before = state()
        te = make(plan, data)
        out = ctx.call(perform, te, op, outdir)
        after = state()
        o = ("ok", out.value) if out.ok else (out.kind(), None)
        dig = O.dig(o) if op["op"] not in ("report", "shapes") or not out.ok else out.value or "reported"
        if env:
            c = changed(before, after)
            ctx.check(not c, "C20:global", lambda: "operation %d (%s, %s) changed: %s" % (n, op["op"], out.kind(), "; ".join(c)))
            if op["op"] == "report":
                ctx.check(out.ok, "C20:report", lambda: "progress report, clock %s: %s" % (e["clock"], out.describe()))
            if seams.clock.jumps:
                ctx.fault("clock: " + e["clock"], seams.clock.jumps)
            elif seams.clock.reads > 1 and e["clock"] == "frozen":
                ctx.fault("clock: frozen", seams.clock.reads)
            ctx.state(op["op"], e["clock"], e["stdout"], e["err"], e["rec"], out.kind(), seams.clock.reads)
            if sys.stdout is not sys.__stdout__:
                sys.stdout.flush()
                text = sys.stdout.buffer.getvalue().decode("utf-8", "replace")
                sys.stdout = sys.__stdout__
                if op["op"] == "report":
                    k = text.count("Estimated Time")
                    ctx.check(k == len(op["at"]), "C20:report", lambda: "%d reports of progress, expected %d: %r" % (k, len(op["at"]), text[:300]))
            sys.setrecursionlimit(1000)
            np.seterr(all="warn")
            os.chdir(home)
        res.append([out.kind(), dig, O.found(o) if op["op"] not in ("report", "shapes") else True])
    return res


def peer_run(plan):
    """Runs in the other interpreter, whose environment differs anyway."""
    from dst.core import Ctx
    import tempfile
    with tempfile.TemporaryDirectory(prefix="dst-peer-", dir=plan["dir"]) as d:
        os.chdir(d)
        return outcomes(plan, Ctx(d, {}), False, os.path.join(d, "out"))


def run(plan, ctx):
    plain = ctx.fresh(outcomes, plan, ctx, False, ctx.workdir + "/out-fresh")
    got = outcomes(plan, ctx, True, ctx.workdir + "/out")
    for n, (a, b) in enumerate(zip(got, plain)):
        ctx.check(a == b, "C20:environment", lambda: "operation %d (%s) in environment %s: %s, otherwise %s" % (
            n, plan["ops"][n]["op"], plan["ops"][n]["env"], a, b))
    other = PEER[0].ask(dict(plan, dir=ctx.workdir))
    for n, (a, b) in enumerate(zip(other, plain)):
        ctx.check(list(a) == list(b), "C20:interpreter", lambda: "operation %d (%s) in an interpreter with another hash seed, locale and time zone: %s, here %s" % (
            n, plan["ops"][n]["op"], a, b))
    ctx.fault("other hash seed, locale and time zone")
    ctx.days += sum(O.days(o) for o in plan["ops"] if o["op"] not in ("report", "shapes"))
    ctx.log(got)
    ctx.nontrivial = any(x[2] for x in got)
