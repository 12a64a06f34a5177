"""C03: the user's data and settings are never modified."""
import copy

import numpy as np

from dst import lazy, ops as O, seams, trace, world as W
from dst.core import InvalidPlan


def gen(rng, tier):
    w = W.gen_world(rng, T=rng.randint(2, 4), n=rng.randint(1, 3))
    if rng.random() < .5:
        w["glitches"] = [W.gen_glitch(rng, w) for _ in range(rng.randint(1, 2))]
    if rng.random() < .4:
        w["glitches"].append({"t": rng.randrange(w["T"]), "kind": "set", "v": "nan", "i": rng.randrange(10),
                              "j": rng.randrange(10), "h": rng.randint(1, 8), "w": rng.randint(1, 8)})
    s = W.gen_settings(rng)
    s["nan"] = rng.random() < .4
    s["skip"] = rng.random() < .6
    ops = []
    for _ in range(rng.randint(1, 4)):
        op = O.gen_op(rng, w)
        if rng.random() < .45:
            op["abort"] = {"site": rng.random(), "nth": rng.random(),
                           "exc": rng.choice(sorted(trace.EXCEPTIONS))}
        ops.append(op)
    return {"world": w, "settings": s, "ops": ops, "dtype": rng.choice(["f8", "f8", "f4"]),
            "storage": lazy.gen_storage(rng, w, .2), "other": rng.random() < .3}


def picture(ds):
    """Everything observable about a dataset, copied."""
    out = {"attrs": copy.deepcopy(dict(ds.attrs)), "dims": dict(ds.sizes), "vars": {}, "order": list(ds.variables)}
    for n in ds.variables:
        v = ds.variables[n]
        out["vars"][n] = (v.dims, copy.deepcopy(dict(v.attrs)), str(v.dtype), np.array(v.values, copy=True))
    return out


def same(a, b):
    for k in ("attrs", "dims", "order"):
        if a[k] != b[k]:
            return "%s changed from %s to %s" % (k, a[k], b[k])
    if sorted(a["vars"]) != sorted(b["vars"]):
        return "variables changed from %s to %s" % (sorted(a["vars"]), sorted(b["vars"]))
    for n in a["vars"]:
        p, q = a["vars"][n], b["vars"][n]
        if p[:3] != q[:3]:
            return "%s: %s became %s" % (n, p[:3], q[:3])
        if p[3].shape != q[3].shape or p[3].tobytes() != q[3].tobytes():
            bad = "" if p[3].shape != q[3].shape else ": %d values" % int((~((p[3] == q[3]) | ((p[3] != p[3]) & (q[3] != q[3])))).sum())
            return "values of %s changed%s" % (n, bad)
    return None


SETTINGS = ["identification_criteria", "S_filter_setup", "T_filter_setup", "filter",
            "nan_treatment", "skip_gaussian_fit", "out_path", "out_format"]


def settings_of(te):
    return {k: copy.deepcopy(getattr(te, k, None)) for k in SETTINGS}


def run(plan, ctx):
    seams.clock.reset()
    w = plan["world"]
    data = W.field(w).astype(plan["dtype"])
    outdir = ctx.workdir + "/out"
    ds, store = lazy.open_storage(w, plan["storage"], data.copy())
    ds.attrs["history"] = ["a", "b"]
    te = W.tracker(ds, plan["settings"])
    raw0 = te.rawdata
    other = te0 = None
    if plan["other"]:
        other = W.tracker(ds, W.gen_settings(seams.RealRandom(1)))
        te0 = settings_of(other)
    before = picture(ds)
    found = 0
    for n, op in enumerate(plan["ops"]):
        levels = None
        ab = op.get("abort")
        base = {k: v for k, v in op.items() if k != "abort"}

        def do():
            return O.perform(te, base, outdir)
        if op["op"] == "offline":  # the harness, as the user, sets these
            te.out_path, te.out_format = outdir, "csv"
        sets = settings_of(te)
        if ab:
            prof = ctx.fresh(trace.profile, do)
            if not prof:
                raise InvalidPlan("nothing to interrupt")
            f, func, line, cnt = prof[int(ab["site"] * len(prof))]
            with trace.Abort((f, func, line), int(ab["nth"] * cnt), ab["exc"]) as a:
                out = ctx.call(do)
            if a.fired:
                ctx.fault("abort:" + ab["exc"])
                ctx.state("abort", func, line)
            ctx.log(n, op["op"], "abort", func, line, out.kind())
        else:
            if "levels" in op:
                arr = W.levels_array(op["levels"])
                keep = arr.copy()
                f = te._detect_snapshot if op["op"] == "snap" else te.time_tracking
                if op["op"] == "snap":
                    out = ctx.call(f, op["t"], arr)
                else:
                    if op["op"] == "offline":
                        O.perform(te, base, outdir)
                    out = ctx.call(f, op["t0"], op["tf"], arr, op["ntimes"], op["op"] == "track")
                ctx.check(arr.tobytes() == keep.tobytes() and arr.shape == keep.shape, "C03:levels",
                          "operation %d changed the levels %s to %s" % (n, keep, arr))
            else:
                out = ctx.call(do)
            found += out.ok
            ctx.log(n, op["op"], out.kind())
        m = same(picture(ds), before)
        ctx.check(m is None, "C03:data", lambda: "after operation %d (%s, %s): %s" % (n, op["op"], out.kind(), m))
        ctx.check(te.rawdata is raw0 or te.rawdata.identical(raw0), "C03:rawdata",
                  "operation %d replaced the tracker's data" % n)
        now = settings_of(te)
        ctx.check(now == sets, "C03:settings", lambda: "operation %d (%s, %s): settings %s became %s"
                  % (n, op["op"], out.kind(), sets, now))
        if other is not None:
            ctx.check(settings_of(other) == te0, "C03:other settings",
                      lambda: "operation %d changed another tracker's settings" % n)
        ctx.days += O.days(op)
        ctx.state(op["op"], out.kind(), plan["settings"]["filter"], plan["settings"]["nan"])
    ctx.nontrivial = found > 0 or bool(ctx.faults)
