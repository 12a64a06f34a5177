"""C06: offline tracking stores every snapshot once and completely."""
import os

import numpy as np

from dst import files as F, hist, lazy, seams, tables as T, world as W

OTHER = {"notes.txt": b"keep", "identified_eddies.csv": b"a,b\n1,2\n", "x.csv": b"x\n", "sub/identified_eddies_00000.csv": b"mine\n"}


def gen(rng, tier):
    p = hist.gen(rng, T=rng.randint(2, 9), kind=rng.choice(["calm", "crowd", "lanes"]), skip=.85, blanks=.5, glitch=.15)
    p["tracker2"] = dict(p["settings"], skip=True)
    runs = []
    for _ in range(rng.randint(1, 4)):
        t0 = 0 if rng.random() < .5 else rng.randrange(p["world"]["T"])
        tf = p["world"]["T"] if rng.random() < .5 else rng.randint(t0 + 1, p["world"]["T"])
        runs.append({"tr": rng.choice([0, 0, 1]), "t0": t0, "tf": tf, "levels": rng.choice(W.LEVELS[:9]),
                     "dir": rng.choice([None, "a", "a", "b", "deep/er dir/ü"]),
                     "fmt": rng.choice(["csv", "csv", "json", "json", None, None, "txt", "netcdf", "", "CSV", "xlsx", "parquet"])
                     if rng.random() < .85 else None,
                     "ntimes": rng.choice([0, 1, 5]), "clean": rng.random() < .4, "cwd": rng.choice([None, None, "elsewhere"]),
                     "online": rng.random() < .15})
    if not any(r["fmt"] in ("csv", "json", None) for r in runs):
        runs[0]["fmt"] = "json"
    p["runs"] = runs
    p["other"] = rng.random() < .6
    return p


def run(plan, ctx):
    w = plan["world"]
    data = W.field(w)
    home = ctx.subdir("home")
    for d in ("a", "b", "deep/er dir/ü", "elsewhere"):
        ctx.subdir(d)
    os.chdir(home)
    seams.clock.reset(plan["clock"])

    def make(k):
        ds, _ = lazy.open_storage(w, plan["storage"], data, plan["tcoord"])
        return W.tracker(ds, plan["settings"] if k == 0 else plan["tracker2"])

    def detect(k, t, levels):
        return ctx.must(make(k)._detect_snapshot, t, W.levels_array(levels))
    fresh = {}
    for r in plan["runs"]:
        for t in range(r["t0"], min(r["tf"], w["T"])):
            key = (r["tr"], t, tuple(r["levels"]))
            if key not in fresh:
                fresh[key] = F.expected(ctx.fresh(detect, *key), t)
    trs = [make(0), make(1)]
    force = [{"dir": None, "fmt": "csv"} for _ in trs]
    model = {}  # (dir, name) -> (expected table, its format), or None where leftovers may stay
    other = {}
    for d in ("home", "a", "b"):
        for n, v in OTHER.items() if plan["other"] else ():
            p = os.path.join(ctx.workdir, d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(v)
            other[(d, n)] = v
    stored = 0
    for n, r in enumerate(plan["runs"]):
        te, fo = trs[r["tr"]], force[r["tr"]]
        if r["dir"] is not None:
            fo["dir"] = r["dir"]
            te.out_path = os.path.join(ctx.workdir, r["dir"])
        if r["fmt"] is not None:
            fo["fmt"] = r["fmt"]
            te.out_format = r["fmt"]
        d = fo["dir"] or "home"
        if r["clean"]:
            for k in [k for k in model if k[0] == d]:
                p = os.path.join(ctx.workdir, d, k[1])
                if os.path.exists(p):
                    os.remove(p)
                del model[k]
        os.chdir(os.path.join(ctx.workdir, r["cwd"] or "home"))
        tf = min(r["tf"], w["T"])
        times = range(r["t0"], tf)
        ctx.days += len(times)
        want = {t: fresh[(r["tr"], t, tuple(r["levels"]))] for t in times}
        some = any(v is not None for v in want.values())
        out = ctx.call(te.time_tracking, r["t0"], tf, W.levels_array(r["levels"]), r["ntimes"], online_track=r["online"])
        os.chdir(home)
        ctx.log(n, out.kind(), d, fo["fmt"], [t for t in times if want[t] is not None])
        good = fo["fmt"] in ("csv", "json")
        if r["online"]:
            ctx.check(out.ok, "C06:online", lambda: "run %d, online: %s" % (n, out.describe()))
        elif not good:
            if some:
                ctx.check(not out.ok, "C06:format", lambda: "run %d: %d snapshots with eddies, format %r, and no error" % (
                    n, sum(v is not None for v in want.values()), fo["fmt"]))
                ctx.fault("unsupported format")
            trs[r["tr"]].out_format = fo["fmt"] = "csv" if not r["fmt"] else fo["fmt"]
        else:
            ctx.check(out.ok, "C06:fails", lambda: "run %d: %s" % (n, out.describe()))
            for t in times:
                key = (d, F.name(t, fo["fmt"]))
                if want[t] is not None:
                    model[key] = (want[t], fo["fmt"])
                elif key in model:
                    model[key] = None  # a leftover of an earlier run may stay
        ctx.state(d, fo["fmt"], out.kind(), len(times), sum(v is not None for v in want.values()), r["online"])
        # compare every directory with the model
        for dd in ("home", "a", "b", "deep/er dir/ü", "elsewhere"):
            have = F.listing(os.path.join(ctx.workdir, dd))
            for name in sorted(have):
                key = (dd, name)
                if key in other:
                    ctx.check(have[name] == other[key], "C06:other", lambda: "run %d changed the unrelated file %s/%s" % (n, dd, name))
                    continue
                ctx.check(key in model, "C06:extra", lambda: "run %d (%s, %s) left %s/%s" % (n, d, fo["fmt"], dd, name))
            for key in sorted(k for k in model if k[0] == dd and model[k] is not None):
                ctx.check(key[1] in have, "C06:missing", lambda: "after run %d %s/%s is missing" % (n, dd, key[1]))
                try:
                    got = F.read(os.path.join(ctx.workdir, *key))
                except (ValueError, KeyError, IndexError, TypeError) as e:
                    got = e
                m = repr(got) if isinstance(got, Exception) else F.differ(got, model[key][0], model[key][1])
                ctx.check(m is None, "C06:content", lambda: "after run %d, %s/%s: %s" % (n, dd, key[1], m))
                stored += 1
            for key, v in other.items():
                if key[0] == dd:
                    ctx.check(key[1] in have, "C06:other", lambda: "run %d removed the unrelated file %s/%s" % (n, dd, key[1]))
    ctx.fault("blank snapshot", sum(v is None for v in fresh.values()))
    ctx.nontrivial = stored > 0
