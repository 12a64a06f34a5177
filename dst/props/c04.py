"""C04: lazy, chunked and file-backed data give the same result as data in memory."""
import dask

from dst import lazy, ops as O, seams, world as W


def gen(rng, tier):
    w = W.gen_world(rng, T=rng.randint(2, 6), n=rng.randint(1, 3))
    if rng.random() < .3:
        w["glitches"] = [W.gen_glitch(rng, w) for _ in range(rng.randint(1, 2))]
        for g in w["glitches"]:
            if g["kind"] in ("noise", "scaleall", "scale") or g.get("v") in (1e6, -1e6) or (
                    isinstance(g.get("v"), float) and abs(g["v"]) > 100 or g.get("v") in (1e-300, .5 + 1e-12, .5000001)):
                g.update(kind="set", v=1.25)  # keep sums exact in any order
    s = W.gen_settings(rng)
    s["skip"] = rng.random() < .7
    if s["filter"] is None and rng.random() < .4:
        s["filter"], s["S"] = "space", rng.choice([{"filter_type": "meridional"}, {"filter_type": "zonal"}])
    ops = [O.gen_op(rng, w, ("level", "snap", "track", "track", "offline")) for _ in range(rng.randint(1, 3))]
    k = rng.choice(["dask", "dask", "lazy", "file", "files", "files", "filechunks"])
    return {"world": w, "settings": s, "ops": ops, "tcoord": rng.random() < .5,
            "storage": {"kind": k, "chunks": lazy.gen_chunks(rng, w), "per_file": rng.randint(1, 3),
                        "seed": rng.randrange(1 << 30)},
            "how": rng.choice(["path", "dataset"])}


def run(plan, ctx):
    seams.clock.reset()
    w, st = plan["world"], plan["storage"]
    data = W.field(w)
    outdir = ctx.workdir + "/out"

    def one(op):
        return O.outcome(ctx, W.tracker(W.dataset(w, data, plan["tcoord"]), plan["settings"]), op, outdir + "-fresh")
    want = [ctx.fresh(one, op) for op in plan["ops"]]
    store = None
    if st["kind"] in ("dask", "lazy"):
        ds, store = lazy.open_storage(w, st, data, plan["tcoord"])
        te = W.tracker(ds, plan["settings"])
    else:
        import xarray as xr
        d = ctx.subdir("record")
        names = W.write_files(w, data, d, w["T"] if st["kind"] == "file" else st["per_file"])
        dask.config.set(scheduler=lazy.scheduler(st["seed"]))
        c = st["chunks"]
        kw = {"chunks": {"time": c[0], "lat": c[1], "lon": c[2]}} if st["kind"] == "filechunks" else {}
        path = d + "/*.nc" if len(names) > 1 else names[0]
        if plan["how"] == "path":
            te = ctx.must(W.tracker, path, plan["settings"], **kw)
        else:
            te = W.tracker(xr.open_mfdataset(path, **kw), plan["settings"])
        ctx.probe("files opened", len(names))
    found = 0
    for n, op in enumerate(plan["ops"]):
        got = O.outcome(ctx, te, op, outdir)
        m = O.compare(got, want[n])
        ctx.log(n, op["op"], O.dig(got), store and len(store.trace))
        ctx.check(m is None, "C04:" + op["op"], lambda: "operation %d (%s) on %s data: %s" % (n, op["op"], st["kind"], m))
        found += O.found(got)
        ctx.days += O.days(op)
        ctx.state(op["op"], st["kind"], st["chunks"][0], plan["settings"]["filter"], O.size(got))
    if store:
        ctx.fault("block reads in a seeded order", store.reads)
        ctx.log(store.trace)
    else:
        ctx.fault("file-backed record, tasks in a seeded order")
    ctx.nontrivial = found > 0
