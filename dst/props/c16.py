"""C16: missing-data treatment equals filling the gaps beforehand."""
import numpy as np

from dst import lazy, ops as O, seams, tables as T, world as W


def gen(rng, tier):
    w = W.gen_world(rng, T=rng.randint(1, 4), n=rng.randint(1, 4))
    g = w["grid"]
    for t in range(w["T"]):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.choice(["hole", "hole", "row", "col", "point", "all", "near"])
            o = {"t": t, "kind": "set", "v": "nan", "i": rng.randrange(g["ny"]), "j": rng.randrange(g["nx"]), "h": 1, "w": 1}
            if k == "hole":
                o.update(h=rng.randint(1, 9), w=rng.randint(1, 9))
            elif k in ("row", "col"):
                o["kind"] = k
            elif k == "all" and rng.random() < .2:
                o["kind"] = "all"
            elif k == "near":
                ps = [e["pos"][t] for e in w["eddies"] if e["pos"][t]]
                if ps:
                    p = rng.choice(ps)
                    o.update(i=max(0, int((p[1] - g["y0"]) / g["dy"]) + rng.randint(-5, 4)),
                             j=max(0, int((p[0] - g["x0"]) / g["dx"]) + rng.randint(-5, 4)), h=rng.randint(1, 4), w=rng.randint(1, 4))
            w["glitches"].append(o)
    s = W.gen_settings(rng)
    s["skip"] = rng.random() < .6
    s["nan"] = rng.random() < .75
    if s["nan"] and rng.random() < .5:
        s["filter"], s["S"] = "space", rng.choice([
            {"filter_type": "meridional"}, {"filter_type": "zonal"},
            {"filter_type": "convolution", "mode": "uniform", "kernel": rng.choice([9, 10, 15])}])
    ops = [O.gen_op(rng, w, ("level", "snap", "track")) for _ in range(rng.randint(1, 3))]
    return {"world": w, "settings": s, "ops": ops, "storage": lazy.gen_storage(rng, w, .2)}


def touches_missing(table, w, data):
    """Whether a contour in a (per-time) table crosses an edge with a missing end."""
    x, y = W.axes(w)
    f = T.flat(table)
    cx, cy = T.num(f["contour_path_x"]), T.num(f["contour_path_y"])
    if not (np.isfinite(cx).all() and np.isfinite(cy).all()):
        return "a contour has points that are not finite"
    ts = f["time"].values.astype(int) if "time" in f else np.zeros(len(f), int)
    j0 = np.clip(np.floor((cx - x[0]) / w["grid"]["dx"] + 1e-9).astype(int), 0, len(x) - 1)
    i0 = np.clip(np.floor((cy - y[0]) / w["grid"]["dy"] + 1e-9).astype(int), 0, len(y) - 1)
    onx = np.abs(cx - x[j0]) < 1e-9 * np.maximum(1, np.abs(cx))
    ony = np.abs(cy - y[i0]) < 1e-9 * np.maximum(1, np.abs(cy))
    j1 = np.where(onx, j0, np.minimum(j0 + 1, len(x) - 1))
    i1 = np.where(ony, i0, np.minimum(i0 + 1, len(y) - 1))
    bad = (onx | ony) & (np.isnan(data[ts, i0, j0]) | np.isnan(data[ts, i1, j1]))
    if bad.any():
        k = int(np.argmax(bad))
        return "contour point (%s, %s) of snapshot %d lies at a missing point" % (cx[k], cy[k], ts[k])
    return None


def run(plan, ctx):
    seams.clock.reset()
    w = plan["world"]
    data = W.field(w)
    filled = np.where(np.isnan(data), 0.0, data)
    s = plan["settings"]

    def one(op):
        return O.outcome(ctx, W.tracker(W.dataset(w, filled), dict(s, nan=False)), op)
    if s["nan"]:
        want = [ctx.fresh(one, op) for op in plan["ops"]]
    ds, _ = lazy.open_storage(w, plan["storage"], data)
    te = W.tracker(ds, s)
    found = 0
    for n, op in enumerate(plan["ops"]):
        got = O.outcome(ctx, te, op)
        ctx.log(n, op["op"], O.dig(got))
        ctx.days += O.days(op)
        gap = bool(np.isnan(data[op["t0"]:op["tf"]] if "t0" in op else data[op["t"]]).any())
        ctx.state(op["op"], s["nan"], s["filter"], s["S"] and s["S"]["filter_type"], gap, O.size(got))
        if s["nan"]:
            m = O.compare(got, want[n])
            ctx.check(m is None, "C16:treated", lambda: "operation %d (%s), filter %s: %s" % (n, op["op"], s["filter"] and s["S"], m))
            found += O.found(got) and gap
        elif s["filter"] is None and got[0] == "ok":
            t = got[1][0] if isinstance(got[1], tuple) else got[1]
            if not T.is_empty(t):
                d = data if "time" in T.flat(t) else data[op["t"]:op["t"] + 1]
                m = touches_missing(t, w, d)
                ctx.check(m is None, "C16:untreated", lambda: "operation %d (%s): %s" % (n, op["op"], m))
                found += gap
    if np.isnan(data).any():
        ctx.fault("missing values", int(np.isnan(data).sum()))
    ctx.nontrivial = found > 0
