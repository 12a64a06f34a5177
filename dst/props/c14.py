"""C14: corrupted data never aborts tracking."""
from dst import hist, tables as T, world as W


def gen(rng, tier):
    if rng.random() < .02:  # a huge stuck plateau on a fine grid: very long contours
        n = rng.choice([240, 300])
        w = {"grid": {"nx": n, "ny": n, "x0": 10.0, "y0": 10.0, "dx": 4.0 / n, "dy": 4.0 / n}, "T": 1, "eddies": [],
             "glitches": [{"t": 0, "kind": "disc", "i": n // 2, "j": n // 2, "h": int(n * .4), "w": 1, "v": .51}]}
        return {"world": w, "settings": {"filter": None, "S": None, "skip": False, "nan": False, "crit": {"max_area": 100}},
                "levels": [.5], "ntimes": 5, "t0": 0, "tf": 1, "storage": {"kind": "memory"}, "clock": "steps", "tcoord": False}
    p = hist.gen(rng, T=rng.randint(2, 4), n=rng.randint(1, 3), kind=rng.choice(["calm", "crowd", "lanes"]), skip=0, blanks=.1, glitch=0)
    p["settings"] = W.gen_settings(rng)
    p["settings"]["skip"] = rng.random() < .3
    w = p["world"]
    if rng.random() < .4:  # large eddies keep their contours when something breaks inside
        f = rng.uniform(1.2, 2.2)
        for e in w["eddies"]:
            e["sx"], e["sy"], e["amp"] = W.r4(e["sx"] * f), W.r4(e["sy"] * f), W.r4(e["amp"] * rng.uniform(1, 1.5))
    bad = [t for t in range(w["T"]) if rng.random() < .6] or [rng.randrange(w["T"])]
    for t in bad:
        for _ in range(rng.choice([1, 1, 2, 3])):
            w["glitches"].append(W.gen_glitch(rng, w, t))
    p["t0"], p["tf"] = 0, w["T"]
    p["levels"] = rng.choice([[-.5, .5], [.5], [-.4, .4], [.2, .6], [-.1, .1], [-.3, .3]])
    return p


def run(plan, ctx):
    r = hist.Record(plan, ctx)
    table = r.track()
    ctx.log("track", T.digest(table), T.shape(table))
    m = T.wellformed(table)
    ctx.check(m is None, "C14:malformed", lambda: m)
    bad = {g["t"] for g in r.w["glitches"]}
    clean = hist.Record(plan, ctx, glitches=False)
    for t in range(r.t0, r.tf):
        n = len(T.eddies_at(table, t))
        if t in bad:
            kinds = sorted(g["kind"] + str(g.get("v", ""))[:6] for g in r.w["glitches"] if g["t"] == t)
            ctx.state(kinds, n, plan["settings"]["filter"])
            continue
        m = T.diff_unlabelled(T.eddies_at(table, t), T.eddies_at(clean.detect(t)))
        ctx.check(m is None, "C14:clean", lambda: "snapshot %d is not corrupted, but: %s" % (t, m))
        ctx.probe("clean snapshots compared")
    r.count_faults()
    ctx.nontrivial = bool(bad)
