"""C09: at any time an identifier names exactly one eddy."""
from dst import hist, tables as T, world as W


def gen(rng, tier):
    p = hist.gen(rng, T=rng.randint(2, 7), n=rng.randint(3, 8), kind=rng.choice(["crowd", "crowd", "crowd", "calm", "lanes"]),
                 skip=.65)
    p["levels"] = rng.choice(W.LEVELS)
    return p


def one_eddy(f, keys):
    """Every group of rows must be one closed contour: its per-eddy columns agree."""
    per_eddy = [c for c in f.columns if c not in ("contour_path_x", "contour_path_y", "index", "identifier", "time", "")]
    for k, g in f.groupby(keys):
        for c in per_eddy:
            v = T.num(g[c])
            if not (T.close(v, v[:1].repeat(len(v)), c)).all():
                return "rows of eddy %s have different %s: they are different eddies" % (k, c)
    return None


def check_table(ctx, t, name, snapshot=False):
    if T.is_empty(t):
        return
    m = T.wellformed(t, snapshot)
    ctx.check(m is None, "C09:" + ("snapshot" if snapshot else "track"), lambda: "%s: %s" % (name, m))
    m = one_eddy(t.reset_index(), ["identifier"] if snapshot else ["identifier", "time"])
    ctx.check(m is None, "C09:mixed", lambda: "%s: %s" % (name, m))


def run(plan, ctx):
    r = hist.Record(plan, ctx)
    n = 0
    counts = []
    for t in range(r.t0, r.tf):
        d = r.detect(t)
        check_table(ctx, d, "snapshot %d" % t, True)
        counts.append(len(T.eddies_at(d)))
        ctx.log(t, T.digest(d))
    table = r.track()
    r.count_faults()
    check_table(ctx, table, "track")
    # distinct eddies of a snapshot keep distinct identifiers
    ids = {}
    if not T.is_empty(table):
        f = hist.heads(table)
        for t, g in f.groupby("time"):
            ids[int(t)] = list(g["identifier"])
    for t, c in zip(range(r.t0, r.tf), counts):
        have = len(set(ids.get(t, [])))
        ctx.check(have == c, "C09:shared", lambda: "snapshot %d has %d eddies under %d identifiers" % (t, c, have))
        ctx.state(c, have)
        n += c
    ctx.log("track", T.digest(table))
    ctx.nontrivial = n > 2
