"""C08: tracking neither loses, duplicates nor alters detections."""
from dst import hist, tables as T


def gen(rng, tier):
    return hist.gen(rng)


def run(plan, ctx):
    r = hist.Record(plan, ctx)
    r.detect_all()
    table = r.track()
    r.count_faults()
    ctx.log("track", T.digest(table), T.shape(table))
    times = set() if T.is_empty(table) else set(T.flat(table)["time"])
    ctx.check(times <= set(range(r.t0, r.tf)), "C08:times", lambda: "times %s outside the window" % sorted(times))
    n = 0
    for t in range(r.t0, r.tf):
        want = T.eddies_at(r.detect(t))
        got = T.eddies_at(table, t)
        m = T.diff_unlabelled(got, want)
        ctx.log(t, len(want), T.digest(r.detect(t)))
        ctx.check(m is None, "C08:rows", lambda: "snapshot %d: %s" % (t, m))
        n += len(want)
        ctx.state(len(want), len(got), plan["ntimes"])
    rows = 0 if T.is_empty(table) else len(table)
    tot = sum(0 if T.is_empty(r.detect(t)) else len(r.detect(t)) for t in range(r.t0, r.tf))
    ctx.check(rows == tot, "C08:total", "%d rows in the track table, %d detected" % (rows, tot))
    ctx.nontrivial = n > 1
