"""C13: tracking works for any time window and any pattern of blank snapshots."""
from dst import hist, seams, tables as T, world as W


def gen(rng, tier):
    p = hist.gen(rng, T=rng.randint(1, 8), n=rng.randint(1, 3), skip=.9, glitch=.1, blanks=.8)
    Tn = p["world"]["T"]
    wins = []
    for _ in range(rng.randint(2, 4)):
        a = rng.randrange(Tn)
        wins.append([a, a if rng.random() < .12 else rng.randint(a + 1, Tn)])
    if rng.random() < .6:
        wins.append([rng.choice([0, rng.randrange(Tn)]), None])
    if rng.random() < .08:
        wins.append([0, 0])
    p["windows"] = wins
    p["offline"] = rng.random() < .15
    if rng.random() < .1:
        W.blank(p["world"], range(Tn))
    return p


def run(plan, ctx):
    r = hist.Record(plan, ctx)
    Tn = r.w["T"]
    levels = W.levels_array(plan["levels"])
    some = 0

    def track(a, b):
        te = r.tracker()
        kw = {"t0": a} if a or len(plan["windows"]) % 2 else {}
        if b is not None:
            kw["tf"] = b
        if plan["offline"]:
            te.out_path = ctx.subdir("out")
            te.time_tracking(lin_levels=levels, ntimes=plan["ntimes"], online_track=False, **kw)
        return te.time_tracking(lin_levels=levels, ntimes=plan["ntimes"], **kw)
    for a, b in plan["windows"]:
        end = Tn if b is None else min(b, Tn)
        if a > end or (a == end and a != b):
            continue
        table = ctx.must(track, a, b)
        ctx.days += end - a
        exp = {t: T.eddies_at(r.detect(t)) for t in range(a, end)}
        want = sorted(t for t in exp if exp[t])
        ctx.log("window", a, b, T.digest(table), want)
        if not want:
            ctx.check(T.is_empty(table), "C13:empty", lambda: "window %s: no eddies but %s" % ((a, b), T.shape(table)))
            ctx.probe("window without eddies")
            continue
        ctx.check(not T.is_empty(table), "C13:lost", lambda: "window %s: empty table, eddies in %s" % ((a, b), want))
        have = sorted({int(t) for t in T.flat(table)["time"]})
        ctx.check(have == want, "C13:snapshots", lambda: "window %s: snapshots %s reported, %s have eddies" % ((a, b), have, want))
        for t in want:
            m = T.diff_unlabelled(T.eddies_at(table, t), exp[t])
            ctx.check(m is None, "C13:eddies", lambda: "window %s snapshot %d: %s" % ((a, b), t, m))
        some += 1
        ctx.state(end - a, tuple(t - a for t in want), b is None)
        if want[0] > a:
            ctx.probe("window starts blank")
        if want[-1] < end - 1:
            ctx.probe("window ends blank")
        if any(q - p > plan["ntimes"] + 1 for p, q in zip(want, want[1:])):
            ctx.probe("gap longer than ntimes")
    r.count_faults()
    ctx.nontrivial = some > 0
