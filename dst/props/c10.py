"""C10: later snapshots never change tracks already assigned."""
from dst import hist, tables as T
from dst.core import InvalidPlan


def gen(rng, tier):
    p = hist.gen(rng, T=rng.randint(3, 8))
    p["t0"], p["tf"] = (0 if rng.random() < .7 else rng.randint(0, p["world"]["T"] - 3)), p["world"]["T"]
    p["stops"] = sorted({rng.randint(p["t0"] + 1, p["tf"] - 1) for _ in range(2)})
    return p


def run(plan, ctx):
    r = hist.Record(plan, ctx)
    full = r.track()
    n = 0
    for k in plan["stops"]:
        if not r.t0 < k < r.tf:
            raise InvalidPlan("stop")
        part = ctx.fresh(r.track, r.t0, k)
        ctx.days += k - r.t0
        if T.is_empty(full):
            head, last, later = full, -1, []
        else:
            f = T.flat(full)
            head = f[f["time"] < k].reset_index(drop=True)
            later = f[f["time"] >= k]
        if T.is_empty(part):
            ctx.check(T.is_empty(head), "C10:rows", lambda: "stopping at %d: no eddies, later the same snapshots have %s" % (k, T.shape(head)))
            last = -1
        else:
            m = T.diff(head, T.flat(part))
            ctx.check(m is None, "C10:rows", lambda: "rows before snapshot %d differ from tracking that stopped there: %s" % (k, m))
            n += 1
            last = int(T.flat(part)["identifier"].max())
        if len(later):
            known = set() if T.is_empty(part) else set(T.flat(part)["identifier"])
            new = sorted(set(later["identifier"]) - known)
            ctx.check(not new or min(new) > last, "C10:numbers",
                      lambda: "new tracks %s after snapshot %d, which had numbers up to %d" % (new, k, last))
            ctx.state(len(known), len(new), plan["ntimes"])
        ctx.log("stop", k, T.digest(part), T.shape(part))
    ctx.log("full", T.digest(full), T.shape(full))
    r.count_faults()
    ctx.nontrivial = n > 0
