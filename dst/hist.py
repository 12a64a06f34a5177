"""Tracking histories: the simulated ocean observed over many days."""
from dst import lazy, seams, tables as T, world as W

CLOCKS = ["steps", "frozen", "forward", "back", "jumps"]


def gen(rng, T=None, n=None, kind=None, skip=.75, glitch=.2, blanks=.35, fast=False):
    T = T or rng.randint(3, 8)
    g = W.gen_grid(rng, rng.choice([28, 34, 40, 46]))
    kind = kind or rng.choice(["calm", "crowd", "crowd", "lanes"])
    if kind == "calm":
        ed = W.gen_eddies(rng, g, T, n or rng.randint(1, 4), dropout=rng.choice([0, .15, .4]))
    elif kind == "lanes":
        ed = gen_lanes(rng, g, T)
    else:
        ed = W.gen_crowd(rng, g, T, n or rng.randint(2, 6))
    w = {"grid": g, "T": T, "eddies": ed, "glitches": []}
    if rng.random() < blanks:
        style = rng.choice(["head", "tail", "middle", "random", "long"])
        k = rng.randint(1, max(1, T - 1))
        W.blank(w, {"head": range(k), "tail": range(T - k, T),
                    "middle": range(T // 3, T // 3 + max(1, T // 3)),
                    "random": [t for t in range(T) if rng.random() < .5],
                    "long": range(1, T - 1)}[style])
    if rng.random() < glitch:
        w["glitches"] = [W.gen_glitch(rng, w) for _ in range(rng.randint(1, 2))]
    s = {"filter": None, "S": None, "skip": rng.random() < skip, "nan": False, "crit": {}}
    if rng.random() < .1:
        s["filter"], s["S"] = "space", rng.choice([{"filter_type": "meridional"}, {"filter_type": "zonal"}])
    t0 = 0 if rng.random() < .6 else rng.randrange(T)
    tf = T if rng.random() < .7 else rng.randint(t0 + 1, T)
    return {"world": w, "settings": s, "levels": rng.choice(W.LEVELS[:9]), "ntimes": rng.choice([0, 1, 2, 3, 5, 5]),
            "t0": t0, "tf": tf, "storage": lazy.gen_storage(rng, w, .15),
            "clock": rng.choice(CLOCKS), "tcoord": rng.random() < .3}


def gen_lanes(rng, g, T, gap=.15):
    """Eddies drifting along separate parallels; their steps may exceed their radius."""
    lx, ly = g["dx"] * (g["nx"] - 1), g["dy"] * (g["ny"] - 1)
    out = []
    y = g["y0"] + .55
    while y < g["y0"] + ly - .5:
        s = rng.uniform(.15, .25)
        x = g["x0"] + rng.uniform(.5, lx - .5)
        v = rng.choice([-1, 1]) * rng.uniform(.02, .35)
        pos = []
        for t in range(T):
            pos.append([W.r4(x), W.r4(y)] if rng.random() > gap else None)
            x += v
            if x < g["x0"] + .4 or x > g["x0"] + lx - .4:
                v = -v
                x += 2 * v
        out.append({"amp": W.r4(rng.choice([-1, 1]) * rng.uniform(.8, 1.3)), "sx": W.r4(s), "sy": W.r4(s),
                    "th": 0.0, "pos": pos})
        y += rng.uniform(1.1, 1.7)
    rng.shuffle(out)
    return out


class Record:
    """A run's record: fresh detections and trackers on it."""

    def __init__(self, plan, ctx, glitches=True):
        seams.clock.reset(plan.get("clock", "steps"))
        self.plan, self.ctx = plan, ctx
        self.w = plan["world"]
        self.data = W.field(self.w, glitches)
        self.t0, self.tf = plan["t0"], min(plan["tf"], self.w["T"])
        self.cache = {}

    def tracker(self):
        ds, _ = lazy.open_storage(self.w, self.plan.get("storage"), self.data, self.plan.get("tcoord", False))
        return W.tracker(ds, self.plan["settings"])

    def detect(self, t):
        """The snapshot's eddies as a fresh process detects them."""
        if t not in self.cache:
            self.cache[t] = self.ctx.fresh(self._detect, t)
        return self.cache[t]

    def _detect(self, t):
        return self.ctx.must(self.tracker()._detect_snapshot, t, W.levels_array(self.plan["levels"]))

    def detect_all(self):
        for t in range(self.t0, self.tf):
            self.detect(t)

    def track(self, t0=None, tf=None):
        te = self.tracker()
        a = self.t0 if t0 is None else t0
        b = self.tf if tf is None else tf
        self.ctx.days += b - a
        r = self.ctx.must(te.time_tracking, a, b, W.levels_array(self.plan["levels"]), self.plan["ntimes"])
        if seams.clock.jumps:
            self.ctx.fault("clock jump", seams.clock.jumps)
            seams.clock.jumps = 0
        return r

    def count_faults(self):
        for e in self.w["eddies"]:
            self.ctx.fault("eddy hidden in a snapshot", sum(p is None for p in e["pos"][self.t0:self.tf]))
        for g in self.w.get("glitches", ()):
            self.ctx.fault("corrupted data: " + g["kind"])
        n = sum(T.is_empty(v) for v in self.cache.values())
        if n:
            self.ctx.fault("blank snapshot", n)


def heads(table):
    """First row of every eddy (where its extreme and radius are), sorted by time, id."""
    f = T.flat(table)
    f = f[f["index"] == 0]
    return f.sort_values([c for c in ("time", "identifier") if c in f], kind="stable")
