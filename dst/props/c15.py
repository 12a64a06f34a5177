"""C15: a local glitch does not change eddies elsewhere."""
import math

from dst import hist, tables as T, world as W
from dst.core import InvalidPlan

KINDS = ["set", "checker", "noise", "bitflip", "disc", "scale"]


def gen(rng, tier):
    g = W.gen_grid(rng, rng.choice([46, 52]), lat=rng.choice([8.0, 10.0, -14.0, 2.0, -3.0, 20.0]))
    g["nx"] = g["ny"]
    lx = g["dx"] * (g["nx"] - 1)
    # the eddy sits in one quarter; the glitches in cells at least 1.7 degrees away
    fx, fy = rng.choice([.25, .5, .75]), rng.choice([.25, .5, .75])
    p = [W.r4(g["x0"] + lx * fx + rng.uniform(-.1, .1)), W.r4(g["y0"] + lx * fy + rng.uniform(-.1, .1))]
    s = rng.uniform(.2, .28)
    e = {"amp": W.r4(rng.choice([-1, 1]) * rng.uniform(.75, 1.3)), "sx": W.r4(s), "sy": W.r4(s * rng.uniform(.85, 1.15)),
         "th": W.r4(rng.uniform(0, 3)), "pos": [p]}
    w = {"grid": g, "T": 1, "eddies": [e], "glitches": []}
    for _ in range(rng.randint(1, 4)):
        for _try in range(60):
            h, wd = rng.randint(1, 6), rng.randint(1, 6)
            i, j = rng.randrange(g["ny"] - h), rng.randrange(g["nx"] - wd)
            if rng.random() < .3:
                i = rng.choice([0, g["ny"] - h])  # on the border
            cx, cy = g["x0"] + (j + wd / 2) * g["dx"], g["y0"] + (i + h / 2) * g["dy"]
            if math.hypot(cx - p[0], cy - p[1]) >= 1.75:
                break
        else:
            continue
        k = rng.choice(KINDS)
        o = {"t": 0, "kind": k, "i": i, "j": j, "h": h, "w": wd, "seed": rng.randrange(1 << 30),
             "v": rng.choice([1.0, -1.0, .7, 3.0, 1e6, "nan", "inf", "-inf", 1e300, .51, -50.0, 0.0])}
        if k in ("checker", "noise", "scale"):
            o["v"] = rng.choice([.6, 1.0, 50.0])
        if k == "disc":
            o["i"], o["j"], o["h"] = i + h // 2, j + wd // 2, rng.randint(1, 3)
        if k == "bitflip":
            o["bits"] = [rng.choice([62, 61, 60, 52, 51, 63, rng.randrange(64)]) for _ in range(rng.randint(1, 5))]
        w["glitches"].append(o)
    lv = rng.choice([[-.5, .5], [-.4, .4], [.3, .5, -.3, -.5], [-.2, .2], [-.6, -.4, .4, .6]])
    return {"world": w, "settings": {"filter": None, "S": None, "skip": rng.random() < .4, "nan": rng.random() < .15, "crit": {}},
            "levels": lv, "ntimes": 5, "t0": 0, "tf": 1, "storage": {"kind": "memory"}, "clock": "steps", "tcoord": False}


def near(table, p, g):
    return [f for _, f in T.eddies_at(table)
            if abs(float(f["maxima_x"].iloc[0]) - p[0]) <= 4 * g["dx"] and abs(float(f["maxima_y"].iloc[0]) - p[1]) <= 4 * g["dy"]]


def valid(plan):
    """Whether every glitch is well away from the eddy, and the eddy inside the domain."""
    g = plan["world"]["grid"]
    p = plan["world"]["eddies"][0]["pos"][0]
    if p is None or min(p[0] - g["x0"], g["x0"] + g["dx"] * (g["nx"] - 1) - p[0],
                        p[1] - g["y0"], g["y0"] + g["dy"] * (g["ny"] - 1) - p[1]) < .75:
        return False
    for o in plan["world"]["glitches"]:
        h, wd = (0, 0) if o["kind"] == "disc" else (o["h"], o["w"])
        if math.hypot(g["x0"] + (o["j"] + wd / 2) * g["dx"] - p[0], g["y0"] + (o["i"] + h / 2) * g["dy"] - p[1]) < 1.6:
            return False
    return True


def run(plan, ctx):
    if not plan["world"]["eddies"] or not valid(plan):
        raise InvalidPlan("the glitch is not away from the eddy")
    clean = hist.Record(plan, ctx, glitches=False)
    dirty = hist.Record(plan, ctx)
    e = plan["world"]["eddies"][0]
    g = plan["world"]["grid"]
    want = near(clean.detect(0), e["pos"][0], g)
    table = dirty.detect(0)
    got = near(table, e["pos"][0], g)
    ctx.log(T.digest(clean.detect(0)), T.digest(table))
    ctx.check(len(got) == len(want), "C15:count", lambda: "the eddy is detected %d times with the glitch elsewhere, %d times without" % (len(got), len(want)))
    for a, b in zip(got, want):
        m = T.diff(a, b, ignore=("identifier", "time"))
        ctx.check(m is None, "C15:changed", lambda: "with a glitch elsewhere: " + m)
    ctx.days += 1
    dirty.count_faults()
    others = len(T.eddies_at(table)) - len(got)
    ctx.probe("glitch detected as an eddy", others)
    ctx.state(len(got), others, [x["kind"] + str(x.get("v"))[:5] for x in plan["world"]["glitches"]])
    ctx.nontrivial = len(want) == 1 and bool(plan["world"]["glitches"])
