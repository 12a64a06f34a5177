"""C17: an eddy seen at several levels is recorded once, by its best contour."""
import numpy as np

from dst import hist, seams, tables as T, world as W
from dst.props.c11 import dist

TOL = 1e-6


def gen(rng, tier):
    g = W.gen_grid(rng, rng.choice([28, 34]))
    k = rng.random()
    if k < .4:
        ed = W.gen_eddies(rng, g, 1, rng.randint(1, 3), dropout=0, life=False, amp=(.8, 1.6))
    else:
        ed = W.gen_crowd(rng, g, 1, rng.randint(2, 4))
        for e in ed:
            if e["pos"][0] is None:
                e["pos"][0] = [W.r4(g["x0"] + 1.2), W.r4(g["y0"] + 1.2)]
    if rng.random() < .4 and ed:  # a small eddy on the flank of a bigger one
        b = rng.choice(ed)
        if b["pos"][0]:
            ed.append(dict(b, amp=W.r4(b["amp"] * .6), sx=W.r4(b["sx"] * .6), sy=W.r4(b["sy"] * .6),
                           pos=[[W.r4(b["pos"][0][0] + rng.uniform(.25, .5)), W.r4(b["pos"][0][1] + rng.uniform(-.4, .4))]]))
    w = {"grid": g, "T": 1, "eddies": ed, "glitches": []}
    if rng.random() < .3:
        w["noise"] = {"amp": rng.choice([.01, .03, .06]), "seed": rng.randrange(1 << 30)}
    if rng.random() < .2:
        w["glitches"] = [W.gen_glitch(rng, w)]
    n = rng.randint(2, 5)
    lv = [rng.choice([.2, .3, .4, .5, .6, .7, .8]) * rng.choice([1, 1, 1, -1]) for _ in range(n)]
    if rng.random() < .3:
        lv.append(rng.choice(lv))
    if rng.random() < .5:
        lv.sort(reverse=rng.random() < .5)
    return {"world": w, "settings": {"filter": None, "S": None, "skip": rng.random() < .15, "nan": False,
                                     "crit": rng.choice([{}, {}, {"gaussian_fit": .5}])},
            "levels": lv, "zero": rng.randrange(n + 1) if rng.random() < .3 else None}


def info(f):
    r = f.iloc[0]
    return {"frame": f, "pos": (float(r["maxima_y"]), float(r["maxima_x"])), "rad": float(r["radius_eddy"]),
            "ell": float(r["contour_ellipse_error"]), "gau": float(r["contour_gaussian_error"])}


class Ambiguous(Exception):
    pass


def merge(rec, new):
    """The rule of the statement, on lists of eddies."""
    better = {}
    out = []
    for e in new:
        ds = sorted((dist(e["pos"], r["pos"]), k) for k, r in enumerate(rec))
        d, k = ds[0]
        if abs(d - e["rad"]) < TOL:
            raise Ambiguous("distance equals radius")
        if not d < e["rad"]:
            out.append(e)
            continue
        ties = [j for dd, j in ds if dd <= d + TOL]
        verdicts = {rec[j]["ell"] > e["ell"] and rec[j]["gau"] > e["gau"] for j in ties}
        if len(verdicts) > 1 or (len(ties) > 1 and True in verdicts):
            raise Ambiguous("two recorded eddies with the same extreme")
        if True in verdicts:
            better.setdefault(k, []).append((d, e))
    keep = [r for k, r in enumerate(rec) if k not in better]
    for k, es in better.items():
        es.sort(key=lambda p: p[0])
        if len(es) > 1 and es[1][0] <= es[0][0] + TOL:
            pass  # whichever replaces the recorded one, the other is added: same set
        keep.extend(e for _, e in es)
    return keep + out, len(better), sum(len(v) - 1 for v in better.values())


def run(plan, ctx):
    seams.clock.reset()
    w = plan["world"]
    data = W.field(w)

    def make():
        return W.tracker(W.dataset(w, data), plan["settings"])

    def level(x):
        return ctx.must(W.detect_level, make(), 0, x)[0]
    per = {}
    for x in plan["levels"]:
        if x not in per:
            per[x] = ctx.fresh(level, x)
    rec = []
    reps = dup = 0
    try:
        for x in plan["levels"]:
            es = [info(f) for _, f in T.eddies_at(per[x])]
            if not es:
                continue
            if not rec:
                rec = es
                continue
            n0 = len(rec) + len(es)
            rec, b, extra = merge(rec, es)
            reps += b
            dup += n0 - len(rec) - b
            ctx.probe("several better contours for one eddy", extra)
    except Ambiguous as e:
        ctx.probe("ambiguous: " + str(e))
        return
    lv = list(plan["levels"])
    if plan["zero"] is not None:
        lv.insert(min(plan["zero"], len(lv)), 0.0)
    table = ctx.must(make()._detect_snapshot, 0, W.levels_array(lv))
    want = sorted([(0, r["frame"]) for r in rec], key=lambda p: T.ekey(p[1]))
    got = T.eddies_at(table)
    ctx.log(lv, T.digest(table), len(want), reps, dup)
    m = T.diff_unlabelled(got, want)
    ctx.check(m is None, "C17", lambda: "levels %s: %s (got levels %s, expected levels %s)" % (
        lv, m, [float(f["level"].iloc[0]) for _, f in got], [float(f["level"].iloc[0]) for _, f in want]))
    ctx.probe("replaced by a better contour", reps)
    ctx.probe("dropped as already recorded", dup)
    ctx.days += 1
    ctx.state(len(lv), len(want), reps, dup)
    ctx.nontrivial = reps + dup > 0
