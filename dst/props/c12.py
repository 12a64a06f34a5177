"""C12: an isolated eddy keeps one identity for its whole life."""
import math

from dst import hist, tables as T, world as W
from dst.core import InvalidPlan
from dst.props.c11 import dist


def valid(plan):
    """Whether the plan describes isolated, well resolved eddies (the statement's premise)."""
    w = plan["world"]
    g = w["grid"]
    x1, y1 = g["x0"] + g["dx"] * (g["nx"] - 1), g["y0"] + g["dy"] * (g["ny"] - 1)
    lv = [v for v in plan["levels"] if v]
    if not lv or min(lv) > -.35 or max(lv) < .35 or any(abs(v) > .55 for v in lv):
        return False
    for e in w["eddies"]:
        if abs(e["amp"]) < .78 or min(e["sx"], e["sy"]) < .199 or max(e["sx"], e["sy"]) > .33:
            return False
        if resolved(plan, e) < (.2 if plan["settings"]["skip"] else .3):
            return False
        for t, p in enumerate(e["pos"][:w["T"]]):
            if p is None:
                continue
            if min(p[0] - g["x0"], x1 - p[0], p[1] - g["y0"], y1 - p[1]) < .5:
                return False
            for f in w["eddies"]:
                q = f["pos"][t]
                if f is not e and q is not None and math.hypot(p[0] - q[0], p[1] - q[1]) < 1.05:
                    return False
    return True


def resolved(plan, e):
    """Radius of the eddy's contour at the level where it is largest, in degrees."""
    v = min([abs(v) for v in plan["levels"] if v * e["amp"] > 0] or [1e9])
    return min(e["sx"], e["sy"]) * math.sqrt(2 * math.log(abs(e["amp"]) / v)) if v < abs(e["amp"]) else 0


def gen(rng, tier):
    Tn = rng.randint(3, 12)
    g = W.gen_grid(rng, rng.choice([34, 40, 46]), lat=rng.choice([8.0, 10.0, -14.0, 20.0, 2.0, -3.0, 30.0]))
    if rng.random() < .25:  # around the points where geographic coordinates are special
        g["x0"], g["y0"] = rng.choice([-1.8, 178.3, 358.0, -181.5]), rng.choice([-1.9, -2.2, 1.0, 55.0])
    if rng.random() < .5:
        ed = W.gen_eddies(rng, g, Tn, rng.randint(1, 5), wander=.1, dropout=rng.choice([0, .2, .4, .6]), sig=(.22, .28),
                          amp=(.8, 1.3))
    else:
        ed = hist.gen_lanes(rng, g, Tn, gap=rng.choice([0, .2, .4, .6]))
    for e in ed:
        e["sx"] = max(e["sx"], .2)
        e["sy"] = max(e["sy"], .2)
        if rng.random() < .35:  # hidden for a while
            a = rng.randrange(Tn)
            for t in range(a, min(Tn, a + rng.randint(1, 7))):
                e["pos"][t] = None
    w = {"grid": g, "T": Tn, "eddies": ed, "glitches": []}
    if rng.random() < .25:
        a = rng.randrange(Tn)
        W.blank(w, range(a, a + rng.randint(1, 6)))
    s = {"filter": None, "S": None, "skip": rng.random() < .85, "nan": rng.random() < .1, "crit": {}}
    from dst import lazy
    p = {"world": w, "settings": s, "levels": rng.choice([[-.5, .5], [-.4, .4], [-.5, .5, .5], [.4, -.4, 0]]),
            "ntimes": rng.choice([0, 1, 2, 3, 5]), "t0": 0, "tf": Tn, "storage": lazy.gen_storage(rng, w, .1),
            "clock": rng.choice(hist.CLOCKS), "tcoord": False}
    for e in ed:  # make the eddies as large as the statement asks for
        while resolved(p, e) < (.2 if s["skip"] else .3):
            e["amp"] = W.r4(e["amp"] * 1.05)
    return p


def run(plan, ctx):
    if not valid(plan):
        raise InvalidPlan("not an ocean of isolated, well resolved eddies")
    r = hist.Record(plan, ctx)
    g = r.w["grid"]
    table = r.track()
    ctx.log("track", T.digest(table), T.shape(table))
    f = None if T.is_empty(table) else hist.heads(table)
    who = {}   # identifier -> true eddy
    seen = {}  # true eddy -> (time, true position, identifier)
    sightings = 0
    slack = 1.5 * g["dx"] * 111.2
    for t in range(r.t0, r.tf):
        truth = [(k, e, e["pos"][t]) for k, e in enumerate(r.w["eddies"]) if e["pos"][t] is not None]
        rows = [] if f is None else list(f[f["time"] == t].itertuples())
        ctx.check(len(rows) == len(truth), "C12:count", lambda: "snapshot %d: %d eddies detected, %d present" % (t, len(rows), len(truth)))
        for k, e, p in truth:
            near = [a for a in rows if abs(a.maxima_x - p[0]) <= 1.01 * g["dx"] and abs(a.maxima_y - p[1]) <= 1.01 * g["dy"]]
            ctx.check(len(near) == 1, "C12:place", lambda: "snapshot %d: %d eddies detected at %s" % (t, len(near), p))
            a = near[0]
            i = int(a.identifier)
            ctx.check(float(a.eddy_sign) == math.copysign(1, e["amp"]), "C12:sign", "snapshot %d: eddy at %s has sign %s" % (t, p, a.eddy_sign))
            ctx.check(abs(float(a.contour_x) - p[0]) <= g["dx"] and abs(float(a.contour_y) - p[1]) <= g["dy"], "C12:centre",
                      lambda: "snapshot %d: centre (%s, %s), true %s" % (t, a.contour_x, a.contour_y, p))
            ctx.check(who.get(i, k) == k, "C12:shared", lambda: "snapshot %d: identifier %d names eddy %d, before eddy %d" % (t, i, k, who[i]))
            if k in seen:
                t1, q, j = seen[k]
                gap = t - t1 - 1
                moved = dist((p[1], p[0]), (q[1], q[0]))
                if gap > plan["ntimes"]:
                    ctx.check(i not in who, "C12:resurrected", lambda: "snapshot %d: eddy %d, hidden for %d snapshots (ntimes=%d), "
                              "returns as %d" % (t, k, gap, plan["ntimes"], i))
                    ctx.probe("returned after too long")
                elif moved + slack < float(a.radius_eddy):
                    ctx.check(i == j, "C12:renamed", lambda: "snapshot %d: eddy %d moved %.1f km (radius %.1f km) in %d snapshots and "
                              "changed from identifier %d to %d" % (t, k, moved, float(a.radius_eddy), gap + 1, j, i))
                    ctx.probe("kept its identity, gap %d" % gap)
                    ctx.state("kept", gap, len(truth), plan["ntimes"])
            who[i] = k
            seen[k] = (t, p, i)
            sightings += 1
    r.count_faults()
    ctx.nontrivial = sightings > 1
