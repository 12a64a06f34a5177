"""C11: eddies are linked to the nearest live track within reach, and only then."""
import math

from dst import hist, tables as T
from dst.world import KM

TOL = 1e-6  # km


def gen(rng, tier):
    p = hist.gen(rng, T=rng.randint(3, 9), n=rng.randint(2, 7), kind=rng.choice(["crowd", "crowd", "crowd", "lanes", "calm"]),
                 skip=.9, blanks=.45)
    p["levels"] = rng.choice([[-.5, .5], [.5], [-.4, .4], [.3, .5, .7], [-.2, .2]])
    p["ntimes"] = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
    return p


def dist(a, b):
    """Great-circle distance of two (lat, lon) in km."""
    p, q = [math.radians(v) for v in a], [math.radians(v) for v in b]
    h = math.sin((q[0] - p[0]) / 2) ** 2 + math.cos(p[0]) * math.cos(q[0]) * math.sin((q[1] - p[1]) / 2) ** 2
    return 2 * KM * math.asin(min(1.0, math.sqrt(h)))


def run(plan, ctx):
    r = hist.Record(plan, ctx)
    table = r.track()
    ctx.log("track", T.digest(table), T.shape(table))
    if T.is_empty(table):
        return
    f = hist.heads(table)
    tracks = {}  # identifier -> (last time, position of the extreme)
    links = 0
    for t in range(r.t0, r.tf):
        g = f[f["time"] == t]
        eddies = [(int(a.identifier), (float(a.maxima_y), float(a.maxima_x)), float(a.radius_eddy))
                  for a in g.itertuples()]
        live = {i: v for i, v in tracks.items() if t - v[0] - 1 <= plan["ntimes"]}
        claims = {}  # track -> [(distance, eddy number)] of eddies whose nearest track it (maybe) is
        options = []
        for n, (i, pos, rad) in enumerate(eddies):
            ds = sorted((dist(pos, v[1]), k) for k, v in live.items())
            near = [k for d, k in ds if d <= ds[0][0] + TOL] if ds else []
            d0 = ds[0][0] if ds else math.inf
            options.append((d0, near, d0 < rad - TOL, d0 < rad + TOL))
        for n, (d0, near, sure, maybe) in enumerate(options):
            for k in near:
                claims.setdefault(k, []).append((d0, n, sure and len(near) == 1))
        who = {i: n for n, (i, _, _) in enumerate(eddies)}
        for n, (i, pos, rad) in enumerate(eddies):
            d0, near, sure, maybe = options[n]
            if i in tracks:
                links += 1
                ctx.check(i in live, "C11:dead", lambda: "snapshot %d: eddy at %s continues track %d, missing since "
                          "snapshot %d (ntimes=%d)" % (t, pos, i, tracks[i][0], plan["ntimes"]))
                ctx.check(i in near and maybe, "C11:far", lambda: "snapshot %d: eddy at %s (radius %.3f km) continues "
                          "track %d at distance %.3f km; nearest is track %s at %.3f km"
                          % (t, pos, rad, i, dist(pos, tracks[i][1]), near, d0))
                better = [m for d, m, s in claims.get(i, ()) if m != n and s and d < d0 - TOL]
                ctx.check(not better, "C11:rival", lambda: "snapshot %d: track %d went to the eddy at %.3f km although "
                          "another one is at %.3f km" % (t, i, d0, options[better[0]][0]))
            elif sure and len(near) == 1:
                k = near[0]
                w = who.get(k)
                ok = w is not None and options[w][0] <= d0 + TOL and k in options[w][1]
                ctx.check(ok, "C11:missed", lambda: "snapshot %d: eddy at %s (radius %.3f km) starts track %d although "
                          "live track %d (last seen in snapshot %d) is at %.3f km%s"
                          % (t, pos, rad, i, k, live[k][0], d0, "" if w is None else
                             " and went to an eddy at %.3f km" % options[w][0]))
                ctx.probe("lost the competition for a track")
            if i in live:
                gap = t - tracks[i][0] - 1
                ctx.probe("linked after %d missing" % gap)
                ctx.state("link", gap, len(live), len(eddies))
            else:
                ctx.state("new", len(live), len(eddies), bool(near))
        for i, v in tracks.items():
            if i not in live:
                ctx.probe("dead tracks seen")
        for i, pos, rad in eddies:
            tracks[i] = (t, pos)
        ctx.log(t, sorted(e[0] for e in eddies))
    r.count_faults()
    ctx.nontrivial = links > 0
