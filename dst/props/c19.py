"""C19: the field generator ends, is reproducible and separates the eddies."""
import numpy as np

from dst import seams
from dst.core import InvalidPlan


def gen(rng, tier):
    nx, ny = rng.randint(10, 60), rng.randint(10, 60)
    if rng.random() < .3:
        ny = nx
    n = rng.choice([1, 1, 2, 3, 4, 6])
    lx = rng.choice([2.0, 10.0, 1.0, 50.0])
    ly = round(lx * (ny - 1) / (nx - 1), 4) if rng.random() < .6 else rng.choice([2.0, 10.0, 1.0])
    size = rng.choice([.005, .01, .02, .03, .05, .1])
    p = {"nx": nx, "ny": ny, "x0": rng.choice([0.0, -10.0, 100.0]), "y0": rng.choice([0.0, 10.0, -30.0]), "lx": lx, "ly": ly,
         "n": n, "a": round(min(lx, ly) * size, 5), "b": round(min(lx, ly) * size * rng.choice([1.0, .5, .8, 1.5]), 5),
         "opt": rng.choice(["Nint", "Nint", "no_interaction", "no_interaction", "int", "interaction", "", "other"]),
         "calls": [[rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 5, 50])] for _ in range(rng.randint(1, 3))],
         "seed": rng.randrange(1 << 30), "axis": rng.choice(["linspace", "arange", "list"]), "mode": None}
    k = rng.random()
    if k < .6:
        kind = rng.choice(["zeros", "ones", "half", "cycle", "narrow", "narrow"])
        m = {"kind": kind, "n": rng.randint(1, 7), "lo": round(rng.random() * .95, 3), "w": rng.choice([0.0, .01, .05, .2]),
             "after": rng.choice([0, 0, rng.randrange(200), 3 + 5 * n])}
        r = rng.random()
        if r < .75:
            m["until"] = m["after"] + rng.choice([1, 2, 5, 20, 100, 1000, 4000])
        p["mode"] = m
        if "until" not in m:  # stays unlucky: every attempt is used up
            p["n"] = min(n, 3)
            p["calls"] = [[1, p["calls"][0][1]]]
    return p


def make(plan):
    nx, ny = plan["nx"], plan["ny"]
    x = np.linspace(plan["x0"], plan["x0"] + plan["lx"], nx)
    y = np.linspace(plan["y0"], plan["y0"] + plan["ly"], ny)
    if plan["axis"] == "arange":
        x = plan["x0"] + np.arange(nx) * (plan["lx"] / (nx - 1))
        y = plan["y0"] + np.arange(ny) * (plan["ly"] / (ny - 1))
    if plan["axis"] == "list":
        return [float(v) for v in x], [float(v) for v in y]
    return x, y


def limit(plan):
    n, steps = plan["n"], sum(c[0] for c in plan["calls"])
    return 1000 + 100 * n + steps * n * 60000


def roomy(plan, gf, margin):
    """Whether a free place always has a good chance to be found: even on the stretched
    axes, and with all other eddies apart from each other, 30 % of the grid stay free."""
    nx, ny = plan["nx"], plan["ny"]
    r = 5 * max(gf.a, gf.b)
    dx, dy = plan["lx"] / (nx + 2 * margin - 1), plan["ly"] / (ny + 2 * margin - 1)
    hx, hy = int(r / dx) + 1, int(r / dy) + 1
    return (plan["n"] - 1) * (2 * hx + 1) * (2 * hy + 1) <= .7 * nx * ny


def generate(plan, ctx, check):
    from trackeddy.generator.field_generator import Generate_field
    seams.rand.arm(plan["seed"], plan["mode"], limit(plan))
    x, y = make(plan)
    nx, ny = plan["nx"], plan["ny"]
    gx, gy = np.array(x), np.array(y)

    def must(f, *a):
        o = ctx.call(f, *a)
        if isinstance(o.exc, seams.DrawLimit):
            ctx.check(False, "C19:bounded", "still drawing random numbers after %d draws for %d eddies and %d time steps"
                      % (limit(plan), plan["n"], sum(c[0] for c in plan["calls"])))
        ctx.check(o.ok, "C19:exception", lambda: o.describe())
        return o.value
    gf = must(Generate_field, plan["a"], plan["b"], plan["n"], x, y, plan["opt"])
    out = []
    separated = 0
    most = max(c[1] for c in plan["calls"])
    for k, (steps, margin) in enumerate(plan["calls"]):
        d0 = seams.rand.draws
        f = must(gf.assemble_field, steps, margin)
        out.append(np.array(f))
        if not check:
            continue
        ctx.check(f.shape == (steps, nx + 2 * margin, ny + 2 * margin), "C19:shape",
                  lambda: "call %d: shape %s, expected %s" % (k, f.shape, (steps, nx + 2 * margin, ny + 2 * margin)))
        ctx.check(np.isfinite(f).all(), "C19:finite", lambda: "call %d: the field is not finite" % k)
        ctx.check(len(gf.eddies) == plan["n"], "C19:number", lambda: "call %d: %d eddies, expected %d" % (k, len(gf.eddies), plan["n"]))
        m = plan["mode"]
        lucky = m is None or ("until" in m and m["until"] - max(m["after"], d0) <= 4000)
        ctx.state(plan["opt"], plan["n"], margin, m and m["kind"], min((seams.rand.draws - d0) // (3 * plan["n"]), 40))
        if plan["opt"] in ("Nint", "no_interaction"):
            locs = [e["loc"][-1] for e in gf.eddies.values()]
            for i, j in locs:
                ctx.check(0 <= i < nx and 0 <= j < ny, "C19:inside", lambda: "call %d: eddy at grid point (%s, %s) of %d x %d" % (k, i, j, nx, ny))
            if lucky and roomy(plan, gf, most):
                r = 5 * max(gf.a, gf.b)
                for p in range(len(locs)):
                    for q in range(p):
                        d = np.hypot(gx[locs[p][0]] - gx[locs[q][0]], gy[locs[p][1]] - gy[locs[q][1]])
                        ctx.check(d >= r * (1 - 1e-9), "C19:apart", lambda: "call %d: eddies %d and %d at %s and %s are %.4f apart, five radii are %.4f (a=%.4f, b=%.4f)"
                                  % (k, q, p, locs[q], locs[p], d, r, gf.a, gf.b))
                        separated += 1
        ctx.log(k, seams.rand.draws, float(np.abs(f).sum()))
    if check:
        ctx.probe("pairs of eddies apart", separated)
        ctx.probe("random numbers drawn", seams.rand.draws)
    return out


def run(plan, ctx):
    if plan["nx"] < 2 or plan["ny"] < 2 or plan["n"] < 1 or not plan["calls"]:
        raise InvalidPlan("no field to generate")
    first = generate(plan, ctx, True)
    if plan["mode"]:
        m = plan["mode"]
        ctx.fault("unlucky random stream (%s%s)" % (m["kind"], "" if "until" in m else ", for ever"))
    if seams.rand.draws < 60000:
        again = generate(plan, ctx, False)
        same = all(np.array_equal(a, b) for a, b in zip(first, again))
        ctx.check(same, "C19:reproducible", "the same random stream gave a different field")
    ctx.days += sum(c[0] for c in plan["calls"])
    ctx.nontrivial = plan["n"] > 1
