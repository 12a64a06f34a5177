"""The simulated ocean and how a tracker gets to see it.

A world plan is JSON:
  grid:   {nx, ny, x0, y0, dx, dy}
  T:      number of snapshots (one simulated day each)
  eddies: [{amp, sx, sy, th, pos: [[x, y] or None per snapshot]}]
  glitches: [{t, kind, i, j, h, w, v}]   corrupted stored values
Field values are multiples of 2**-20, so sums and means of them are exact and do not
depend on the order in which chunks are added up.
"""
import math
import os

import numpy as np
import xarray as xr

KM = 6371.0
Q = 2.0 ** 20


def axes(w):
    g = w["grid"]
    x = g["x0"] + g["dx"] * np.arange(g["nx"])
    y = g["y0"] + g["dy"] * np.arange(g["ny"])
    return x, y


def field(w, glitches=True):
    x, y = axes(w)
    X, Y = np.meshgrid(x, y)
    d = np.zeros((w["T"], len(y), len(x)))
    for e in w["eddies"]:
        c, s = math.cos(e.get("th", 0.0)), math.sin(e.get("th", 0.0))
        for t, p in enumerate(e["pos"][:w["T"]]):
            if p is None:
                continue
            u, v = X - p[0], Y - p[1]
            a, b = (c * u + s * v) / e["sx"], (c * v - s * u) / e["sy"]
            d[t] += e["amp"] * np.exp(-0.5 * (a * a + b * b))
    if w.get("tilt"):
        d += w["tilt"][0] * (X - x[0]) / (x[-1] - x[0]) + w["tilt"][1] * (Y - y[0]) / (y[-1] - y[0])
    if w.get("noise"):
        r = np.random.RandomState(w["noise"]["seed"])
        d += w["noise"]["amp"] * r.standard_normal(d.shape)
    d = np.round(d * Q) / Q
    if glitches:
        for g in w.get("glitches", ()):
            glitch(d, g)
    return d


VALUES = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}


def glitch(d, g):
    t, i, j = g["t"], g["i"], g["j"]
    if t >= len(d):
        return
    s = d[t, i:i + g["h"], j:j + g["w"]]
    k = g["kind"]
    v = g.get("v")
    v = VALUES.get(v, v) if isinstance(v, str) else v
    if k == "set":
        s[...] = v
    elif k == "checker":
        s[...] = (np.indices(s.shape).sum(0) % 2 * 2 - 1) * v
    elif k == "noise":
        s[...] += v * np.random.RandomState(g["seed"]).standard_normal(s.shape)
    elif k == "scale":
        s[...] = s * v
    elif k == "all":
        d[t] = v
    elif k == "scaleall":
        d[t] = d[t] * v
    elif k == "row":
        d[t, i % d.shape[1]] = v
    elif k == "col":
        d[t, :, j % d.shape[2]] = v
    elif k == "stuckrow":
        d[t, i % d.shape[1]:] = d[t, i % d.shape[1]]
    elif k == "bitflip":
        for n, b in enumerate(g["bits"]):
            q = np.array(d[t, (i + n) % d.shape[1], j % d.shape[2]])
            q.view(np.uint64)[...] ^= np.uint64(1) << np.uint64(b)
            d[t, (i + n) % d.shape[1], j % d.shape[2]] = q
    elif k == "mixed":
        r = np.random.RandomState(g["seed"])
        vs = np.array([VALUES.get(u, u) for u in v])
        s[...] = np.where(r.rand(*s.shape) < g["p"], r.choice(vs, s.shape), s)
    elif k == "core":
        for a, b, u in g["pts"]:
            if 0 <= i + a < d.shape[1] and 0 <= j + b < d.shape[2]:
                d[t, i + a, j + b] = VALUES.get(u, u)
    elif k == "shuffle":
        d[t] = np.random.RandomState(g["seed"]).permutation(d[t].ravel()).reshape(d[t].shape)
    elif k == "disc":
        ii, jj = np.indices(d[t].shape)
        d[t][np.hypot(ii - i, jj - j) <= g["h"]] = v
    else:
        raise ValueError(k)


def dataset(w, data=None, tcoord=False):
    if data is None:
        data = field(w)
    x, y = axes(w)
    coords = {"lon": x, "lat": y}
    if tcoord:
        coords["time"] = np.arange(w["T"]) * 1.0
    return xr.Dataset({"ssh": (["time", "lat", "lon"], data, {"units": "m"})},
                      coords=coords, attrs={"title": "simulated"})


# ------------------------------------------------------------- generators

def gen_grid(rng, size=None, lat=None):
    n = size or rng.choice([28, 32, 36, 40])
    m = n if rng.random() < .5 else n + rng.choice([-6, 5, 9])
    dx = .1
    y0 = lat if lat is not None else rng.choice([8.0, 10.0, -14.0, 20.0, -25.0, 2.0])
    x0 = rng.choice([10.0, 120.5, -60.0, 178.0, 200.0])
    return {"nx": m, "ny": n, "x0": x0, "y0": y0, "dx": dx, "dy": dx}


def slots(grid, rng, sep=1.6, margin=.75):
    """Well separated places for eddies, in random order."""
    lx, ly = grid["dx"] * (grid["nx"] - 1), grid["dy"] * (grid["ny"] - 1)
    nx = max(1, int((lx - 2 * margin) / sep) + 1)
    ny = max(1, int((ly - 2 * margin) / sep) + 1)
    out = []
    for i in range(nx):
        for j in range(ny):
            px = grid["x0"] + (lx - (nx - 1) * sep) / 2 + i * sep
            py = grid["y0"] + (ly - (ny - 1) * sep) / 2 + j * sep
            out.append((px, py))
    rng.shuffle(out)
    return out


def r4(v):
    return round(v, 4)


def gen_eddies(rng, grid, T, n, wander=.08, dropout=.15, life=True, amp=(.7, 1.3), sig=(.2, .28)):
    """Isolated eddies, each walking inside its own slot, sometimes hidden."""
    out = []
    for (px, py) in slots(grid, rng)[:n]:
        a = rng.choice([-1, 1]) * rng.uniform(*amp)
        s = rng.uniform(*sig)
        x, y = px + rng.uniform(-.1, .1), py + rng.uniform(-.1, .1)
        t0, t1 = 0, T
        if life and rng.random() < .3:
            t0 = rng.randrange(T)
        if life and rng.random() < .3:
            t1 = rng.randrange(t0, T) + 1
        pos = []
        for t in range(T):
            x += rng.uniform(-wander, wander)
            y += rng.uniform(-wander, wander)
            x = min(max(x, px - .18), px + .18)
            y = min(max(y, py - .18), py + .18)
            seen = t0 <= t < t1 and rng.random() >= dropout
            pos.append([r4(x), r4(y)] if seen else None)
        out.append({"amp": r4(a), "sx": r4(s), "sy": r4(s * rng.uniform(.85, 1.15)),
                    "th": r4(rng.uniform(0, 3)), "pos": pos})
    return out


def gen_crowd(rng, grid, T, n):
    """Eddies that wander over the whole domain, meet, merge, appear and vanish."""
    lx, ly = grid["dx"] * (grid["nx"] - 1), grid["dy"] * (grid["ny"] - 1)
    out = []
    for _ in range(n):
        x = grid["x0"] + rng.uniform(.4, lx - .4)
        y = grid["y0"] + rng.uniform(.4, ly - .4)
        vx, vy = rng.uniform(-.25, .25), rng.uniform(-.25, .25)
        s = rng.uniform(.13, .3)
        pos = []
        for t in range(T):
            pos.append([r4(x), r4(y)] if rng.random() > .12 else None)
            x += vx + rng.uniform(-.05, .05)
            y += vy + rng.uniform(-.05, .05)
        out.append({"amp": r4(rng.choice([-1, 1, 1]) * rng.uniform(.6, 1.4)), "sx": r4(s),
                    "sy": r4(s * rng.uniform(.8, 1.25)), "th": r4(rng.uniform(0, 3)), "pos": pos})
    return out


def blank(w, times):
    for e in w["eddies"]:
        for t in times:
            if t < len(e["pos"]):
                e["pos"][t] = None


def gen_world(rng, T=None, n=None, kind=None, size=None):
    grid = gen_grid(rng, size)
    T = T or rng.randint(3, 6)
    kind = kind or rng.choice(["calm", "calm", "crowd"])
    if kind == "calm":
        ed = gen_eddies(rng, grid, T, n or rng.randint(1, 4))
    else:
        ed = gen_crowd(rng, grid, T, n or rng.randint(2, 5))
    w = {"grid": grid, "T": T, "eddies": ed, "glitches": []}
    if rng.random() < .25:
        blank(w, [t for t in range(T) if rng.random() < .4])
    return w


LEVELS = [[-.5, .5], [-.4, .4], [.5], [-.5], [.3, .5, .7], [-.3, -.5, .3, .5], [.6, .4, .2],
          [-.2, .2], [0, .5, -.5], [-.6, -.45, -.3]]

GLITCH_KINDS = ["spike", "hole", "inf", "row", "col", "checker", "const", "huge", "noise", "all",
                "stuckrow", "scaleall", "line", "disc", "shuffle", "tiny", "near",
                "bitflip", "bitflip", "mixed", "core", "core", "core"]

MIXED = ["nan", "inf", "-inf", 1e300, -1e300, 1e200, 0.0, .5, -.5, .51, 1e-300, 5.0, -5.0, 1.7976931348623157e308]


def near(rng, w, o, off=4):
    """Moves a glitch onto an eddy."""
    g = w["grid"]
    ps = [p for e in w["eddies"] for p in [e["pos"][o["t"]]] if p]
    if ps:
        p = rng.choice(ps)
        o["i"] = max(0, int((p[1] - g["y0"]) / g["dy"]) + rng.randint(-off, max(0, off - 1)))
        o["j"] = max(0, int((p[0] - g["x0"]) / g["dx"]) + rng.randint(-off, max(0, off - 1)))
    return bool(ps)


def gen_glitch(rng, w, t=None):
    g = w["grid"]
    k = rng.choice(GLITCH_KINDS)
    o = {"t": rng.randrange(w["T"]) if t is None else t, "i": rng.randrange(g["ny"]),
         "j": rng.randrange(g["nx"]), "h": 1, "w": 1, "kind": "set", "v": 0.0}
    if k == "spike":
        o["v"] = rng.choice([3.0, -3.0, .51, 1e6, -1e6])
    elif k == "hole":
        o.update(h=rng.randint(1, 8), w=rng.randint(1, 8), v="nan")
    elif k == "inf":
        o.update(v=rng.choice(["inf", "-inf"]), h=rng.randint(1, 2), w=rng.randint(1, 2))
    elif k in ("row", "col"):
        o.update(kind=k, v=rng.choice([0.0, .5, -.5, 1.0, -1.0, "nan", 1e3]))
    elif k == "checker":
        o.update(kind=k, h=rng.randint(2, 6), w=rng.randint(2, 6), v=rng.choice([1.0, .6, 50.0]))
    elif k == "const":
        o.update(h=rng.randint(2, 9), w=rng.randint(2, 9), v=rng.choice([.5, .7, -.7, -.5, 0.0]))
    elif k == "huge":
        o.update(h=rng.randint(1, 3), w=rng.randint(1, 3),
                 v=rng.choice([1e300, -1e300, 1e38, 1e-300, 1e18]))
    elif k == "noise":
        o.update(kind=k, h=rng.randint(4, 30), w=rng.randint(4, 30), v=rng.choice([.1, .5, 1.0]),
                 seed=rng.randrange(1 << 30))
    elif k == "all":
        o.update(kind=k, v=rng.choice(["nan", 0.0, .5, 1.0, -.5, "inf"]))
    elif k == "stuckrow":
        o.update(kind=k)
    elif k == "scaleall":
        o.update(kind=k, v=rng.choice([1e10, -1.0, 1e-10, 100.0, 1e200]))
    elif k == "line":
        o.update(h=1, w=rng.randint(2, 12), v=rng.choice([.8, -.8, "nan", 5.0]))
        if rng.random() < .5:
            o["h"], o["w"] = o["w"], o["h"]
    elif k == "disc":
        o.update(kind=k, h=rng.randint(1, 9), v=rng.choice([.8, -.8, .51, "nan", 2.0]))
    elif k == "shuffle":
        o.update(kind=k, seed=rng.randrange(1 << 30))
    elif k == "bitflip":
        o.update(kind=k, bits=[rng.choice([62, 62, 61, 60, 55, 52, 51, 63, rng.randrange(64)])
                               for _ in range(rng.randint(1, 4))])
    elif k == "tiny":
        o.update(h=rng.randint(1, 4), w=rng.randint(1, 4), v=rng.choice([.5000001, .5 + 1e-12, -.5]))
    elif k == "mixed":
        o.update(kind=k, seed=rng.randrange(1 << 30), h=rng.randint(1, 8), w=rng.randint(1, 8), p=rng.choice([.1, .3, .6, 1.0]),
                 v=rng.sample(MIXED, rng.choice([1, 2, 2, 3, 5])))
        near(rng, w, o)
    elif k == "core":  # odd values at a few points inside an eddy
        o.update(kind=k, pts=[[rng.randint(-2, 2), rng.randint(-2, 2), rng.choice(MIXED)] for _ in range(rng.choice([1, 2, 2, 3, 5]))])
        near(rng, w, o, 0)
    elif k == "near":  # on top of an eddy
        if near(rng, w, o):
            o.update(h=rng.randint(1, 4), w=rng.randint(1, 4),
                     v=rng.choice(["nan", 0.0, .5, 4.0, "inf", -1.0]))
    return o


# ------------------------------------------------------------- settings

FILTERS = [{"filter_type": "meridional"}, {"filter_type": "zonal"}] + [
    {"filter_type": "convolution", "mode": "uniform", "kernel": k} for k in (10, 15, 21)]


def gen_settings(rng, filt=True):
    s = {"filter": None, "S": None, "skip": False, "nan": False, "crit": {}}
    if filt and rng.random() < .4:
        s["filter"] = "space"
        s["S"] = rng.choice([
            {"filter_type": "meridional"}, {"filter_type": "zonal"},
            {"filter_type": "convolution", "mode": "uniform", "kernel": rng.choice([10, 15, 21])}])
    if rng.random() < .2:
        s["skip"] = True
    if rng.random() < .15:
        s["nan"] = True
    if rng.random() < .3:
        s["crit"] = rng.choice([{"gaussian_fit": .5}, {"ellipse_fit": .6}, {"eccentricity": .5},
                                {"max_area": 1.0}, {"gaussian_fit": .99}])
    return s


def tracker(ds, s, **kw):
    """A tracker on ds with settings s (as a user sets them: by assignment)."""
    from trackeddy.trackeddy import TrackEddy
    te = TrackEddy(ds, "ssh", nan_treatment=s.get("nan", False), **kw)
    apply_settings(te, s)
    return te


def apply_settings(te, s):
    te.filter = s.get("filter")
    te.nan_treatment = s.get("nan", False)
    te.skip_gaussian_fit = s.get("skip", False)
    if s.get("S"):
        te.S_filter_setup = dict(s["S"])
    for k, v in (s.get("crit") or {}).items():
        te.identification_criteria[k] = v


def levels_array(ls):
    return np.array(ls, dtype=float)


def detect_level(te, t, level):
    """Detection at one level, as the library's own tests do it."""
    hold(te, t)
    return te._detect_one_level(level)


def hold(te, t):
    snap = te.rawdata.isel({te.coords["time"]: t}).squeeze()
    te._filter_data_(snap, filter=te.filter)


def write_files(w, data, d, per_file):
    """The record as one or several netCDF files; returns what to open."""
    ds = dataset(w, data, tcoord=True)
    names = []
    for k, a in enumerate(range(0, w["T"], per_file)):
        p = os.path.join(d, "rec%03d.nc" % k)
        ds.isel(time=slice(a, a + per_file)).to_netcdf(p)
        names.append(p)
    return names
