"""Histories of contour objects, for C21 and C22."""
import array
import ctypes
import gc
import sys

import numpy as np

SEAM = {}


def seam():
    """The allocation seam inside the contour extension."""
    if "lib" not in SEAM:
        from trackeddy import _cntr
        lib = ctypes.CDLL(_cntr.__file__)
        for n in ("seam_count", "seam_fired", "seam_live", "seam_bad"):
            getattr(lib, n).restype = ctypes.c_long
        lib.seam_log.restype = ctypes.c_char_p
        lib.seam_arm.argtypes = [ctypes.c_long, ctypes.c_long]
        SEAM["lib"] = lib
    return SEAM["lib"]


# ------------------------------------------------------------------ fields

def gen_field(rng):
    ny, nx = rng.randint(2, 16), rng.randint(2, 16)
    if rng.random() < .08:
        ny, nx = rng.choice([(1, nx), (ny, 1), (1, 1)])
    if rng.random() < .15:
        ny, nx = rng.randint(16, 34), rng.randint(16, 34)
    f = {"ny": ny, "nx": nx, "kind": rng.choice(["noise", "noise", "eddies", "checker", "steps", "ramp", "const"]),
         "seed": rng.randrange(1 << 30), "curved": rng.random() < .2, "order": rng.choice(["C", "C", "F", "slice", "float32", "int"]),
         "mask": None, "nan": 0}
    if rng.random() < .3:
        f["mask"] = {"seed": rng.randrange(1 << 30), "p": rng.choice([.05, .2, .6, 1.0]), "dtype": rng.choice(["bool", "int8"])}
    if rng.random() < .2:
        f["nan"] = rng.randint(1, 5)
    return f


LEVELS = [0.0, .5, -.5, .25, 1.0, -1.0, .1, -.3, 3.0]


ODD = ["nan", "inf", "-inf", 1e300, -1e300, 1e-300]


def make(f):
    """(x, y, z, mask) of a field plan."""
    r = np.random.RandomState(f["seed"])
    ny, nx = f["ny"], f["nx"]
    x, y = np.meshgrid(np.arange(nx) * 1.0, np.arange(ny) * 1.0)
    k = f["kind"]
    if k == "noise":
        z = r.standard_normal((ny, nx))
    elif k == "eddies":
        z = np.zeros((ny, nx))
        for _ in range(4):
            z += r.choice([-1, 1]) * 1.2 * np.exp(-((x - nx * r.rand()) ** 2 + (y - ny * r.rand()) ** 2) / (1 + 4 * r.rand()))
    elif k == "checker":
        z = (np.indices((ny, nx)).sum(0) % 2) * 2.0 - 1.0
        z *= r.choice([1.0, .5], (ny, nx))
    elif k == "steps":
        z = r.choice([-1.0, 0.0, .5, 1.0], (ny, nx))
    elif k == "ramp":
        z = x * .25 - y * .125
    else:
        z = np.full((ny, nx), .5)
    if f["curved"]:
        x, y = x + .2 * np.sin(y), y + .2 * np.cos(x)
    for _ in range(f["nan"]):
        z[r.randint(ny), r.randint(nx)] = np.nan
    m = None
    if f["mask"]:
        m = (np.random.RandomState(f["mask"]["seed"]).rand(ny, nx) < f["mask"]["p"]).astype(f["mask"]["dtype"])
    o = f["order"]
    if o == "F":
        x, y, z = (np.asfortranarray(v) for v in (x, y, z))
    elif o == "slice":
        big = np.zeros((2 * ny, 2 * nx))
        big[::2, ::2] = z
        z = big[::2, ::2]
    elif o == "float32":
        z = z.astype("float32")
    elif o == "int":
        z = np.where(np.isfinite(z), z * 3, 0).astype(int)
    return x, y, z, m


def new(f, arrays=None):
    from trackeddy import _cntr
    x, y, z, m = arrays or make(f)
    return _cntr.Cntr(x, y, z) if m is None else _cntr.Cntr(x, y, z, m)


def trace(c, op):
    a = [float(op["l0"])]
    k = {}
    if op.get("l1") is not None:
        a.append(float(op["l1"]))
    if op.get("chunk") is not None:
        k["nchunk"] = op["chunk"]
    return freeze(c.trace(*a, **k))


def freeze(res):
    """A copy of a trace's result that compares exactly."""
    out = []
    for v in res:
        v = np.asarray(v)
        out.append((v.dtype.str, v.shape, v.tobytes()))
    return out


def gen_trace(rng, o):
    op = {"op": "trace", "o": o, "l0": rng.choice(LEVELS)}
    if rng.random() < .35:
        op["l1"] = W4(op["l0"] + rng.choice([.25, .5, 1.0, 2.0]))
    if rng.random() < .06:
        op[rng.choice(["l0", "l1"])] = rng.choice(ODD)
    if rng.random() < .5:
        op["chunk"] = rng.choice([0, 1, 2, 3, 5, 9, 30, 1000, -1, 10 ** 9, 1 << 62])
    return op


def W4(v):
    return round(v, 4)


def differ(a, b):
    if a == b:
        return None
    if len(a) != len(b):
        return "%d arrays, expected %d" % (len(a), len(b))
    for n, (p, q) in enumerate(zip(a, b)):
        if p != q:
            return "array %d differs: %s %s, expected %s %s" % (n, p[0], p[1], q[0], q[1])


def growth(once, reps=16):
    """Bytes of memory every repetition of once() leaves behind: the median over the later
    repetitions, since caches and free lists fill up now and then. None if once() returns
    False (it has nothing to repeat)."""
    lib = ctypes.CDLL(None)
    try:
        used = lib.__sanitizer_get_current_allocated_bytes
    except AttributeError:
        return 0
    used.restype = ctypes.c_size_t
    at = array.array("q", [0] * reps)
    for rep in range(reps):
        if once() is False:
            return None
        gc.collect()
        at[rep] = used()
    diffs = sorted(at[r + 1] - at[r] for r in range(reps // 3, reps - 1))
    return diffs[len(diffs) // 2]
