"""Operations on trackers, and comparing their outcomes."""
import hashlib
import os
import shutil

from dst import tables as T, world as W

DEFAULT_CRIT = {"ellipse_fit": 0.85, "eccentricity": 0.85, "gaussian_fit": 0.8,
                "max_area": 6.283185307179586}
LEVEL = [.5, -.5, .3, -.3, .7, .2, -.2, 2.0, .45]


def gen_op(rng, w, kinds=("level", "level", "snap", "snap", "track", "offline")):
    k = rng.choice(kinds)
    op = {"op": k}
    if k == "level":
        op.update(t=rng.randrange(w["T"]), level=rng.choice(LEVEL))
    elif k == "snap":
        op.update(t=rng.randrange(w["T"]), levels=rng.choice(W.LEVELS))
    else:
        t0 = rng.randrange(w["T"])
        op.update(t0=t0, tf=rng.randint(t0 + 1, w["T"]), levels=rng.choice(W.LEVELS[:6]),
                  ntimes=rng.randint(0, 5))
    return op


def days(op):
    return op["tf"] - op["t0"] if "t0" in op else 1


def perform(te, op, outdir=None):
    if op["op"] == "level":
        return te._detect_one_level(op["level"]) if op.get("keep") else W.detect_level(te, op["t"], op["level"])
    if op["op"] == "snap":
        return te._detect_snapshot(op["t"], W.levels_array(op["levels"]))
    if op["op"] == "track":
        return te.time_tracking(op["t0"], op["tf"], W.levels_array(op["levels"]), op["ntimes"])
    if op["op"] == "offline":
        shutil.rmtree(outdir, ignore_errors=True)
        os.makedirs(outdir)
        te.out_path = outdir
        te.out_format = op.get("format", "csv")
        te.time_tracking(op["t0"], op["tf"], W.levels_array(op["levels"]), op["ntimes"],
                         online_track=False)
        return read_dir(outdir)
    raise ValueError(op["op"])


def read_dir(d):
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n)) as f:
            out[n] = f.read()
    return out


def outcome(ctx, te, op, outdir=None):
    o = ctx.call(perform, te, op, outdir)
    return ("ok", o.value) if o.ok else (o.kind(), None)


def compare(got, want):
    """Two outcomes (kind, value) -> None or message."""
    if got[0] != want[0]:
        return "got %s, expected %s" % (got[0], want[0])
    if got[0] != "ok":
        return None
    a, b = got[1], want[1]
    if isinstance(a, tuple) and isinstance(b, tuple):
        for x, y, n in zip(a, b, ("identified", "discarded")):
            m = T.diff(x, y)
            if m:
                return "%s: %s" % (n, m)
        return None
    if isinstance(a, dict) and isinstance(b, dict):
        if a != b:
            return "stored files differ: %s / %s" % (
                {k: len(v) for k, v in a.items()}, {k: len(v) for k, v in b.items()})
        return None
    return T.diff(a, b)


def dig(out):
    if out[0] != "ok":
        return out[0]
    v = out[1]
    if isinstance(v, tuple):
        return "/".join(T.digest(x) for x in v)
    if isinstance(v, dict):
        return str({k: hashlib.md5(x.encode()).hexdigest()[:10] for k, x in v.items()})
    return T.digest(v)


def size(out):
    v = out[1]
    return T.shape(v) if out[0] == "ok" and not isinstance(v, (tuple, dict)) else out[0]


def found(out):
    """Whether an outcome contains eddies."""
    if out[0] != "ok":
        return False
    v = out[1]
    if isinstance(v, tuple):
        return not T.is_empty(v[0])
    if isinstance(v, dict):
        return bool(v)
    return not T.is_empty(v)


def reset(te):
    te.identification_criteria = dict(DEFAULT_CRIT)
    te.S_filter_setup = {"filter_type": "convolution", "mode": "uniform", "kernel": 10}
