"""Comparing eddy tables."""
import hashlib

import numpy as np
import pandas as pd

RTOL, ATOL = 1e-7, 1e-9
# compute_similarity rounds to 4 decimals: the last digit may flip
# taken over from the grid or interpolated on it, not computed by sums or fits
EXACT = {"contour_path_x", "contour_path_y", "level", "maxima", "maxima_x", "maxima_y", "eddy_sign"}
LOOSE = {"contour_ellipse_error": 1.01e-4, "contour_gaussian_error": 1.01e-4}


def is_empty(t):
    return not isinstance(t, pd.DataFrame) or t.empty


def flat(t):
    """Table with plain columns, sorted by its keys."""
    t = t.reset_index()
    keys = [k for k in ("identifier", "time", "index") if k in t.columns]
    if keys:
        t = t.sort_values(keys, kind="stable").reset_index(drop=True)
    return t


def num(col):
    return np.asarray([np.nan if v is None else float(v) for v in col])


def close(a, b, name=""):
    a, b = num(a), num(b)
    at = max(ATOL, LOOSE.get(name, 0))
    return np.isclose(a, b, rtol=0 if name in EXACT else RTOL, atol=at, equal_nan=True)


def diff(a, b, ignore=()):
    """None if the tables are equal, else a message (a: got, b: expected)."""
    ea, eb = is_empty(a), is_empty(b)
    if ea or eb:
        if ea and eb:
            return None
        return "got %s, expected %s" % (shape(a), shape(b))
    a, b = flat(a), flat(b)
    ca, cb = [c for c in a.columns if c not in ignore], [c for c in b.columns if c not in ignore]
    if set(ca) != set(cb):
        return "columns differ: got only %s, expected only %s" % (
            sorted(set(ca) - set(cb)), sorted(set(cb) - set(ca)))
    if len(a) != len(b):
        return "got %s, expected %s" % (shape(a), shape(b))
    for c in ca:
        va, vb = a[c].values, b[c].values
        if c == "reason":
            ok = np.array([str(p) == str(q) for p, q in zip(va, vb)])
        else:
            ok = close(va, vb, c)
        if not ok.all():
            k = int(np.argmin(ok))
            return "column %s row %d: got %r, expected %r" % (c, k, va[k], vb[k])
    return None


def shape(t):
    if is_empty(t):
        return "no eddies"
    f = flat(t)
    if "identifier" in f:
        return "%d rows, %d eddies" % (len(f), f.groupby([k for k in ("identifier", "time") if k in f]).ngroups)
    return "%d rows" % len(f)


def digest(t):
    if is_empty(t):
        return "empty"
    f = flat(t)
    h = hashlib.md5()
    for c in sorted(f.columns, key=str):
        h.update(str(c).encode())
        if c == "reason":
            h.update("|".join(str(v) for v in f[c]).encode())
        else:
            h.update(np.array([float("%.9g" % v) for v in num(f[c])]).tobytes())
    return h.hexdigest()[:12]


def eddies_at(t, time=None):
    """The eddies of a table (of one snapshot), each as a frame without identifier,
    sorted by contour. Returns a list of (identifier, frame)."""
    if is_empty(t):
        return []
    f = flat(t)
    if time is not None:
        f = f[f["time"] == time]
    out = []
    for i, g in f.groupby("identifier", sort=True):
        g = g.sort_values("index", kind="stable").reset_index(drop=True)
        out.append((int(i), g))
    out.sort(key=lambda p: ekey(p[1]))
    return out


def ekey(g):
    r = g.iloc[0]
    return (len(g), round(float(r["level"]), 9), round(float(r["contour_path_x"]), 6),
            round(float(r["contour_path_y"]), 6))


def diff_unlabelled(got, want, ignore=("identifier", "time")):
    """Compares two lists of (identifier, frame) ignoring the identifiers."""
    if len(got) != len(want):
        return "got %d eddies, expected %d" % (len(got), len(want))
    for (i, a), (j, b) in zip(got, want):
        m = diff(a, b, ignore=ignore)
        if m:
            return "eddy %d (expected %d): %s" % (i, j, m)
    return None


def wellformed(t, snapshot=False):
    """None, or what is wrong with the keys of a table."""
    if is_empty(t):
        return None
    names = list(t.index.names)
    want = ["identifier", "index"] if snapshot else ["identifier", "time", "index"]
    if sorted(map(str, names)) != sorted(want):
        return "index levels %s, expected %s" % (names, want)
    f = t.reset_index()
    if f.duplicated(want).any():
        return "%d duplicated keys" % int(f.duplicated(want).sum())
    ids = np.sort(f["identifier"].unique())
    if list(ids) != list(range(len(ids))):
        return "identifiers %s are not 0..%d" % (list(ids)[:20], len(ids) - 1)
    for k, g in f.groupby([c for c in want if c != "index"]):
        ix = np.sort(g["index"].values)
        if list(ix) != list(range(len(ix))):
            return "eddy %s: contour index is not 0..%d" % (k, len(ix) - 1)
    return None


def contour_closed(g):
    return len(g) > 2
