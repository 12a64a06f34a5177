"""Snapshot files as a user finds and reads them."""
import json
import os
import re

import numpy as np
import pandas as pd

from dst import tables as T

NAME = re.compile(r"^identified_eddies_(\d+)\.(csv|json)$")


def name(t, fmt):
    return "identified_eddies_%05d.%s" % (t, fmt)


def read(path):
    """The stored table with plain columns."""
    if path.endswith(".csv"):
        f = pd.read_csv(path, float_precision="round_trip")
        return f[[c for c in f.columns if not str(c).startswith("Unnamed")]]
    with open(path) as f:
        d = json.load(f)
    cols = {c: pd.Series(v, dtype=float) for c, v in d.items()}
    f = pd.DataFrame(cols)
    keys = [re.findall(r"-?\d+", str(k)) for k in f.index]
    for i, c in enumerate(("identifier", "time", "index")):
        f[c] = [int(k[i]) for k in keys]
    return f.reset_index(drop=True)


def expected(table, t):
    """The snapshot's table as it should be stored, with plain columns; None if blank."""
    if T.is_empty(table):
        return None
    f = table.reset_index()
    f["time"] = t
    return f


def differ(got, want, fmt):
    """None if the stored table equals the expected one, else a message."""
    cg, cw = set(map(str, got.columns)), set(map(str, want.columns))
    if cg != cw:
        return "columns: stored only %s, missing %s" % (sorted(cg - cw), sorted(cw - cg))
    if len(got) != len(want):
        return "%d rows stored, expected %d" % (len(got), len(want))
    keys = ["identifier", "time", "index"]
    a = got.sort_values(keys, kind="stable").reset_index(drop=True)
    b = want.sort_values(keys, kind="stable").reset_index(drop=True)
    for c in b.columns:
        p, q = T.num(a[c]), T.num(b[c])
        if fmt == "json":  # has no infinity, it becomes null
            p, q = (np.where(np.isinf(v), np.nan, v) if v.dtype.kind == "f" else v for v in (p, q))
        # json keeps 10 decimals of each value
        at = max(T.ATOL, T.LOOSE.get(c, 0), 1.01e-10 if fmt == "json" else 0)
        ok = np.isclose(p, q, rtol=T.RTOL, atol=at, equal_nan=True)
        if not ok.all():
            k = int(np.argmin(ok))
            return "column %s, row %d: stored %r, expected %r" % (c, k, p[k], q[k])
    return None


def listing(d):
    """Every file below a directory: {relative name: bytes}."""
    out = {}
    for base, _, names in os.walk(d):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out
