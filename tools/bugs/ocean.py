"""Helpers of the demonstrations: small oceans, trackers and comparisons."""
import os
import sys

sys.path.insert(0, os.getcwd())

import numpy as np
import pandas as pd
import xarray as xr

from trackeddy.trackeddy import TrackEddy


def gauss(X, Y, x, y, amp=1.0, sx=.25, sy=.25):
    return amp * np.exp(-((X - x) ** 2 / (2 * sx**2) + (Y - y) ** 2 / (2 * sy**2)))


def axes(n=40, x0=10., y0=10., size=4.):
    return x0 + np.arange(n) * size / n, y0 + np.arange(n) * size / n


def field(history, n=40, x0=10., y0=10., size=4.):
    """history: for every time step a list of (x, y[, amp[, sx[, sy]]])."""
    x, y = axes(n, x0, y0, size)
    X, Y = np.meshgrid(x, y)
    data = np.zeros((len(history), n, n))
    for t, eddies in enumerate(history):
        for e in eddies:
            data[t] += gauss(X, Y, *e)
    return data


def dataset(history, n=40, x0=10., y0=10., size=4., data=None):
    x, y = axes(n, x0, y0, size)
    data = field(history, n, x0, y0, size) if data is None else data
    return xr.Dataset({"ssh": (["time", "lat", "lon"], data)}, coords={"lon": x, "lat": y})


def tracker(ds, filter=None, skip=False, **kw):
    te = TrackEddy(ds, "ssh", **kw)
    te.filter = filter
    te.skip_gaussian_fit = skip
    return te


LEVELS = np.array([-.5, .5])


def track(te, t0=0, tf=None, levels=LEVELS, ntimes=5, online=True):
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        return te.time_tracking(t0=t0, tf=tf, lin_levels=levels, ntimes=ntimes, online_track=online)
    finally:
        sys.stdout = out


def text(t):
    """A table as text, for comparisons."""
    if not isinstance(t, pd.DataFrame):
        return repr(t)
    return "empty" if t.empty else t.to_csv(float_format="%.9g")


def names(t):
    """{(time, rounded position): identifier} of a track table."""
    if t.empty:
        return {}
    f = t.xs(0, level="index").reset_index()
    return {(int(t), round(float(x), 1), round(float(y), 1)): int(i)
            for i, t, x, y in zip(f["identifier"], f["time"], f["maxima_x"], f["maxima_y"])}


def fail(msg):
    print("property broken:", msg)
    sys.exit(1)


def check(ok, msg):
    if not ok:
        fail(msg)


def done():
    print("holds")
    sys.exit(0)
