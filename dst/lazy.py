"""Simulated storage: record blocks that are read lazily, in an order and with
failures the plan decides."""
import hashlib
import itertools

import dask
import dask.array as da
import numpy as np
import xarray as xr
from dask._task_spec import GraphNode, convert_legacy_graph
from xarray.backends import BackendArray
from xarray.core import indexing

from dst import world as W
from dst.seams import RealRandom


NAMES = itertools.count()


class ReadFault(OSError):
    """The error a simulated block read fails with."""


class Store:
    """Blocks of one record. Counts reads; fails the reads the plan names."""

    def __init__(self, data):
        self.data = data
        self.reads = 0
        self.fail = set()      # read numbers that fail once
        self.fail_from = None  # from this read on everything fails
        self.fail_times = set()  # snapshots whose blocks can't be read
        self.fired = 0
        self.trace = []
        self.exc = ReadFault

    def __deepcopy__(self, memo):
        return self  # it stands for the disk: copying an array does not copy it

    __copy__ = __deepcopy__

    def heal(self):
        self.fail, self.fail_from, self.fail_times = set(), None, set()

    def get(self, key):
        n = self.reads
        self.reads += 1
        self.trace.append(str(key))
        bad = n in self.fail or (self.fail_from is not None and n >= self.fail_from)
        if not bad and self.fail_times:
            k = key[0] if isinstance(key, tuple) else key
            if isinstance(k, slice):
                ts = range(*k.indices(self.data.shape[0]))
            elif np.ndim(k) == 0:
                ts = [int(k)]
            else:
                ts = [int(v) for v in np.ravel(k)]
            bad = any(t in self.fail_times for t in ts)
        if bad:
            self.fired += 1
            e = self.exc(5, "simulated read failure (block read %d)" % n)
            e.simulated = True
            raise e
        return np.array(self.data[key])


class DaskSource:
    """Array-like handed to dask.array.from_array."""

    def __init__(self, store):
        self.store = store
        self.shape, self.dtype, self.ndim = store.data.shape, store.data.dtype, store.data.ndim

    def __getitem__(self, key):
        return self.store.get(key)


class LazySource(BackendArray):
    """xarray's own lazy arrays, without dask."""

    def __init__(self, store):
        self.store = store
        self.shape, self.dtype = store.data.shape, store.data.dtype

    def __getitem__(self, key):
        return indexing.explicit_indexing_adapter(
            key, self.shape, indexing.IndexingSupport.BASIC, self.store.get)


def scheduler(seed, log=None):
    """A dask scheduler that executes ready tasks one at a time, in a seeded order."""
    rng = RealRandom(seed)

    def get(dsk, keys, **kw):
        if hasattr(dsk, "__dask_graph__"):
            dsk = dsk.__dask_graph__()
        graph = convert_legacy_graph(dict(dsk))
        want = list(flatten(keys))
        need, stack = set(), list(want)
        while stack:
            k = stack.pop()
            if k in need:
                continue
            need.add(k)
            stack.extend(graph[k].dependencies)
        order = sorted(need, key=signatures(graph, need))
        done = {}
        waiting = {k: set(graph[k].dependencies) for k in order}
        ready = [k for k in order if not waiting[k]]
        users = {}
        for k in order:
            for d in waiting[k]:
                users.setdefault(d, []).append(k)
        while ready:
            k = ready.pop(rng.randrange(len(ready)))
            node = graph[k]
            assert isinstance(node, GraphNode)
            done[k] = node({d: done[d] for d in node.dependencies})
            for u in users.get(k, ()):
                waiting[u].discard(k)
                if not waiting[u]:
                    ready.append(u)
        if len(done) != len(need):
            raise RuntimeError("task graph has a cycle")
        return rebuild(keys, done)
    return get


def signatures(graph, need):
    """A sort key for tasks that does not contain dask's name tokens, which may be random:
    what a task is called, its block, and the same of all tasks it depends on."""
    sig = {}
    for k in need:
        stack = [k]
        while stack:
            q = stack[-1]
            if q in sig:
                stack.pop()
                continue
            todo = [d for d in graph[q].dependencies if d not in sig]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            name, block = (q[0], q[1:]) if isinstance(q, tuple) else (q, ())
            text = repr((str(name).split("-")[0], block, sorted(sig[d] for d in graph[q].dependencies)))
            sig[q] = hashlib.md5(text.encode()).hexdigest()
    return lambda k: (sig[k], str(k))


def flatten(k):
    if isinstance(k, list):
        for x in k:
            yield from flatten(x)
    else:
        yield k


def rebuild(k, done):
    if isinstance(k, list):
        return [rebuild(x, done) for x in k]
    return done[k]


def lazy_dataset(w, data, kind, chunks=None, tcoord=False):
    """(dataset, store): the record behind simulated storage."""
    store = Store(data)
    ds = W.dataset(w, data, tcoord)
    if kind == "dask":
        arr = da.from_array(DaskSource(store), chunks=tuple(chunks), asarray=True,
                            name="sim-%d" % next(NAMES))
        ds = ds.drop_vars("ssh").assign(ssh=(("time", "lat", "lon"), arr, {"units": "m"}))
    elif kind == "lazy":
        v = xr.Variable(("time", "lat", "lon"), indexing.LazilyIndexedArray(LazySource(store)),
                        {"units": "m"})
        ds = ds.drop_vars("ssh").assign(ssh=v)
    else:
        raise ValueError(kind)
    return ds, store


def gen_chunks(rng, w):
    g = w["grid"]
    return [rng.choice([1, 2, w["T"]]),
            rng.choice([g["ny"], max(2, g["ny"] // 2), 7, 11, 13]),
            rng.choice([g["nx"], max(2, g["nx"] // 2), 7, 11, 13])]


def gen_storage(rng, w, p=.5):
    """How a run's tracker gets its data: {kind, chunks, seed}."""
    if rng.random() > p:
        return {"kind": "memory"}
    k = rng.choice(["dask", "lazy"])
    return {"kind": k, "chunks": gen_chunks(rng, w), "seed": rng.randrange(1 << 30)}


def open_storage(w, st, data=None, tcoord=False):
    """Returns (dataset, store or None) and sets the task scheduler."""
    if data is None:
        data = W.field(w)
    if not st or st["kind"] == "memory":
        return W.dataset(w, data, tcoord), None
    dask.config.set(scheduler=scheduler(st.get("seed", 0)))
    return lazy_dataset(w, data, st["kind"], st.get("chunks"), tcoord)
