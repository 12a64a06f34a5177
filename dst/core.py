"""Plans, run contexts, violations, and the generic shrinker."""
import copy
import hashlib
import json
import os
import pickle
import shutil
import sys
import traceback

from dst.seams import RealRandom


def rng_for(seed, prop, index):
    return RealRandom("%s/%s/%s" % (seed, prop, index))


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls, self.msg = cls, msg


class InvalidPlan(Exception):
    """The plan does not describe a run (happens while shrinking only)."""


class Outcome:
    """Result of a call into the code under test: a value or the exception raised."""

    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def kind(self):
        return "ok" if self.ok else type(self.exc).__name__

    def describe(self):
        if self.ok:
            return "ok"
        return "%s: %s" % (type(self.exc).__name__, str(self.exc)[:200])


def where(exc):
    """Last frame of the code under test in a traceback, for messages."""
    last = ""
    for f in traceback.extract_tb(exc.__traceback__):
        if "/trackeddy/" in f.filename:
            last = "%s:%s" % (os.path.basename(f.filename), f.name)
    return last


HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep


def innermost(exc):
    tb = exc.__traceback__
    name = ""
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return name


class Ctx:
    """What a run may use; collects the run's statistics and its event log."""

    def __init__(self, workdir, env):
        self.workdir = workdir
        self.env = env
        self.faults = {}
        self.probes = {}
        self.days = 0
        self.states = set()
        self.evals = 0
        self.h = hashlib.sha256()
        self.tail = []
        self.nlog = 0
        self.nontrivial = False
        self.native = False  # the code under test is C called directly from a check

    def log(self, *a):
        s = " ".join(str(x) for x in a)
        self.h.update(s.encode() + b"\n")
        self.nlog += 1
        self.tail.append(s[:300])
        if len(self.tail) > 60:
            del self.tail[:20]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def check(self, cond, cls, msg=""):
        self.evals += 1
        if not cond:
            raise Violation(cls, msg() if callable(msg) else msg)

    def call(self, f, *a, **k):
        """Calls the code under test; any exception it raises is an outcome."""
        try:
            return Outcome(f(*a, **k))
        except (Violation, InvalidPlan):
            raise
        except BaseException as e:  # noqa: B902 - KeyboardInterrupt is an injected fault
            if not getattr(e, "simulated", False) and not self.native and innermost(e).startswith(HERE):
                raise  # the harness is at fault, not the code under test
            return Outcome(exc=e)

    def must(self, f, *a, **k):
        o = self.call(f, *a, **k)
        if not o.ok:
            raise Violation("exception:" + o.kind(),
                            "%s (in %s)" % (o.describe(), where(o.exc)))
        return o.value

    def fresh(self, f, *a, **k):
        """Runs f in a forked copy of this process and returns its result.

        Must be called before the code under test has done anything in this process
        (or when what it did is meant to be visible)."""
        return in_fork(f, *a, **k)

    def subdir(self, name):
        d = os.path.join(self.workdir, name)
        os.makedirs(d, exist_ok=True)
        return d


class ForkDied(Exception):
    def __init__(self, status, pid):
        self.pid = pid
        super().__init__("child ended with status %r" % (status,))
        self.status = status


def in_fork(f, *a, **k):
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            os.close(r)
            try:
                data = pickle.dumps(("ok", f(*a, **k)))
            except (Violation, InvalidPlan) as e:
                data = pickle.dumps(("raise", type(e).__name__, e.args, getattr(e, "cls", ""), getattr(e, "msg", "")))
            except BaseException as e:
                data = pickle.dumps(("err", traceback.format_exc()))
            with os.fdopen(w, "wb") as o:
                o.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as i:
        data = i.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        raise ForkDied(status, pid)
    res = pickle.loads(data)
    if res[0] == "ok":
        return res[1]
    if res[0] == "raise":
        if res[1] == "Violation":
            raise Violation(res[3], res[4])
        raise InvalidPlan(*res[2])
    raise RuntimeError("in forked child:\n" + res[1])


# ---------------------------------------------------------------- shrinking

def _paths(x, pre=()):
    yield pre, x
    if isinstance(x, dict):
        for k in sorted(x):
            yield from _paths(x[k], pre + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, pre + (i,))


def _set(plan, path, value):
    p = copy.deepcopy(plan)
    q = p
    for k in path[:-1]:
        q = q[k]
    q[path[-1]] = value
    return p


def candidates(plan, spec):
    """Simpler plans. spec: {'lists': [keys whose lists may lose items],
    'ints': {key: smallest value}, 'null': [keys that may become None],
    'values': {key: [simpler values]}, 'drop': function(plan) -> more plans}."""
    if spec.get("drop"):
        yield from spec["drop"](plan)
    for path, v in _paths(plan):
        if not path:
            continue
        key = path[-1]
        if isinstance(v, list) and key in spec.get("lists", ()):
            n = len(v)
            size = n // 2
            while size >= 1:
                for i in range(0, n, size):
                    yield _set(plan, path, v[:i] + v[i + size:])
                size //= 2
        if isinstance(v, int) and not isinstance(v, bool) and key in spec.get("ints", {}):
            lo = spec["ints"][key]
            for c in sorted({lo, (v + lo) // 2, v - 1}):
                if lo <= c < v:
                    yield _set(plan, path, c)
        if v is not None and key in spec.get("null", ()):
            yield _set(plan, path, None)
        for c in spec.get("values", {}).get(key, ()):
            if c != v:
                yield _set(plan, path, c)


def size_of(plan):
    return len(json.dumps(plan))


def clean_dir(d, prefix):
    """Empties a scratch directory (only ever below the scratch prefix)."""
    d = os.path.realpath(d)
    if not d.startswith(os.path.realpath(prefix) + os.sep):
        raise RuntimeError("not a scratch directory: " + d)
    shutil.rmtree(d, ignore_errors=True)
