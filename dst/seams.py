"""The seams the simulator owns inside a process: clock, random numbers, locks.

install() must run after the third-party imports and before trackeddy is imported,
so that any way of importing these functions (``import time``, ``from time import
time``, ``import random as rnd``) binds the simulated ones.
"""
import _thread
import random as _random
import sys
import threading
import time as _time

RealRandom = _random.Random
real_time = _time.time
real_perf = _time.perf_counter
_RealLock = threading.Lock
_RealRLock = threading.RLock


class SimClock:
    """A clock that moves as the plan says, one reading at a time."""

    def __init__(self):
        self.reset()

    def reset(self, mode="steps", start=1.0e9, seed=0):
        self.mode, self.now, self.reads = mode, start, 0
        self.rng = RealRandom(seed)
        self.jumps = 0

    def __call__(self):
        self.reads += 1
        r = self.rng
        if self.mode == "frozen":
            pass
        elif self.mode == "steps":
            self.now += 0.125
        elif self.mode == "forward":
            self.now += r.choice([0.0, 0.125, 3600.0, 86400.0 * 400])
        elif self.mode == "back":
            self.now -= r.choice([0.0, 0.125, 3600.0, 86400.0])
        elif self.mode == "jumps":
            self.now += r.choice([-1, 1]) * r.choice([0.0, 0.125, 7200.0, 86400.0 * 365])
        elif self.mode == "zero":
            self.now = 0.0
        if self.mode not in ("steps", "frozen"):
            self.jumps += 1
        return self.now


class DrawLimit(BaseException):
    """The code under test asked for more random numbers than the run allows."""

    simulated = True


class SimRandom(RealRandom):
    """The process-wide random stream, with an unlucky mode and a draw budget."""

    def __init__(self):
        self.draws = 0
        self.limit = None
        self.mode = None
        super().__init__(0)

    def arm(self, seed, mode=None, limit=None):
        super().seed(seed)
        self.draws, self.mode, self.limit = 0, mode, limit

    def _count(self):
        self.draws += 1
        if self.limit is not None and self.draws > self.limit:
            raise DrawLimit("more than %d random numbers drawn" % self.limit)

    def _raw(self):
        self._count()
        m = self.mode
        if m and self.draws > m.get("after", 0) and self.draws <= m.get("until", 1 << 60):
            k = m["kind"]
            if k == "zeros":
                return 0.0
            if k == "ones":
                return 1.0 - 2.0 ** -53
            if k == "half":
                return 0.5
            if k == "cycle":
                return (self.draws % m["n"]) / float(m["n"])
            if k == "narrow":
                return min(m["lo"] + m["w"] * super().random(), 1.0 - 2.0 ** -53)
        return super().random()

    def random(self):
        return self._raw()

    def getrandbits(self, k):
        v = 0
        n = k
        while n > 0:
            v = (v << 32) | int(self._raw() * 4294967296.0)
            n -= 32
        return v >> (-n) if n < 0 else v

    def _randbelow(self, n):
        return min(int(self._raw() * n), n - 1)


clock = SimClock()
rand = SimRandom()
scratch_prefix = None
scheduler = None  # set while a simulated multi-threaded execution runs


class SimLock:
    """A lock that lets the simulated scheduler run another thread while it is taken."""

    def __init__(self, real):
        self._l = real()

    def acquire(self, blocking=True, timeout=-1):
        s = scheduler
        if s is None or not blocking or not s.is_mine():
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            s.blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self._l, name)


def _caller_is_sut():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == threading.__file__:
        f = f.f_back
    return f is not None and scratch_prefix and f.f_code.co_filename.startswith(scratch_prefix)


def _lock_factory(real):
    def make(*a, **k):
        if _caller_is_sut():
            return SimLock(real)
        return real(*a, **k)
    return make


_RANDOM_FUNCS = ["seed", "random", "uniform", "triangular", "randint", "choice", "randrange",
                 "sample", "shuffle", "choices", "normalvariate", "lognormvariate",
                 "expovariate", "vonmisesvariate", "gammavariate", "gauss", "betavariate",
                 "binomialvariate", "paretovariate", "weibullvariate", "getstate", "setstate",
                 "getrandbits", "randbytes"]


def install(scratch):
    global scratch_prefix
    scratch_prefix = scratch
    _time.time = clock
    _time.monotonic = clock
    _time.perf_counter = clock
    _time.sleep = lambda s: None
    for n in _RANDOM_FUNCS:
        if hasattr(rand, n):
            setattr(_random, n, getattr(rand, n))
    threading.Lock = _lock_factory(_RealLock)
    threading.RLock = _lock_factory(_RealRLock)
