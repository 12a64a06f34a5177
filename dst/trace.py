"""Stepping the code under test: abort injection and the thread scheduler.

Both see the code through sys.settrace line events of frames whose code lies in the
scratch copy of the package; they know nothing about particular functions.
"""
import os
import sys
import threading
import types
import _thread

import numpy as np

from dst import seams

_Lock = _thread.allocate_lock


def rel(filename):
    p = seams.scratch_prefix
    return os.path.relpath(filename, p) if p and filename.startswith(p) else None


class SimAbort(Exception):
    """An error no code expects."""


EXCEPTIONS = {
    "interrupt": lambda: KeyboardInterrupt("simulated"),
    "memory": lambda: MemoryError("simulated"),
    "runtime": lambda: RuntimeError("simulated"),
    "abort": lambda: SimAbort("simulated"),
    "exit": lambda: SystemExit(3),
}

KILL = {"kill": lambda: os._exit(77)}  # the process ends there and then


def shares(frame):
    """Whether a function reaches state that outlives its call other than through its
    arguments: variables of an enclosing function, mutable globals of its module,
    attributes of functions or of the package's classes."""
    c = frame.f_code
    if c.co_freevars:
        return True
    for n in c.co_names:
        v = frame.f_globals.get(n)
        if v is None or isinstance(v, (int, float, str, bytes, tuple, types.ModuleType, types.BuiltinFunctionType)):
            continue
        if isinstance(v, type):
            if getattr(v, "__module__", "").startswith("trackeddy") and "self" not in c.co_varnames[:1]:
                return True
        elif isinstance(v, types.FunctionType):
            if set(v.__dict__) - {"__wrapped__"}:
                return True
        elif getattr(type(v), "__module__", "") != "numpy" or isinstance(v, np.ndarray):
            return True
    return False


def profile(f, shared=None):
    """Runs f and counts the line events per (file, function, line)."""
    prefix = seams.scratch_prefix
    counts = {}

    def local(frame, event, arg):
        if event == "line":
            c = frame.f_code
            k = (c.co_filename, c.co_name, frame.f_lineno)
            counts[k] = counts.get(k, 0) + 1
            if shared is not None and counts[k] == 1 and shares(frame):
                shared.add((rel(c.co_filename), c.co_name))
        return local

    def glob(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(prefix) else None
    sys.settrace(glob)
    try:
        f()
    except BaseException:
        pass
    finally:
        sys.settrace(None)
    return sorted((rel(a), b, c, n) for (a, b, c), n in counts.items())


class Abort:
    """Raises an exception at the n-th execution of one line."""

    def __init__(self, site, nth, exc):
        self.site, self.nth, self.exc = site, nth, exc
        self.seen = 0
        self.fired = None
        self.stack = ()

    def __enter__(self):
        prefix = seams.scratch_prefix
        file, func, line = self.site
        full = os.path.join(prefix, file)

        def local(frame, event, arg):
            if event == "line" and frame.f_lineno == line and self.fired is None:
                if self.seen == self.nth:
                    st, f = [], frame
                    while f is not None:
                        if f.f_code.co_filename.startswith(prefix):
                            st.append(f.f_code.co_name)
                        f = f.f_back
                    self.stack = tuple(reversed(st))
                    self.fired = (EXCEPTIONS.get(self.exc) or KILL[self.exc])()
                    self.fired.simulated = True
                    sys.settrace(None)
                    raise self.fired
                self.seen += 1
            return local

        def glob(frame, event, arg):
            c = frame.f_code
            return local if c.co_name == func and c.co_filename == full else None
        sys.settrace(glob)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class Deadlock(Exception):
    simulated = True


class Scheduler:
    """Runs thread bodies one at a time; a plan says where to switch.

    preempt: list of [steps, choice]: after that many steps of the running thread,
    control goes to the choice-th other runnable thread. A step is a line of the
    package (in the files, or [file, function] pairs, of `focus`, if given). When the list is used up a thread
    runs until it ends.
    """

    def __init__(self, preempt, focus=None, opcodes=False, max_steps=4000000):
        self.preempt = [list(p) for p in preempt]
        self.focus = {tuple(f) if isinstance(f, list) else f for f in focus or ()}
        self.opcodes = opcodes
        self.max_steps = max_steps
        self.total = 0
        self.pos = 0
        self.left = self.preempt[0][0] if self.preempt else -1
        self.switches = []
        self.gates = []
        self.alive = []
        self.waiting = set()
        self.ids = {}
        self.current = None
        self.stalls = 0
        self.main_gate = _Lock()
        self.main_gate.acquire()
        self.hot = {}

    # -- called in simulated threads
    def is_mine(self):
        return _thread.get_ident() in self.ids

    def me(self):
        return self.ids[_thread.get_ident()]

    def _give(self, k):
        me = self.me()
        self.current = k
        self.gates[k].release()
        self.gates[me].acquire()

    def others(self):
        me = self.me()
        return [i for i in range(len(self.gates)) if i != me and self.alive[i]]

    def blocked(self):
        o = self.others()
        self.stalls += 1
        if not o or self.stalls > 100000:
            raise Deadlock("every thread waits for a lock")
        me = self.me()
        self._give(o[(o.index(min([i for i in o if i > me], default=o[0])))])

    def step(self, frame):
        self.total += 1
        self.stalls = 0
        if self.total > self.max_steps:
            raise Deadlock("no progress within %d steps" % self.max_steps)
        if self.left < 0:
            return
        if self.left > 0:
            self.left -= 1
            return
        choice = self.preempt[self.pos][1]
        self.pos += 1
        self.left = self.preempt[self.pos][0] if self.pos < len(self.preempt) else -1
        o = self.others()
        if not o:
            return
        k = o[choice % len(o)]
        self.switches.append((self.me(), k, os.path.basename(frame.f_code.co_filename),
                              frame.f_code.co_name, frame.f_lineno))
        self._give(k)

    def _glob(self, frame, event, arg):
        c = frame.f_code
        if not c.co_filename.startswith(seams.scratch_prefix):
            return None
        n = self.hot.get(c, 0) + 1
        self.hot[c] = n
        if n > 300 and not self.focus:
            return None  # called all the time (inner numerical loops): not stepped into
        if self.focus and os.path.basename(c.co_filename) not in self.focus and (
                rel(c.co_filename), c.co_name) not in self.focus:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.step(frame)
        return self._local

    def _body(self, k, f, out):
        self.ids[_thread.get_ident()] = k
        self.gates[k].acquire()
        sys.settrace(self._glob)
        try:
            out[k] = f()
        except BaseException as e:  # harness error inside the body
            out[k] = e
        finally:
            sys.settrace(None)
            self.alive[k] = False
            rest = [i for i in range(len(self.gates)) if self.alive[i]]
            if rest:
                self.current = rest[0]
                self.gates[rest[0]].release()
            else:
                self.main_gate.release()

    def run(self, bodies, first=0):
        out = [None] * len(bodies)
        for _ in bodies:
            g = _Lock()
            g.acquire()
            self.gates.append(g)
            self.alive.append(True)
        ts = [threading.Thread(target=self._body, args=(k, f, out)) for k, f in enumerate(bodies)]
        seams.scheduler = self
        try:
            for t in ts:
                t.start()
            first %= len(bodies)
            self.current = first
            self.gates[first].release()
            self.main_gate.acquire()
            for t in ts:
                t.join()
        finally:
            seams.scheduler = None
        for v in out:
            if isinstance(v, BaseException):
                raise v
        return out
