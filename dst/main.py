"""Runs one property's check: seeded search, minimisation, replay file, evidence."""
import argparse
import hashlib
import importlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import threading
import time

from dst import build as B
from dst.core import candidates, size_of

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class HarnessError(Exception):
    pass


class Worker:
    def __init__(self, scratch, prop, wid, hashseed="0", extra_env=None):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=VERIF)
        env.update(extra_env or {})
        self.hashseed = hashseed
        self.err = open(os.path.join(scratch, "worker%s.err" % wid), "w+")
        self.p = subprocess.Popen(
            [sys.executable, "-m", "dst.zygote", scratch, prop, str(wid)], cwd=VERIF,
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, env=env,
            start_new_session=True)
        self.ready = False

    def wait_ready(self):
        if not self.ready:
            line = self.p.stdout.readline()
            if not line:
                self.err.seek(0)
                raise HarnessError("worker did not start:\n" + self.err.read()[-3000:])
            self.ready = True

    def ask(self, cmd):
        self.wait_ready()
        self.p.stdin.write(json.dumps(cmd) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise HarnessError("worker died:\n" + self.err.read()[-3000:])
        return json.loads(line)

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        self.err.close()


class Pool:
    def __init__(self, scratch, prop, n, mod):
        extra = {}
        if getattr(mod, "PRELOAD", False):
            extra["LD_PRELOAD"] = os.path.join(scratch, "filefault.so")
        if getattr(mod, "VARIANT", "plain") == "alloc":
            extra.update(LD_PRELOAD=B.libasan(), PYTHONMALLOC="malloc",
                         ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_segv=1:allocator_may_return_null=1")
        extra.update(getattr(mod, "ENV", {}))
        self.scratch, self.prop, self.mod, self.extra = scratch, prop, mod, extra
        self.workers = [Worker(scratch, prop, i, os.environ.get("DST_HASHSEED", "0"), extra)
                        for i in range(n)]
        self.free = queue.Queue()
        for w in self.workers:
            self.free.put(w)

    def map(self, cmds, stop=None):
        """Yields (cmd, result) for each command, in completion order; commands are
        taken from the iterator lazily. stop(cmd): whether to skip it."""
        it = iter(cmds)
        lock = threading.Lock()
        out = queue.Queue()
        n = len(self.workers)

        def loop(w):
            try:
                while True:
                    with lock:
                        cmd = next(it, None)
                    if cmd is None:
                        break
                    if stop and stop(cmd):
                        continue
                    out.put((cmd, w.ask(cmd)))
            except BaseException as e:
                out.put((None, e))
            out.put((None, None))
        ts = [threading.Thread(target=loop, args=(w,), daemon=True) for w in self.workers]
        for t in ts:
            t.start()
        ended = 0
        err = None
        while ended < n:
            cmd, res = out.get()
            if cmd is None:
                if isinstance(res, BaseException):
                    err = res
                else:
                    ended += 1
                continue
            yield cmd, res
        if err:
            raise HarnessError(repr(err))

    def stop(self):
        for w in self.workers:
            w.stop()


def is_violation(mod, res):
    if res["status"] == "violation":
        return True
    return res["status"] == "signal" and getattr(mod, "SIGNAL_IS_VIOLATION", True)


def shrink(pool, mod, prop, plan, cls, budget_s):
    """Greedy: takes the first simpler plan (in candidate order) that still violates
    the property in the same way, until none does."""
    spec = getattr(mod, "SHRINK", {})
    t0 = time.monotonic()
    tried = 0
    seen = set()
    best = plan
    progress = True
    while progress and time.monotonic() - t0 < budget_s:
        progress = False
        cs = []
        for c in candidates(best, spec):
            key = hashlib.md5(json.dumps(c, sort_keys=True).encode()).hexdigest()
            if key not in seen and size_of(c) <= size_of(best) + 8:
                seen.add(key)
                cs.append(c)
        i = 0
        batch = len(pool.workers) * 2
        while i < len(cs) and time.monotonic() - t0 < budget_s:
            part = cs[i:i + batch]
            i += batch
            cmds = [{"id": k, "plan": c} for k, c in enumerate(part)]
            got = {}
            for cmd, res in pool.map(cmds):
                tried += 1
                if is_violation(mod, res) and res.get("cls") == cls:
                    got[cmd["id"]] = part[cmd["id"]]
            if got:
                best = got[min(got)]
                progress = True
                break
    return best, tried


def known_findings(prop):
    """Findings recorded as open: lines 'finding: property=<id> class=<cls> ...'."""
    out = []
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                if line.startswith("finding: property=%s " % prop):
                    out.append(line.strip())
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--logs", help="write the hash of every run's event log to this file")
    ap.add_argument("--no-shrink", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    rep = None
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        a.prop = rep["property"]
    prop = a.prop.upper()
    sys.path.insert(0, VERIF)
    meta = importlib.import_module("dst.registry").META[prop]
    mod = Meta(meta)
    t0 = time.monotonic()
    scratch = None
    pool = None
    code = 2

    def bye(*_):
        if pool:
            pool.stop()
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
        os._exit(2)
    signal.signal(signal.SIGTERM, bye)
    try:
        scratch = B.build(meta.get("variant", "plain"))
        if rep:
            pool = Pool(scratch, prop, 1, mod)
            code = do_replay(pool, mod, prop, rep, a.replay)
        else:
            pool = Pool(scratch, prop, a.workers, mod)
            code = search(pool, mod, meta, prop, a, t0, scratch)
    except (HarnessError, B.BuildError) as e:
        print("ERROR property=%s %s" % (prop, e), file=sys.stderr)
        code = 2
    except KeyboardInterrupt:
        code = 2
    finally:
        if pool:
            pool.stop()
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
    return code


class Meta:
    """The part of a property module the parent needs (it never imports the code)."""

    def __init__(self, m):
        self.VARIANT = m.get("variant", "plain")
        self.PRELOAD = m.get("preload", False)
        self.ENV = m.get("env", {})
        self.SHRINK = m.get("shrink", {})
        self.SIGNAL_IS_VIOLATION = True


def do_replay(pool, mod, prop, rep, path):
    res = pool.workers[0].ask({"id": 0, "plan": rep["plan"]})
    print(json.dumps({k: res.get(k) for k in ("status", "cls", "msg", "log")}, indent=1))
    for t in res.get("tail", []):
        print("  |", t)
    if is_violation(mod, res):
        same = res.get("cls") == rep["class"] and res.get("log") == rep.get("log")
        print("replayed %s" % ("exactly" if same else "with a different outcome than recorded"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0 if res["status"] == "ok" else 2


def search(pool, mod, meta, prop, a, t0, scratch):
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    runs = a.runs or meta[tier + "_runs"]
    budget = a.budget or meta.get(tier + "_s", 75 if tier == "quick" else 780)
    for w in pool.workers:
        w.wait_ready()
    t_start = time.monotonic()
    worst = [None]
    agg = {"faults": {}, "probes": {}, "days": 0, "states": set(), "evals": 0, "n": 0,
           "nontrivial": set(), "nlog": 0, "invalid": 0}
    logs = {}
    bad = {}
    errors = []

    def cmds():
        for i in range(a.start, a.start + runs):
            if time.monotonic() - t_start > budget or errors:
                return
            yield {"id": i, "index": i, "seed": a.seed, "tier": tier, "want_plan": i < a.start + 3}

    def skip(cmd):
        return worst[0] is not None and cmd["index"] > worst[0]
    samples = []
    for cmd, res in pool.map(cmds(), skip):
        i = cmd["index"]
        agg["n"] += 1
        if res["status"] == "error":
            errors.append((i, res))
            continue
        if is_violation(mod, res):
            bad[i] = res
            worst[0] = i if worst[0] is None else min(worst[0], i)
            continue
        if res["status"] == "invalid":
            agg["invalid"] += 1
            continue
        for k in ("faults", "probes"):
            for n, v in res.get(k, {}).items():
                agg[k][n] = agg[k].get(n, 0) + v
        agg["days"] += res.get("days", 0)
        agg["evals"] += res.get("evals", 0)
        agg["nlog"] += res.get("nlog", 0)
        agg["states"].update(res.get("states", []))
        logs[i] = res.get("log")
        if res.get("nontrivial"):
            agg["nontrivial"].add(res.get("log"))
        if cmd.get("want_plan"):
            samples.append({"index": i, "plan": trim(res.get("plan")), "faults": res.get("faults")})
    wall_runs = time.monotonic() - t_start
    if a.logs:
        with open(a.logs, "w") as f:
            for i in sorted(logs):
                f.write("%d %s\n" % (i, logs[i]))
    code = 0
    viol = 0
    if bad:
        i = min(bad)
        res = bad[i]
        code, viol = 1, 1
        path = report(pool, mod, meta, prop, a, i, res)
        if path is None:
            code = 2
        elif code == 1:
            print("VIOLATION property=%s replay=%s" % (prop, path))
    elif errors:
        errors.sort(key=lambda e: e[0])
        i, res = errors[0]
        print("ERROR property=%s run %d: %s" % (prop, i, res.get("msg")), file=sys.stderr)
        for t in res.get("tail", [])[-10:]:
            print("  |", t, file=sys.stderr)
        code = 2
    if not a.no_evidence:
        evidence(prop, meta, tier, a, agg, samples, wall_runs, t0, viol, len(pool.workers))
    for f in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, f.split(" ", 2)[2]))
    print("property=%s tier=%s seed=%d runs=%d invalid=%d checks=%d distinct=%d states=%d faults=%s wall=%.1fs"
          % (prop, tier, a.seed, agg["n"], agg["invalid"], agg["evals"], len(agg["nontrivial"]),
             len(agg["states"]), json.dumps(agg["faults"], sort_keys=True), time.monotonic() - t0))
    return code


def trim(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def report(pool, mod, meta, prop, a, i, res):
    """Minimises, verifies in a fresh process, writes the replay file."""
    plan = res.get("plan")
    cls = res.get("cls")
    if plan is None:  # the run was killed by a signal: ask for its plan
        plan = pool.workers[0].ask({"id": 0, "index": i, "seed": a.seed, "tier": a.tier,
                                    "mode": "plan"})["plan"]
    best, tried = plan, 0
    if not a.no_shrink and cls != "no-progress":
        best, tried = shrink(pool, mod, prop, plan, cls, meta.get("shrink_s", 60))
    final = None
    for p in (best, plan):
        w = Worker(pool.scratch, prop, "r", os.environ.get("DST_HASHSEED", "0"), pool.extra)
        try:
            r = w.ask({"id": 0, "plan": p})
        finally:
            w.stop()
        if is_violation(mod, r) and r.get("cls") == cls:
            final = (p, r)
            break
    if final is None:
        print("ERROR property=%s run %d violated (%s) but did not replay: %s"
              % (prop, i, cls, res.get("msg")), file=sys.stderr)
        return None
    p, r = final
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s-seed%d-run%d.json" % (prop, a.seed, i))
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": a.seed, "index": i, "tier": a.tier, "class": cls,
                   "message": r.get("msg"), "log": r.get("log"), "tail": r.get("tail"),
                   "plan": p, "original_plan": plan, "shrink_runs": tried,
                   "replay_cmd": "bin/check --replay " + os.path.relpath(path, VERIF)}, f, indent=1)
    print("run %d (seed %d): %s: %s" % (i, a.seed, cls, r.get("msg")))
    print("minimised from %d to %d bytes of plan in %d runs" % (size_of(plan), size_of(p), tried))
    return path


def evidence(prop, meta, tier, a, agg, samples, wall_runs, t0, viol, workers):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    per_h = agg["n"] / wall_runs * 3600 if wall_runs else 0
    cov = {
        "evaluations": agg["evals"],
        "distinct_nontrivial": len(agg["nontrivial"]),
        "rule": meta["rule"] + " 'evaluations' counts the oracle checks of the runs; a run is "
                "counted in 'distinct_nontrivial' if it is non-trivial as said and its event "
                "log (every operation, fault and result digest) differs from all others'.",
        "samples": samples,
        "simulated_runs": agg["n"],
        "runs_per_hour": round(per_h),
        "seeds_per_hour": round(per_h),
        "workers": workers,
        "simulated_days": agg["days"],
        "events_logged": agg["nlog"],
        "faults_fired": agg["faults"],
        "probes": agg["probes"],
        "distinct_states": len(agg["states"]),
        "state_measure": meta.get("state_measure", ""),
        "real_components": meta.get("real", "the whole trackeddy package built from /repo (Python "
                                    "and the C contour tracer), numpy, scipy, pandas, xarray, sklearn"),
        "stubbed_components": meta.get("stubs", "clock, random numbers"),
    }
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": meta.get("level", "exploration"),
          "coverage": cov, "assumptions": meta.get("assumptions", []),
          "wall_s": round(time.monotonic() - t0, 2), "violations": viol}
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
