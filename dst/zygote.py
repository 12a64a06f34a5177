"""A worker process: imports everything once, then forks one child per run."""
import faulthandler
import gc
import hashlib
import importlib
import json
import os
import resource
import select
import signal
import sys
import time
import traceback

real_monotonic = time.monotonic
CPU_LIMIT = 240  # seconds; runs need about one, fitting corrupted data sometimes a hundred


def main():
    scratch, prop, wid = sys.argv[1:4]
    out = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open("/dev/null", os.O_WRONLY)
    os.dup2(devnull, 1)
    core = imports(scratch)
    mod = importlib.import_module("dst.props." + prop.lower())
    timeout = getattr(mod, "RUN_TIMEOUT", 400)
    if hasattr(mod, "prepare"):
        mod.prepare(scratch)
    gc.collect()
    gc.freeze()  # the imported modules need not be looked at again in every run
    out.write(json.dumps({"ready": True}) + "\n")

    for line in sys.stdin:
        cmd = json.loads(line)
        res = one(core, mod, scratch, wid, prop, cmd, timeout)
        res["id"] = cmd["id"]
        out.write(json.dumps(res) + "\n")


def imports(scratch):
    """Imports everything a run needs, the simulator's seams first; returns dst.core."""
    import warnings
    warnings.simplefilter("ignore")
    import numpy as np  # noqa: F401
    import pandas, xarray, dask, dask.array, scipy.optimize, scipy.ndimage  # noqa: E401,F401
    import sklearn.neighbors, astropy.convolution  # noqa: E401,F401
    try:
        import netCDF4  # noqa: F401
    except ImportError:
        pass
    from dst import core, seams
    seams.install(scratch)
    sys.path.insert(0, scratch)
    import trackeddy.trackeddy
    import trackeddy.geometry, trackeddy.printfunc, trackeddy.generator.field_generator  # noqa
    pkg = os.path.realpath(os.path.dirname(trackeddy.trackeddy.__file__))
    if pkg != os.path.realpath(os.path.join(scratch, "trackeddy")):
        raise RuntimeError("wrong package under test: " + pkg)
    warnings.simplefilter("ignore")
    dask.config.set(scheduler="synchronous")
    return core


def one(core, mod, scratch, wid, prop, cmd, timeout):
    work = os.path.join(scratch, "work", "w" + wid)
    core.clean_dir(work, scratch)
    os.makedirs(work)
    r, w = os.pipe()
    t0 = real_monotonic()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.chdir(work)
            sys.stdin.close()
            lim = getattr(mod, "CPU_LIMIT", CPU_LIMIT)
            resource.setrlimit(resource.RLIMIT_CPU, (lim, lim + 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            child(core, mod, work, scratch, prop, cmd, w)
        finally:
            os._exit(71)
    os.close(w)
    buf = b""
    timed_out = False
    while True:
        left = timeout - (real_monotonic() - t0)
        if left <= 0:
            timed_out = True
            break
        if select.select([r], [], [], left)[0]:
            d = os.read(r, 1 << 16)
            if not d:
                break
            buf += d
    os.close(r)
    if timed_out:
        os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    core.clean_dir(work, scratch)
    if timed_out:
        return {"status": "error", "msg": "run did not end within %d s" % timeout}
    if buf.endswith(b"\n"):
        return json.loads(buf)
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU:
        return {"status": "violation", "cls": "no-progress", "log": "",
                "msg": "used %d s of processor time without ending" % getattr(mod, "CPU_LIMIT", CPU_LIMIT)}
    if os.WIFSIGNALED(status):
        return {"status": "signal", "msg": "killed by signal %d%s" % (os.WTERMSIG(status), sanitizer(pid)),
                "cls": "signal:%d" % os.WTERMSIG(status), "head": buf.decode("utf8", "replace")}
    return {"status": "error", "msg": "run ended without a result, status %r" % status}


def sanitizer(pid):
    """The sanitizer's summary of this run, if there is one."""
    size = os.fstat(2).st_size
    text = os.pread(2, 1 << 16, max(0, size - (1 << 16))).decode("utf8", "replace")
    i = text.rfind("==%d==ERROR" % pid)
    if i < 0:
        return ""
    lines = text[i:].splitlines()
    keep = [s.strip() for s in lines if s.startswith("SUMMARY") or "cntr.c" in s][:4]
    return ": " + lines[0].split(": ", 1)[-1][:120] + " | " + " | ".join(keep)[:600]


def child(core, mod, work, scratch, prop, cmd, w):
    ctx = core.Ctx(work, {"scratch": scratch, "mode": cmd.get("mode", "run"), "tier": cmd.get("tier", "quick")})
    res = {}
    plan = None
    try:
        try:
            plan = cmd.get("plan")
            if plan is None:
                rng = core.rng_for(cmd["seed"], prop, cmd["index"])
                plan = json.loads(json.dumps(mod.gen(rng, cmd.get("tier", "quick"))))
            if cmd.get("want_plan") or cmd.get("mode") == "plan":
                res["plan"] = plan
            ctx.log("plan", hashlib.md5(json.dumps(plan, sort_keys=True).encode()).hexdigest())
            if cmd.get("mode") != "plan":
                mod.run(plan, ctx)
            res["status"] = "ok"
        except core.Violation as v:
            res.update(status="violation", cls=v.cls, msg=v.msg[:2000])
            ctx.log("VIOLATION", v.cls)
        except core.ForkDied as e:  # an operation repeated in a process of its own
            if not os.WIFSIGNALED(e.status) or os.WTERMSIG(e.status) == signal.SIGKILL:
                res.update(status="error", msg=traceback.format_exc()[-4000:], cls="ForkDied")
            elif os.WTERMSIG(e.status) == signal.SIGXCPU:
                res.update(status="violation", cls="no-progress", msg="an operation did not end within %d s of processor time"
                           % getattr(mod, "CPU_LIMIT", CPU_LIMIT))
            else:
                n = os.WTERMSIG(e.status)
                res.update(status="violation", cls="signal:%d" % n, msg="an operation was killed by signal %d%s" % (n, sanitizer(e.pid)))
        except core.InvalidPlan as e:
            res.update(status="invalid", msg=str(e))
        except BaseException as e:
            res.update(status="error", msg=traceback.format_exc()[-4000:], cls=type(e).__name__)
    finally:
        res.update(faults=ctx.faults, probes=ctx.probes, days=ctx.days, states=sorted(ctx.states),
                   evals=ctx.evals, nontrivial=bool(ctx.nontrivial), log=ctx.h.hexdigest(),
                   nlog=ctx.nlog)
        if res["status"] != "ok":
            res["tail"] = ctx.tail[-40:]
            res["plan"] = plan
        data = (json.dumps(res) + "\n").encode()
        while data:
            data = data[os.write(w, data):]
        os._exit(0)


if __name__ == "__main__":
    if "ASAN_OPTIONS" not in os.environ:
        faulthandler.enable()
    main()
