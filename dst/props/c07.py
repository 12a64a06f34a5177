"""C07: a crash or failed write never leaves a wrong snapshot file."""
import ctypes
import errno
import os

from dst import files as F, hist, lazy, seams, trace, world as W
from dst.core import ForkDied, InvalidPlan

ERROR, SHORT, CRASH_BEFORE, CRASH_AFTER, CRASH_MID, FULL = 1, 2, 3, 4, 5, 6
KINDS = {"error": ERROR, "short write": SHORT, "crash before": CRASH_BEFORE, "crash after": CRASH_AFTER,
         "crash in a write": CRASH_MID, "disk full": FULL}
ERRNOS = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EDQUOT": errno.EDQUOT, "EMFILE": errno.EMFILE, "EACCES": errno.EACCES,
          "EROFS": errno.EROFS, "EINTR-like EIO": errno.EIO}


def gen(rng, tier):
    p = hist.gen(rng, T=rng.randint(2, 6), kind=rng.choice(["calm", "crowd", "lanes"]), skip=.95, blanks=.25, glitch=.05)
    p["storage"] = {"kind": "memory"}
    rounds = []
    for k in range(rng.randint(1, 4)):
        t0 = 0 if rng.random() < .7 else rng.randrange(p["world"]["T"])
        r = {"t0": t0, "tf": p["world"]["T"] if rng.random() < .7 else rng.randint(t0 + 1, p["world"]["T"]),
             "levels": rng.choice(W.LEVELS[:9]) if k == 0 or rng.random() < .4 else rounds[-1]["levels"],
             "fmt": rng.choice(["csv", "csv", "json"]) if k == 0 or rng.random() < .2 else rounds[-1]["fmt"], "fault": None}
        if rng.random() < .75 or k == 0:
            kind = rng.choice(["error", "error", "error", "short write", "crash before", "crash after", "crash in a write",
                               "crash in a write", "disk full", "disk full", "kill"])
            r["fault"] = {"kind": kind, "at": rng.random(), "errno": rng.choice(sorted(ERRNOS)), "bytes": rng.choice([0, 0, 1, 100, 5000, 20000, 60000]),
                          "nth": rng.random(), "same": rng.random() < .5, "op": rng.choice([None, None, "o", "w", "c", "r"])}
            if rng.random() < .3 and k:
                r["fault"] = None
        rounds.append(r)
    last = rounds[-1]
    if last["fault"]:  # and once more, undisturbed
        rounds.append(dict(last, fault=None))
    p["rounds"] = rounds
    return p


LIB = []


def lib():
    if not LIB:
        so = ctypes.CDLL(os.environ["LD_PRELOAD"])
        so.ff_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        so.ff_count.restype = ctypes.c_long
        so.ff_log.restype = ctypes.c_char_p
        LIB.append(so)
    return LIB[0]


def run(plan, ctx):
    w = plan["world"]
    data = W.field(w)
    out = ctx.subdir("out")
    prefix = (out + "/").encode()
    so = lib()
    seams.clock.reset(plan["clock"])

    def make():
        ds, _ = lazy.open_storage(w, plan["storage"], data, plan["tcoord"])
        return W.tracker(ds, plan["settings"])

    def offline(te, r, d):
        te.out_path, te.out_format = d, r["fmt"]
        te.time_tracking(r["t0"], min(r["tf"], w["T"]), W.levels_array(r["levels"]), plan["ntimes"], online_track=False)

    def undisturbed(r):
        d = ctx.subdir("ref")
        so.ff_arm((d + "/").encode(), -1, 0, 0, 0)
        ctx.must(offline, make(), r, d)
        so.ff_disarm()
        f = F.listing(d)
        for n in f:
            os.remove(os.path.join(d, n))
        return {n: v for n, v in f.items() if F.NAME.match(n)}, so.ff_log().decode(), sorted(f)
    cache = {}

    def reference(r):
        key = (r["t0"], r["tf"], tuple(r["levels"]), r["fmt"])
        if key not in cache:
            cache[key] = ctx.fresh(undisturbed, r)
        return cache[key]
    for r in plan["rounds"]:
        if r["t0"] >= min(r["tf"], w["T"]):
            raise InvalidPlan("empty window")
        reference(r)
    te = None
    wrote = 0
    for n, r in enumerate(plan["rounds"]):
        want, oplog, _ = reference(r)
        ctx.days += min(r["tf"], w["T"]) - r["t0"]
        before = {k: v for k, v in F.listing(out).items() if F.NAME.match(k)}
        f = r["fault"]
        crash = f and (f["kind"].startswith("crash") or f["kind"] == "kill")
        if te is None or not (f and f["same"]):
            te = make()
        fired, op, outcome, site = 0, "", "crash", None
        if f is None:
            o = ctx.call(offline, te, r, out)
            outcome = o.kind()
            ctx.check(o.ok, "C07:rerun", lambda: "round %d, nothing fails: %s" % (n, o.describe()))
        elif f["kind"] == "kill":
            prof = ctx.fresh(trace.profile, lambda: offline(make(), r, ctx.subdir("prof")))
            if not prof:
                raise InvalidPlan("nothing runs")
            # mostly where files are written
            near = [p for p in prof if p[1] == "store_snapshot"] if f["op"] else []
            file, func, line, cnt = (near or prof)[int(f["at"] * len(near or prof))]

            def killed():
                with trace.Abort((file, func, line), int(f["nth"] * cnt), "kill"):
                    offline(make(), r, out)
            fired, site = died(ctx, killed), "%s:%d" % (func, line)
        else:
            kind = KINDS[f["kind"]]
            ops = [i for i, c in enumerate(oplog) if (f["op"] is None or c == f["op"]) and (kind not in (SHORT, CRASH_MID) or c == "w")]
            ops = ops or list(range(len(oplog)))
            at = ops[int(f["at"] * len(ops))] if ops else 0
            arm = (prefix, at, kind, ERRNOS[f["errno"]] if kind != FULL else errno.ENOSPC, f["bytes"])
            if crash:
                def crashing():
                    so.ff_arm(*arm)
                    offline(te, r, out)
                fired, op = died(ctx, crashing), oplog[at:at + 1]
            else:
                so.ff_arm(*arm)
                o = ctx.call(offline, te, r, out)
                fired, op = so.ff_fired(), chr(so.ff_fired_op()) if so.ff_fired() else ""
                so.ff_disarm()
                outcome = o.kind()
                if fired and kind != SHORT and op in "owcrst":
                    ctx.check(not o.ok, "C07:unreported", lambda: "round %d: %s (%s) of operation %d (%s) and no exception" % (
                        n, f["kind"], f["errno"], at, NAMES.get(op, op)))
                else:
                    ctx.check(o.ok, "C07:fails", lambda: "round %d, %s: %s" % (n, f["kind"], o.describe()))
        if fired:
            ctx.fault(f["kind"] + (" (%s)" % NAMES[op] if op in NAMES else ""))
        else:
            op = ""
        have = {k: v for k, v in F.listing(out).items() if F.NAME.match(k)}
        ctx.log(n, r["fmt"], r["t0"], r["tf"], f and f["kind"], bool(fired), op, outcome, sorted((k, len(v)) for k, v in have.items()))
        ctx.state(f and f["kind"], op, site, outcome, len(before), len(have), len(want), r["fmt"])
        what = "round %d (%s)" % (n, "undisturbed" if f is None else f["kind"] + (" " + NAMES.get(op, "") if op else " " + str(site or "")))
        for k in sorted(have):
            ok = have[k] in (before.get(k), want.get(k))
            ctx.check(ok, "C07:torn", lambda: "%s: %s holds %d bytes that are neither the old (%s) nor the new table (%s)" % (
                what, k, len(have[k]), size(before, k), size(want, k)))
        for k in sorted(before):
            ctx.check(k in have, "C07:lost", lambda: "%s: %s, complete before, is gone" % (what, k))
        if f is None or not fired or (outcome == "ok" and f["kind"] == "short write"):
            for k in sorted(want):
                ctx.check(have.get(k) == want[k], "C07:incomplete", lambda: "%s: %s is %s after the run ended normally" % (
                    what, k, "missing" if k not in have else "not the new table"))
        else:
            late = [k for k in sorted(want) if have.get(k) == want[k] and before.get(k) != want[k]]
            for k in sorted(want):
                ctx.check(not late or k > late[-1] or have.get(k) == want[k], "C07:earlier", lambda: "%s: %s was completed before %s but is %s" % (
                    what, k, late[-1], "missing" if k not in have else "damaged"))
        wrote += len(want)
    ctx.nontrivial = wrote > 0 and bool(ctx.faults)


NAMES = {"o": "open", "w": "write", "c": "close", "r": "rename", "u": "unlink", "s": "sync", "t": "truncate"}


def size(d, k):
    return "%d bytes" % len(d[k]) if k in d else "none"


def died(ctx, f):
    """Runs f in a forked process that is expected to be killed; whether it was."""
    def body():
        o = ctx.call(f)
        return o.describe()
    try:
        r = ctx.fresh(body)
    except ForkDied as e:
        if e.status != 77 << 8:
            raise
        return 1
    ctx.check(r == "ok", "C07:fails", lambda: r)
    return 0
