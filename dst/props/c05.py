"""C05: a failed read is reported and leaves nothing wrong behind."""
import os

from dst import lazy, ops as O, seams, world as W


def gen(rng, tier):
    w = W.gen_world(rng, T=rng.randint(2, 5), n=rng.randint(1, 3))
    s = W.gen_settings(rng)
    s["skip"] = rng.random() < .7
    kind = rng.choice(["dask", "dask", "lazy"])
    ops = []
    for i in range(rng.randint(2, 5)):
        op = O.gen_op(rng, w, ("level", "snap", "track", "track", "offline", "offline"))
        op["tr"] = rng.choice([0, 0, 1])
        if i == 0 or rng.random() < .4:
            op["fault"] = rng.choice([
                {"kind": "once", "at": rng.random()}, {"kind": "from", "at": rng.random()},
                {"kind": "time", "t": rng.randrange(w["T"])}])
        ops.append(op)
    if all("fault" in o for o in ops):
        del ops[-1]["fault"]
    s2 = W.gen_settings(rng)
    s2["skip"] = True
    return {"world": w, "settings": [s, s2], "ops": ops,
            "storage": {"kind": kind, "chunks": lazy.gen_chunks(rng, w), "seed": rng.randrange(1 << 30)},
            "exc": rng.choice(["os", "os", "timeout", "value", "eof"])}


class BadBlock(ValueError):
    def __init__(self, errno, msg):
        super().__init__(msg)


class Slow(TimeoutError):
    pass


class Eof(EOFError):
    pass


EXC = {"os": lazy.ReadFault, "timeout": Slow, "value": BadBlock, "eof": Eof}


def run(plan, ctx):
    seams.clock.reset()
    w = plan["world"]
    data = W.field(w)
    outdir = ctx.workdir + "/out"

    def make(k):
        ds, store = lazy.open_storage(w, plan["storage"], data)
        store.exc = EXC[plan["exc"]]
        return W.tracker(ds, plan["settings"][k]), store

    def one(op):
        te, store = make(op["tr"])
        r0 = store.reads
        return O.outcome(ctx, te, op, outdir + "-fresh"), store.reads - r0
    fresh = [ctx.fresh(one, op) for op in plan["ops"]]
    trs = [make(0), make(1)]
    found = 0
    for n, op in enumerate(plan["ops"]):
        te, store = trs[op["tr"]]
        want, nreads = fresh[n]
        f = op.get("fault")
        fired0 = store.fired
        if f:
            if f["kind"] == "once":
                store.fail = {store.reads + int(f["at"] * max(nreads, 1))}
            elif f["kind"] == "from":
                store.fail_from = store.reads + int(f["at"] * max(nreads, 1))
            else:
                store.fail_times = {f["t"]}
        before = len(store.trace)
        got = O.outcome(ctx, te, op, outdir)
        fired = store.fired - fired0
        store.heal()
        ctx.log(n, op["op"], got[0], fired, store.trace[before:], O.dig(got))
        ctx.state(op["op"], f and f["kind"], fired > 0, got[0], plan["storage"]["kind"])
        ctx.days += O.days(op)
        if not fired:
            m = O.compare(got, want)
            ctx.check(m is None, "C05:after", lambda: "operation %d (%s), no read failed: %s" % (n, op["op"], m))
            found += O.found(got)
            if not f:
                ctx.probe("operation after a failed read", int(bool(ctx.faults)))
            continue
        ctx.fault("read failure (%s)" % f["kind"], fired)
        if got[0] == "ok":
            # tolerated only if every block was read again and the result is whole
            ctx.probe("read failure recovered inside the operation")
            m = O.compare(got, want)
            ctx.check(m is None, "C05:silent", lambda: "operation %d (%s) returned although %d reads failed: %s"
                      % (n, op["op"], fired, m))
        if op["op"] == "offline" and os.path.isdir(outdir) and want[0] == "ok":
            have = O.read_dir(outdir)
            for name in sorted(have):
                if name in want[1]:
                    ctx.check(have[name] == want[1][name], "C05:stored",
                              lambda: "operation %d stored a wrong %s" % (n, name))
                else:
                    ctx.check(not name.startswith("identified_eddies_") or name.endswith(".tmp"),
                              "C05:stored", lambda: "operation %d stored %s, which has no eddies" % (n, name))
    ctx.nontrivial = found > 0 and bool(ctx.faults)
