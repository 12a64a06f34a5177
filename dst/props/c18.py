"""C18: an interrupted operation leaves no trace."""
from dst import lazy, ops as O, seams, trace, world as W
from dst.core import InvalidPlan


def gen(rng, tier):
    worlds = [W.gen_world(rng, T=rng.randint(2, 3), n=rng.randint(1, 3)) for _ in range(2)]
    for w in worlds:
        if rng.random() < .45:
            w["glitches"] = [W.gen_glitch(rng, w) for _ in range(rng.choice([1, 1, 2]))]
    s = [W.gen_settings(rng) for _ in range(2)]
    for x in s:
        x["skip"] = rng.random() < .6
        if rng.random() < .4:
            x["nan"] = True
            for w in worlds:  # with something to treat
                g = [W.gen_glitch(rng, w) for _ in range(40)]
                w["glitches"] = (w.get("glitches") or []) + [o for o in g if o.get("v") == "nan" and o["kind"] != "all"][:rng.randint(1, 3)]
    ops = []
    for i in range(rng.randint(2, 5)):
        tr = rng.randrange(2)
        op = O.gen_op(rng, worlds[tr])
        op["tr"] = tr
        if i == 0 or rng.random() < .35:
            op["abort"] = {"site": rng.random(), "nth": rng.random(),
                           "exc": rng.choice(sorted(trace.EXCEPTIONS))}
        ops.append(op)
        if "abort" in op and rng.random() < .5:  # and once more
            ops.append({k: v for k, v in op.items() if k != "abort"})
            if op["op"] == "level" and rng.random() < .6:
                ops[-1]["keep"] = True  # of the data the tracker holds already
    if all("abort" in o for o in ops):
        del ops[-1]["abort"]
    return {"worlds": worlds, "settings": s, "ops": ops}


def run(plan, ctx):
    seams.clock.reset()
    datas = [W.field(w) for w in plan["worlds"]]
    outdir = ctx.workdir + "/out"

    def make(k):
        return W.tracker(W.dataset(plan["worlds"][k], datas[k]), plan["settings"][k])

    def one(op):
        return O.outcome(ctx, make(op["tr"]), op, outdir + "-fresh")
    want = [None if "abort" in op else ctx.fresh(one, dict(op, keep=False)) for op in plan["ops"]]
    trs = [make(0), make(1)]
    held = {}  # time step whose data a tracker holds
    found = 0
    aborted = []
    for n, op in enumerate(plan["ops"]):
        te = trs[op["tr"]]
        ab = op.get("abort")
        keep = held.pop(op["tr"], None)
        op = dict(op, keep=op["op"] == "level" and keep == op["t"] and (op.get("keep") or bool(ab)))
        if op["op"] == "level" and not ab:
            held[op["tr"]] = op["t"]
        if not ab:
            got = O.outcome(ctx, te, op, outdir)
            ctx.log(n, op["op"], O.dig(got))
            m = O.compare(got, want[n])
            ctx.check(m is None, "C18:after", lambda: "operation %d (%s) after the interruption(s) in %s: %s"
                      % (n, op["op"], aborted, m))
            found += O.found(got)
            ctx.days += O.days(op)
            continue

        def do():
            return O.perform(te, op, outdir)
        prof = ctx.fresh(trace.profile, do)
        if not prof:
            raise InvalidPlan("nothing to interrupt")
        f, func, line, cnt = prof[int(ab["site"] * len(prof))]
        with trace.Abort((f, func, line), int(ab["nth"] * cnt), ab["exc"]) as a:
            out = ctx.call(do)
        ctx.log(n, op["op"], "abort", func, line, ab["exc"], a.stack, out.kind())
        if op["op"] == "level" and (op["keep"] or "_detect_one_level" in a.stack):
            held[op["tr"]] = op["t"]
        if a.fired is None:
            ctx.probe("abort not reached")
            continue
        ctx.fault("abort:" + ab["exc"])
        ctx.state(func, line, ab["exc"])
        aborted.append("%s:%d" % (func, line))
        ctx.check(not out.ok, "C18:swallowed", lambda: "operation %d (%s): %s raised in %s line %d did not reach "
                  "the caller" % (n, op["op"], type(a.fired).__name__, func, line))
    ctx.nontrivial = found > 0 and bool(ctx.faults)
