"""C01: detection does not depend on what was processed before."""
import json

from dst import lazy, ops as O, seams, tables as T, world as W
from dst.core import InvalidPlan


def gen(rng, tier):
    worlds = [W.gen_world(rng, T=rng.randint(2, 4), n=rng.randint(1, 3))
              for _ in range(rng.randint(1, 2))]
    for w in worlds:
        if rng.random() < .3:
            w["glitches"] = [W.gen_glitch(rng, w) for _ in range(rng.randint(1, 2))]
    skip = rng.random() < .5
    trackers = []
    for _ in range(rng.randint(1, 3)):
        trackers.append({"world": rng.randrange(len(worlds)), "settings": W.gen_settings(rng)})
    n = rng.randint(3, 7 if tier == "quick" else 14)
    ops = []
    for _ in range(n):
        tr = rng.randrange(len(trackers))
        done = [o for o in ops if "set" not in o]
        if rng.random() < .25:
            op = {"op": "set", "set": W.gen_settings(rng)}
            last = [o["set"] for o in ops if "set" in o and o["tr"] == tr] or [trackers[tr]["settings"]]
            if rng.random() < .5:  # change one setting only
                k = rng.choice(sorted(op["set"]))
                op["set"] = dict(last[-1], **{k: op["set"][k]})
                if k == "S":
                    op["set"].update(filter="space", S=rng.choice(W.FILTERS))
        elif done and rng.random() < .4:  # the same again, perhaps by another tracker
            op = dict(rng.choice(done))
            tr = rng.choice([tr, op["tr"], op["tr"]])
            if trackers[tr]["world"] != trackers[op["tr"]]["world"]:
                tr = op["tr"]
        else:
            op = O.gen_op(rng, worlds[trackers[tr]["world"]])
        op["tr"] = tr
        ops.append(op)
    if skip:
        for x in trackers:
            x["settings"]["skip"] = True
        for x in ops:
            if "set" in x:
                x["set"]["skip"] = True
    return {"worlds": worlds, "trackers": trackers,
            "storage": lazy.gen_storage(rng, worlds[0], .2), "ops": ops}


def run(plan, ctx):
    seams.clock.reset()
    datas = [W.field(w) for w in plan["worlds"]]
    st = plan["storage"]
    outdir = ctx.workdir + "/out"

    def make(settings, wi):
        ds, _ = lazy.open_storage(plan["worlds"][wi], st if wi == 0 else None, datas[wi])
        return W.tracker(ds, settings)

    def one(op, settings, wi):
        return O.outcome(ctx, make(settings, wi), op, outdir + "-fresh")
    want = {}
    cur = [t["settings"] for t in plan["trackers"]]
    seq = []
    for op in plan["ops"]:
        if op["tr"] >= len(cur):
            raise InvalidPlan("tracker")
        if op["op"] == "set":
            cur[op["tr"]] = op["set"]
            seq.append(None)
            continue
        wi = plan["trackers"][op["tr"]]["world"]
        key = json.dumps([{k: v for k, v in op.items() if k != "tr"}, cur[op["tr"]], wi],
                         sort_keys=True)
        if key not in want:
            want[key] = ctx.fresh(one, op, cur[op["tr"]], wi)
        seq.append(key)
    trs = [make(t["settings"], t["world"]) for t in plan["trackers"]]
    found = 0
    prev = None
    for n, (op, key) in enumerate(zip(plan["ops"], seq)):
        te = trs[op["tr"]]
        if op["op"] == "set":
            O.reset(te)
            W.apply_settings(te, op["set"])
            ctx.log("set", op["tr"])
            continue
        got = O.outcome(ctx, te, op, outdir)
        ctx.log(n, op["op"], O.dig(got))
        if got[0] == "ok" and isinstance(got[1], tuple):
            e, d = got[1]
            ctx.probe("level with eddies" if not T.is_empty(e) else
                      ("level with only discarded" if not T.is_empty(d) else "level with nothing"))
        found += O.found(got)
        m = O.compare(got, want[key])
        ctx.check(m is None, "C01:" + op["op"], lambda: "operation %d (%s): %s" % (n, op, m))
        ctx.state(op["op"], prev and prev["op"], prev and prev["tr"] == op["tr"], O.size(got))
        ctx.days += O.days(op)
        prev = op
    ctx.nontrivial = found > 0 and len([k for k in seq if k]) > 1
