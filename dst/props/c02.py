"""C02: trackers in different threads do not disturb each other."""
from dst import ops as O, seams, trace, world as W

KINDS = ("level", "level", "level", "snap", "snap", "track")


def small_world(rng):
    g = W.gen_grid(rng, rng.choice([24, 28]))
    w = {"grid": g, "T": 2, "eddies": W.gen_eddies(rng, g, 2, rng.randint(1, 2), dropout=.05, life=False),
         "glitches": []}
    if rng.random() < .3:
        w["glitches"] = [W.gen_glitch(rng, w)]
    return w


def gen_preempt(rng, n, style=None):
    style = style or rng.choice(["fine", "mixed", "coarse", "spread"])
    out = []
    for _ in range(n):
        if style == "fine":
            q = rng.randint(0, 12)
        elif style == "coarse":
            q = rng.randint(50, 900)
        elif style == "spread":
            q = int(10 ** rng.uniform(0, 4.5))
        else:
            q = rng.choice([rng.randint(0, 5), rng.randint(5, 60), rng.randint(60, 1500)])
        out.append([q, rng.randrange(4)])
    return out


def gen(rng, tier):
    k = rng.choice([2, 2, 2, 3])
    threads = []
    settings = W.gen_settings(rng)
    settings["skip"] = rng.random() < .8
    for _ in range(k):
        w = small_world(rng)
        s = dict(settings if rng.random() < .6 else W.gen_settings(rng))
        s["skip"] = s["skip"] or rng.random() < .7
        ops = [O.gen_op(rng, w, KINDS) for _ in range(rng.randint(1, 3))]
        if rng.random() < .4 and threads:  # the same work in two threads
            w = threads[0]["world"]
            ops = threads[0]["ops"]
        threads.append({"world": w, "settings": s, "ops": ops})
    focus = rng.choice([None, None, ["decorators.py", "eddy.py"], ["trackeddy.py"],
                        ["trackeddy.py", "decorators.py", "eddy.py", "utils.py"]])
    preempt = gen_preempt(rng, rng.randint(3, 150))
    if rng.random() < .45:  # switch inside one or a few functions only
        focus = {"at": rng.random(), "n": rng.choice([1, 1, 2, 4]), "shared": rng.random() < .7}
        preempt = gen_preempt(rng, rng.randint(20, 150), rng.choice(["fine", "fine", "mixed"]))
        for t in threads:
            t["settings"] = dict(t["settings"], skip=rng.random() < .3)
    return {"threads": threads, "focus": focus, "opcodes": bool(focus) and rng.random() < .4,
            "first": rng.randrange(k), "preempt": preempt}


def functions(alone, n):
    """The (file, function) pairs the threads go through, in the order of the source, and
    those of them that reach shared state."""
    seen, shared = {}, set()
    for k in range(n):
        for f, name, line, _ in trace.profile(lambda: alone(k), shared):
            seen[f, name] = min(line, seen.get((f, name), line))
    order = sorted(seen, key=lambda k: (k[0], seen[k]))
    return order, [k for k in order if k in shared]


def run(plan, ctx):
    seams.clock.reset()
    datas = [W.field(t["world"]) for t in plan["threads"]]

    def make(k):
        t = plan["threads"][k]
        return W.tracker(W.dataset(t["world"], datas[k]), t["settings"])

    def alone(k):
        te = make(k)
        return [O.outcome(ctx, te, op) for op in plan["threads"][k]["ops"]]
    n = len(plan["threads"])
    want = [ctx.fresh(alone, k) for k in range(n)]
    trs = [make(k) for k in range(n)]
    focus = plan["focus"]
    if isinstance(focus, dict):
        funcs, shared = ctx.fresh(functions, alone, n)
        if focus["shared"] and shared:
            funcs = shared
        i = int(focus["at"] * len(funcs))
        focus = [funcs[(i + k) % len(funcs)] for k in range(focus["n"])] if funcs else None
        ctx.probe("switches in chosen functions")
    s = trace.Scheduler(plan["preempt"], focus, plan["opcodes"])

    def body(k):
        def f():
            return [O.outcome(ctx, trs[k], op) for op in plan["threads"][k]["ops"]]
        return f
    got = s.run([body(k) for k in range(n)], plan["first"])
    ctx.fault("preemption", len(s.switches))
    for sw in s.switches:
        ctx.state(sw[2], sw[3], sw[4])
    ctx.log("switches", s.total, s.switches)
    ctx.probe("scheduled steps", s.total)
    for k in range(n):
        for i, (a, b) in enumerate(zip(got[k], want[k])):
            ctx.log(k, i, O.dig(a))
            m = O.compare(a, b)
            ctx.check(m is None, "C02", lambda: "thread %d operation %d (%s): %s; last switches %s"
                      % (k, i, plan["threads"][k]["ops"][i]["op"], m, s.switches[-4:]))
            ctx.days += O.days(plan["threads"][k]["ops"][i])
    ctx.nontrivial = len(s.switches) > 1 and any(O.found(o) for r in got for o in r)
