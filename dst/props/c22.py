"""C22: a contour object can be reused in any order."""
import gc

import numpy as np

from dst import contours as C

CPU_LIMIT = 60  # seconds; a run needs less than one


def gen(rng, tier):
    fields = [C.gen_field(rng) for _ in range(rng.randint(1, 3))]
    n = rng.randint(1, 4)
    objs = [rng.randrange(len(fields)) for _ in range(n)]
    ops = []
    for _ in range(rng.randint(6, 16)):
        k = rng.random()
        o = rng.randrange(n)
        if k < .8:
            ops.append(C.gen_trace(rng, o))
            if rng.random() < .2:
                ops.append(dict(ops[-1]))  # repeat it
        elif k < .9:
            ops.append({"op": "renew", "o": o})
        else:
            ops.append({"op": rng.choice(["scribble", "gc", "cdata"]), "o": o})
    return {"fields": fields, "objects": objs, "ops": ops, "keep": rng.random() < .5,
            "fill": rng.choice([0, 255, 203, 1, 127])}


def alone(f, op, fill):
    C.seam().seam_set_fill(fill)
    return C.trace(C.new(f), op)


def run(plan, ctx):
    ctx.native = True
    s = C.seam()
    s.seam_set_fill(plan["fill"])
    fields, ops = plan["fields"], plan["ops"]
    want = {}

    def expected(fi, op):
        key = (fi, op["l0"], op.get("l1"), op.get("chunk"))
        if key not in want:
            # garbage in fresh memory must not matter either
            want[key] = ctx.fresh(alone, fields[fi], op, plan["fill"] ^ 0x5a)
        return want[key]
    for op in ops:
        if op["op"] == "trace":
            expected(plan["objects"][op["o"]], op)
    kept = []
    objs = []

    def make(fi):
        a = C.make(fields[fi])
        if plan["keep"]:
            kept.append(a)
        return ctx.must(C.new, fields[fi], a)
    objs = [make(fi) for fi in plan["objects"]]
    last, results = [None] * len(objs), []
    junk = []
    for n, op in enumerate(ops):
        o = op["o"]
        if op["op"] == "renew":
            objs[o] = None
            objs[o] = make(plan["objects"][o])
            last[o] = None
        elif op["op"] == "scribble":
            junk = [np.full(k * 7 + 3, 1e9) for k in range(200)]
        elif op["op"] == "gc":
            junk = []
            gc.collect()
        elif op["op"] == "cdata":
            pass
        else:
            got = ctx.must(C.trace, objs[o], op)
            m = C.differ(got, expected(plan["objects"][o], op))
            ctx.check(m is None, "C22:reuse", lambda: "trace %d (object %d, level %s%s, chunk %s) after %s: %s" % (
                n, o, op["l0"], "" if op.get("l1") is None else "..%s" % op["l1"], op.get("chunk"), last[o], m))
            ctx.state(last[o] and [last[o][k] for k in sorted(last[o]) if k not in ("o", "op")],
                      [op[k] for k in sorted(op) if k not in ("o", "op")], len(got) > 0)
            ctx.probe("reused object", int(last[o] is not None))
            last[o] = op
            results.append(len(got))
        ctx.log(n, op["op"], o, results[-1:] if op["op"] == "trace" else "")
    ctx.check(s.seam_bad() == 0, "C22:memory", "a memory block was written outside its bounds or released twice")
    ctx.probe("blocks scribbled", len(junk))
    ctx.nontrivial = sum(results) > 0 and len(results) > 1
