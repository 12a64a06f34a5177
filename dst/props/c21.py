"""C21: contour tracing survives memory exhaustion."""
import gc
import sys

from dst import contours as C

FOREVER = 1 << 40
CPU_LIMIT = 60  # seconds; a run needs less than one


def gen(rng, tier):
    fields = [C.gen_field(rng) for _ in range(rng.randint(1, 2))]
    ops = []
    n = rng.randint(1, 3)
    for _ in range(rng.randint(3, 9)):
        k = rng.random()
        o = rng.randrange(n)
        if k < .25:
            op = {"op": "new", "o": o, "f": rng.randrange(len(fields))}
        elif k < .32:
            op = {"op": "del", "o": o}
        elif k < .5:
            op = {"op": "extract", "o": o, "f": rng.randrange(len(fields)), "l0": rng.choice(C.LEVELS)}
        else:
            op = C.gen_trace(rng, o)
            if rng.random() < .15:  # an absurd chunk size or level is no failure
                op["chunk"] = rng.choice([-1, 10 ** 9])
        if op["op"] != "del" and rng.random() < .6:
            op["fault"] = {"at": rng.random(), "n": rng.choice([1, 1, 1, 2, 3, FOREVER])}
        elif op["op"] != "del" and rng.random() < .5:
            op["again"] = True
        ops.append(op)
    ops[:0] = [{"op": "new", "o": o, "f": rng.randrange(len(fields))} for o in range(n)]
    return {"fields": fields, "ops": ops, "fill": rng.choice([0, 255, 203, 1, 127])}


def alone(f, op, fill):
    """(result, allocations) of an operation on a fresh object."""
    s = C.seam()
    s.seam_set_fill(fill)
    if op["op"] == "new":
        s.seam_arm(-1, -1)
        C.new(f)
        return None, s.seam_count()
    if op["op"] == "extract":
        s.seam_arm(-1, -1)
        return extract(f), s.seam_count()
    c = C.new(f)
    s.seam_arm(-1, -1)
    r = C.trace(c, op)
    return r, s.seam_count()


def extract(f, arrays=None, level=None):
    from trackeddy.geometry import extract_contours
    x, y, z, m = arrays or C.make(f)
    a, b = extract_contours(x, y, z, f["level"] if level is None else level)
    return C.freeze(list(a)), C.freeze(list(b))


def counts(arrays):
    return [sys.getrefcount(a) for a in arrays if a is not None]


def run(plan, ctx):
    ctx.native = True
    s = C.seam()
    s.seam_set_fill(plan["fill"])
    fields = plan["fields"]
    arrays = [C.make(f) for f in fields]
    which = {}
    want = []
    for op in plan["ops"]:
        if op["op"] == "new":
            which[op["o"]] = op["f"]
        f = op.get("f", which.get(op["o"], 0))
        want.append(None if op["op"] == "del" else
                    ctx.fresh(alone, dict(fields[f], level=op.get("l0")), op, plan["fill"] ^ 0x5a))
    objs, which = {}, {}
    fired_total = 0
    for n, op in enumerate(plan["ops"]):
        o, k = op["o"], op["op"]
        fault = op.get("fault")
        if k == "del":
            objs.pop(o, None)
            which.pop(o, None)
            continue
        if k == "trace" and o not in objs:
            continue
        fi = op.get("f", which.get(o))
        res, total = want[n]

        def perform():
            if k == "new":
                return C.new(fields[fi], arrays[fi])
            if k == "extract":
                return extract(fields[fi], arrays[fi], op["l0"])
            return C.trace(objs[o], op)
        if k == "new":
            objs.pop(o, None)
            which.pop(o, None)
        if fault:
            first = int(fault["at"] * total)
            failing(ctx, s, n, k, perform, first, first + fault["n"], arrays[fi], res)
            fired_total += 1
        # and without a failure: right, complete, and nothing but the result stays behind
        live = s.seam_live()
        refs = counts(arrays[fi])
        got = ctx.must(perform)
        if k == "new":
            objs[o], which[o] = got, fi
            # a trace is compared below; here only that the object works
        else:
            m = C.differ(got, res) if k == "trace" else (C.differ(got[0], res[0]) or C.differ(got[1], res[1]))
            ctx.check(m is None, "C21:wrong", lambda: "operation %d (%s) after %d failed allocations: %s" % (n, k, fired_total, m))
            ctx.check(s.seam_live() == live, "C21:leak", lambda: "operation %d (%s) left %d blocks allocated" % (n, k, s.seam_live() - live))
            ctx.check(counts(arrays[fi]) == refs, "C21:leak", lambda: "operation %d (%s) left references to its arrays: %s, before %s" % (n, k, counts(arrays[fi]), refs))
        got = None
        if op.get("again"):
            grown = C.growth(lambda: ctx.must(perform) and None)
            ctx.check(not grown or grown < 0, "C21:leak", lambda: "operation %d (%s) leaves %d bytes behind each time" % (n, k, grown))
        ctx.log(n, k, o, total, s.seam_live())
    objs.clear()
    gc.collect()
    ctx.check(s.seam_live() == 0, "C21:leak", lambda: "%d blocks still allocated when every contour object is gone" % s.seam_live())
    ctx.check(s.seam_bad() == 0, "C21:memory", "a memory block was written outside its bounds or released twice")
    base = counts(C.make(fields[0]))
    for f, a in zip(fields, arrays):
        r = counts(a)
        ctx.check(max(r) <= max(base) + 1, "C21:leak", lambda: "references to the caller's arrays remain: %s" % r)
    ctx.nontrivial = fired_total > 0


def failing(ctx, s, n, k, perform, first, until, arrays, res):
    """The operation with failing allocations, often enough to see leaks."""
    def once():
        s.seam_arm(first, until)
        out = ctx.call(perform)
        hit = s.seam_fired()
        s.seam_disarm()
        return out, hit
    live = s.seam_live()
    refs = counts(arrays)
    last = []

    def rep():
        out, hit = once()
        kind = out.kind()
        if hit and out.ok and k != "new":
            same = out.value == res
            ctx.check(same, "C21:silent", lambda: "operation %d (%s) returned a wrong result although allocation %d failed" % (n, k, first))
            ctx.probe("got around a failed allocation")
        elif hit:
            ctx.check(not out.ok and isinstance(out.exc, MemoryError), "C21:report", lambda: "operation %d (%s) with allocation %d failing (%s): %s, expected MemoryError" % (
                n, k, first, s.seam_log().decode(), out.describe()))
        else:
            ctx.check(out.ok, "C21:report", lambda: "operation %d (%s): %s" % (n, k, out.describe()))
        out.exc = out = None
        last[:] = hit, kind
        return bool(hit)
    grown = C.growth(rep)
    hits, kind = last
    ctx.check(not grown or grown < 0, "C21:leak", lambda: "operation %d (%s) with allocation %d failing leaves %d bytes behind each time" % (n, k, first, grown))
    gc.collect()
    ctx.check(s.seam_live() == live, "C21:leak", lambda: "operation %d (%s) with allocation %d failing left %d blocks allocated" % (
        n, k, first, s.seam_live() - live))
    ctx.check(counts(arrays) == refs, "C21:leak", lambda: "operation %d (%s) with allocation %d failing keeps references to its arrays: %s, before %s" % (n, k, first, counts(arrays), refs))
    if hits:
        ctx.fault("failed allocation (%s)" % {"m": "working memory", "a": "result array", "l": "result list", "r": "shrinking a result array",
                                                    "c": "input conversion"}.get(s.seam_log().decode()[:1], "?"))
        ctx.state(k, first, min(until - first, 9), kind)
    ctx.log(n, k, "fault", first, until, hits, kind)
