"""Writes /verif/MANIFEST.json from properties.jsonl and dst/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst.registry import META

NA = {
    "P01": "a pure function of one field and one level: no schedule, time, I/O, history or fault for a simulator to control (the "
           "stateful and failing-memory side of the tracer is C21, C22)",
    "P02": "a pure function of one polygon; nothing to schedule or to inject",
    "P03": "a pure function of one set of points; nothing to schedule or to inject",
    "P04": "a pure function of two curves; nothing to schedule or to inject (that tracking does not abort on long curves is in C14)",
    "P05": "a pure function of one sampled field; nothing to schedule or to inject",
    "P06": "a pure per-contour predicate on the reported measures and the criteria; no history, schedule or fault changes it",
    "P07": "relates two presentations of one input to a pure function; nothing to schedule or to inject",
    "P08": "relates two inputs of a pure function; nothing to schedule or to inject",
    "P09": "a pure function of one field; nothing to schedule or to inject (filters under faults and histories are in C01, C03, C04, C16)",
    "P10": "a pure function of the recorded parameters; nothing to schedule or to inject (the generator's random streams are C19)",
}
NOTE = {
    "C02": "threads are switched inside the package only; ",
    "C07": "process crashes, not power failures: completed file operations survive; ",
    "C12": "isolated, well-resolved Gaussian eddies with known paths; ",
    "C15": "glitches at least 1.7 degrees away from an isolated eddy; ",
}
checks = []
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
for p in props:
    i = p["id"]
    if i in NA:
        continue
    assert i in META, i
    checks.append({
        "property": i, "quick_cmd": "bin/check %s --tier quick" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
        "technique": "deterministic simulation with fault injection (seeded search, replayable minimised traces)",
        "level": "exploration",
        "level_note": NOTE.get(i, "") + "a seeded random sample of executions of the real code under the simulator, each judged by a "
                      "reference model or a fresh-process reference execution; absence of violations is evidence for the explored "
                      "runs only. Trusts the simulator's seams, numpy/pandas/scipy/xarray and the oracle in dst/props/%s.py." % i.lower()})
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
           "notes": "No hooks in /repo: every seam is outside it (import-time replacement of clock, random and lock functions, lazy "
                    "arrays, a preloaded library for file operations, a header included in front of cntr.c for allocations). Replay a "
                    "violation with 'bin/check --replay FILE'; bin/selftest checks that runs are repeatable."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
assert {p["id"] for p in props} == set(NA) | set(META)
