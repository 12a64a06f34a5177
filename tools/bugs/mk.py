#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the definitions in tools/bugs/defs/*.py, and tries them.

  mk.py make [ID...]      writes patch.diff, demo files and meta.json against /repo's HEAD
  mk.py try [ID...]       in scratch copies: applies, builds, runs the tests and the demo both ways
  mk.py demo [ID...]      as try, without the tests
  mk.py check [ID...]     runs the property's check against a scratch copy with the bug
"""
import concurrent.futures as cf
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1")


def defs():
    out = {}
    for f in sorted(glob.glob(os.path.join(HERE, "defs", "*.py"))):
        for b in runpy.run_path(f)["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(b):
    d = tempfile.mkdtemp(prefix="mk-")
    try:
        sh(["git", "-C", "/repo", "worktree", "prune"])
        r = sh("git -C /repo archive HEAD | tar x -C " + d, shell=True)
        assert r.returncode == 0, r.stdout
        sh(["git", "init", "-q"], cwd=d); sh(["git", "add", "-A"], cwd=d)
        sh(["git", "-c", "user.name=a", "-c", "user.email=a@b", "commit", "-qm", "x"], cwd=d)
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, "%s: %r occurs %d times in %s" % (b["id"], old, s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], cwd=d).stdout
        assert diff
        out = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        if "demo_c" in b:
            pass
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        shutil.copy(os.path.join(HERE, "ocean.py"), out)
        open(os.path.join(out, "demo.sh"), "w").write(
            "#!/bin/bash\n# run with cwd /repo after the build; exit 0: the property holds\n"
            "export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=0\n"
            "exec timeout 280 %s \"$(dirname \"$0\")/demo.py\"\n" % PY)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
    finally:
        shutil.rmtree(d)


def copy(b=None):
    d = tempfile.mkdtemp(prefix="bug-")
    sh("cp -a /repo/. " + d, shell=True)
    sh(["git", "checkout", "-q", "--", "."], cwd=d)
    if b:
        r = sh(["git", "apply", os.path.join(VERIF, "seeded", b["id"], "patch.diff")], cwd=d)
        assert r.returncode == 0, b["id"] + r.stdout
    return d


def build(d):
    return sh("rm -f trackeddy/_cntr*.so; %s setup.py -q build_ext --inplace --force" % PY, shell=True, cwd=d, env=ENV)


def attempt(b, tests=True):
    good, bad = copy(), copy(b)
    try:
        msg = []
        build(good)
        r = build(bad)
        if r.returncode:
            return b["id"], "BUILD FAILS\n" + r.stdout[-2000:]
        demo = os.path.join(VERIF, "seeded", b["id"], "demo.sh")
        t = tempfile.mkdtemp(prefix="demo-")
        shutil.copytree(os.path.dirname(demo), t, dirs_exist_ok=True)
        demo = os.path.join(t, "demo.sh")
        g = sh(["bash", demo], cwd=good)
        x = sh(["bash", demo], cwd=bad)
        shutil.rmtree(t)
        if g.returncode != 0:
            msg.append("DEMO FAILS ON THE UNCHANGED TREE (%d): %s" % (g.returncode, g.stdout[-1500:]))
        if x.returncode == 0:
            msg.append("DEMO PASSES WITH THE BUG: %s" % x.stdout[-1500:])
        r = tests and sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "2", "--timeout=300", "-p", "randomly",
                "--randomly-seed=0", "--randomly-dont-reorganize"], cwd=bad, env=ENV)
        if tests and "16 passed" not in r.stdout:
            msg.append("TESTS: " + r.stdout[-1500:])
        return b["id"], "\n".join(msg) or "ok   demo says: " + x.stdout.strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(good)
        shutil.rmtree(bad)


def check(b, extra=()):
    bad = copy(b)
    try:
        r = sh(["bin/check", b["property"], "--no-evidence"] + list(extra), cwd=VERIF, env=dict(ENV, DST_REPO=bad))
        last = [l for l in r.stdout.splitlines() if l.strip()]
        info = [l for l in last if l.startswith("run ")][:1]
        return b["id"], "%s %s %s" % ({0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode),
                                      info[0][:200] if info else "", "" if r.returncode in (0, 1) else r.stdout[-1500:])
    finally:
        shutil.rmtree(bad)


def main():
    cmd, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")]
    extra = [a for a in sys.argv[2:] if a.startswith("-")]
    all_ = defs()
    bs = [all_[i] for i in all_ if not ids or i in ids or any(i.startswith(p + "-") for p in ids)]
    if cmd == "make":
        for b in bs:
            make(b)
    elif cmd == "try":
        with cf.ThreadPoolExecutor(4) as ex:
            for i, m in ex.map(attempt, bs):
                print(i, m, flush=True)
    elif cmd == "demo":
        with cf.ThreadPoolExecutor(4) as ex:
            for i, m in ex.map(lambda b: attempt(b, False), bs):
                print(i, m, flush=True)
    elif cmd == "check":
        for b in bs:
            print(*check(b, extra), flush=True)


if __name__ == "__main__":
    main()
