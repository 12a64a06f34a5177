#!/usr/bin/env python3
"""Which seeded patches change lines of the original repository (not only ones /repo's own commits added)."""
import glob, os, subprocess
base = subprocess.run("git -C /repo log --format=%h --grep=^base | tail -1", shell=True, capture_output=True, text=True).stdout.strip()
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../../seeded/*/patch.diff"))):
    f = None
    orig = added = ins = 0
    for l in open(d):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            old = [x.strip() for x in subprocess.run(["git", "-C", "/repo", "show", base + ":" + f], capture_output=True, text=True).stdout.splitlines()]
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            if l[1:].strip() in old: orig += 1
            else: added += 1
        elif l.startswith("+") and not l.startswith("+++"): ins += 1
    print(("ok  " if orig else "ins " if not added else "BAD "), os.path.basename(os.path.dirname(d)), orig, added, ins)
