#!/usr/bin/env python3
"""replay.py FILE: re-runs a reported counterexample on natively compiled code (plain, then with ASan/UBSan)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vt, check
from props import PROPS
path = sys.argv[1]
txt = open(path).read()
m = re.search(r"^# property (\S+) scenario (\S+)", txt, re.M)
sc = [s for s in PROPS[m.group(1)]["scenarios"] if s["name"] == m.group(2)][0]
inputs = {l.split()[0]: int(l.split()[1]) for l in txt.splitlines() if l and not l.startswith("#")}
b = vt.Builder()
try:
    rc = 0
    for asan in (False, True):
        h = vt.HARNESSES[sc["harness"]].build_replay(b, asan)
        r = check.replay(b, h, sc, inputs, os.path.join(b.dir, "in.txt"), asan)
        print("sanitizers" if asan else "plain", *r)
        rc |= r[0] == "violation"
finally:
    b.close()
sys.exit(rc)
