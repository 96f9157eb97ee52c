#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and props.py (run by hand, not by a check)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt
from props import PROPS

P = []
NA = {}


def p(id, title, statement, over, qtext, why, files, mech, observe=(), na=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": hook}})
    if na:
        NA[id] = na


NOT = "The repository has no planner tests at all: its 30 tests exercise CUDD only, on fixed inputs."
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "statements.py")).read())

with open(os.path.join(vt.VERIF, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
checks = []
for x in P:
    i = x["id"]
    if i in PROPS:
        assert i not in NA
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "path-exhaustive symbolic execution of the real code's LLVM IR; branch feasibility and assertions decided by SAT bit-blasting (MiniSat), cross-checked with Z3",
                       "level": PROPS[i].get("level", "model_checking"),
                       "level_note": PROPS[i].get("note", "Bounded: holds for every value of the symbolic inputs of each scenario listed in the evidence file (shape fixed per scenario), nothing is claimed outside these bounds. Trusts clang 18, the IR instrumentation (every verdict is replayed on natively compiled code), MiniSat/Z3 and the reference semantics of the harness.")})
    else:
        NA.setdefault(i, "not claimed: no check built yet")
m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
     "hooks": {"guard": "PANDA_VERIF_HASH_BUCKETS", "enable": "-DPANDA_VERIF_HASH_BUCKETS=61 on the compiler command line (lib/vt.py)", "source_commits": ["f91533e7aaa"]},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
import subprocess
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", vt.REPO, "rev-parse", "f91533e"], stdout=subprocess.PIPE, text=True).stdout.strip()]
json.dump(m, open(os.path.join(vt.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(NA), "not applicable:", sorted(NA))
