#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--scenario NAME]: decides one property on /repo's current tree."""
import json, os, re, subprocess, sys, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vt
from props import PROPS

LEVEL = "model_checking"


def explore(b, sc, h, tier, seed):
    t = sc.get("thorough_time", 240) if tier == "thorough" else sc.get("time", 40)
    out = os.path.join(b.dir, "out.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [b.explorer().result(), "--time", str(t), "--workers", str(vt.NCPU), "--seed", str(seed), "--out", out,
           "--child-timeout", str(sc.get("child", 10)), "--viol-stop", str(sc.get("viol_stop", 3)),
           "--xcheck", "16" if tier == "thorough" else "64"]
    env = dict(os.environ, TMPDIR=b.dir)
    r = subprocess.run(cmd + ["--", h] + [str(a) for a in sc["args"]], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=b.dir, env=env)
    if not os.path.exists(out):
        raise vt.BuildError("explorer failed on %s: %s" % (sc["name"], r.stderr[-2000:]))
    return json.load(open(out))


def replay(b, h, sc, inputs, path, asan=False):
    with open(path, "w") as f:
        for k, v in inputs.items():
            f.write("%s %d\n" % (k, v))
    env = dict(os.environ, TMPDIR=b.dir, ASAN_OPTIONS="detect_leaks=0:exitcode=1:abort_on_error=0:alloc_dealloc_mismatch=0", UBSAN_OPTIONS="print_stacktrace=0:exitcode=1")
    try:
        r = subprocess.run([h, path] + [str(a) for a in sc["args"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=b.dir, env=env, timeout=90)
    except subprocess.TimeoutExpired:
        return "violation", "timeout"
    o = r.stdout.decode(errors="replace")
    if "REPLAY-VIOLATION" in o:
        return "violation", o[o.index("REPLAY-VIOLATION"):][:400]
    if "AddressSanitizer" in o or "runtime error:" in o:
        i = o.find("ERROR: AddressSanitizer"); i = i if i >= 0 else o.find("runtime error:")
        return "violation", o[i:i + 400]
    if r.returncode < 0 or r.returncode >= 128:
        return "violation", "died with status %d" % r.returncode
    if "REPLAY-OK" in o:
        return "ok", ""
    return "other", o[-300:]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    av = sys.argv[2:]
    while av:
        a = av.pop(0)
        if a == "--tier":
            tier = av.pop(0)
        elif a == "--scenario":
            only = av.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    t0 = time.time()
    b = vt.Builder()
    known = json.load(open(os.path.join(vt.VERIF, "known-findings.json")))["findings"]
    rc, res, viols, unconf, kf, broken = 0, [], [], [], set(), []
    repdir = os.path.join(vt.VERIF, "replays")
    try:
        scs = [s for s in P["scenarios"] if (tier == "thorough" or not s.get("thorough_only")) and (only is None or s["name"] == only)]
        hs, reps, files = {}, {}, set()
        b.explorer()
        for sc in scs:
            hk = sc["harness"]
            H = vt.HARNESSES[hk]
            if hk not in hs:
                hs[hk] = H.build_sym(b)
                files.update(os.path.relpath(x, vt.REPO) for x in H.sources())
            tb = time.time()
            r = explore(b, sc, hs[hk], tier, seed)
            r["scenario"] = sc["name"]
            res.append((sc, r))
            vt.log("%s/%s: exhausted=%s paths=%d reached=%d sat=%d unsat=%d cached=%d viol=%d notes=%s %.1fs" % (
                pid, sc["name"], r["exhausted"], r["paths"], r["reached"], r["queries_sat"], r["queries_unsat"], r["queries_cached"], r["total_violations"], r["notes"][:4], time.time() - tb))
            if r["worker_failure"] or r["z3_disagreements"]:
                broken.append("engine failure in %s: %s" % (sc["name"], {k: r[k] for k in ("worker_failure", "z3_disagreements", "diverged", "lost_where")}))
                vt.log(broken[-1])
            for v in r["violations"]:
                if any(m == v["msg"] for _, m, _, _ in viols):
                    continue
                os.makedirs(repdir, exist_ok=True)
                path = os.path.join(repdir, "%s-%s-%d.txt" % (pid, sc["name"], len(viols) + len(unconf)))
                if hk not in reps:
                    reps[hk] = H.build_replay(b)
                st, why = replay(b, reps[hk], sc, v["inputs"], path)
                if st != "violation":
                    if (hk, "asan") not in reps:
                        reps[hk, "asan"] = H.build_replay(b, asan=True)
                    st, why = replay(b, reps[hk, "asan"], sc, v["inputs"], path, asan=True)
                if st == "violation":
                    with open(path, "a") as f:
                        f.write("# property %s scenario %s harness %s args %s\n# %s\n# native replay: %s\n# repeat: python3 replay.py %s\n" % (
                            pid, sc["name"], hk, " ".join(map(str, sc["args"])), v["msg"].replace("\n", " "), why.replace("\n", " "), path))
                    k = [x for x in known if x["property"] == pid and x["scenario"] == sc["name"] and re.search(x["message"], v["msg"]) and all(v["inputs"].get(a) == c for a, c in x["inputs"].items())]
                    if k:
                        kf.add(k[0]["what"])
                        continue
                    viols.append((sc["name"], v["msg"], path, why))
                else:
                    unconf.append({"scenario": sc["name"], "message": v["msg"], "inputs": v["inputs"], "native": st})
            if viols:
                break
        # encoding validation: explored paths re-run on the natively compiled code
        validated = 0
        if not viols:
            for sc, r in res:
                hk = sc["harness"]
                if not r["samples"]:
                    continue
                if hk not in reps:
                    reps[hk] = vt.HARNESSES[hk].build_replay(b)
                for s in r["samples"][:8 if tier == "thorough" else 3]:
                    inp = {a.rsplit("=", 1)[0]: int(a.rsplit("=", 1)[1]) for a in s.split()}
                    path = os.path.join(b.dir, "sample.txt")
                    st, why = replay(b, reps[hk], sc, inp, path)
                    if st == "ok":
                        validated += 1
                    elif st == "violation" and "property:" in why:
                        os.makedirs(repdir, exist_ok=True)
                        p2 = os.path.join(repdir, "%s-%s-sample.txt" % (pid, sc["name"]))
                        shutil.copy(path, p2)
                        viols.append((sc["name"], why, p2, why))
                    else:
                        unconf.append({"scenario": sc["name"], "message": "sample replay: " + st + " " + why, "inputs": inp})
        cov = {
            "states": sum(r["paths"] for _, r in res),
            "transitions": sum(r["branches"] for _, r in res),
            "traces_validated_against_impl": validated,
            "explanation": "states = symbolic paths of the real code executed to their end, transitions = symbolic branch decisions on them; every branch's other side was decided by the SAT/SMT back end over all values within the stated bounds",
            "exhaustive": bool(res) and all(r["exhausted"] for _, r in res),
            "queries_sat": sum(r["queries_sat"] for _, r in res), "queries_unsat": sum(r["queries_unsat"] for _, r in res),
            "queries_answered_from_cache": sum(r["queries_cached"] for _, r in res), "queries_unknown": sum(r["queries_unknown"] for _, r in res),
            "queries_cross_checked_with_z3": sum(r["z3_crosschecked"] for _, r in res), "solver_s": round(sum(r["solver_s"] for _, r in res), 2),
            "paths_reaching_the_property": sum(r["reached"] for _, r in res),
            "files_encoded": sorted(files),
            "scenarios": [{"name": sc["name"], "bound": sc["bound"], "args": sc["args"], **{k: r[k] for k in ("exhausted", "paths", "reached", "assumed_out", "branches", "queries_sat", "queries_unsat", "queries_cached", "solver_s", "pending", "diverged", "lost", "limits", "timeouts", "wall_s", "notes")}} for sc, r in res],
            "samples": [{"scenario": sc["name"], "inputs": s[:300]} for sc, r in res for s in r["samples"][:2]],
            "unconfirmed_counterexamples": unconf[:10],
        }
        if broken and not viols:
            raise vt.BuildError("; ".join(broken))
        vac = [sc["name"] for sc, r in res if r["reached"] == 0 and not r["violations"]]
        if vac and not viols:
            raise vt.BuildError("vacuous: no path reaches the property in %s" % vac)
        os.makedirs(os.path.join(vt.VERIF, "evidence"), exist_ok=True)
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": P.get("level", LEVEL), "coverage": cov,
                   "assumptions": COMMON + P.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viols)},
                  open(os.path.join(vt.VERIF, "evidence", pid + ".json"), "w"), indent=1)
        for w in sorted(kf):
            print("KNOWN-FINDING: property=%s %s" % (pid, w))
        for x in unconf[:5]:
            vt.log("not confirmed natively (not reported):", json.dumps(x)[:600])
        for n, m, path, why in viols:
            print("scenario %s: %s (%s)" % (n, m, why.replace("\n", " ")[:200]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
        if rc == 0:
            print("OK property=%s paths=%d exhausted=%s wall=%.0fs" % (pid, cov["states"], cov["exhaustive"], time.time() - t0))
    finally:
        b.close()
    return rc


COMMON = [
    "The code is compiled by clang 18 at -O1 with -DNDEBUG and instrumented at LLVM-IR level; the encoding is regenerated from the working tree on every run.",
    "C library, libstdc++ and libc internals run natively: symbolic values passed to them are first split into their feasible concrete values by the solver.",
    "The clock always returns 0, so time limits never fire.",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except vt.BuildError as e:
        print("CHECK-ERROR", e, file=sys.stderr)
        sys.exit(2)
