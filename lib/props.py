"""The scenarios that decide each property."""
import vt

vt.harness("plan", "plan", native=["oracle_n.cpp"])

vt.harness("sat", "sat", native=["oracle_n.cpp", "ipasir_n.cpp"], sat=True, libs=["-lminisat", "-lz"])

vt.harness("sas", "sas", native=["oracle_n.cpp", "sas_n.cpp"])
vt.harness("bdd", "bdd", native=["oracle_n.cpp", "bdd_n.cpp"], bdd=True, libs=["-Wl,--wrap=Cudd_Init"], cudd=["cudd", "util", "st", "mtr", "epd", "dddmp"])
vt.harness("inv", "inv", native=["oracle_n.cpp"])
vt.harness("sets", "sets", repo="files", files=["intDataStructures/"+x+".cpp" for x in ("bucketSet","noDelIntSet","bIntSet","delIterIntSet","IntStack","FlexIntStack","IntUtil")])
vt.harness("heur", "heur", native=["oracle_n.cpp"])
vt.harness("hs", "hs", repo="files", files=["heuristics/rcHeuristics/hsAddFF.cpp","heuristics/rcHeuristics/hsFilter.cpp","heuristics/rcHeuristics/hsLmCut.cpp","heuristics/rcHeuristics/LMCutLandmark.cpp","intDataStructures/bucketSet.cpp","intDataStructures/noDelIntSet.cpp","intDataStructures/IntStack.cpp","intDataStructures/FlexIntStack.cpp","intDataStructures/IntUtil.cpp","intDataStructures/StringUtil.cpp","Model.cpp","ProgressionNetwork.cpp","Util.cpp"])
vt.harness("trans", "trans", native=["oracle_n.cpp"])
vt.harness("visited", "visited")
vt.harness("model", "model")
vt.harness("fringe", "fringe", repo="files", files=["search/fringes/OneQueueWAStarFringe.cpp","ProgressionNetwork.cpp","Model.cpp","heuristics/hhSimple.cpp","heuristics/hhZero.cpp","heuristics/Heuristic.cpp","heuristics/HeuristicPayload.cpp","Util.cpp"]+["intDataStructures/"+x+".cpp" for x in ("noDelIntSet","IntStack","FlexIntStack","IntUtil","StringUtil")])
vt.harness("hddl", "hddl")
vt.harness("lm", "lm")
vt.harness("opt", "opt", exclude=("/interactivePlanner.cpp", "/translation/"), special={"SearchEngine.cpp": "opt_stub.h"})
vt.harness("trie", "trie", repo="files", files=["intDataStructures/"+x+".cpp" for x in ("CompressedSequenceSet","SequenceSet","HashTable")]+["Util.cpp","Debug.cpp"])
vt.harness("enc", "enc", repo="files", native=["ipasir_n.cpp"], files=["sat/sat_encoder.cpp"], sat=True, libs=["-lminisat", "-lz"])

PROPS = {}


def prop(pid, scenarios, assumptions=(), **kw):
    PROPS[pid] = dict(scenarios=scenarios, assumptions=list(assumptions), **kw)


def sc(name, harness, args, bound, **kw):
    return dict(name=name, harness=harness, args=args, bound=bound, **kw)


T = {
    "to": "totally ordered, 3 facts, 3 actions, 3 abstract tasks, 5 methods; 13 symbolic precondition/add/delete bits",
    "po3": "4 facts, 4 actions, 2 abstract tasks, 3 methods; symbolic order of a 4-task method (6 bits) and of a 2-task method, 7 symbolic precondition/delete bits",
    "po": "as po3 with one further symbolic precondition",
    "rec": "tail recursion, 4 facts, 3 actions, 3 abstract tasks, 5 methods; 13 symbolic precondition/effect bits",
    "sub2": "symbolic subtasks: 2 tasks out of 5 kinds in any order, 5 symbolic bits",
    "sub3": "symbolic subtasks: 3 tasks out of 5 kinds under any order, 4 symbolic effect/precondition bits",
    "sub4": "symbolic subtasks: 4 tasks out of 5 kinds under any order, 4 symbolic effect/precondition bits",
    "bip": "two methods with interchangeable tasks a,a,c,c,P under symbolic orders (12 bits), 6 facts, 4 actions",
    "wide": "67 facts, relevant facts at word boundaries (3 choices), 7 symbolic bits",
    "widetask": "67 facts, 64 actions, relevant facts at word boundaries (3 choices), 7 symbolic bits",
    "cost": "4 facts, 4 actions with symbolic costs 0..15, 3 abstract tasks, 6 methods, 5 symbolic bits",
    "costpo": "as cost, with a partially ordered top method (2 symbolic orderings)",
}


T.update({
    "seq": "two methods over the same 4 tasks under symbolic chain orders, 6 symbolic precondition/effect bits; 7 tasks",
    "succ": "an abstract task with several predecessors/successors and several first/last tasks; 12 symbolic order/precondition bits; 9 tasks",
    "abs": "three unordered abstract tasks, 8 symbolic effect/goal/order bits",
})
T["seq8"] = T["seq"].replace("7 tasks", "8 tasks"); T["seq9"] = T["seq"].replace("7 tasks", "9 tasks")
T["succ16"] = T["succ"].replace("9 tasks", "16 tasks"); T["succ17"] = T["succ"].replace("9 tasks", "17 tasks")
for _n in (2, 3, 4, 5):
    T["abs+%d" % _n] = T["abs"] + "; the first %d random choices symbolic" % _n
    T["po3+%d" % _n] = T["po3"] + "; the first %d random choices symbolic" % _n
    T["sub3+%d" % _n] = T["sub3"] + "; the first %d random choices symbolic" % _n


T.update({
    "check": "effectless actions around actions that establish and destroy what they check; 12 symbolic order/precondition/effect bits",
    "sas": "multi-valued variables {0..2},{3,4},{5}; two movers with symbolic origin and destination, 3 further symbolic bits/values; totally ordered",
    "saspo": "as sas, partially ordered with 2 symbolic orderings",
    "block": "up to 6 totally ordered actions with 12 symbolic precondition/effect bits",
    "cost2": "as cost with costs 0..2",
})

T["unref2"] = "as rec, with two tasks that recurse without end in first position; 11 symbolic precondition/effect bits"
T["unref"] = "as rec, with two tasks that can never be refined into actions; 11 symbolic precondition/effect bits"

T.update({
    "net0": "nested partially ordered methods (8 symbolic order bits), fixed actions", "net1": "nested methods, variant with two shared subtasks (8 symbolic order bits)", "net2": "nested methods, variant with unordered abstract tasks (8 symbolic order bits)",
})


def plan(mode, tmpl, *cfgs, **kw):
    n = kw.pop("name", tmpl)
    return sc("%s-%s" % (mode, n), "plan", [mode, tmpl] + list(cfgs), T[tmpl] + "; configurations: " + " | ".join(cfgs), **kw)


DFS = "-H modDepth(invert=true) -g none --suboptimal"
FF = "-H rc2(ff)"

prop("P01", [
    plan("sound", "to", FF, DFS),
    plan("sound", "po3", FF),
    plan("sound", "rec", "-H rc2(add) --suboptimal -w 2"),
    plan("sound", "sub3", "-H rc2(lmc;est=cost) -g action"),
    plan("sound", "bip", "-H zero --noParallelSequences -g mixed"),
    plan("sound", "wide", FF, DFS), plan("sound", "widetask", FF, DFS),
    plan("sound", "check", FF), plan("sound", "net0", FF), plan("sound", "net1", FF), plan("sound", "net2", FF, DFS),
    plan("sound", "succ", FF, DFS), plan("sound", "abs+3", "-H zero"), plan("sound", "seq9", FF),
    plan("sound", "abs+5", FF, DFS, "-H rc2(add) -g action", name="absb", thorough_only=True), plan("sound", "succ17", "-H zero -g none", "-H cost --noParallelSequences", thorough_only=True),
    plan("sound", "po3", "-H rc2(filter) --suboptimal", "-H cost -g none", "-H zero --noGIcheck -T", name="po3b", thorough_only=True, thorough_time=120),
    plan("sound", "to", "-H mixedModDepth -g mixed", "-H rc2(add;est=mixed;taskcount=no) -H rc2(ff)", "-V -H zero", name="tob", thorough_only=True, thorough_time=60),
    plan("sound", "po", FF, DFS, thorough_only=True, thorough_time=120),
    plan("sound", "sub4", FF, thorough_only=True, thorough_time=240),
    plan("sound", "bip", FF, DFS, name="bipb", thorough_only=True),
], ["Plans are judged by an independent reference semantics (oracle_n.cpp): executability, goal, decomposition tree and every method's ordering."])

prop("P02", [
    plan("complete", "bip", FF, "-H zero --suboptimal"),
    plan("complete", "to", FF, "-H rc2(lmc)"),
    plan("complete", "rec", FF, "-H rc2(filter) --suboptimal"),
    plan("complete", "po3", FF),
    plan("complete", "sub3", "-H rc2(add)"),
    plan("complete", "wide", FF, "-H rc2(lmc) -Q"), plan("complete", "widetask", FF),
    plan("complete", "seq", FF), plan("complete", "seq8", "-H zero --suboptimal"), plan("complete", "seq9", "-H rc2(add) -T -Q"),
    plan("complete", "check", FF), plan("complete", "net0", FF), plan("complete", "net1", FF, "-H zero -T -Q"), plan("complete", "net2", FF),
    plan("complete", "unref", "-H rc2(ff)", "-H rc2(add;est=cost) -g action"), plan("complete", "unref2", FF),
    plan("complete", "succ", FF), plan("complete", "succ17", "-H zero"), plan("complete", "abs+3", FF),
    plan("complete", "abs+5", "-H rc2(lmc) --suboptimal", "-H zero", name="absb", thorough_only=True),
    plan("complete", "to", "-H modDepth", "-T -Q -H zero", "-H rc2(ff;est=cost) -g action -w 4", DFS, "-V -H cost", name="tob", thorough_only=True),
    plan("complete", "po3", "-T -Q --noParallelSequences -H zero", "-H rc2(lmc) --noLayers", "--noOrderPairs -H mixedModDepth --suboptimal", name="po3b", thorough_only=True),
    plan("complete", "rec", "-H zero", "-H rc2(add;est=mixed)", DFS, name="recb", thorough_only=True),
    plan("complete", "po", FF, thorough_only=True), plan("complete", "sub4", FF, thorough_only=True),
    plan("complete", "bip", "-H rc2(add) -H rc2(ff) -g none", "--noParallelSequences -H zero", "--noLayers --noOrderPairs -T -H rc2(lmc)", name="bipb", thorough_only=True),
], ["Solvability is decided by an independent explicit search over (state, task network); all templates have finite search spaces."])

prop("P03", [
    plan("optimal", "cost", "-H zero -g action", time=25),
    plan("optimal", "costpo", "-H rc2(lmc;est=cost) -g action", time=60),
    plan("optimal", "costpo", "-H zero -g path", "-H rc2(lmc;taskcount=no) -g path", name="costpo-path"),
    plan("optimal", "to", "-H zero -g path", "-H rc2(lmc;taskcount=no) -g path"),
    plan("optimal", "po3", "-H rc2(filter;taskcount=no) -g path"),
    plan("optimal", "to", "-H rc2(lmc;taskcount=no) -g path -w 2", name="to-weight"), plan("optimal", "sub2", "-H rc2(lmc;est=cost) -g action -w 2", name="sub2-weight"),
    plan("optimal", "cost", "-H rc2(lmc;est=cost) -g action -w 2", name="cost-weight", thorough_only=True, thorough_time=150), plan("optimal", "costpo", "-H rc2(lmc;est=mixed;taskcount=no) -g mixed -w 3", name="costpo-weight", thorough_only=True, thorough_time=150),
    plan("optimal", "cost", "-H zero -g mixed", name="cost-mixed", thorough_only=True, thorough_time=120),
    plan("optimal", "cost", "-H rc2(lmc;est=cost) -g action", name="cost-lmc", thorough_only=True, thorough_time=180),
    plan("optimal", "costpo", "-H rc2(lmc;est=mixed;taskcount=no) -g mixed", name="costpo-mixed", thorough_only=True, thorough_time=180),
    plan("optimal", "costpo", "-H rc2(lmc;est=cost) -H rc2(ff) -g action --noGIcheck", name="costpo-tie", thorough_only=True, thorough_time=180),
], ["Admissible configurations only: zero, LM-cut or filter relaxed-composition heuristic whose estimate matches the g value."])


def sat(tmpl, depth, models, npol, *cfgs, **kw):
    n = kw.pop("name", tmpl)
    how = "every model of every formula" if models < 0 else "first model and %d further ones, %d initial polarities" % (models, npol)
    return sc("sat-%s" % n, "sat", [tmpl, depth, models, npol] + list(cfgs), T[tmpl] + "; depth <= %d; %s; configurations: " % (depth, how) + " | ".join(cfgs), **kw)


prop("P12", [
    sat("to", 4, -1, 1, "-s"), sat("rec", 5, -1, 1, "-s -P h2"), sat("sas", 4, -1, 1, "-s -P h2"), sat("saspo", 4, 0, 1, "-s"),
    sat("block", 4, 0, 1, "-s -P h2", "-s -P none -B"), sat("check", 4, 0, 1, "-s"), sat("wide", 4, 0, 1, "-s"),
    sat("seq", 4, 0, 1, "-s -m"), sat("bip", 4, 0, 1, "-s -M"), sat("abs", 4, 0, 1, "-s"), sat("sub2", 4, 0, 1, "-s"), sat("cost2", 4, 0, 1, "-s", time=10),
    sat("unref2", 5, 0, 1, "-s -P h2 -B"), sat("unref", 5, 0, 1, "-s", "-s -P h2 -B", thorough_only=True),
    sat("block", 4, -1, 1, "-s", "-s -M", name="blockb", thorough_only=True), sat("saspo", 4, -1, 1, "-s", "-s -M", name="saspob", thorough_only=True),
    sat("check", 4, -1, 1, "-s", "-s -m", name="checkb", thorough_only=True, thorough_time=300),
    sat("wide", 4, -1, 1, "-s", name="wideb", thorough_only=True), sat("abs", 4, -1, 1, "-s", name="absb", thorough_only=True, thorough_time=300),
    sat("sub3", 4, 0, 1, "-s", thorough_only=True, thorough_time=200), sat("succ", 4, 0, 1, "-s", thorough_only=True), sat("po3", 4, 1, 2, "-s", thorough_only=True, thorough_time=120),
    sat("sub2", 4, -1, 1, "-s", name="sub2b", thorough_only=True, thorough_time=200), sat("to", 5, -1, 1, "-s -P none -B -M", name="tob", thorough_only=True),
], ["The SAT solver itself is MiniSat; the planner's ipasir calls are served by it. Depth bound: the planner is stopped after the stated decomposition depth.",
    "Children of an abstract step may be listed in any order in the printed decomposition."])

T.update({
    "decl0": "movers over a three-valued variable, declared variables, a strict mutex and an invariant; 10 symbolic values/bits, totally ordered",
    "decl1": "as decl0, exclusive groups declared as strict mutexes", "decl2": "as decl0, exclusive groups declared as mutexes and invariants",
})
for _t in ("decl0", "decl1", "decl2"):
    T[_t + "p"] = T[_t].replace("totally ordered", "2 symbolic orderings")
    PROPS["P12"]["scenarios"].insert(3, sat(_t, 4, -1, 1, "-s -P h2"))


def inv(tmpl, steps, *h2s, **kw):
    return [sc("inv-%s-%s" % (tmpl, "h2" if h else "declared"), "inv", [tmpl, steps, h], T[tmpl] + "; every executable sequence of at most %d actions; %s" % (steps, "declared and computed (H2) invariants" if h else "declared invariants"), **kw) for h in h2s]


prop("P15", inv("to", 5, 1) + inv("rec", 6, 1) + inv("sas", 6, 0, 1) + inv("check", 6, 1) + inv("block", 5, 1) + inv("saspo", 5, 1)
     + inv("decl0", 7, 0, 1) + inv("decl1", 7, 0, 1) + inv("decl2", 7, 0, 1) + inv("wide", 4, 1)
     + [dict(s, name=s["name"] + "-deep") for s in inv("to", 9, 1, thorough_only=True) + inv("rec", 10, 1, thorough_only=True) + inv("block", 9, 1, thorough_only=True) + inv("sas", 10, 1, thorough_only=True)],
     ["Mutexes, strict mutexes and invariants declared in the input are assumed to hold in every reachable state (the templates declare only such ones)."])


def enc(*a, **kw):
    return sc("enc-" + "-".join(map(str, a)), "enc", list(a), "encoding %s over %s literals%s" % (a[0], a[1], "" if len(a) < 3 else ", K = %s" % a[2]) + (": every assignment of all variables; literals of either sign" if a[1] <= 5 else ": every assignment of all variables"
              if a[1] <= 100 else ": every pair of positions, the first 30 literals and all auxiliary variables free"), **kw)


prop("P24", [enc("amo", n) for n in (0, 1, 2, 3, 5, 6, 9, 30, 255, 256, 300, 513)] + [enc("amk", n, k) for n, k in ((1, 0), (3, 1), (4, 2), (5, 5), (8, 3), (8, 6), (6, 0), (12, 1), (30, 2))]
     + [enc(k, n) for k, n in (("alo", 1), ("alo", 4), ("yes", 1), ("not", 1), ("implies", 2), ("impliesNot", 2), ("impliesAnd", 3), ("impliesOr", 2), ("impliesOr", 5), ("posneg", 4), ("posneg", 5),
                               ("impliesAllNot", 4), ("notImpliesAllNot", 4), ("andImplies", 3), ("andImpliesSet", 2), ("andImpliesSet", 5), ("notAll", 1), ("notAll", 4))]
     + [enc(*a, thorough_only=True) for a in (("amo", 17), ("amo", 64), ("amo", 600), ("amk", 10, 4), ("amk", 12, 5), ("amk", 16, 3))],
     ["Lists have pairwise distinct literals, as every caller guarantees."])

T.update({
    "ps": "one top method of 4 tasks under symbolic chain orders (parallel sequences), 6 symbolic precondition/effect bits",
})


def tr(tmpl, bound, picks, *cfgs, **kw):
    n = kw.pop("name", tmpl)
    return sc("sas-%s" % n, "sas", [tmpl, bound, picks] + list(cfgs), T[tmpl] + "; <= %d translations (growing bound); the first %d operator choices of the classical planner symbolic; configurations: " % (bound, picks) + " | ".join(cfgs), **kw)


PUSH, TOT, PSQ, STR, COND = ("--pgb=%d --forceTransType --transtype=" + x for x in ("push", "to", "parallelseq", "postrips", "pocond"))

prop("P14", [
    tr("to", 2, 1, "--pgb=5"), tr("sas", 2, 1, "--pgb=5"), tr("decl0", 2, 2, "--pgb=5"), tr("wide", 2, 2, "--pgb=5", PUSH % 5),
    tr("cost2", 2, 1, "--pgb=5 --realCosts"), tr("block", 2, 1, "--pgb=7"),
    tr("saspo", 2, 1, PUSH % 5), tr("sub2", 2, 2, PUSH % 5, "--pgb=0"), tr("decl1p", 2, 2, PUSH % 5, STR % 5, COND % 5), tr("check", 2, 1, PUSH % 5),
    tr("sub2", 2, 1, STR % 5, COND % 5, name="sub2b"), tr("ps", 2, 1, "--pgb=5"), tr("abs", 2, 0, PUSH % 6),
    tr("unref", 3, 1, "--pgb=0"), tr("unref2", 3, 1, "--pgb=0", PUSH % 0, thorough_only=True),
    tr("to", 3, 3, "--pgb=0", name="tob", thorough_only=True), tr("rec", 3, 2, PUSH % 6, name="rec", thorough_only=True), tr("po3", 2, 2, PUSH % 6, thorough_only=True, thorough_time=200),
    tr("bip", 2, 1, PUSH % 6, thorough_only=True, thorough_time=200), tr("saspo", 2, 3, PUSH % 5, STR % 5, COND % 5, name="saspob", thorough_only=True, thorough_time=200),
    tr("abs", 2, 2, PUSH % 6, COND % 6, name="absb", thorough_only=True, thorough_time=200), tr("ps", 2, 3, "--pgb=6", "--pgb=4 --pgbsteps=2", name="psb", thorough_only=True),
    tr("check", 2, 3, PUSH % 5, STR % 5, name="checkb", thorough_only=True, thorough_time=120), tr("block", 2, 3, "--pgb=7", PUSH % 7, name="blockb", thorough_only=True),
], ["The classical planner is replaced by an exhaustive search over the generated SAS+ task (successor operators that keep the goal reachable); its operator choices are symbolic.",
    "Progression bounds up to the stated number; the templates' plans fit into it.", "Children of an abstract step may be listed in any order in the printed decomposition."])


T.update({
    "bin0": "binary methods, totally ordered, 4 facts, 3 actions, 8 symbolic precondition/effect/goal bits", "bin1": "as bin0 with tail recursion", "bin2": "as bin0 with symbolic costs 0..2",
    "bin3": "as bin0, 3 methods whose orderings are given along or against the listed order", "bin4": "recursion with symbolic costs 0..1", "bin5": "recursion with symbolic costs 0..3",
    "bin6": "non-tail recursion, 8 symbolic bits", "bin7": "multi-valued variables, symbolic origins and destinations", "bin8": "as bin2 with costs 0..1",
    "bin9": "nested methods that share subtasks, symbolic subtasks, costs 0..2 and state bits", "bin11": "unit methods, shared subtasks and tail recursion, symbolic subtasks, costs 0 or 1 and state bits", "bin10": "two nested alternatives per task with symbolic subtasks, costs 0..2",
})
prop("P13", [sc("bdd-" + t, "bdd", [t], T[t]) for t in ("bin0", "bin1", "bin3", "bin4", "bin6", "bin7", "bin8", "bin9", "bin10", "bin11")]
     + [sc("bdd-" + t, "bdd", [t], T[t], thorough_only=True) for t in ("bin2", "bin5")],
     ["CUDD runs natively, with smaller initial tables (they grow on demand).", "Totally ordered problems whose methods have one or two subtasks, as the planner requires."])


def trans(tmpl, steps, eager, free=0, rev=0, **kw):
    n = kw.pop("name", "%s-%d%s%s%s" % (tmpl, steps, "e" if eager else "", "f" if free else "", "r" if rev else ""))
    return sc("trans-" + n, "trans", [tmpl, steps, eager, free, rev], T[tmpl] + "; every sequence of at most %d modifications%s%s%s" % (steps, "; eager progression of actions" if eager else "", "; arbitrary initial state" if free else "", "; nodes freed in both orders" if rev else ""), **kw)


prop("P06", [trans("sub2", 3, 0), trans("sub2", 4, 1, 0, 1), trans("sub2", 2, 1, 1), trans("wide", 3, 0), trans("widetask", 2, 0), trans("net0", 4, 1), trans("net1", 4, 1), trans("net2", 4, 1),
             trans("abs", 2, 0), trans("succ", 2, 1), trans("check", 2, 1), trans("rec", 3, 0), trans("cost2", 3, 1), trans("costpo", 2, 0), trans("bip", 1, 1), trans("block", 3, 1, thorough_only=True),
             trans("abs", 3, 1, thorough_only=True), trans("succ", 3, 1, thorough_only=True), trans("check", 3, 1, thorough_only=True), trans("po3", 3, 1, thorough_only=True, thorough_time=120), trans("rec", 4, 1, thorough_only=True),
             trans("to", 3, 1, thorough_only=True), trans("sub3", 2, 1, thorough_only=True), trans("net0", 3, 0, 1, thorough_only=True), trans("net0", 5, 1, 0, 1, thorough_only=True), trans("sub2", 3, 1, 1, thorough_only=True, thorough_time=120)],
     ["The reference semantics of task networks (harness/walk.h) is an independent implementation over plain data."])


def heur(tmpl, steps, *hs, **kw):
    n = kw.pop("name", tmpl + "-" + "-".join(hs))
    full = {"lmc": "LM-cut", "add": "h_add", "ff_": "h_FF", "fil": "filter"}; w = {"c": "costs", "d": "distance", "m": "mixed"}
    return sc("heur-" + n, "heur", [tmpl, steps] + list(hs), T[tmpl] + "; every search node within %d modifications; heuristics: " % steps + ", ".join("%s (%s%s)" % (full[h[:3]], w[h[4]], ", task count correction" if len(h) > 5 else "") for h in hs), **kw)


prop("P04", [heur("sub2", 2, "lmc-ct", "add-d", "ff_-d", "fil-ct"), heur("sub2", 2, "lmc-m", "add-m", "ff_-ct"), heur("cost2", 2, "lmc-ct"), heur("abs", 1, "ff_-d", "lmc-d"), heur("bip", 1, "lmc-d"),
             heur("wide", 1, "ff_-d"), heur("widetask", 1, "lmc-dt", "add-d"), heur("cost2", 1, "add-c", "ff_-c"),
             heur("cost2", 2, "add-c", "ff_-c", thorough_only=True), heur("seq", 1, "lmc-d", "add-d", thorough_only=True), heur("to", 1, "lmc-dt", "add-d", thorough_only=True), heur("to", 2, "lmc-d", "ff_-d", thorough_only=True, thorough_time=200),
             heur("abs", 2, "ff_-d", "lmc-d", thorough_only=True), heur("costpo", 2, "lmc-ct", "lmc-m", thorough_only=True, thorough_time=200), heur("succ", 1, "lmc-d", "fil-ct", thorough_only=True, thorough_time=120), heur("sub3", 1, "lmc-ct", "add-dt", thorough_only=True, thorough_time=200)],
     ["Solutions from a search node are enumerated by the reference planner (decomposition depth at most 14).", "Actions have at least one precondition or are applicable in the relaxed composition through their reachability fact, as the planner builds it."])


def hs(kind, shape, mx, n=None, **kw):
    d = {"diamond": "6 facts, 6 operators, two ways to each fact, a cycle; 8 symbolic state/goal bits; two evaluations from different states", "random": "5 facts, %s operators whose preconditions and effects are symbolic" % (n or 4),
         "zero": "7 facts, 7 operators; 4 symbolic state/goal bits", "deep": "chain of %s operators, each requiring all earlier facts" % n}[shape]
    return sc("hs-%s-%s-%s" % (kind, shape, mx) + ("" if n is None else "-%d" % n), "hs", [kind, shape, mx] + ([] if n is None else [n]), d + ("; unit costs" if mx == 1 else "; symbolic costs 0..%d" % mx), **kw)


prop("P26", [hs("add", "diamond", 3), hs("ff", "diamond", 2), hs("filter", "diamond", 1), hs("lmc", "diamond", 1), hs("lmc", "zero", 1), hs("ff", "zero", 2), hs("add", "zero", 3), hs("lmc", "random", 1, 3), hs("ff", "random", 1, 3), hs("add", "random", 1, 3), hs("filter", "random", 1, 3),
             hs("lmc", "random", 2, 2), hs("ff", "deep", 3, 5), hs("lmc", "deep", 3, 5), hs("add", "deep", 3, 5), hs("ff", "random", 2, 2),
             hs("lmc", "random", 2, 3, thorough_only=True), hs("ff", "random", 2, 3, thorough_only=True), hs("add", "random", 2, 3, thorough_only=True), hs("lmc", "diamond", 2, thorough_only=True, thorough_time=250), hs("lmc", "zero", 2, thorough_only=True, thorough_time=250), hs("ff", "diamond", 3, thorough_only=True)],
     ["Operators have at least one precondition (the relaxed composition has no others)."])


def sets(kind, n, ops=0, **kw):
    d = {"noDel": "two sets over %d elements, every sequence of %d operations, then union, intersection, difference, clone, sort", "bucket": "set over %d elements, every sequence of %d operations, then erasing any elements while iterating",
         "bint": "sorted set over %d elements, every sequence of %d operations", "delIter": "set over %d elements, %d insertions, deletion of any elements while iterating", "stack": "stack of capacity %d, every sequence of %d operations, arbitrary elements",
         "flex": "growing stack of initial capacity %d, every sequence of %d operations, arbitrary elements", "heap": "heap of initial capacity %d, every sequence of %d operations, keys -3..12",
         "util": "sorting and searching %d integers (up to 3: any 32-bit values; more: -N..N, which covers all orders)", "utilset": "sets made of %d integers"}[kind]
    return sc("sets-%s-%d-%d" % (kind, n, ops), "sets", [kind, n, ops], d % ((n, ops) if d.count("%") == 2 else (n,)), **kw)


prop("P08", [sets("noDel", 3, 4), sets("bucket", 3, 4), sets("bint", 3, 4), sets("bint", 5, 3), sets("delIter", 4, 4), sets("stack", 4, 4), sets("flex", 1, 6), sets("flex", 2, 5), sets("heap", 1, 6), sets("heap", 2, 7), sets("util", 3), sets("util", 5), sets("utilset", 5), sets("util", 1), sets("utilset", 1),
             sets("noDel", 4, 5, thorough_only=True), sets("bucket", 4, 5, thorough_only=True), sets("bint", 4, 5, thorough_only=True), sets("heap", 1, 8, thorough_only=True, thorough_time=200), sets("flex", 1, 9, thorough_only=True), sets("util", 6, thorough_only=True), sets("utilset", 6, thorough_only=True)],
     ["Elements are within the size given to init(); stacks are used within their capacity; heaps are popped only when non-empty, as every caller guarantees."])


def trie(kind, k, blocks=1, bs=0, **kw):
    if kind == "t":
        return sc("trie-table-%d" % k, "trie", [kind, k], "hash table of %d buckets, two arbitrary hashes below 2^30" % k, **kw)
    d = {0: "bits 0,1,31,62,63 of each word symbolic, padding in {0,1,33,63}", 1: "9 bits of each word symbolic, padding in {0,1,2,31,32,33,62,63}", 2: "arbitrary words, every padding", 3: "bits 0 and 63 of each word symbolic, padding 0 or 1"}[bs]
    return sc("trie-%s-%d-%d-%d" % (kind, k, blocks, bs), "trie", [kind, k, blocks, bs], "%s trie: %d sequences of 1..%d words; %s" % ("compressed" if kind == "c" else "plain", k, blocks, d), **kw)


prop("P09", [trie("c", 3, 1, 0), trie("c", 2, 2, 1), trie("c", 2, 3, 0), trie("c", 3, 2, 3), trie("c", 4, 1, 3), trie("c", 3, 3, 3), trie("s", 2, 2, 0), trie("s", 3, 1, 0), trie("t", 7), trie("t", 1),
             trie("c", 2, 1, 2, thorough_only=True, thorough_time=200), trie("c", 3, 2, 0, thorough_only=True, thorough_time=200), trie("c", 3, 1, 1, thorough_only=True, thorough_time=200), trie("s", 3, 2, 3, thorough_only=True), trie("s", 2, 2, 1, thorough_only=True), trie("c", 4, 2, 3, thorough_only=True, thorough_time=150)],
     ["Padding bits are zero and the padding is that of the last word, as VisitedList passes them. Payloads are set to a non-null value after insertion."])


def visited(tmpl, steps, reopen, opt, **kw):
    names = {"t": "task hash", "q": "sequence hash", "o": "topological ordering", "p": "order pairs", "l": "layers", "s": "parallel sequences"}
    return sc("visited-%s-%d-%d-%s" % (tmpl, steps, reopen, opt), "visited", [tmpl, steps, reopen, opt], T[tmpl] + "; two search nodes at most %d modifications from the initial node%s; %s" % (steps, "; f-values 0..%d" % reopen if reopen else "; no re-opening", ", ".join(names[c] for c in opt)), **kw)


prop("P10", [visited("sub2", 2, 0, "tqopl"), visited("net0", 2, 0, "tqopl"), visited("net1", 3, 0, "q"), visited("net2", 2, 0, "opl"), visited("bip", 1, 0, "tqopl"), visited("to", 1, 0, "tqo"), visited("ps", 1, 0, "tqos"),
             visited("seq8", 1, 0, "os"), visited("wide", 2, 0, "o"), visited("widetask", 1, 0, "tqopl"), visited("costpo", 2, 1, "tqopl"), visited("cost2", 2, 1, "o"), visited("succ", 1, 0, "tqopl"),
             visited("net1", 2, 1, "o", thorough_only=True), visited("net2", 3, 0, "tqopl", thorough_only=True), visited("seq9", 1, 0, "os", thorough_only=True), visited("seq", 1, 0, "tqopls", thorough_only=True), visited("ps", 2, 0, "os", thorough_only=True), visited("ps", 1, 1, "os", thorough_only=True),
             visited("to", 2, 0, "tqo", thorough_only=True), visited("rec", 1, 1, "o", thorough_only=True), visited("rec", 2, 0, "tq", thorough_only=True), visited("abs", 2, 0, "tqopl", thorough_only=True), visited("po3", 2, 0, "tqopl", thorough_only=True, thorough_time=200), visited("sub3", 1, 0, "opl", thorough_only=True, thorough_time=150)],
     ["With partially ordered networks, duplicates reached in different ways may be missed (the announced information is not canonical for equal task names); only nodes reached by the same modifications must be recognised there.",
      "Compiled with 61 hash buckets, so that different nodes share buckets.", "At most 255 equal tasks per network; graph isomorphism test on."])


def model(name, args, d, **kw):
    return sc("model-" + name, "model", args, d, **kw)


prop("P05", [model("lists", ["lists"], "3 facts, 2 actions: initial state, goal, preconditions, adds and deletes are symbolic lists in any order with repetitions; symbolic cost -5..1000000"),
             model("cond", ["cond"], "conditional effects (number, conditions, facts), mutex groups and invariants with negative literals symbolic"),
             model("orders-2", ["orders", 2], "a 4-task method (of the initial or of another task) with 2 arbitrary ordering pairs in any order"), model("orders-3", ["orders", 3], "as orders-2 with 3 pairs, redundant and repeated ones included"),
             model("orders-4", ["orders", 4], "as orders-2 with 4 pairs", thorough_only=True, thorough_time=250),
             model("subs", ["subs"], "symbolic subtasks, with repetitions, of two methods")],
     ["Well-formed input: every task is reachable from the initial task, every abstract task has a method, no method is empty, orderings are acyclic."])

prop("P07", [model("graph-%d-%d" % (r, v), ["graph", r, v], "decomposition graph of 4 abstract tasks and 2 actions, %d symbolic subtasks out of 5 tasks (recursion, mutual recursion, tasks that cannot be refined), symbolic cost%s 0..3 of action%s; reachability of %s" % (6 if v & 1 else 5, "s" if v > 1 else "", "s" if v > 1 else "", "actions" if r == 1 else "all tasks"), **kw)
             for r, v, kw in ((1, 0, {}), (2, 0, {}), (1, 2, dict(thorough_only=True, thorough_time=250)), (2, 1, dict(thorough_only=True, thorough_time=300)))],
     ["Every abstract task has a method and every task is reachable from the initial task, as the grounder guarantees."])

prop("P11", [sc("fringe-%d-%d%s" % (n, h, "-" + "-".join(map(str, x)) if x else ""), "fringe", [n, h] + list(x), "every sequence of at most %d insertions, with pops anywhere, of search nodes with %d heuristic(s); heuristic values, costs and depths arbitrary in %s; weight %s; all g-value options" % (n, h, "%s..%s" % x[:2] if x else "small ranges", "symbolic" if len(x) > 2 else "1..4"), **kw)
             for n, h, x, kw in ((3, 2, (), {}), (4, 1, (), {}), (3, 3, (-2, 2), {}), (3, 1, (-1000, 1000, "s"), {}), (5, 1, (), dict(thorough_only=True, thorough_time=250)), (4, 2, (), dict(thorough_only=True, thorough_time=250)))],
     ["Nodes are popped only from a non-empty queue."])

prop("P21", [sc("hddl-struct-4", "hddl", ["struct", 4], "4 symbolic subtasks (actions, no-op, method precondition, abstract task) in one method under every order along their list (6 bits), 4 further methods with no-ops and method preconditions"),
             sc("hddl-struct-3", "hddl", ["struct", 3], "3 subtasks out of 6 kinds under every order (3 bits)"), sc("hddl-bits", "hddl", ["bits"], "symbolic preconditions, effects, initial state and goal"),
             sc("hddl-names", "hddl", ["names"], "symbolic names that are equal after replacing special characters")],
     ["Action costs and conditional effects are not exported (the writer announces neither)."])


def lm(tmpl, steps, **kw):
    return sc("lm-%s-%d" % (tmpl, steps), "lm", [tmpl, steps], T[tmpl] + "; every node at most %d modification(s) from the initial one; with and without a planning graph of the reachable tasks" % steps, **kw)


prop("P16", [lm("sub2", 1), lm("wide", 1), lm("unref", 1), lm("abs", 1), lm("rec", 1, thorough_only=True), lm("to", 1, thorough_only=True), lm("cost2", 1, thorough_only=True), lm("sub2", 2, thorough_only=True), lm("rec", 2, thorough_only=True, thorough_time=250)],
     ["Landmarks are asked for only where all tasks and goals are relaxed reachable."])


def opt(mode, *a, d="", **kw):
    return sc("opt-" + "-".join([mode] + list(map(str, a))), "opt", [mode] + list(a), d + "; the input file before or after the options", **kw)


prop("P18", [opt("heur", 1, d="one heuristic: every kind, every way to give its arguments (in order, by name, in any order of names, left out)"), opt("heur", 2, d="two heuristics, possibly the same, given separately or in one list; a reduced set of arguments"),
             opt("heur", 2, 1, d="two heuristics, one of them in every form and with all arguments"),
             opt("search", d="g value, weight, suboptimal, plan output; values of the queued nodes symbolic in 0..20"), opt("general", d="time limit and seed"), opt("visited", d="every combination of the visited list's options"), opt("sat", d="every combination of the SAT planner's options"),
             opt("trans", d="every combination of the translation options"), opt("select", d="every planner, unusable command lines (unknown heuristics, values and options, several planners, several or missing files)")],
     ["The planners are replaced by stand-ins that inspect what they are given; heuristics are compared on all nodes up to 3 modifications of a fixed problem on which the different choices have different values."])


def det(h, tmpl, pre, *cfgs, **kw):
    n = {"plan": "search", "sat": "sat", "sas": "trans"}[h]
    args = [["determ", tmpl], [tmpl] + pre][h != "plan"] + list(cfgs)
    return sc("det-%s-%s" % (n, kw.pop("name", tmpl)), h, args, T[tmpl] + "; three runs, fresh memory zero (ascending addresses), 0xA5 or 0x01 (descending addresses); configurations: " + " | ".join(cfgs), **kw)


prop("P20", [det("plan", "to", [], FF), det("plan", "seq9", [], "-H rc2(add) -T -Q"), det("plan", "check", [], DFS), det("plan", "net1", [], "-H zero -H cost", "-H rc2(lmc)"), det("plan", "widetask", [], "-H rc2(lmc)"), det("plan", "unref", [], "-H rc2(filter) -H rc2(ff)"), det("plan", "ps", [], "-H rc2(ff) --suboptimal"),
             det("sat", "wide", [4, 9, 1], "-s -M"), det("sat", "check", [4, 9, 1], "-s", time=12), det("sat", "unref2", [5, 9, 1], "-s -P h2 -B", time=15), det("sas", "sub2", [2, 9], "--pgb=5 --transtype=pocond", "--pgb=5 --transtype=push"), det("sas", "unref", [3, 9], "--pgb=0", time=12),
             det("plan", "po3", [], FF, "-H rc2(lmc;est=cost) -g action", time=15, thorough_time=90), det("plan", "rec", [], "-H rc2(add) --suboptimal -w 2", "-H rc2(filter)", thorough_only=True), det("plan", "sub3", [], "-H rc2(lmc)", thorough_only=True), det("plan", "bip", [], "-H zero", "--noParallelSequences -H rc2(add) -H rc2(ff)", thorough_only=True),
             det("sat", "sub2", [4, 9, 1], "-s", thorough_only=True, thorough_time=100), det("sat", "block", [4, 9, 1], "-s -P none", thorough_only=True), det("sat", "seq", [4, 9, 1], "-s", thorough_only=True), det("sas", "saspo", [2, 9], "--pgb=5", thorough_only=True), det("sas", "ps", [2, 9], "--pgb=5", thorough_only=True)],
     ["Output lines with times are not compared. The BDD planner is not included: CUDD runs natively."])
