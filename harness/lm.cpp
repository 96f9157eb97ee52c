// lm TEMPLATE STEPS: landmark extraction (P16) and the planning graph (P17). A symbolic walk leads to a search node; the landmarks of its
// AND/OR graph are compared with the definition: a node is a landmark iff the targets cannot be reached without it.
#include "walk.h"
#include "heuristics/planningGraph.h"
#include "heuristics/landmarks/lmExtraction/LmCausal.h"
#include "heuristics/landmarks/lmExtraction/LMsInAndOrGraphs.h"
typedef std::vector<int> V; typedef std::set<int> S;
static int C(int v) { return sym_concretize_int(v); }
static SModel m; static Model *htn; static int T, M, NN;
static int kF(int f) { return f; } static int kT(int t) { return m.F + t; } static int kM(int x) { return m.F + T + x; }
// bottom-up reachability of facts, tasks and methods without node `rem`, using the allowed tasks only
static V reach(const V &s, const V &allowed, int rem) {
  V r(NN, 0); for (int f = 0; f < m.F; f++) if (s[f] && f != rem) r[f] = 1;
  for (bool ch = true; ch;) { ch = false;
    auto set = [&](int k) { if (k != rem && !r[k]) r[k] = 1, ch = true; };
    for (int a = 0; a < m.nA; a++) if (allowed[a] && kT(a) != rem) { bool ok = true; for (int f = 0; f < m.F; f++) if (m.act[a].pre[f] && !r[f]) ok = false; if (ok) { set(kT(a)); for (int f = 0; f < m.F; f++) if (m.act[a].add[f]) set(f); } }
    for (int i = 0; i < M; i++) { auto &x = m.meth[i]; bool ok = allowed[x.task] && kM(i) != rem; for (int t : x.sub) if (!r[kT(t)]) ok = false; if (ok) { set(kM(i)); set(kT(x.task)); } }
  }
  return r;
}
static S listedLMs(landmark **l, int n) { S r; for (int i = 0; i < n; i++) { sym_assert(l[i]->size == 1 && l[i]->connection == atom, "a landmark that is not a single fact, task or method"); int v = l[i]->lm[0]; int k = l[i]->type == fact ? kF(v) : l[i]->type == task ? kT(v) : kM(v);
    sym_assert(v >= 0 && v < (l[i]->type == fact ? m.F : l[i]->type == task ? T : M), "a landmark that does not exist"); sym_assert(r.insert(k).second, "a landmark is listed twice"); } return r; }
extern "C" void harness_main(int argc, char **argv) {
  m = makeModel(argv[0]); int steps = atoi(argv[1]);
  searchNode *n; htn = loadModel(m, true, true, &n);
  for (auto &a : m.act) { a.cost = C(a.cost); for (int i = 0; i < m.F; i++) { a.pre[i] = C(a.pre[i]); a.add[i] = C(a.add[i]); a.del[i] = C(a.del[i]); } }
  for (auto &x : m.meth) { x.task = C(x.task); for (int &t : x.sub) t = C(t); }
  for (int i = 0; i < m.F; i++) m.goal[i] = C(m.goal[i]), m.s0[i] = C(m.s0[i]);
  T = m.nA + m.nT; M = m.meth.size(); NN = m.F + T + M; searchNode *n0 = n;
  int deep = C(sym_int("depth", 0, steps)); searchNode *prev = n;
  for (int k = 0; k < deep; k++) {
    std::vector<std::pair<int, int>> o;
    for (int i = 0; i < n->numAbstract; i++) for (int j = 0; j < htn->numMethodsForTask[n->unconstraintAbstract[i]->task]; j++) o.push_back({i, j});
    for (int i = 0; i < n->numPrimitive; i++) if (htn->isApplicable(n, n->unconstraintPrimitive[i]->task)) o.push_back({-1, i});
    int c = sym_int_i("pick", k, 0, 20); sym_assume(c < (int)o.size()); c = C(c);
    prev = n; n = o[c].first >= 0 ? htn->decompose(n, o[c].first, htn->taskToMethods[n->unconstraintAbstract[o[c].first]->task][o[c].second]) : htn->apply(n, o[c].second);
  }
  V s(m.F); for (int f = 0; f < m.F; f++) s[f] = n->state[f] ? 1 : 0;
  V all(T, 1), td(T, 0); S tgt; for (auto p : stepsOf(n)) td[p->task] = 1, tgt.insert(kT(p->task)); for (int f = 0; f < m.F; f++) if (m.goal[f]) tgt.insert(f);
  for (bool ch = true; ch;) { ch = false; for (auto &x : m.meth) if (td[x.task]) for (int t : x.sub) if (!td[t]) td[t] = 1, ch = true; }
  // planning graph, with the tasks that can be reached from the network or with all tasks
  planningGraph pg(htn); noDelIntSet in; in.init(T);
  if (deep) { for (int t = 0; t < T; t++) in.insert(t); pg.calcReachability(prev->state, in); in.clear(); }     // earlier evaluations must leave nothing behind
  int useTd = C(sym_int("topdown", 0, 1)); const V &al = useTd ? td : all; for (int t = 0; t < T; t++) if (al[t]) in.insert(t);
  pg.calcReachability(n->state, in);
  V r = reach(s, al, -1);
  for (int f = 0; f < m.F; f++) sym_assert(pg.factReachable(f) == (r[f] > 0), "wrong reachability of a fact");
  for (int t = 0; t < T; t++) sym_assert(pg.taskReachable(t) == (r[kT(t)] > 0), "wrong reachability of a task");
  for (int x = 0; x < M; x++) sym_assert(pg.methodReachable(x) == (r[kM(x)] > 0), "wrong reachability of a method");
  S useful; for (int f = 0; f < m.F; f++) if (!s[f]) { if (m.goal[f]) useful.insert(f); for (int a = 0; a < m.nA; a++) if (r[kT(a)] && m.act[a].pre[f]) useful.insert(f); }
  S got; for (int f = pg.usefulFactSet.getFirst(); f >= 0; f = pg.usefulFactSet.getNext()) got.insert(f);
  sym_assert(got == useful, "wrong set of facts that are needed");
  // landmarks
  auto lms = [&](const V &st, const V &allowed, const S &targets, bool skipTrue) {
    S res; for (int v = 0; v < NN; v++) { if (skipTrue && v < m.F && st[v] && !targets.count(v)) continue; V w = reach(st, allowed, v); for (int t : targets) if (!w[t]) { res.insert(v); break; } } return res; };
  auto solvable = [&](const V &st, const V &allowed, const S &targets) { V w = reach(st, allowed, -1); for (int t : targets) if (!w[t]) return false; return true; };
  bool sol = solvable(s, all, tgt); sym_note(0, sol); sym_note(1, !sol);
  LmCausal lc(htn);
  if (deep && C(sym_int("before", 0, 1))) { S t0; for (auto p : stepsOf(prev)) t0.insert(kT(p->task)); for (int f = 0; f < m.F; f++) if (m.goal[f]) t0.insert(f); V s0(m.F); for (int f = 0; f < m.F; f++) s0[f] = prev->state[f]; if (solvable(s0, all, t0)) lc.calcLMs(prev); }
  if (sol) {
    bool first = C(sym_int("pgfirst", 0, 1)); V r2 = reach(s, td, -1); bool sol2 = solvable(s, td, tgt);
    planningGraph pg2(htn); noDelIntSet in2; in2.init(T); for (int t = 0; t < T; t++) if (td[t]) in2.insert(t); pg2.calcReachability(n->state, in2);
    for (int k = 0; k < 2; k++) if (k == first) {
      lc.calcLMs(n); S g = listedLMs(lc.getLMs(), lc.getNumLMs()), e = lms(s, all, tgt, false);
      for (int v : g) sym_assert(e.count(v), "a landmark that is not in every solution"); for (int v : e) sym_assert(g.count(v), "a landmark is missing");
      for (int t = 0; t < T; t++) { lc.initIterTask(t); int c = 0; S it; while (lc.iterHasNext()) { int v = lc.iterGetLm(); auto ty = lc.iterGetLmType(); it.insert(ty == fact ? kF(v) : ty == task ? kT(v) : kM(v)); c++; lc.iterate(); }
        V w0 = reach(s, all, -1); S x; if (w0[kT(t)]) x = lms(s, all, {kT(t)}, false); sym_assert(it == x && c == (int)x.size(), "wrong landmarks of a task"); }
    } else if (sol2) {
      lc.calcLMs(n, &pg2); S g = listedLMs(lc.getLMs(), lc.getNumLMs()), e = lms(s, td, tgt, true);
      for (int v : g) sym_assert(e.count(v), "a landmark that is not in every solution (planning graph)"); for (int v : e) sym_assert(g.count(v), "a landmark is missing (planning graph)");
    }
  }
  V s0(m.F); for (int f = 0; f < m.F; f++) s0[f] = n0->state[f] ? 1 : 0; S t0 = {kT(m.init)}; for (int f = 0; f < m.F; f++) if (m.goal[f]) t0.insert(f);
  if (solvable(s0, all, t0)) {
    LMsInAndOrGraphs ao(htn); ao.generateAndOrLMs(n0); S g = listedLMs(ao.getLMs(), ao.getNumLMs()), e = lms(s0, all, t0, false);
    for (int v : g) sym_assert(e.count(v), "an AND/OR landmark that is not in every solution"); for (int v : e) sym_assert(g.count(v), "an AND/OR landmark is missing");
  }
  { // local landmarks: subtasks common to all methods, recursively
    LMsInAndOrGraphs lo(htn); char *out; sym_capture_begin(); lo.generateLocalLMs(htn, n); sym_capture_end(&out); free(out); S g = listedLMs(lo.getLMs(), lo.getNumLMs()), e; std::vector<int> todo; S seen; for (auto p : stepsOf(n)) if (seen.insert(p->task).second) todo.push_back(p->task);
    while (!todo.empty()) { int t = todo.back(); todo.pop_back(); S c; bool fst = true; for (auto &x : m.meth) if (x.task == t) { S q(x.sub.begin(), x.sub.end()); if (fst) c = q; else { S d; for (int y : c) if (q.count(y)) d.insert(y); c = d; } fst = false; } for (int y : c) { e.insert(kT(y)); if (seen.insert(y).second) todo.push_back(y); } }
    sym_assert(g == e, "wrong local landmarks");
  }
  sym_reach();
}
