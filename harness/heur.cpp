// heur TEMPLATE STEPS H...: the relaxed-composition heuristics on search nodes (P04). A symbolic walk leads to a search
// node; dead-end reports and estimates are compared with all solutions from that node (independent reference search),
// the values of h_add and reachability with the definition on an independently built relaxed composition.
#include "walk.h"
#include "relax.h"
#include "heuristics/rcHeuristics/hhRC2.h"
#include "heuristics/hhZero.h"
static SModel m; static Model *htn;
static int C(int v) { return sym_concretize_int(v); }
typedef std::vector<int> V;
struct Est { std::string name; std::string kind; eEstimate est; bool tc; hhRC2<hsLmCut> *l = nullptr; hhRC2<hsAddFF> *a = nullptr; hhRC2<hsFilter> *f = nullptr;
  int value(searchNode *n) { return l ? l->setHeuristicValue(n) : a ? a->setHeuristicValue(n) : f->setHeuristicValue(n); } };
static std::vector<V> reachT;
extern "C" void harness_main(int argc, char **argv) {
  m = makeModel(argv[0]); int steps = atoi(argv[1]);
  searchNode *n; htn = loadModel(m, true, true, &n);
  for (auto &a : m.act) for (int i = 0; i < m.F; i++) { a.pre[i] = C(a.pre[i]); a.add[i] = C(a.add[i]); a.del[i] = C(a.del[i]); }
  for (auto &x : m.meth) { x.task = C(x.task); for (int &t : x.sub) t = C(t); for (int &o : x.ord) o = C(o); }
  for (int i = 0; i < m.F; i++) m.goal[i] = C(m.goal[i]), m.s0[i] = C(m.s0[i]);
  char *out; sym_capture_begin();
  std::vector<Est> hs;
  for (int i = 2; i < argc; i++) {
    std::string s = argv[i]; Est e; e.name = s; e.kind = s.substr(0, 3); std::string w = s.substr(4, 1); e.tc = s.size() > 5; e.est = w == "c" ? estCOSTS : w == "m" ? estMIXED : estDISTANCE;
    if (e.kind == "lmc") e.l = new hhRC2<hsLmCut>(htn, 0, e.est, e.tc);
    else if (e.kind == "fil") e.f = new hhRC2<hsFilter>(htn, 0, e.est, e.tc);
    else { e.a = new hhRC2<hsAddFF>(htn, 0, e.est, e.tc); e.a->sasH->heuristic = e.kind == "add" ? sasAdd : sasFF; }
    hs.push_back(e);
  }
  sym_capture_end(&out); free(out);
  int T = m.nA + m.nT; reachT.assign(T, V(T, 0)); for (int t = 0; t < T; t++) reachT[t][t] = 1;
  for (bool ch = true; ch;) { ch = false; for (auto &x : m.meth) for (int t : x.sub) for (int u = 0; u < T; u++) if (reachT[t][u] && !reachT[x.task][u]) { reachT[x.task][u] = 1; ch = true; } }
  int deep = C(sym_int("depth", 0, steps));
  std::vector<searchNode *> path = {n};
  for (int k = 0; k < deep; k++) {
    int opt = 0; std::vector<std::pair<int, int>> o;
    for (int i = 0; i < n->numAbstract; i++) for (int j = 0; j < htn->numMethodsForTask[n->unconstraintAbstract[i]->task]; j++) o.push_back({i, j});
    for (int i = 0; i < n->numPrimitive; i++) if (htn->isApplicable(n, n->unconstraintPrimitive[i]->task)) o.push_back({-1, i});
    int c = sym_int_i("pick", k, 0, 20); sym_assume(c < (int)o.size()); c = C(c);
    n = o[c].first >= 0 ? htn->decompose(n, o[c].first, htn->taskToMethods[n->unconstraintAbstract[o[c].first]->task][o[c].second]) : htn->apply(n, o[c].second);
    path.push_back(n);
  }
  if (deep > 0) { searchNode *q = path[C(sym_int("before", 0, 1)) ? 0 : deep - 1]; for (auto &e : hs) e.value(q); }      // earlier evaluations must leave nothing behind
  // all solutions from this node
  std::vector<planStep *> st = stepsOf(n); SModel r = m; for (int i = 0; i < m.F; i++) r.s0[i] = n->state[i] ? 1 : 0;
  std::vector<V> sols; int cntSol;
  if (st.empty()) { cntSol = htn->isGoal(n); if (cntSol) sols.push_back(V(m.nA + 1, 0)); }
  else {
    int top = r.abstractTask(); V sub; for (auto p : st) sub.push_back(p->task);
    int me = r.method(top, sub, false); r.init = top;
    for (size_t i = 0; i < st.size(); i++) for (int s = 0; s < st[i]->numSuccessors; s++) for (size_t j = 0; j < st.size(); j++) if (st[i]->successorList[s] == st[j]) r.order(me, i, j);
    loadOracle(r, false);
    static int buf[1 << 18]; cntSol = orc_plans(14, 200000, buf, 1 << 18);
    sym_assume(cntSol >= 0);
    for (int i = 0; i < cntSol; i++) { V v(buf + i * (m.nA + 1), buf + (i + 1) * (m.nA + 1)); v[m.nA]--; sols.push_back(v); }
  }
  sym_note(0, cntSol > 0); sym_note(1, cntSol == 0);
  std::vector<int> cnt(T, 0); for (auto p : st) cnt[p->task]++;
  for (auto &e : hs) {
    int h = e.value(n);
    // independent relaxed composition
    Relax x; x.F = m.F + m.nA + T;
    auto tdr = [&](int a) { return m.F + a; }; auto bur = [&](int t) { return m.F + m.nA + t; };
    for (int a = 0; a < m.nA; a++) { ROp o; o.cost = e.est == estDISTANCE ? 1 : m.act[a].cost; for (int i = 0; i < m.F; i++) { if (m.act[a].pre[i]) o.pre.push_back(i); if (m.act[a].add[i]) o.add.push_back(i); } o.pre.push_back(tdr(a)); o.add.push_back(bur(a)); x.op.push_back(o); }
    for (auto &me : m.meth) { ROp o; o.cost = e.est != estCOSTS; for (int t = 0; t < T; t++) for (int s : me.sub) if (s == t) { o.pre.push_back(bur(t)); break; } o.add.push_back(bur(me.task)); x.op.push_back(o); }
    V s(x.F, 0), g(x.F, 0); for (int i = 0; i < m.F; i++) { s[i] = n->state[i] ? 1 : 0; g[i] = m.goal[i]; }
    for (auto p : st) { g[bur(p->task)] = 1; for (int a = 0; a < m.nA; a++) if (reachT[p->task][a]) s[tdr(a)] = 1; }
    V R = x.reach(s); bool reach = true; for (int i = 0; i < x.F; i++) if (g[i] && !R[i]) reach = false;
    if (h == UNREACHABLE) { sym_assert(cntSol == 0, "a search node with a solution is reported as dead end"); sym_assert(!reach, "a relaxed solvable search node is reported as dead end"); continue; }
    sym_assert(reach, "a relaxed unsolvable search node got a finite value");
    sym_assert(h >= 0, "negative estimate");
    // correction for tasks that are contained several times
    long corr = 0;
    if (e.tc && e.est == estCOSTS) for (int t = 0; t < m.nA; t++) if (cnt[t] > 1) corr += (long)m.act[t].cost * (cnt[t] - 1);
    if (e.kind == "add" && !(e.tc && e.est == estDISTANCE)) { std::vector<long> ha = x.sum(s); long A = corr; for (int i = 0; i < x.F; i++) if (g[i]) A += ha[i]; sym_assert(h == A, "h_add on the relaxed composition differs from its definition"); }
    if (e.kind == "fil" && !(e.tc && e.est == estDISTANCE)) sym_assert(h == corr, "value of the filter heuristic");
    if (e.kind == "lmc" && !(e.tc && e.est == estDISTANCE)) { std::vector<long> hm = x.max(s); long M = 0; for (int i = 0; i < x.F; i++) if (g[i]) M = Relax::mx(M, hm[i]); sym_assert(h >= M + corr, "LM-cut is smaller than h_max"); }
    if (e.kind == "ff_" && !(e.tc && e.est == estDISTANCE)) { std::vector<long> hm = x.max(s); long M = 0, all = corr; for (int i = 0; i < x.F; i++) if (g[i]) M = Relax::mx(M, hm[i]); for (auto &o : x.op) all += o.cost; sym_assert(h >= M + corr, "h_FF is smaller than h_max"); sym_assert(h <= all, "h_FF exceeds the costs of all operators"); }
    if (e.kind == "lmc" || e.kind == "fil") if (!(e.tc && e.est == estDISTANCE)) {
      int bad = 0;
      for (auto &v : sols) { long c = e.est != estCOSTS ? v[m.nA] : 0; for (int a = 0; a < m.nA; a++) c += (long)v[a] * (e.est == estDISTANCE ? 1 : m.act[a].cost); bad |= h > c; }
      sym_assert(!bad, "an admissible heuristic exceeds the cost of a solution");
      if (e.kind == "lmc") for (auto c : *e.l->sasH->cuts) { // stored cuts: actions first, then methods; without them the goal is not relaxed reachable
        V skip(x.op.size(), 0); for (int i = 0; i < c->size; i++) { int id = i < c->firstMethod ? c->lm[i] : c->lm[i] + m.nA; sym_assert(id >= 0 && id < (int)skip.size() && (i < c->firstMethod) == (id < m.nA), "cut element"); skip[id] = 1; }
        sym_assert(!x.without(s, g, skip), "a stored cut is not a landmark");
      }
    }
    searchNode *q = n; q->heuristicValue = new int[1]; q->goalReachable = true;
    Heuristic *hp = e.l ? (Heuristic *)e.l : e.a ? (Heuristic *)e.a : (Heuristic *)e.f;
    if (!st.empty()) { hp->setHeuristicValue(q, path[0], 0); sym_assert(q->heuristicValue[0] == h && q->goalReachable, "the value depends on when it is computed"); }
  }
  sym_reach();
}
