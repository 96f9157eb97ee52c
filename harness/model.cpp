// model MODE REACH: the loaded model against the input file (P05) and the structural analyses (P07).
//  lists   classical part: symbolic tokens in any order, with repetitions; symbolic cost
//  cond    conditional effects, mutex groups, invariants with negative literals
//  orders  symbolic list of ordering pairs of a 4-task method (redundant, repeated, in any order)
//  subs    symbolic subtasks (repetitions) of two methods
//  graph   symbolic decomposition graph: strongly connected components, reachability, minimal implied distance and costs
#include "walk.h"
typedef std::vector<int> V; typedef std::set<int> S;
static int C(int v) { return sym_concretize_int(v); }
static bool sameSet(const int *l, int n, const S &s, const char *) { S t; for (int i = 0; i < n; i++) t.insert(C(l[i])); return t == s; }
static bool sameList(const int *l, int n, const V &v) { if (n != (int)v.size()) return false; for (int i = 0; i < n; i++) if (l[i] != v[i]) return false; return true; }
#define SETIS(l, n, s, m) sym_assert(sameSet(l, n, s, m), m); sym_assert((n) == (int)(s).size(), m " (repetitions)")
struct Raw { int cost; V pre, add, del; };
static Model *readText(const std::string &text, bool vec) {
  std::string f = modelFile(); FILE *o = fopen(f.c_str(), "w"); fputs(text.c_str(), o); fclose(o);
  char *out; sym_capture_begin(); std::ifstream in(f); Model *h = new Model(true, mtrACTIONS, true, true); h->rintanenInvariants = vec; h->read(&in); sym_capture_end(&out); free(out); return h;
}
static std::string str(int v) { return std::to_string(v); }
static std::string toks(const V &v) { std::string r; for (int x : v) r += str(tok(x)) + " "; return r + "-1\n"; }
static std::string ctoks(const V &v) { std::string r; for (int x : v) r += "0 " + str(tok(x)) + " "; return r + "-1\n"; }
static V symList(const char *nm, int n, int lo, int hi) { V v; int len = C(sym_int_i((std::string(nm) + "len").c_str(), n, 0, n)); for (int i = 0; i < len; i++) v.push_back(sym_int_i(nm, i, lo, hi)); return v; }
static S setOf(const V &v) { S s; for (int x : v) s.insert(C(x)); return s; }

static void checkActions(Model *h, int F, const std::vector<Raw> &a) {
  sym_assert(h->numStateBits == F && h->numActions == (int)a.size(), "wrong number of facts or actions");
  std::vector<S> p2a(F), a2a(F), d2a(F); S less;
  for (size_t i = 0; i < a.size(); i++) {
    S p = setOf(a[i].pre), ad = setOf(a[i].add), de; for (int x : setOf(a[i].del)) if (!ad.count(x)) de.insert(x);
    sym_assert(h->actionCosts[i] == a[i].cost, "wrong action cost");
    SETIS(h->precLists[i], h->numPrecs[i], p, "wrong precondition list");
    sym_assert(sameSet(h->addLists[i], h->numAdds[i], ad, ""), "wrong add list"); sym_assert(sameSet(h->delLists[i], h->numDels[i], de, ""), "wrong delete list");
    for (int f : p) p2a[f].insert(i); for (int f : ad) a2a[f].insert(i); for (int f : de) d2a[f].insert(i);
    if (p.empty()) less.insert(i);
    if (h->rintanenInvariants) for (int f = 0; f < F; f++) { sym_assert(h->addVectors[i][f] == (ad.count(f) > 0), "wrong add vector"); sym_assert(h->delVectors[i][f] == (de.count(f) > 0), "wrong delete vector"); }
  }
  SETIS(h->precLessActions, h->numPrecLessActions, less, "wrong list of actions without precondition");
  for (int f = 0; f < F; f++) {
    SETIS(h->precToAction[f], h->precToActionSize[f], p2a[f], "wrong actions for a precondition fact");
    SETIS(h->addToAction[f], h->addToActionSize[f], a2a[f], "wrong actions for an added fact");
    SETIS(h->delToAction[f], h->delToActionSize[f], d2a[f], "wrong actions for a deleted fact");
  }
}
static void lists() {
  int F = 3; std::vector<Raw> a(2);
  a[0] = {sym_int("cost", -5, 1000000), symList("p", 2, 0, F - 1), symList("a", 2, 0, F - 1), symList("d", 2, 0, F - 1)};
  a[1] = {sym_int("cost1", 0, 7), symList("q", 1, 0, F - 1), {1, 0}, {2}};
  V s0 = symList("s", 1, 0, F - 1), g = symList("g", 1, 0, F - 1);
  std::string t = ";; f\n3\nfa\n+fb[x,y]\nfc\n\n;; v\n2\n0 1 va\n2 2 vb\n\n;; m\n0\n\n;; m\n0\n\n;; m\n0\n\n;; a\n2\n";
  for (auto &x : a) t += str(tok(x.cost)) + "\n" + toks(x.pre) + ctoks(x.add) + ctoks(x.del);
  t += "\n;; s\n" + toks(s0) + "\n;; g\n" + toks(g) + "\n;; t\n3\n0 act\n0 act2[c]\n1 top\n\n;; i\n2\n\n;; m\n1\nmeth\n2\n0 1 -1\n0 1 -1\n";
  Model *h = readText(t, true);
  checkActions(h, F, a);
  sym_assert(sameList(h->s0List, h->s0Size, s0), "wrong initial state"); sym_assert(sameList(h->gList, h->gSize, g), "wrong goal");
  S s = setOf(s0); for (int f = 0; f < F; f++) sym_assert(h->s0Vector[f] == (s.count(f) > 0), "wrong initial state vector");
  sym_assert(h->factStrs[1] == "+fb[x,y]" && h->taskNames[1] == "act2[c]" && h->methodNames[0] == "meth" && h->varNames[1] == "vb", "wrong name");
  sym_assert(h->isHtnModel && h->numTasks == 3 && h->isPrimitive[0] && h->isPrimitive[1] && !h->isPrimitive[2] && h->initialTask == 2 && h->numMethods == 1, "wrong task or method section");
  sym_assert(h->numVars == 2 && h->firstIndex[0] == 0 && h->lastIndex[0] == 1 && h->firstIndex[1] == 2 && h->varOfStateBit[1] == 0 && h->varOfStateBit[2] == 1, "wrong variables");
  searchNode *n = h->prepareTNi(h);
  for (int f = 0; f < F; f++) sym_assert(n->state[f] == (s.count(f) > 0), "wrong state of the initial node");
  sym_assert(n->numAbstract == 1 && n->numPrimitive == 0 && n->unconstraintAbstract[0]->task == 2, "wrong initial task network");
}
static void cond() {
  int F = 4; int which = C(sym_int("which", 0, 1));
  struct E { V cond; int f; }; std::vector<E> eff;
  int part = C(sym_int("part", 0, 1)), ne = part ? 1 : C(sym_int("ne", 0, 2)); for (int i = 0; i < ne; i++) { E e; int k = part ? 1 : C(sym_int_i("nc", i, 0, 2)); for (int j = 0; j < k; j++) e.cond.push_back(sym_int_i("cf", i * 2 + j, 0, F - 1)); e.f = sym_int_i("ef", i, 0, F - 1); eff.push_back(e); }
  std::string line; for (auto &e : eff) { line += str(e.cond.size()) + " "; for (int c : e.cond) line += str(tok(c)) + " "; line += str(tok(e.f)) + " "; } line += "-1\n";
  V g0, g1, iv; if (part) { g0 = symList("x", 2, 0, F - 1); g1 = symList("y", 1, 0, F - 1); iv = symList("z", 2, -6, 3); }   // literals: f or -f-2
  std::vector<int> ivx; for (int x : iv) { sym_assume(x != -1); ivx.push_back(C(x)); }
  int u = part ? C(sym_int("group", 0, 2)) : 0; std::string grp[3] = {"0\n", "0\n", "0\n"}; grp[u] = "2\n" + toks(u == 2 ? V(ivx) : g0) + toks(g1);
  std::string t = ";; f\n4\nfa\nfb\nfc\nfd\n\n;; v\n4\n0 0 a\n1 1 b\n2 2 c\n3 3 d\n\n;; m\n" + grp[0] + "\n;; m\n" + grp[1] + "\n;; m\n" + grp[2] + "\n;; a\n2\n";
  t += "1\n0 -1\n" + (which ? std::string("-1\n") + line : line + "-1\n") + "5\n1 2 -1\n0 3 -1\n-1\n";
  t += "\n;; s\n0 -1\n\n;; g\n-1\n\n;; t\n3\n0 act\n0 act2\n1 top\n\n;; i\n2\n\n;; m\n1\nmeth\n2\n0 1 -1\n-1\n";
  Model *h = readText(t, false);
  V plain; std::vector<E> ce; for (auto &e : eff) if (e.cond.empty()) plain.push_back(e.f); else ce.push_back(e);
  sym_assert(which ? sameList(h->delLists[0], h->numDels[0], plain) : sameList(h->addLists[0], h->numAdds[0], plain), "wrong unconditional effects");
  int n = which ? h->numConditionalDels[0] : h->numConditionalAdds[0]; sym_assert(n == (int)ce.size(), "wrong number of conditional effects");
  for (int i = 0; i < n; i++) {
    sym_assert((which ? h->conditionalDelLists[0][i] : h->conditionalAddLists[0][i]) == ce[i].f, "wrong conditional effect");
    const int *c = which ? h->conditionalDelListsCondition[0][i] : h->conditionalAddListsCondition[0][i];
    for (size_t j = 0; j < ce[i].cond.size(); j++) sym_assert(c[j] == ce[i].cond[j], "wrong condition of a conditional effect");
  }
  sym_assert(h->actionCosts[1] == 5 && h->numPrecs[1] == 2 && h->numAdds[1] == 1 && h->addLists[1][0] == 3 && h->numDels[1] == 0 && h->numConditionalAdds[1] == 0, "the following action is wrong");
  int num[3] = {h->numStrictMutexes, h->numMutexes, h->numInvariants}; int **el[3] = {h->strictMutexes, h->mutexes, h->invariants}; int *sz[3] = {h->strictMutexesSize, h->mutexesSize, h->invariantsSize};
  for (int k = 0; k < 3; k++) { sym_assert(num[k] == (k == u ? 2 : 0), "wrong number of mutex groups or invariants");
    if (k == u) { V e = g0; if (u == 2) { e = ivx; for (int &x : e) if (x < 0) x++; } sym_assert(sameList(el[k][0], sz[k][0], e) && sameList(el[k][1], sz[k][1], g1), "wrong mutex group or invariant"); } }
}
typedef std::vector<V> M;
static M closure(const M &o) { M r = o; int k = o.size(); for (int q = 0; q < k; q++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (r[i][q] && r[q][j]) r[i][j] = 1; return r; }
static M listed(Model *h, int m) { int k = h->numSubTasks[m]; M r(k, V(k, 0)); for (int o = 0; o < h->numOrderings[m]; o += 2) { sym_assert(!r[h->ordering[m][o]][h->ordering[m][o + 1]], "an ordering is listed twice"); r[h->ordering[m][o]][h->ordering[m][o + 1]] = 1; } return r; }
// order: the given (closed) order of each method
static void checkMethods(Model *h, const std::vector<V> &sub, const V &task, const std::vector<M> &order, int init) {
  bool to = true, up = true, ps = true; int nT = h->numTasks;
  std::vector<S> t2m(nT), st2m(nT);
  for (size_t m = 0; m < sub.size(); m++) {
    int k = sub[m].size(); const M &c = order[m];
    sym_assert(h->decomposedTask[m] == task[m] && sameList(h->subTasks[m], h->numSubTasks[m], sub[m]), "wrong method");
    t2m[task[m]].insert(m); for (int s : sub[m]) st2m[s].insert(m);
    M l = listed(h, m), red = c; for (int q = 0; q < k; q++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (c[i][q] && c[q][j]) red[i][j] = 0;
    sym_assert(l == red, "the orderings of a method are not the transitive reduction of the given ones");
    S first, last, distinct; V succ(k, 0), pred(k, 0); int fp = 0, fa = 0; bool total = true;
    for (int i = 0; i < k; i++) {
      bool f = true, la = true; distinct.insert(sub[m][i]);
      for (int j = 0; j < k; j++) { if (c[j][i]) f = false; if (c[i][j]) la = false; succ[i] += red[i][j]; pred[i] += red[j][i]; if (i != j && !c[i][j] && !c[j][i]) total = false; }
      if (f) { first.insert(i); (h->isPrimitive[sub[m][i]] ? fp : fa)++; } if (la) last.insert(i);
      sym_assert(h->methodSubtaskSuccNum[m][i] == succ[i], "wrong number of successors of a subtask");
    }
    SETIS(h->methodsFirstTasks[m], h->numFirstTasks[m], first, "wrong first tasks"); SETIS(h->methodsLastTasks[m], h->numLastTasks[m], last, "wrong last tasks");
    sym_assert(h->numFirstPrimSubTasks[m] == fp && h->numFirstAbstractSubTasks[m] == fa, "wrong number of first primitive or abstract tasks");
    SETIS(h->sortedDistinctSubtasks[m], h->numDistinctSTs[m], distinct, "wrong distinct subtasks");
    for (int i = 0; i < h->numDistinctSTs[m]; i++) { int n = 0; for (int s : sub[m]) n += s == h->sortedDistinctSubtasks[m][i]; sym_assert(h->sortedDistinctSubtaskCount[m][i] == n, "wrong subtask count"); sym_assert(!i || h->sortedDistinctSubtasks[m][i - 1] < h->sortedDistinctSubtasks[m][i], "distinct subtasks are not sorted"); }
    if (!total) { bool one = true, oneP = true; for (int i = 0; i < k; i++) { if (succ[i] > 1) one = false; if (pred[i] > 1) oneP = false; } to = false; if (task[m] != init || !one) up = false; if (task[m] != init || !one || !oneP) ps = false; }
  }
  sym_assert(h->isTotallyOrdered == to, "wrong classification: totally ordered"); sym_assert(h->isUniquePaths == up, "wrong classification: unique paths"); sym_assert(h->isParallelSequences == ps, "wrong classification: parallel sequences");
  for (int t = 0; t < nT; t++) { SETIS(h->taskToMethods[t], h->numMethodsForTask[t], t2m[t], "wrong methods of a task"); SETIS(h->stToMethod[t], h->stToMethodNum[t], st2m[t], "wrong methods containing a task"); }
  auto orderTables = [&](bool closed) {
    h->buildOrderingDatastructures();
    for (size_t m = 0; m < sub.size(); m++) {
      int k = sub[m].size(); const M &c = order[m]; M l = listed(h, m); bool total = true; for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) if (!c[i][j] && !c[j][i]) total = false;
      sym_assert(h->methodIsTotallyOrdered[m] == total, "wrong classification of a method as totally ordered");
      V pos(k, -1); for (int i = 0; i < k; i++) { int x = h->methodTotalOrder[m][i]; sym_assert(x >= 0 && x < k && pos[x] < 0, "the task order of a method is no permutation"); pos[x] = i; }
      for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) {
        if (c[i][j]) sym_assert(pos[i] < pos[j], "the task order of a method contradicts its orderings");
        sym_assert((h->methodSubTasksSuccessors[m][i].count(j) > 0) == (l[i][j] > 0) && (h->methodSubTasksPredecessors[m][j].count(i) > 0) == (l[i][j] > 0), "wrong predecessors or successors of a subtask");
        if (closed) sym_assert(l[i][j] == c[i][j], "the orderings are not transitively closed");
      }
    }
  };
  orderTables(false); h->computeTransitiveClosureOfMethodOrderings(); orderTables(true);
}
static std::string methodText(const std::vector<V> &sub, const V &task, const std::vector<V> &ord) { std::string t; for (size_t m = 0; m < sub.size(); m++) t += "m" + str(m) + "\n" + str(task[m]) + "\n" + toks(sub[m]) + toks(ord[m]); return t; }
static const char *head2 = ";; f\n1\nfa\n\n;; v\n1\n0 0 va\n\n;; m\n0\n\n;; m\n0\n\n;; m\n0\n\n;; a\n2\n";
static void methods(bool subs, int npairs) {
  // tasks: 0,1 actions; 2 top, 3 A, 4 B
  std::vector<V> sub = {{3, 0, 4, 1}, {0, 1, 0}, {1, 0}}; V task = {2, 3, 4}; std::vector<V> ord = {{}, {2, 1, 0, 2, 0, 1}, {1, 0}};
  int top = C(sym_int("symtask", 0, 1));       // the method with symbolic parts belongs to the initial task or not
  if (!top) { task = {3, 2, 4}; sub[0] = {0, 0, 4, 1}; sub[1] = {3, 1, 0}; }
  if (subs) {
    for (int i = 0; i < 4; i++) { int k = C(sym_int_i("s", i, 0, 2)); sub[0][i] = k == 2 ? 4 : k; }
    if (top) sub[1][0] = 0; ord[0] = {0, 1, 3, 2, 0, 3}; if (top) sub[2] = {1, 1, 0}; sub.push_back(sub[0]); task.push_back(2); ord.push_back({}); sub.back()[1] = C(sym_int("t", 0, 1)) ? 3 : 1; sub.back()[2] = 4;
  } else {
    M o(4, V(4, 0)); for (int i = 0; i < npairs; i++) { int a = sym_int_i("oa", i, 0, 3), b = sym_int_i("ob", i, 0, 3); sym_assume(a != b); a = C(a); b = C(b); ord[0].push_back(a); ord[0].push_back(b); o[a][b] = 1; }
    M c = closure(o); for (int i = 0; i < 4; i++) sym_assume(!c[i][i]);
  }
  std::string t = std::string(head2) + "1\n-1\n-1\n-1\n2\n-1\n-1\n-1\n\n;; s\n-1\n\n;; g\n-1\n\n;; t\n5\n0 a\n0 b\n1 top\n1 A\n1 B\n\n;; i\n2\n\n;; m\n" + str(sub.size()) + "\n" + methodText(sub, task, ord);
  Model *h = readText(t, false);
  std::vector<M> order; for (size_t m = 0; m < sub.size(); m++) { int k = sub[m].size(); M o(k, V(k, 0)); for (size_t i = 0; i + 1 < ord[m].size(); i += 2) o[ord[m][i]][ord[m][i + 1]] = 1; order.push_back(closure(o)); }
  checkMethods(h, sub, task, order, 2);
}
static void graph(int reach, int variant) {
  // tasks: 0,1 actions; 2 top, 3 A, 4 B, 5 C; every task is reachable and can be decomposed into actions
  SModel m; m.facts(1); m.action(sym_int("ca", 0, 3)); m.action(variant > 1 ? sym_int("cb", 0, 3) : 1); for (int i = 0; i < 4; i++) m.abstractTask(); m.init = 2;
  auto pick = [&](int i) { int k = C(sym_int_i("st", i, 0, 4)); return k < 2 ? k : k + 1; };
  m.method(2, {3, 4, 5, 0}); m.method(2, {1, 5});
  m.method(3, {pick(0), pick(1)}); m.method(4, {pick(2)}); m.method(5, {pick(3), pick(4)});
  if (variant & 1) { m.method(3, {0}); m.method(4, {1, 1}); m.method(5, {3}); m.method(4, {5, pick(5)}); }
  else { m.method(5, {0, 1}); m.method(4, {5, 5}); m.method(3, {4}); }
  searchNode *tn; Model *h = loadModel(m, true, true, &tn, reach); int nT = 6, nS = h->numSCCs;
  M e(nT, V(nT, 0)); for (auto &x : m.meth) for (int s : x.sub) e[x.task][s] = 1;
  M c = closure(e); S seen;
  auto scc = [&](int t) { return h->taskToSCC[t]; };
  for (int i = 0; i < nT; i++) { sym_assert(scc(i) >= 0 && scc(i) < nS, "a task without component"); seen.insert(scc(i)); for (int j = 0; j < nT; j++) sym_assert((scc(i) == scc(j)) == (i == j || (c[i][j] && c[j][i])), "two tasks share a component although they do not reach each other, or vice versa"); }
  sym_assert((int)seen.size() == nS, "an empty component");
  std::vector<S> members(nS), succ(nS), pred(nS); S cyc; int loops = 0, mx = 0;
  for (int i = 0; i < nT; i++) { members[scc(i)].insert(i); if (c[i][i]) cyc.insert(scc(i)); for (int j = 0; j < nT; j++) if (e[i][j] && scc(i) != scc(j)) { succ[scc(i)].insert(scc(j)); pred[scc(j)].insert(scc(i)); } }
  for (int s = 0; s < nS; s++) {
    SETIS(h->sccToTasks[s], h->sccSize[s], members[s], "wrong tasks of a component"); SETIS(h->sccG[s], h->sccGnumSucc[s], succ[s], "wrong successor components"); SETIS(h->sccGinverse[s], h->sccGnumPred[s], pred[s], "wrong predecessor components");
    mx = std::max(mx, (int)members[s].size()); if (members[s].size() == 1 && cyc.count(s)) loops++;
  }
  SETIS(h->sccsCyclic, h->numCyclicSccs, cyc, "wrong cyclic components"); sym_assert(h->numSccOneWithSelfLoops == loops && h->sccMaxSize == mx, "wrong number of self loops or size of the largest component");
  for (int i = 0; i < nT; i++) { S r; for (int j = 0; j < (reach == mtrALL ? nT : 2); j++) if (j == i || c[i][j]) r.insert(j); SETIS(h->reachable[i], h->numReachable[i], r, "wrong reachable tasks"); }
  char *out; sym_capture_begin(); h->analyseSCCcyclicity(); h->calcMinimalImpliedX(); sym_capture_end(&out); free(out);
  V pos(nS, -1); for (int i = 0; i < nS; i++) { int s = h->sccTopOrder[i]; sym_assert(s >= 0 && s < nS && pos[s] < 0, "the component order is no permutation"); pos[s] = i; }
  for (int s = 0; s < nS; s++) { for (int x : succ[s]) sym_assert(pos[x] < pos[s], "the component order is not topological"); bool ac = true; for (int i = 0; i < nT; i++) if (c[i][i]) for (int t : members[s]) if (t == i || c[t][i]) ac = false; sym_assert(h->sccIsAcyclic[s] == ac, "wrong classification of a component as acyclic"); }
  // reference: minima over all decompositions of bounded height, from above
  const long INF = 1 << 20; std::vector<long> d(nT, INF), co(nT, INF); d[0] = d[1] = 1; co[0] = m.act[0].cost; co[1] = m.act[1].cost;
  for (int r = 0; r < nT; r++) for (auto &x : m.meth) { long sd = 1, scc2 = 0; bool fin = true; for (int s : x.sub) { if (d[s] >= INF) fin = false; else { sd += d[s]; scc2 += co[s]; } } if (fin) { if (sd < d[x.task]) d[x.task] = sd; if (scc2 < co[x.task]) co[x.task] = scc2; } }
  bool acyclic = h->numCyclicSccs == 0;
  for (int t = 0; t < nT; t++) {
    sym_assert(h->minImpliedDistance[t] == d[t], "the minimal implied distance of a task is wrong");
    sym_assert(h->minEstimatedCosts[t] <= co[t], "the minimal implied costs of a task are too high"); if (acyclic) sym_assert(h->minEstimatedCosts[t] == co[t], "the minimal implied costs of a task are wrong");
  }
}
extern "C" void harness_main(int argc, char **argv) {
  std::string mode = argv[0]; int a = argc > 1 ? atoi(argv[1]) : 1, b = argc > 2 ? atoi(argv[2]) : 0;
  if (mode == "lists") lists(); else if (mode == "cond") cond(); else if (mode == "orders") methods(false, a); else if (mode == "subs") methods(true, 0); else if (mode == "graph") graph(a, b); else abort();
  sym_reach();
}
