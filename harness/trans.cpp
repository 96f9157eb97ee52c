// trans TEMPLATE STEPS EAGER FREESTATE [REVERSE]: the planner's progression operators (P06). From the initial node a symbolic
// sequence of decompositions and actions is performed by Model::decompose / Model::apply; after every step the search
// node is compared with a reference semantics. FREESTATE: the initial state is an arbitrary symbolic state.
#include "walk.h"
static SModel m; static Model *htn; static bool eager; static std::vector<std::set<int>> reachT;
struct RNode { RNet net; std::vector<int> s; int depth = 0, mixed = 0, cost = 0; };
static int C(int v) { return sym_concretize_int(v); }
static int applicable(const RNode &n, int a) { int r = 1; for (int i = 0; i < m.F; i++) if (m.act[a].pre[i]) r &= n.s[i]; return r; }
static void applyAct(RNode &n, int x) {
  SAct &a = m.act[n.net.st[x].task];
  for (int i = 0; i < m.F; i++) n.s[i] = a.add[i] ? 1 : a.del[i] ? 0 : n.s[i];
  n.net = rremove(n.net, x); n.depth++; n.mixed += a.cost; n.cost += a.cost;
}
static bool availablePrim(const RNode &n, int x) { return n.net.st[x].task < m.nA && runconstrained(n.net, x); }
static void compare(searchNode *n, const RNode &r, bool full) {
  const char *e = compareNet(htn, n, r.net); sym_assert(!e, e);
  int diff = 0; for (int i = 0; i < m.F; i++) diff |= (int)n->state[i] ^ r.s[i];
  sym_assert((int)n->state.size() == m.F, "state size"); sym_assert(!diff, "a fact has the wrong value");
  sym_assert(n->modificationDepth == r.depth, "number of modifications"); sym_assert(n->actionCosts == r.cost, "action costs of the plan prefix");
  sym_assert(n->mixedModificationDepth == r.mixed, "mixed costs of the plan prefix");
  int g = r.net.st.empty(); for (int i = 0; i < m.F; i++) if (m.goal[i]) g &= r.s[i];
  sym_assert(htn->isGoal(n) == g, "goal test");
  for (int a = 0; a < m.nA; a++) sym_assert(htn->isApplicable(n, a) == applicable(r, a), "applicability test");
  std::map<int, int> cnt; for (auto &s : r.net.st) cnt[s.task]++;
  sym_assert(n->numContainedTasks == (int)cnt.size(), "number of contained tasks"); int k = 0;
  for (auto &c : cnt) { sym_assert(n->containedTasks[k] == c.first && n->containedTaskCount[k] == c.second, "contained tasks and their number"); k++; }
  if (full) for (auto p : stepsOf(n)) {
    if (!p->reachableT) { sym_assert(!runconstrained(r.net, rfind(r.net, p->parentSolutionStepInstanceNumber, p->myPositionInParent)), "reachable tasks are missing"); continue; }
    std::set<int> w, g; int x = rfind(r.net, p->parentSolutionStepInstanceNumber, p->myPositionInParent);
    for (size_t j = 0; j < r.net.st.size(); j++) if ((int)j == x || r.net.before[x][j]) w.insert(reachT[r.net.st[j].task].begin(), reachT[r.net.st[j].task].end());
    for (int i = 0; i < p->numReachableT; i++) sym_assert(g.insert(p->reachableT[i]).second, "a reachable task is listed twice");
    sym_assert(w == g, "the reachable tasks of a step are wrong");
  }
}
extern "C" void harness_main(int argc, char **argv) {
  m = makeModel(argv[0]); int steps = atoi(argv[1]); eager = atoi(argv[2]); bool freeState = argc > 3 && atoi(argv[3]);
  bool rev = argc > 4 && atoi(argv[4]) ? C(sym_int("rev", 0, 1)) : 0;
  searchNode *n; htn = loadModel(m, eager, eager, &n, mtrALL);
  for (auto &a : m.act) for (int i = 0; i < m.F; i++) { a.pre[i] = C(a.pre[i]); a.add[i] = C(a.add[i]); a.del[i] = C(a.del[i]); }
  for (int i = 0; i < m.F; i++) m.goal[i] = C(m.goal[i]);
  RNode r; r.s.resize(m.F); for (int i = 0; i < m.F; i++) r.s[i] = C(m.s0[i]);
  if (freeState) for (int i = 0; i < m.F; i++) { r.s[i] = sym_int_i("fact", i, 0, 1); n->state[i] = r.s[i]; }
  for (auto &x : m.meth) { x.task = C(x.task); for (int &t : x.sub) t = C(t); }
  int T = m.nA + m.nT; reachT.resize(T);
  for (int t = 0; t < T; t++) reachT[t].insert(t);
  for (bool ch = true; ch;) { ch = false; for (auto &x : m.meth) for (int t : x.sub) for (int u : std::set<int>(reachT[t])) ch |= reachT[x.task].insert(u).second; }
  r.net.st = {{n->unconstraintAbstract[0]->parentSolutionStepInstanceNumber, n->unconstraintAbstract[0]->myPositionInParent, m.init}}; r.net.before = {{0}};
  compare(n, r, true);
  std::vector<std::pair<searchNode *, RNode>> alive = {{n, r}};
  for (int k = 0; k < steps; k++) {
    std::vector<std::pair<int, int>> opt;                // available modifications
    for (int i = 0; i < n->numAbstract; i++) for (int j = 0; j < htn->numMethodsForTask[n->unconstraintAbstract[i]->task]; j++) opt.push_back({i, j});
    for (int i = 0; i < n->numPrimitive; i++) if (C(applicable(r, n->unconstraintPrimitive[i]->task))) opt.push_back({-1, i});
    if (opt.empty()) break;
    int c = sym_int_i("pick", k, 0, 20); sym_assume(c < (int)opt.size()); c = C(c);
    searchNode *q; RNode old = r; bool afterDecomposition;
    if (opt[c].first >= 0) {
      planStep *p = n->unconstraintAbstract[opt[c].first]; int me = htn->taskToMethods[p->task][opt[c].second];
      sym_assert(me >= 0 && me < (int)m.meth.size() && m.meth[me].task == p->task, "a method is listed for the wrong task");
      q = htn->decompose(n, opt[c].first, me); afterDecomposition = true;
    } else q = htn->apply(n, opt[c].second), afterDecomposition = false;
    std::vector<solutionStep *> ss; for (solutionStep *s = q->solution; s != n->solution; s = s->prev) { sym_assert(s, "the plan prefix does not extend the one of the parent"); ss.push_back(s); }
    std::reverse(ss.begin(), ss.end()); sym_assert(!ss.empty(), "the step is missing in the plan prefix");
    if (!eager) sym_assert(ss.size() == 1, "more than one modification at once");
    for (size_t i = 0; i < ss.size(); i++) {
      int x = rfind(r.net, ss[i]->parentSolutionStepInstanceNumber, ss[i]->myPositionInParent);
      sym_assert(x >= 0 && r.net.st[x].task == ss[i]->task, "a step of the plan prefix is not in the task network"); sym_assert(runconstrained(r.net, x), "a step with an open predecessor was progressed");
      if (i == 0 && afterDecomposition) {
        int me = ss[i]->method; sym_assert(me == htn->taskToMethods[n->unconstraintAbstract[opt[c].first]->task][opt[c].second], "the method in the plan prefix");
        r.net = rdecompose(r.net, x, ss[i]->mySolutionStepInstanceNumber, m.meth[me]); r.depth++; r.mixed++;
      } else {
        sym_assert(ss[i]->method == -1, "an action with a method"); int a = ss[i]->task; sym_assert(C(applicable(r, a)), "an inapplicable action was applied");
        if (i > 0) {
          bool eff = false; for (int f = 0; f < m.F; f++) eff |= m.act[a].add[f] || m.act[a].del[f];
          if (eff) for (size_t y = 0; y < r.net.st.size(); y++) if (runconstrained(r.net, y) && (int)y != x) sym_assert(availablePrim(r, y) && !C(applicable(r, r.net.st[y].task)), "an action was applied eagerly although there is an alternative");
        } else sym_assert(x == rfind(old.net, n->unconstraintPrimitive[opt[c].second]->parentSolutionStepInstanceNumber, n->unconstraintPrimitive[opt[c].second]->myPositionInParent), "another action was applied");
        applyAct(r, x);
      }
    }
    if (!q->goalReachable) {
      bool dead = !r.net.st.empty(); for (size_t y = 0; y < r.net.st.size(); y++) if (runconstrained(r.net, y)) dead &= availablePrim(r, y) && !C(applicable(r, r.net.st[y].task));
      sym_assert(dead, "a node with a possible continuation is pruned");
    }
    compare(q, r, true);
    alive.push_back({q, r});
    if (k == steps - 2 && rev) { delete n; alive.erase(alive.end() - 2); }
    n = q; compare(n, r, true);
  }
  // later steps leave the nodes they start from unchanged; nodes are freed in both orders
  if (rev) std::reverse(alive.begin(), alive.end());
  while (!alive.empty()) { for (auto &x : alive) compare(x.first, x.second, false); delete alive.back().first; alive.pop_back(); }
  sym_reach();
}
