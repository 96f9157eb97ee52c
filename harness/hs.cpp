// hs KIND SHAPE: delete-relaxation heuristics (P26) on a classical model with symbolic costs, state and goal.
// KIND: add, ff, filter, lmc. The values are compared with reference values of the delete relaxation.
#include "hapi.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include "flags.h"
#include "Model.h"
#include "heuristics/rcHeuristics/hsAddFF.h"
#include "heuristics/rcHeuristics/hsFilter.h"
#include "heuristics/rcHeuristics/hsLmCut.h"
#include "relax.h"
using namespace progression;
typedef std::vector<int> V;
static int C(int v) { return sym_concretize_int(v); }
static Model *classical(const Relax &r) {
  Model *m = new Model(); m->isHtnModel = false; m->numStateBits = r.F; m->numVars = r.F; int n = r.op.size(); m->numActions = m->numTasks = n;
  auto lists = [&](int **&l, int *&k, int which) { l = new int *[n]; k = new int[n]; for (int i = 0; i < n; i++) { const V &v = which ? r.op[i].add : r.op[i].pre; k[i] = v.size(); l[i] = new int[v.size() + 1]; for (size_t j = 0; j < v.size(); j++) l[i][j] = v[j]; } };
  lists(m->precLists, m->numPrecs, 0); lists(m->addLists, m->numAdds, 1);
  m->delLists = new int *[n]; m->numDels = new int[n]; m->actionCosts = new int[n]; m->isPrimitive = new bool[n];
  for (int i = 0; i < n; i++) { m->delLists[i] = nullptr; m->numDels[i] = 0; m->actionCosts[i] = r.op[i].cost; m->isPrimitive[i] = true; }
  m->numPrecLessActions = 0; m->precLessActions = new int[1];
  m->precToActionSize = new int[r.F]; m->precToAction = new int *[r.F];
  for (int f = 0; f < r.F; f++) { V v; for (int i = 0; i < n; i++) if (std::find(r.op[i].pre.begin(), r.op[i].pre.end(), f) != r.op[i].pre.end()) v.push_back(i); m->precToActionSize[f] = v.size(); m->precToAction[f] = new int[v.size() + 1]; for (size_t j = 0; j < v.size(); j++) m->precToAction[f][j] = v[j]; }
  return m;
}
extern "C" void harness_main(int argc, char **argv) {
  std::string kind = argv[0]; std::string shape = argv[1]; int maxCost = argc > 2 ? atoi(argv[2]) : 3;
  Relax r; V st, g; bool unit = maxCost == 1;
  auto cost = [&](int i) { return unit ? 1 : sym_int_i("c", i, 0, maxCost); };
  auto bit = [&](const char *n, int i) { return C(sym_int_i(n, i, 0, 1)); };
  if (shape == "diamond") {        // two ways to each fact, shared preconditions, a cycle
    r.F = 6; r.op = {{cost(0), {0}, {2}}, {cost(1), {1}, {2, 3}}, {cost(2), {2}, {3, 4}}, {cost(3), {2, 3}, {5}}, {cost(4), {4}, {5, 1}}, {cost(5), {0, 1}, {4}}};
    st = {1, bit("s", 1), 0, bit("s", 3), 0, 0}; g = {0, bit("g", 1), bit("g", 2), bit("g", 3), bit("g", 4), 1};
  } else if (shape == "random") {  // symbolic structure: every operator has a symbolic pair of preconditions and effects
    r.F = 5; int n = argc > 3 ? atoi(argv[3]) : 4; st = {1, 1, 0, 0, 0}; g = {0, 0, 0, bit("g", 3), 1};
    for (int i = 0; i < n; i++) { ROp o; o.cost = cost(i); int p = C(sym_int_i("p", i, 0, 4)), q = C(sym_int_i("q", i, 0, 1)), e = C(sym_int_i("e", i, 2, 4)); o.pre = {p}; if (q) o.pre.push_back((p + 1) % 5); std::sort(o.pre.begin(), o.pre.end()); o.add = {e}; r.op.push_back(o); }
  } else if (shape == "deep") {    // triangular preconditions: many open preconditions at once
    int n = argc > 3 ? atoi(argv[3]) : 8; r.F = n + 1; st.assign(n + 1, 0); g.assign(n + 1, 0); st[0] = 1; g[n] = 1;
    for (int i = 1; i <= n; i++) { ROp o; o.cost = i < 3 ? cost(i) : 1; for (int j = 0; j < i; j++) o.pre.push_back(j); o.add = {i}; r.op.push_back(o); }
  } else if (shape == "zero") {    // zero-cost operators and joint cuts
    r.F = 7; r.op = {{cost(0), {0}, {1}}, {cost(1), {0}, {2}}, {cost(2), {1}, {3}}, {cost(3), {2}, {3, 4}}, {cost(4), {3, 4}, {5}}, {cost(5), {1, 2}, {5, 4}}, {cost(6), {5}, {6}}};
    st = {1, 0, 0, 0, bit("s", 4), 0, 0}; g = {0, 0, 0, bit("g", 3), bit("g", 4), bit("g", 5), 1};
  } else abort();
  sym_note(0, r.op.size());
  char *o; sym_capture_begin();
  Model *m = classical(r); bucketSet s; noDelIntSet gs; s.init(r.F); gs.init(r.F);
  hsAddFF *add = kind == "add" || kind == "ff" ? new hsAddFF(m) : nullptr; if (add) add->heuristic = kind == "ff" ? sasFF : sasAdd;
  hsFilter *fil = kind == "filter" ? new hsFilter(m) : nullptr; hsLmCut *lmc = kind == "lmc" ? new hsLmCut(m) : nullptr;
  int rounds = shape == "diamond" ? 2 : 1;
  for (int k = 0; k < rounds; k++) {      // the second evaluation starts from another state: nothing may be left over
    V stk = st; if (k) { stk[0] = 0; stk[1] = 1; }
    s.clear(); gs.clear(); for (int i = 0; i < r.F; i++) { if (stk[i]) s.insert(i); } for (int i = r.F - 1; i >= 0; i--) if (g[i]) gs.insert(i);
    int h = add ? add->getHeuristicValue(s, gs) : fil ? fil->getHeuristicValue(s, gs) : lmc->getHeuristicValue(s, gs);
    int unr = h == UNREACHABLE;
    std::vector<long> ha = r.sum(stk), hm = r.max(stk);
    bool reach = true; V R = r.reach(stk); for (int i = 0; i < r.F; i++) if (g[i] && !R[i]) reach = false;
    sym_assert(unr == !reach, reach ? "a relaxed reachable goal is reported as unreachable" : "an unreachable goal got a finite value");
    if (!reach) continue;
    long A = 0, M = 0; for (int i = 0; i < r.F; i++) if (g[i]) { A += ha[i]; M = M > hm[i] ? M : hm[i]; }
    if (kind == "filter") { sym_assert(h == 0, "filter value"); continue; }
    if (kind == "add") { sym_assert(h == A, "h_add differs from its definition"); continue; }
    sym_assert(h >= M, "smaller than h_max");
    if (kind == "ff") sym_assert(h <= r.sumOver(ha, hm, g), "h_FF exceeds the additive bound");
    std::vector<int> plan(r.op.size());
    long best = r.hplus(stk, g);
    if (kind == "ff") sym_assert(h >= best, "h_FF is cheaper than the cheapest relaxed plan");
    else {
      sym_assert(h <= best, "LM-cut exceeds the cheapest relaxed plan");
      long tot = 0; for (auto c : *lmc->cuts) {
        V cut(r.op.size(), 0); for (int i = 0; i < c->size; i++) { sym_assert(c->lm[i] >= 0 && c->lm[i] < (int)cut.size(), "cut element"); cut[c->lm[i]] = 1; }
        sym_assert(!r.without(stk, g, cut), "a stored cut is not a landmark"); tot++;
      }
      sym_assert((h > 0) == (tot > 0), "cuts do not fit to the value");
    }
  }
  sym_capture_end(&o); free(o);
  sym_reach();
}
