// visited TEMPLATE STEPS REOPEN OPTIONS: duplicate detection (P10). Two symbolic walks lead to two search nodes (with
// symbolic f-values); the visited list's answers are compared with equality of states and isomorphism of task networks.
// OPTIONS: letters t(ask hash) q(sequence hash) o(topological ordering) p(order pairs) l(ayers) s(parallel sequences mode).
#include "walk.h"
#include "VisitedList.h"
static SModel m; static Model *htn;
static int C(int v) { return sym_concretize_int(v); }
struct Net { std::vector<int> task; std::vector<std::vector<char>> b; };
static Net netOf(searchNode *n) {
  std::vector<planStep *> v = stepsOf(n); Net r; int k = v.size(); r.b.assign(k, std::vector<char>(k, 0));
  for (int i = 0; i < k; i++) { r.task.push_back(v[i]->task); for (int s = 0; s < v[i]->numSuccessors; s++) for (int j = 0; j < k; j++) if (v[i]->successorList[s] == v[j]) r.b[i][j] = 1; }
  for (int q = 0; q < k; q++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (r.b[i][q] && r.b[q][j]) r.b[i][j] = 1;
  return r;
}
static bool isoFrom(const Net &x, const Net &y, std::vector<int> &f, std::vector<char> &used) {
  int i = f.size(), k = x.task.size(); if (i == k) return true;
  for (int j = 0; j < k; j++) if (!used[j] && x.task[i] == y.task[j]) {
    bool ok = true; for (int a = 0; a < i && ok; a++) ok = x.b[a][i] == y.b[f[a]][j] && x.b[i][a] == y.b[j][f[a]];
    if (!ok) continue;
    f.push_back(j); used[j] = 1; if (isoFrom(x, y, f, used)) return true; f.pop_back(); used[j] = 0;
  }
  return false;
}
static bool iso(const Net &x, const Net &y) { if (x.task.size() != y.task.size()) return false; std::vector<int> f; std::vector<char> u(x.task.size(), 0); return isoFrom(x, y, f, u); }
static searchNode *walk(searchNode *n, const char *name, int steps, bool fixedLen) {
  for (int k = 0; k < steps; k++) {
    std::vector<std::pair<int, int>> o;
    for (int i = 0; i < n->numAbstract; i++) for (int j = 0; j < htn->numMethodsForTask[n->unconstraintAbstract[i]->task]; j++) o.push_back({i, j});
    for (int i = 0; i < n->numPrimitive; i++) if (htn->isApplicable(n, n->unconstraintPrimitive[i]->task)) o.push_back({-1, i});
    if (!fixedLen) o.push_back({-2, 0});
    if (o.empty()) break;
    int c = sym_int_i(name, k, 0, 20); sym_assume(c < (int)o.size()); c = C(c);
    if (o[c].first == -2) break;
    n = o[c].first >= 0 ? htn->decompose(n, o[c].first, htn->taskToMethods[n->unconstraintAbstract[o[c].first]->task][o[c].second]) : htn->apply(n, o[c].second);
  }
  return n;
}
extern "C" void harness_main(int argc, char **argv) {
  m = makeModel(argv[0]); int steps = atoi(argv[1]); int reopen = atoi(argv[2]); std::string opt = argv[3]; auto has = [&](char c) { return opt.find(c) != std::string::npos; };
  searchNode *n; htn = loadModel(m, false, false, &n, mtrALL);
  char *out; sym_capture_begin();
  VisitedList *v = new VisitedList(htn, false, !reopen, has('t'), has('q'), has('o'), has('p'), has('l'), true, has('s'));
  sym_capture_end(&out); free(out);
  searchNode *x[2] = {walk(n, "a", steps, true), nullptr}; x[1] = walk(n, "b", steps, false);
  std::vector<int> f; for (int i = 0; i < 3; i++) f.push_back(reopen ? C(sym_int_i("f", i, 0, reopen)) : -1);
  Net N[2] = {netOf(x[0]), netOf(x[1])};
  bool same = x[0]->state == x[1]->state && iso(N[0], N[1]);
  sym_note(0, same); sym_note(1, !same); sym_note(2, htn->isTotallyOrdered); sym_note(3, htn->isParallelSequences);
  x[0]->fValue = f[0]; sym_assert(v->insertVisi(x[0]), "a new search node is reported as visited");
  x[1]->fValue = f[1]; bool second = v->insertVisi(x[1]);
  bool want = !same || (reopen && f[1] < f[0]);
  bool exact = has('o') && (htn->isTotallyOrdered || (has('s') && htn->isParallelSequences));   // otherwise duplicates may be missed
  if (want) sym_assert(second, same ? "a visited search node with a smaller f-value is not re-opened" : "two different search nodes are treated as the same");
  else if (exact) sym_assert(!second, "a visited search node is not recognised");
  // a third search node like the first one
  searchNode *y = walk(n, "a", steps, true); y->fValue = f[2];
  int best = same && f[1] < f[0] ? f[1] : f[0]; bool third = v->insertVisi(y);
  if (reopen && f[2] < best) sym_assert(third, "a visited search node with a smaller f-value is not re-opened (third)"); else if (exact || !same || f[1] >= f[0] || f[2] >= f[0]) sym_assert(!third, "a visited search node is not recognised (third)");
  sym_reach();
}
