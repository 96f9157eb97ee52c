// A reference semantics of task networks (plain data) and the comparison with the planner's search nodes.
#pragma once
#include "templates.h"
#include <fstream>
#include <map>
#include <set>
#include <algorithm>
#include "flags.h"
#include "Model.h"
#include "ProgressionNetwork.h"
using namespace progression;
// a step is identified by the decomposition that introduced it and its position in the method
struct RStep { int inst, pos, task; };
struct RNet { std::vector<RStep> st; std::vector<std::vector<char>> before; };   // before: transitively closed
static inline int rfind(const RNet &n, int inst, int pos) { for (size_t i = 0; i < n.st.size(); i++) if (n.st[i].inst == inst && n.st[i].pos == pos) return i; return -1; }
static inline bool runconstrained(const RNet &n, int i) { for (size_t j = 0; j < n.st.size(); j++) if (n.before[j][i]) return false; return true; }
static inline RNet rremove(const RNet &n, int x) {
  RNet r; for (size_t i = 0; i < n.st.size(); i++) if ((int)i != x) { r.st.push_back(n.st[i]); std::vector<char> b; for (size_t j = 0; j < n.st.size(); j++) if ((int)j != x) b.push_back(n.before[i][j]); r.before.push_back(b); }
  return r;
}
static inline RNet rdecompose(const RNet &n, int x, int inst, const SMeth &m) {
  RNet r = rremove(n, x); int k = m.sub.size(), o = r.st.size();
  std::vector<std::vector<char>> ord(k, std::vector<char>(k, 0));
  for (int i = 0; i < k * k; i++) if (sym_concretize_int(m.ord[i])) ord[i / k][i % k] = 1;
  for (int q = 0; q < k; q++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (ord[i][q] && ord[q][j]) ord[i][j] = 1;
  for (int i = 0; i < k; i++) r.st.push_back({inst, i, sym_concretize_int(m.sub[i])});
  for (auto &b : r.before) b.resize(o + k, 0);
  r.before.resize(o + k, std::vector<char>(o + k, 0));
  for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) r.before[o + i][o + j] = ord[i][j];
  int c = 0; for (size_t i = 0; i < n.st.size(); i++) if ((int)i != x) { for (int j = 0; j < k; j++) { r.before[c][o + j] = n.before[i][x]; r.before[o + j][c] = n.before[x][i]; } c++; }
  return r;
}
// the network of a search node
static inline void collect(planStep *p, std::vector<planStep *> &v) { for (auto q : v) if (q == p) return; v.push_back(p); for (int i = 0; i < p->numSuccessors; i++) collect(p->successorList[i], v); }
static inline std::vector<planStep *> stepsOf(searchNode *n) {
  std::vector<planStep *> v; for (int i = 0; i < n->numAbstract; i++) collect(n->unconstraintAbstract[i], v); for (int i = 0; i < n->numPrimitive; i++) collect(n->unconstraintPrimitive[i], v); return v;
}
static inline const char *compareNet(Model *h, searchNode *n, const RNet &r) {
  std::vector<planStep *> v = stepsOf(n); int k = v.size();
  if (k != (int)r.st.size()) return "the task network has the wrong number of tasks";
  std::vector<std::vector<char>> b(k, std::vector<char>(k, 0)); std::vector<int> id(k);
  for (int i = 0; i < k; i++) {
    id[i] = rfind(r, v[i]->parentSolutionStepInstanceNumber, v[i]->myPositionInParent);
    if (id[i] < 0 || r.st[id[i]].task != v[i]->task) return "the task network contains a wrong task";
    for (int j = 0; j < i; j++) if (id[j] == id[i]) return "the task network contains a task twice";
    for (int s = 0; s < v[i]->numSuccessors; s++) for (int j = 0; j < k; j++) if (v[j] == v[i]->successorList[s]) b[i][j] = 1;
  }
  for (int q = 0; q < k; q++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (b[i][q] && b[q][j]) b[i][j] = 1;
  for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (b[i][j] != r.before[id[i]][id[j]]) return b[i][j] ? "the task network orders tasks that are not ordered" : "the task network lacks an ordering";
  int na = 0, np = 0;
  for (int i = 0; i < k; i++) {
    int c = 0; bool prim = h->isPrimitive[v[i]->task];
    for (int j = 0; j < n->numAbstract; j++) if (n->unconstraintAbstract[j] == v[i]) { c++; if (prim) return "an action is listed as abstract task"; }
    for (int j = 0; j < n->numPrimitive; j++) if (n->unconstraintPrimitive[j] == v[i]) { c++; if (!prim) return "an abstract task is listed as action"; }
    bool u = runconstrained(r, id[i]);
    if (c != (int)u) return u ? "a task without predecessor is not available" : "a task with a predecessor is available";
    if (u) (prim ? np : na)++;
  }
  if (na != n->numAbstract || np != n->numPrimitive) return "the available tasks are counted wrongly";
  return nullptr;
}
struct Bound { int taskBits; };
// the planner's model as main() sets it up for search
static inline Model *loadModel(const SModel &m, bool effLess, bool oneMod, searchNode **tnI, int reach = 1) {
  std::string f = modelFile(); writeModel(m, f.c_str());
  char *out; sym_capture_begin();
  std::ifstream in(f); Model *htn = new Model(true, (eMaintainTaskReachability)reach, effLess, oneMod); htn->read(&in);
  *tnI = htn->prepareTNi(htn);
  if (reach != mtrNO) { htn->calcSCCs(); htn->calcSCCGraph(); htn->updateReachability(*tnI); }
  sym_capture_end(&out); free(out);
  return htn;
}
