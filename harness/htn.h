// Symbolic ground HTN models for the harnesses: values may be symbolic; writing a model file emits
// markers which the instrumented reader replaces by the symbolic values.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "hapi.h"
#include "oracle.h"
struct SAct { int cost = 1; std::vector<int> pre, add, del; };            // per-fact 0/1 flags (may be symbolic)
struct SMeth { int task = 0; std::vector<int> sub; std::vector<int> ord; };  // ord[i*k+j]: 0/1 flag "i before j" (may be symbolic)
struct SModel {
  int F = 0, nA = 0, nT = 0, init = 0;
  std::vector<SAct> act; std::vector<SMeth> meth; std::vector<int> s0, goal;
  std::vector<std::pair<int, int>> vars;          // default: one variable per fact
  std::vector<std::vector<int>> smutex, mutex, inv;
  void facts(int f) { F = f; s0.assign(f, 0); goal.assign(f, 0); }
  int action(int cost = 1) { SAct a; a.cost = cost; a.pre.assign(F, 0); a.add.assign(F, 0); a.del.assign(F, 0); act.push_back(a); return nA++; }
  int abstractTask() { return nA + nT++; }        // call after all actions were made
  int method(int task, std::vector<int> sub, bool total = true) {
    SMeth m; m.task = task; m.sub = sub; int k = sub.size(); m.ord.assign(k * k, 0);
    if (total) for (int i = 0; i + 1 < k; i++) m.ord[i * k + i + 1] = 1;
    meth.push_back(m); return meth.size() - 1;
  }
  void order(int m, int i, int j, int v = 1) { meth[m].ord[i * meth[m].sub.size() + j] = v; }
};
static inline int tok(int v) { return sym_is_symbolic(v) ? sym_mark(v) : v; }
struct FlagList { const std::vector<int> *f; int last; };
static int flagNext(void *a, int pos) {      // lazily lists the indices of the set flags
  FlagList *l = (FlagList *)a; if (pos == 0) l->last = -1;
  for (int i = l->last + 1; i < (int)l->f->size(); i++) if ((*l->f)[i]) { l->last = i; return i; }
  return -1;
}
struct OrdList { const SMeth *m; int last; int half; };
static int ordNext(void *a, int pos) {
  OrdList *l = (OrdList *)a; int k = l->m->sub.size();
  if (pos == 0) { l->last = -1; l->half = -1; }
  if (l->half >= 0) { int r = l->half; l->half = -1; return r; }
  for (int i = l->last + 1; i < k * k; i++) if (l->m->ord[i]) { l->last = i; l->half = i % k; return i / k; }
  return -1;
}
static inline bool anySym(const std::vector<int> &f) { for (int x : f) if (sym_is_symbolic(x)) return true; return false; }
static inline void putFlags(FILE *o, const std::vector<int> &f) {
  if (sym_replaying() ? false : anySym(f)) { fprintf(o, "%d\n", sym_list_mark(flagNext, new FlagList{&f, -1})); return; }
  for (size_t i = 0; i < f.size(); i++) if (f[i]) fprintf(o, "%d ", (int)i);
  fprintf(o, "-1\n");
}
static int cflagNext(void *a, int pos) {     // conditional format: "0 f 0 f ... -1"
  OrdList *l = (OrdList *)a; FlagList *fl = (FlagList *)l->m;
  if (pos == 0) { fl->last = -1; l->half = -1; }
  if (l->half >= 0) { int r = l->half; l->half = -1; return r; }
  for (int i = fl->last + 1; i < (int)fl->f->size(); i++) if ((*fl->f)[i]) { fl->last = i; l->half = i; return 0; }
  return -1;
}
static inline void putCFlags(FILE *o, const std::vector<int> &f) {
  if (sym_replaying() ? false : anySym(f)) { fprintf(o, "%d\n", sym_list_mark(cflagNext, new OrdList{(const SMeth *)new FlagList{&f, -1}, -1, -1})); return; }
  for (size_t i = 0; i < f.size(); i++) if (f[i]) fprintf(o, "0 %d ", (int)i);
  fprintf(o, "-1\n");
}
static inline void writeModel(const SModel &m, const char *path) {
  FILE *o = fopen(path, "w");
  fprintf(o, ";; #state features\n%d\n", m.F);
  for (int i = 0; i < m.F; i++) fprintf(o, "f%d\n", i);
  if (m.vars.empty()) {
    fprintf(o, "\n;; Mutex Groups\n%d\n", m.F);
    for (int i = 0; i < m.F; i++) fprintf(o, "%d %d v%d\n", i, i, i);
  } else {
    fprintf(o, "\n;; Mutex Groups\n%d\n", (int)m.vars.size());
    for (size_t i = 0; i < m.vars.size(); i++) fprintf(o, "%d %d v%d\n", m.vars[i].first, m.vars[i].second, (int)i);
  }
  const std::vector<std::vector<int>> *g[3] = {&m.smutex, &m.mutex, &m.inv};
  for (int k = 0; k < 3; k++) {
    fprintf(o, "\n;; groups\n%d\n", (int)g[k]->size());
    for (auto &x : *g[k]) { for (int v : x) fprintf(o, "%d ", v); fprintf(o, "-1\n"); }
  }
  fprintf(o, "\n;; Actions\n%d\n", m.nA);
  for (int i = 0; i < m.nA; i++) { fprintf(o, "%d\n", tok(m.act[i].cost)); putFlags(o, m.act[i].pre); putCFlags(o, m.act[i].add); putCFlags(o, m.act[i].del); }
  fprintf(o, "\n;; initial state\n"); putFlags(o, m.s0);
  fprintf(o, "\n;; goal\n"); putFlags(o, m.goal);
  fprintf(o, "\n;; tasks\n%d\n", m.nA + m.nT);
  for (int i = 0; i < m.nA + m.nT; i++) fprintf(o, "%d t%d\n", i >= m.nA, i);
  fprintf(o, "\n;; initial abstract task\n%d\n", tok(m.init));
  fprintf(o, "\n;; methods\n%d\n", (int)m.meth.size());
  for (size_t i = 0; i < m.meth.size(); i++) {
    fprintf(o, "m%d\n%d\n", (int)i, tok(m.meth[i].task));
    for (int s : m.meth[i].sub) fprintf(o, "%d ", tok(s));
    fprintf(o, "-1\n");
    int k = m.meth[i].sub.size();
    if (!sym_replaying() && anySym(m.meth[i].ord)) fprintf(o, "%d\n", sym_list_mark(ordNext, new OrdList{&m.meth[i], -1, -1}));
    else { for (int a = 0; a < k * k; a++) if (m.meth[i].ord[a]) fprintf(o, "%d %d ", a / k, a % k); fprintf(o, "-1\n"); }
  }
  fclose(o);
}
// the model as plain ints for the oracle (forks on whatever is still symbolic)
static inline void flatten(const SModel &m, std::vector<int> &b, bool costs = true) {
  auto C = [&](int v) { return sym_concretize_int(v); };
  auto fl = [&](const std::vector<int> &f) { std::vector<int> r; for (size_t i = 0; i < f.size(); i++) if (C(f[i])) r.push_back(i); b.push_back(r.size()); for (int x : r) b.push_back(x); };
  b = {m.F, m.nA, m.nT, (int)m.meth.size(), C(m.init)};
  fl(m.s0); fl(m.goal);
  for (auto &a : m.act) { b.push_back(costs ? C(a.cost) : 1); fl(a.pre); fl(a.add); fl(a.del); }
  for (auto &x : m.meth) {
    b.push_back(C(x.task)); b.push_back(x.sub.size()); for (int s : x.sub) b.push_back(C(s));
    std::vector<int> o; int k = x.sub.size(); for (int i = 0; i < k * k; i++) if (C(x.ord[i])) { o.push_back(i / k); o.push_back(i % k); }
    b.push_back(o.size()); for (int v : o) b.push_back(v);
  }
}
static inline void loadOracle(const SModel &m, bool costs = true) { std::vector<int> b; flatten(m, b, costs); orc_load(b.data(), b.size()); }
// running the planner's own main()
int panda_main(int argc, char **argv);
struct RunArgs { int argc; char **argv; };
static void runPanda(void *p) { RunArgs *r = (RunArgs *)p; panda_main(r->argc, r->argv); }
static inline int runPlanner(const char *file, const std::vector<std::string> &opts, char **out) {
  std::vector<char *> av; av.push_back((char *)"pandaPIengine");
  for (auto &s : opts) av.push_back(strdup(s.c_str()));
  av.push_back((char *)file); av.push_back(nullptr);
  RunArgs r{(int)av.size() - 1, av.data()};
  sym_capture_begin();
  int rc = sym_guard_exit(runPanda, &r);
  sym_capture_end(out);
  return rc;
}
static inline std::vector<int> symFlags(const char *nm, int n, std::vector<int> which) {
  std::vector<int> f(n, 0); for (int i : which) f[i] = sym_int_i(nm, i, 0, 1); return f;
}
