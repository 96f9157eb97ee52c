// Model templates shared by the harnesses. Each fixes the shape of a ground HTN problem and leaves
// the marked parts symbolic.
#pragma once
#include "htn.h"
#include <sys/mman.h>
#include <unistd.h>
static inline std::string modelFile() { int fd = memfd_create("model", 0); char b[64]; snprintf(b, sizeof b, "/proc/self/fd/%d", fd); return b; }
static inline std::vector<std::string> words(const char *s) { std::vector<std::string> r; std::string c; for (; ; s++) { if (!*s || *s == ' ') { if (!c.empty()) r.push_back(c); c.clear(); if (!*s) break; } else c += *s; } return r; }
// the output without the lines that depend on the clock
static inline std::string timeless(const char *o) {
  std::string r, line; for (;; o++) { if (*o && *o != '\n') { line += *o; continue; } if (line.find("time") == std::string::npos && line.find("second") == std::string::npos && line.find("ms") == std::string::npos && line.find("/proc/self") == std::string::npos) r += line + "\n"; line.clear(); if (!*o) return r; }
}
// total order, two alternatives per task, symbolic preconditions/effects (13 bits)
static SModel tmplTO() {
  SModel m; m.facts(3);
  int a = m.action(), b = m.action(), c = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask();
  m.init = top;
  m.method(top, {A, B}); m.method(A, {a, b}); m.method(A, {b}); m.method(B, {c}); m.method(B, {b, c});
  m.s0 = {1, 0, 0}; m.goal = {0, 0, 1};
  m.act[a].pre = symFlags("prea", 3, {0, 1}); m.act[a].add = symFlags("adda", 3, {1}); m.act[a].del = symFlags("dela", 3, {0});
  m.act[b].pre = symFlags("preb", 3, {0, 1}); m.act[b].add = symFlags("addb", 3, {1, 2}); m.act[b].del = symFlags("delb", 3, {0});
  m.act[c].pre = symFlags("prec", 3, {1, 2}); m.act[c].add = symFlags("addc", 3, {2}); m.act[c].del = symFlags("delc", 3, {2});
  return m;
}
// one method with four subtasks under an arbitrary partial order, a nested method with a symbolic order
static SModel tmplPO(bool top4) {
  SModel m; m.facts(4);
  int a = m.action(), b = m.action(), c = m.action(), d = m.action();
  int top = m.abstractTask(), A = m.abstractTask();
  m.init = top;
  int m0 = m.method(top, {a, A, c, b}, false), m1 = m.method(A, {b, d}, false); m.method(A, {d});
  for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) m.order(m0, i, j, sym_int_i("o", i * 4 + j, 0, 1));
  m.order(m1, 0, 1, sym_int("n01", 0, 1)); m.order(m1, 1, 0, 0);
  m.s0 = {1, 0, 0, 0}; m.goal = {0, 0, 0, 1};
  m.act[a].pre[0] = sym_int("pa0", 0, 1); m.act[a].add[1] = 1; m.act[a].del[0] = sym_int("da0", 0, 1);
  m.act[b].pre[1] = sym_int("pb1", 0, 1); m.act[b].add[2] = 1; m.act[b].del[1] = sym_int("db1", 0, 1);
  m.act[c].pre[2] = sym_int("pc2", 0, 1); m.act[c].add[3] = 1; m.act[c].del[2] = sym_int("dc2", 0, 1);
  m.act[d].pre[1] = top4 ? sym_int("pd1", 0, 1) : 1; m.act[d].add[0] = 1; m.act[d].del[3] = sym_int("dd3", 0, 1);
  return m;
}
// symbolic subtasks: the methods' subtask lists are arbitrary (every task stays reachable through a dead method)
static SModel tmplSub(int nsub) {
  SModel m; m.facts(4);
  int a = m.action(), b = m.action(), c = m.action(), dead = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask();
  m.init = top;
  m.s0 = {1, 0, 0, 0}; m.goal = {0, 0, 1, 0};
  m.act[a].pre[0] = 1; m.act[a].add[1] = 1; m.act[a].del[0] = sym_int("da0", 0, 1);
  m.act[b].pre[1] = 1; m.act[b].add[2] = 1; m.act[b].del[1] = sym_int("db1", 0, 1);
  m.act[c].pre[2] = sym_int("pc2", 0, 1); m.act[c].add[0] = 1; m.act[c].del[2] = sym_int("dc2", 0, 1);
  m.act[dead].pre[3] = 1;
  std::vector<int> s; static const int pick[5] = {0, 1, 2, 5, 6};
  int m0;
  { std::vector<int> st; for (int i = 0; i < nsub; i++) { int k = sym_int_i("s", i, 0, 4); int t = 0; for (int j = 0; j < 5; j++) if (k == j) t = pick[j]; st.push_back(t); } m0 = m.method(top, st, false); }
  for (int i = 0; i < nsub; i++) for (int j = i + 1; j < nsub; j++) m.order(m0, i, j, sym_int_i("o", i * nsub + j, 0, 1));
  m.method(A, {a, b}); m.method(A, {c}); { int x = m.method(B, {b, A, c}, false); m.order(x, 0, 1); m.order(x, 0, 2); } m.method(B, {b});
  m.method(top, {dead, a, b, c, A, B});
  return m;
}
// tail recursion: A -> x A | y, finitely many reachable search nodes
static SModel tmplRec() {
  SModel m; m.facts(4);
  int x = m.action(), y = m.action(), z = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask();
  m.init = top;
  m.method(top, {A, z}); m.method(A, {x, A}); m.method(A, {y, B}); m.method(B, {y}); m.method(B, {x, A});
  m.s0 = {1, 0, 0, 0}; m.goal = {0, 0, 0, 1};
  m.act[x].pre = symFlags("prex", 4, {0, 1}); m.act[x].add = symFlags("addx", 4, {1, 2}); m.act[x].del = symFlags("delx", 4, {0});
  m.act[y].pre = symFlags("prey", 4, {1, 2}); m.act[y].add = symFlags("addy", 4, {0}); m.act[y].del = symFlags("dely", 4, {1, 2});
  m.act[z].pre = symFlags("prez", 4, {0, 1, 2}); m.act[z].add = {0, 0, 0, 1};
  return m;
}
// as tmplRec, with tasks that can never be refined into actions
static SModel tmplUnref(bool grow) {
  SModel m; m.facts(4);
  int x = m.action(), y = m.action(), z = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask(), D = m.abstractTask(), E = m.abstractTask();
  m.init = top;
  m.method(top, {A, z}); m.method(A, {x, D}); m.method(A, {y, B}); m.method(B, {y}); m.method(B, {x, A}); m.method(top, {D});
  if (grow) { m.method(D, {E, x}); m.method(E, {D, y}); m.method(D, {E, y, x}); } else { m.method(D, {x, D}); m.method(D, {y, E}); m.method(E, {y, D}); }
  m.s0 = {1, 0, 0, 0}; m.goal = {0, 0, 0, 1};
  m.act[x].pre = symFlags("prex", 4, {0, 1}); m.act[x].add = symFlags("addx", 4, {1, 2}); m.act[x].del = symFlags("delx", 4, {0});
  m.act[y].pre = symFlags("prey", 4, {1}); m.act[y].add = symFlags("addy", 4, {0}); m.act[y].del = symFlags("dely", 4, {1, 2});
  m.act[z].pre = symFlags("prez", 4, {1, 2}); m.act[z].add = {0, 0, 0, 1};
  return m;
}
// interchangeable tasks under an arbitrary bipartite order (the visited list must not confuse networks)
static SModel tmplBip(int variant) {
  SModel m; m.facts(6);
  // tasks a x4, c x2; two different methods of the top task with two different orders
  int a = m.action(), c = m.action(), d = m.action(), e = m.action();
  int top = m.abstractTask(), P = m.abstractTask();
  m.init = top;
  m.act[a].pre[0] = 0; m.act[a].add[1] = 1; m.act[c].pre[1] = 1; m.act[c].add[2] = 1; m.act[c].del[1] = 1;
  m.act[d].pre[2] = 1; m.act[d].del[2] = 1; m.act[d].add[3] = 1; m.act[e].pre[3] = 1; m.act[e].add[4] = 1;
  m.goal[4] = 1;
  int m0 = m.method(top, {a, a, c, c, P}, false), m1 = m.method(top, {a, a, c, c, P}, false);
  m.method(P, {d, e});
  for (int k = 0; k < 2; k++) for (int i = 0; i < 2; i++) for (int j = 2; j < 4; j++) m.order(k ? m1 : m0, i, j, sym_int_i(k ? "q" : "p", i * 4 + j, 0, 1));
  m.order(m0, 2, 4, sym_int("p24", 0, 1)); m.order(m1, 2, 4, sym_int("q24", 0, 1));
  m.order(m0, 4, 3, sym_int("p43", 0, 1)); m.order(m1, 4, 3, sym_int("q43", 0, 1));
  return m;
}
// facts and tasks beyond the 32- and 64-entry word boundaries; the ids of the relevant facts are symbolic
static SModel tmplWide(int nf, int pad) {
  SModel m; m.facts(nf);
  int f0 = sym_int("f0", 0, 0), lo = nf - 8;
  (void)f0;
  std::vector<int> id(4);
  static const int cand[3][4] = {{0, 31, 32, 63}, {62, 63, 64, 65}, {1, 33, 64, 66}};
  int k = sym_concretize_int(sym_int("ids", 0, 2)); (void)lo;
  for (int i = 0; i < 4; i++) id[i] = cand[k][i] % nf;
  std::vector<int> acts; for (int i = 0; i < pad; i++) acts.push_back(m.action());
  int a = m.action(), b = m.action(), c = m.action(), dead = m.action();
  int top = m.abstractTask(), A = m.abstractTask();
  m.init = top; m.s0[id[0]] = 1; m.goal[id[3]] = 1;
  for (int i = 0; i < nf; i++) if (i % 7 == 3 && i != id[0] && i != id[1] && i != id[2] && i != id[3]) m.s0[i] = 1;
  m.act[a].pre[id[0]] = 1; m.act[a].add[id[1]] = sym_int("aa1", 0, 1); m.act[a].del[id[0]] = sym_int("da0", 0, 1);
  m.act[b].pre[id[1]] = sym_int("pb1", 0, 1); m.act[b].add[id[2]] = 1; m.act[b].del[id[1]] = sym_int("db1", 0, 1);
  m.act[c].pre[id[2]] = sym_int("pc2", 0, 1); m.act[c].pre[id[1]] = sym_int("pc1", 0, 1); m.act[c].add[id[3]] = 1;
  int dd = -1; for (int i = 0; i < nf && dd < 0; i++) if (!sym_concretize_int(m.s0[i]) && i != id[1] && i != id[2] && i != id[3]) dd = i;
  m.act[dead].pre[dd] = 1;
  m.method(top, {A, c}, true); int m1 = m.method(A, {a, b}, false); m.order(m1, 0, 1, sym_int("o01", 0, 1)); m.method(A, {b, a});
  std::vector<int> all{dead}; for (int i = 0; i < pad; i++) { m.act[i].pre[dd] = 1; all.push_back(i); }
  m.method(top, all);
  return m;
}
// symbolic action costs: three tasks with alternatives of different length, cost and effects
static SModel tmplCost(int hi, bool po) {
  SModel m; m.facts(4);
  int a = m.action(), b = m.action(), c = m.action(), d = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask();
  m.init = top;
  int m0 = m.method(top, {A, B, d}, !po); m.method(A, {a}); m.method(A, {b, c}); m.method(B, {a, b}); m.method(B, {c}); m.method(B, {A});
  if (po) { m.order(m0, 0, 2, sym_int("o02", 0, 1)); m.order(m0, 1, 2, 1); m.order(m0, 0, 1, sym_int("o01", 0, 1)); }
  m.s0 = {1, 0, 0, 0}; m.goal = {0, 0, 0, 1};
  m.act[a].add[1] = 1; m.act[a].pre[0] = sym_int("pa0", 0, 1); m.act[a].del[0] = sym_int("da0", 0, 1);
  m.act[b].add[2] = 1; m.act[b].pre[0] = 1; m.act[b].add[0] = sym_int("ab0", 0, 1);
  m.act[c].add[1] = 1; m.act[c].pre[2] = sym_int("pc2", 0, 1);
  m.act[d].pre[1] = 1; m.act[d].pre[2] = sym_int("pd2", 0, 1); m.act[d].add[3] = 1;
  for (int i = 0; i < 4; i++) m.act[i].cost = sym_int_i("cost", i, 0, hi);
  return m;
}
// two methods over the same tasks whose orderings are symbolic chains (parallel sequences mode, visited-list keys)
static SModel tmplSeq(int pad) {
  SModel m; m.facts(6);
  int a = m.action(), b = m.action(), c = m.action(), d = m.action(), dead = m.action();
  std::vector<int> all{dead}; for (int i = 0; i < pad; i++) all.push_back(m.action());
  int top = m.abstractTask(), P = m.abstractTask();
  m.init = top; m.s0[0] = 1; m.goal[1] = m.goal[2] = 1;
  for (int x : all) m.act[x].pre[5] = 1;
  m.act[a].del[0] = sym_int("da0", 0, 1); m.act[a].pre[3] = sym_int("pa3", 0, 1);
  m.act[b].add[3] = sym_int("ab3", 0, 1); m.act[b].pre[4] = sym_int("pb4", 0, 1);
  m.act[c].pre[0] = 1; m.act[c].add[1] = 1; m.act[c].add[4] = sym_int("ac4", 0, 1);
  m.act[d].add[2] = 1; m.act[d].pre[0] = sym_int("pd0", 0, 1);
  int m0 = m.method(top, {a, b, c, P}, false), m1 = m.method(top, {a, b, c, P}, false);
  m.method(P, {d, b}); m.method(P, {d});
  for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) m.order(k ? m1 : m0, i, i + 1, sym_int_i(k ? "q" : "p", i, 0, 1));
  m.method(top, all);
  return m;
}
// an abstract task between predecessors and successors; its methods have several first and several last tasks
static SModel tmplSucc(int pad) {
  SModel m; m.facts(7);
  int w = m.action(), p = m.action(), q = m.action(), x = m.action(), y = m.action(), dead = m.action();
  std::vector<int> all{dead}; for (int i = 0; i < pad; i++) all.push_back(m.action());
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask();
  m.init = top; m.goal[1] = m.goal[2] = m.goal[3] = m.goal[4] = 1;
  for (int t : all) m.act[t].pre[6] = 1;
  // each task provides its own fact; some need the fact of a task that should come later
  int ids[5] = {w, p, q, x, y}; for (int i = 0; i < 5; i++) m.act[ids[i]].add[i] = 1;
  m.act[w].pre[1] = sym_int("wp", 0, 1);
  m.act[p].pre[3] = sym_int("px", 0, 1); m.act[p].pre[4] = sym_int("py", 0, 1);
  m.act[q].pre[3] = sym_int("qx", 0, 1); m.act[q].pre[4] = sym_int("qy", 0, 1); m.act[q].pre[0] = sym_int("qw", 0, 1);
  m.act[x].pre[4] = sym_int("xy", 0, 1);
  int m0 = m.method(top, {x, w, A, y}, false); m.method(A, {p, B}, false); int m2 = m.method(A, {q, p, B}, false); m.method(B, {q}); m.method(B, {q, p}, false);
  m.order(m0, 1, 2, sym_int("oWA", 0, 1)); m.order(m0, 2, 0, sym_int("oAX", 0, 1)); m.order(m0, 2, 3, sym_int("oAY", 0, 1)); m.order(m0, 1, 3, sym_int("oWY", 0, 1));
  m.order(m2, 0, 2, sym_int("iqB", 0, 1)); m.order(m2, 0, 1, 0);
  m.method(top, all);
  return m;
}
// several abstract tasks unordered at once; the choice which to decompose first (rand) is symbolic
static SModel tmplAbs() {
  SModel m; m.facts(5);
  int p = m.action(), q = m.action(), r = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask(), C = m.abstractTask();
  m.init = top; m.s0[0] = 1; m.goal[3] = 1; for (int i = 0; i < 3; i++) m.goal[i] = sym_int_i("g", i, 0, 1);
  m.act[p].pre[0] = sym_int("pp0", 0, 1); m.act[p].add[1] = 1; m.act[p].del[2] = sym_int("dp2", 0, 1);
  m.act[q].pre[1] = sym_int("pq1", 0, 1); m.act[q].add[2] = 1; m.act[q].del[0] = sym_int("dq0", 0, 1);
  m.act[r].pre[2] = sym_int("pr2", 0, 1); m.act[r].add[3] = 1; m.act[r].del[1] = sym_int("dr1", 0, 1);
  int m0 = m.method(top, {A, B, C}, false); m.method(A, {p}); m.method(A, {q, r}, false); m.method(B, {p, r}); m.method(B, {q}); m.method(C, {A}); m.method(C, {r});
  m.order(m0, 0, 1, sym_int("o01", 0, 1)); m.order(m0, 1, 2, sym_int("o12", 0, 1)); m.order(m0, 2, 0, 0);
  return m;
}
// actions without effects (checks) around actions that establish and destroy what they check
static SModel tmplCheck() {
  SModel m; m.facts(4);
  int a = m.action(), b = m.action(), x = m.action(), y = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask();
  m.init = top; m.s0[0] = 1; m.goal[3] = 1;
  m.act[a].pre[0] = sym_int("pa0", 0, 1); m.act[a].add[1] = 1; m.act[a].del[0] = sym_int("da0", 0, 1);
  m.act[b].pre[1] = sym_int("pb1", 0, 1); m.act[b].add[3] = 1; m.act[b].del[1] = sym_int("db1", 0, 1); m.act[b].add[0] = sym_int("ab0", 0, 1);
  m.act[x].pre[0] = 1; m.act[x].pre[1] = sym_int("px1", 0, 1); m.act[y].pre[1] = 1;
  int m0 = m.method(top, {a, A, b, B}, false); m.method(A, {x, y}, false); m.method(A, {y}); m.method(B, {x}); m.method(B, {y, x});
  m.order(m0, 0, 1, sym_int("oaA", 0, 1)); m.order(m0, 1, 2, sym_int("oAb", 0, 1)); m.order(m0, 0, 2, sym_int("oab", 0, 1)); m.order(m0, 0, 3, sym_int("oaB", 0, 1)); m.order(m0, 2, 3, sym_int("obB", 0, 1)); m.order(m0, 1, 3, sym_int("oAB", 0, 1));
  return m;
}
// multi-valued variables: three movers with symbolic origins and destinations, one of them conditional on another variable
static SModel tmplSas(bool po) {
  SModel m; m.facts(6); m.vars = {{0, 2}, {3, 4}, {5, 5}};
  int a = m.action(), b = m.action(), c = m.action(), d = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask();
  m.init = top; m.s0[0] = 1; m.s0[3] = 1; m.goal[5] = 1;
  int af = sym_int("af", 0, 2), at = sym_int("at", 0, 2), bf = sym_int("bf", 0, 2), bt = sym_int("bt", 0, 2), g = sym_int("dg", 0, 2);
  sym_assume(af != at); sym_assume(bf != bt);
  for (int i = 0; i < 3; i++) {
    m.act[a].pre[i] = m.act[a].del[i] = af == i; m.act[a].add[i] = at == i;
    m.act[b].pre[i] = m.act[b].del[i] = bf == i; m.act[b].add[i] = bt == i;
    m.act[d].pre[i] = g == i;
  }
  m.act[b].pre[4] = sym_int("pb4", 0, 1);
  m.act[c].pre[3] = m.act[c].del[3] = 1; m.act[c].add[4] = 1; m.act[c].pre[1] = sym_int("pc1", 0, 1);
  m.act[d].pre[4] = sym_int("pd4", 0, 1); m.act[d].add[5] = 1;
  int m0 = m.method(top, {A, B, d}, !po); m.method(A, {a, c}, !po); m.method(A, {c, b}); m.method(B, {b}); m.method(B, {a, b});
  if (po) { m.order(m0, 0, 2, 1); m.order(m0, 1, 2, sym_int("oBd", 0, 1)); m.order(m0, 0, 1, sym_int("oAB", 0, 1)); }
  return m;
}
// as tmplSas, with the exclusive groups declared as variables, strict mutexes, or mutexes and invariants
static SModel tmplDecl(int rep, bool po) {
  SModel m; m.facts(7);
  int a = m.action(), b = m.action(), c = m.action(), d = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask();
  m.init = top; m.s0[0] = 1; m.s0[3] = 1; m.s0[6] = 1; m.goal[5] = 1;
  int af = sym_int("af", 0, 1), at = 1 - af, bf = sym_int("bf", 0, 2), bt = sym_int("bt", 0, 2);
  sym_assume(bf != bt);
  for (int i = 0; i < 3; i++) {
    m.act[a].pre[i] = m.act[a].del[i] = af == i; m.act[a].add[i] = at == i;
    m.act[b].pre[i] = m.act[b].del[i] = bf == i; m.act[b].add[i] = bt == i;
    m.act[d].pre[i] = i == 2 ? sym_int("pd2", 0, 1) : 0;
  }
  // 6: "not 1"; 2 is only entered when 4 holds, 4 is never left
  m.act[a].add[6] = af == 1; m.act[a].del[6] = at == 1; m.act[b].add[6] = bf == 1; m.act[b].del[6] = bt == 1;
  m.act[b].pre[4] = bt == 2 ? 1 : sym_int("pb4", 0, 1);
  m.act[c].pre[3] = m.act[c].del[3] = 1; m.act[c].add[4] = 1; m.act[c].pre[6] = sym_int("pc6", 0, 1);
  m.act[d].pre[4] = sym_int("pd4", 0, 1); m.act[d].pre[6] = sym_int("pd6", 0, 1); m.act[d].add[5] = 1;
  int m0 = m.method(top, {A, B, d}, !po); m.method(A, {a, c}, !po); m.method(A, {c, b}); m.method(B, {b}); m.method(B, {a, b});
  if (po) { m.order(m0, 0, 2, 1); m.order(m0, 1, 2, sym_int("oBd", 0, 1)); m.order(m0, 0, 1, sym_int("oAB", 0, 1)); }
  if (rep == 0) { m.vars = {{0, 2}, {3, 4}, {5, 5}, {6, 6}}; m.smutex = {{1, 6}}; }
  if (rep == 1) m.smutex = {{0, 1, 2}, {3, 4}, {1, 6}};
  if (rep == 2) { m.mutex = {{0, 1, 2}, {3, 4}}; m.inv = {{3, 4}, {1, 6}, {0, 1, 2}}; }
  if (rep != 2) m.inv = {{-2 - 2, 4}};          // not 2, or 4
  else m.inv.push_back({-2 - 2, -3 - 2});       // not 2, or not 3
  return m;
}
// a longer totally ordered plan whose neighbouring actions may or may not be independent
static SModel tmplBlock() {
  SModel m; m.facts(4);
  int a = m.action(), b = m.action(), c = m.action(), d = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask(), C = m.abstractTask();
  m.init = top; m.method(top, {A, B, C}); m.method(A, {a, b}); m.method(A, {d}); m.method(B, {c, a}); m.method(B, {b, c}); m.method(C, {d}); m.method(C, {c, d});
  m.s0 = {1, 0, 0, 0}; m.goal = {0, 0, 0, 1};
  m.act[a].pre[0] = sym_int("pa0", 0, 1); m.act[a].add[1] = 1; m.act[a].del[0] = sym_int("da0", 0, 1); m.act[a].del[2] = sym_int("da2", 0, 1);
  m.act[b].pre[1] = sym_int("pb1", 0, 1); m.act[b].add[2] = 1; m.act[b].del[1] = sym_int("db1", 0, 1); m.act[b].add[0] = sym_int("ab0", 0, 1);
  m.act[c].pre[2] = sym_int("pc2", 0, 1); m.act[c].add[0] = 1; m.act[c].del[2] = sym_int("dc2", 0, 1); m.act[c].del[1] = sym_int("dc1", 0, 1);
  m.act[d].pre[1] = sym_int("pd1", 0, 1); m.act[d].pre[2] = sym_int("pd2", 0, 1); m.act[d].add[3] = 1; m.act[d].del[0] = sym_int("dd0", 0, 1);
  return m;
}
// parallel sequences: one top method with a symbolic partial order, all other methods totally ordered
static SModel tmplPs() {
  SModel m; m.facts(5);
  int a = m.action(), b = m.action(), c = m.action(), d = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask(), C = m.abstractTask();
  m.init = top; m.s0[1] = 1; m.goal[4] = 1; m.goal[2] = sym_int("g2", 0, 1);
  m.act[a].pre[1] = sym_int("pa1", 0, 1); m.act[a].add[2] = 1; m.act[a].del[1] = sym_int("da1", 0, 1);
  m.act[b].pre[2] = sym_int("pb2", 0, 1); m.act[b].add[3] = 1; m.act[b].del[2] = sym_int("db2", 0, 1);
  m.act[c].pre[3] = sym_int("pc3", 0, 1); m.act[c].add[4] = 1; m.act[c].del[3] = sym_int("dc3", 0, 1);
  m.act[d].pre[4] = sym_int("pd4", 0, 1); m.act[d].add[1] = 1;
  int m0 = m.method(top, {A, c, B}, false); m.method(A, {a, C}); m.method(A, {C, b, d}); m.method(B, {b}); m.method(B, {d, A}); m.method(C, {b}); m.method(C, {d, a});
  int q[6][2] = {{0, 1}, {0, 2}, {1, 2}, {1, 0}, {2, 0}, {2, 1}};
  int dir = sym_int("dir", 0, 1);      // either along or against the listed order
  for (int i = 0; i < 3; i++) { int o = sym_int_i("o", i, 0, 1); m.order(m0, q[i][0], q[i][1], o & (dir == 0)); m.order(m0, q[5 - i][0], q[5 - i][1], o & (dir == 1)); }
  return m;
}
static SModel tmplSas(bool po);
// at most two subtasks per method, totally ordered (the form the symbolic planner needs)
static SModel tmplShare(int kind) {      // binary methods that use the same subtasks several times, in nested ways
  SModel m; m.facts(3); int a = m.action(), b = m.action(); int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask(); m.init = top; m.s0[0] = 1;
  m.act[a].cost = sym_int("ca", 0, kind == 11 ? 1 : 2); m.act[b].cost = sym_int("cb", 0, kind == 11 ? 1 : 2); int st = kind == 9 ? sym_int("st", 0, 1) : 1;
  m.act[a].pre[0] = st; m.act[a].add[1] = st; m.act[a].del[0] = sym_int("da0", 0, 1) & st; m.act[b].add[0] = st; m.act[b].pre[1] = sym_int("pb1", 0, 1) & st; m.act[b].add[2] = 1; m.goal[2] = sym_int("g2", 0, 1);
  auto lo = [&](const char *n, std::vector<int> v) { int c = sym_concretize_int(sym_int(n, 0, v.size() - 1)); return v[c]; };
  if (kind == 9) { int s3 = lo("s3", {A, a, b}), s4 = lo("s4", {a, A, B}); m.method(A, {lo("s1", {a, b}), lo("s2", {a, b})}); m.method(B, {A, s3}); if (sym_int("sw", 0, 1)) m.method(top, {s4, B}); else m.method(top, {B, s4}); m.method(top, {a, b}); m.method(top, {A, B}); }
  else if (kind == 11) { m.act[a].pre[0] = m.act[a].del[0] = m.act[b].pre[1] = 0; m.act[a].add[1] = 1; m.act[b].pre[2] = 0; m.act[a].pre[2] = sym_int("pa2", 0, 1); m.act[b].del[1] = sym_int("db1", 0, 1); m.s0[0] = 0; m.goal[1] = sym_int("g1", 0, 1);   // unit methods, tail recursion
    m.method(A, {a, lo("s2", {a, b})}); m.method(B, {A}); m.method(B, {b}); m.method(B, {lo("s4", {a, b}), lo("s5", {B, A, b})}); m.method(top, {lo("s6", {B, A}), B}); m.method(top, {B, A}); }
  else { m.method(A, {a, lo("s1", {a, b})}); m.method(A, {lo("s2", {a, b})}); m.method(B, {A, A}); m.method(B, {lo("s3", {a, b}), A}); m.method(B, {A, b}); m.method(top, {B, lo("s5", {A, B})}); m.method(top, {lo("s6", {A, a}), B}); }
  return m;
}
static SModel tmplBin(int kind) {
  if (kind >= 9) return tmplShare(kind);
  SModel m; m.facts(4);
  int a = m.action(), b = m.action(), c = m.action();
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask();
  m.init = top; m.s0[0] = 1; m.goal[3] = 1; m.goal[2] = sym_int("g2", 0, 1);
  m.act[a].pre[0] = sym_int("pa0", 0, 1); m.act[a].add[1] = 1; m.act[a].del[0] = sym_int("da0", 0, 1);
  m.act[b].pre[1] = sym_int("pb1", 0, 1); m.act[b].add[2] = 1; m.act[b].del[1] = sym_int("db1", 0, 1);
  m.act[c].pre[2] = sym_int("pc2", 0, 1); m.act[c].add[3] = 1; m.act[c].add[0] = sym_int("ac0", 0, 1); m.act[c].del[2] = sym_int("dc2", 0, 1);
  if (kind == 0) { m.method(top, {A, B}); m.method(A, {a, b}); m.method(A, {b}); m.method(B, {A, c}); m.method(B, {c, a}); m.method(B, {c}); }
  if (kind == 1) { m.method(top, {A, c}); m.method(A, {a, A}); m.method(A, {b, B}); m.method(A, {b}); m.method(B, {a, A}); m.method(B, {a}); }
  if (kind == 2 || kind == 8) {   // costs
    m.method(top, {A, B}); m.method(A, {B, a}); m.method(A, {b}); m.method(A, {a, b}); m.method(B, {a, b}); m.method(B, {a, c}); m.method(B, {c});
    for (int i = 0; i < 3; i++) m.act[i].cost = kind == 8 && i == 2 ? 1 : sym_int_i("cost", i, 0, kind == 2 ? 2 : 1);
  }
  if (kind == 3) {   // orderings given against the listed order
    int q[3] = {m.method(top, {A, B}, false), m.method(A, {a, b}, false), m.method(B, {A, c}, false)}; m.method(A, {b}); m.method(B, {c});
    for (int i = 0; i < 3; i++) { int o = sym_int_i("o", i, 0, 1); m.order(q[i], 0, 1, o == 0); m.order(q[i], 1, 0, o == 1); }
  }
  if (kind == 4 || kind == 5) {   // recursion with costs (including 0): the same edge is reached at different costs
    m.method(top, {A, c}); m.method(A, {B, A}); m.method(A, {b}); m.method(B, {a, b}); m.method(B, {a}); m.method(B, {b, B});
    int hi = kind == 4 ? 1 : 3; m.act[a].cost = sym_int("ca", 0, hi); m.act[b].cost = sym_int("cb", 0, hi);
  }
  if (kind == 6) {   // non-tail recursion, the state decides how deep
    m.method(top, {A, c}); m.method(A, {B, a}); m.method(A, {b}); m.method(B, {A, b}); m.method(B, {a});
  }
  if (kind == 7) {   // multi-valued variables
    SModel q = tmplSas(false); q.meth.clear(); int top = 4, A = 5, B = 6, C = 7; q.nT = 4;
    q.method(top, {A, C}); q.method(C, {B, 3}); q.method(A, {0, 2}); q.method(A, {2, 1}); q.method(B, {1}); q.method(B, {0, 1}); q.method(A, {B, 2});
    return q;
  }
  return m;
}
// networks: nested methods of 4 and 3 tasks under symbolic orders, fixed actions (one without effects)
static SModel tmplNet(int v) {
  SModel m; m.facts(4);
  int a = m.action(2), b = m.action(3), c = m.action(1), d = m.action(0);
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask();
  m.init = top;
  m.s0 = {1, 0, 0, 0}; m.goal = {0, 0, 1, 1};
  m.act[a].pre = {1, 0, 0, 0}; m.act[a].add = {0, 1, 0, 0}; m.act[a].del = {1, 0, 0, 0};
  m.act[b].pre = {0, 1, 0, 0}; m.act[b].add = {0, 0, 1, 1}; m.act[b].del = {0, 1, 0, 1};
  m.act[c].pre = {0, 0, 1, 0};
  m.act[d].add = {1, 0, 0, 0}; m.act[d].del = {0, 0, 0, 1};
  int m0 = v == 0 ? m.method(top, {A, b, A, c}, false) : v == 1 ? m.method(top, {a, B, c, A}, false) : m.method(top, {B, A, b, B}, false);
  for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) m.order(m0, i, j, sym_int_i("o", i * 4 + j, 0, 1));
  int m1 = m.method(A, {a, B, c}, false); m.order(m1, 0, 2, 1); m.order(m1, 1, 0, sym_int("p10", 0, 1)); m.order(m1, 1, 2, sym_int("p12", 0, 1));
  m.method(A, {d}); m.method(B, {c, c}, false); m.method(B, {b}); m.method(top, {a, d});
  return m;
}
static SModel makeModel(const std::string &t) {
  if (t.substr(0, 3) == "net") return tmplNet(atoi(t.c_str() + 3));
  if (t.substr(0, 3) == "bin") return tmplBin(atoi(t.c_str() + 3));
  if (t == "ps") return tmplPs();
  if (t == "check") return tmplCheck();
  if (t == "sas") return tmplSas(false);
  if (t == "saspo") return tmplSas(true);
  if (t.substr(0, 4) == "decl") return tmplDecl(t[4] - '0', t.size() > 5);
  if (t == "block") return tmplBlock();
  if (t == "to") return tmplTO();
  if (t == "po") return tmplPO(true);
  if (t == "po3") return tmplPO(false);
  if (t == "sub2") return tmplSub(2);
  if (t == "sub3") return tmplSub(3);
  if (t == "sub4") return tmplSub(4);
  if (t == "rec") return tmplRec();
  if (t == "unref") return tmplUnref(false);
  if (t == "unref2") return tmplUnref(true);
  if (t == "bip") return tmplBip(0);
  if (t == "cost") return tmplCost(15, false);
  if (t == "cost2") return tmplCost(2, false);
  if (t == "costpo") return tmplCost(15, true);
  if (t == "wide") return tmplWide(67, 0);
  if (t == "widetask") return tmplWide(67, 60);
  if (t == "seq") return tmplSeq(0);       // 7 tasks
  if (t == "seq8") return tmplSeq(1);      // 8 tasks
  if (t == "seq9") return tmplSeq(2);      // 9 tasks
  if (t == "succ") return tmplSucc(0);     // 9 tasks
  if (t == "succ16") return tmplSucc(7);   // 16 tasks
  if (t == "succ17") return tmplSucc(8);   // 17 tasks
  if (t == "abs") return tmplAbs();
  fprintf(stderr, "unknown template %s\n", t.c_str()); abort();
}
