// The SAT solver behind the harness's ipasir functions (MiniSat), compiled without instrumentation.
#include <minisat/simp/SimpSolver.h>
#include <vector>
#include "ipasir_n.h"
using namespace Minisat;
struct MS { std::vector<std::vector<int>> cls; std::vector<int> cur; Solver *s = nullptr; int maxv = 0; int pol = 0; std::vector<char> val; };
extern "C" {
void *ms_new(int pol) { MS *m = new MS; m->pol = pol; return m; }
void ms_free(void *p) { MS *m = (MS *)p; delete m->s; delete m; }
void ms_add(void *p, int l) { MS *m = (MS *)p; if (l) { m->cur.push_back(l); m->maxv = std::max(m->maxv, abs(l)); } else { m->cls.push_back(m->cur); m->cur.clear(); } }
int ms_solve(void *p) {
  MS *m = (MS *)p;
  if (!m->s) {
    m->s = new Solver;
    for (int v = 0; v <= m->maxv; v++) { bool b = m->pol == 0 ? true : m->pol == 1 ? false : ((v * 2654435761u) >> (7 + m->pol)) & 1; m->s->newVar(b ? l_True : l_False, true); }
    for (auto &c : m->cls) { vec<Lit> v; for (int l : c) v.push(mkLit(abs(l), l < 0)); m->s->addClause(v); }
    m->cls.clear();
  }
  return m->s->solve() ? 10 : 20;
}
int ms_val(void *p, int l) { MS *m = (MS *)p; int v = abs(l); bool t = v < m->s->model.size() && m->s->model[v] == l_True; return (l > 0) == t ? l : -l; }
// excludes the current model, projected to the variables 1..n (0: all)
void ms_block(void *p, int n) { MS *m = (MS *)p; vec<Lit> v; for (int i = 1; i <= m->maxv && (!n || i <= n); i++) v.push(mkLit(i, m->s->model[i] == l_True)); m->s->addClause(v); }
// 1: l can only be true, 2: only be false, 3: both are possible; ms_fix decides it
int ms_open(void *p, int l) { MS *m = (MS *)p; Lit a = mkLit(abs(l), l < 0); bool t = m->s->solve(a), f = m->s->solve(~a); return t + 2 * f; }
void ms_fix(void *p, int l) { MS *m = (MS *)p; m->s->addClause(mkLit(abs(l), l < 0)); }
}
