// enc KIND N K: the clause encodings of the SAT planner (P24). The clauses are captured; (1) no assignment of all
// variables satisfies them and violates the constraint, (2) each assignment of the constrained literals that satisfies
// the constraint can be extended to the auxiliary variables.
#include "hapi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include "flags.h"
#include "sat/sat_encoder.h"
#include "ipasir_n.h"
static std::vector<std::vector<int>> cls; static std::vector<int> cur; static void *ms;
extern "C" void ipasir_add(void *, int l) { ms_add(ms, l); if (l) cur.push_back(l); else { cls.push_back(cur); cur.clear(); } }
extern "C" void harness_main(int argc, char **argv) {
  std::string kind = argv[0]; int n = atoi(argv[1]), K = argc > 2 ? atoi(argv[2]) : 0;
  ms = ms_new(1);
  sat_capsule cap; std::vector<int> v, all;
  bool wide = n > 8;
  for (int i = 0; i < n; i++) { int x = cap.new_variable(); v.push_back(n <= 5 && sym_concretize_int(sym_int_i("neg", i, 0, 1)) ? -x : x); }
  if (n) ms_add(ms, n), ms_add(ms, -n), ms_add(ms, 0);
  void *S = ms; std::set<int> most(v.begin(), v.end()); std::vector<int> rest(v.begin() + (n > 2 ? 2 : n), v.end()), rest1(v.begin() + (n ? 1 : 0), v.end());
  std::set<int> front; if (n) front = std::set<int>(v.begin(), v.end() - 1);
  if (kind == "amo") atMostOne(S, cap, v);
  else if (kind == "amk") atMostK(S, cap, K, v);
  else if (kind == "alo") atLeastOne(S, cap, v);
  else if (kind == "yes") assertYes(S, v[0]);
  else if (kind == "not") assertNot(S, v[0]);
  else if (kind == "implies") implies(S, v[0], v[1]);
  else if (kind == "impliesNot") impliesNot(S, v[0], v[1]);
  else if (kind == "impliesAnd") impliesAnd(S, v[0], v[1], v[2]);
  else if (kind == "impliesOr") impliesOr(S, v[0], rest1);
  else if (kind == "posneg") impliesPosAndNegImpliesOr(S, v[0], v[1], rest);
  else if (kind == "impliesAllNot") impliesAllNot(S, v[0], rest1);
  else if (kind == "notImpliesAllNot") notImpliesAllNot(S, v[0], rest1);
  else if (kind == "andImplies") andImplies(S, v[0], v[1], v[2]);
  else if (kind == "andImpliesSet") andImplies(S, front, v[n - 1]);
  else if (kind == "notAll") notAll(S, most);
  else { fprintf(stderr, "unknown kind\n"); abort(); }
  sym_assert(cur.empty(), "an unterminated clause was added");
  int nv = cap.number_of_variables; std::vector<int> val(nv + 1);
  auto lit = [&](int l) { return l > 0 ? val[l] : 1 - val[-l]; };
  auto spec = [&]() {
    int c = 0, o = 0, a = 1; for (int l : v) { c += lit(l); o |= lit(l); a &= lit(l); }
    int o1 = 0, o2 = 0, f = 1; for (int i = 0; i < n; i++) { if (i >= 1) o1 |= lit(v[i]); if (i >= 2) o2 |= lit(v[i]); if (i < n - 1) f &= lit(v[i]); }
    if (kind == "amo") return (int)(c <= 1);
    if (kind == "amk") return (int)(c <= K);
    if (kind == "alo") return o;
    if (kind == "notAll") return 1 - a;
    int x = lit(v[0]), nx = 1 - x;
    if (kind == "yes") return x;
    if (kind == "not") return nx;
    if (kind == "implies") return nx | lit(v[1]);
    if (kind == "impliesNot") return nx | (1 - lit(v[1]));
    if (kind == "impliesAnd" || kind == "andImplies") return nx | (1 - lit(v[1])) | lit(v[2]);
    if (kind == "impliesOr") return nx | o1;
    if (kind == "posneg") return nx | lit(v[1]) | o2;
    if (kind == "impliesAllNot") return nx | (1 - o1);
    if (kind == "notImpliesAllNot") return x | (1 - o1);
    return (1 - f) | lit(v[n - 1]);
  };
  if (sym_concretize_int(sym_int("direction", 0, 1))) {
    int p = n > 100 ? sym_int("p", 0, n - 1) : -1, q = n > 100 ? sym_int("q", 0, n - 1) : -1;     // long lists: two positions, the first 30 and all auxiliary variables are free
    for (int i = 1; i <= nv; i++) val[i] = i <= 30 || i > n || n <= 100 ? sym_int_i("v", i, 0, 1) : (p == i - 1) | (q == i - 1);
    std::vector<int> ok(1, 1); for (auto &c : cls) { int o = 0; for (int l : c) o |= lit(l); ok.push_back(o); }
    while (ok.size() > 1) { std::vector<int> t; for (size_t i = 0; i < ok.size(); i += 2) t.push_back(i + 1 < ok.size() ? ok[i] & ok[i + 1] : ok[i]); ok = t; }
    sym_assume(ok[0]);
    sym_assert(spec(), "an assignment satisfies the clauses but not the constraint");
  } else {
    int one = wide ? sym_concretize_int(sym_int("one", -1, n - 1)) : 0, two = wide && kind == "amk" ? sym_concretize_int(sym_int("two", -1, n - 1)) : -1;
    for (int i = 1; i <= n; i++) val[i] = wide ? i - 1 == one || i - 1 == two : sym_concretize_int(sym_int_i("v", i, 0, 1));
    sym_assume(spec());
    ms_solve(ms); for (int i = 1; i <= n; i++) ms_fix(ms, val[i] ? i : -i);
    sym_assert(ms_solve(ms) == 10, "an assignment satisfies the constraint but not the clauses");
  }
  sym_reach();
}
