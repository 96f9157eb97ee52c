// inv TEMPLATE STEPS H2: the invariants extracted from a symbolic problem (P15). A symbolic sequence of up to STEPS
// actions is applied to the initial state; no reached state may contain two literals the planner considers
// mutually exclusive.
#include "templates.h"
#include <fstream>
#include "flags.h"
#include "Model.h"
#include "Invariants.h"
using namespace progression;
extern "C" void harness_main(int argc, char **argv) {
  SModel m = makeModel(argv[0]); int steps = atoi(argv[1]); bool h2 = atoi(argv[2]);
  std::string f = modelFile(); writeModel(m, f.c_str());
  char *out; sym_capture_begin();
  std::ifstream in(f); Model *htn = new Model(true, mtrACTIONS, true, true);
  htn->rintanenInvariants = h2; htn->read(&in);
  extract_invariants_from_parsed_model(htn);
  if (h2) compute_Rintanen_Invariants(htn);
  sym_capture_end(&out); free(out);
  int F = m.F, nA = m.nA; std::vector<int> s(F);
  auto C = [](int v) { return sym_concretize_int(v); };
  for (int i = 0; i < F; i++) s[i] = C(m.s0[i]);
  for (auto &a : m.act) for (int i = 0; i < F; i++) { a.pre[i] = C(a.pre[i]); a.add[i] = C(a.add[i]); a.del[i] = C(a.del[i]); }
  std::vector<std::pair<int, int>> mutex;      // literals l and ~l
  for (int p = -F; p < F; p++) for (int q = p + 1; q < F; q++) if (p != -q - 1 && !can_state_features_co_occur(htn, p, q)) {
    mutex.push_back({p, q}); sym_assert(!can_state_features_co_occur(htn, q, p), "mutual exclusion is not symmetric");
  }
  sym_note(0, !mutex.empty()); sym_note(1, mutex.size());
  int bad = 0;
  auto lit = [&](int l) { return l >= 0 ? s[l] : 1 - s[-l - 1]; };
  for (auto &x : mutex) bad |= lit(x.first) & lit(x.second);
  for (int k = 0; k < steps && !mutex.empty(); k++) {
    int c = sym_int_i("act", k, 0, nA), ok = c == nA; std::vector<int> t(F, 0);
    for (int i = 0; i < F; i++) t[i] = (c == nA) & s[i];
    for (int a = 0; a < nA; a++) {
      int sel = c == a, app = 1;
      for (int i = 0; i < F; i++) if (m.act[a].pre[i]) app &= s[i];
      ok |= sel & app;
      for (int i = 0; i < F; i++) t[i] |= sel & (m.act[a].add[i] ? 1 : m.act[a].del[i] ? 0 : s[i]);
    }
    sym_assume(ok); s = t;
    for (auto &x : mutex) bad |= lit(x.first) & lit(x.second);
  }
  sym_assert(!bad, "a reachable state contains two literals that the invariants declare mutually exclusive");
  sym_reach();
}
