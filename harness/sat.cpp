// sat TEMPLATE DEPTH CONFIG...: the SAT planner on a symbolic problem (P12). The solver's choice of a model is
// symbolic too (initial polarity and up to MODELS further models).
#include "templates.h"
#include "ipasir_n.h"
#include "flags.h"
#include "Model.h"
namespace progression { extern int currentSolutionStepInstanceNumber; }
static int inits, maxDepth, models, npol; static bool solvedNow; static unsigned long formula;
extern "C" {
int rand() { return 0; }
const char *ipasir_signature() { return "minisat"; }
void *ipasir_init() { if (++inits > maxDepth) exit(77); return ms_new(npol > 1 ? sym_concretize_int(sym_int("pol", 0, npol - 1)) : 1); }
void ipasir_release(void *s) { ms_free(s); }
void ipasir_add(void *s, int l) { formula = formula * 1000003 + (unsigned)l; ms_add(s, l); }
void ipasir_assume(void *, int) { sym_violation("unexpected use of assumptions"); }
int ipasir_solve(void *s) {
  int r = ms_solve(s);
  if (r == 10) for (int i = 0; i < models; i++) {
    if (!sym_int_i("other", i, 0, 1)) break;
    ms_block(s, 0); if (ms_solve(s) != 10) sym_assume_fail();
  }
  solvedNow = r == 10;
  return r;
}
int ipasir_val(void *s, int l) {
  if (models >= 0) return ms_val(s, l);
  int v = abs(l), o = ms_open(s, v); bool t = o == 1;      // every model: fork on each value that is still open
  if (o == 3) { t = sym_concretize_int(sym_int_i("v", v, 0, 1)); ms_fix(s, t ? v : -v); }
  return (l > 0) == t ? l : -l;
}
int ipasir_failed(void *, int) { return 0; }
void ipasir_set_terminate(void *, void *, int (*)(void *)) {}
void ipasir_set_learn(void *, void *, int, void (*)(void *, int *)) {}
}
extern "C" void harness_main(int argc, char **argv) {
  std::string t = argv[0]; maxDepth = atoi(argv[1]); models = atoi(argv[2]); npol = atoi(argv[3]);
  SModel m = makeModel(t);
  std::string f = modelFile(); writeModel(m, f.c_str());
  bool loaded = false; int r[12];
  if (models == 9) {      // determinism: the same formulas and output whatever fresh memory contains
    for (int i = 4; i < argc; i++) { std::string o[3]; unsigned long h[3]; for (int k = 0; k < 3; k++) {
      inits = 0; formula = 0; progression::currentSolutionStepInstanceNumber = 0; sym_fill(k == 0 ? -1 : k == 1 ? 0xA5 : 0x01); char *out; int rc = runPlanner(f.c_str(), words(argv[i]), &out); sym_fill(-1); o[k] = timeless(out); h[k] = formula; free(out);
      sym_note(rc != -1, 1); sym_assert(rc == -1 || rc == 77, "the SAT planner terminated abnormally on a well-formed problem"); if (k) { sym_assert(h[k] == h[0], "two runs on the same input build different formulas"); sym_assert(o[k] == o[0], "two runs on the same input differ"); } } }
    sym_reach(); return;
  }
  for (int i = 4; i < argc; i++) {
    inits = 0; solvedNow = false;
    char *out; int rc = runPlanner(f.c_str(), words(argv[i]), &out);
    if (!loaded) { loadOracle(m); loaded = true; orc_any_order(1); for (int d = 0; d <= maxDepth; d++) r[d] = -2; }
    auto depth = [&](int d) { if (r[d] == -2) r[d] = orc_solve_depth(d, 40000); return r[d]; };
    sym_assert(rc == -1 || rc == 77, "the SAT planner terminated abnormally on a well-formed problem");
    sym_assert(rc == 77 || solvedNow, "the SAT planner stopped without a solution");
    bool solved = rc == -1;
    sym_note(0, solved); sym_note(1, !solved);
    if (solved) {
      char err[200]; long c = 0, s = 0; int bad = orc_verify(out, err, 200, &c, &s); sym_assert(!bad, err);
      sym_assert(c == orc_number_after(out, " true cost: ", -1), "the reported cost differs from the plan's cost");
      sym_assert(depth(inits) != 0, "a plan was found at a depth without any solution");
      for (int d = 1; d < inits; d++) { sym_note(2, depth(d) < 0); sym_assert(depth(d) != 1, "the formula of a depth with a solution was unsatisfiable"); }
    } else { sym_note(2, depth(maxDepth) < 0); sym_assert(depth(maxDepth) != 1, "the formula of a depth with a solution was unsatisfiable"); sym_assert(!orc_count(out, "==>"), "a plan was printed without a satisfying assignment"); }
    free(out);
  }
  sym_reach();
}
