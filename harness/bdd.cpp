// bdd TEMPLATE: the symbolic-search (BDD) planner on a symbolic problem (P13).
#include "templates.h"
extern "C" int rand() { return 0; }
extern "C" void harness_main(int argc, char **argv) {
  std::string t = argv[0];
  SModel m = makeModel(t);
  std::string f = modelFile(); writeModel(m, f.c_str());
  char *out; int rc = runPlanner(f.c_str(), {"-b"}, &out);
  long best = -1, bs = -1; loadOracle(m); orc_any_order(1); int r = orc_solve(12, 40000, &best, &bs);
  bool solved = orc_count(out, "Goal reached!"), uns = orc_count(out, "Problem is unsolvable");
  sym_note(0, solved); sym_note(1, uns); sym_note(2, r < 0); sym_note(3, r == 1);
  sym_assert(rc == 0, "the symbolic planner terminated abnormally on a well-formed problem");
  sym_assert(solved || uns, "the symbolic planner stopped without a verdict");
  sym_assert(!(solved && r == 0), "the symbolic planner reported a solution for an unsolvable problem");
  sym_assert(!(uns && r == 1), "the symbolic planner reported a solvable problem as unsolvable");
  if (solved) {
    char err[200]; long c = 0, s = 0; int bad = orc_verify(out, err, 200, &c, &s); sym_assert(!bad, err);
    sym_assert(c == orc_number_after(out, "Goal reached! Length=", -1), "the reported cost differs from the plan's cost");
    if (r == 1) sym_assert(c == best, "the plan is not optimal");
  }
  free(out);
  sym_reach();
}
