// plan MODE TEMPLATE CONFIG...: runs the planner's own main() on a symbolic problem, once per configuration.
// MODE: sound (P01), complete (P02), optimal (P03; the configuration's g-value decides what is minimised)
#include "templates.h"
namespace progression { extern int currentSolutionStepInstanceNumber; }
// the choices the planner takes with rand(): the first ones are symbolic
static int randSym = 0, randCalls = 0;
extern "C" int rand() { if (randCalls < randSym) return sym_int_i("rand", randCalls++, 0, 1); unsigned x = randCalls++ * 2654435761u; return (x >> 5) & 0xffffff; }
static void determ(const std::string &f, const char *cfg) {
  std::string o[3];
  for (int k = 0; k < 3; k++) { progression::currentSolutionStepInstanceNumber = 0; randCalls = 0; sym_fill(k == 0 ? -1 : k == 1 ? 0xA5 : 0x01); char *out; int rc = runPlanner(f.c_str(), words(cfg), &out); sym_fill(-1); o[k] = timeless(out); free(out); sym_note(0, o[k].find("Status: Solved") != std::string::npos); sym_note(1, o[k].find("Proven unsolvable") != std::string::npos);
    sym_assert(rc == -1, "the planner terminated abnormally on a well-formed problem"); if (k) sym_assert(o[k] == o[0], "two runs on the same input differ"); }
}
extern "C" void harness_main(int argc, char **argv) {
  std::string mode = argc > 0 ? argv[0] : "sound", t = argc > 1 ? argv[1] : "to";
  size_t plus = t.find('+'); if (plus != std::string::npos) { randSym = atoi(t.c_str() + plus + 1); t = t.substr(0, plus); }
  SModel m = makeModel(t);
  std::string f = modelFile(); writeModel(m, f.c_str());
  bool loaded = false; long best = -1, steps = -1; int r = 0, np = -1; std::vector<int> pl(40000);
  if (mode == "determ") { for (int i = 2; i < argc; i++) determ(f, argv[i]); sym_reach(); return; }
  for (int i = 2; i < argc; i++) {
    progression::currentSolutionStepInstanceNumber = 0; randCalls = 0;
    char *out; int rc = runPlanner(f.c_str(), words(argv[i]), &out);
    sym_assert(rc == -1, "the planner terminated abnormally on a well-formed problem");
    if (!loaded) { loadOracle(m, mode != "optimal"); loaded = true; if (mode == "optimal") np = orc_plans(10, 60000, pl.data(), pl.size()); else if (mode != "sound") r = orc_solve(10, 30000, &best, &steps); }
    bool solved = orc_count(out, "- Status: Solved"), unsolv = orc_count(out, "- Status: Proven unsolvable");
    sym_note(0, solved); sym_note(1, unsolv); sym_note(2, r < 0);
    char err[200]; long c = 0, s = 0; int bad = 0;
    if (solved) {
      bad = orc_verify(out, err, 200, &c, &s);
      if (mode == "sound") {
        sym_assert(!bad, err);
        sym_assert(c == orc_number_after(out, "- Total costs of actions: ", -1), "the reported cost differs from the plan's cost");
        sym_assert(s == orc_number_after(out, "- Found solution of length ", -1), "the reported length differs from the plan's length");
      }
    } else if (mode == "sound") sym_assert(!orc_count(out, "==>"), "a plan was printed without the status Solved");
    if (mode == "complete") {
      sym_assert(solved + unsolv == 1, "the search ended without a verdict");
      if (unsolv) sym_assert(r != 1, "a solvable problem was reported as proven unsolvable");
      if (solved) sym_assert(r != 0, "an unsolvable problem was reported as solved");
    }
    if (mode == "optimal" && solved && !bad && np >= 0) {
      std::vector<int> mine(m.nA + 1); sym_assert(!orc_plan_vector(out, mine.data()), "unreadable plan");
      bool path = strstr(argv[i], "-g path"), mixed = strstr(argv[i], "-g mixed");
      auto value = [&](const int *v) { int c = path || mixed ? v[m.nA] : 0; for (int a = 0; a < m.nA; a++) c += v[a] * (path ? 1 : m.act[a].cost); return c; };
      const char *w = strstr(argv[i], "-w "); int weight = w ? atoi(w + 3) : 1, have = value(mine.data());
      for (int k = 0; k < np; k++) sym_assert(have <= weight * value(&pl[k * (m.nA + 1)]), weight == 1 ? "the solution is not an optimal one" : "the solution is worse than the weight allows");
    }
    if (mode == "optimal") { sym_assert(!(unsolv && np > 0), "a solvable problem was reported as proven unsolvable"); sym_note(3, np < 0); }
    free(out);
  }
  sym_reach();
}
