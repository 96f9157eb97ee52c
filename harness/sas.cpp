// sas TEMPLATE MAXBOUND PICKS CONFIG...: the translation to classical planning (P14). Fast Downward is replaced by a
// stand-in whose first PICKS choices among the operators that keep the goal reachable are symbolic.
#include "templates.h"
#include "sas_n.h"
#include <sys/stat.h>
static int calls, maxCalls, picks, conf; static bool limit, found; static long sasCost; static unsigned long fileHash; namespace progression { extern int currentSolutionStepInstanceNumber; } static std::string sasFile, malformed;
extern "C" int rand() { return 0; }
extern "C" int system(const char *) {
  char err[200];
  if (FILE *h = fopen(sasFile.c_str(), "r")) { int c; while ((c = fgetc(h)) != EOF) fileHash = fileHash * 1000003 + c; fclose(h); }
  if (sas_load(sasFile.c_str(), err, sizeof err)) { malformed = err; exit(78); }
  int r = sas_explore(200000); calls++;
  if (r < 0) { limit = true; exit(77); }
  if (r == 0) { if (calls >= maxCalls) exit(77); return 3072; }
  FILE *f = fopen((sasFile + ".plan").c_str(), "w"); int ops[400], k = 0, n; sasCost = 0;
  while ((n = sas_choices(ops, 400)) && k < 200) {
    int c = k < picks && n > 1 ? sym_concretize_int(sym_int_i("pick", conf * 16 + k, 0, n - 1)) : 0;
    fprintf(f, "(%s)\n", sas_name(ops[c])); sasCost += sas_cost(ops[c]); sas_apply(ops[c]); k++;
  }
  fprintf(f, "; cost = %ld (unit cost)\n", sasCost); fclose(f); found = true;
  return 0;
}
extern "C" void harness_main(int argc, char **argv) {
  std::string t = argv[0]; maxCalls = atoi(argv[1]); picks = atoi(argv[2]);
  SModel m = makeModel(t);
  std::string f = modelFile(); writeModel(m, f.c_str());
  char b[300]; const char *td = getenv("TMPDIR"); snprintf(b, sizeof b, "%s/sas-%d", td ? td : "/tmp", (int)getpid()); sasFile = b; unlink(sasFile.c_str()); unlink((sasFile + ".plan").c_str());
  if (picks == 9) {      // determinism: the same translation and output whatever fresh memory contains
    picks = 0;
    for (int i = 3; i < argc; i++) { std::string x[3]; for (int k = 0; k < 3; k++) {
      calls = 0; limit = found = false; malformed = ""; fileHash = 0; progression::currentSolutionStepInstanceNumber = 0; std::vector<std::string> o = words(argv[i]); o.push_back("-2"); o.push_back("--iterate"); o.push_back("--downward=fd"); o.push_back("--sasfile=" + sasFile);
      sym_fill(k == 0 ? -1 : k == 1 ? 0xA5 : 0x01); char *out; int rc = runPlanner(f.c_str(), o, &out); sym_fill(-1); unlink(sasFile.c_str()); unlink((sasFile + ".plan").c_str());
      x[k] = timeless(out) + " " + std::to_string(fileHash); free(out); sym_note(!found, 1); sym_assert(malformed.empty(), malformed.c_str()); sym_assert(found ? rc == 0 : rc == 77, "the translation terminated abnormally on a well-formed problem"); if (k) sym_assert(x[k] == x[0], "two runs on the same input differ"); } }
    sym_reach(); return;
  }
  bool loaded = false; int r = 0; long best = -1, bs = -1;
  for (int i = 3; i < argc; i++) {
    conf = i - 3; calls = 0; limit = found = false; malformed = "";
    std::vector<std::string> o = words(argv[i]); o.push_back("-2"); o.push_back("--iterate"); o.push_back("--downward=fd"); o.push_back("--sasfile=" + sasFile);
    char *out; int rc = runPlanner(f.c_str(), o, &out);
    unlink(sasFile.c_str()); unlink((sasFile + ".plan").c_str());
    if (!loaded) { loadOracle(m); orc_any_order(1); loaded = true; r = orc_solve(10, 30000, &best, &bs); }
    sym_note(0, found); sym_note(1, !found && !limit); sym_note(2, limit || r < 0);
    sym_assert(malformed.empty(), malformed.c_str());
    sym_assert(found ? rc == 0 : rc == 77, "the translation terminated abnormally on a well-formed problem");
    if (found) {
      char err[200]; long c = 0, s = 0; int bad = orc_verify(out, err, 200, &c, &s); sym_assert(!bad, err);
      if (strstr(argv[i], "--realCosts")) sym_assert(c == sasCost, "the cost of the classical plan differs from the cost of its actions");
      sym_assert(r != 0, "a classical plan exists for an unsolvable problem");
    } else if (!limit) sym_assert(r != 1, "no classical plan exists for a solvable problem at any bound");
    free(out);
  }
  sym_reach();
}
