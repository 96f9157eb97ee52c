// opt MODE ...: the planner's main() with a symbolic choice of command line options (P18). The planners themselves are replaced by
// stand-ins that compare what main() gives them with what the options mean.
//   heur K [1]: K heuristics, all ways to write them (or: one of them in all ways, the others fixed); search: the other options of progression search; sat, trans: options of these planners;
//   select: choice of the planner, unusable command lines
#include "opt_stub.h"
#include "walk.h"
#include "heuristics/hhSimple.h"
#include "heuristics/rcHeuristics/hhRC2.h"
#include "sat/sat_planner.h"
#include "translation/translationController.h"
typedef std::string Str;
static int C(int v) { return sym_concretize_int(v); }
static int pick(const char *n, int k) { return C(sym_int(n, 0, k - 1)); }
static int pick(const char *n, int i, int k) { return C(sym_int_i(n, i, 0, k - 1)); }
enum { NONE, PROG, SATP, BDDP, INTER, TRANS };
static int ran = NONE, runs = 0; static unsigned seeded = 0; static bool wasSeeded = false;
extern "C" void srand(unsigned s) { seeded = s; wasSeeded = true; }
extern "C" int rand() { return 0; }
// ---- what is expected
struct HSpec { int kind, inner, est, tc, inv; bool operator==(const HSpec &o) const { return kind == o.kind && inner == o.inner && est == o.est && tc == o.tc && inv == o.inv; } };   // kind: zero, modDepth, mixedModDepth, cost, rc2
static std::vector<HSpec> eh; static int eg = 1, ew = 1, esub = 0, etime = 1800, eprint = 1; static bool ev[7] = {false, true, true, true, true, true, true}, eps = true;
static Str eparm, efile; static bool debugValues = false;
static Heuristic *reference(Model *h, int i, const HSpec &s) {
  if (s.kind == 0) return new hhZero(h, i); if (s.kind == 1) return new hhModDepth(h, i, s.inv); if (s.kind == 2) return new hhMixedModDepth(h, i, s.inv); if (s.kind == 3) return new hhCost(h, i, s.inv);
  eEstimate e = s.est == 0 ? estDISTANCE : s.est == 1 ? estCOSTS : estMIXED; bool tc = s.tc;
  if (s.inner == 2) return new hhRC2<hsLmCut>(h, i, e, tc); if (s.inner == 3) return new hhRC2<hsFilter>(h, i, e, tc);
  auto *r = new hhRC2<hsAddFF>(h, i, e, tc); r->sasH->heuristic = s.inner == 1 ? sasAdd : sasFF; return r;
}
static void value(Heuristic **hF, int L, searchNode *n, searchNode *p, int a, int b, std::vector<int> &out) {
  n->heuristicValue = new int[L]; for (int i = 0; i < L; i++) n->heuristicValue[i] = -77;
  for (int i = 0; i < L; i++) { if (!n->goalReachable) { out.push_back(UNREACHABLE); continue; } int same = -1; for (int j = 0; j < i; j++) if (hF[i] == hF[j]) same = j; if (same >= 0) n->heuristicValue[i] = n->heuristicValue[same]; else if (b < 0) hF[i]->setHeuristicValue(n, p, a); else hF[i]->setHeuristicValue(n, p, a, b); out.push_back(n->goalReachable ? n->heuristicValue[i] : UNREACHABLE); }
}
static void explore(Model *h, searchNode *n, Heuristic **hF, int L, int depth, std::vector<int> &out) {
  if (!depth) return;
  for (int i = 0; i < n->numAbstract; i++) for (int j = 0; j < h->numMethodsForTask[n->unconstraintAbstract[i]->task]; j++) { int m = h->taskToMethods[n->unconstraintAbstract[i]->task][j]; searchNode *c = h->decompose(n, i, m); value(hF, L, c, n, i, m, out); if (c->goalReachable) explore(h, c, hF, L, depth - 1, out); }
  if (!n->numAbstract) for (int i = 0; i < n->numPrimitive; i++) if (h->isApplicable(n, n->unconstraintPrimitive[i]->task)) { int t = n->unconstraintPrimitive[i]->task; searchNode *c = h->apply(n, i); value(hF, L, c, n, t, -1, out); if (c->goalReachable) explore(h, c, hF, L, depth - 1, out); }
}
static std::vector<char> image(Model *h, int toggle) {      // the visited list's configuration in memory
  bool v[9]; for (int i = 0; i < 7; i++) v[i] = ev[i]; v[7] = esub; v[8] = eps; if (toggle >= 0) v[toggle] = !v[toggle];
  std::vector<char> b(sizeof(VisitedList), 0); new (b.data()) VisitedList(h, v[0], v[7], v[1], v[2], v[3], v[4], v[5], v[6], v[8]); return b;
}
namespace progression {
template <> void PriorityQueueSearch::search<VisitedList, OneQueueWAStarFringe>(Model *h, searchNode *n0, int timeL, bool sub, bool print, Heuristic **hF, int L, VisitedList &visi, OneQueueWAStarFringe &fringe) {
  ran = PROG; runs++;
  sym_assert(timeL == etime, "wrong time limit"); sym_assert(sub == (esub != 0), "wrong kind of search (optimal or suboptimal)"); sym_assert(print == (eprint != 0), "printing of the plan is switched wrongly");
  std::vector<HSpec> want = eh; if (want.empty()) want.push_back({4, 0, 0, 1, 0});
  sym_assert(L == (int)want.size(), "wrong number of heuristics"); if (L != (int)want.size()) return;
  Heuristic *ref[4]; for (int i = 0; i < L; i++) { int d = -1; for (int j = 0; j < i; j++) if (want[j] == want[i]) d = j; ref[i] = d >= 0 ? ref[d] : reference(h, i, want[i]); }
  std::vector<int> a, b; explore(h, n0, hF, L, 3, a); explore(h, n0, ref, L, 3, b);
  if (debugValues) { fprintf(stderr, "VALUES %s:", eparm.c_str()); for (int x : b) fprintf(stderr, " %d", x); fprintf(stderr, "\n"); }
  sym_assert(a == b, "a heuristic is not the one that was asked for");
  // the queue: two nodes with symbolic values
  long f[2]; searchNode *q[2];
  for (int k = 0; k < 2; k++) {
    searchNode *n = q[k] = new searchNode(); n->heuristicValue = new int[L]; for (int i = 0; i < L; i++) n->heuristicValue[i] = sym_int_i("h", k * 4 + i, 0, 20);
    n->modificationDepth = sym_int_i("depth", k, 0, 20); n->actionCosts = sym_int_i("cost", k, 0, 20); n->mixedModificationDepth = sym_int_i("mixed", k, 0, 20);
    f[k] = (long)ew * n->heuristicValue[0] + (eg == 1 ? n->modificationDepth : eg == 2 ? n->actionCosts : eg == 3 ? n->mixedModificationDepth : 0); fringe.push(n);
  }
  searchNode *x = fringe.pop(); bool first = x == q[0]; long lt = (unsigned long)(f[first] - f[!first]) >> 63; sym_assert(!lt, "the queue does not use the g value or the weight that was asked for");
  if (L > 1) { long eq = 1 - ((unsigned long)(f[0] - f[1]) >> 63) - ((unsigned long)(f[1] - f[0]) >> 63); long d = (long)q[first]->heuristicValue[1] - q[!first]->heuristicValue[1]; sym_assert(!(eq & ((unsigned long)d >> 63)), "the second heuristic does not break ties"); }
  // the visited list
  std::vector<char> base = image(h, -1), again = image(h, -1); const char *have = (const char *)&visi; bool same = true;
  std::vector<char> use(sizeof(VisitedList), 0); for (int t = 0; t < 9; t++) { std::vector<char> o = image(h, t); for (size_t i = 0; i < o.size(); i++) if (o[i] != base[i] && base[i] == again[i]) use[i] = 1; }
  auto ptrs = image(h, 0); for (int t = 0; t < 3; t++) { auto o = image(h, -1); for (size_t i = 0; i < o.size(); i++) if (o[i] != base[i]) for (size_t j = i / 8 * 8; j < i / 8 * 8 + 8; j++) use[j] = 0; }
  for (size_t i = 0; i < use.size(); i++) if (use[i] && have[i] != base[i]) same = false;
  sym_assert(same, "the visited list is not configured as asked for"); sym_note(5, std::count(use.begin(), use.end(), 1));
  sym_assert(visi.insertVisi(n0), "the initial node is reported as visited"); if (ev[0]) sym_assert(visi.insertVisi(n0), "the visited list is not switched off");
}
}
static bool es[6]; static int epr = 1;
void solve_with_sat_planner(Model *h, bool bc, bool mu, sat_pruning p, bool sep, bool opt, bool ord) {
  ran = SATP; runs++; sym_assert(bc == es[0], "wrong block compression"); sym_assert(mu == es[1] && h->rintanenInvariants == es[1], "wrong use of mutexes"); sym_assert(p == (epr == 0 ? SAT_NONE : epr == 1 ? SAT_FF : SAT_H2), "wrong pruning"); sym_assert(sep == es[2] && opt == es[3] && ord == es[4], "wrong SAT options");
}
void build_automaton(Model *) { ran = BDDP; runs++; }
void interactivePlanner(Model *, searchNode *) { ran = INTER; runs++; }
static int ett = 1, epgb = 0, esteps = 1; static bool et[4]; static Str edown = "none", econf = "ehc-ff()", esas = "output.sas";
void runTranslationPlanner(Model *, TranslationType t, bool force, int pgb, int steps, std::string d, std::string c, std::string s, bool it, bool gen, bool real) {
  ran = TRANS; runs++; TranslationType w[5] = {ParallelSeq, Push, TO, BaseStrips, BaseCondEffects};
  sym_assert(t == w[ett], "wrong translation"); sym_assert(force == et[0] && it == et[1] && gen == et[2] && real == et[3], "wrong translation options"); sym_assert(pgb == epgb && steps == esteps, "wrong progression bound"); sym_assert(d == edown && c == econf && s == esas, "wrong names given to the translation");
}
static SModel problem() {
  SModel m; m.facts(7); int a = m.action(5), b = m.action(7), c = m.action(1), d = m.action(9), e = m.action(2);
  int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask(); m.init = top;
  m.s0[0] = 1; m.goal[4] = 1; m.goal[5] = 1;
  m.act[a].pre[0] = 1; m.act[a].add[1] = 1; m.act[b].pre[1] = 1; m.act[b].add[4] = 1; m.act[c].pre[1] = 1; m.act[c].add[5] = 1; m.act[d].pre[0] = 1; m.act[d].add[4] = m.act[d].add[5] = m.act[d].add[1] = 1; m.act[e].pre[6] = 1; m.act[e].add[2] = 1;
  m.method(top, {a, a, A, B, B}); m.method(top, {A, A, c, c}); m.method(A, {d}); m.method(A, {e}); m.method(A, {a, b}); m.method(B, {c, b}); m.method(B, {c, d}); return m;
}
struct Main { int argc; char **argv; int ret; };
int panda_main(int, char **);
static void callMain(void *p) { Main *m = (Main *)p; m->ret = panda_main(m->argc, m->argv); }
static Str heuristic(int i, bool few, HSpec &s, bool &bad) {
  static const char *K[5] = {"zero", "modDepth", "mixedModDepth", "cost", "rc2"}; s = {0, 0, 0, 1, 0}; s.kind = pick("kind", i, 5);
  if (s.kind == 0) return pick("form", i, 2) ? "zero()" : "zero";
  if (s.kind < 4) { static const char *F[7] = {"", "()", "(invert)", "(true)", "(invert=true)", "(invert=false)", "(no)"}; int f = few ? pick("form", i, 2) * 2 : pick("form", i, 7); s.inv = f >= 2 && f <= 4; return Str(K[s.kind]) + F[f]; }
  static const char *H[5] = {"", "ff", "add", "lmc", "filter"}, *E[4] = {"", "distance", "cost", "mixed"}, *T[3] = {"", "yes", "no"};
  int h = pick("inner", i, 5), e = few ? pick("est", i, 2) * 2 : pick("est", i, 4), t = few ? 0 : pick("tc", i, 3), keyed = few ? 1 : pick("keyed", i, 4), rev = few ? 0 : pick("rev", i, 2);
  // arguments 1..3-keyed are given in order, the others with their names (in any order)
  static const char *key[3] = {"h=", "est=", "taskcount="}; const char *val[3] = {H[h], E[e], T[t]}; int npos = few ? 0 : 3 - keyed; std::vector<Str> p, k;
  for (int j = 0; j < 3; j++) if (j < npos) { sym_assume(*val[j]); p.push_back(val[j]); } else if (*val[j]) k.push_back(Str(key[j]) + val[j]);
  if (rev) { sym_assume(k.size() > 1); std::reverse(k.begin(), k.end()); } for (auto &x : k) p.push_back(x);
  s.inner = h <= 1 ? 0 : h == 2 ? 1 : h == 3 ? 2 : 3; s.est = e <= 1 ? 0 : e == 2 ? 1 : 2; s.tc = t != 2;
  Str r = "rc2"; if (p.empty()) return pick("form", i, 2) ? "rc2()" : r; for (size_t j = 0; j < p.size(); j++) r += (j ? ";" : "(") + p[j]; return r + ")";
}
extern "C" void harness_main(int argc, char **argv) {
  Str mode = argv[0]; debugValues = getenv("OPT_VALUES"); SModel m = problem(); Str f = modelFile(); writeModel(m, f.c_str());
  std::vector<Str> o; int want = PROG, wret = 0; bool parserExit = false; Str files[2] = {f, f}; int nf = 1; unsigned seed = 42;
  auto opt = [&](const char *nm, const char *sh, const char *lo) -> bool { int v = pick(nm, 3); if (v == 1) o.push_back(sh); if (v == 2) o.push_back(lo); return v; };
  auto num = [&](const char *nm, const char *sh, const char *lo, std::vector<int> vals, int def) -> int { int v = pick(nm, 1 + 2 * vals.size()); if (!v) return def; int x = vals[(v - 1) / 2]; if (v & 1) { o.push_back(sh); o.push_back(std::to_string(x)); } else o.push_back(Str(lo) + "=" + std::to_string(x)); return x; };
  if (mode == "heur") {
    int K = atoi(argv[1]); bool bad = false, comma = K > 1 && pick("comma", 2); Str all;
    int full = argc > 2 ? pick("full", K) : -1;     // this one in every variety, the others fixed
    for (int i = 0; i < K; i++) { HSpec s; Str w; if (full >= 0 && i != full) { bool z = pick("other", 2); s = z ? HSpec{4, 2, 1, 1, 0} : HSpec{0, 0, 0, 1, 0}; w = z ? "rc2(lmc;cost)" : "zero"; } else w = heuristic(i, K > 1 && full < 0, s, bad); eh.push_back(s); eparm += w + " "; if (comma) all += (i ? "," : "") + w; else if (full < 0 && pick("long", i, 2)) o.push_back("--heuristic=" + w); else { o.push_back("-H"); o.push_back(w); } }
    if (comma) { o.push_back("-H"); o.push_back(all); }
    // two heuristics: one of them must not be a reason for another value of the other
  } else if (mode == "search") {
    static const char *G[4] = {"none", "path", "action", "mixed"}; int g = pick("g", 5); if (g) { eg = g - 1; if (pick("glong", 2)) o.push_back(Str("--gValue=") + G[eg]); else { o.push_back("-g"); o.push_back(G[eg]); } }
    ew = num("w", "-w", "--astarweight", {1, 2, 3}, 1); if (pick("sub", 2)) o.push_back("--suboptimal"), esub = 1; eprint = !opt("np", "-N", "--noPlanOutput"); 
    if (pick("p", 2)) o.push_back("-p"); eh.push_back({3, 0, 0, 1, 0}); o.push_back("-H"); o.push_back("cost");
  } else if (mode == "general") {
    etime = num("t", "-t", "--timelimit", {7, 600}, 1800); seed = num("seed", "-S", "--seed", {0, 7}, 42);
  } else if (mode == "visited") {
    static const char *S[8][2] = {{"-V", "--noVisitedList"}, {"-T", "--noTaskHash"}, {"-Q", "--noTaskSequenceHash"}, {"-O", "--noTopologicalOrdering"}, {"--noOrderPairs", 0}, {"--noLayers", 0}, {"--noGIcheck", 0}, {"--noParallelSequences", 0}};
    bool lng = pick("long", 2); for (int i = 0; i < 8; i++) if (pick("v", i, 2)) { o.push_back(S[i][lng && S[i][1]]); if (i == 0) ev[0] = true; else if (i < 7) ev[i] = false; else eps = false; }
    if (pick("sub", 2)) o.push_back("--suboptimal"), esub = 1; eh.push_back({0, 0, 0, 1, 0}); o.push_back("-H"); o.push_back("zero");
  } else if (mode == "sat") {
    want = SATP; o.push_back(pick("slong", 2) ? "--sat" : "-s"); es[0] = !opt("B", "-B", "--blockcompression"); es[1] = !opt("M", "-M", "--satmutexes"); es[2] = opt("m", "-m", "--methodPreconditionsInSeparateLeafs"); es[3] = opt("o", "-o", "--optimisation"); if (pick("ord", 2)) es[4] = true, o.push_back("--orderOutput");
    static const char *P[3] = {"none", "ff", "h2"}; int p = pick("P", 4); if (p) { epr = p - 1; if (pick("Plong", 2)) o.push_back(Str("--pruning=") + P[epr]); else { o.push_back("-P"); o.push_back(P[epr]); } }
  } else if (mode == "trans") {
    want = TRANS; o.push_back(pick("2long", 2) ? "--translation" : "-2"); static const char *T[5] = {"parallelseq", "push", "to", "postrips", "pocond"}; int t = pick("type", 6); if (t) ett = t - 1, o.push_back(Str("--transtype=") + T[ett]);
    static const char *F[4] = {"--forceTransType", "--iterate", "--onlyGenerate", "--realCosts"}; for (int i = 0; i < 4; i++) if (pick("f", i, 2)) et[i] = true, o.push_back(F[i]);
    int b = pick("pgb", 3); if (b) epgb = b * 5, o.push_back("--pgb=" + std::to_string(epgb)); b = pick("steps", 2); if (b) esteps = 3, o.push_back("--pgbsteps=3");
    if (pick("names", 2)) { edown = "/x/fd"; econf = "lazy-cea()"; esas = "my.sas"; o.push_back("--downward=" + edown); o.push_back("--downwardConf=" + econf); o.push_back("--sasfile=" + esas); }
  } else {
    int w = pick("what", 9); static const char *A[6][2] = {{0, 0}, {"-p", "--progression"}, {"-s", "--sat"}, {"-b", "--bdd"}, {"-I", "--interactive"}, {"-2", "--translation"}};
    es[0] = es[1] = true;
    if (w < 5) { want = w + 1; o.push_back(A[want][pick("long", 2)]); }
    else if (w == 5) { static const char *B[5] = {"foo", "rc3(ff)", "", "dof", "Zero"}; o.push_back("-H"); o.push_back(B[pick("bad", 5)]); want = NONE; wret = 1; }
    else if (w == 6) { nf = 2; want = NONE; wret = 1; }
    else if (w == 7) { files[0] = "/nonexistent/problem"; want = NONE; wret = 1; }
    else { static const char *B[6][2] = {{"-g", "foo"}, {"-P", "foo"}, {"--transtype", "x"}, {"-w", "x"}, {"-p", "-s"}, {"--nosuchoption", "1"}}; int b = pick("bad", 6); o.push_back(B[b][0]); o.push_back(B[b][1]); want = NONE; wret = 1; parserExit = true; }
  }
  std::vector<char *> av; av.push_back(strdup("pandaPIengine")); bool front = pick("front", 2); if (front) for (int i = 0; i < nf; i++) av.push_back(strdup(files[i].c_str())); for (auto &s : o) av.push_back(strdup(s.c_str())); if (!front) for (int i = 0; i < nf; i++) av.push_back(strdup(files[i].c_str())); av.push_back(nullptr);
  Main a{(int)av.size() - 1, av.data(), -99}; char *out; sym_capture_begin(); int rc = sym_guard_exit(callMain, &a); sym_capture_end(&out); free(out);
  int ret = rc == -1 ? a.ret : rc; sym_note(0, want != NONE); sym_note(1, want == NONE);
  sym_assert(ran == want && runs == (want != NONE), want == NONE ? "a planner was run on an unusable command line" : "not the planner that was asked for was run");
  sym_assert(want == NONE ? ret != 0 : ret == 0, "wrong exit code");
  if (want != NONE) sym_assert(wasSeeded && seeded == seed, "wrong random seed");
  sym_reach();
}
