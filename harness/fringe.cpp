// fringe N H: the search queue (P11). N nodes are pushed with symbolic heuristic values, costs and depths, interleaved with
// pops at symbolic moments; every popped node is minimal with respect to f = w*h + g, then the further heuristics.
#include "hapi.h"
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include "flags.h"
#include "ProgressionNetwork.h"
#include "search/fringes/OneQueueWAStarFringe.h"
#include "heuristics/hhSimple.h"
#include "heuristics/hhZero.h"
using namespace progression;
static int calls = 0;
extern "C" int rand() { return sym_int_i("rand", calls++, 0, 3); }
static long lt(long a, long b) { return (unsigned long)(a - b) >> 63; }
extern "C" void harness_main(int argc, char **argv) {
  int N = atoi(argv[0]), H = atoi(argv[1]), opt = sym_concretize_int(sym_int("gvalue", 0, 3));
  int lo = argc > 2 ? atoi(argv[2]) : -3, hi = argc > 3 ? atoi(argv[3]) : 12;
  int w = argc > 4 ? sym_int("weight", 1, 3) : sym_concretize_int(sym_int("weight", 1, 3));
  char *o; sym_capture_begin();
  OneQueueWAStarFringe q((aStar)opt, w, H); q.printTypeInfo();
  std::vector<searchNode *> nodes; std::vector<long> f; std::vector<int> in; int live = 0;
  Model *none = nullptr; hhModDepth md(none, 0, false), mdi(none, 0, true); hhMixedModDepth mm(none, 0, false), mmi(none, 0, true); hhCost hc(none, 0, false), hci(none, 0, true); hhZero hz(none, 0);
  auto pop = [&]() {
    sym_assert(!q.isEmpty(), "the queue is empty although it contains nodes"); searchNode *n = q.pop(); int k = -1; for (size_t i = 0; i < nodes.size(); i++) if (nodes[i] == n) k = i;
    sym_assert(k >= 0 && in[k], "a node was returned that is not in the queue"); if (k < 0) return; in[k] = 0; live--;
    for (size_t i = 0; i < nodes.size(); i++) if (in[i]) {
      long better = lt(f[i], f[k]), eq = 1 - better - lt(f[k], f[i]);
      for (int h = 1; h < H; h++) { long a = nodes[i]->heuristicValue[h], b = nodes[k]->heuristicValue[h], l = lt(a, b); better |= eq & l; eq &= 1 - l - lt(b, a); }
      sym_assert(!better, "a node was returned before a better one");
    }
  };
  for (int i = 0; i < N; i++) {
    searchNode *n = new searchNode(); n->heuristicValue = new int[H]; for (int h = 0; h < H; h++) n->heuristicValue[h] = sym_int_i("h", i * H + h, lo, hi);
    n->modificationDepth = opt == 1 ? sym_int_i("depth", i, 0, hi) : i; n->mixedModificationDepth = opt == 3 ? sym_int_i("mixed", i, 0, hi) : 2 * i; n->actionCosts = opt == 2 ? sym_int_i("cost", i, 0, hi) : 3 * i;
    f.push_back((long)w * n->heuristicValue[0] + (opt == 1 ? n->modificationDepth : opt == 2 ? n->actionCosts : opt == 3 ? n->mixedModificationDepth : 0));
    nodes.push_back(n); in.push_back(1); q.push(n); live++; sym_assert(q.size() == live, "wrong size of the queue");
    if (i == 0) { searchNode *x = new searchNode(); x->heuristicValue = new int[1]; x->modificationDepth = n->modificationDepth; x->mixedModificationDepth = n->mixedModificationDepth; x->actionCosts = n->actionCosts;
      auto val = [&](Heuristic &h, int v, const char *msg) { x->heuristicValue[0] = -77; h.setHeuristicValue(x, n, 0); sym_assert(x->heuristicValue[0] == v && x->goalReachable, msg); x->heuristicValue[0] = -77; h.setHeuristicValue(x, n, 0, 0); sym_assert(x->heuristicValue[0] == v && x->goalReachable, msg); };
      val(hz, 0, "wrong value of the zero heuristic"); val(md, x->modificationDepth, "wrong value of the depth heuristic"); val(mdi, -x->modificationDepth, "wrong value of the inverted depth heuristic"); val(mm, x->mixedModificationDepth, "wrong value of the mixed heuristic"); val(mmi, -x->mixedModificationDepth, "wrong value of the inverted mixed heuristic"); val(hc, x->actionCosts, "wrong value of the cost heuristic"); val(hci, -x->actionCosts, "wrong value of the inverted cost heuristic"); }
    if (i && i < N - 1 && sym_concretize_int(sym_int_i("popnow", i, 0, 1))) pop();
  }
  while (live) pop();
  sym_assert(q.isEmpty() && q.size() == 0, "the queue is not empty after all nodes were returned");
  sym_capture_end(&o); free(o); sym_reach();
}
