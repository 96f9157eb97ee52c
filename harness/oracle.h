// Independent reference semantics of ground HTN planning, compiled WITHOUT instrumentation.
// It works on fully concrete models (flat int encoding made by htn.h).
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
// Loads a model from its flat encoding (see flatten() in htn.h).
void orc_load(const int *buf, int len);
// 1 solvable (cheapest action cost in *best, fewest actions+decompositions in *bestSteps), 0 proven unsolvable, -1 search limit hit
int orc_solve(int maxTasks, int maxNodes, long *best, long *bestSteps);
// The (action count vector, number of decompositions) of every solution; entries of nA+1 ints. Number of entries, or -1 when a limit was hit
int orc_plans(int maxTasks, int maxNodes, int *out, int cap);
// the same vector for a printed plan that orc_verify accepts
int orc_plan_vector(const char *plan, int *out);
// 1 iff some solution has a decomposition tree of depth <= depth (root = 0), 0 if not, -1 limit
int orc_solve_depth(int depth, int maxNodes);
// Checks a printed plan ("==>" .. "<=="); returns 0 when it is a correct solution, otherwise a reason in err
int orc_verify(const char *plan, char *err, int errlen, long *cost, long *steps);
void orc_any_order(int b);   // children of a decomposition may be listed in any order
// generic printed-output helpers
int orc_count(const char *hay, const char *needle);
long orc_number_after(const char *hay, const char *needle, long dflt);
int orc_same(const char *a, const char *b);
#ifdef __cplusplus
}
#endif
