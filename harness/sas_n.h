// A small classical planner that stands in for Fast Downward (uninstrumented).
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int sas_load(const char *file, char *err, int errlen);   // 0 = well-formed SAS+ task
int sas_explore(int maxStates);                          // 1 = goal reachable, 0 = not, -1 = limit
int sas_choices(int *ops, int cap);                      // operators that keep the goal reachable (best first) from the current state; 0 = goal reached
void sas_apply(int op);
void sas_reset(void);
const char *sas_name(int op);
int sas_cost(int op);
#ifdef __cplusplus
}
#endif
