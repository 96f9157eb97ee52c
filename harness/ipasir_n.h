#pragma once
#ifdef __cplusplus
extern "C" {
#endif
void *ms_new(int polarity);
void ms_free(void *s);
void ms_add(void *s, int lit);
int ms_solve(void *s);
int ms_val(void *s, int lit);
int ms_open(void *s, int lit);
void ms_fix(void *s, int lit);
void ms_block(void *s, int nvars);
#ifdef __cplusplus
}
#endif
