// Harness API. The same harness source is compiled (a) instrumented and linked with rt.cpp for
// symbolic exploration and (b) natively with rt_replay.cpp to replay a counterexample.
#pragma once
#define SYM_MARKS 4096
#define SYM_MARK_BASE 2000000000
#define SYM_LMARK_BASE 2100000000
#ifdef __cplusplus
extern "C" {
#endif
typedef int (*sym_list_fn)(void *arg, int pos);
int sym_int_i(const char *name, int idx, int lo, int hi);   // symbolic 32-bit integer in [lo,hi]
long sym_long(const char *name, long lo, long hi);
void sym_violation(const char *msg);
void sym_assume_fail(void);
void sym_reach(void);                 // the property was evaluated on this path (vacuity witness)
int sym_mark(int v);                  // token to print into an input file for a symbolic value
int sym_list_mark(sym_list_fn f, void *arg);
int sym_concretize_int(int v);
int sym_is_symbolic(int v);
void sym_note(int i, long v);
void sym_ite_mode(int max);
void sym_fill(int byte);
void sym_track_output(int b);
int sym_guard_exit(void (*fn)(void *), void *arg);
void sym_capture_begin(void);
long sym_capture_end(char **buf);
int sym_replaying(void);
void harness_main(int argc, char **argv);
#ifdef __cplusplus
}
static inline int sym_int(const char *n, int lo, int hi) { return sym_int_i(n, -1, lo, hi); }
#endif
#define sym_assert(c, msg) do { if (!(c)) sym_violation(msg); } while (0)
#define sym_assume(c) do { if (!(c)) sym_assume_fail(); } while (0)
