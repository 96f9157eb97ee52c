// Native replay runtime: the same harness, compiled normally, with concrete inputs from a file.
#include <setjmp.h>
#include <malloc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <iostream>
#include <map>
#include <new>
#include <string>
#include <vector>
#include "hapi.h"
static std::map<std::string, long> in;
static jmp_buf *jb; static int ecode;
static int track;
static std::vector<std::pair<sym_list_fn, void *>> lists;
extern "C" {
static long getv(const char *n, int i, long lo, long hi) {
  char b[64]; snprintf(b, sizeof b, i >= 0 ? "%s%d" : "%s", n, i);
  b[38] = 0;
  auto f = in.find(b);
  long v = f == in.end() ? lo : f->second;
  if (v < lo || v > hi) v = lo;
  return v;
}
int sym_int_i(const char *n, int i, int lo, int hi) { return (int)getv(n, i, lo, hi); }
long sym_long(const char *n, long lo, long hi) { return getv(n, -1, lo, hi); }
void sym_violation(const char *m) { fflush(stdout); fprintf(stderr, "REPLAY-VIOLATION property: %s\n", m); _exit(1); }
void sym_assume_fail() { fprintf(stderr, "REPLAY-ASSUME-FAILED\n"); _exit(3); }
void sym_reach() {}
int sym_mark(int v) { return v; }
int sym_list_mark(sym_list_fn f, void *a) { lists.push_back({f, a}); return SYM_LMARK_BASE + (int)lists.size() - 1; }
int sym_concretize_int(int v) { return v; }
int sym_is_symbolic(int) { return 0; }
void sym_note(int, long) {}
void sym_ite_mode(int) {}
// other memory contents, and for what operator new hands out another order of addresses (downwards, as in the engine)
static int fillByte = -1; static char *arena, *arenaPos; static const size_t ARENA = 1ul << 31;
void sym_fill(int b) { fillByte = b; mallopt(M_PERTURB, b > 0 ? ~b & 0xff : 0); }
void sym_track_output(int) {}
int sym_replaying() { return 1; }
int sym_guard_exit(void (*fn)(void *), void *arg) {
  jmp_buf b; jb = &b;
  if (setjmp(b) == 0) { fn(arg); jb = nullptr; return -1; }
  jb = nullptr; return ecode;
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (jb) { ecode = c; longjmp(*jb, 1); } __real_exit(c); }
std::istream *__real__ZNSirsERi(std::istream *is, int *x);
static int curList = -1, curPos; static std::istream *curS;
std::istream *__wrap__ZNSirsERi(std::istream *is, int *x) {
  if (curList >= 0 && curS == is) { *x = lists[curList].first(lists[curList].second, curPos++); if (*x == -1) curList = -1; return is; }
  __real__ZNSirsERi(is, x);
  if (*x >= SYM_LMARK_BASE && *x < SYM_LMARK_BASE + (int)lists.size()) { curList = *x - SYM_LMARK_BASE; curPos = 0; curS = is; return __wrap__ZNSirsERi(is, x); }
  return is;
}
static int outFd = -1, savedOut = -1;
void sym_capture_begin() { fflush(stdout); if (outFd < 0) outFd = memfd_create("out", 0); if (ftruncate(outFd, 0)) {} lseek(outFd, 0, SEEK_SET); savedOut = dup(1); dup2(outFd, 1); }
long sym_capture_end(char **buf) {
  std::cout.flush(); fflush(stdout);
  long n = lseek(outFd, 0, SEEK_END); dup2(savedOut, 1); close(savedOut);
  char *b = (char *)malloc(n + 1); long r = pread(outFd, b, n, 0); if (r < 0) r = 0; b[r] = 0; *buf = b;
  if (getenv("REPLAY_SHOW")) { if (write(2, b, r)) {} }
  return r;
}
}
static void onsig(int s) { fprintf(stderr, "REPLAY-VIOLATION %s: signal %d\n", s == SIGPROF || s == SIGALRM ? "timeout" : "crash", s); _exit(1); }
int main(int argc, char **argv) {
  // replay INPUTS [harness args...]
  if (argc < 2) return 2;
  FILE *f = fopen(argv[1], "r"); if (!f) { perror("inputs"); return 2; }
  char nm[256]; long v;
  while (fscanf(f, "%255s %ld", nm, &v) == 2) in[std::string(nm)] = v;
  fclose(f);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF, SIGALRM}) signal(s, onsig);
  alarm(60);
  harness_main(argc - 2, argv + 2);
  fprintf(stderr, "REPLAY-OK\n");
  return 0;
}

static void *newMem(size_t n, size_t al) {
  if (fillByte > 0) {
    if (!arena) { void *r = mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (r != MAP_FAILED) arena = (char *)r, arenaPos = arena + ARENA; }
    if (arena && n < (size_t)(arenaPos - arena) / 2) { arenaPos = (char *)(((size_t)arenaPos - n - 16) & ~(al - 1)); if (n <= (1u << 20)) memset(arenaPos, fillByte, n); return arenaPos; }
  }
  void *p = al > 16 ? aligned_alloc(al, (n + al - 1) & ~(al - 1)) : malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
static void freeMem(void *p) { if (!p || (arena && (char *)p >= arena && (char *)p < arena + ARENA)) return; free(p); }
void *operator new(size_t n) { return newMem(n, 16); }
void *operator new[](size_t n) { return newMem(n, 16); }
void *operator new(size_t n, std::align_val_t a) { return newMem(n, (size_t)a < 16 ? 16 : (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return newMem(n, (size_t)a < 16 ? 16 : (size_t)a); }
void operator delete(void *p) noexcept { freeMem(p); }
void operator delete[](void *p) noexcept { freeMem(p); }
void operator delete(void *p, size_t) noexcept { freeMem(p); }
void operator delete[](void *p, size_t) noexcept { freeMem(p); }
void operator delete(void *p, std::align_val_t) noexcept { freeMem(p); }
void operator delete[](void *p, std::align_val_t) noexcept { freeMem(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { freeMem(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { freeMem(p); }
