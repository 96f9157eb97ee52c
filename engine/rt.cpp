// Runtime of the concolic engine: linked (uninstrumented) into every instrumented harness.
#include "ops.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <istream>
#include <new>
#include "hapi.h"

typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

extern "C" {
u32 __sym_args[64]; u32 __sym_rets[64]; u64 __sym_arg_tag, __sym_ret_tag; u64 __sym_byval[64];
}
static Arena *A;             // shared with the explorer
static bool active;          // inside a run
static u32 NN;               // next node id
#define POISON 0xFFFFFFFFu
static u32 *const SH = (u32 *)SYM_SHADOW_BASE;
static bool shadowReady;
static u32 iteMax = 0;

// ------------------------------------------------------------------ finishing a run
static void finish(u32 st) {
  A->nNodes = NN;
  __sync_synchronize();
  A->status = st;
  _exit(0);
}
static void report(const char *kind, const char *msg) {
  if (!active) { fprintf(stderr, "violation outside run: %s %s\n", kind, msg); _exit(9); }
  snprintf(A->msg, sizeof A->msg, "%s: %s", kind, msg);
  finish(ST_VIOL);
}
static void lost(const char *where) {
  if (!active) return;
  if (!A->lost) snprintf(A->lostWhere, sizeof A->lostWhere, "%s", where);
  A->lost++;
}

// ------------------------------------------------------------------ expressions
#define HT (1u << 22)
static u32 htab[HT];
static u32 epoch = 1;
static u32 chk[SYM_MAX_NODES];
static uint8_t *const dummy = nullptr;
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }
static inline i64 smaxw(unsigned w) { return w >= 64 ? INT64_MAX : ((i64)1 << (w - 1)) - 1; }
static inline i64 sminw(unsigned w) { return -smaxw(w) - 1; }
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

#define N(i) (A->nodes[i])
static bool isfix(u32 id) {
  Node &n = N(id);
  if (n.fixed || n.op == O_CONST) return true;
  if (n.op == O_VAR) return false;
  if (chk[id] == epoch) return false;
  bool f;
  if (n.op == O_ITE && isfix(n.a)) f = N(n.a).cval ? isfix(n.b) : isfix(n.c);
  else {
    f = isfix(n.a);
    if (f && n.b && n.op != O_EXTRACT) f = isfix(n.b);
    if (f && n.c) f = isfix(n.c);
  }
  if (f) { n.fixed = 1; n.lo = n.hi = sx(n.cval, n.width); return true; }
  chk[id] = epoch;
  return false;
}
static u64 evalop(unsigned op, unsigned w, u64 a, u64 b, u64 c, unsigned wa, unsigned wb, u64 aux) {
  u64 m = mask(w);
  switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m; case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : m); if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
    case O_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : (a >> b); case O_ASHR: return (u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m;
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sx(a, wa) < sx(b, wa); case O_SLE: return sx(a, wa) <= sx(b, wa);
    case O_NOT: return !a; case O_ITE: return a ? b : c;
    case O_ZEXT: return a; case O_SEXT: return (u64)sx(a, wa) & m;
    case O_EXTRACT: return (a >> aux) & m; case O_CONCAT: return ((a << wb) | b) & m;
  }
  return 0;
}
static void interval(Node &n) {
  unsigned w = n.width;
  i64 L = sminw(w), H = smaxw(w);
  n.lo = L; n.hi = H;
  Node &a = N(n.a); Node &b = N(n.b);
  auto fits = [&](i128 lo, i128 hi) { if (lo >= L && hi <= H) { n.lo = (i64)lo; n.hi = (i64)hi; } };
  switch (n.op) {
    case O_ADD: fits((i128)a.lo + b.lo, (i128)a.hi + b.hi); break;
    case O_SUB: fits((i128)a.lo - b.hi, (i128)a.hi - b.lo); break;
    case O_MUL: { i128 p[4] = {(i128)a.lo * b.lo, (i128)a.lo * b.hi, (i128)a.hi * b.lo, (i128)a.hi * b.hi}; i128 lo = p[0], hi = p[0]; for (i128 x : p) { if (x < lo) lo = x; if (x > hi) hi = x; } fits(lo, hi); break; }
    case O_AND: if (b.lo >= 0 || a.lo >= 0) { i64 h = a.lo >= 0 && b.lo >= 0 ? (a.hi < b.hi ? a.hi : b.hi) : (a.lo >= 0 ? a.hi : b.hi); n.lo = 0; n.hi = h; } break;
    case O_OR: case O_XOR: if (a.lo >= 0 && b.lo >= 0) { u64 x = (u64)(a.hi | b.hi); u64 m = 1; while (m <= x && m) m <<= 1; n.lo = 0; i64 h = m ? (i64)(m - 1) : H; if (h >= 0 && h < H) n.hi = h; } break;
    case O_SHL: if (b.op == O_CONST && b.cval < 62) { fits((i128)a.lo << b.cval, (i128)a.hi << b.cval); } break;
    case O_LSHR: if (a.lo >= 0 && b.op == O_CONST && b.cval < 64) { n.lo = a.lo >> b.cval; n.hi = a.hi >> b.cval; } else if (b.op == O_CONST && b.cval > 0 && b.cval < w) { n.lo = 0; n.hi = (i64)(mask(w) >> b.cval); } break;
    case O_ASHR: if (b.op == O_CONST && b.cval < 64) { n.lo = a.lo >> b.cval; n.hi = a.hi >> b.cval; } break;
    case O_UDIV: if (a.lo >= 0 && b.op == O_CONST && sx(b.cval, w) > 0) { n.lo = a.lo / (i64)b.cval; n.hi = a.hi / (i64)b.cval; } else if (a.lo >= 0 && b.lo > 0) { n.lo = 0; n.hi = a.hi; } break;
    case O_SDIV: if (a.lo >= 0 && b.lo > 0) { n.lo = a.lo / b.hi; n.hi = a.hi / b.lo; } break;
    case O_UREM: if (b.op == O_CONST && sx(b.cval, w) > 0) { n.lo = 0; n.hi = (i64)b.cval - 1; } break;
    case O_SREM: if (a.lo >= 0 && b.lo > 0) { n.lo = 0; n.hi = b.hi - 1; } break;
    case O_ITE: { Node &c = N(n.c); n.lo = b.lo < c.lo ? b.lo : c.lo; n.hi = b.hi > c.hi ? b.hi : c.hi; break; }
    case O_ZEXT: if (a.lo >= 0) { n.lo = a.lo; n.hi = a.hi; } else { n.lo = 0; n.hi = (i64)mask(a.width); } break;
    case O_SEXT: n.lo = a.lo; n.hi = a.hi; break;
    case O_EXTRACT: if (n.b == 0 && a.lo >= 0 && a.hi <= H) { n.lo = a.lo; n.hi = a.hi; } else if (n.b == 0 && a.lo >= L && a.hi <= H) { n.lo = a.lo; n.hi = a.hi; } break;
    case O_CONCAT: if (a.op == O_CONST && a.cval == 0) { n.lo = 0; n.hi = b.lo >= 0 ? b.hi : (i64)mask(b.width); } else if (a.lo >= 0 && w < 64) { n.lo = 0; n.hi = (i64)(((u64)a.hi << b.width) | mask(b.width)); if (n.hi > H) n.hi = H; } break;
    default: break;
  }
}
static u32 intern(unsigned op, unsigned w, u32 a, u32 b, u32 c, u64 aux, u64 cval) {
  u64 h = mix(mix(mix(mix(op * 131 + w, a), b), c), aux);
  u32 i = (u32)h & (HT - 1);
  while (htab[i]) {
    Node &n = N(htab[i]);
    if (n.op == op && n.width == w && n.a == a && n.b == b && n.c == c && n.aux == aux) return htab[i];
    i = (i + 1) & (HT - 1);
  }
  if (NN >= SYM_MAX_NODES - 2) finish(ST_LIMIT);
  u32 id = NN++;
  htab[i] = id;
  Node &n = N(id);
  n.op = op; n.width = w; n.fixed = 0; n.pad = 0; n.a = a; n.b = b; n.c = c; n.aux = aux; n.cval = cval;
  if (op == O_CONST) { n.lo = n.hi = sx(cval, w); n.hash = mix(mix(7, w), aux); }
  else {
    if (op == O_VAR) n.hash = mix(mix(11, w), aux);
    else {
      u64 hh = mix(op * 977 + w, N(a).hash);
      if (op == O_EXTRACT) hh = mix(hh, b); else if (b) hh = mix(hh, N(b).hash);
      if (c) hh = mix(hh, N(c).hash);
      n.hash = hh;
      interval(n);
    }
  }
  chk[id] = 0;
  return id;
}
static u32 K(u64 v, unsigned w) { v &= mask(w); return intern(O_CONST, w, 0, 0, 0, v, v); }
static inline bool isC(u32 x) { return N(x).op == O_CONST; }
static inline u32 opnd(u32 s, u64 v, unsigned w) { if (s && !isfix(s)) return s; return K(v, w); }

// decides a comparison from intervals: 0 false, 1 true, -1 unknown
static int ivcmp(unsigned op, Node &a, Node &b) {
  switch (op) {
    case O_EQ: if (a.hi < b.lo || b.hi < a.lo) return 0; if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return 1; return -1;
    case O_SLT: if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0; return -1;
    case O_SLE: if (a.hi <= b.lo) return 1; if (a.lo > b.hi) return 0; return -1;
    case O_ULT: if (a.lo >= 0 && b.lo >= 0) { if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0; } else if (a.lo >= 0 && b.hi < 0) return 1; else if (a.hi < 0 && b.lo >= 0) return 0; return -1;
    case O_ULE: if (a.lo >= 0 && b.lo >= 0) { if (a.hi <= b.lo) return 1; if (a.lo > b.hi) return 0; } else if (a.lo >= 0 && b.hi < 0) return 1; else if (a.hi < 0 && b.lo >= 0) return 0; return -1;
  }
  return -1;
}
static u32 mk(unsigned op, unsigned w, u32 a, u32 b = 0, u32 c = 0);
static u32 mkNot(u32 a) {
  if (isC(a)) return K(!N(a).cval, 1);
  if (N(a).op == O_NOT) return N(a).a;
  return mk(O_NOT, 1, a);
}
static u32 mkExtract(u32 a, unsigned lo, unsigned w) {
  Node n = N(a);
  if (lo == 0 && n.width == w) return a;
  if (n.op == O_CONST) return K(n.cval >> lo, w);
  if (n.op == O_EXTRACT) return mkExtract(n.a, n.b + lo, w);
  if (n.op == O_ZEXT) { unsigned wi = N(n.a).width; if (lo + w <= wi) return mkExtract(n.a, lo, w); if (lo >= wi) return K(0, w); if (lo == 0) return mk(O_ZEXT, w, n.a); }
  if (n.op == O_SEXT && lo == 0) { unsigned wi = N(n.a).width; if (w <= wi) return mkExtract(n.a, 0, w); return mk(O_SEXT, w, n.a); }
  if (n.op == O_CONCAT) { unsigned wb = N(n.b).width; if (lo + w <= wb) return mkExtract(n.b, lo, w); if (lo >= wb) return mkExtract(n.a, lo - wb, w); }
  if (n.op == O_ITE && isC(n.b) && isC(n.c)) return mk(O_ITE, w, n.a, K(N(n.b).cval >> lo, w), K(N(n.c).cval >> lo, w));
  if (lo == 0 && (n.op == O_AND || n.op == O_OR || n.op == O_XOR || n.op == O_ADD || n.op == O_SUB) && w >= 8) return mk(n.op, w, mkExtract(n.a, 0, w), mkExtract(n.b, 0, w));
  return intern(O_EXTRACT, w, a, lo, 0, 0, (n.cval >> lo) & mask(w));
}
static u32 mk(unsigned op, unsigned w, u32 a, u32 b, u32 c) {
  Node na = N(a), nb = N(b);
  bool ca = na.op == O_CONST, cb = b && nb.op == O_CONST;
  // constant folding
  if (op == O_ITE) {
    if (ca) return na.cval ? b : c;
    if (b == c) return b;
    if (isfix(a)) return na.cval ? b : c;
    if (w == 1 && cb && isC(c)) return nb.cval ? (N(c).cval ? K(1, 1) : a) : mkNot(a);
    if (na.op == O_NOT) return mk(O_ITE, w, na.a, c, b);
    if (w == 1) {  // boolean structure
      if (cb) return nb.cval ? mk(O_OR, 1, a, c) : mk(O_AND, 1, mkNot(a), c);
      if (isC(c)) return N(c).cval ? mk(O_OR, 1, mkNot(a), b) : mk(O_AND, 1, a, b);
    }
  } else if (ca && (!b || cb)) return K(evalop(op, w, na.cval, nb.cval, 0, na.width, nb.width, 0), w);
  switch (op) {
    case O_ADD:
      if (ca) { std::swap(a, b); std::swap(na, nb); std::swap(ca, cb); }
      if (cb && nb.cval == 0) return a;
      if (cb && na.op == O_ADD && isC(na.b)) return mk(O_ADD, w, na.a, K(N(na.b).cval + nb.cval, w));
      if (cb && na.op == O_ITE && isC(na.b) && isC(na.c)) return mk(O_ITE, w, na.a, K(N(na.b).cval + nb.cval, w), K(N(na.c).cval + nb.cval, w));
      break;
    case O_SUB:
      if (cb) return mk(O_ADD, w, a, K(0 - nb.cval, w));
      if (a == b) return K(0, w);
      break;
    case O_MUL:
      if (ca) { std::swap(a, b); std::swap(na, nb); std::swap(ca, cb); }
      if (cb && nb.cval == 0) return b;
      if (cb && nb.cval == 1) return a;
      if (cb && na.op == O_ITE && isC(na.b) && isC(na.c)) return mk(O_ITE, w, na.a, K(N(na.b).cval * nb.cval, w), K(N(na.c).cval * nb.cval, w));
      break;
    case O_UDIV: case O_SDIV: if (cb && nb.cval == 1) return a; break;
    case O_AND:
      if (ca) { std::swap(a, b); std::swap(na, nb); std::swap(ca, cb); }
      if (cb && nb.cval == 0) return b;
      if (cb && nb.cval == mask(w)) return a;
      if (a == b) return a;
      if (cb && na.lo >= 0 && (nb.cval & (nb.cval + 1)) == 0 && (u64)na.hi <= nb.cval) return a;
      if (cb && na.op == O_ITE && isC(na.b) && isC(na.c)) return mk(O_ITE, w, na.a, K(N(na.b).cval & nb.cval, w), K(N(na.c).cval & nb.cval, w));
      if (cb && na.op == O_ZEXT && nb.cval == mask(N(na.a).width)) return a;
      if (w == 1 && (na.op == O_NOT ? na.a == b : (nb.op == O_NOT && nb.a == a))) return K(0, 1);
      if (a > b && !cb) std::swap(a, b);
      break;
    case O_OR:
      if (ca) { std::swap(a, b); std::swap(na, nb); std::swap(ca, cb); }
      if (cb && nb.cval == 0) return a;
      if (cb && nb.cval == mask(w)) return b;
      if (a == b) return a;
      if (w == 1 && (na.op == O_NOT ? na.a == b : (nb.op == O_NOT && nb.a == a))) return K(1, 1);
      if (a > b && !cb) std::swap(a, b);
      break;
    case O_XOR:
      if (ca) { std::swap(a, b); std::swap(na, nb); std::swap(ca, cb); }
      if (cb && nb.cval == 0) return a;
      if (a == b) return K(0, w);
      if (w == 1 && cb) return mkNot(a);
      break;
    case O_SHL: case O_LSHR: case O_ASHR:
      if (cb && nb.cval == 0) return a;
      if (cb && nb.cval >= w && op != O_ASHR) return K(0, w);
      if (op == O_SHL && cb) return mk(O_MUL, w, a, K(1ull << nb.cval, w));
      break;
    case O_EQ:
      if (a == b) return K(1, 1);
      if (ca) { std::swap(a, b); std::swap(na, nb); std::swap(ca, cb); }
      if (cb) {
        if (na.width == 1) return nb.cval ? a : mkNot(a);
        if (na.op == O_ZEXT) { unsigned wi = N(na.a).width; if (nb.cval > mask(wi)) return K(0, 1); return mk(O_EQ, 1, na.a, K(nb.cval, wi)); }
        if (na.op == O_SEXT) { unsigned wi = N(na.a).width; if ((u64)sx(nb.cval & mask(wi), wi) != (u64)sx(nb.cval, na.width)) return K(0, 1); return mk(O_EQ, 1, na.a, K(nb.cval, wi)); }
        if (na.op == O_ADD && isC(na.b)) return mk(O_EQ, 1, na.a, K(nb.cval - N(na.b).cval, na.width));
        if (na.op == O_XOR && isC(na.b)) return mk(O_EQ, 1, na.a, K(nb.cval ^ N(na.b).cval, na.width));
        if (na.op == O_ITE && (isC(na.b) || isC(na.c))) {
          u32 x = mk(O_EQ, 1, na.b, b), y = mk(O_EQ, 1, na.c, b);
          return mk(O_ITE, 1, na.a, x, y);
        }
        if (na.op == O_MUL && isC(na.b) && na.lo >= 0 && N(na.a).lo >= 0 && na.hi < smaxw(na.width)) {
          u64 k = N(na.b).cval;
          if (k && sx(k, na.width) > 0 && N(na.a).hi <= smaxw(na.width) / (i64)k) { if (nb.cval % k) return K(0, 1); return mk(O_EQ, 1, na.a, K(nb.cval / k, na.width)); }
        }
        if (na.op == O_CONCAT && isC(na.a)) { unsigned wb = N(na.b).width; if ((nb.cval >> wb) != N(na.a).cval) return K(0, 1); return mk(O_EQ, 1, na.b, K(nb.cval, wb)); }
        if (na.op == O_AND && isC(na.b)) { u64 m = N(na.b).cval; if (nb.cval & ~m) return K(0, 1); }
      }
      { int r = ivcmp(O_EQ, na, nb); if (r >= 0) return K(r, 1); }
      if (!cb && a > b) std::swap(a, b);
      break;
    case O_ULT: case O_ULE:
      if (a == b) return K(op == O_ULE, 1);
      if (cb && op == O_ULT && nb.cval == 0) return K(0, 1);
      if (cb && op == O_ULE && nb.cval == 0) return mk(O_EQ, 1, a, b);
      if (cb && op == O_ULT && nb.cval == 1) return mk(O_EQ, 1, a, K(0, na.width));
      if (na.lo >= 0 && nb.lo >= 0) return mk(op == O_ULT ? O_SLT : O_SLE, 1, a, b);
      { int r = ivcmp(op, na, nb); if (r >= 0) return K(r, 1); }
      break;
    case O_SLT: case O_SLE:
      if (a == b) return K(op == O_SLE, 1);
      { int r = ivcmp(op, na, nb); if (r >= 0) return K(r, 1); }
      if ((na.op == O_ZEXT || na.op == O_SEXT) && cb) {
        unsigned wi = N(na.a).width; i64 kv = sx(nb.cval, na.width);
        if (wi > 1) {
          if (na.op == O_SEXT) { if (kv >= sminw(wi) && kv <= smaxw(wi)) return mk(op, 1, na.a, K((u64)kv, wi)); }
          else if (N(na.a).lo >= 0 && kv >= 0 && kv <= smaxw(wi)) return mk(op, 1, na.a, K((u64)kv, wi));
          else if (kv >= 0 && (u64)kv <= mask(wi)) return mk(op == O_SLT ? O_ULT : O_ULE, 1, na.a, K((u64)kv, wi));
        }
      }
      if (cb && na.op == O_ITE && isC(na.b) && isC(na.c)) return mk(O_ITE, 1, na.a, mk(op, 1, na.b, b), mk(op, 1, na.c, b));
      if (op == O_SLE && cb && sx(nb.cval, na.width) < smaxw(na.width)) return mk(O_SLT, 1, a, K(nb.cval + 1, na.width));
      if (op == O_SLE && ca && sx(na.cval, na.width) > sminw(na.width)) return mk(O_SLT, 1, K(na.cval - 1, na.width), b);
      if (op == O_SLE) return mkNot(mk(O_SLT, 1, b, a));
      if (cb && na.op == O_ADD && isC(na.b)) {  // x + k < c  with no overflow
        Node &x = N(na.a); i64 k = sx(N(na.b).cval, na.width); i128 lo = (i128)x.lo + k, hi = (i128)x.hi + k, cc = (i128)sx(nb.cval, na.width) - k;
        if (lo >= sminw(na.width) && hi <= smaxw(na.width) && cc >= sminw(na.width) && cc <= smaxw(na.width)) return mk(O_SLT, 1, na.a, K((u64)(i64)cc, na.width));
      }
      if (ca && nb.op == O_ADD && isC(nb.b)) {
        Node &x = N(nb.a); i64 k = sx(N(nb.b).cval, na.width); i128 lo = (i128)x.lo + k, hi = (i128)x.hi + k, cc = (i128)sx(na.cval, na.width) - k;
        if (lo >= sminw(na.width) && hi <= smaxw(na.width) && cc >= sminw(na.width) && cc <= smaxw(na.width)) return mk(O_SLT, 1, K((u64)(i64)cc, na.width), nb.a);
      }
      // normalise  k < x  to  not (x < k+1)
      if (ca && sx(na.cval, na.width) < smaxw(na.width)) return mkNot(mk(O_SLT, 1, b, K(na.cval + 1, na.width)));
      break;
    case O_NOT: break;
    case O_ZEXT: if (na.width == w) return a; if (na.op == O_ZEXT) return mk(O_ZEXT, w, na.a); if (na.op == O_ITE && isC(na.b) && isC(na.c)) return mk(O_ITE, w, na.a, K(N(na.b).cval, w), K(N(na.c).cval, w)); break;
    case O_SEXT: if (na.width == w) return a; if (na.op == O_SEXT) return mk(O_SEXT, w, na.a); if (na.op == O_ZEXT) return mk(O_ZEXT, w, na.a); if (na.lo >= 0) return mk(O_ZEXT, w, a);
      if (na.op == O_ITE && isC(na.b) && isC(na.c)) return mk(O_ITE, w, na.a, K((u64)sx(N(na.b).cval, na.width), w), K((u64)sx(N(na.c).cval, na.width), w)); break;
    case O_CONCAT: if (ca && na.cval == 0) return mk(O_ZEXT, w, b);
      if (na.op == O_EXTRACT && nb.op == O_EXTRACT && na.a == nb.a && na.b == nb.b + nb.width) return mkExtract(na.a, nb.b, w);
      break;
    default: break;
  }
  return intern(op, w, a, b, c, 0, evalop(op, w, N(a).cval, b ? N(b).cval : 0, c ? N(c).cval : 0, N(a).width, b ? N(b).width : 0, 0));
}
static inline u32 R(u32 x) { return isC(x) || isfix(x) ? 0 : x; }   // constant results carry no shadow

// ------------------------------------------------------------------ path condition
static void assertNode(u32 s, bool t);
static void narrow(u32 x, i64 lo, i64 hi) {
  Node &n = N(x);
  if (n.fixed || n.op == O_CONST) return;
  bool ch = false;
  if (lo > n.lo) { n.lo = lo; ch = true; }
  if (hi < n.hi) { n.hi = hi; ch = true; }
  if (!ch) return;
  if (n.lo == n.hi) { n.fixed = 1; epoch++; }
  // push through simple wrappers
  if (n.op == O_ZEXT || n.op == O_SEXT) { Node &c = N(n.a); if (n.op == O_SEXT || (n.hi <= smaxw(c.width))) narrow(n.a, n.lo, n.hi); }
  else if (n.op == O_ADD && isC(n.b)) {
    i64 k = sx(N(n.b).cval, n.width); Node &x2 = N(n.a);
    if ((i128)x2.lo + k >= sminw(n.width) && (i128)x2.hi + k <= smaxw(n.width)) narrow(n.a, n.lo - k, n.hi - k);
  }
}
static void assertNode(u32 s, bool t) {
  Node &n = N(s);
  if (n.op == O_CONST) return;
  if (!n.fixed) { n.fixed = 1; n.lo = n.hi = (t ? -1 : 0); epoch++; }
  switch (n.op) {
    case O_NOT: assertNode(n.a, !t); break;
    case O_AND: if (n.width == 1 && t) { assertNode(n.a, true); assertNode(n.b, true); } break;
    case O_OR: if (n.width == 1 && !t) { assertNode(n.a, false); assertNode(n.b, false); } break;
    case O_EQ:
      if (isC(n.b)) {
        i64 v = sx(N(n.b).cval, N(n.b).width);
        if (t) narrow(n.a, v, v);
        else { if (N(n.a).lo == v) narrow(n.a, v + 1, N(n.a).hi); else if (N(n.a).hi == v) narrow(n.a, N(n.a).lo, v - 1); }
      } else if (t && isfix(n.b)) { i64 v = sx(N(n.b).cval, N(n.b).width); narrow(n.a, v, v); }
      else if (t && isfix(n.a)) { i64 v = sx(N(n.a).cval, N(n.a).width); narrow(n.b, v, v); }
      break;
    case O_SLT: {
      Node &a = N(n.a), &b = N(n.b);
      if (t) { if (b.hi > INT64_MIN) narrow(n.a, a.lo, b.hi - 1); if (a.lo < INT64_MAX) narrow(n.b, a.lo + 1, b.hi); }
      else { narrow(n.a, b.lo, a.hi); narrow(n.b, b.lo, a.hi); }
      break; }
    default: break;
  }
}
static void branch(u32 s, bool taken) {
  if (!s || isfix(s)) return;
  while (N(s).op == O_NOT) { s = N(s).a; taken = !taken; if (isfix(s)) return; }
  Node &n = N(s);
  if ((bool)n.cval != taken) { lost("inconsistent branch value"); return; }
  if (n.op == O_EQ || n.op == O_SLT || n.op == O_ULT) {
    isfix(n.a); isfix(n.b);
    int r = ivcmp(n.op, N(n.a), N(n.b));
    if (r >= 0) { n.fixed = 1; epoch++; return; }
  }
  u32 i = A->nBranches;
  if (i >= SYM_MAX_BRANCH) finish(ST_LIMIT);
  A->br[i].node = s; A->br[i].taken = taken; A->br[i].kind = 0;
  A->nBranches = i + 1;
  assertNode(s, taken);
}
static void concretize(u32 s, int depth = 0) {
  if (!s || isfix(s)) return;
  Node n = N(s);
  if (n.width == 1) { branch(s, n.cval); return; }
  switch (n.op) {
    case O_ZEXT: case O_SEXT: case O_NOT: concretize(n.a, depth + 1); return;
    case O_ITE: branch(n.a, N(n.a).cval); concretize(N(n.a).cval ? n.b : n.c, depth + 1); return;
    case O_ADD: case O_SUB: case O_MUL: case O_XOR: case O_CONCAT:
      if (isfix(n.a)) { concretize(n.b, depth + 1); return; }
      if (isfix(n.b)) { concretize(n.a, depth + 1); return; }
      break;
    default: break;
  }
  if (n.op != O_VAR && (u64)(n.hi - n.lo) > (1u << 16)) {
    concretize(n.a, depth + 1);
    if (n.b && n.op != O_EXTRACT) concretize(n.b, depth + 1);
    if (n.c) concretize(n.c, depth + 1);
    return;
  }
  i64 v = sx(n.cval, n.width);
  for (int it = 0; it < 70; it++) {
    if (isfix(s)) return;
    i64 lo = N(s).lo, hi = N(s).hi;
    if (lo >= hi) { N(s).fixed = 1; epoch++; return; }
    i64 mid = lo + (i64)(((u64)hi - (u64)lo) / 2);   // split: x <= mid ?
    u32 c = mk(O_SLT, 1, s, K((u64)(mid + 1), n.width));
    if (isC(c) || isfix(c)) {
      // decided by simplification: tighten by hand
      if (N(c).cval) narrow(s, lo, mid); else narrow(s, mid + 1, hi);
      continue;
    }
    bool neg = false; u32 cc = c; while (N(cc).op == O_NOT) { cc = N(cc).a; neg = !neg; }
    branch(c, v <= mid);
    if (v <= mid) narrow(s, lo, mid); else narrow(s, mid + 1, hi);
  }
}

extern "C" {
u32 __sym_bin(u32 op, u32 w, u32 sa, u32 sb, u64 va, u64 vb) {
  if (!active) return 0;
  va &= mask(w); vb &= mask(w);
  if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) {
    if (sb && !isfix(sb)) { u32 z = mk(O_EQ, 1, sb, K(0, w)); if (!isC(z)) branch(z, vb == 0); }
    if (vb == 0) report("division by zero", "");
  }
  u32 a = opnd(sa, va, w), b = opnd(sb, vb, w);
  return R(mk(op, w, a, b));
}
static u32 cmpNode(u32 p, u32 a, u32 b) {
  switch (p) {
    case P_EQ: return mk(O_EQ, 1, a, b); case P_NE: return mkNot(mk(O_EQ, 1, a, b));
    case P_UGT: return mk(O_ULT, 1, b, a); case P_UGE: return mk(O_ULE, 1, b, a); case P_ULT: return mk(O_ULT, 1, a, b); case P_ULE: return mk(O_ULE, 1, a, b);
    case P_SGT: return mk(O_SLT, 1, b, a); case P_SGE: return mk(O_SLE, 1, b, a); case P_SLT: return mk(O_SLT, 1, a, b); default: return mk(O_SLE, 1, a, b);
  }
}
u32 __sym_cmp(u32 p, u32 w, u32 sa, u32 sb, u64 va, u64 vb) {
  if (!active) return 0;
  return R(cmpNode(p, opnd(sa, va & mask(w), w), opnd(sb, vb & mask(w), w)));
}
u32 __sym_sel(u32 w, u32 sc, u32 vc, u32 st, u32 sf, u64 vt, u64 vf) {
  if (!active) return 0;
  if (!sc || isfix(sc)) return vc ? R(opnd(st, vt, w)) : R(opnd(sf, vf, w));
  return R(mk(O_ITE, w, sc, opnd(st, vt & mask(w), w), opnd(sf, vf & mask(w), w)));
}
u32 __sym_cast(u32 op, u32 wf, u32 wt, u32 s) {
  if (!active || !s || isfix(s)) return 0;
  if (op == O_EXTRACT) return R(mkExtract(s, 0, wt));
  return R(mk(op, wt, s));
}
void __sym_branch(u32 s, u32 taken) { if (active) branch(s, taken); }
void __sym_conc(u32 s, u32) { if (active) concretize(s); }
void __sym_switch(u32 s, u32 w, u64 v, u32 n, const u64 *cs) {
  if (!active || isfix(s)) return;
  for (u32 i = 0; i < n; i++) {
    u32 e = mk(O_EQ, 1, s, K(cs[i], w));
    if (!isC(e)) branch(e, (v & mask(w)) == (cs[i] & mask(w)));
    if ((v & mask(w)) == (cs[i] & mask(w))) return;
  }
}
u32 __sym_un(u32 op, u32 w, u32 s, u64 v) {
  if (!active) return 0;
  u32 a = opnd(s, v & mask(w), w);
  if (isC(a)) return 0;
  switch (op) {
    case I_ABS: return R(mk(O_ITE, w, mk(O_SLT, 1, a, K(0, w)), mk(O_SUB, w, K(0, w), a), a));
    case I_CTPOP: { u32 r = K(0, w); for (unsigned i = 0; i < w; i++) r = mk(O_ADD, w, r, mk(O_ZEXT, w, mkExtract(a, i, 1))); return R(r); }
    case I_CTLZ: { u32 r = K(w, w); for (unsigned i = 0; i < w; i++) r = mk(O_ITE, w, mkExtract(a, i, 1), K(w - 1 - i, w), r); return R(r); }
    case I_CTTZ: { u32 r = K(w, w); for (int i = w - 1; i >= 0; i--) r = mk(O_ITE, w, mkExtract(a, i, 1), K(i, w), r); return R(r); }
    case I_BSWAP: { u32 r = mkExtract(a, 0, 8); for (unsigned i = 8; i < w; i += 8) r = mk(O_CONCAT, i + 8, r, mkExtract(a, i, 8)); return R(r); }
    default: concretize(a); return 0;
  }
}
u32 __sym_bin2(u32 op, u32 w, u32 sa, u32 sb, u64 va, u64 vb) {
  if (!active) return 0;
  u32 a = opnd(sa, va & mask(w), w), b = opnd(sb, vb & mask(w), w);
  if (isC(a) && isC(b)) return 0;
  switch (op) {
    case I_SMAX: return R(mk(O_ITE, w, mk(O_SLT, 1, a, b), b, a));
    case I_SMIN: return R(mk(O_ITE, w, mk(O_SLT, 1, a, b), a, b));
    case I_UMAX: return R(mk(O_ITE, w, mk(O_ULT, 1, a, b), b, a));
    case I_UMIN: return R(mk(O_ITE, w, mk(O_ULT, 1, a, b), a, b));
    case I_USUBSAT: return R(mk(O_ITE, w, mk(O_ULT, 1, a, b), K(0, w), mk(O_SUB, w, a, b)));
    case I_UADDO: return R(mk(O_ULT, 1, mk(O_ADD, w, a, b), a));
    case I_USUBO: return R(mk(O_ULT, 1, a, b));
    case I_SADDO: { u32 s = mk(O_ADD, w, a, b), z = K(0, w); u32 na = mk(O_SLT, 1, a, z), nb = mk(O_SLT, 1, b, z), ns = mk(O_SLT, 1, s, z);
      Node &x = N(a), &y = N(b); if ((i128)x.lo + y.lo >= sminw(w) && (i128)x.hi + y.hi <= smaxw(w)) return 0;
      return R(mk(O_AND, 1, mk(O_EQ, 1, na, nb), mk(O_XOR, 1, na, ns))); }
    case I_SSUBO: { u32 s = mk(O_SUB, w, a, b), z = K(0, w); u32 na = mk(O_SLT, 1, a, z), nb = mk(O_SLT, 1, b, z), ns = mk(O_SLT, 1, s, z);
      return R(mk(O_AND, 1, mk(O_XOR, 1, na, nb), mk(O_XOR, 1, na, ns))); }
    case I_UMULO: if (isC(b) && N(b).cval) return R(mk(O_ULT, 1, K(mask(w) / N(b).cval, w), a)); if (isC(a) && N(a).cval) return R(mk(O_ULT, 1, K(mask(w) / N(a).cval, w), b)); concretize(a); concretize(b); return 0;
    default: concretize(a); concretize(b); return 0;
  }
}
u32 __sym_fsh(u32 left, u32 w, u32 sa, u32 sb, u32 sc, u64 va, u64 vb, u64 vc) {
  if (!active) return 0;
  if (sc && !isfix(sc)) concretize(sc);
  u32 a = opnd(sa, va & mask(w), w), b = opnd(sb, vb & mask(w), w);
  unsigned k = vc % w;
  if (k == 0) return R(left ? a : b);
  unsigned l = left ? k : w - k;
  // result = (a << l) | (b >> (w-l))
  return R(mk(O_CONCAT, w, mkExtract(a, 0, w - l), mkExtract(b, w - l, l)));
}

// ------------------------------------------------------------------ memory
static void poisonHit(u64 addr, u32 size, const char *what) {
  char b[160]; snprintf(b, sizeof b, "%s of %u bytes at an address outside any live allocation", what, size);
  report("memory error", b);
}
u32 __sym_load(u64 addr, u32 size, u64 val) {
  if (!active) return 0;
  u32 *p = SH + addr;
  for (u32 i = 0; i < size; i++) if (p[i] == POISON) poisonHit(addr, size, "read");
  if (size > 8) {  // wide: concretise
    for (u32 i = 0; i < size; i++) if (p[i]) { u32 id = p[i] >> 3; if (id < NN && !isfix(id) && ((N(id).cval >> (8 * (p[i] & 7))) & 255) == ((uint8_t *)addr)[i]) concretize(id); p[i] = 0; }
    return 0;
  }
  u64 mem = 0; memcpy(&mem, (void *)addr, size);
  u32 id = p[0] >> 3;
  if (id && (p[0] & 7) == 0 && N(id).width == size * 8) {
    bool ok = true;
    for (u32 i = 1; i < size; i++) if (p[i] != (id << 3 | i)) { ok = false; break; }
    if (ok) {
      if (N(id).cval != mem) { for (u32 i = 0; i < size; i++) p[i] = 0; return 0; }
      return R(id);
    }
  }
  u32 acc = 0; unsigned accw = 0; bool sym = false;
  for (u32 i = 0; i < size;) {
    u32 piece; unsigned w;
    u32 q = p[i], id = q >> 3;
    if (q && id < NN && !isfix(id)) {
      u32 k = 1;
      while (i + k < size && p[i + k] == q + k && ((q & 7) + k) * 8 < N(id).width) k++;
      unsigned off = (q & 7) * 8; w = k * 8;
      u64 ev = (N(id).cval >> off) & mask(w), mv = (mem >> (8 * i)) & mask(w);
      if (ev == mv) { piece = mkExtract(id, off, w); sym = true; }
      else { for (u32 j = 0; j < k; j++) p[i + j] = 0; piece = K(mv, w); }
      i += k;
    } else { w = 8; piece = K((mem >> (8 * i)) & 255, 8); i++; }
    acc = accw ? mk(O_CONCAT, accw + w, piece, acc) : piece;
    accw += w;
  }
  return sym ? R(acc) : 0;
}
// float / wide loads
void __sym_load_conc(u64 addr, u32 size) {
  if (!active || addr >= SYM_ADDR_LIMIT) return;
  u32 *p = SH + addr;
  for (u32 i = 0; i < size; i++) if (p[i]) {
    if (p[i] == POISON) poisonHit(addr, size, "read");
    u32 id = p[i] >> 3;
    if (id < NN && !isfix(id) && ((N(id).cval >> (8 * (p[i] & 7))) & 255) == ((uint8_t *)addr)[i]) concretize(id);
    p[i] = 0;
  }
}
void __sym_store(u64 addr, u32 size, u32 s) {
  if (!active || addr >= SYM_ADDR_LIMIT) return;
  u32 *p = SH + addr;
  for (u32 i = 0; i < size; i++) if (p[i] == POISON) poisonHit(addr, size, "write");
  if (s && (isfix(s) || N(s).width != size * 8)) { if (!isfix(s)) { lost("store width"); } s = 0; }
  for (u32 i = 0; i < size; i++) p[i] = s ? (s << 3 | i) : 0;
}
void __sym_store_clr(u64 addr, u32 size) {
  if (!active || addr >= SYM_ADDR_LIMIT) return;
  u32 *p = SH + addr;
  for (u32 i = 0; i < size; i++) { if (p[i] == POISON) poisonHit(addr, size, "write"); if (p[i]) p[i] = 0; }
}
void __sym_alloca_clr(u64 addr, u64 size) {
  if (!active || addr >= SYM_ADDR_LIMIT) return;
  u32 *p = SH + addr;
  for (u64 i = 0; i < size; i++) if (p[i]) p[i] = 0;
}
void __sym_memcpy(u64 d, u64 s, u64 n) {
  if (!active || !n) return;
  if (d >= SYM_ADDR_LIMIT) return;
  u32 *pd = SH + d;
  if (s >= SYM_ADDR_LIMIT) { for (u64 i = 0; i < n; i++) { if (pd[i] == POISON) poisonHit(d, n, "write"); if (pd[i]) pd[i] = 0; } return; }
  u32 *ps = SH + s;
  bool any = false;
  for (u64 i = 0; i < n; i++) {
    if (ps[i] == POISON) poisonHit(s, n, "read"); if (pd[i] == POISON) poisonHit(d, n, "write");
    if (ps[i] | pd[i]) any = true;
  }
  if (any) {
    // drop stale source shadows
    for (u64 i = 0; i < n; i++) if (ps[i]) { u32 id = ps[i] >> 3; if (id >= NN || ((N(id).cval >> (8 * (ps[i] & 7))) & 255) != ((uint8_t *)s)[i]) ps[i] = 0; }
    memmove(pd, ps, n * 4);
  }
}
void __sym_memset(u64 d, u32 s, u64 n) {
  if (!active || d >= SYM_ADDR_LIMIT) return;
  u32 *p = SH + d;
  u32 v = s && !isfix(s) ? s << 3 : 0;
  if (!v && n >= 65536) {   // only look at shadow pages that were ever touched
    u64 a = (u64)p & ~4095ull, e = ((u64)(p + n) + 4095) & ~4095ull; static unsigned char vec[65536];
    for (u64 q = a; q < e; q += 4096ull * 65536) {
      u64 len = e - q < 4096ull * 65536 ? e - q : 4096ull * 65536;
      if (mincore((void *)q, len, vec)) memset(vec, 1, sizeof vec);
      for (u64 k = 0; k < len / 4096; k++) if (vec[k] & 1) {
        u32 *x = (u32 *)(q + k * 4096), *y = x + 1024; if (x < p) x = p; if (y > p + n) y = p + n;
        for (; x < y; x++) { if (*x == POISON) poisonHit(d, n, "write"); if (*x) *x = 0; }
      }
    }
    return;
  }
  for (u64 i = 0; i < n; i++) { if (p[i] == POISON) poisonHit(d, n, "write"); if (p[i] != v) p[i] = v; }
}
// symbolic pointers -------------------------------------------------------------------------
static u64 strideOf(u32 s) {
  Node &n = N(s);
  if (isfix(s)) return 0;
  auto g = [](u64 a, u64 b) { while (b) { u64 t = a % b; a = b; b = t; } return a; };
  switch (n.op) {
    case O_ADD: case O_SUB: return g(strideOf(n.a), strideOf(n.b));
    case O_MUL: if (isC(n.b)) return strideOf(n.a) * N(n.b).cval; return 1;
    case O_ITE: { u64 r = g(strideOf(n.b), strideOf(n.c)); i64 d = sx(N(n.b).cval, n.width) - sx(N(n.c).cval, n.width); return g(r, d < 0 ? -d : d); }
    case O_ZEXT: case O_SEXT: return strideOf(n.a);
    default: return 1;
  }
}
static bool pointerTargets(u32 s, u64 addr, u32 size, u64 &lo, u64 &st, u32 &cnt) {
  if (!iteMax) return false;
  Node &n = N(s);
  if (n.lo <= 0 || n.hi >= (i64)SYM_ADDR_LIMIT) return false;
  st = strideOf(s); if (!st) return false;
  u64 span = (u64)(n.hi - n.lo);
  u64 back = (addr - (u64)n.lo) / st; lo = addr - back * st;
  u64 c = ((u64)n.hi - lo) / st + 1;
  if (c > iteMax || span > 1 << 16) return false;
  if (st < size) return false;
  for (u64 a = lo; a <= (u64)n.hi; a += st) for (u32 i = 0; i < size; i++) if (SH[a + i] == POISON) return false;
  cnt = (u32)c;
  return true;
}
u32 __sym_addr_load(u32 s, u64 addr, u32 size, u32 w) {
  if (!active || isfix(s)) return 0;
  u64 lo, st; u32 cnt;
  if (size <= 8 && w && pointerTargets(s, addr, size, lo, st, cnt)) {
    u32 r = 0;
    for (u32 k = 0; k < cnt; k++) {
      u64 a = lo + k * st; u64 v = 0; memcpy(&v, (void *)a, size);
      u32 e = __sym_load(a, size, v);
      u32 x = opnd(e, v, size * 8);
      if (!r) r = x; else r = mk(O_ITE, size * 8, mk(O_EQ, 1, s, K(a, 64)), x, r);
    }
    if (w < size * 8) r = mkExtract(r, 0, w);
    u32 q = R(r);
    if (!q) return POISON;  // constant over all targets
    return q;
  }
  concretize(s);
  return 0;
}
u32 __sym_addr_store(u32 s, u64 addr, u32 size, u32 sv, u64 val, u32 w) {
  // returns shadow to store (POISON: "use sv")
  if (!active || isfix(s)) return POISON;
  u64 lo, st; u32 cnt;
  if (size <= 8 && w && pointerTargets(s, addr, size, lo, st, cnt)) {
    u32 x = opnd(sv, val & mask(size * 8), size * 8), ret = 0;
    for (u32 k = 0; k < cnt; k++) {
      u64 a = lo + k * st; u64 v = 0; memcpy(&v, (void *)a, size);
      u32 old = opnd(__sym_load(a, size, v), v, size * 8);
      u32 r = R(mk(O_ITE, size * 8, mk(O_EQ, 1, s, K(a, 64)), x, old));
      if (a == addr) ret = r ? r : 0xFFFFFFFEu; else __sym_store(a, size, r);
    }
    return ret;
  }
  concretize(s);
  return POISON;
}
void __sym_addr(u32 s, u64 addr, u32 szst) { if (active) concretize(s); }

static bool outputFn(const char *n) {
  if (!n) return false;
  static const char *pre[] = {"_ZNSo", "_ZStls", "_ZSt16__ostream_insert", "printf", "fprintf", "puts", "putchar", "fputs", "fputc", "vfprintf", "fwrite", "perror", "fflush", 0};
  for (int i = 0; pre[i]; i++) if (!strncmp(n, pre[i], strlen(pre[i]))) return true;
  return false;
}
static bool pureFn(const char *n) {
  if (!n) return false;
  static const char *pre[] = {"_ZSt29_Rb_tree_insert", "_ZSt18_Rb_tree_", "_ZSt28_Rb_tree_rebalance", "_ZNSt8__detail15_List_node_base", "_Znw", "_Zna", "_Zdl", "_Zda", "malloc", "free", "calloc", "realloc", "_ZNKSt8__detail20_Prime_rehash", "_ZNSt8__detail20_Prime", "qsort", "__cxa_", "_ZNSs", "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_create", "sigsetjmp", "_setjmp", 0};
  for (int i = 0; pre[i]; i++) if (!strncmp(n, pre[i], strlen(pre[i]))) return true;
  return false;
}
bool __sym_track_output;
void __sym_ext_call(u32 n, u64 *a, u32, const char *name) {
  if (!active) return;
  if (outputFn(name) && !__sym_track_output) return;
  bool out = outputFn(name), pure = pureFn(name);
  for (u32 i = 0; i < n; i++) {
    u32 s = (u32)a[2 * i]  /*value low*/; (void)s;
    u64 val = a[2 * i], meta = a[2 * i + 1];
    u32 sh = (u32)meta;
    if (sh && !isfix(sh)) concretize(sh);
    if ((meta >> 32) && !out && !pure && val > 4096 && val < SYM_ADDR_LIMIT) {
      u32 *p = SH + val;
      for (u32 k = 0; k < 64; k++) if (p[k] && p[k] != POISON) {
        u32 id = p[k] >> 3;
        if (id < NN && !isfix(id) && ((N(id).cval >> (8 * (p[k] & 7))) & 255) == ((uint8_t *)val)[k]) { A->extScan++; if (A->lostWhere[0] == 0 && name) snprintf(A->lostWhere, sizeof A->lostWhere, "ext %s", name); concretize(id); }
      } else if (p[k] == POISON) break;
    }
  }
}
void __sym_fn(u32) {}
}  // extern C

// ------------------------------------------------------------------ allocator (fixed low region, no reuse, red zones)
static const u64 HEAP0 = 0x200000000ull, HEAPSZ = 0x80000000ull, STK0 = 0x300000000ull, STKSZ = 64ull << 20;
static u64 hp = 0, hq = HEAP0 + HEAPSZ - 4096;   // blocks grow upwards from hp; while sym_fill is on, downwards from hq (other address order)
static int fillByte = -1;
static void setupRegions() {
  if (hp) return;
  void *r = mmap((void *)HEAP0, HEAPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != (void *)HEAP0) { (void)!write(2, "heap map failed\n", 16); _exit(8); }
  r = mmap((void *)SYM_SHADOW_BASE, SYM_ADDR_LIMIT * 4 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (r != (void *)SYM_SHADOW_BASE) { (void)!write(2, "shadow map failed\n", 18); _exit(8); }
  hp = HEAP0 + 4096;
  shadowReady = true;
}
struct Hdr { u64 size; u64 magic; };
static const u64 LIVE = 0x51DEA11CE5511FEull, DEAD = 0xDEADDEADDEADull;
static void *alloc(u64 n, u64 align, bool zero) {
  setupRegions();
  bool down = fillByte > 0;
  if (n > HEAPSZ / 2) { if (active) finish(ST_LIMIT); return nullptr; }
  u64 p = down ? (hq - n - 32) & ~(align - 1) & ~15ull : (hp + sizeof(Hdr) + 16 + align - 1) & ~(align - 1);
  u64 end = (p + n + 15) & ~15ull;
  if (down ? p < hp + 4096 : end + 64 > hq) { if (active) finish(ST_LIMIT); return nullptr; }
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  h->size = n; h->magic = LIVE;
  u32 *s = SH + (p - 16);
  for (int i = 0; i < 16; i++) s[i] = POISON;
  for (u64 a = p + n; a < end + 16; a++) SH[a] = POISON;
  if (!zero && fillByte > 0 && n <= (1u << 20)) memset((void *)p, fillByte, n);
  if (down) hq = p - sizeof(Hdr) - 16; else hp = end;
  return (void *)p;
}
static void dealloc(void *q) {
  if (!q) return;
  u64 p = (u64)q;
  if (p < HEAP0 || p >= HEAP0 + HEAPSZ) return;
  Hdr *h = (Hdr *)(p - sizeof(Hdr));
  if (h->magic != LIVE) { if (active) report("memory error", h->magic == DEAD ? "double free" : "free of an invalid pointer"); return; }
  h->magic = DEAD;
  if (active) {
    u64 n = h->size;
    if (n > (1u << 18)) { u64 a = (p + 4095) & ~4095ull, b = (p + n) & ~4095ull; if (b > a) madvise((void *)a, b - a, MADV_DONTNEED); n = 64; }
    for (u64 i = 0; i < n && i < 4096; i++) SH[p + i] = POISON;
    for (u64 i = 4096; i < n; i++) if (SH[p + i]) SH[p + i] = 0;
  }
}
extern "C" {
void *malloc(size_t n) { return alloc(n, 16, false); }
void free(void *p) { dealloc(p); }
void *calloc(size_t a, size_t b) { void *p = alloc(a * b, 16, true); return p; }
void *realloc(void *q, size_t n) {
  if (!q) return alloc(n, 16, false);
  Hdr *h = (Hdr *)((u64)q - sizeof(Hdr));
  if (active && h->magic != LIVE) report("memory error", "realloc of an invalid pointer");
  void *p = alloc(n, 16, false);
  if (!p) return nullptr;
  u64 m = h->size < n ? h->size : n;
  memcpy(p, q, m);
  if (active) __sym_memcpy((u64)p, (u64)q, m);
  dealloc(q);
  return p;
}
void *memalign(size_t al, size_t n) { return alloc(n, al < 16 ? 16 : al, false); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **r, size_t al, size_t n) { *r = memalign(al, n); return 0; }
size_t malloc_usable_size(void *q) { return ((Hdr *)((u64)q - sizeof(Hdr)))->size; }
}

// ------------------------------------------------------------------ library models
#define CONSUME() (__sym_arg_tag = 0, __sym_ret_tag = 0)
#define RETSH(fn, s) do { u32 _s = (s); if (_s) { __sym_rets[0] = _s; __sym_ret_tag = (u64)&fn; } } while (0)
static u32 byteSh(const void *p) { u64 a = (u64)p; if (a >= SYM_ADDR_LIMIT || !SH[a]) return 0; return __sym_load(a, 1, *(uint8_t *)a); }
extern "C" {
int __symw_memcmp(const void *a, const void *b, size_t n);
int __symw_memcmp(const void *a, const void *b, size_t n) {
  if (__sym_arg_tag == (u64)&__symw_memcmp && active) for (int i = 0; i < 3; i++) if (__sym_args[i]) concretize(__sym_args[i]);
  CONSUME();
  if (active) {
    for (size_t i = 0; i < n; i++) {
      const uint8_t *x = (const uint8_t *)a + i, *y = (const uint8_t *)b + i;
      u32 sx_ = byteSh(x), sy = byteSh(y);
      if (sx_ || sy) { u32 e = mk(O_EQ, 1, opnd(sx_, *x, 8), opnd(sy, *y, 8)); if (!isC(e)) branch(e, *x == *y);
        if (*x != *y) { u32 l = mk(O_ULT, 1, opnd(sx_, *x, 8), opnd(sy, *y, 8)); if (!isC(l)) branch(l, *x < *y); } }
      if (*x != *y) return *x < *y ? -1 : 1;
    }
    return 0;
  }
  return memcmp(a, b, n);
}
int __symw_strcmp(const char *a, const char *b) { CONSUME(); return strcmp(a, b); }
int __symw_strncmp(const char *a, const char *b, size_t n) { CONSUME(); return strncmp(a, b, n); }
size_t __symw_strlen(const char *a) { CONSUME(); return strlen(a); }
void *__symw_memchr(const void *a, int c, size_t n) { CONSUME(); return (void *)memchr(a, c, n); }

static jmp_buf *exitJmp; static int exitCode;
void __symw_exit(int c) {
  CONSUME();
  if (active) { if (exitJmp) { exitCode = c; longjmp(*exitJmp, 1); } A->notes[15] = c; finish(ST_EXIT); }
  exit(c);
}
void __symw_abort() { CONSUME(); if (active) report("abort", ""); abort(); }
void __symw_assert_fail(const char *e, const char *f, unsigned l, const char *fn) { CONSUME(); char b[600]; snprintf(b, sizeof b, "%s (%s:%u)", e, f, l); if (active) report("assertion of the program failed", b); abort(); }
// clocks: a deterministic stub (time limits are outside every claim)
static u64 fakeNow = 1000000000ull;
time_t __symw_time(time_t *t) { CONSUME(); time_t v = 1700000000; if (t) *t = v; return v; }
long __symw_now() { CONSUME(); fakeNow += 1000; return (long)fakeNow; }
int __symw_clock_gettime(clockid_t, struct timespec *t) { CONSUME(); fakeNow += 1000; t->tv_sec = fakeNow / 1000000000; t->tv_nsec = fakeNow % 1000000000; return 0; }
int __symw_gettimeofday(struct timeval *t, void *) { CONSUME(); fakeNow += 1000; t->tv_sec = fakeNow / 1000000000; t->tv_usec = (fakeNow / 1000) % 1000000; return 0; }
clock_t __symw_clock() { CONSUME(); fakeNow += 1000; return fakeNow / 1000; }
clock_t __symw_times(struct tms *t) { CONSUME(); memset(t, 0, sizeof *t); return 1; }
int __symw_getrusage(int, struct rusage *r) { CONSUME(); memset(r, 0, sizeof *r); return 0; }
std::ostream *__symw_flush(std::ostream *o) { CONSUME(); return o; }

// ---- input markers: an integer token MARK_BASE+k in an input stream stands for symbolic value #k
static u32 markSh[SYM_MARKS]; static i64 markVal[SYM_MARKS];
static int nMarks;
// list markers: token LMARK_BASE+k stands for a -1 terminated list, produced element by element
static sym_list_fn listFn[SYM_MARKS]; static void *listArg[SYM_MARKS]; static int nLists;
static int curList = -1, curPos; static std::istream *curStream;
std::istream *__symw_istream_int(std::istream *is, int *x) {
  CONSUME();
  u32 sh = 0;
  if (curList >= 0 && curStream == is) {
    __sym_ret_tag = 0; __sym_arg_tag = 0;
    int v = listFn[curList](listArg[curList], curPos++);
    u32 s = 0;
    if (__sym_ret_tag == (u64)listFn[curList]) s = __sym_rets[0];
    if (s && isfix(s)) s = 0;
    if (s) { u32 e = mk(O_EQ, 1, s, K((u64)-1, 32)); if (!isC(e)) branch(e, v == -1); if (isfix(s)) s = 0; }
    *x = v; sh = s;
    if (v == -1) curList = -1;
    CONSUME();
  } else {
    *is >> *x;
    int v = *x;
    if (v >= SYM_MARK_BASE && v < SYM_MARK_BASE + nMarks) { *x = (int)markVal[v - SYM_MARK_BASE]; sh = markSh[v - SYM_MARK_BASE]; }
    else if (v >= SYM_LMARK_BASE && v < SYM_LMARK_BASE + nLists) { curList = v - SYM_LMARK_BASE; curPos = 0; curStream = is; return __symw_istream_int(is, x); }
  }
  if (active && (u64)x < SYM_ADDR_LIMIT) __sym_store((u64)x, 4, sh);
  return is;
}
int sym_mark(int v) {
  u32 s = (__sym_arg_tag == (u64)&sym_mark) ? __sym_args[0] : 0;
  CONSUME();
  if (s && isfix(s)) s = 0;
  if (!s) return v < SYM_LMARK_BASE ? v : v;
  if (nMarks >= SYM_MARKS) finish(ST_LIMIT);
  markSh[nMarks] = s; markVal[nMarks] = v; nMarks++;
  return SYM_MARK_BASE + nMarks - 1;
}
int sym_list_mark(sym_list_fn f, void *arg) {
  CONSUME();
  if (nLists >= SYM_MARKS) finish(ST_LIMIT);
  listFn[nLists] = f; listArg[nLists] = arg; nLists++;
  return SYM_LMARK_BASE + nLists - 1;
}

// ---- harness API
static u64 keyOf(const char *s) { u64 h = 1469598103934665603ull; for (; *s; s++) { h ^= (uint8_t)*s; h *= 1099511628211ull; } return h ? h : 1; }
static int newVar(const char *name, int idx, i64 lo, i64 hi, unsigned w, i64 *out) {
  char nm[64]; snprintf(nm, sizeof nm, idx >= 0 ? "%s%d" : "%s", name, idx);
  u64 k = keyOf(nm);
  for (u32 i = 0; i < A->nVars; i++) if (A->vars[i].key == k) { *out = (i64)A->vars[i].val; return A->vars[i].node; }
  if (A->nVars >= SYM_MAX_VARS) { report("engine", "too many symbolic variables"); }
  i64 v = lo;
  for (u32 i = 0; i < A->nIn; i++) if (A->in[i].key == k) v = (i64)A->in[i].val;
  if (v < lo || v > hi) v = lo;
  u32 id = intern(O_VAR, w, 0, 0, 0, k, (u64)v & mask(w));
  { N(id).lo = lo; N(id).hi = hi; N(id).hash = mix(mix(N(id).hash, (u64)lo), (u64)hi); }
  VarRec &r = A->vars[A->nVars++];
  r.key = k; r.lo = lo; r.hi = hi; r.val = (u64)v; r.node = id; r.width = w;
  snprintf(r.name, sizeof r.name, "%s", nm);
  *out = v;
  if (lo == hi) return 0;
  return id;
}
int sym_int_i(const char *name, int idx, int lo, int hi) {
  CONSUME();
  i64 v; u32 id = newVar(name, idx, lo, hi, 32, &v);
  if (id && isfix(id)) id = 0;
  RETSH(sym_int_i, id);
  return (int)v;
}
long sym_long(const char *name, long lo, long hi) {
  CONSUME();
  i64 v; u32 id = newVar(name, -1, lo, hi, 64, &v);
  if (id && isfix(id)) id = 0;
  RETSH(sym_long, id);
  return v;
}
void sym_violation(const char *msg) { CONSUME(); report("property", msg); }
void sym_assume_fail() { CONSUME(); if (active) finish(ST_ASSUME); }
void sym_reach() { CONSUME(); if (active) { A->reached++; if (A->witnessMode) report("witness", "reached"); } }
int sym_concretize_int(int v) { u32 s = (__sym_arg_tag == (u64)&sym_concretize_int) ? __sym_args[0] : 0; CONSUME(); if (s && active) concretize(s); return v; }
int sym_is_symbolic(int v) { u32 s = (__sym_arg_tag == (u64)&sym_is_symbolic) ? __sym_args[0] : 0; CONSUME(); return s && !isfix(s); }
void sym_note(int i, long v) { CONSUME(); if (active && i < 15) A->notes[i] = v; }
void sym_ite_mode(int max) { CONSUME(); iteMax = max; }
void sym_fill(int b) { CONSUME(); fillByte = b; }
void sym_track_output(int b) { CONSUME(); __sym_track_output = b; }
int sym_replaying() { CONSUME(); return 0; }
int sym_guard_exit(void (*fn)(void *), void *arg) {   // runs fn(arg); returns -1 on normal return, exit code otherwise
  CONSUME();
  jmp_buf jb; exitJmp = &jb;
  if (setjmp(jb) == 0) { fn(arg); exitJmp = nullptr; CONSUME(); return -1; }
  exitJmp = nullptr; CONSUME();
  return exitCode;
}
static int outFd = -1, savedOut = -1;
void sym_capture_begin() {
  CONSUME(); fflush(stdout);
  if (outFd < 0) outFd = memfd_create("out", 0);
  if (ftruncate(outFd, 0)) {} lseek(outFd, 0, SEEK_SET);
  savedOut = dup(1); dup2(outFd, 1);
}
extern "C" void sym_flush_cout();
long sym_capture_end(char **buf) {
  CONSUME();
  sym_flush_cout(); fflush(stdout);
  long n = lseek(outFd, 0, SEEK_END);
  dup2(savedOut, 1); close(savedOut);
  char *b = (char *)malloc(n + 1);
  long r = pread(outFd, b, n, 0); if (r < 0) r = 0;
  b[r] = 0; *buf = b;
  return r;
}
void harness_main(int argc, char **argv);
}
#include <iostream>
extern "C" void sym_flush_cout() { std::cout.flush(); }

// ------------------------------------------------------------------ fork server
static int gargc; static char **gargv;
static void runChild() {
  NN = 1; memset(&A->nodes[0], 0, sizeof(Node));
  A->status = ST_RUNNING; A->nBranches = 0; A->nVars = 0; A->nNodes = 0; A->lost = 0; A->reached = 0; A->extScan = 0; A->msg[0] = 0; A->lostWhere[0] = 0;
  memset(A->notes, 0, sizeof A->notes);
  active = true;
  harness_main(gargc, gargv);
  finish(ST_DONE);
}
static void tramp(void *stk) {
  __asm__ volatile("movq %0, %%rsp\n\tcall *%1\n\t" ::"r"(stk), "r"(&runChild) : "memory");
}
static void onTrap(int sig, siginfo_t *si, void *) {
  // a crash of the program under test
  if (!active) _exit(7);
  A->nNodes = NN;
  snprintf(A->msg, sizeof A->msg, "crash: signal %d", sig);
  A->status = ST_VIOL;
  _exit(0);
}
int main(int argc, char **argv) {
  // argv: prog --fd N R W timeout [args...]   |  prog args... (single run, for debugging)
  setupRegions();
  void *stk = mmap((void *)STK0, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (stk != (void *)STK0) { (void)!write(2, "stack map failed\n", 17); return 8; }
  void *top = (char *)stk + STKSZ - 64;
  if (argc > 5 && !strcmp(argv[1], "--fd")) {
    int fd = atoi(argv[2]), rd = atoi(argv[3]), wr = atoi(argv[4]), tmo = atoi(argv[5]);
    A = (Arena *)mmap(nullptr, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (A == MAP_FAILED) return 8;
    gargc = argc - 6; gargv = argv + 6;
    if (!getenv("SYM_VERBOSE")) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); }
    char c;
    while (read(rd, &c, 1) == 1) {
      pid_t p = fork();
      if (p == 0) {
        close(rd); close(wr);
        static char alt[65536];
        stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onTrap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
        sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGABRT, &sa, 0);
        struct itimerval tv = {{0, 0}, {tmo, 0}}; setitimer(ITIMER_PROF, &tv, 0); alarm(tmo * 4);
        tramp(top);
        _exit(0);
      }
      int st = 0;
      waitpid(p, &st, 0);
      (void)!write(wr, &st, sizeof st);
    }
    return 0;
  }
  A = (Arena *)mmap(nullptr, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  gargc = argc - 1; gargv = argv + 1;
  tramp(top);
  return 0;
}
