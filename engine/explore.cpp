// Explorer: exhausts the paths of an instrumented harness. For every branch of every path it asks Z3
// whether the other side is feasible for some input; the model becomes a new run of the real code.
#include "ops.h"
#include "bv.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
#include <z3.h>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
using namespace std;

struct Item { u32 nIn, bound; u64 prefix; struct { u64 key, val; } in[SYM_MAX_VARS]; };
#define POOL 60000
#define MAXVIOL 64
struct Viol { char msg[1024]; u32 n; struct { char name[40]; i64 val; } v[SYM_MAX_VARS]; };
struct Shared {
  pthread_mutex_t mu;
  volatile int stop; volatile int active;
  volatile u32 top; volatile u32 maxTop;
  u64 runs, sat, unsat, unknown, cached, branches, solverUs, diverged, assumed, reached, lost, extScan, timeouts, limits, xchecked, disagree, maxBranches, maxNodes, sumNodes, done, exits, dropped;
  u64 notes[16];
  char lostWhere[128];
  u32 nViol; u64 totalViol;
  Viol viol[MAXVIOL];
  u32 nSamples; char samples[8][4096];
  Item items[POOL];
};
static Shared *S;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static Z3_context ctx; static Z3_solver solver; static Arena *A;
static unsigned qTimeout = 2000, xcheck = 64; static BV bv; static long confBudget = 3000000; static u64 nq;
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

#define M_mk_ite(...) H(Z3_mk_ite(__VA_ARGS__))
#define M_mk_unsigned_int64(...) H(Z3_mk_unsigned_int64(__VA_ARGS__))
#define M_mk_eq(...) H(Z3_mk_eq(__VA_ARGS__))
#define M_mk_true(...) H(Z3_mk_true(__VA_ARGS__))
#define M_mk_false(...) H(Z3_mk_false(__VA_ARGS__))
#define M_mk_const(...) H(Z3_mk_const(__VA_ARGS__))
#define M_mk_zero_ext(...) H(Z3_mk_zero_ext(__VA_ARGS__))
#define M_mk_sign_ext(...) H(Z3_mk_sign_ext(__VA_ARGS__))
#define M_mk_bvadd(...) H(Z3_mk_bvadd(__VA_ARGS__))
#define M_mk_bvsub(...) H(Z3_mk_bvsub(__VA_ARGS__))
#define M_mk_bvmul(...) H(Z3_mk_bvmul(__VA_ARGS__))
#define M_mk_bvudiv(...) H(Z3_mk_bvudiv(__VA_ARGS__))
#define M_mk_bvsdiv(...) H(Z3_mk_bvsdiv(__VA_ARGS__))
#define M_mk_bvurem(...) H(Z3_mk_bvurem(__VA_ARGS__))
#define M_mk_bvsrem(...) H(Z3_mk_bvsrem(__VA_ARGS__))
#define M_mk_and(...) H(Z3_mk_and(__VA_ARGS__))
#define M_mk_or(...) H(Z3_mk_or(__VA_ARGS__))
#define M_mk_xor(...) H(Z3_mk_xor(__VA_ARGS__))
#define M_mk_bvand(...) H(Z3_mk_bvand(__VA_ARGS__))
#define M_mk_bvor(...) H(Z3_mk_bvor(__VA_ARGS__))
#define M_mk_bvxor(...) H(Z3_mk_bvxor(__VA_ARGS__))
#define M_mk_bvshl(...) H(Z3_mk_bvshl(__VA_ARGS__))
#define M_mk_bvlshr(...) H(Z3_mk_bvlshr(__VA_ARGS__))
#define M_mk_bvashr(...) H(Z3_mk_bvashr(__VA_ARGS__))
#define M_mk_bvult(...) H(Z3_mk_bvult(__VA_ARGS__))
#define M_mk_bvule(...) H(Z3_mk_bvule(__VA_ARGS__))
#define M_mk_bvslt(...) H(Z3_mk_bvslt(__VA_ARGS__))
#define M_mk_bvsle(...) H(Z3_mk_bvsle(__VA_ARGS__))
#define M_mk_bvsge(...) H(Z3_mk_bvsge(__VA_ARGS__))
#define M_mk_not(...) H(Z3_mk_not(__VA_ARGS__))
#define M_mk_extract(...) H(Z3_mk_extract(__VA_ARGS__))
#define M_mk_concat(...) H(Z3_mk_concat(__VA_ARGS__))
#define M_mk_int64(...) H(Z3_mk_int64(__VA_ARGS__))
struct ZInfo { Z3_ast ast; vector<u64> vars; };
static unordered_map<u64, ZInfo> zcache;         // structural hash -> term
struct VInfo { i64 lo, hi; unsigned w; Z3_ast ast; u32 node; };
static unordered_map<u64, VInfo> vinfo;           // VAR hash -> info
static unordered_map<u64, u64> keyToHash;

static inline Z3_ast H(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static ZInfo &term(u32 id) {
  Node &n = A->nodes[id];
  auto it = zcache.find(n.hash);
  if (it != zcache.end()) return it->second;
  ZInfo z;
  auto bvs = [&](unsigned w) { static Z3_sort c[65]; static Z3_context cc; if (cc != ctx) { memset(c, 0, sizeof c); cc = ctx; } if (!c[w]) { c[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, c[w])); } return c[w]; };
  auto boolBv = [&](Z3_ast b) { return M_mk_ite(ctx, b, M_mk_unsigned_int64(ctx, 1, bvs(1)), M_mk_unsigned_int64(ctx, 0, bvs(1))); };
  // width-1 terms are Z3 booleans; everything else is a bit-vector
  auto T = [&](u32 c) -> Z3_ast { return term(c).ast; };
  auto BV = [&](u32 c) -> Z3_ast { Z3_ast t = T(c); return A->nodes[c].width == 1 ? boolBv(t) : t; };
  auto fromBv = [&](Z3_ast t, unsigned w) -> Z3_ast { return w == 1 ? M_mk_eq(ctx, t, M_mk_unsigned_int64(ctx, 1, bvs(1))) : t; };
  set<u64> vs;
  auto addv = [&](u32 c) { for (u64 v : term(c).vars) vs.insert(v); };
  if (n.op != O_CONST && n.op != O_VAR) { addv(n.a); if (n.b && n.op != O_EXTRACT) addv(n.b); if (n.c) addv(n.c); }
  Z3_ast r = nullptr;
  bool b1 = n.width == 1;
  switch (n.op) {
    case O_CONST: r = b1 ? (n.cval ? M_mk_true(ctx) : M_mk_false(ctx)) : M_mk_unsigned_int64(ctx, n.cval, bvs(n.width)); break;
    case O_VAR: {
      char nm[32]; snprintf(nm, sizeof nm, "v%llx", (unsigned long long)n.hash);
      // a variable with domain [lo,hi] is encoded as lo + zero-extension of just enough bits
      i64 lo = 0, hi = 0; for (u32 k = 0; k < A->nVars; k++) if (A->vars[k].node == id) { lo = A->vars[k].lo; hi = A->vars[k].hi; }
      unsigned bits = 1; while (bits < n.width && ((u64)hi - (u64)lo) >> bits) bits++;
      r = M_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(bits));
      if (bits < n.width) r = M_mk_zero_ext(ctx, n.width - bits, r);
      if (lo) r = M_mk_bvadd(ctx, r, M_mk_int64(ctx, lo, bvs(n.width)));
      vs.insert(n.hash); break; }
    case O_ADD: r = M_mk_bvadd(ctx, BV(n.a), BV(n.b)); r = fromBv(r, n.width); break;
    case O_SUB: r = fromBv(M_mk_bvsub(ctx, BV(n.a), BV(n.b)), n.width); break;
    case O_MUL: r = fromBv(M_mk_bvmul(ctx, BV(n.a), BV(n.b)), n.width); break;
    case O_UDIV: r = M_mk_bvudiv(ctx, BV(n.a), BV(n.b)); break;
    case O_SDIV: r = M_mk_bvsdiv(ctx, BV(n.a), BV(n.b)); break;
    case O_UREM: r = M_mk_bvurem(ctx, BV(n.a), BV(n.b)); break;
    case O_SREM: r = M_mk_bvsrem(ctx, BV(n.a), BV(n.b)); break;
    case O_AND: if (b1) { Z3_ast x[2] = {T(n.a), T(n.b)}; r = M_mk_and(ctx, 2, x); } else r = M_mk_bvand(ctx, T(n.a), T(n.b)); break;
    case O_OR: if (b1) { Z3_ast x[2] = {T(n.a), T(n.b)}; r = M_mk_or(ctx, 2, x); } else r = M_mk_bvor(ctx, T(n.a), T(n.b)); break;
    case O_XOR: if (b1) r = M_mk_xor(ctx, T(n.a), T(n.b)); else r = M_mk_bvxor(ctx, T(n.a), T(n.b)); break;
    case O_SHL: r = M_mk_bvshl(ctx, BV(n.a), BV(n.b)); break;
    case O_LSHR: r = M_mk_bvlshr(ctx, BV(n.a), BV(n.b)); break;
    case O_ASHR: r = M_mk_bvashr(ctx, BV(n.a), BV(n.b)); break;
    case O_EQ: r = M_mk_eq(ctx, T(n.a), T(n.b)); break;
    case O_ULT: r = M_mk_bvult(ctx, BV(n.a), BV(n.b)); break;
    case O_ULE: r = M_mk_bvule(ctx, BV(n.a), BV(n.b)); break;
    case O_SLT: r = M_mk_bvslt(ctx, BV(n.a), BV(n.b)); break;
    case O_SLE: r = M_mk_bvsle(ctx, BV(n.a), BV(n.b)); break;
    case O_NOT: r = M_mk_not(ctx, T(n.a)); break;
    case O_ITE: r = M_mk_ite(ctx, T(n.a), T(n.b), T(n.c)); break;
    case O_ZEXT: r = M_mk_zero_ext(ctx, n.width - A->nodes[n.a].width, BV(n.a)); break;
    case O_SEXT: r = M_mk_sign_ext(ctx, n.width - A->nodes[n.a].width, BV(n.a)); break;
    case O_EXTRACT: r = fromBv(M_mk_extract(ctx, n.b + n.width - 1, n.b, BV(n.a)), n.width); break;
    case O_CONCAT: r = M_mk_concat(ctx, BV(n.a), BV(n.b)); break;
  }
  Z3_inc_ref(ctx, r);
  z.ast = r; z.vars.assign(vs.begin(), vs.end());
  return zcache.emplace(n.hash, std::move(z)).first->second;
}

struct Lvl { u64 h; vector<u64> newVars; };
static vector<Lvl> stk; static unordered_set<u64> domAsserted;
static void popTo(size_t n) {
  if (stk.size() <= n) return;
  Z3_solver_pop(ctx, solver, stk.size() - n);
  while (stk.size() > n) { for (u64 v : stk.back().newVars) domAsserted.erase(v); stk.pop_back(); }
}
static void pushC(u32 node, bool taken) {
  ZInfo &t = term(node);
  Z3_solver_push(ctx, solver);
  Lvl l; l.h = mix(A->nodes[node].hash, taken);
  for (u64 v : t.vars) if (domAsserted.insert(v).second) {
    l.newVars.push_back(v);
    VInfo &x = vinfo[v];
    Z3_sort bs = Z3_get_sort(ctx, x.ast);
    Z3_solver_assert(ctx, solver, M_mk_bvsge(ctx, x.ast, M_mk_int64(ctx, x.lo, bs)));
    Z3_solver_assert(ctx, solver, M_mk_bvsle(ctx, x.ast, M_mk_int64(ctx, x.hi, bs)));
  }
  Z3_solver_assert(ctx, solver, taken ? t.ast : M_mk_not(ctx, t.ast));
  stk.push_back(l);
}
struct QRes { char res; vector<pair<u64, u64>> model; };   // res: 0 unsat 1 sat 2 unknown
static unordered_map<u64, QRes> qcache;

static void pushItem(const Item &it) {
  if (S->top >= POOL) { S->dropped++; return; }
  Item &d = S->items[S->top];
  d.nIn = it.nIn; d.bound = it.bound; d.prefix = it.prefix;
  memcpy(d.in, it.in, it.nIn * sizeof it.in[0]);
  S->top = S->top + 1;
  if (S->top > S->maxTop) S->maxTop = S->top;
}
static void lockS() { pthread_mutex_lock(&S->mu); }
static void unlockS() { pthread_mutex_unlock(&S->mu); }

static void addViol(const char *msg) {
  lockS();
  S->totalViol++;
  bool dup = false;
  for (u32 i = 0; i < S->nViol; i++) if (!strcmp(S->viol[i].msg, msg)) dup = true;
  u32 same = 0; (void)same;
  if (S->nViol < MAXVIOL && (!dup || S->nViol < 4)) {
    Viol &v = S->viol[S->nViol++];
    snprintf(v.msg, sizeof v.msg, "%s", msg);
    v.n = A->nVars;
    for (u32 i = 0; i < A->nVars; i++) { snprintf(v.v[i].name, sizeof v.v[i].name, "%s", A->vars[i].name); v.v[i].val = (i64)A->vars[i].val; }
  }
  unlockS();
}

static void initZ3(unsigned long seed) {
  if (ctx) { Z3_solver_dec_ref(ctx, solver); Z3_del_context(ctx); }
  zcache.clear(); vinfo.clear(); keyToHash.clear(); stk.clear(); domAsserted.clear();
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context_rc(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %d: %s\n", e, Z3_get_error_msg(c, e)); _exit(4); });
  solver = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, solver);
  Z3_params ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps);
  Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), qTimeout);
  Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "random_seed"), seed);
  Z3_solver_set_params(ctx, solver, ps);
}
static void worker(int id, int fd, char **cmd, int childTmo, unsigned long seed, int violStop) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  A = (Arena *)mmap(nullptr, sizeof(Arena), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  int p1[2], p2[2];
  if (pipe(p1) || pipe(p2)) _exit(3);
  pid_t z = fork();
  if (z == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(p1[1]); close(p2[0]);
    char a[16], b[16], c[16], d[16];
    snprintf(a, 16, "%d", fd); snprintf(b, 16, "%d", p1[0]); snprintf(c, 16, "%d", p2[1]); snprintf(d, 16, "%d", childTmo);
    vector<char *> av; av.push_back(cmd[0]); av.push_back((char *)"--fd"); av.push_back(a); av.push_back(b); av.push_back(c); av.push_back(d);
    for (int i = 1; cmd[i]; i++) av.push_back(cmd[i]);
    av.push_back(nullptr);
    execv(cmd[0], av.data());
    _exit(127);
  }
  close(p1[0]); close(p2[1]);
  initZ3(seed); bv.reset();
  static Item it, swp; u64 rnd = seed * 977 + id * 131071 + 7;
  bool isActive = false;
  u64 sinceReset = 0;
  while (true) {
    lockS();
    if (isActive) { S->active = S->active - 1; isActive = false; }
    bool got = false, over = false;
    if (S->stop) over = true;
    else if (S->top > 0) {
      u32 k = S->top - 1;
      if ((id & 1) && S->top > 1) {
        rnd = rnd * 6364136223846793005ull + 1442695040888963407ull;
        u32 j = (rnd >> 33) % S->top;
        if (j != k) { memcpy(&swp, &S->items[j], sizeof(u64) * 2 + S->items[j].nIn * sizeof swp.in[0]); memcpy(&S->items[j], &S->items[k], sizeof(u64) * 2 + S->items[k].nIn * sizeof swp.in[0]); memcpy(&S->items[k], &swp, sizeof(u64) * 2 + swp.nIn * sizeof swp.in[0]); }
      }
      Item &d = S->items[k];
      it.nIn = d.nIn; it.bound = d.bound; it.prefix = d.prefix; memcpy(it.in, d.in, d.nIn * sizeof d.in[0]);
      S->top = k; S->active = S->active + 1; got = isActive = true;
    } else if (S->active == 0) over = true;
    unlockS();
    if (over) break;
    if (!got) { usleep(200); continue; }
    // ---- run the program on this input
    A->nIn = it.nIn; memcpy(A->in, it.in, it.nIn * sizeof it.in[0]);
    A->status = ST_RUNNING; A->nNodes = 0; A->nBranches = 0; A->nVars = 0; A->lost = 0; A->reached = 0; A->extScan = 0;
    char c = 1; int st = 0;
    if (write(p1[1], &c, 1) != 1) break;
    ssize_t rr = read(p2[0], &st, sizeof st);
    if (rr != sizeof st) { addViol("engine: fork server died"); S->stop = 1; break; }
    __sync_fetch_and_add(&S->runs, 1);
    u32 status = A->status;
    bool timedOut = false;
    if (status == ST_RUNNING) {
      if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) { timedOut = true; __sync_fetch_and_add(&S->timeouts, 1); addViol("timeout: the run did not terminate within its CPU budget"); }
      else { char b[100]; snprintf(b, sizeof b, "crash: child status %x", st); addViol(b); }
    } else if (status == ST_VIOL) {
      static char m[1024]; memcpy(m, A->msg, sizeof m); addViol(m);
      if (violStop && S->nViol >= (u32)violStop) S->stop = 1;
    } else if (status == ST_ASSUME) __sync_fetch_and_add(&S->assumed, 1);
    else if (status == ST_LIMIT) __sync_fetch_and_add(&S->limits, 1);
    else if (status == ST_EXIT) __sync_fetch_and_add(&S->exits, 1);
    else __sync_fetch_and_add(&S->done, 1);
    u32 nb = A->nBranches;
    __sync_fetch_and_add(&S->branches, nb);
    __sync_fetch_and_add(&S->reached, A->reached ? 1 : 0);
    if (A->lost) { __sync_fetch_and_add(&S->lost, A->lost); memcpy(S->lostWhere, A->lostWhere, 128); }
    if (A->extScan) { __sync_fetch_and_add(&S->extScan, A->extScan); if (!S->lostWhere[0]) memcpy(S->lostWhere, A->lostWhere, 128); }
    __sync_fetch_and_add(&S->sumNodes, A->nNodes);
    if (nb > S->maxBranches) S->maxBranches = nb;
    if (A->nNodes > S->maxNodes) S->maxNodes = A->nNodes;
    for (int i = 0; i < 15; i++) if (A->notes[i]) __sync_fetch_and_add(&S->notes[i], A->notes[i]);
    if (status == ST_DONE && A->reached && (S->nSamples < 8 || (S->runs & (S->runs - 1)) == 0)) {
      lockS();
      if (true) {
        u32 slot = S->nSamples < 8 ? S->nSamples : (u32)(__builtin_ctzll(S->runs) % 8);
        char *q = S->samples[slot]; size_t l = 0;
        for (u32 i = 0; i < A->nVars && l < 4000; i++) l += snprintf(q + l, 4096 - l, "%s=%lld ", A->vars[i].name, (long long)(i64)A->vars[i].val);
        if (S->nSamples < 8) S->nSamples++;
      }
      unlockS();
    }
    // variables
    for (u32 i = 0; i < A->nVars; i++) {
      VarRec &r = A->vars[i];
      u64 h = A->nodes[r.node].hash;
      keyToHash[r.key] = h;
      if (!vinfo.count(h)) vinfo[h] = {r.lo, r.hi, r.width, term(r.node).ast, r.node};
      vinfo[h].node = r.node;
    }
    // ---- divergence check
    u64 ph = 1;
    u32 bound = it.bound;
    if (bound > nb) { if (!timedOut && status != ST_VIOL) __sync_fetch_and_add(&S->diverged, 1); continue; }
    for (u32 i = 0; i < bound; i++) ph = mix(mix(ph, A->nodes[A->br[i].node].hash), A->br[i].taken);
    if (bound && ph != it.prefix) { __sync_fetch_and_add(&S->diverged, 1); if (getenv("SYM_DIV")) fprintf(stderr, "divergence at bound %u of %u\n", bound, nb); continue; }
    // ---- independence slicing: union-find over variables is rebuilt incrementally
    map<u64, u64> par;
    auto find = [&](u64 x) { while (true) { auto f = par.find(x); if (f == par.end()) { par[x] = x; return x; } if (f->second == x) return x; x = f->second; } };
    map<u64, vector<u32>> cons;   // root -> constraint indices
    auto addC = [&](u32 i) {
      const vector<u64> &vs = term(A->br[i].node).vars;
      if (vs.empty()) return;
      u64 r = find(vs[0]);
      vector<u32> acc; acc.swap(cons[r]); cons.erase(r);
      for (size_t k = 1; k < vs.size(); k++) {
        u64 q = find(vs[k]);
        if (q != r) { auto &o = cons[q]; acc.insert(acc.end(), o.begin(), o.end()); cons.erase(q); par[q] = r; }
      }
      acc.push_back(i);
      cons[r].swap(acc);
    };
    vector<Item *> fresh;
    for (u32 i = 0; i < nb && !S->stop; i++) {
      u32 node = A->br[i].node; u64 nh = A->nodes[node].hash; bool taken = A->br[i].taken;
      if (i >= bound) {
        // gather slice
        const vector<u64> vs = term(node).vars;
        vector<u32> sl; set<u64> roots;
        for (u64 v : vs) roots.insert(find(v));
        for (u64 r : roots) { auto f = cons.find(r); if (f != cons.end()) sl.insert(sl.end(), f->second.begin(), f->second.end()); }
        sort(sl.begin(), sl.end());
        vector<u64> hs; for (u32 k : sl) hs.push_back(mix(A->nodes[A->br[k].node].hash, A->br[k].taken));
        sort(hs.begin(), hs.end());
        hs.erase(unique(hs.begin(), hs.end()), hs.end());
        u64 qh = mix(nh, !taken); for (u64 h : hs) qh = mix(qh, h);
        auto qc = qcache.find(qh);
        if (qc != qcache.end()) __sync_fetch_and_add(&S->cached, 1);
        else {
          double t0 = now();
          QRes q;
          set<u64> av(vs.begin(), vs.end());
          for (u32 k : sl) for (u64 v : term(A->br[k].node).vars) av.insert(v);
          bv.nodes = A->nodes;
          if (bv.S->nVars() > 3000000) bv.reset();
          Minisat::vec<Minisat::Lit> as;
          for (u32 k : sl) { Minisat::Lit l = bv.blast(A->br[k].node, A->vars, A->nVars)[0]; as.push(A->br[k].taken ? l : ~l); }
          { Minisat::Lit l = bv.blast(node, A->vars, A->nVars)[0]; as.push(taken ? ~l : l); }
          for (u64 v : av) if (!bv.varBits.count(v)) bv.blast(vinfo[v].node, A->vars, A->nVars);
          bv.S->setConfBudget(confBudget);
          Minisat::lbool mr = bv.S->solveLimited(as);
          if (mr == l_True) {
            q.res = 1;
            for (u64 v : av) q.model.push_back({v, bv.modelVal(bv.varBits[v])});
            __sync_fetch_and_add(&S->sat, 1);
          } else if (mr == l_False) { q.res = 0; __sync_fetch_and_add(&S->unsat, 1); }
          else { q.res = 2; __sync_fetch_and_add(&S->unknown, 1); }
          nq++;
          if (q.res != 2 && nq % xcheck == 0) {
            // cross-check with Z3
            size_t cp = 0;
            while (cp < stk.size() && cp < i && stk[cp].h == mix(A->nodes[A->br[cp].node].hash, A->br[cp].taken)) cp++;
            popTo(cp);
            for (u32 k = cp; k < i; k++) pushC(A->br[k].node, A->br[k].taken);
            pushC(node, !taken);
            Z3_lbool r = Z3_solver_check(ctx, solver);
            if (r != Z3_L_UNDEF) { __sync_fetch_and_add(&S->xchecked, 1); if ((r == Z3_L_TRUE) != (q.res == 1)) { fprintf(stderr, "solver disagreement\n"); __sync_fetch_and_add(&S->disagree, 1); } }
            popTo(i);
          }
          __sync_fetch_and_add(&S->solverUs, (u64)((now() - t0) * 1e6));
          if (qcache.size() > 2000000) qcache.clear();
          qc = qcache.emplace(qh, std::move(q)).first;
        }
        if (qc->second.res == 1) {
          Item *n = (Item *)malloc(sizeof(Item));
          n->bound = i + 1;
          n->prefix = mix(mix(ph, nh), !taken);
          n->nIn = 0;
          map<u64, u64> mv(qc->second.model.begin(), qc->second.model.end());
          for (u32 k = 0; k < A->nVars; k++) {
            VarRec &r = A->vars[k]; u64 h = A->nodes[r.node].hash; u64 val = r.val;
            auto f = mv.find(h);
            if (f != mv.end()) { u64 u = f->second; val = r.width >= 64 ? u : (u64)(((i64)(u << (64 - r.width))) >> (64 - r.width)); }
            n->in[n->nIn].key = r.key; n->in[n->nIn].val = val; n->nIn++;
          }
          fresh.push_back(n);
        }
        ph = mix(mix(ph, nh), taken);
      }
      addC(i);
    }
    lockS();
    for (Item *n : fresh) { pushItem(*n); free(n); }
    unlockS();
    if (zcache.size() > 1000000) initZ3(seed);
    (void)sinceReset;
  }
  close(p1[1]);
  int st; kill(z, SIGKILL); waitpid(z, &st, 0);
  _exit(0);
}
static string jstr(const char *s) { string r = "\""; for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32) r += ' '; else r += c; } return r + "\""; }
int main(int argc, char **argv) {
  double limit = 60; int W = 8, tmo = 10, violStop = 3; const char *out = nullptr; bool witness = false; unsigned long seed = 1;
  int i = 1;
  for (; i < argc; i++) {
    string a = argv[i];
    if (a == "--time") limit = atof(argv[++i]);
    else if (a == "--workers") W = atoi(argv[++i]);
    else if (a == "--child-timeout") tmo = atoi(argv[++i]);
    else if (a == "--query-timeout") qTimeout = atoi(argv[++i]);
    else if (a == "--viol-stop") violStop = atoi(argv[++i]);
    else if (a == "--xcheck") xcheck = atoi(argv[++i]);
    else if (a == "--out") out = argv[++i];
    else if (a == "--seed") seed = strtoul(argv[++i], 0, 10);
    else if (a == "--witness") witness = true;
    else if (a == "--") { i++; break; }
    else break;
  }
  char **cmd = argv + i;
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 3; }
  pthread_mutexattr_t ma; pthread_mutexattr_init(&ma); pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &ma);
  Item *root = (Item *)calloc(1, sizeof(Item)); pushItem(*root);
  double t0 = now();
  vector<pid_t> ps;
  for (int w = 0; w < W; w++) {
    int fd = memfd_create("arena", 0);
    if (ftruncate(fd, sizeof(Arena))) { perror("ftruncate"); return 3; }
    if (witness) { Arena *a = (Arena *)mmap(nullptr, 4096 * 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); a->witnessMode = 1; munmap(a, 4096 * 16); }
    pid_t p = fork();
    if (p == 0) worker(w, fd, cmd, tmo, seed, violStop);
    close(fd); ps.push_back(p);
  }
  bool timedOut = false; size_t alive = ps.size(); bool bad = false, killed = false;
  while (alive) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) { alive--; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !killed) { bad = true; S->stop = 1; } continue; }
    if (now() - t0 > limit && !S->stop) { if (S->top > 0 || S->active > 0) timedOut = true; S->stop = 1; }
    if (now() - t0 > limit + 15 && !killed) { for (pid_t q : ps) kill(q, SIGKILL); timedOut = killed = true; }   // a long query; the scenario is not exhausted
    usleep(2000);
  }
  double wall = now() - t0;
  bool exhausted = !timedOut && !S->dropped && !S->unknown && !S->diverged && !S->disagree && !S->lost && !S->limits && !S->timeouts && !bad && S->nViol == 0 && S->top == 0;
  FILE *f = out ? fopen(out, "w") : stdout;
  fprintf(f, "{\"exhausted\": %s, \"wall_s\": %.2f, \"paths\": %llu, \"completed\": %llu, \"assumed_out\": %llu, \"exited\": %llu, \"reached\": %llu, \"branches\": %llu, \"max_branches\": %llu, \"avg_nodes\": %llu, \"max_nodes\": %llu, "
    "\"queries_sat\": %llu, \"queries_unsat\": %llu, \"queries_unknown\": %llu, \"queries_cached\": %llu, \"solver_s\": %.2f, \"z3_crosschecked\": %llu, \"z3_disagreements\": %llu, \"diverged\": %llu, \"lost\": %llu, \"ext_scan\": %llu, \"timeouts\": %llu, \"limits\": %llu, \"dropped\": %llu, \"pending\": %u, \"max_pending\": %u, \"worker_failure\": %s, \"lost_where\": %s,\n",
    exhausted ? "true" : "false", wall, (unsigned long long)S->runs, (unsigned long long)S->done, (unsigned long long)S->assumed, (unsigned long long)S->exits, (unsigned long long)S->reached, (unsigned long long)S->branches, (unsigned long long)S->maxBranches, (unsigned long long)(S->runs ? S->sumNodes / S->runs : 0), (unsigned long long)S->maxNodes,
    (unsigned long long)S->sat, (unsigned long long)S->unsat, (unsigned long long)S->unknown, (unsigned long long)S->cached, S->solverUs / 1e6, (unsigned long long)S->xchecked, (unsigned long long)S->disagree, (unsigned long long)S->diverged, (unsigned long long)S->lost, (unsigned long long)S->extScan, (unsigned long long)S->timeouts, (unsigned long long)S->limits, (unsigned long long)S->dropped, S->top, S->maxTop, bad ? "true" : "false", jstr(S->lostWhere).c_str());
  fprintf(f, "\"notes\": ["); for (int k = 0; k < 15; k++) fprintf(f, "%s%llu", k ? ", " : "", (unsigned long long)S->notes[k]); fprintf(f, "],\n\"samples\": [");
  for (u32 k = 0; k < S->nSamples; k++) fprintf(f, "%s%s", k ? ", " : "", jstr(S->samples[k]).c_str());
  fprintf(f, "],\n\"total_violations\": %llu, \"violations\": [", (unsigned long long)S->totalViol);
  for (u32 k = 0; k < S->nViol; k++) {
    Viol &v = S->viol[k];
    fprintf(f, "%s\n {\"msg\": %s, \"inputs\": {", k ? "," : "", jstr(v.msg).c_str());
    for (u32 j = 0; j < v.n; j++) fprintf(f, "%s%s: %lld", j ? ", " : "", jstr(v.v[j].name).c_str(), (long long)v.v[j].val);
    fprintf(f, "}}");
  }
  fprintf(f, "]}\n");
  if (out) fclose(f);
  return S->nViol ? 1 : 0;
}
