// Reference values of the delete relaxation, computed directly from the definition (costs may be symbolic).
#pragma once
#include <vector>
struct ROp { int cost; std::vector<int> pre, add; };
struct Relax {
  int F; std::vector<ROp> op;
  static const int INF = 1 << 28;
  std::vector<int> reachWith(const std::vector<int> &s, const std::vector<int> &skip) const {
    std::vector<int> r = s; for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < op.size(); i++) { if (skip[i]) continue; bool a = true; for (int p : op[i].pre) a &= r[p]; if (a) for (int e : op[i].add) if (!r[e]) { r[e] = 1; ch = true; } } }
    return r;
  }
  std::vector<int> reach(const std::vector<int> &s) const { return reachWith(s, std::vector<int>(op.size(), 0)); }
  bool without(const std::vector<int> &s, const std::vector<int> &g, const std::vector<int> &skip) const { auto r = reachWith(s, skip); for (int i = 0; i < F; i++) if (g[i] && !r[i]) return false; return true; }
  // a, b >= 0: branch-free minimum and maximum
  static long lt(long a, long b) { return (unsigned long)(a - b) >> 63; }
  static long mn(long a, long b) { long c = -lt(b, a); return a ^ ((a ^ b) & c); }
  static long mx(long a, long b) { long c = -lt(a, b); return a ^ ((a ^ b) & c); }
  std::vector<long> fix(const std::vector<int> &s, bool sum) const {
    std::vector<long> h(F); std::vector<int> r = reach(s); for (int i = 0; i < F; i++) h[i] = s[i] ? 0 : INF;
    std::vector<int> known = s;
    for (size_t k = 0; k < op.size(); k++) {
      std::vector<long> n = h; std::vector<int> kn = known;
      for (auto &o : op) {
        bool ok = true; long v = 0; for (int p : o.pre) { if (!known[p]) ok = false; else v = sum ? v + h[p] : mx(v, h[p]); }
        if (!ok) continue;
        for (int e : o.add) if (!s[e]) { n[e] = kn[e] && n[e] != INF ? mn(n[e], v + o.cost) : v + o.cost; kn[e] = 1; }
      }
      h = n; known = kn;
    }
    return h;
  }
  std::vector<long> sum(const std::vector<int> &s) const { return fix(s, true); }
  std::vector<long> max(const std::vector<int> &s) const { return fix(s, false); }
  // cost of all operators: an upper bound of every relaxed plan that uses each operator once
  long sumOver(const std::vector<long> &, const std::vector<long> &, const std::vector<int> &) const { long c = 0; for (auto &o : op) c += o.cost; return c; }
  long hplus(const std::vector<int> &s, const std::vector<int> &g) const {
    long best = INF; int n = op.size();
    for (int x = 0; x < 1 << n; x++) {
      std::vector<int> skip(n); long c = 0; for (int i = 0; i < n; i++) { skip[i] = !(x >> i & 1); if (!skip[i]) c += op[i].cost; }
      if (!without(s, g, skip)) continue;
      bool minimal = true; for (int i = 0; i < n && minimal; i++) if (!skip[i]) { skip[i] = 1; if (without(s, g, skip)) minimal = false; skip[i] = 0; }
      if (minimal) best = best == INF ? c : mn(best, c);
    }
    return best;
  }
};
