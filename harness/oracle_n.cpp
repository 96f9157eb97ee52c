#include "oracle.h"
#include <algorithm>
#include <bitset>
#include <cstdio>
#include <cstring>
#include <map>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using namespace std;
typedef bitset<192> St;
namespace orc {
struct Act { int cost; vector<int> pre, add, del; };
struct Meth { bool ok = true; int task; vector<int> sub; vector<pair<int, int>> ord; vector<vector<bool>> lt; };
static int F, nA, nT, init_;
static vector<Act> acts; static vector<Meth> ms; static vector<int> s0, goal;
struct StLess { bool operator()(const St &a, const St &b) const { for (int i = 191; i >= 0; i--) if (a[i] != b[i]) return b[i]; return false; } };
struct Net { vector<int> task; vector<vector<bool>> lt; };   // lt[i][j]: i before j (transitively closed)
static void close(vector<vector<bool>> &l) { int n = l.size(); for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (l[i][k]) for (int j = 0; j < n; j++) if (l[k][j]) l[i][j] = true; }
static string key(const Net &n, const St &s) {
  int k = n.task.size();
  // normal form: sort by (task, #pred, #succ, refined labels); equality of keys implies isomorphism
  vector<pair<string, int>> lab(k);
  for (int i = 0; i < k; i++) { int p = 0, q = 0; for (int j = 0; j < k; j++) { p += n.lt[j][i]; q += n.lt[i][j]; } lab[i] = {to_string(n.task[i]) + "." + to_string(p) + "." + to_string(q), i}; }
  for (int r = 0; r < 2; r++) {
    vector<pair<string, int>> nl = lab; map<int, string> L; for (auto &x : lab) L[x.second] = x.first;
    for (auto &x : nl) { vector<string> a, b; for (int j = 0; j < k; j++) { if (n.lt[j][x.second]) a.push_back(L[j]); if (n.lt[x.second][j]) b.push_back(L[j]); }
      sort(a.begin(), a.end()); sort(b.begin(), b.end()); string t = L[x.second] + "<"; for (auto &z : a) t += z + ","; t += ">"; for (auto &z : b) t += z + ","; x.first = t; }
    // compress labels
    vector<string> u; for (auto &x : nl) u.push_back(x.first); sort(u.begin(), u.end()); u.erase(unique(u.begin(), u.end()), u.end());
    for (auto &x : nl) { int id = lower_bound(u.begin(), u.end(), x.first) - u.begin(); x.first = to_string(n.task[x.second]) + "#" + to_string(1000 + id); }
    lab = nl;
  }
  sort(lab.begin(), lab.end());
  string r = s.to_string() + "|";
  for (auto &x : lab) r += to_string(n.task[x.second]) + ",";
  for (auto &x : lab) for (auto &y : lab) r += n.lt[x.second][y.second] ? '1' : '0';
  return r;
}
static bool applicable(const Act &a, const St &s) { for (int f : a.pre) if (!s[f]) return false; return true; }
static void applyAct(const Act &a, St &s) { for (int f : a.del) s[f] = false; for (int f : a.add) s[f] = true; }
static Net remove(const Net &n, int i) {
  Net r; int k = n.task.size(); vector<int> m; for (int j = 0; j < k; j++) if (j != i) m.push_back(j);
  for (int j : m) r.task.push_back(n.task[j]);
  r.lt.assign(k - 1, vector<bool>(k - 1)); for (size_t a = 0; a < m.size(); a++) for (size_t b = 0; b < m.size(); b++) r.lt[a][b] = n.lt[m[a]][m[b]];
  return r;
}
static Net decomp(const Net &n, int i, const Meth &m) {
  Net r; int k = n.task.size(), q = m.sub.size(); vector<int> keep; for (int j = 0; j < k; j++) if (j != i) keep.push_back(j);
  int K = keep.size() + q; r.lt.assign(K, vector<bool>(K));
  for (int j : keep) r.task.push_back(n.task[j]);
  for (int t : m.sub) r.task.push_back(t);
  for (size_t a = 0; a < keep.size(); a++) for (size_t b = 0; b < keep.size(); b++) r.lt[a][b] = n.lt[keep[a]][keep[b]];
  for (int a = 0; a < q; a++) for (int b = 0; b < q; b++) r.lt[keep.size() + a][keep.size() + b] = m.lt[a][b];
  for (size_t a = 0; a < keep.size(); a++) for (int b = 0; b < q; b++) { r.lt[a][keep.size() + b] = n.lt[keep[a]][i]; r.lt[keep.size() + b][a] = n.lt[i][keep[a]]; }
  return r;
}
static bool goalReached(const St &s) { for (int f : goal) if (!s[f]) return false; return true; }
static int solve(int maxTasks, int maxNodes, long *best, int mode) {   // mode 0: action cost, 1: number of steps
  struct N { long c; Net n; St s; };
  vector<N> pool; priority_queue<pair<long, int>, vector<pair<long, int>>, greater<pair<long, int>>> q;
  map<string, long> seen; bool cut = false;
  auto push = [&](long c, Net n, const St &s) {
    if ((int)n.task.size() > maxTasks) { cut = true; return; }
    string k = key(n, s); auto f = seen.find(k); if (f != seen.end() && f->second <= c) return;
    seen[k] = c; pool.push_back({c, n, s}); q.push({c, (int)pool.size() - 1});
  };
  Net i0; i0.task = {init_}; i0.lt = {{false}}; St s; for (int f : s0) s[f] = true;
  push(0, i0, s);
  while (!q.empty()) {
    auto [c, id] = q.top(); q.pop();
    if ((int)pool.size() > maxNodes) return -1;
    N cur = pool[id];
    { string k = key(cur.n, cur.s); if (seen[k] < c) continue; }
    if (cur.n.task.empty()) { if (goalReached(cur.s)) { *best = c; return cut && 0 ? -1 : 1; } continue; }
    int k = cur.n.task.size(); bool anyAbs = false;
    for (int i = 0; i < k; i++) {
      bool free = true; for (int j = 0; j < k; j++) if (cur.n.lt[j][i]) free = false;
      if (!free) continue;
      int t = cur.n.task[i];
      if (t >= nA) {
        if (anyAbs) continue;       // decomposing abstract tasks commutes with everything else
        anyAbs = true;
        for (auto &m : ms) if (m.ok && m.task == t) push(c + (mode ? 1 : 0), decomp(cur.n, i, m), cur.s);
      } else if (applicable(acts[t], cur.s)) { St n = cur.s; applyAct(acts[t], n); push(c + (mode ? 1 : acts[t].cost), remove(cur.n, i), n); }
    }
  }
  return cut ? -1 : 0;
}
static int plans(int maxTasks, int maxNodes, int *out, int cap) {
  struct N { Net n; St s; vector<int> v; };
  vector<N> pool; set<string> seen; set<vector<int>> sol; bool cut = false;
  auto push = [&](Net n, const St &s, const vector<int> &v) {
    if ((int)n.task.size() > maxTasks) { cut = true; return; }
    string k = key(n, s) + "|"; for (int x : v) k += to_string(x) + ",";
    if (seen.insert(k).second) pool.push_back({n, s, v});
  };
  Net i0; i0.task = {init_}; i0.lt = {{false}}; St s; for (int f : s0) s[f] = true;
  push(i0, s, vector<int>(nA + 1, 0));
  while (!pool.empty()) {
    N cur = pool.back(); pool.pop_back();
    if ((int)seen.size() > maxNodes) return -1;
    if (cur.n.task.empty()) { if (goalReached(cur.s)) sol.insert(cur.v); continue; }
    int k = cur.n.task.size(); bool anyAbs = false;
    for (int i = 0; i < k; i++) {
      bool free = true; for (int j = 0; j < k; j++) if (cur.n.lt[j][i]) free = false;
      if (!free) continue;
      int t = cur.n.task[i];
      if (t >= nA) {
        if (anyAbs) continue;
        anyAbs = true; vector<int> v = cur.v; v[nA]++;
        for (auto &m : ms) if (m.ok && m.task == t) push(decomp(cur.n, i, m), cur.s, v);
      } else if (applicable(acts[t], cur.s)) { St n = cur.s; applyAct(acts[t], n); vector<int> v = cur.v; v[t]++; push(remove(cur.n, i), n, v); }
    }
  }
  if (cut) return -1;
  int c = 0; for (auto &v : sol) { if ((c + 1) * (nA + 1) > cap) return -1; for (int i = 0; i <= nA; i++) out[c * (nA + 1) + i] = v[i]; c++; }
  return c;
}
// decomposition first (bounded by the tree depth), then an executable linearisation of the primitive network
static bool linearise(const Net &n, const St &s, set<string> &dead, long &budget) {
  if (n.task.empty()) return goalReached(s);
  if (--budget < 0) return false;
  string k = key(n, s); if (dead.count(k)) return false;
  int q = n.task.size();
  for (int i = 0; i < q; i++) {
    bool free = true; for (int j = 0; j < q; j++) if (n.lt[j][i]) free = false;
    if (!free || !applicable(acts[n.task[i]], s)) continue;
    St t = s; applyAct(acts[n.task[i]], t); if (linearise(remove(n, i), t, dead, budget)) return true;
  }
  dead.insert(k); return false;
}
static int solveDepth(int depth, int maxNodes) {
  struct N { Net n; vector<int> d; };
  Net i0; i0.task = {init_}; i0.lt = {{false}}; St s; for (int f : s0) s[f] = true;
  vector<N> st{{i0, {0}}}; set<string> seen, dead; long budget = maxNodes;
  while (!st.empty()) {
    N cur = st.back(); st.pop_back();
    if ((int)seen.size() > maxNodes || budget < 0) return -1;
    int a = -1; for (size_t i = 0; i < cur.n.task.size(); i++) if (cur.n.task[i] >= nA) { a = i; break; }
    if (a < 0) { if (seen.insert(key(cur.n, s)).second && linearise(cur.n, s, dead, budget)) return 1; continue; }
    if (cur.d[a] >= depth) continue;
    for (auto &m : ms) if (m.ok && m.task == cur.n.task[a]) {
      N x; x.n = decomp(cur.n, a, m); for (size_t j = 0; j < cur.d.size(); j++) if ((int)j != a) x.d.push_back(cur.d[j]);
      for (size_t j = 0; j < m.sub.size(); j++) x.d.push_back(cur.d[a] + 1);
      st.push_back(x);
    }
  }
  return budget < 0 ? -1 : 0;
}
static bool anyOrder = false;      // children of a printed decomposition may be listed in any order
static string taskName(int t) { return "t" + to_string(t); }
static string methName(int m) { return "m" + to_string(m); }
static bool verify(const string &out, string &err, long &cost, long &steps) {
  size_t a = out.find("==>\n"), b = out.find("<==");
  if (a == string::npos || b == string::npos || b < a) { err = "no plan printed"; return false; }
  istringstream in(out.substr(a + 4, b - a - 4));
  string line; vector<pair<int, int>> seq; map<int, int> taskOf; struct D { int m; vector<int> ch; }; map<int, D> dec; long root = -1; bool haveRoot = false;
  auto tid = [&](const string &n) { if (n.size() < 2 || n[0] != 't') return -1; int v = atoi(n.c_str() + 1); return v >= 0 && v < nA + nT && taskName(v) == n ? v : -1; };
  while (getline(in, line)) {
    istringstream ls(line); string x; ls >> x;
    if (x == "root") { if (haveRoot) { err = "two roots"; return false; } haveRoot = true; if (!(ls >> root)) { err = "bad root"; return false; } continue; }
    int id = atoi(x.c_str()); string nm; ls >> nm; int t = tid(nm);
    if (t < 0) { err = "unknown task in plan: " + line; return false; }
    if (taskOf.count(id)) { err = "duplicate id"; return false; }
    taskOf[id] = t;
    if (!haveRoot) { if (t >= nA) { err = "abstract task in the action sequence"; return false; } seq.push_back({id, t}); continue; }
    string arrow, mn; ls >> arrow >> mn; if (arrow != "->") { err = "malformed decomposition"; return false; }
    int mi = -1; for (size_t k = 0; k < ms.size(); k++) if (methName(k) == mn) mi = k;
    if (mi < 0) { err = "unknown method"; return false; }
    if (ms[mi].task != t) { err = "method applied to a task it does not decompose"; return false; }
    D d; d.m = mi; int c; while (ls >> c) d.ch.push_back(c);
    dec[id] = d;
  }
  if (!haveRoot) { err = "no root"; return false; }
  if (!dec.count(root) || taskOf[root] != init_) { err = "root is not a decomposition of the initial task"; return false; }
  St s; for (int f : s0) s[f] = true; cost = 0; steps = seq.size() + dec.size();
  map<int, int> pos; int p = 0;
  for (auto &x : seq) { if (!applicable(acts[x.second], s)) { err = "plan is not executable"; return false; } applyAct(acts[x.second], s); cost += acts[x.second].cost; pos[x.first] = p++; }
  if (!goalReached(s)) { err = "plan does not reach the goal"; return false; }
  set<int> used; used.insert(root);
  for (auto &x : dec) {
    const Meth &m = ms[x.second.m];
    if (m.sub.size() != x.second.ch.size()) { err = "decomposition does not list one child per subtask"; return false; }
    for (size_t k = 0; k < m.sub.size(); k++) {
      int c = x.second.ch[k];
      if (!taskOf.count(c)) { err = "child is not part of the plan"; return false; }
      if (!anyOrder && taskOf[c] != m.sub[k]) { err = "child task does not match the method's subtask"; return false; }
      if (!used.insert(c).second) { err = "plan step used twice"; return false; }
      if (taskOf[c] >= nA && !dec.count(c)) { err = "abstract child without decomposition"; return false; }
    }
  }
  if (used.size() != taskOf.size()) { err = "plan contains steps outside the decomposition tree"; return false; }
  // spans of action positions below each step; reachability from the root guarantees a tree
  set<int> vis; bool bad = false;
  auto span = [&](auto &&self, int id) -> pair<int, int> {
    if (!vis.insert(id).second) { bad = true; return {0, -1}; }
    if (pos.count(id)) return {pos[id], pos[id]};
    int lo = 1 << 30, hi = -1; vector<pair<int, int>> sp;
    const D &d = dec[id];
    for (int c : d.ch) { auto q = self(self, c); sp.push_back(q); lo = min(lo, q.first); hi = max(hi, q.second); }
    const Meth &m = ms[d.m];
    vector<int> pm; for (size_t a = 0; a < m.sub.size(); a++) pm.push_back(a);
    bool ok = false;
    do {      // pm[k]: which listed child is subtask k
      bool f = true;
      for (size_t a = 0; a < m.sub.size() && f; a++) { if (taskOf[d.ch[pm[a]]] != m.sub[a]) f = false; for (size_t b = 0; b < m.sub.size() && f; b++) if (m.lt[a][b] && sp[pm[a]].second >= sp[pm[b]].first) f = false; }
      if (f) { ok = true; break; }
    } while (anyOrder && next_permutation(pm.begin(), pm.end()));
    if (!ok) bad = true;
    return {lo, hi};
  };
  span(span, root);
  if (bad) { err = "plan violates an ordering constraint of a method or lists children that are not its subtasks"; return false; }
  if (vis.size() != taskOf.size()) { err = "plan step not reachable from the root"; return false; }
  return true;
}
}
extern "C" {
void orc_load(const int *b, int len) {
  using namespace orc; const int *e = b + len; (void)e;
  acts.clear(); ms.clear(); s0.clear(); goal.clear();
  F = *b++; nA = *b++; nT = *b++; int nM = *b++; init_ = *b++;
  auto lst = [&](vector<int> &v) { int n = *b++; v.clear(); while (n--) v.push_back(*b++); };
  lst(s0); lst(goal);
  for (int i = 0; i < nA; i++) { Act a; a.cost = *b++; lst(a.pre); lst(a.add); lst(a.del); acts.push_back(a); }
  for (int i = 0; i < nM; i++) { Meth m; m.task = *b++; lst(m.sub); vector<int> o; lst(o); int k = m.sub.size(); m.lt.assign(k, vector<bool>(k)); for (size_t j = 0; j + 1 < o.size(); j += 2) { m.ord.push_back({o[j], o[j + 1]}); m.lt[o[j]][o[j + 1]] = true; } close(m.lt); ms.push_back(m); }
  // methods with a subtask that cannot be refined into actions are never part of a solution
  vector<bool> fin(nA + nT, false); for (int i = 0; i < nA; i++) fin[i] = true;
  for (int r = 0; r <= nT; r++) for (auto &m : ms) { m.ok = true; for (int t : m.sub) if (!fin[t]) m.ok = false; if (m.ok) fin[m.task] = true; }
}
int orc_solve(int maxTasks, int maxNodes, long *best, long *steps) {
  int r = orc::solve(maxTasks, maxNodes, best, 0);
  if (steps && r == 1) orc::solve(maxTasks, maxNodes, steps, 1);
  return r;
}
int orc_verify(const char *plan, char *err, int n, long *cost, long *steps) {
  string e; long c = 0, st = 0; bool ok = orc::verify(plan, e, c, st); if (cost) *cost = c; if (steps) *steps = st;
  if (!ok) { snprintf(err, n, "%s", e.c_str()); return 1; }
  return 0;
}
void orc_any_order(int b) { orc::anyOrder = b; }
int orc_plans(int a, int b, int *o, int c) { return orc::plans(a, b, o, c); }
int orc_solve_depth(int d, int n) { return orc::solveDepth(d, n); }
int orc_plan_vector(const char *plan, int *o) {
  using namespace orc; for (int i = 0; i <= nA; i++) o[i] = 0;
  string out = plan; size_t a = out.find("==>\n"), b = out.find("<=="); if (a == string::npos || b == string::npos) return 1;
  istringstream in(out.substr(a + 4, b - a - 4)); string line; bool root = false;
  while (getline(in, line)) { istringstream ls(line); string x, y; ls >> x >> y; if (x == "root") { root = true; continue; } if (root) o[nA]++; else { int t = y.size() > 1 ? atoi(y.c_str() + 1) : -1; if (t < 0 || t >= nA) return 1; o[t]++; } }
  return 0;
}
int orc_count(const char *h, const char *n) { int c = 0; size_t l = strlen(n); for (const char *p = h; (p = strstr(p, n)); p += l) c++; return c; }
long orc_number_after(const char *h, const char *n, long d) { const char *p = strstr(h, n); if (!p) return d; char *e; long v = strtol(p + strlen(n), &e, 10); return e == p + strlen(n) ? d : v; }
int orc_same(const char *a, const char *b) { return !strcmp(a, b); }
}
