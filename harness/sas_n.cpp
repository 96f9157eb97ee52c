#include "sas_n.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace {
struct Eff { std::vector<std::pair<int, int>> cond; int var, pre, post; };
struct Op { std::string name; std::vector<std::pair<int, int>> prev; std::vector<Eff> eff; int cost; };
typedef std::vector<short> S;
std::vector<int> dom; std::vector<Op> ops; S init; std::vector<std::pair<int, int>> goal;
std::map<S, int> id; std::vector<S> st; std::vector<std::vector<std::pair<int, int>>> succ; std::vector<int> dist; int cur;
bool isGoal(const S &s) { for (auto &g : goal) if (s[g.first] != g.second) return false; return true; }
bool app(const Op &o, const S &s) {
  for (auto &p : o.prev) if (s[p.first] != p.second) return false;
  for (auto &e : o.eff) if (e.pre >= 0 && s[e.var] != e.pre) return false;
  return true;
}
S run(const Op &o, const S &s) { S t = s; for (auto &e : o.eff) { bool c = true; for (auto &p : e.cond) c &= s[p.first] == p.second; if (c) t[e.var] = e.post; } return t; }
}
extern "C" int sas_load(const char *file, char *err, int n) {
  std::ifstream in(file); std::string l; dom.clear(); ops.clear(); goal.clear(); init.clear(); id.clear(); st.clear(); succ.clear(); dist.clear();
  auto fail = [&](const std::string &m) { snprintf(err, n, "malformed SAS+ output: %s", m.c_str()); return 1; };
  std::vector<std::string> L; while (std::getline(in, l)) if (!l.empty()) L.push_back(l);
  size_t p = 0; auto next = [&]() -> std::string { return p < L.size() ? L[p++] : "<eof>"; };
  auto num = [&](int &v) { std::string s = next(); char *e; v = strtol(s.c_str(), &e, 10); return e != s.c_str() && *e == 0; };
  auto nums = [&](std::vector<int> &v) { std::string s = next(); std::istringstream i(s); v.clear(); int x; while (i >> x) v.push_back(x); return i.eof() && !v.empty(); };
  auto fact = [&](int v, int x) { return v >= 0 && v < (int)dom.size() && x >= 0 && x < dom[v]; };
  int k, x; std::vector<int> v;
  if (next() != "begin_version" || !num(x) || x != 3 || next() != "end_version") return fail("version");
  if (next() != "begin_metric" || !num(x) || (x != 0 && x != 1) || next() != "end_metric") return fail("metric");
  if (!num(k)) return fail("number of variables");
  for (int i = 0; i < k; i++) {
    if (next() != "begin_variable") return fail("begin_variable"); next(); if (!num(x) || x != -1) return fail("axiom layer");
    if (!num(x) || x < 1) return fail("domain size"); dom.push_back(x); for (int j = 0; j < x; j++) next(); if (next() != "end_variable") return fail("end_variable");
  }
  if (!num(k)) return fail("number of mutex groups");
  for (int i = 0; i < k; i++) {
    if (next() != "begin_mutex_group" || !num(x)) return fail("mutex group");
    for (int j = 0; j < x; j++) if (!nums(v) || v.size() != 2 || !fact(v[0], v[1])) return fail("mutex fact");
    if (next() != "end_mutex_group") return fail("end_mutex_group");
  }
  if (next() != "begin_state") return fail("begin_state");
  for (size_t i = 0; i < dom.size(); i++) { if (!num(x) || !fact(i, x)) return fail("initial value"); init.push_back(x); }
  if (next() != "end_state" || next() != "begin_goal" || !num(k)) return fail("goal");
  for (int i = 0; i < k; i++) { if (!nums(v) || v.size() != 2 || !fact(v[0], v[1])) return fail("goal fact"); goal.push_back({v[0], v[1]}); }
  if (next() != "end_goal" || !num(k)) return fail("number of operators");
  for (int i = 0; i < k; i++) {
    Op o; if (next() != "begin_operator") return fail("begin_operator (operator count)"); o.name = next(); int m;
    if (!num(m)) return fail("prevail count");
    for (int j = 0; j < m; j++) { if (!nums(v) || v.size() != 2 || !fact(v[0], v[1])) return fail("prevail"); o.prev.push_back({v[0], v[1]}); }
    if (!num(m)) return fail("effect count");
    for (int j = 0; j < m; j++) {
      if (!nums(v) || v.size() < 4 || v[0] < 0 || v.size() != 4 + 2u * v[0]) return fail("effect of " + o.name);
      Eff e; for (int c = 0; c < v[0]; c++) { if (!fact(v[1 + 2 * c], v[2 + 2 * c])) return fail("effect condition"); e.cond.push_back({v[1 + 2 * c], v[2 + 2 * c]}); }
      int b = 1 + 2 * v[0]; e.var = v[b]; e.pre = v[b + 1]; e.post = v[b + 2];
      if (!fact(e.var, e.post) || (e.pre != -1 && !fact(e.var, e.pre))) return fail("effect fact of " + o.name); o.eff.push_back(e);
    }
    if (!num(o.cost) || next() != "end_operator") return fail("operator end of " + o.name); ops.push_back(o);
  }
  if (!num(x) || x != 0) return fail("axioms"); if (p != L.size()) return fail("trailing text");
  return 0;
}
extern "C" int sas_explore(int maxS) {
  id[init] = 0; st.push_back(init); std::vector<std::vector<int>> pred(1); succ.resize(1); bool lim = false;
  for (size_t i = 0; i < st.size(); i++) {
    if (isGoal(st[i])) continue;
    for (size_t o = 0; o < ops.size(); o++) {
      if (!app(ops[o], st[i])) continue;
      S t = run(ops[o], st[i]); auto it = id.find(t); int j;
      if (it == id.end()) { if ((int)st.size() >= maxS) { lim = true; continue; } j = st.size(); id[t] = j; st.push_back(t); succ.push_back({}); pred.push_back({}); } else j = it->second;
      succ[i].push_back({(int)o, j}); pred[j].push_back(i);
    }
  }
  dist.assign(st.size(), -1); std::deque<int> q; for (size_t i = 0; i < st.size(); i++) if (isGoal(st[i])) { dist[i] = 0; q.push_back(i); }
  while (!q.empty()) { int x = q.front(); q.pop_front(); for (int y : pred[x]) if (dist[y] < 0) { dist[y] = dist[x] + 1; q.push_back(y); } }
  cur = 0; return dist[0] >= 0 ? 1 : lim ? -1 : 0;
}
extern "C" int sas_choices(int *out, int cap) {
  if (dist[cur] == 0) return 0;
  std::vector<std::pair<int, int>> c; for (auto &x : succ[cur]) if (dist[x.second] >= 0 && x.second != cur) c.push_back({dist[x.second], x.first});
  std::stable_sort(c.begin(), c.end()); int k = 0; for (auto &x : c) if (k < cap) out[k++] = x.second; return k;
}
extern "C" void sas_apply(int op) { for (auto &x : succ[cur]) if (x.first == op) { cur = x.second; return; } }
extern "C" void sas_reset(void) { cur = 0; }
extern "C" const char *sas_name(int op) { return ops[op].name.c_str(); }
extern "C" int sas_cost(int op) { return ops[op].cost; }
