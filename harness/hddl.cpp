// hddl KIND: the exported HDDL domain and problem against the ground model (P21).
//  struct  symbolic subtasks (actions, abstract tasks, method precondition, no-ops) under any order of a 4-task method
//  bits    symbolic preconditions, effects, initial state and goal;  names  symbolic names that collide after cleaning
#include "walk.h"
#include <memory>
typedef std::vector<int> V; typedef std::set<int> S;
static int C(int v) { return sym_concretize_int(v); }
struct X { std::string a; std::vector<X> l; bool atom; };
static X parse(const std::string &s, size_t &i) {
  auto ws = [&]() { while (i < s.size() && isspace((unsigned char)s[i])) i++; };
  ws(); X x; x.atom = i >= s.size() || (s[i] != '(' && s[i] != ')');
  if (x.atom) { while (i < s.size() && !isspace((unsigned char)s[i]) && s[i] != '(' && s[i] != ')') x.a += s[i++]; return x; }
  sym_assert(s[i] == '(', "unbalanced brackets in the exported file");
  i++; for (ws(); i < s.size() && s[i] != ')'; ws()) x.l.push_back(parse(s, i));
  sym_assert(i < s.size(), "unbalanced brackets in the exported file"); i++; return x;
}
static X parseFile(const std::string &f) { std::ifstream in(f); std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); size_t i = 0; X x = parse(t, i); while (i < t.size()) sym_assert(isspace((unsigned char)t[i++]), "text after the end of the exported definition"); return x; }
static const X *get(const X &x, const char *key) { for (size_t i = 0; i + 1 < x.l.size(); i++) if (x.l[i].atom && x.l[i].a == key) return &x.l[i + 1]; return nullptr; }
static std::vector<const X *> sect(const X &x, const char *key) { std::vector<const X *> r; for (auto &y : x.l) if (!y.atom && !y.l.empty() && y.l[0].atom && y.l[0].a == key) r.push_back(&y); return r; }
static std::string name(const X &x) { return x.atom ? x.a : x.l.empty() ? "" : x.l[0].a; }
static std::vector<const X *> conj(const X *x) { std::vector<const X *> r; if (!x || x->atom || x->l.empty()) return r; if (x->l[0].atom && x->l[0].a == "and") { for (size_t i = 1; i < x->l.size(); i++) r.push_back(&x->l[i]); } else r.push_back(x); return r; }
typedef std::map<std::string, int> Names;
static int look(const Names &n, const std::string &s, const char *msg) { auto it = n.find(s); sym_assert(it != n.end(), msg); return it == n.end() ? 0 : it->second; }
static S facts(const Names &n, const X *x) { S r; for (auto y : conj(x)) r.insert(look(n, name(*y), "the exported file uses an undeclared fact")); return r; }
static S flags(const V &f) { S s; for (size_t i = 0; i < f.size(); i++) if (C(f[i])) s.insert(i); return s; }
struct Meth { int task; V sub; std::vector<V> lt; };
static std::vector<V> closure(std::vector<V> r) { int k = r.size(); for (int q = 0; q < k; q++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (r[i][q] && r[q][j]) r[i][j] = 1; return r; }
// names
static std::vector<std::string> fn, tn;
static void write(const SModel &m, const std::string &f) {
  writeModel(m, f.c_str()); std::ifstream in(f); std::string t((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()), o, line; in.close();
  // replace the names
  size_t p = 0; int mode = 0, nf = 0, nt = 0; while (p < t.size()) { size_t e = t.find('\n', p); line = t.substr(p, e - p); p = e + 1;
    if (line.find(";; #state") == 0) mode = 1; else if (line.find(";; tasks") == 0) mode = 2; else if (line.find(";;") == 0) mode = 0;
    else if (mode == 1 && line[0] == 'f') line = fn[nf++]; else if (mode == 2 && line.size() > 2 && line[1] == ' ' && line[2] == 't') line = line.substr(0, 2) + tn[nt++];
    o += line + "\n"; }
  FILE *w = fopen(f.c_str(), "w"); fputs(o.c_str(), w); fclose(w);
}
extern "C" void harness_main(int argc, char **argv) {
  std::string kind = argv[0]; SModel m; m.facts(3);
  fn = {"+at[a,b]", "-at[a,b]", "has|x"};
  // actions: a, b, method precondition, no-op
  int a = m.action(), b = m.action(), mp = m.action(), no = m.action(), mp2 = m.action(); int top = m.abstractTask(), A = m.abstractTask(), B = m.abstractTask(); m.init = top;
  tn = {"drive[x,y]", "load-it", "__method_precondition_m[x]", "__noop", "__method_precondition_n[y]", "__top", "A[x]", "B<y>"};
  m.s0 = {1, 0, 0}; m.goal = {0, 0, 1};
  m.act[a].pre[0] = m.act[a].add[1] = m.act[a].del[0] = 1; m.act[b].add[2] = 1; m.act[b].pre[1] = 1; m.act[mp].pre[2] = 1; m.act[mp].pre[0] = 1; m.act[mp2].pre[1] = 1;
  if (kind == "struct") {
    int n = argc > 1 ? atoi(argv[1]) : 4; static const int pick[6] = {0, 2, 3, 6, 4, 1}; V s;
    for (int i = 0; i < n; i++) s.push_back(pick[C(sym_int_i("pick", i, 0, n > 3 ? 3 : 5))]);
    int m0 = m.method(top, s, false); for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) m.order(m0, i, j, sym_int_i("ord", i * n + j, 0, 1));
    m.method(A, {a, mp2, b}, false); m.method(A, {no}); m.method(B, {mp, a, no}); m.order(m.method(top, {A, B, mp}, false), 2, 0, 1); m.method(top, {b, a});
  } else if (kind == "bits") {
    m.act[a].pre = symFlags("pa", 3, {0, 1, 2}); m.act[a].add = symFlags("aa", 3, {1, 2}); m.act[a].del = symFlags("da", 3, {0, 1});
    m.act[b].add = symFlags("ab", 3, {2}); m.act[mp].pre = symFlags("pm", 3, {0, 1}); m.s0 = symFlags("st", 3, {0, 1}); m.goal = symFlags("go", 3, {1});
    m.method(top, {mp, a, A}); int x = m.method(A, {mp, b, no, a}, false); m.order(x, 0, 1, 1); m.order(x, 0, 3, 1); m.order(x, 0, 2, 1); m.method(A, {b}); m.method(B, {a}); m.method(top, {B, mp2, no});
  } else if (kind == "names") {
    static const char *f[] = {"at[a,b_c]", "at[a_b,c]", "at[a_b_c]", "_f", "x_f", "+f", "pf", "-g", "mg", "at[a,b_c]_1"};
    static const char *t[] = {"go[a,b_c]", "go[a_b,c]", "_go", "x_go", "go-x", "gomx", "go_a_b_c_"};
    V used; auto distinct = [&](const char *nm, int i, int n) { int k = C(sym_int_i(nm, i, 0, n - 1)); for (int u : used) sym_assume(u != k); used.push_back(k); return k; };
    if (C(sym_int("nametasks", 0, 1))) { int id[] = {a, b, A, B}; for (int i = 0; i < 4; i++) tn[id[i]] = t[distinct("tname", i, 7)]; }
    else for (int i = 0; i < 3; i++) fn[i] = f[distinct("fname", i, 10)];
    m.method(top, {a, A, b}); m.method(A, {a, b}, false); m.method(B, {b}); m.method(top, {B, mp, mp2, no});
  } else abort();
  std::string f = modelFile(), df = modelFile(), pf = modelFile(); write(m, f);
  char *out; sym_capture_begin(); std::ifstream in(f); Model *h = new Model(true, mtrACTIONS, true, true); h->read(&in); h->prepareTNi(h);
  h->buildOrderingDatastructures(); h->writeToPDDL(df, pf); sym_capture_end(&out); free(out);
  X d = parseFile(df), p = parseFile(pf);
  sym_assert(name(d) == "define" && name(p) == "define", "the exported file is no definition");
  Names F, T; auto def = [&](Names &n, const std::string &s, int i, const char *msg) { sym_assert(!s.empty() && !n.count(s), msg); n[s] = i; };
  auto preds = sect(d, ":predicates"); sym_assert(preds.size() == 1 && preds[0]->l.size() == m.F + 1u, "the exported domain declares the wrong number of facts");
  for (int i = 0; i < m.F; i++) def(F, name(preds[0]->l[i + 1]), i, "two facts have the same name in the exported domain");
  auto tasks = sect(d, ":task"); sym_assert((int)tasks.size() == m.nT, "the exported domain declares the wrong number of tasks");
  for (int i = 0; i < m.nT; i++) def(T, name(tasks[i]->l[1]), m.nA + i, "two tasks have the same name in the exported domain");
  // actions are identified by their definition's position among the actions that the written methods may use
  auto acts = sect(d, ":action"); auto meths = sect(d, ":method"); sym_assert(meths.size() == m.meth.size(), "the exported domain has the wrong number of methods");
  struct Def { S pre, add, del; }; std::vector<Def> defs; Names adef;
  for (auto x : acts) {
    def(adef, name(x->l[1]), defs.size(), "two actions have the same name in the exported domain"); sym_assert(!T.count(name(x->l[1])), "an action and a task have the same name in the exported domain");
    Def e; e.pre = facts(F, get(*x, ":precondition")); for (auto y : conj(get(*x, ":effect"))) { if (name(*y) == "not") e.del.insert(look(F, name(y->l[1]), "undeclared fact")); else e.add.insert(look(F, name(*y), "undeclared fact")); } defs.push_back(e);
  }
  Names mn;
  // written name of each action, as far as it is known
  std::vector<std::string> wname(m.nA);
  auto same = [&](int act, const std::string &s) { auto it = adef.find(s); if (it == adef.end()) return false; const Def &e = defs[it->second]; S ad = flags(m.act[act].add), de; for (int x : flags(m.act[act].del)) if (!ad.count(x)) de.insert(x);
    return e.pre == flags(m.act[act].pre) && e.add == ad && e.del == de && (wname[act].empty() || wname[act] == s); };
  for (size_t k = 0; k < meths.size(); k++) {
    const X &x = *meths[k]; const SMeth &sm = m.meth[k]; int n = sm.sub.size();
    def(mn, name(x.l[1]), k, "two methods have the same name in the exported domain");
    const X *t = get(x, ":task"); sym_assert(t && look(T, name(*t), "the exported method decomposes an undeclared task") == sm.task, "the exported method decomposes the wrong task");
    std::vector<V> lt(n, V(n, 0)); for (int i = 0; i < n * n; i++) if (C(sm.ord[i])) lt[i / n][i % n] = 1; lt = closure(lt);
    bool ordered = get(x, ":ordered-subtasks"); const X *st = ordered ? get(x, ":ordered-subtasks") : get(x, ":subtasks"); const X *pc = get(x, ":precondition");
    std::vector<std::string> w; Names id; for (auto y : conj(st)) { if (y->l.size() > 1 && !y->l[1].atom) { def(id, y->l[0].a, w.size(), "a task identifier is used twice"); w.push_back(name(y->l[1])); } else w.push_back(name(*y)); }
    int q = w.size(); std::vector<V> wl(q, V(q, 0)); if (ordered) for (int i = 0; i < q; i++) for (int j = i + 1; j < q; j++) wl[i][j] = 1;
    const X *od = get(x, ":ordering"); if (!od) od = get(x, ":order"); for (auto y : conj(od)) { sym_assert(y->l.size() == 3 && y->l[1].a == "<", "malformed ordering"); wl[look(id, y->l[0].a, "undeclared task identifier")][look(id, y->l[2].a, "undeclared task identifier")] = 1; }
    wl = closure(wl);
    // dropped tasks: no-ops, and one action without effects before all others if its preconditions are stated; the others match the written ones
    bool found = false; S pre = facts(F, pc);
    for (int drop = 0; drop < 1 << n && !found; drop++) {
      V keep; bool ok = true, stated = false; for (int i = 0; i < n && ok; i++) { if (!(drop >> i & 1)) { keep.push_back(i); continue; }
        int s = sm.sub[i]; if (s >= m.nA || flags(m.act[s].add).size() || flags(m.act[s].del).size()) { ok = false; break; }
        S pp = flags(m.act[s].pre); if (pp.empty() && (stated || pre.size() || s == no)) continue;
        if (stated || pp != pre) { ok = false; break; } stated = true; for (int j = 0; j < n; j++) if (j != i && !(drop >> j & 1 && flags(m.act[sm.sub[j]].pre).empty()) && !lt[i][j]) ok = false; }
      if (!ok || (int)keep.size() != q || (pre.size() && !stated)) continue;
      V perm; for (int i = 0; i < q; i++) perm.push_back(i);
      do { bool g = true; for (int i = 0; i < q && g; i++) { int s = sm.sub[keep[i]]; const std::string &nm = w[perm[i]]; g = s >= m.nA ? T.count(nm) && T[nm] == s : same(s, nm); for (int j = 0; j < q && g; j++) if (wl[perm[i]][perm[j]] != lt[keep[i]][keep[j]]) g = false; }
        if (g) { found = true; for (int i = 0; i < q; i++) { int s = sm.sub[keep[i]]; if (s < m.nA) wname[s] = w[perm[i]]; } } } while (!found && std::next_permutation(perm.begin(), perm.end()));
    }
    sym_assert(found, "an exported method has other subtasks, orderings or preconditions than the method");
  }
  // different actions need different names
  for (int i = 0; i < m.nA; i++) for (int j = 0; j < i; j++) sym_assert(wname[i].empty() || wname[i] != wname[j], "two actions have the same name in the exported domain");
  const X *ht = nullptr; for (auto y : sect(p, ":htn")) ht = y; sym_assert(ht, "the exported problem has no initial task network");
  auto it = conj(get(*ht, ":subtasks") ? get(*ht, ":subtasks") : get(*ht, ":ordered-subtasks")); sym_assert(it.size() == 1 && look(T, name(it[0]->l.size() > 1 ? it[0]->l[1] : *it[0]), "undeclared initial task") == m.init, "the exported problem has the wrong initial task");
  S s0, g; for (auto y : sect(p, ":init")) for (size_t i = 1; i < y->l.size(); i++) s0.insert(look(F, name(y->l[i]), "undeclared fact in the initial state"));
  for (auto y : sect(p, ":goal")) if (y->l.size() > 1) g = facts(F, &y->l[1]);
  sym_assert(s0 == flags(m.s0), "the exported problem has the wrong initial state"); sym_assert(g == flags(m.goal), "the exported problem has the wrong goal");
  sym_reach();
}
