// sets KIND N OPS: the integer containers against their mathematical counterparts (P08); operations and elements symbolic.
#include "hapi.h"
#include <algorithm>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "flags.h"
#include "intDataStructures/noDelIntSet.h"
#include "intDataStructures/bucketSet.h"
#include "intDataStructures/bIntSet.h"
#include "intDataStructures/delIterIntSet.h"
#include "intDataStructures/IntStack.h"
#include "intDataStructures/FlexIntStack.h"
#include "intDataStructures/IntPairHeap.h"
#include "intDataStructures/IntUtil.h"
using namespace progression;
typedef std::vector<int> V;
static int C(int v) { return sym_concretize_int(v); }
static int opc(int k, int n) { return C(sym_int_i("op", k, 0, n - 1)); }
static int elem(int k, int n) { return sym_int_i("x", k, 0, n - 1); }
template <class Fn> static V iterate(int first, Fn next, int cap) { V r; for (int i = first; i >= 0; i = next()) { sym_assert((int)r.size() < cap, "iteration yields too many elements"); r.push_back(i); } return r; }
template <class S> static void sameSet(S &s, const V &ref, bool ordered) {     // ref: membership per element
  int n = ref.size(), c = 0; for (int b : ref) c += b;
  sym_assert(s.getSize() == c, "size"); sym_assert(s.isEmpty() == (c == 0), "emptiness test");
  for (int i = 0; i < n; i++) sym_assert(s.get(i) == (bool)ref[i], "membership");
  V it = iterate(s.getFirst(), [&] { return s.getNext(); }, n); V seen(n, 0);
  for (size_t i = 0; i < it.size(); i++) { sym_assert(it[i] >= 0 && it[i] < n && !seen[it[i]]++, "iteration repeats an element"); if (ordered && i) sym_assert(it[i - 1] < it[i], "iteration order"); }
  for (int i = 0; i < n; i++) sym_assert(seen[i] == ref[i], "iteration differs from the elements");
}
static void noDel(int n, int ops) {
  noDelIntSet a, b; a.init(n); b.init(n); V ra(n, 0), rb(n, 0);
  for (int k = 0; k < ops; k++) { int o = opc(k, 4); if (o == 3) { a.clear(); ra.assign(n, 0); continue; } int x = C(elem(k, n)); if (o == 0) { a.insert(x); ra[x] = 1; } else if (o == 1) { b.insert(x); rb[x] = 1; } else { a.insert(x); b.insert(x); ra[x] = rb[x] = 1; } }
  sameSet(a, ra, false); sameSet(b, rb, false); a.sort(); sameSet(a, ra, true);
  noDelIntSet *c = a.clone(); sameSet(*c, ra, false);
  V u(n), in(n), mi(n); for (int i = 0; i < n; i++) { u[i] = ra[i] | rb[i]; in[i] = ra[i] & rb[i]; mi[i] = ra[i] & !rb[i]; }
  sameSet(*a.setUnion(&b), u, false); sameSet(*a.setIntersection(&b), in, false); sameSet(*a.setMinus(&b), mi, false);
  noDelIntSet r; r.init(n); r.insert(n - 1); a.setUnion(&r, &b); sameSet(r, u, false); a.setIntersection(&r, &b); sameSet(r, in, false); a.setMinus(&r, &b); sameSet(r, mi, false);
  sameSet(a, ra, true); sameSet(b, rb, false);
}
static void bucket(int n, int ops) {
  bucketSet a; a.init(n); V r(n, 0);
  for (int k = 0; k < ops; k++) { int o = opc(k, 3); if (o == 2) { a.clear(); r.assign(n, 0); sameSet(a, r, true); continue; } int x = C(elem(k, n)); if (o == 0) { a.insert(x); r[x] = 1; } else { a.erase(x); r[x] = 0; } }
  sameSet(a, r, true);
  V before = r, del(n); for (int i = 0; i < n; i++) del[i] = C(sym_int_i("del", i, 0, 1));      // erase some elements while iterating
  V it; for (int i = a.getFirst(); i >= 0; i = a.getNext()) { sym_assert((int)it.size() < n, "iteration yields too many elements"); it.push_back(i); if (del[i]) { a.erase(i); r[i] = 0; } }
  V seen(n, 0); for (int i : it) seen[i] = 1; for (int i = 0; i < n; i++) sym_assert(seen[i] == before[i], "iterating while erasing the current element skips an element");
  sameSet(a, r, true);
  V out = iterate(a.removeFirst(), [&] { return a.removeNext(); }, n); V got(n, 0); for (int i : out) got[i]++;
  for (int i = 0; i < n; i++) sym_assert(got[i] == r[i], "removing all elements one by one"); sameSet(a, V(n, 0), true);
}
static void bint(int n, int ops) {
  bIntSet a; a.init(n); V r(n, 0);
  for (int k = 0; k < ops; k++) { int o = opc(k, 4); if (o == 3) { a.clear(); r.assign(n, 0); continue; } int x = C(elem(k, n)); if (o == 0) { a.insert(x); r[x] = 1; } else if (o == 1) { a.append(x); a.sortSet(); r[x] = 1; } else { a.erase(x); r[x] = 0; } }
  sameSet(a, r, true);
}
static void delIter(int n, int ops) {
  delIterIntSet a; a.init(n); V r(n, 0), order;
  for (int k = 0; k < ops; k++) { int x = C(elem(k, n)); a.insert(x); if (!r[x]) order.push_back(x); r[x] = 1; }
  sameSet(a, r, false);
  V del(n); for (int i = 0; i < n; i++) del[i] = C(sym_int_i("del", i, 0, 1));
  V seen(n, 0), before = r; int i = a.getFirst(); for (int g = 0; i >= 0; g++) { sym_assert(g < n && !seen[i], "iteration repeats an element"); seen[i] = 1; if (del[i]) { r[i] = 0; i = a.delCurrentGetNext(); } else i = a.getNext(); }
  for (int j = 0; j < n; j++) sym_assert(seen[j] == before[j], "iteration with deletion skips an element");
  sameSet(a, r, false); a.clear(); sameSet(a, V(n, 0), false);
  int x = C(sym_int("again", 0, n - 1)); a.insert(x); V q(n, 0); q[x] = 1; sameSet(a, q, false);
}
template <class S> static void stack(int cap, int ops) {        // the elements are arbitrary non-negative integers
  S s; s.init(cap); V r;
  for (int k = 0; k < ops; k++) {
    int o = opc(k, 3);
    if (o == 2) { s.clear(); r.clear(); } else if (o == 1) { int e = r.empty() ? -1 : r.back(); if (!r.empty()) r.pop_back(); sym_assert(s.pop() == e, "pop"); }
    else { int v = sym_int_i("v", k, 0, INT_MAX); s.push(v); r.push_back(v); }
    sym_assert(s.getSize() == (int)r.size() && s.isEmpty() == r.empty(), "size");
  }
  size_t i = 0; for (int x = r.empty() ? s.getFirst() : (s.getFirst(), r[0]), y = s.getFirst(); i < r.size(); i++) { sym_assert(y == r[i], "iteration"); y = s.getNext(); if (i + 1 == r.size()) sym_assert(y == -1, "end of the iteration"); (void)x; }
  if (r.empty()) sym_assert(s.getFirst() == -1, "iteration of the empty stack");
}
static void heap(int cap, int ops) {                          // keys -3..12
  IntPairHeap<int> h(cap); V key, in; int n = 0;
  for (int k = 0; k < ops || n > 0; k++) {
    int o = k >= ops ? 1 : opc(k, 2); if (k < ops && o == 1 && n == 0) { sym_assert(h.isEmpty(), "emptiness"); continue; }
    if (o == 0) { key.push_back(sym_int_i("key", k, -3, 12)); in.push_back(1); h.add(key.back(), key.size() - 1); n++; }
    else {
      int v = h.topVal(); sym_assert(v >= 0 && v < (int)in.size() && in[v], "top is not an element of the heap"); int kk = h.topKey(); sym_assert(kk == key[v], "the key of the top element");
      int ok = 1; for (size_t i = 0; i < in.size(); i++) if (in[i]) ok &= kk <= key[i]; sym_assert(ok, "top is not a smallest element");
      h.pop(); in[v] = 0; n--;
    }
    sym_assert(h.size() == n && h.isEmpty() == (n == 0), "size");
  }
  h.clear(); sym_assert(h.isEmpty() && h.size() == 0, "clear");
}
static void util(int n, bool setOnly) {
  IntUtil u; V a(n); for (int i = 0; i < n; i++) a[i] = setOnly ? sym_int_i("v", i, 0, n) : sym_int_i("v", i, n > 3 ? -n : INT_MIN, n > 3 ? n : INT_MAX);
  int q = setOnly ? sym_int("q", -1, n + 1) : sym_int("q", n > 3 ? -n : INT_MIN, n > 3 ? n : INT_MAX);
  auto count = [&](int *b, int k, int x) { int c = 0; for (int i = 0; i < k; i++) c += b[i] == x; return c; };
  V s = a; int srt = 1; for (int i = 1; i < n; i++) srt &= a[i - 1] <= a[i];
  sym_assert(u.isSorted(s.data(), n) == srt, "isSorted");
  u.sort(s.data(), 0, n - 1);
  int bad = 0; for (int i = 1; i < n; i++) bad |= s[i - 1] > s[i]; sym_assert(!bad, "sort does not sort");
  for (int i = 0; i < n; i++) bad |= count(s.data(), n, a[i]) != count(a.data(), n, a[i]); sym_assert(!bad, "sort changes the elements");
  int in = count(a.data(), n, q) > 0; int ix = u.indexOf(s.data(), 0, n - 1, q);
  sym_assert((ix >= 0) == in, "indexOf"); if (ix >= 0) { sym_assert(ix < n && s[ix] == q, "indexOf yields a wrong position"); }
  sym_assert(u.containsInt(s.data(), 0, n - 1, q) == in, "containsInt");
  if (setOnly) {
    V t = a; int k = u.makeSet(t.data(), n); for (int i = 1; i < k; i++) bad |= t[i - 1] >= t[i]; sym_assert(k <= n && !bad, "makeSet is not strictly sorted");
    for (int i = 0; i < n; i++) bad |= count(t.data(), k, a[i]) != 1; for (int i = 0; i < k; i++) bad |= count(a.data(), n, t[i]) == 0; sym_assert(!bad, "makeSet changes the elements");
    if (count(a.data(), n, q) == 1) { int *c = u.copyExcluding(a.data(), n, q); int j = 0; for (int i = 0; i < n; i++) if (a[i] != q) bad |= c[j++] != a[i]; sym_assert(!bad && j == n - 1, "copyExcluding"); }
  }
}
extern "C" void harness_main(int argc, char **argv) {
  std::string kind = argv[0]; int n = atoi(argv[1]), ops = argc > 2 ? atoi(argv[2]) : 0;
  if (kind == "noDel") noDel(n, ops); else if (kind == "bucket") bucket(n, ops); else if (kind == "bint") bint(n, ops); else if (kind == "delIter") delIter(n, ops);
  else if (kind == "stack") stack<IntStack>(n, ops); else if (kind == "flex") stack<FlexIntStack>(n, ops); else if (kind == "heap") heap(n, ops);
  else if (kind == "util") util(n, false); else if (kind == "utilset") util(n, true); else abort();
  sym_reach();
}
