// trie KIND SEQS BLOCKS BITSET: the tries of the visited list (P09). Sequences of up to BLOCKS 64-bit words with symbolic
// contents, lengths and padding are inserted; equal ones must share their payload, different ones must not.
#include "hapi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "flags.h"
#include "intDataStructures/CompressedSequenceSet.h"
#include "intDataStructures/HashTable.h"
#include "intDataStructures/SequenceSet.h"
typedef std::vector<uint64_t> S;
static int C(int v) { return sym_concretize_int(v); }
struct CTrie { compressed_sequence_trie *t = nullptr; long get(const S &s, int pad, long v) { void **p = nullptr; if (!t) t = new compressed_sequence_trie(s, pad, p); else t->insert(s, pad, p); sym_assert(p, "no payload"); if (!*p) *p = (void *)v; return (long)*p; } void done() { delete t; } };
struct STrie { sequence_trie *t = nullptr; long get(const S &s, int pad, long v) { payloadType *p = nullptr; if (!t) t = new sequence_trie(s, pad, p); else t->insert(s, pad, p); sym_assert(p, "no payload"); if (!*p) *p = v; return *p; } void done() { delete t; } };
template <class T> static void run(int k, int blocks, const std::vector<int> &bits, const std::vector<int> &pads) {
  std::vector<S> seq; std::vector<int> pad;
  for (int i = 0; i < k; i++) {
    int len = C(sym_int_i("len", i, 1, blocks)); int p = pads[C(sym_int_i("pad", i, 0, pads.size() - 1))]; S s;
    for (int b = 0; b < len; b++) {
      uint64_t w = 0;
      if (bits.empty()) { uint64_t lo = (uint32_t)sym_int_i("lo", i * 4 + b, -2147483647 - 1, 2147483647), hi = (uint32_t)sym_int_i("hi", i * 4 + b, -2147483647 - 1, 2147483647); w = lo | hi << 32; }
      else { int v = sym_int_i("w", i * 4 + b, 0, (1 << bits.size()) - 1); for (size_t j = 0; j < bits.size(); j++) w |= (uint64_t)(v >> j & 1) << bits[j]; }
      if (b == len - 1 && p) w &= (uint64_t(1) << (64 - p)) - 1;
      s.push_back(w);
    }
    seq.push_back(s); pad.push_back(p);
  }
  T t; std::vector<long> id(k);
  for (int i = 0; i < k; i++) {
    // the first equal sequence
    long want = i + 1; for (int j = i - 1; j >= 0; j--) if (seq[i].size() == seq[j].size() && pad[i] == pad[j]) { long e = 1; for (size_t b = 0; b < seq[i].size(); b++) e &= seq[i][b] == seq[j][b]; want = want + (j + 1 - want) * e; }
    long got = t.get(seq[i], pad[i], i + 1); id[i] = want;
    sym_assert(got == want, "a sequence shares its entry with a different one, or does not find its own");
  }
  for (int i = 0; i < k; i++) sym_assert(t.get(seq[i], pad[i], 99) == id[i], "an entry is lost after later insertions");
  for (int i = 0; i < k; i++) sym_assert(t.get(seq[i], pad[i], 99) == id[i], "looking up changes an entry");
  t.done();
}
static void table(int n) {
  hash_table h(n); std::vector<void **> p(n, nullptr); int a = sym_int("a", 0, 1 << 30), b = sym_int("b", 0, 1 << 30);
  void **x = h.get(C(a % n)), **y = h.get(C(b % n)); sym_assert(h.get(C(a % n)) == x, "lookup"); sym_assert(!*x && !*y, "fresh table"); sym_assert((x == y) == (a % n == b % n), "buckets");
  *x = (void *)1; sym_assert(x == y || !*y, "buckets overlap");
}
extern "C" void harness_main(int argc, char **argv) {
  std::string kind = argv[0]; int k = atoi(argv[1]), blocks = argc > 2 ? atoi(argv[2]) : 1, bs = argc > 3 ? atoi(argv[3]) : 0;
  std::vector<int> bits, pads;
  if (bs == 0) { bits = {0, 1, 31, 62, 63}; pads = {0, 1, 33, 63}; }
  else if (bs == 1) { bits = {0, 1, 2, 30, 31, 32, 61, 62, 63}; pads = {0, 1, 2, 31, 32, 33, 62, 63}; }
  else if (bs == 3) { bits = {0, 63}; pads = {0, 1}; }
  else { for (int i = 0; i < 64; i++) pads.push_back(i); }        // every padding, arbitrary words
  if (kind == "c") run<CTrie>(k, blocks, bits, pads); else if (kind == "s") run<STrie>(k, blocks, bits, pads); else table(k);
  sym_reach();
}
