// smaller initial CUDD tables (they grow on demand), so that every path starts fast
extern "C" {
struct DdManager;
DdManager *__real_Cudd_Init(unsigned, unsigned, unsigned, unsigned, unsigned long);
DdManager *__wrap_Cudd_Init(unsigned v, unsigned z, unsigned s, unsigned c, unsigned long m) { return __real_Cudd_Init(v, z, s < 256 ? s : 256, c < 4096 ? c : 4096, m ? m : 64ul << 20); }
}
