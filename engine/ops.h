// Shared by the pass, the runtime and the explorer.
#pragma once
#include <stdint.h>
#define SYM_SHADOW_BASE 0x100000000000ull
#define SYM_ADDR_LIMIT 0x400000000ull
enum Op { O_CONST = 0, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_NOT, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_NOPS };
enum Pred { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
enum Intr { I_SMAX, I_SMIN, I_UMAX, I_UMIN, I_ABS, I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_BITREV, I_SADDO, I_UADDO, I_SSUBO, I_USUBO, I_SMULO, I_UMULO,
  I_UADDSAT, I_USUBSAT, I_SADDSAT, I_SSUBSAT };

#define SYM_MAX_NODES (1u << 21)
#define SYM_MAX_BRANCH (1u << 17)
#define SYM_MAX_VARS 192

struct Node {
  uint8_t op, width, fixed, pad;
  uint32_t a, b, c;     // children; for EXTRACT: b = low bit
  uint64_t cval;        // value under the current input
  uint64_t aux;         // CONST value; VAR key
  uint64_t hash;
  int64_t lo, hi;       // signed interval
};
struct Branch { uint32_t node; uint8_t taken, kind; uint16_t pad; };
struct VarRec { uint64_t key; int64_t lo, hi; uint64_t val; uint32_t node; uint8_t width; char name[39]; };
enum Status { ST_RUNNING = 0, ST_DONE = 1, ST_VIOL = 2, ST_ASSUME = 3, ST_LIMIT = 4, ST_EXIT = 5 };

struct Arena {
  // input of the run
  uint32_t nIn; uint32_t inPad;
  struct { uint64_t key, val; } in[SYM_MAX_VARS];
  uint32_t witnessMode;       // 1: sym_reach() counts as violation (vacuity twin)
  // output of the run
  volatile uint32_t status;
  char msg[1024];
  uint32_t nNodes, nBranches, nVars;
  uint32_t lost;              // concretisations without fork (soundness gaps)
  uint32_t reached;           // number of sym_reach() hits
  uint32_t extScan;           // external calls that saw symbolic bytes
  uint64_t notes[16];
  char lostWhere[128];
  VarRec vars[SYM_MAX_VARS];
  Branch br[SYM_MAX_BRANCH];
  Node nodes[SYM_MAX_NODES];
};
