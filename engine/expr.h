// Symbolic expressions: hash-consed DAG over bit-vectors.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <cassert>

typedef unsigned __int128 u128;

enum Kind : uint8_t {
  K_Const, K_Var,
  K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
  K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
  K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
  K_Concat, K_Extract, K_ZExt, K_SExt, K_Ite,
  // floating point over bit-vector patterns (w = 32 or 64)
  K_FAdd, K_FSub, K_FMul, K_FDiv, K_FSqrt,
  K_FOlt, K_FOle, K_FOeq, K_FUno,          // -> w 1
  K_FExt, K_FTrunc, K_SIToFP, K_UIToFP, K_FPToSI, K_FPToUI, K_FRnd /*aux: rounding 0 floor 1 ceil 2 trunc 3 nearest-away 4 nearest-even*/
};

typedef std::vector<uint32_t> VarSet;   // sorted

struct Expr {
  uint8_t k;
  uint16_t w;
  uint32_t id;
  uint32_t aux;      // extract low bit / var index
  uint64_t v;        // constant value (w <= 64)
  const Expr *a, *b, *c;
  mutable const VarSet *vs;
};
typedef const Expr *E;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sextv(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ULL << (w - 1);
  return (int64_t)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; bool uninit; uint64_t max = ~0ULL; };
extern std::vector<VarInfo> g_vars;

E mkConst(uint64_t v, unsigned w);        // any w; wide zero-extended
E mkVar(const std::string &name, unsigned w, bool uninit = false, uint64_t max = ~0ULL);
E mkBin(Kind k, E a, E b);
E mkNot(E a);                              // w==1
E mkBNot(E a);                             // bitwise
E mkEq(E a, E b);
E mkNe(E a, E b);
E mkCmp(Kind k, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E t, E f);
E mkAnd(E a, E b);                         // bool
E mkOr(E a, E b);
E mkFP(Kind k, unsigned w, E a, E b = nullptr, unsigned aux = 0);

inline bool isC(E e) { return e->k == K_Const; }
inline bool isTrue(E e) { return e->k == K_Const && e->w == 1 && e->v == 1; }
inline bool isFalse(E e) { return e->k == K_Const && e->w == 1 && e->v == 0; }

const VarSet &varsOf(E e);
bool hasUninit(E e);
struct Range { uint64_t lo, hi; };
Range rangeOf(E e);                       // unsigned interval, w <= 64

// concrete evaluation under an assignment (index = variable index; missing = 0)
struct Model { std::vector<uint64_t> val; uint64_t get(uint32_t i) const { return i < val.size() ? val[i] : 0; } };
u128 evalE(E e, const Model &m);

u128 foldFP(Kind k, unsigned w, unsigned wa, uint64_t a, uint64_t b, unsigned aux);
size_t exprCount();
std::string toStr(E e, int depth = 6);
