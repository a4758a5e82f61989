#include "expr.h"
#include <cstring>
#include <cmath>
#include <cstdlib>
#include <algorithm>
#include <cstdio>
#include <unordered_map>

std::vector<VarInfo> g_vars;

// ---------------------------------------------------------------- hash consing
static std::vector<E> table(1 << 16, nullptr);
static size_t count = 0;
size_t exprCount() { return count; }

static inline uint64_t hmix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
static inline uint64_t hashOf(uint8_t k, uint16_t w, uint32_t aux, uint64_t v, E a, E b, E c) {
  uint64_t h = k * 1315423911u + w;
  h = hmix(h, aux); h = hmix(h, v);
  h = hmix(h, a ? a->id + 1 : 0); h = hmix(h, b ? b->id + 1 : 0); h = hmix(h, c ? c->id + 1 : 0);
  return h ^ (h >> 29);
}
static char *arena = nullptr; static size_t arenaLeft = 0;
static Expr *allocExpr() {
  if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 16384; arena = (char *)malloc(arenaLeft); }
  Expr *e = (Expr *)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e;
}
static E intern(uint8_t k, unsigned w, uint32_t aux, uint64_t v, E a, E b, E c) {
  uint64_t h = hashOf(k, w, aux, v, a, b, c);
  size_t m = table.size() - 1;
  for (size_t i = h & m;; i = (i + 1) & m) {
    E e = table[i];
    if (!e) break;
    if (e->k == k && e->w == w && e->aux == aux && e->v == v && e->a == a && e->b == b && e->c == c) return e;
  }
  if (count * 2 > table.size()) {
    std::vector<E> old; old.swap(table); table.assign(old.size() * 2, nullptr);
    size_t mm = table.size() - 1;
    for (E e : old) if (e) {
      size_t i = hashOf(e->k, e->w, e->aux, e->v, e->a, e->b, e->c) & mm;
      while (table[i]) i = (i + 1) & mm;
      table[i] = e;
    }
    m = mm;
  }
  Expr *n = allocExpr();
  n->k = k; n->w = w; n->aux = aux; n->v = v; n->a = a; n->b = b; n->c = c; n->vs = nullptr; n->id = count++;
  size_t i = h & m; while (table[i]) i = (i + 1) & m;
  table[i] = n;
  return n;
}

static E smallConst[65][260];
E mkConst(uint64_t v, unsigned w) {
  if (w > 64) return intern(K_ZExt, w, 0, 0, mkConst(v, 64), nullptr, nullptr);
  v &= maskw(w);
  if (v < 260) { E &s = smallConst[w][v]; if (!s) s = intern(K_Const, w, 0, v, nullptr, nullptr, nullptr); return s; }
  return intern(K_Const, w, 0, v, nullptr, nullptr, nullptr);
}
E mkVar(const std::string &name, unsigned w, bool uninit, uint64_t max) {
  g_vars.push_back({name, w, uninit, max});
  return intern(K_Var, w, (uint32_t)g_vars.size() - 1, 0, nullptr, nullptr, nullptr);
}
E mkNot(E a) {
  if (isC(a)) return mkConst(!a->v, 1);
  if (a->k == K_Xor && isC(a->b) && a->w == 1) return a->a;   // xor x,1
  switch (a->k) {
  case K_Ult: return mkCmp(K_Ule, a->b, a->a);
  case K_Ule: return mkCmp(K_Ult, a->b, a->a);
  case K_Slt: return mkCmp(K_Sle, a->b, a->a);
  case K_Sle: return mkCmp(K_Slt, a->b, a->a);
  default: break;
  }
  return intern(K_Xor, 1, 0, 0, a, mkConst(1, 1), nullptr);
}
E mkBNot(E a) { return mkBin(K_Xor, a, a->w <= 64 ? mkConst(~0ULL, a->w) : mkSExt(mkConst(1, 1), a->w)); }
E mkAnd(E a, E b) { return mkBin(K_And, a, b); }
E mkOr(E a, E b) { return mkBin(K_Or, a, b); }
E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }

static uint64_t foldBin(Kind k, unsigned w, uint64_t a, uint64_t b) {
  switch (k) {
  case K_Add: return a + b; case K_Sub: return a - b; case K_Mul: return a * b;
  case K_UDiv: return b ? a / b : maskw(w);
  case K_URem: return b ? a % b : a;
  case K_SDiv: { int64_t x = sextv(a, w), y = sextv(b, w); if (!y) return x < 0 ? 1 : maskw(w); if (y == -1) return (uint64_t)0 - (uint64_t)x; return x / y; }
  case K_SRem: { int64_t x = sextv(a, w), y = sextv(b, w); if (!y) return x; if (y == -1) return 0; return x % y; }
  case K_And: return a & b; case K_Or: return a | b; case K_Xor: return a ^ b;
  case K_Shl: return b >= w ? 0 : a << b;
  case K_LShr: return b >= w ? 0 : a >> b;
  case K_AShr: return b >= w ? (sextv(a, w) < 0 ? ~0ULL : 0) : (uint64_t)(sextv(a, w) >> b);
  default: abort();
  }
}
static bool commut(Kind k) { return k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq; }

E mkBin(Kind k, E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (isC(a) && isC(b)) return mkConst(foldBin(k, w, a->v, b->v), w);
  if (commut(k) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (isC(b)) {
    uint64_t v = b->v;
    switch (k) {
    case K_Add: if (v == 0) return a;
      if (a->k == K_Add && isC(a->b)) return mkBin(K_Add, a->a, mkConst(a->b->v + v, w));
      break;
    case K_Sub: if (v == 0) return a; return mkBin(K_Add, a, mkConst(0 - v, w));
    case K_Mul: if (v == 0) return b; if (v == 1) return a;
      if (a->k == K_Mul && isC(a->b)) return mkBin(K_Mul, a->a, mkConst(a->b->v * v, w));
      if (w > 1 && (v & (v - 1)) == 0) return mkBin(K_Shl, a, mkConst(__builtin_ctzll(v), w));
      break;
    case K_UDiv: if (v == 1) return a; if (v && (v & (v - 1)) == 0) return mkBin(K_LShr, a, mkConst(__builtin_ctzll(v), w)); break;
    case K_URem: if (v && (v & (v - 1)) == 0) return mkBin(K_And, a, mkConst(v - 1, w)); break;
    case K_And: if (v == 0) return b; if (v == maskw(w)) return a;
      if (a->k == K_And && isC(a->b)) return mkBin(K_And, a->a, mkConst(a->b->v & v, w));
      // mask of low bits -> zext(extract)
      if ((v & (v + 1)) == 0) { unsigned n = __builtin_popcountll(v); return mkZExt(mkExtract(a, 0, n), w); }
      if (a->k == K_ZExt && w <= 64) { unsigned iw = a->a->w; if ((v >> iw) == 0 || iw >= 64) return mkZExt(mkBin(K_And, a->a, mkConst(v, iw)), w); return mkZExt(mkBin(K_And, a->a, mkConst(v & maskw(iw), iw)), w); }
      if (a->k == K_Concat) return mkConcat(mkBin(K_And, a->a, mkConst(v >> a->b->w, a->a->w)), mkBin(K_And, a->b, mkConst(v, a->b->w)));
      break;
    case K_Or: if (v == 0) return a; if (v == maskw(w)) return b;
      if (a->k == K_Concat) return mkConcat(mkBin(K_Or, a->a, mkConst(v >> a->b->w, a->a->w)), mkBin(K_Or, a->b, mkConst(v, a->b->w)));
      break;
    case K_Xor: if (v == 0) return a; if (w == 1) return mkNot(a);
      if (a->k == K_Xor && isC(a->b)) return mkBin(K_Xor, a->a, mkConst(a->b->v ^ v, w));
      break;
    case K_Shl: if (v == 0) return a; if (v >= w) return mkConst(0, w);
      return mkConcat(mkExtract(a, 0, w - v), mkConst(0, v));
    case K_LShr: if (v == 0) return a; if (v >= w) return mkConst(0, w);
      return mkZExt(mkExtract(a, v, w - v), w);
    case K_AShr: if (v == 0) return a; if (v >= w) v = w - 1;
      return mkSExt(mkExtract(a, v, w - v), w);
    default: break;
    }
  } else if (w > 64 && b->k == K_ZExt && isC(b->a) && (k == K_Shl || k == K_LShr || k == K_AShr)) {
    uint64_t v = b->a->v;
    if (v == 0) return a;
    if (k == K_AShr) { if (v >= w) v = w - 1; return mkSExt(mkExtract(a, v, w - v), w); }
    if (v >= w) return mkConst(0, w);
    if (k == K_Shl) { E lo = mkConst(0, v); return mkConcat(mkExtract(a, 0, w - v), lo); }
    return mkZExt(mkExtract(a, v, w - v), w);
  }
  if (isC(a)) {
    if (a->v == 0 && (k == K_Shl || k == K_LShr || k == K_AShr || k == K_UDiv || k == K_URem || k == K_SRem || k == K_SDiv)) {
      if (k == K_Shl || k == K_LShr || k == K_AShr) return a;
    }
  }
  if (a == b) {
    switch (k) {
    case K_Sub: case K_Xor: return mkConst(0, w);
    case K_And: case K_Or: return a;
    default: break;
    }
  }
  if (w == 1) {
    if (k == K_And) {
      if (b->k == K_Xor && isC(b->b) && b->a == a) return mkConst(0, 1);
      if (a->k == K_Xor && isC(a->b) && a->a == b) return mkConst(0, 1);
    }
    if (k == K_Or) {
      if (b->k == K_Xor && isC(b->b) && b->a == a) return mkConst(1, 1);
      if (a->k == K_Xor && isC(a->b) && a->a == b) return mkConst(1, 1);
    }
    if (k == K_Add || k == K_Sub) return mkBin(K_Xor, a, b);
    if (k == K_Mul) return mkBin(K_And, a, b);
  }
  // or/xor/add of disjoint zext / concat-zero
  if (k == K_Or || k == K_Add || k == K_Xor) {
    for (int s = 0; s < 2; s++) {
      E x = s ? b : a, y = s ? a : b;
      if (x->k == K_Concat && isC(x->b) && x->b->v == 0) {
        unsigned lw = x->b->w;
        if (y->k == K_ZExt && y->a->w <= lw) return mkConcat(x->a, mkZExt(y->a, lw));
        if (y->k == K_Concat && y->b->w == lw && k != K_Add) return mkConcat(mkBin(k, x->a, y->a), y->b);
        if (y->k == K_ZExt && k != K_Add && y->a->w > lw) { return mkConcat(mkBin(k, x->a, mkExtract(y, lw, w - lw)), mkExtract(y, 0, lw)); }
      }
    }
    if (k != K_Add && a->k == K_Concat && b->k == K_Concat && a->b->w == b->b->w) return mkConcat(mkBin(k, a->a, b->a), mkBin(k, a->b, b->b));
    if (k != K_Add && a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkZExt(mkBin(k, a->a, b->a), w);
  }
  // a remainder needs no more bits than its operands
  if (k == K_URem && w <= 64) {
    uint64_t h = std::max(rangeOf(a).hi, rangeOf(b).hi); unsigned n = h ? 64 - __builtin_clzll(h) : 1;
    if (n < w) return mkZExt(mkBin(K_URem, mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
  }
  if (k == K_And && a->k == K_ZExt && b->k == K_ZExt && a->a->w == b->a->w) return mkZExt(mkBin(k, a->a, b->a), w);
  if (k == K_Sub && isC(a) && b->k == K_Xor && isC(b->b) && b->b->v == maskw(w)) return mkBin(K_Add, b->a, mkConst(a->v + 1, w));
  if (k == K_Sub && b->k == K_Const) return mkBin(K_Add, a, mkConst(0 - b->v, w));
  // (x + c) - x
  if (k == K_Sub && a->k == K_Add && isC(a->b) && a->a == b) return a->b;
  if (k == K_Sub && a->k == K_Add && b->k == K_Add && isC(a->b) && isC(b->b) && a->a == b->a) return mkConst(a->b->v - b->b->v, w);
  if (k == K_Sub && b->k == K_Add && isC(b->b) && b->a == a) return mkConst(0 - b->b->v, w);
  // ite with constants
  if (isC(b) && a->k == K_Ite && (isC(a->b) || isC(a->c)) && k != K_Concat)
    return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
  return intern(k, w, 0, 0, a, b, nullptr);
}

// unsigned interval of a term, computed bottom-up (memoised)
static std::vector<std::pair<bool, Range>> rmemo;
Range rangeOf(E e) {
  unsigned w = e->w; uint64_t m = maskw(w);
  if (w > 64) return {0, ~0ULL};
  if (e->k == K_Const) return {e->v, e->v};
  if (e->k == K_Var) return {0, std::min(m, g_vars[e->aux].max)};
  if (e->id < rmemo.size() && rmemo[e->id].first) return rmemo[e->id].second;
  Range r{0, m};
  auto R = [](E x) { return rangeOf(x); };
  switch (e->k) {
  case K_Add: { Range a = R(e->a), b = R(e->b); u128 h = (u128)a.hi + b.hi; if (h <= m) r = {a.lo + b.lo, (uint64_t)h};
    else if ((u128)a.lo + b.lo > m) r = {(a.lo + b.lo) & m, (uint64_t)(h - m - 1) & m}; break; }
  case K_Sub: { Range a = R(e->a), b = R(e->b); if (a.lo >= b.hi) r = {a.lo - b.hi, a.hi - b.lo}; break; }
  case K_Mul: { Range a = R(e->a), b = R(e->b); u128 h = (u128)a.hi * b.hi; if (h <= m) r = {a.lo * b.lo, (uint64_t)h}; break; }
  case K_UDiv: if (isC(e->b) && e->b->v) { Range a = R(e->a); r = {a.lo / e->b->v, a.hi / e->b->v}; } break;
  case K_URem: { Range a = R(e->a), b = R(e->b); if (b.lo) { r = a.hi < b.lo ? a : Range{0, std::min(a.hi, b.hi - 1)}; } else r = {0, a.hi}; break; }
  case K_And: { Range a = R(e->a), b = R(e->b); r = {0, std::min(a.hi, b.hi)}; break; }
  case K_Xor: if (isC(e->b) && e->b->v == m) { Range a = R(e->a); r = {m - a.hi, m - a.lo}; break; }
  /* fallthrough */
  case K_Or: { Range a = R(e->a), b = R(e->b); uint64_t x = a.hi | b.hi; unsigned n = x ? 64 - __builtin_clzll(x) : 0; r = {e->k == K_Or ? std::max(a.lo, b.lo) : 0, n >= 64 ? ~0ULL : (1ULL << n) - 1}; break; }
  case K_LShr: if (isC(e->b) && e->b->v < 64) { Range a = R(e->a); r = {a.lo >> e->b->v, a.hi >> e->b->v}; } break;
  case K_Shl: if (isC(e->b) && e->b->v < 64) { Range a = R(e->a); if (((u128)a.hi << e->b->v) <= m) r = {a.lo << e->b->v, a.hi << e->b->v}; } break;
  case K_ZExt: r = R(e->a); break;
  case K_SExt: { Range a = R(e->a); if (a.hi < (1ULL << (e->a->w - 1))) r = a; break; }
  case K_Concat: { Range a = R(e->a), b = R(e->b); r = {(a.lo << e->b->w) | b.lo, (a.hi << e->b->w) | b.hi}; break; }
  case K_Extract: if (e->a->w <= 64) { Range a = R(e->a); if (e->aux == 0) { if (a.hi <= m) r = a; } else if ((a.hi >> e->aux) <= m) r = {a.lo >> e->aux, a.hi >> e->aux}; } break;
  case K_Ite: { Range a = R(e->b), b = R(e->c); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
  default: break;
  }
  if (rmemo.size() <= e->id) rmemo.resize(e->id + e->id / 2 + 1024);
  rmemo[e->id] = {true, r};
  return r;
}
E mkEq(E a, E b) {
  assert(a->w == b->w);
  if (a == b) return mkConst(1, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(a) && isC(b)) return mkConst(a->v == b->v, 1);
  if (isC(b)) {
    unsigned w = a->w; uint64_t v = b->v;
    if (w == 1) return v ? a : mkNot(a);
    switch (a->k) {
    case K_ZExt: if (v >> a->a->w) return mkConst(0, 1); return mkEq(a->a, mkConst(v, a->a->w));
    case K_SExt: { uint64_t t = v & maskw(a->a->w); if ((((uint64_t)sextv(t, a->a->w)) & maskw(w)) != v) return mkConst(0, 1); return mkEq(a->a, mkConst(t, a->a->w)); }
    case K_Concat: return mkAnd(mkEq(a->a, mkConst(v >> a->b->w, a->a->w)), mkEq(a->b, mkConst(v, a->b->w)));
    case K_Ite:
      if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
      break;
    case K_Add: if (isC(a->b)) return mkEq(a->a, mkConst(v - a->b->v, w)); break;
    case K_Xor: if (isC(a->b)) return mkEq(a->a, mkConst(v ^ a->b->v, w)); break;
    case K_Sub: if (v == 0) return mkEq(a->a, a->b); if (isC(a->a)) return mkEq(a->b, mkConst(a->a->v - v, w)); break;
    default: break;
    }
  } else {
    if (a->k == K_ZExt && b->k == K_ZExt) {
      if (a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->a->w < b->a->w) return mkEq(mkZExt(a->a, b->a->w), b->a);
      return mkEq(a->a, mkZExt(b->a, a->a->w));
    }
    if (a->k == K_Concat && b->k == K_Concat && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
    if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
  }
  if (a->w <= 64) { Range x = rangeOf(a), y = rangeOf(b); if (x.hi < y.lo || y.hi < x.lo) return mkConst(0, 1); }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return intern(K_Eq, 1, 0, 0, a, b, nullptr);
}

E mkCmp(Kind k, E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  if (isC(a) && isC(b)) {
    switch (k) {
    case K_Ult: return mkConst(a->v < b->v, 1);
    case K_Ule: return mkConst(a->v <= b->v, 1);
    case K_Slt: return mkConst(sextv(a->v, w) < sextv(b->v, w), 1);
    case K_Sle: return mkConst(sextv(a->v, w) <= sextv(b->v, w), 1);
    default: abort();
    }
  }
  if (a == b) return mkConst(k == K_Ule || k == K_Sle, 1);
  if (w == 1) {
    if (k == K_Ult) return mkAnd(mkNot(a), b);
    if (k == K_Ule) return mkOr(mkNot(a), b);
    if (k == K_Slt) return mkAnd(a, mkNot(b));
    if (k == K_Sle) return mkOr(a, mkNot(b));
  }
  if (k == K_Ult) { E x = a; while (x->k == K_ZExt) x = x->a; if (x->k == K_URem && mkZExt(x->b, w) == b) return mkNe(b, mkConst(0, w)); }   // x % y < y
  if (k == K_Ult) {
    if (isC(b) && b->v == 0) return mkConst(0, 1);
    if (isC(b) && b->v == 1) return mkEq(a, mkConst(0, w));
    if (isC(a) && a->v == maskw(w)) return mkConst(0, 1);
    if (isC(a) && a->v == 0) return mkNe(b, a);
  }
  if (k == K_Ule) {
    if (isC(a) && a->v == 0) return mkConst(1, 1);
    if (isC(b) && b->v == maskw(w)) return mkConst(1, 1);
    if (isC(b) && b->v == 0) return mkEq(a, b);
  }
  if (w <= 64) {
    Range x = rangeOf(a), y = rangeOf(b); uint64_t sb = 1ULL << (w - 1);
    if ((k == K_Slt || k == K_Sle) && ((x.hi < sb && y.hi < sb) || (x.lo >= sb && y.lo >= sb))) return mkCmp(k == K_Slt ? K_Ult : K_Ule, a, b);
    if ((k == K_Slt || k == K_Sle) && x.hi < sb && y.lo >= sb) return mkConst(0, 1);
    if ((k == K_Slt || k == K_Sle) && x.lo >= sb && y.hi < sb) return mkConst(1, 1);
    if (k == K_Ult) { if (x.hi < y.lo) return mkConst(1, 1); if (x.lo >= y.hi) return mkConst(0, 1); }
    if (k == K_Ule) { if (x.hi <= y.lo) return mkConst(1, 1); if (x.lo > y.hi) return mkConst(0, 1); }
  }
  if (k == K_Slt && isC(b) && b->v == 0 && a->k == K_ZExt) return mkConst(0, 1);
  // zext both / const
  bool za = a->k == K_ZExt, zb = b->k == K_ZExt;
  if (za || zb) {
    Kind uk = (k == K_Slt) ? K_Ult : (k == K_Sle) ? K_Ule : k;
    if (za && zb) {
      unsigned m = std::max(a->a->w, b->a->w);
      return mkCmp(uk, mkZExt(a->a, m), mkZExt(b->a, m));
    }
    if (za && isC(b)) {
      unsigned iw = a->a->w;
      bool neg = (k == K_Slt || k == K_Sle) && sextv(b->v, w) < 0;
      if (neg) return mkConst(0, 1);
      if (b->v > maskw(iw)) return mkConst(1, 1);
      return mkCmp(uk, a->a, mkConst(b->v, iw));
    }
    if (zb && isC(a)) {
      unsigned iw = b->a->w;
      bool neg = (k == K_Slt || k == K_Sle) && sextv(a->v, w) < 0;
      if (neg) return mkConst(1, 1);
      if (a->v > maskw(iw)) return mkConst(0, 1);
      return mkCmp(uk, mkConst(a->v, iw), b->a);
    }
  }
  if (a->k == K_SExt && b->k == K_SExt && a->a->w == b->a->w && (k == K_Slt || k == K_Sle)) return mkCmp(k, a->a, b->a);
  if (isC(b) && a->k == K_Ite && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
  if (isC(a) && b->k == K_Ite && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
  return intern(k, 1, 0, 0, a, b, nullptr);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo) && w <= 64) return mkConst((hi->v << lo->w) | lo->v, w);
  if (isC(hi) && hi->v == 0) return mkZExt(lo, w);
  if (hi->k == K_ZExt && isC(hi->a) && hi->a->v == 0) return mkZExt(lo, w);
  if (hi->k == K_ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->k == K_Extract && lo->k == K_Extract && hi->a == lo->a && hi->aux == lo->aux + lo->w)
    return mkExtract(lo->a, lo->aux, w);
  if (hi->k == K_Extract && hi->a == lo && hi->aux == lo->w) return mkExtract(lo, 0, w); // degenerate, never
  // the low part of a sum may have been narrowed already
  if (hi->k == K_Extract && hi->aux == lo->w && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, w);
  // right-leaning: concat(concat(a,b),c) -> concat(a, concat(b,c))
  if (hi->k == K_Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  // merge hi with head of lo
  if (lo->k == K_Concat) {
    E h = lo->a;
    if (isC(hi) && isC(h) && hi->w + h->w <= 64) return mkConcat(mkConst((hi->v << h->w) | h->v, hi->w + h->w), lo->b);
    if (hi->k == K_Extract && h->k == K_Extract && hi->a == h->a && hi->aux == h->aux + h->w)
      return mkConcat(mkExtract(h->a, h->aux, hi->w + h->w), lo->b);
    if (hi->k == K_Extract && hi->aux == h->w && mkExtract(hi->a, 0, h->w) == h) return mkConcat(mkExtract(hi->a, 0, hi->w + h->w), lo->b);
    }
  // concat of extracts of a sign extension is handled by extract rules
  return intern(K_Concat, w, 0, 0, hi, lo, nullptr);
}
static E mkExtract_(E a, unsigned lo, unsigned w);
static std::unordered_map<uint64_t, E> xmemo;
E mkExtract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w);
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->v >> lo, w);
  if (a->w > 4095 || !(a->k == K_And || a->k == K_Or || a->k == K_Xor || a->k == K_Add || a->k == K_Sub || a->k == K_Mul)) return mkExtract_(a, lo, w);
  uint64_t key = ((uint64_t)a->id << 24) | (lo << 12) | w;      // pushed into shared terms only once
  auto it = xmemo.find(key); if (it != xmemo.end()) return it->second;
  E r = mkExtract_(a, lo, w); xmemo[key] = r; return r;
}
static E mkExtract_(E a, unsigned lo, unsigned w) {
  switch (a->k) {
  case K_Extract: return mkExtract(a->a, a->aux + lo, w);
  case K_Concat: {
    unsigned lw = a->b->w;
    if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->b, lo, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
  }
  case K_ZExt: {
    unsigned iw = a->a->w;
    if (lo >= iw) return mkConst(0, w);
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    return mkZExt(mkExtract(a->a, lo, iw - lo), w);
  }
  case K_SExt: {
    unsigned iw = a->a->w;
    if (lo + w <= iw) return mkExtract(a->a, lo, w);
    if (lo < iw) return mkSExt(mkExtract(a->a, lo, iw - lo), w);
    return mkSExt(mkExtract(a->a, iw - 1, 1), w);
  }
  case K_And: case K_Or: case K_Xor:
    return mkBin((Kind)a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case K_Add: case K_Sub: case K_Mul:
    if (lo == 0) return mkBin((Kind)a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case K_Ite:
    if (isC(a->b) || isC(a->c) || (a->w > w && (a->b->k == K_ZExt || a->c->k == K_ZExt || a->b->k == K_Concat)))
      return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    break;
  default: break;
  }
  return intern(K_Extract, w, lo, 0, a, nullptr, nullptr);
}
E mkZExt(E a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (isC(a) && w <= 64) return mkConst(a->v, w);
  if (a->k == K_ZExt) return mkZExt(a->a, w);
  if (a->k == K_Ite && isC(a->b) && isC(a->c) && w <= 64) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  if (a->k == K_Extract && a->aux == 0 && a->a->w <= 64 && rangeOf(a->a).hi <= maskw(a->w)) return a->a->w <= w ? mkZExt(a->a, w) : mkExtract(a->a, 0, w);
  if (a->k == K_Add && isC(a->b) && w <= 64) {
    Range x = rangeOf(a->a); uint64_t m = maskw(a->w);
    if ((u128)x.hi + a->b->v <= m) return mkBin(K_Add, mkZExt(a->a, w), mkConst(a->b->v, w));
    // adding a negative constant that never borrows
    uint64_t neg = (0 - a->b->v) & m; if (neg && x.lo >= neg) return mkBin(K_Add, mkZExt(a->a, w), mkConst(0 - neg, w));
  }
  return intern(K_ZExt, w, 0, 0, a, nullptr, nullptr);
}
E mkSExt(E a, unsigned w) {
  assert(w >= a->w);
  if (w == a->w) return a;
  if (isC(a) && w <= 64) return mkConst((uint64_t)sextv(a->v, a->w), w);
  if (isC(a) && sextv(a->v, a->w) >= 0) return mkZExt(a, w);
  if (a->k == K_ZExt) return mkZExt(a->a, w);
  if (a->k == K_SExt) return mkSExt(a->a, w);
  if (a->w <= 64 && rangeOf(a).hi < (1ULL << (a->w - 1))) return mkZExt(a, w);
  if (a->k == K_Ite && isC(a->b) && isC(a->c) && w <= 64) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return intern(K_SExt, w, 0, 0, a, nullptr, nullptr);
}
E mkIte(E c, E t, E f) {
  assert(t->w == f->w && c->w == 1);
  if (isC(c)) return c->v ? t : f;
  if (t == f) return t;
  if (t->w == 1) {
    if (isC(t)) return t->v ? mkOr(c, f) : mkAnd(mkNot(c), f);
    if (isC(f)) return f->v ? mkOr(mkNot(c), t) : mkAnd(c, t);
  }
  if (c->k == K_Xor && c->w == 1 && isC(c->b)) return mkIte(c->a, f, t);
  if (t->k == K_Ite && t->a == c) return mkIte(c, t->b, f);
  if (f->k == K_Ite && f->a == c) return mkIte(c, t, f->c);
  if (f->k == K_Ite && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
  if (t->k == K_ZExt && f->k == K_ZExt && t->a->w == f->a->w) return mkZExt(mkIte(c, t->a, f->a), t->w);
  return intern(K_Ite, t->w, 0, 0, c, t, f);
}

// ---------------------------------------------------------------- floating point
template <class F, class U> static F bits2f(uint64_t b) { U u = (U)b; F f; memcpy(&f, &u, sizeof f); return f; }
template <class F, class U> static uint64_t f2bits(F f) { U u; memcpy(&u, &f, sizeof f); return u; }
static double asD(uint64_t v, unsigned w) { return w == 32 ? (double)bits2f<float, uint32_t>(v) : bits2f<double, uint64_t>(v); }

u128 foldFP(Kind k, unsigned w, unsigned wa, uint64_t a, uint64_t b, unsigned aux) {
  switch (k) {
  case K_FAdd: case K_FSub: case K_FMul: case K_FDiv:
    if (w == 32) { float x = bits2f<float, uint32_t>(a), y = bits2f<float, uint32_t>(b); float r = k == K_FAdd ? x + y : k == K_FSub ? x - y : k == K_FMul ? x * y : x / y; return f2bits<float, uint32_t>(r); }
    else { double x = bits2f<double, uint64_t>(a), y = bits2f<double, uint64_t>(b); double r = k == K_FAdd ? x + y : k == K_FSub ? x - y : k == K_FMul ? x * y : x / y; return f2bits<double, uint64_t>(r); }
  case K_FSqrt: return w == 32 ? f2bits<float, uint32_t>(sqrtf(bits2f<float, uint32_t>(a))) : f2bits<double, uint64_t>(sqrt(bits2f<double, uint64_t>(a)));
  case K_FOlt: return asD(a, wa) < asD(b, wa);
  case K_FOle: return asD(a, wa) <= asD(b, wa);
  case K_FOeq: return asD(a, wa) == asD(b, wa);
  case K_FUno: return std::isnan(asD(a, wa)) || std::isnan(asD(b, wa));
  case K_FExt: return f2bits<double, uint64_t>((double)bits2f<float, uint32_t>(a));
  case K_FTrunc: return f2bits<float, uint32_t>((float)bits2f<double, uint64_t>(a));
  case K_SIToFP: { int64_t s = sextv(a, wa); return w == 32 ? f2bits<float, uint32_t>((float)s) : f2bits<double, uint64_t>((double)s); }
  case K_UIToFP: return w == 32 ? f2bits<float, uint32_t>((float)a) : f2bits<double, uint64_t>((double)a);
  case K_FPToSI: { double d = asD(a, wa); if (!(d > -9.3e18 && d < 9.3e18)) return 0x8000000000000000ULL & maskw(w); return (uint64_t)(int64_t)d & maskw(w); }
  case K_FPToUI: { double d = asD(a, wa); if (!(d > -1.0 && d < 1.85e19)) return 0; return (uint64_t)d & maskw(w); }
  case K_FRnd: { double d = asD(a, wa), r = 0; switch (aux) { case 0: r = floor(d); break; case 1: r = ceil(d); break; case 2: r = trunc(d); break; case 3: r = round(d); break; default: r = nearbyint(d); }
    return w == 32 ? f2bits<float, uint32_t>((float)r) : f2bits<double, uint64_t>(r); }
  default: abort();
  }
}
// e is an integer of fewer than lim bits as floating point: out is that integer, in its own (small, signed) width
static bool smallInt(E e, unsigned lim, E &out, bool negZero = false) {
  if (negZero && e->k == K_Ite && isC(e->b) && e->w == 64 && e->b->v == 1ULL << 63) { E x; if (!smallInt(e->c, lim, x)) return false; out = mkIte(e->a, mkConst(0, x->w), x); return true; }
  if (isC(e)) { double d = asD(e->v, e->w); if (!(d > -1e6 && d < 1e6) || d != (double)(int64_t)d || (d == 0 && e->v)) return false; out = mkConst((uint64_t)(int64_t)d, 22); return lim >= 22; }
  if (e->k != K_SIToFP && e->k != K_UIToFP) return false;
  bool sgn = e->k == K_SIToFP; E i = e->a;
  if (i->k == K_ZExt) { i = i->a; sgn = false; } else if (i->k == K_SExt && sgn) i = i->a;
  if (!sgn) i = mkZExt(i, i->w + 1);
  if (i->w >= lim) return false;
  out = i; return true;
}
E mkFP(Kind k, unsigned w, E a, E b, unsigned aux) {
  if (isC(a) && (!b || isC(b))) return mkConst((uint64_t)foldFP(k, w, a->w, a->v, b ? b->v : 0, aux), w);
  const unsigned wa = a->w;
  // rounding the quotient of small integers: the rounded quotient lies strictly between the same integers as the exact one
  if (k == K_FRnd && aux <= 2 && a->k == K_FDiv && wa == 64 && isC(a->b)) {
    E x, y; double d = asD(a->b->v, 64);
    if (a->a->k == K_SIToFP && smallInt(a->a, 40, x) && d >= 1 && d < 1024 && d == (double)(int)d) {
      const unsigned n = std::max<unsigned>(x->w, 12u) + 2; x = mkSExt(x, n); y = mkConst((uint64_t)d, n);
      E neg = mkCmp(K_Slt, x, mkConst(0, n)), m = mkIte(neg, mkBin(K_Sub, mkConst(0, n), x), x);
      E down = mkBin(K_UDiv, m, y), up = mkBin(K_UDiv, mkBin(K_Add, m, mkBin(K_Sub, y, mkConst(1, n))), y);
      E r = mkIte(neg, mkBin(K_Sub, mkConst(0, n), aux == 0 ? up : down), aux == 1 ? up : down);
      return mkIte(mkAnd(neg, mkEq(r, mkConst(0, n))), mkConst(1ULL << 63, 64), mkFP(K_SIToFP, w, r));     // negative quotients that round to zero give -0
    }
  }
  if (k == K_FExt && (a->k == K_SIToFP || a->k == K_UIToFP)) { E x; if (smallInt(a, 24, x)) return mkFP(K_SIToFP, w, x); }      // exact
  // small integers converted to floating point behave like the integers
  if (wa >= 32 && (k == K_FOlt || k == K_FOle || k == K_FOeq || k == K_FUno || k == K_FAdd || k == K_FSub)) {
    E x, y; const unsigned lim = wa == 32 ? 22 : 50;
    // (a zero that may be negative does no harm in comparisons, as the right operand, or added to a zero that is positive)
    const bool cmp = k != K_FAdd && k != K_FSub;
    if ((smallInt(a, lim, x, cmp) && smallInt(b, lim, y, true)) || (k == K_FAdd && smallInt(a, lim, x, true) && smallInt(b, lim, y))) {
      const unsigned n = std::max(x->w, y->w) + 1; x = mkSExt(x, n); y = mkSExt(y, n);
      switch (k) {
      case K_FOlt: return mkCmp(K_Slt, x, y); case K_FOle: return mkCmp(K_Sle, x, y); case K_FOeq: return mkEq(x, y); case K_FUno: return mkConst(0, 1);
      default: return mkFP(K_SIToFP, w, mkBin(k == K_FAdd ? K_Add : K_Sub, x, y)); }
    }
  }
  // comparisons as bit-vector formulas: a key that keeps the order and joins the zeros
  if (k == K_FOlt || k == K_FOle || k == K_FOeq || k == K_FUno) {
    auto mag = [&](E x) { return mkExtract(x, 0, wa - 1); };
    const uint64_t inf = wa == 32 ? 0x7f800000ULL : 0x7ff0000000000000ULL;
    auto ok = [&](E x) { return x->k == K_SIToFP || x->k == K_UIToFP ? mkConst(1, 1) : mkCmp(K_Ule, mag(x), mkConst(inf, wa - 1)); };
    const uint64_t top = 1ULL << (wa - 1); auto key = [&](E x) { return mkIte(mkEq(mag(x), mkConst(0, wa - 1)), mkConst(top, wa), mkIte(mkExtract(x, wa - 1, 1), mkBNot(x), mkBin(K_Or, x, mkConst(top, wa)))); };
    E both = mkAnd(ok(a), ok(b));
    if (k == K_FUno) return mkNot(both);
    E x = key(a), y = key(b);
    return mkAnd(both, k == K_FOlt ? mkCmp(K_Ult, x, y) : k == K_FOle ? mkCmp(K_Ule, x, y) : mkEq(x, y));
  }
  return intern(k, w, aux, 0, a, b, nullptr);
}

// ---------------------------------------------------------------- var sets
static const VarSet emptySet;
static const VarSet *mergeSets(const VarSet *x, const VarSet *y) {
  if (x->empty() || x == y) return y;
  if (y->empty()) return x;
  if (std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
  if (std::includes(y->begin(), y->end(), x->begin(), x->end())) return y;
  VarSet *r = new VarSet; std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(*r));
  return r;
}
const VarSet &varsOf(E e) {
  if (e->vs) return *e->vs;
  const VarSet *r = &emptySet;
  if (e->k == K_Var) r = new VarSet{e->aux};
  else {
    if (e->a) r = mergeSets(r, &varsOf(e->a));
    if (e->b) r = mergeSets(r, &varsOf(e->b));
    if (e->c) r = mergeSets(r, &varsOf(e->c));
  }
  e->vs = r;
  return *r;
}
bool hasUninit(E e) { for (uint32_t v : varsOf(e)) if (g_vars[v].uninit) return true; return false; }

// ---------------------------------------------------------------- evaluation
static std::vector<u128> ev; static std::vector<uint32_t> est; static uint32_t egen = 0;
static u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static u128 evalRec(E e, const Model &m) {
  if (e->k == K_Const) return e->v;
  if (est[e->id] == egen) return ev[e->id];
  u128 r = 0;
  unsigned w = e->w;
  switch (e->k) {
  case K_Var: r = m.get(e->aux) & maskw(w); break;
  case K_Eq: r = evalRec(e->a, m) == evalRec(e->b, m); break;
  case K_Ult: r = evalRec(e->a, m) < evalRec(e->b, m); break;
  case K_Ule: r = evalRec(e->a, m) <= evalRec(e->b, m); break;
  case K_Slt: r = sextv((uint64_t)evalRec(e->a, m), e->a->w) < sextv((uint64_t)evalRec(e->b, m), e->a->w); break;
  case K_Sle: r = sextv((uint64_t)evalRec(e->a, m), e->a->w) <= sextv((uint64_t)evalRec(e->b, m), e->a->w); break;
  case K_Concat: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
  case K_Extract: r = evalRec(e->a, m) >> e->aux; break;
  case K_ZExt: r = evalRec(e->a, m); break;
  case K_SExt: { u128 x = evalRec(e->a, m); unsigned iw = e->a->w; if ((x >> (iw - 1)) & 1) x |= ~mask128(iw); r = x; break; }
  case K_Ite: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
  default:
    if (e->k >= K_FAdd) r = foldFP((Kind)e->k, w, e->a->w, (uint64_t)evalRec(e->a, m), e->b ? (uint64_t)evalRec(e->b, m) : 0, e->aux);
    else {
      u128 x = evalRec(e->a, m), y = evalRec(e->b, m);
      if (w <= 64) r = foldBin((Kind)e->k, w, (uint64_t)x, (uint64_t)y);
      else switch (e->k) {
        case K_Add: r = x + y; break; case K_Sub: r = x - y; break; case K_Mul: r = x * y; break;
        case K_And: r = x & y; break; case K_Or: r = x | y; break; case K_Xor: r = x ^ y; break;
        case K_Shl: r = y >= w ? 0 : x << (unsigned)y; break; case K_LShr: r = y >= w ? 0 : x >> (unsigned)y; break;
        case K_UDiv: r = y ? x / y : mask128(w); break; case K_URem: r = y ? x % y : x; break;
        default: fprintf(stderr, "eval: wide op\n"); abort();
      }
    }
  }
  r &= mask128(w);
  est[e->id] = egen; ev[e->id] = r;
  return r;
}
static std::vector<uint64_t> lastVal; 
u128 evalE(E e, const Model &m) {
  if (e->k == K_Const) return e->v;
  if (est.size() < count) { est.resize(count + count / 2 + 1024, 0); ev.resize(est.size()); }
  egen++;
  return evalRec(e, m);
}

std::string toStr(E e, int d) {
  static const char *n[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","fsqrt","folt","fole","foeq","funo","fext","ftrunc","sitofp","uitofp","fptosi","fptoui","frnd"};
  if (e->k == K_Const) return std::to_string(e->v) + ":" + std::to_string(e->w);
  if (e->k == K_Var) return g_vars[e->aux].name;
  if (d == 0) return "...";
  std::string s = std::string("(") + n[e->k];
  if (e->k == K_Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->w) + "]";
  if (e->a) s += " " + toStr(e->a, d - 1);
  if (e->b) s += " " + toStr(e->b, d - 1);
  if (e->c) s += " " + toStr(e->c, d - 1);
  return s + ")";
}
