#include <unordered_set>
#include "solver.h"
#include <z3.h>
#include <chrono>
#include <deque>
#include <algorithm>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>

SolverStats g_ss;
unsigned g_queryTimeoutMs = 60000;

static Z3_context ctx;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
static Z3_tactic tacBV, tacFP;
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  auto T = [](const char *n) { Z3_tactic t = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, t); return t; };
  auto then = [](Z3_tactic a, Z3_tactic b) { Z3_tactic t = Z3_tactic_and_then(ctx, a, b); Z3_tactic_inc_ref(ctx, t); return t; };
  tacBV = then(T("simplify"), then(T("propagate-values"), then(T("solve-eqs"), then(T("simplify"), then(T("bit-blast"), T("sat"))))));
  tacFP = then(T("simplify"), then(T("fpa2bv"), then(T("simplify"), then(T("propagate-values"), then(T("solve-eqs"), then(T("simplify"), then(T("bit-blast"), T("sat"))))))));
}
static std::vector<Z3_ast> memo;    // by expr id
static std::vector<Z3_ast> varAst;  // by var index
static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, bv(1)), Z3_mk_unsigned_int64(ctx, 0, bv(1))); }

static Z3_ast tr(E e);
static Z3_ast trBool(E e) {   // w==1 as Bool
  switch (e->k) {
  case K_Const: return e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
  case K_Eq: return Z3_mk_eq(ctx, tr(e->a), tr(e->b));
  case K_Ult: return Z3_mk_bvult(ctx, tr(e->a), tr(e->b));
  case K_Ule: return Z3_mk_bvule(ctx, tr(e->a), tr(e->b));
  case K_Slt: return Z3_mk_bvslt(ctx, tr(e->a), tr(e->b));
  case K_Sle: return Z3_mk_bvsle(ctx, tr(e->a), tr(e->b));
  default: return Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, bv(1)));
  }
}
static Z3_ast toFP(Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, a, fps(w)); }
static Z3_ast tr1(E e) {
  unsigned w = e->w;
  switch (e->k) {
  case K_Const: return Z3_mk_unsigned_int64(ctx, e->v, bv(w));
  case K_Var: {
    std::string n = "v" + std::to_string(e->aux);
    Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), bv(w));
    if (varAst.size() <= e->aux) varAst.resize(e->aux + 64, nullptr);
    varAst[e->aux] = v; return v;
  }
  case K_Add: return Z3_mk_bvadd(ctx, tr(e->a), tr(e->b));
  case K_Sub: return Z3_mk_bvsub(ctx, tr(e->a), tr(e->b));
  case K_Mul: return Z3_mk_bvmul(ctx, tr(e->a), tr(e->b));
  case K_UDiv: return Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b));
  case K_SDiv: return Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b));
  case K_URem: return Z3_mk_bvurem(ctx, tr(e->a), tr(e->b));
  case K_SRem: return Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b));
  case K_And: return Z3_mk_bvand(ctx, tr(e->a), tr(e->b));
  case K_Or: return Z3_mk_bvor(ctx, tr(e->a), tr(e->b));
  case K_Xor: return Z3_mk_bvxor(ctx, tr(e->a), tr(e->b));
  case K_Shl: return Z3_mk_bvshl(ctx, tr(e->a), tr(e->b));
  case K_LShr: return Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b));
  case K_AShr: return Z3_mk_bvashr(ctx, tr(e->a), tr(e->b));
  case K_Eq: case K_Ult: case K_Ule: case K_Slt: case K_Sle: return b2bv(trBool(e));
  case K_Concat: return Z3_mk_concat(ctx, tr(e->a), tr(e->b));
  case K_Extract: return Z3_mk_extract(ctx, e->aux + w - 1, e->aux, tr(e->a));
  case K_ZExt: return Z3_mk_zero_ext(ctx, w - e->a->w, tr(e->a));
  case K_SExt: return Z3_mk_sign_ext(ctx, w - e->a->w, tr(e->a));
  case K_Ite: return Z3_mk_ite(ctx, trBool(e->a), tr(e->b), tr(e->c));
  default: break;
  }
  unsigned wa = e->a->w;
  Z3_ast rne = Z3_mk_fpa_rne(ctx);
  auto A = [&] { return toFP(tr(e->a), wa); };
  auto B = [&] { return toFP(tr(e->b), e->b->w); };
  auto out = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); };
  switch (e->k) {
  case K_FAdd: return out(Z3_mk_fpa_add(ctx, rne, A(), B()));
  case K_FSub: return out(Z3_mk_fpa_sub(ctx, rne, A(), B()));
  case K_FMul: return out(Z3_mk_fpa_mul(ctx, rne, A(), B()));
  case K_FDiv: return out(Z3_mk_fpa_div(ctx, rne, A(), B()));
  case K_FSqrt: return out(Z3_mk_fpa_sqrt(ctx, rne, A()));
  case K_FOlt: return b2bv(Z3_mk_fpa_lt(ctx, A(), B()));
  case K_FOle: return b2bv(Z3_mk_fpa_leq(ctx, A(), B()));
  case K_FOeq: return b2bv(Z3_mk_fpa_eq(ctx, A(), B()));
  case K_FUno: { Z3_ast n[2] = {Z3_mk_fpa_is_nan(ctx, A()), Z3_mk_fpa_is_nan(ctx, B())}; return b2bv(Z3_mk_or(ctx, 2, n)); }
  case K_FExt: case K_FTrunc: return out(Z3_mk_fpa_to_fp_float(ctx, rne, A(), fps(w)));
  case K_SIToFP: return out(Z3_mk_fpa_to_fp_signed(ctx, rne, tr(e->a), fps(w)));
  case K_UIToFP: return out(Z3_mk_fpa_to_fp_unsigned(ctx, rne, tr(e->a), fps(w)));
  case K_FPToSI: return Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), A(), w);
  case K_FPToUI: return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), A(), w);
  case K_FRnd: {
    Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rtn(ctx) : e->aux == 1 ? Z3_mk_fpa_rtp(ctx) : e->aux == 2 ? Z3_mk_fpa_rtz(ctx) : e->aux == 3 ? Z3_mk_fpa_rna(ctx) : rne;
    return out(Z3_mk_fpa_round_to_integral(ctx, rm, A()));
  }
  }
  abort();
}
static Z3_ast tr(E root) {
  // iterative post-order to avoid deep recursion on long chains
  if (memo.size() < exprCount()) memo.resize(exprCount() + exprCount() / 2 + 1024, nullptr);
  if (memo[root->id]) return memo[root->id];
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (memo[e->id]) { st.pop_back(); continue; }
    bool ready = true;
    for (E c : {e->a, e->b, e->c}) if (c && !memo[c->id]) { st.push_back(c); ready = false; }
    if (!ready) continue;
    st.pop_back();
    memo[e->id] = keep(tr1(e));
  }
  return memo[root->id];
}
static bool hasFP(E e, std::unordered_map<uint32_t, bool> &seen) {
  if (e->k >= K_FAdd) return true;
  auto it = seen.find(e->id); if (it != seen.end()) return it->second;
  seen[e->id] = false;
  bool r = (e->a && hasFP(e->a, seen)) || (e->b && hasFP(e->b, seen)) || (e->c && hasFP(e->c, seen));
  seen[e->id] = r;
  return r;
}

// ---- exact translation of linear bit-vector constraints to integer arithmetic (decimal digit strings and the like).
// Every term of width w stands for its unsigned value; wrap-around is expressed with bounded integer quotients, so the
// translation is an equivalence, not an approximation.  Anything non-linear makes it give up (bit-blasting is used).
struct LiaFail {};
struct Lia {
  Z3_solver s; std::unordered_map<uint32_t, Z3_ast> m; std::unordered_map<uint32_t, Z3_ast> vars; int fresh = 0; int budget = 4000;
  Z3_sort I() { return Z3_mk_int_sort(ctx); }
  Z3_ast num(u128 v) { std::string t; if (!v) t = "0"; while (v) { t.insert(t.begin(), char('0' + (int)(v % 10))); v /= 10; } return Z3_mk_numeral(ctx, t.c_str(), I()); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(ctx, 2, x); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(ctx, 2, x); }
  Z3_ast mul(u128 c, Z3_ast b) { if (c == 1) return b; Z3_ast x[2] = {num(c), b}; return Z3_mk_mul(ctx, 2, x); }
  Z3_ast var(u128 lo, u128 hi) { std::string n = "k" + std::to_string(fresh++); Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), I()); bound(v, lo, hi); return v; }
  void bound(Z3_ast v, u128 lo, u128 hi) { Z3_solver_assert(ctx, s, Z3_mk_le(ctx, num(lo), v)); Z3_solver_assert(ctx, s, Z3_mk_le(ctx, v, num(hi))); }
  u128 P(unsigned w) { if (w > 64) throw LiaFail(); return (u128)1 << w; }
  // v mod 2^w for an integer v in [0, hi]
  Z3_ast mod(Z3_ast v, u128 hi, unsigned w) {
    if (hi < P(w)) return v;
    Z3_ast q = var(0, hi / P(w)); Z3_ast r = sub(v, mul(P(w), q)); bound(r, 0, P(w) - 1); return r; }
  Z3_ast split(E a, unsigned lo, bool high) {      // high: a >> lo, else a mod 2^lo
    Range r = rangeOf(a);
    if (lo >= a->w) return high ? num(0) : go(a);
    if (!high && r.hi < P(lo)) return go(a);
    Z3_ast q = var(r.lo >> lo, r.hi >> lo); Z3_ast rem = sub(go(a), mul(P(lo), q)); bound(rem, 0, P(lo) - 1);
    return high ? q : rem; }
  Z3_ast b(E e) {
    if (e->k == K_Const) return e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    if (e->w != 1) throw LiaFail();
    switch (e->k) {
    case K_Eq: if (e->a->w == 1) return Z3_mk_iff(ctx, b(e->a), b(e->b)); return Z3_mk_eq(ctx, go(e->a), go(e->b));
    case K_Ult: return Z3_mk_lt(ctx, go(e->a), go(e->b));
    case K_Ule: return Z3_mk_le(ctx, go(e->a), go(e->b));
    case K_Slt: return Z3_mk_lt(ctx, sgn(e->a), sgn(e->b));
    case K_Sle: return Z3_mk_le(ctx, sgn(e->a), sgn(e->b));
    case K_And: { Z3_ast x[2] = {b(e->a), b(e->b)}; return Z3_mk_and(ctx, 2, x); }
    case K_Or: { Z3_ast x[2] = {b(e->a), b(e->b)}; return Z3_mk_or(ctx, 2, x); }
    case K_Xor: return Z3_mk_xor(ctx, b(e->a), b(e->b));
    case K_Ite: return Z3_mk_ite(ctx, b(e->a), b(e->b), b(e->c));
    default: return Z3_mk_eq(ctx, go(e), num(1));
    }
  }
  Z3_ast sgn(E e) {
    Range r = rangeOf(e); u128 h = P(e->w) >> 1;
    if (r.hi < h) return go(e);
    if (r.lo >= h) return sub(go(e), num(P(e->w)));
    Z3_ast v = go(e); return Z3_mk_ite(ctx, Z3_mk_lt(ctx, v, num(h)), v, sub(v, num(P(e->w)))); }
  Z3_ast go(E e) { auto it = m.find(e->id); if (it != m.end()) return it->second; if (--budget < 0) throw LiaFail(); Z3_ast r = go1(e); m[e->id] = r; return r; }
  Z3_ast go1(E e) {
    unsigned w = e->w; if (w > 64) throw LiaFail();
    switch (e->k) {
    case K_Const: return num(e->v);
    case K_Var: { std::string n = "v" + std::to_string(e->aux); Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), I()); bound(v, 0, std::min<u128>(P(w) - 1, g_vars[e->aux].max)); vars[e->aux] = v; return v; }
    case K_Add: {
      if (isC(e->b) && e->b->v >= (1ULL << (w - 1))) {   // subtraction of a small constant
        u128 c = P(w) - e->b->v; Range r = rangeOf(e->a);
        if (r.lo >= c) return sub(go(e->a), num(c));
        return mod(sub(add(go(e->a), num(P(w))), num(c)), (u128)r.hi + P(w) - c, w); }
      return mod(add(go(e->a), go(e->b)), (u128)rangeOf(e->a).hi + rangeOf(e->b).hi, w); }
    case K_Sub: { Range x = rangeOf(e->a), y = rangeOf(e->b); if (x.lo >= y.hi) return sub(go(e->a), go(e->b));
      return mod(sub(add(go(e->a), num(P(w))), go(e->b)), (u128)x.hi + P(w) - y.lo, w); }
    case K_Mul: { E x = e->a, c = e->b; if (isC(x)) std::swap(x, c); if (!isC(c)) throw LiaFail(); return mod(mul(c->v, go(x)), (u128)c->v * rangeOf(x).hi, w); }
    case K_Xor: if (w == 1) break; if (isC(e->b) && e->b->v == maskw(w)) return sub(num(maskw(w)), go(e->a)); throw LiaFail();
    case K_And: { if (w == 1) break; if (isC(e->b) && ((e->b->v + 1) & e->b->v) == 0) return split(e->a, __builtin_popcountll(e->b->v), false); throw LiaFail(); }
    case K_Shl: if (isC(e->b) && e->b->v < w) return mod(mul((u128)1 << e->b->v, go(e->a)), (u128)rangeOf(e->a).hi << e->b->v, w); throw LiaFail();
    case K_LShr: if (isC(e->b) && e->b->v < w) return split(e->a, e->b->v, true); throw LiaFail();
    case K_Concat: return add(mul(P(e->b->w), go(e->a)), go(e->b));
    case K_ZExt: return go(e->a);
    case K_SExt: { Range r = rangeOf(e->a); u128 h = P(e->a->w) >> 1; Z3_ast v = go(e->a); if (r.hi < h) return v; Z3_ast n = add(v, num(P(w) - P(e->a->w)));
      if (r.lo >= h) return n; return Z3_mk_ite(ctx, Z3_mk_lt(ctx, v, num(h)), v, n); }
    case K_Extract: { if (e->aux == 0) return split(e->a, w, false);
      if (e->a->w > 64) throw LiaFail();
      Range r = rangeOf(e->a); Z3_ast q = var(r.lo >> e->aux, r.hi >> e->aux); Z3_ast rem = sub(go(e->a), mul(P(e->aux), q)); bound(rem, 0, P(e->aux) - 1);
      return mod(q, r.hi >> e->aux, w); }
    case K_Ite: return Z3_mk_ite(ctx, b(e->a), go(e->b), go(e->c));
    case K_Eq: case K_Ult: case K_Ule: case K_Slt: case K_Sle: break;
    default: throw LiaFail();
    }
    if (w == 1) return Z3_mk_ite(ctx, b(e), num(1), num(0));
    throw LiaFail();
  }
};
static bool wantsLia(E e, std::unordered_map<uint32_t, bool> &seen) {
  if (e->k == K_Mul && e->w > 8 && (isC(e->a) || isC(e->b))) { uint64_t c = isC(e->a) ? e->a->v : e->b->v; if (c & (c - 1)) return true; }
  auto it = seen.find(e->id); if (it != seen.end()) return it->second;
  seen[e->id] = false;
  bool r = (e->a && wantsLia(e->a, seen)) || (e->b && wantsLia(e->b, seen)) || (e->c && wantsLia(e->c, seen));
  seen[e->id] = r; return r;
}
// 1 sat (model filled), 0 unsat, -1 no answer
static int tryLia(const std::vector<E> &slice, const VarSet &slv, std::vector<std::pair<uint32_t, uint64_t>> &model) {
  { std::unordered_map<uint32_t, bool> seen; bool w = false; for (E e : slice) if (wantsLia(e, seen)) { w = true; break; } if (!w) return -1; }
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LIA")); Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(g_queryTimeoutMs, 20000u));
  Z3_solver_set_params(ctx, s, p);
  int res = -1;
  try {
    Lia l; l.s = s;
    for (E e : slice) Z3_solver_assert(ctx, s, l.b(e));
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_FALSE) res = 0;
    else if (r == Z3_L_TRUE) {
      res = 1; Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      for (uint32_t v : slv) { uint64_t val = 0; auto it = l.vars.find(v); Z3_ast o = nullptr;
        if (it != l.vars.end() && Z3_model_eval(ctx, m, it->second, true, &o)) if (!Z3_get_numeral_uint64(ctx, o, &val)) val = 0;
        model.push_back({v, val}); }
      Z3_model_dec_ref(ctx, m);
    }
  } catch (LiaFail &) {}
  Z3_params_dec_ref(ctx, p); Z3_solver_dec_ref(ctx, s);
  return res;
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> model; std::vector<E> key; };
static std::unordered_map<uint64_t, std::vector<CacheEnt>> cache;
static std::deque<ModelP> recent;

static ModelP patch(const ModelP &base, const std::vector<std::pair<uint32_t, uint64_t>> &kv) {
  auto m = std::make_shared<Model>(*base);
  for (auto &p : kv) { if (m->val.size() <= p.first) m->val.resize(p.first + 1, 0); m->val[p.first] = p.second; }
  return m;
}

Res solveWith(const std::vector<E> &pc, const ModelP &base, E q, ModelP &out) {
  if (isTrue(q)) { out = base; return Res::Sat; }
  if (isFalse(q)) return Res::Unsat;
  if (evalE(q, *base)) { g_ss.modelHits++; out = base; return Res::Sat; }
  { E nq = mkNot(q); for (E e : pc) if (e == nq) return Res::Unsat; }
  // independence slice
  std::vector<E> slice;
  std::vector<char> used(pc.size(), 0);
  std::vector<char> inset(g_vars.size(), 0);
  VarSet slv;
  for (uint32_t v : varsOf(q)) { inset[v] = 1; slv.push_back(v); }
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
      const VarSet &vs = varsOf(pc[i]);
      bool hit = false;
      for (uint32_t v : vs) if (inset[v]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; ch = true; slice.push_back(pc[i]);
      for (uint32_t v : vs) if (!inset[v]) { inset[v] = 1; slv.push_back(v); }
    }
  }
  slice.push_back(q);
  std::sort(slice.begin(), slice.end(), [](E a, E b) { return a->id < b->id; });
  slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
  uint64_t h = 1469598103934665603ULL;
  for (E e : slice) { h ^= e->id; h *= 1099511628211ULL; h ^= h >> 31; }
  auto &bucket = cache[h];
  for (auto &c : bucket) if (c.key == slice) {
    g_ss.cacheHits++;
    if (c.r == Res::Sat) out = patch(base, c.model);
    return c.r;
  }
  // recent models
  int tries = 0;
  for (auto &m : recent) {
    if (++tries > 6) break;
    bool ok = true;
    for (E e : slice) if (!evalE(e, *m)) { ok = false; break; }
    if (ok) {
      std::vector<std::pair<uint32_t, uint64_t>> kv;
      for (uint32_t v : slv) kv.push_back({v, m->get(v)});
      out = patch(base, kv);
      g_ss.modelHits++;
      return Res::Sat;
    }
  }
  init();
  auto t0 = std::chrono::steady_clock::now();
  bool fp = false;
  { std::unordered_map<uint32_t, bool> seen; for (E e : slice) if (hasFP(e, seen)) { fp = true; break; } }
  std::vector<std::pair<uint32_t, uint64_t>> lm; int lia = fp ? -1 : tryLia(slice, slv, lm);
  if (lia >= 0) {
    CacheEnt ce; ce.key = slice; ce.r = lia ? Res::Sat : Res::Unsat; bool ok = true;
    if (lia) { out = patch(base, lm); ce.model = lm; for (E e : slice) if (!evalE(e, *out)) ok = false; }
    if (ok) {
      g_ss.queries++; g_ss.lia++; if (lia) { g_ss.sat++; recent.push_front(out); if (recent.size() > 8) recent.pop_back(); } else g_ss.unsat++;
      double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
      Res rr = ce.r; bucket.push_back(std::move(ce)); return rr;
    }
  }
  Z3_lbool r = Z3_L_UNDEF; Z3_solver s = nullptr; Z3_params p = nullptr;
  if (!fp) {      // small queries: one incremental solver, constraints switched on by assumption literals
    static Z3_solver inc; static std::unordered_map<uint32_t, Z3_ast> lit; static std::unordered_set<uint32_t> bounded; static size_t added;
    if (inc && added > 300) { Z3_solver_dec_ref(ctx, inc); inc = nullptr; lit.clear(); bounded.clear(); added = 0; }
    if (!inc) { inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, inc);
      Z3_params ip = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ip); Z3_params_set_uint(ctx, ip, Z3_mk_string_symbol(ctx, "timeout"), 300); Z3_solver_set_params(ctx, inc, ip); Z3_params_dec_ref(ctx, ip); }
    std::vector<Z3_ast> as;
    for (E e : slice) {
      auto it = lit.find(e->id);
      if (it == lit.end()) {
        tr(e); Z3_ast l = keep(Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->id), Z3_mk_bool_sort(ctx)));
        Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, l, trBool(e))); it = lit.emplace(e->id, l).first; added++;
      }
      as.push_back(it->second);
    }
    for (uint32_t v : slv) if (g_vars[v].max < maskw(g_vars[v].w) && v < varAst.size() && varAst[v] && bounded.insert(v).second) Z3_solver_assert(ctx, inc, Z3_mk_bvule(ctx, varAst[v], Z3_mk_unsigned_int64(ctx, g_vars[v].max, bv(g_vars[v].w))));
    r = Z3_solver_check_assumptions(ctx, inc, as.size(), as.data());
    if (r == Z3_L_UNDEF) { Z3_solver_dec_ref(ctx, inc); inc = nullptr; lit.clear(); bounded.clear(); added = 0; }
    else { s = inc; Z3_solver_inc_ref(ctx, s); }
  }
  if (r == Z3_L_UNDEF) {
  s = Z3_mk_solver_from_tactic(ctx, fp ? tacFP : tacBV);
  Z3_solver_inc_ref(ctx, s);
  p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_queryTimeoutMs);
  Z3_solver_set_params(ctx, s, p);
  for (E e : slice) { tr(e); Z3_solver_assert(ctx, s, trBool(e)); }
  for (uint32_t v : slv) if (g_vars[v].max < maskw(g_vars[v].w) && v < varAst.size() && varAst[v]) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, varAst[v], Z3_mk_unsigned_int64(ctx, g_vars[v].max, bv(g_vars[v].w))));
  r = Z3_solver_check(ctx, s);
  if (r == Z3_L_UNDEF && fp) {       // the tactic cannot finish every conversion: let the general solver try
    Z3_solver_dec_ref(ctx, s); s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s); Z3_solver_set_params(ctx, s, p);
    for (E e : slice) Z3_solver_assert(ctx, s, trBool(e));
    for (uint32_t v : slv) if (g_vars[v].max < maskw(g_vars[v].w) && v < varAst.size() && varAst[v]) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, varAst[v], Z3_mk_unsigned_int64(ctx, g_vars[v].max, Z3_mk_bv_sort(ctx, g_vars[v].w))));
    r = Z3_solver_check(ctx, s); }
  }
  int rr0 = r; CacheEnt ce; ce.key = slice;
  g_ss.queries++;
  if (r == Z3_L_TRUE) {
    g_ss.sat++;
    ce.r = Res::Sat;
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    for (uint32_t v : slv) {
      Z3_ast o = nullptr; uint64_t val = 0;
      if (v < varAst.size() && varAst[v] && Z3_model_eval(ctx, m, varAst[v], true, &o)) { 
        if (!Z3_get_numeral_uint64(ctx, o, &val)) val = 0;
      }
      ce.model.push_back({v, val});
    }
    Z3_model_dec_ref(ctx, m);
    out = patch(base, ce.model);
    for (E e : slice) if (!evalE(e, *out)) {
      // model disagrees with our own evaluation (e.g. NaN payload): treat as unknown, never as proof
      if (getenv("SX_DEBUG")) { fprintf(stderr, "model mismatch on %s\n", toStr(e, 12).c_str()); }
      ce.r = Res::Unknown; g_ss.unknown++; break;
    }
    if (ce.r == Res::Sat) { recent.push_front(out); if (recent.size() > 8) recent.pop_back(); }
  } else if (r == Z3_L_FALSE) { g_ss.unsat++; ce.r = Res::Unsat; }
  else { g_ss.unknown++; ce.r = Res::Unknown; if (getenv("SX_DEBUG")) { fprintf(stderr, "unknown: %s fp=%d\n", Z3_solver_get_reason_unknown(ctx, s), fp); for (E e : slice) fprintf(stderr, "   %s\n", toStr(e, 12).c_str()); } }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt; if (dt > g_ss.maxTime) g_ss.maxTime = dt;
  if (getenv("SX_SLOW") && dt > atof(getenv("SX_SLOW"))) { fprintf(stderr, "SLOW %.1fs r=%d q=%s\n", dt, (int)rr0, toStr(q, 14).c_str()); for (E e : slice) fprintf(stderr, "    %s\n", toStr(e, 14).c_str()); }
  if (p) Z3_params_dec_ref(ctx, p);
  Z3_solver_dec_ref(ctx, s);
  Res rr = ce.r;
  bucket.push_back(std::move(ce));
  return rr;
}
