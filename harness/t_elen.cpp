// elen integer encoding: inverse and order preservation, for every value of each integer type
#include "vt.h"
#include "utils/elen.hpp"
#include "utils/elen.h"
#include <type_traits>
// every value of T: the sign is picked first, then the magnitude is symbolic
template <class T> static T any(const char *name) {
  typedef typename std::make_unsigned<T>::type U;
  U u = vt_sym<U>(name);
  if (!std::is_signed<T>::value) return (T)u;
  u = (U)(u >> 1);
  return vt_choice(2, "negative") ? (T)(U)~u : (T)u;
}
template <class T> static void rt() {
  T v = any<T>("value");
  std::string e = elen::encode::integers<T>(v);
  size_t plen = 0;
  T d = elen::decode::integers<T>(e, &plen);
  VT_ASSERT(d == v, "decode(encode(v)) == v");
  VT_ASSERT(!e.empty(), "encoding is not empty");
  vt_cover(v < 0 ? "negative" : v > 0 ? "positive" : "zero");
}
template <class T> static void order() {
  T v = any<T>("v"); T w = any<T>("w");
  // the pairs are split by sign and magnitude so that they can be decided in parallel
  const unsigned part = vt_param("PART", 99);
  if (part < 99) {
    const bool nv = v < 0, nw = w < 0; const unsigned sg = part / 5, k = part % 5;
    vt_assume(sg == 0 ? !nv && !nw : sg == 1 ? nv && nw : nv != nw);
    if (sg < 2) {
      const uint64_t mv = nv ? (uint64_t)~(uint64_t)v : (uint64_t)v, mw = nw ? (uint64_t)~(uint64_t)w : (uint64_t)w, B[] = {0, 10000000000ull, 100000000000000ull, 10000000000000000ull};
      unsigned bv = 0, bw = 0; for (unsigned i = 1; i < 4; i++) { bv += mv >= B[i]; bw += mw >= B[i]; }
      vt_assume(k < 4 ? bv == k && bw == k : bv != bw);
    }
  }
  std::string a = elen::encode::integers<T>(v), b = elen::encode::integers<T>(w);
  bool lt = lex_comp(a, b), gt = lex_comp(b, a), eq = a == b;
  VT_ASSERT(lt == (v < w), "encode(v) sorts before encode(w) exactly when v < w");
  VT_ASSERT(gt == (w < v), "encode(w) sorts before encode(v) exactly when w < v");
  VT_ASSERT(eq == (v == w), "equal encodings exactly for equal values");
  vt_cover(lt ? "less" : gt ? "greater" : "equal");
}
#define E(T, N) extern "C" void h_rt_##N() { rt<T>(); } extern "C" void h_ord_##N() { order<T>(); }
E(int8_t, i8) E(uint8_t, u8) E(int16_t, i16) E(uint16_t, u16) E(int32_t, i32) E(uint32_t, u32) E(int64_t, i64) E(uint64_t, u64)
// the C functions, with any pair of symbols around the digits, and the length of what was read
template <class T> static void c_api(char *(*enc)(const T, const char, const char), T (*dec)(const char *, size_t *, const char, const char)) {
  T v = any<T>("value"); const char neg = (char)vt_sym<uint8_t>("negative symbol"), pos = (char)vt_sym<uint8_t>("positive symbol"); vt_assume(neg > 0 && neg < '0' && pos > '9');
  vt_leak_mark();
  { char *s = enc(v, neg, pos); const std::string e = elen::encode::integers<T>(v), f = elen::encode::integers<T>(v, neg, pos); size_t n = 0; while (s[n]) n++;
    VT_ASSERT(n == e.size() && n == f.size(), "the C function encodes like the C++ one");
    for (size_t i = 0; i < n; i++) VT_ASSERT(s[i] == f[i] && (e[i] == ELEN_NEG ? s[i] == neg : e[i] == ELEN_POS ? s[i] == pos : s[i] == e[i]), "symbols stand where the default ones do");
    size_t plen = ~(size_t)0; VT_ASSERT(dec(s, &plen, neg, pos) == v && dec(s, nullptr, neg, pos) == v, "decode(encode(v)) == v"); VT_ASSERT(v == 0 || plen == n, "the length read is the length written");
    size_t qlen = 0; if (v != 0) { const std::string more = f + vt_choice(2, "digit follows")[".7"]; VT_ASSERT(elen::decode::integers<T>(more, &qlen, neg, pos) == v && qlen == n, "what follows a number is not read"); }
    free(s); }
  vt_check_leaks();
  vt_cover(v < 0 ? "negative" : v > 0 ? "positive" : "zero");
}
#define C(T, N) extern "C" void h_c_##N() { c_api<T>(elen_encode_##T, elen_decode_##T); }
C(int8_t, i8) C(uint8_t, u8) C(int16_t, i16) C(uint16_t, u16) C(int32_t, i32) C(uint32_t, u32) C(int64_t, i64) C(uint64_t, u64) C(int, int)
