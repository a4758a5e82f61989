// (subject, predicate) <-> key
#include "vt_util.hpp"
#include "datastore/triplestore.hpp"
extern "C" void h_roundtrip() {
  const size_t N = vt_param("N", 5);
  Buf s(vt_choice(N + 1, "slen"), "s"), p(vt_choice(N + 1, "plen"), "p");
  const hxhim_data_t st = sym_type("stype"), pt = sym_type("ptype");
  const bool copy = vt_choice(2, "copy");
  vt_leak_mark();
  {
    Blob key;
    VT_ASSERT(sp_to_key(s.ref(st), p.ref(pt), &key) == HXHIM_SUCCESS, "a key is made");
    VT_ASSERT(key.will_clean() && key.data(), "the key owns its bytes");
    VT_ASSERT(bytes_eq(key.data(), s.p, s.n) && bytes_eq((char *)key.data() + s.n, p.p, p.n), "the key starts with subject then predicate");
    Blob S, P;
    VT_ASSERT(key_to_sp(key, S, P, copy) == HXHIM_SUCCESS, "the key splits");
    VT_ASSERT(s.same(S.data(), S.size()), "subject bytes come back");
    VT_ASSERT(p.same(P.data(), P.size()), "predicate bytes come back");
    VT_ASSERT(S.data_type() == st && P.data_type() == pt, "types come back");
    VT_ASSERT(S.will_clean() == copy && P.will_clean() == copy, "copies are owned, references are not");
    vt_cover(copy ? "copy" : "reference");
  }
  vt_check_leaks();
}
extern "C" void h_injective() {
  const size_t N = vt_param("N", 3);
  Buf s(vt_choice(N + 1, "slen"), "s"), p(vt_choice(N + 1, "plen"), "p"), s2(vt_choice(N + 1, "slen2"), "s2"), p2(vt_choice(N + 1, "plen2"), "p2");
  const hxhim_data_t st = sym_type("stype"), pt = sym_type("ptype"), st2 = sym_type("stype2"), pt2 = sym_type("ptype2");
  Blob k1, k2;
  sp_to_key(s.ref(st), p.ref(pt), &k1); sp_to_key(s2.ref(st2), p2.ref(pt2), &k2);
  const bool samepair = s.same(s2) && p.same(p2) && st == st2 && pt == pt2;
  const bool samekey = k1.size() == k2.size() && bytes_eq(k1.data(), k2.data(), k1.size());
  VT_ASSERT(samepair == samekey, "keys are equal exactly for equal pairs of equal types");
  vt_cover(samekey ? "same" : "different");
}
