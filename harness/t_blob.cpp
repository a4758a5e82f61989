// Blob: packing and ownership
#include "vt_util.hpp"
#include "utils/little_endian.hpp"
extern "C" void h_pack() {
  const size_t N = vt_param("N", 6);
  Buf b(vt_choice(N + 1, "len"), "bytes");
  const hxhim_data_t t = sym_type("type"); const bool wt = vt_choice(2, "include_type"), copy = vt_choice(2, "copy"), twice = vt_choice(2, "twice");
  vt_leak_mark();
  {
    const bool null = b.n == 0 && vt_choice(2, "null");      // an empty blob need not have an address (a copy of an empty blob has none)
    Blob a = null ? Blob(nullptr, 0, t, false) : b.ref(t), a2 = b.ref(t);
    const size_t n = a.pack_size(wt);
    VT_ASSERT(n == Blob::pack_size(b.n, wt), "both size computations agree");
    char *buf = (char *)malloc(n * 2); char *c = buf;
    VT_ASSERT(a.pack(c, wt) == buf + n && c == buf + n, "pack writes exactly pack_size bytes");
    if (twice) VT_ASSERT(a2.pack(c, wt) == buf + 2 * n, "a second blob follows the first");
    Blob r, r2; char *d = buf;
    VT_ASSERT(r.unpack(d, wt, copy) == buf + n && d == buf + n, "unpack consumes exactly what pack wrote");
    if (twice) { r2.unpack(d, wt, copy); VT_ASSERT(d == buf + 2 * n && b.same(r2.data(), r2.size()), "a second blob unpacks"); }
    VT_ASSERT(b.same(r.data(), r.size()), "bytes come back");
    if (wt) VT_ASSERT(r.data_type() == t && r == a, "type comes back");
    VT_ASSERT(r.will_clean() == copy, "a copy is owned, a reference is not");
    if (!copy) VT_ASSERT(r.data() == buf + sizeof(size_t), "a reference points into the packed bytes");
    if (copy) { memset(buf, 0x5a, n * 2); VT_ASSERT(b.same(r.data(), r.size()), "a copy is independent of the packed bytes"); }
    free(buf);
    vt_cover(copy ? "copied" : "referenced");
  }
  vt_check_leaks();
}
extern "C" void h_pack_ref() {
  const size_t N = vt_param("N", 6);
  Buf b(vt_choice(N + 1, "len"), "bytes"); const hxhim_data_t t = sym_type("type"); const bool wt = vt_choice(2, "include_type"), null = vt_choice(2, "null");
  Blob a = null ? Blob(nullptr, b.n, t, false) : b.ref(t);
  const size_t n = a.pack_ref_size(wt); char *buf = (char *)malloc(n); char *c = buf;
  VT_ASSERT(a.pack_ref(c, wt) == buf + n, "pack_ref writes exactly pack_ref_size bytes");
  Blob r; char *d = buf;
  VT_ASSERT(r.unpack_ref(d, wt) == buf + n, "unpack_ref consumes what pack_ref wrote");
  VT_ASSERT(r.data() == a.data() && r.size() == a.size() && !r.will_clean(), "the same memory is referenced");
  if (wt) VT_ASSERT(r.data_type() == t, "type comes back");
  char *nul = nullptr; Blob q;
  VT_ASSERT(q.unpack_ref(nul, wt) == nullptr && a.pack_ref(nul, wt) == nullptr && a.pack(nul, wt) == nullptr, "no buffer is refused");
  bool threw = false; try { q.unpack(nul, wt); } catch (std::exception &) { threw = true; }
  VT_ASSERT(threw, "unpacking from nothing throws");
  free(buf); vt_cover("end");
}
// any sequence of copies, moves and assignments releases every owned buffer exactly once and never touches a released one
extern "C" void h_ownership() {
  const unsigned K = vt_param("K", 4);
  Buf b(2, "bytes"), b2(1, "bytes2");
  vt_leak_mark();
  {
    Blob x[3] = {Blob(b.n, b.p, HXHIM_DATA_BYTE), b2.ref(HXHIM_DATA_INT32), Blob()};
    int owners0 = 1;
    for (unsigned k = 0; k < K; k++) {
      unsigned op = vt_choice(7, "op"), i = vt_choice(3, "i"), j = vt_choice(3, "j");
      if (op >= 4 && j) vt_end();
      void *pi = x[i].data(); size_t ni = x[i].size(); hxhim_data_t ti = x[i].data_type(); bool ci = x[i].will_clean();
      // a reference must not outlive its owner: keep the history legal
      if (op == 0 || op == 1 || op >= 4) { unsigned dst = op < 2 ? j : i; if (dst != i || op >= 4) { void *dp = x[dst].data(); if (x[dst].will_clean()) for (unsigned q = 0; q < 3; q++) if (q != dst && x[q].data() == dp) vt_end(); } }
      switch (op) {
      case 0: x[j] = x[i]; if (i != j) VT_ASSERT(x[j].data() == pi && x[j].size() == ni && x[j].data_type() == ti && !x[j].will_clean() && x[i].will_clean() == ci, "copy assignment references the source and leaves it alone");
        else VT_ASSERT(x[i].data() == pi && x[i].will_clean() == ci, "self assignment changes nothing"); break;
      case 1: x[j] = std::move(x[i]); if (i != j) VT_ASSERT(x[j].data() == pi && x[j].size() == ni && x[j].data_type() == ti && x[j].will_clean() == ci && !x[i].data() && x[i].size() == 0 && !x[i].will_clean(), "move assignment transfers ownership and empties the source");
        else VT_ASSERT(x[i].data() == pi && x[i].will_clean() == ci, "self move changes nothing"); break;
      case 2: { Blob t(x[i]); VT_ASSERT(t.data() == pi && !t.will_clean() && x[i].data() == pi && x[i].will_clean() == ci, "a copy is a reference"); break; }
      case 3: { Blob t(std::move(x[i])); VT_ASSERT(t.data() == pi && t.size() == ni && t.data_type() == ti && t.will_clean() == ci && !x[i].data() && !x[i].will_clean(), "a moved-to blob takes ownership"); x[i] = std::move(t); break; }
      case 4: x[i].dealloc(); VT_ASSERT(!x[i].data() && x[i].size() == 0 && !x[i].will_clean() && x[i].data_type() == HXHIM_DATA_INVALID, "dealloc empties"); break;
      case 5: x[i] = Blob(b.n, b.p, HXHIM_DATA_BYTE); VT_ASSERT(x[i].will_clean() && x[i].data() != b.p && b.same(x[i].data(), x[i].size()), "a deep copy owns separate memory"); break;
      case 6: x[i] = RealBlob(::alloc(1), 0, HXHIM_DATA_BYTE); VT_ASSERT(x[i].will_clean() && x[i].data() && !x[i].size(), "an empty blob can own memory"); break;
      }
      // what every blob shows stays readable
      for (unsigned q = 0; q < 3; q++) if (x[q].data()) { unsigned char s = 0; for (size_t z = 0; z < x[q].size(); z++) s += ((unsigned char *)x[q].data())[z]; (void)s; }
    }
    vt_cover("sequence");
  }
  vt_check_leaks();
}
extern "C" void h_equal() {
  Buf a(vt_choice(4, "la"), "a"), b(vt_choice(4, "lb"), "b"); const hxhim_data_t ta = sym_type("ta"), tb = sym_type("tb");
  Blob A = a.ref(ta), B = b.ref(tb);
  const bool want = a.same(b) && ta == tb;
  VT_ASSERT((A == B) == want && (A != B) == !want && (B == A) == want, "equality is on bytes, length and type");
  VT_ASSERT(A == A, "equal to itself");
  void *p; size_t n; hxhim_data_t t; A.get(&p, &n, &t); VT_ASSERT(p == a.p && n == a.n && t == ta, "get reports the members"); A.get(nullptr, nullptr, nullptr);
  std::string s = A; VT_ASSERT(a.same(s.data(), s.size()), "string conversion keeps every byte");
  vt_cover(want ? "equal" : "different");
}
template <class T> static void le() {
  T v = vt_sym<T>("v"); char c[sizeof(T)]; little_endian::encode(c, v);
  for (size_t i = 0; i < sizeof(T); i++) VT_ASSERT((uint8_t)c[i] == (uint8_t)((uint64_t)v >> (8 * i)), "byte order is little endian");
  T w; little_endian::decode(w, c); VT_ASSERT(w == v, "decode inverts encode");
}
extern "C" void h_endian() { switch (vt_choice(4, "width")) { case 0: le<uint8_t>(); break; case 1: le<uint16_t>(); break; case 2: le<uint32_t>(); break; default: le<uint64_t>(); } vt_cover("end"); }
