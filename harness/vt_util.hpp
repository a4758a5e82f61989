// Shared by the harnesses: symbolic buffers of chosen length, symbolic types.
#pragma once
#include "vt.h"
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "hxhim/constants.h"
#include "utils/Blob.hpp"
#include "utils/memory.hpp"
// an exactly sized heap buffer with symbolic contents, released at the end of the scope
struct Buf {
  char *p; size_t n;
  Buf() : p(nullptr), n(0) {}
  Buf(size_t n_, const char *name) : p((char *)malloc(n_ ? n_ : 1)), n(n_) { vt_make_symbolic(p, n, name); }
  Buf(const Buf &) = delete;
  ~Buf() { free(p); }
  bool same(const void *q, size_t m) const { if (m != n) return false; bool r = true; for (size_t i = 0; i < n; i++) r &= p[i] == ((const char *)q)[i]; return r; }
  bool same(const Buf &o) const { return same(o.p, o.n); }
  Blob ref(hxhim_data_t t) const { return ReferenceBlob(p, n, t); }
};
static inline bool bytes_eq(const void *a, const void *b, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r &= ((const char *)a)[i] == ((const char *)b)[i]; return r; }
static inline hxhim_data_t sym_type(const char *name) { uint8_t t = vt_sym<uint8_t>(name); vt_assume(t < HXHIM_DATA_MAX_KNOWN); return (hxhim_data_t)t; }
