// std::to_string's digit generator, modelled relationally (see vt_digits in the engine)
#ifndef _GLIBCXX_CHARCONV_H
#define _GLIBCXX_CHARCONV_H 1
#include <bits/c++config.h>
extern "C" void vt_digits(char *buf, unsigned long len, unsigned long v);
namespace std { namespace __detail {
template <typename T> inline unsigned __to_chars_len(T v, int base = 10) noexcept {
  unsigned n = 1; unsigned long long p = base;
  while (v >= p) { n++; if (p > ~0ULL / base) break; p *= base; }
  return n;
}
template <typename T> inline void __to_chars_10_impl(char *f, unsigned len, T v) noexcept { vt_digits(f, len, v); }
}}
#endif
