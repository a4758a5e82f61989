// Models of the parts of the C/C++ runtime that live in shared libraries.
#include "vt.h"
#include <map>
#include <list>
#include <string>
#include <unordered_map>
#include <stdexcept>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <cerrno>
#include <vt_iostream.h>

// ---------------------------------------------------------------- std::list
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
// ---------------------------------------------------------------- hashtables
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const size_t primes[] = {1, 2, 3, 5, 7, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273};
  for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = n; return n;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize || ne + ni > nb) { size_t want = ne + ni + 1; if (want < nb * 2) want = nb * 2; return {true, _M_next_bkt(want)}; }
  return {false, 0};
}
} 
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
// ---------------------------------------------------------------- red-black trees (kept as plain search trees)
typedef _Rb_tree_node_base N;
N *_Rb_tree_increment(N *x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const N *_Rb_tree_increment(const N *x) noexcept { return _Rb_tree_increment(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;   // header -> rightmost
  if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const N *_Rb_tree_decrement(const N *x) noexcept { return _Rb_tree_decrement(const_cast<N *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) noexcept {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) noexcept {
  N *y = z, *x;
  if (!z->_M_left) x = z->_M_right;
  else if (!z->_M_right) x = z->_M_left;
  else { y = z->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  N **link = (h._M_parent == z) ? &h._M_parent : (z->_M_parent->_M_left == z ? &z->_M_parent->_M_left : &z->_M_parent->_M_right);
  if (y != z) {
    if (y != z->_M_right) { y->_M_parent->_M_left = x; if (x) x->_M_parent = y->_M_parent; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    y->_M_left = z->_M_left; z->_M_left->_M_parent = y; *link = y; y->_M_parent = z->_M_parent; y->_M_color = z->_M_color;
  } else {
    *link = x; if (x) x->_M_parent = z->_M_parent;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { N *m = z->_M_right; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { N *m = z->_M_left; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  }
  return z;
}
// ---------------------------------------------------------------- exceptions
void __throw_out_of_range_fmt(const char *, ...) { throw std::out_of_range("out_of_range"); }
void __throw_out_of_range(const char *s) { throw std::out_of_range(s); }
void __throw_length_error(const char *s) { throw std::length_error(s); }
void __throw_logic_error(const char *s) { throw std::logic_error(s); }
void __throw_runtime_error(const char *s) { throw std::runtime_error(s); }
void __throw_invalid_argument(const char *s) { throw std::invalid_argument(s); }
void __throw_bad_alloc() { throw std::runtime_error("bad_alloc"); }
void __throw_bad_array_new_length() { throw std::runtime_error("bad_array_new_length"); }
void __throw_bad_cast() { throw std::runtime_error("bad_cast"); }
void __throw_bad_function_call() { throw std::runtime_error("bad_function_call"); }
void __throw_system_error(int) { throw std::runtime_error("system_error"); }
ostream cout, cerr, clog; istream cin;
namespace { struct SinkInit { SinkInit() { cout.sink = cerr.sink = clog.sink = true; } } sinkInit; }
// ---------------------------------------------------------------- threads
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr st, void (*)()) { struct T { static void *run(void *p) { _State_ptr s((_State *)p); s->_M_run(); return nullptr; } }; int t = vt_thread_create(T::run, st.release()); _M_id = id((__gthread_t)(uintptr_t)(t + 1)); }
void thread::join() { vt_thread_join((int)(uintptr_t)_M_id._M_thread - 1); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 1; }
extern "C" void vt_cond_wait(void *, void *); extern "C" void vt_cond_notify_one(void *); extern "C" void vt_cond_notify_all(void *);
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) { vt_cond_wait(this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { vt_cond_notify_one(this); }
void condition_variable::notify_all() noexcept { vt_cond_notify_all(this); }
}
// ---------------------------------------------------------------- C library
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) break; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
const void *vt_memchr(const void *, int, size_t) asm("memchr");
char *vt_strchr(const char *, int) asm("strchr"); char *vt_strrchr(const char *, int) asm("strrchr"); char *vt_strdup(const char *) asm("strdup");
const void *vt_memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return s + i; return nullptr; }
char *vt_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *vt_strrchr(const char *s, int c) { char *r = nullptr; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *vt_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; } int islower(int c) { return c >= 'a' && c <= 'z'; }
int tolower(int c) { return isupper(c) ? c + 32 : c; } int toupper(int c) { return islower(c) ? c - 32 : c; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); while (n-- && *s) *e++ = *s++; *e = 0; return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { d++; s++; } return d; }
void *mempcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return (char *)d + n; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = (char *)malloc(n + 1); for (size_t i = 0; i < n; i++) r[i] = s[i]; r[n] = 0; return r; }
char *vt_strstr(const char *, const char *) asm("strstr"); void *vt_memmem(const void *, size_t, const void *, size_t) asm("memmem"); void *vt_memrchr(const void *, int, size_t) asm("memrchr");
char *vt_strpbrk(const char *, const char *) asm("strpbrk");
char *vt_strstr(const char *h, const char *n) { size_t m = strlen(n); for (;; h++) { if (!strncmp(h, n, m)) return (char *)h; if (!*h) return nullptr; } }
void *vt_memmem(const void *h, size_t a, const void *n, size_t b) { const char *x = (const char *)h, *y = (const char *)n; for (size_t i = 0; b <= a && i <= a - b; i++) { size_t k = 0; while (k < b && x[i + k] == y[k]) k++; if (k == b) return (void *)(x + i); } return nullptr; }
void *vt_memrchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; while (n--) if (s[n] == (unsigned char)c) return (void *)(s + n); return nullptr; }
static bool among(char c, const char *s) { for (; *s; s++) if (*s == c) return true; return false; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && among(s[n], a)) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !among(s[n], a)) n++; return n; }
char *vt_strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : nullptr; }
char *strtok_r(char *s, const char *d, char **sv) { if (!s) s = *sv; s += strspn(s, d); if (!*s) { *sv = s; return nullptr; } char *e = s + strcspn(s, d); if (*e) *e++ = 0; *sv = e; return s; }
void qsort(void *b, size_t n, size_t z, int (*f)(const void *, const void *)) { char *p = (char *)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j && f(p + j * z, p + (j - 1) * z) < 0; j--) for (size_t k = 0; k < z; k++) { char t = p[j * z + k]; p[j * z + k] = p[(j - 1) * z + k]; p[(j - 1) * z + k] = t; } }
void *vt_bsearch(const void *, const void *, size_t, size_t, int (*)(const void *, const void *)) asm("bsearch");
void *vt_bsearch(const void *k, const void *b, size_t n, size_t z, int (*f)(const void *, const void *)) { size_t l = 0; while (l < n) { size_t m = (l + n) / 2; const char *q = (const char *)b + m * z; int c = f(k, q); if (!c) return (void *)q; if (c < 0) n = m; else l = m + 1; } return nullptr; }
int abs(int v) { return v < 0 ? -v : v; } long labs(long v) { return v < 0 ? -v : v; } long long llabs(long long v) { return v < 0 ? -v : v; }
int strcasecmp(const char *a, const char *b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); } int isprint(int c) { return c >= 32 && c < 127; } int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); } int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
static int vt_errno; int *__errno_location() { return &vt_errno; }
static unsigned long long stou(const char *s, char **end, int base, bool sgn) {
  const char *p = s; while (isspace(*p)) p++; bool neg = false; if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false, ovf = false; unsigned long long lim = sgn ? (neg ? 1ULL << 63 : (1ULL << 63) - 1) : ~0ULL;
  for (;; p++) { int d; if (isdigit(*p)) d = *p - '0'; else if (isalpha(*p)) d = tolower(*p) - 'a' + 10; else break; if (d >= base) break; any = true; if (v > (lim - d) / base) ovf = true; else v = v * base + d; }
  if (end) *end = (char *)(any ? p : s);
  if (ovf) { vt_errno = ERANGE; return lim; }
  return neg ? 0ULL - v : v;
}
int vt_atoi(const char *) asm("atoi"); long vt_atol(const char *) asm("atol"); int vt_atoi(const char *s) { return (int)stou(s, nullptr, 10, true); } long vt_atol(const char *s) { return (long)stou(s, nullptr, 10, true); }
long strtol(const char *s, char **e, int b) { return (long)stou(s, e, b, true); }
long long strtoll(const char *s, char **e, int b) { return (long long)stou(s, e, b, true); }
unsigned long strtoul(const char *s, char **e, int b) { return stou(s, e, b, false); }
unsigned long long strtoull(const char *s, char **e, int b) { return stou(s, e, b, false); }
// logging does nothing
int mlog(int, const char *, ...) { return 0; }
int mlog_open(char *, int, int, int, char *, int, int, int) { return 0; }
void mlog_close() {}
int mlog_setlogmask(int, int) { return 0; }
int mlog_setmasks(char *, int) { return 0; }
const char *mlog_facname(int) { return ""; }
}
namespace vt_model {
struct File { std::string name, content; };
static std::list<File> &files() { static std::list<File> f; return f; }
const std::string *file_lookup(const std::string &n) { for (auto &f : files()) if (f.name == n) return &f.content; return nullptr; }
void file_set(const std::string &n, const std::string &c) { for (auto &f : files()) if (f.name == n) { f.content = c; return; } files().push_back({n, c}); }
static std::list<File> &environment() { static std::list<File> f; return f; }
void env_set(const std::string &n, const std::string &c) { for (auto &f : environment()) if (f.name == n) { f.content = c; return; } environment().push_back({n, c}); }
}
extern "C" char *getenv(const char *n) { for (auto &f : vt_model::environment()) if (f.name == n) return (char *)f.content.c_str(); return nullptr; }

// ---------------------------------------------------------------- formatted output into buffers, numbers from text, exceptions' texts
extern "C" {
int vt_format_double(char *buf, int cap, double d, int prec); double vt_parse_double(const char *s, int isfloat);
int vsnprintf(char *out, size_t cap, const char *f, __builtin_va_list ap) {
  size_t n = 0; auto put = [&](char c) { if (n + 1 < cap) out[n] = c; n++; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    f++; if (*f == '%') { put('%'); continue; }
    bool left = false, zero = false, plus = false, alt = false, space = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') space = true; else break; }
    int width = 0, prec = -1, lng = 0; if (*f == '*') { width = __builtin_va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = __builtin_va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') lng = 8; else if (*f == 'h') lng = lng == -2 ? -1 : -2; else break; }
    char tmp[64]; std::string big; const char *body = tmp; size_t bl = 0; char sign = 0; const char *prefix = "";
    switch (*f) {
      case 'c': tmp[0] = (char)__builtin_va_arg(ap, int); bl = 1; zero = false; break;
      case 's': { body = __builtin_va_arg(ap, const char *); if (!body) body = "(null)"; while ((prec < 0 || bl < (size_t)prec) && body[bl]) bl++; zero = false; break; }
      case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': {
        unsigned long long v; const bool sg = *f == 'd' || *f == 'i';
        if (*f == 'p') { v = (unsigned long long)__builtin_va_arg(ap, void *); prefix = "0x"; }
        else if (lng == 8) v = __builtin_va_arg(ap, unsigned long long); else { const unsigned u = __builtin_va_arg(ap, unsigned); v = sg ? lng == -2 ? (unsigned long long)(short)u : lng == -1 ? (unsigned long long)(signed char)u : (unsigned long long)(int)u : lng == -2 ? (unsigned short)u : lng == -1 ? (unsigned char)u : u; }
        if (sg) { if ((long long)v < 0) { sign = '-'; v = 0 - v; } else if (plus) sign = '+'; else if (space) sign = ' '; }
        const unsigned b = *f == 'o' ? 8 : *f == 'x' || *f == 'X' || *f == 'p' ? 16 : 10; if (alt && b == 16 && v) prefix = *f == 'X' ? "0X" : "0x"; if (prec >= 0) zero = false;
        size_t k = sizeof(tmp); while (v || (prec != 0 && k == sizeof(tmp))) { const unsigned d = v % b; v /= b; tmp[--k] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; } while (prec > (int)(sizeof(tmp) - k)) tmp[--k] = '0';
        body = tmp + k; bl = sizeof(tmp) - k; break; }
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': { char d[512]; const int p = prec < 0 ? 6 : prec; vt_format_double(d, sizeof(d), __builtin_va_arg(ap, double), *f == 'f' || *f == 'F' ? 1000 + p : *f == 'e' || *f == 'E' ? 2000 + p : p); big = d; body = big.c_str(); bl = big.size(); if (*body == '-') { sign = '-'; body++; bl--; } else if (plus) sign = '+'; break; }
      default: __builtin_trap();
    }
    size_t pl = 0; while (prefix[pl]) pl++; const size_t all = bl + pl + !!sign; const size_t pad = (size_t)width > all ? width - all : 0;
    if (!left && !zero) for (size_t i = 0; i < pad; i++) put(' ');
    if (sign) put(sign); for (size_t i = 0; i < pl; i++) put(prefix[i]);
    if (!left && zero) for (size_t i = 0; i < pad; i++) put('0');
    for (size_t i = 0; i < bl; i++) put(body[i]);
    if (left) for (size_t i = 0; i < pad; i++) put(' ');
  }
  if (cap) out[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
int vsprintf(char *out, const char *f, __builtin_va_list ap) { return vsnprintf(out, (size_t)1 << 40, f, ap); }
int snprintf(char *out, size_t cap, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); const int r = vsnprintf(out, cap, f, ap); __builtin_va_end(ap); return r; }
int sprintf(char *out, const char *f, ...) { __builtin_va_list ap; __builtin_va_start(ap, f); const int r = vsprintf(out, f, ap); __builtin_va_end(ap); return r; }
static double vt_strtod(const char *s, char **end, int isf) {
  const char *p = s; while (isspace(*p)) p++; if (*p == '-' || *p == '+') p++; bool any = false; while (isdigit(*p)) { p++; any = true; } if (*p == '.') { p++; while (isdigit(*p)) { p++; any = true; } }
  if (!any) { if (end) *end = (char *)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char *q = p + 1; if (*q == '-' || *q == '+') q++; if (isdigit(*q)) { while (isdigit(*q)) q++; p = q; } }
  if (end) *end = (char *)p; const std::string t(s, p); return vt_parse_double(t.c_str(), isf);
}
double strtod(const char *s, char **e) { return vt_strtod(s, e, 0); }
float strtof(const char *s, char **e) { return (float)vt_strtod(s, e, 1); }
double vt_atof(const char *) asm("atof"); double vt_atof(const char *s) { return vt_strtod(s, nullptr, 0); }
extern "C" void __once_proxy();
int pthread_once(int *o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
}
// standard exceptions: (table, text)
namespace {
char excText[16][96]; unsigned excNext;
struct VtExc { const char *text; VtExc(const char *s) { char *d = excText[excNext++ % 16]; size_t i = 0; for (; i < 95 && s[i]; i++) d[i] = s[i]; d[i] = 0; text = d; } VtExc(const VtExc &) = default; virtual ~VtExc() {} virtual const char *what() const { return text; } };
}
#define VT_EXC(n, C) extern "C" { void vt_exc_##n##_1(void *s, const char *) asm("_ZNSt" C "C1EPKc"); void vt_exc_##n##_1(void *s, const char *t) { new (s) VtExc(t); } \
  void vt_exc_##n##_2(void *s, const std::string *) asm("_ZNSt" C "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"); void vt_exc_##n##_2(void *s, const std::string *t) { new (s) VtExc(t->c_str()); } \
  void vt_exc_##n##_3(void *s, const VtExc *) asm("_ZNSt" C "C1ERKS_"); void vt_exc_##n##_3(void *s, const VtExc *t) { new (s) VtExc(*t); } }
VT_EXC(a, "12out_of_range") VT_EXC(b, "16invalid_argument") VT_EXC(c, "12length_error") VT_EXC(d, "11logic_error") VT_EXC(e, "13runtime_error") VT_EXC(f, "11range_error") VT_EXC(g, "12domain_error") VT_EXC(h, "14overflow_error")
#include <mutex>
extern "C" void __once_proxy() { std::__once_call(); }
namespace std { __thread void *__once_callable; __thread void (*__once_call)(); }
