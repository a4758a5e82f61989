// Minimal model of the C++ stream classes (used only for the symbolic build).
#pragma once
#include <iosfwd>
#include <string>
#include <cstdint>
#include <limits>
#include <type_traits>
#include <ios_fwd_vt.h>
extern "C" int vt_format_double(char *buf, int cap, double d, int prec);
extern "C" double vt_parse_double(const char *s, int isfloat);
extern "C" void vt_digits(char *buf, unsigned long len, unsigned long v);
namespace vt_model { const std::string *file_lookup(const std::string &name); }
namespace std {
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const fmtflags boolalpha = 1, dec = 2, hex = 4, oct = 8, fixed = 16, scientific = 32, floatfield = 48, basefield = 14, left = 64, right = 128, internal = 256, adjustfield = 448, skipws = 512, showbase = 1024, uppercase = 2048, showpoint = 4096, showpos = 8192, unitbuf = 16384;
  static const openmode in = 1, out = 2, app = 4, ate = 8, trunc = 16, binary = 32;
  static const seekdir beg = 0, cur = 1, end = 2;
  fmtflags fl = dec | skipws; iostate st = 0; int prec = 6; int wid = 0; char fc = ' ';
  fmtflags flags() const { return fl; } fmtflags flags(fmtflags f) { auto o = fl; fl = f; return o; }
  fmtflags setf(fmtflags f) { auto o = fl; fl |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = fl; fl = (fl & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl &= ~f; }
  streamsize precision() const { return prec; } streamsize precision(streamsize p) { auto o = prec; prec = (int)p; return o; }
  streamsize width() const { return wid; } streamsize width(streamsize p) { auto o = wid; wid = (int)p; return o; }
  bool good() const { return st == 0; } bool eof() const { return st & eofbit; } bool fail() const { return st & (failbit | badbit); } bool bad() const { return st & badbit; }
  iostate rdstate() const { return st; } void clear(iostate s = 0) { st = s; } void setstate(iostate s) { st |= s; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  virtual ~ios_base() {}
};
template <class C, class T> class basic_ios;
template <class C, class T> class basic_streambuf { public: basic_ios<C, T> *own = nullptr; virtual ~basic_streambuf() {} };
template <class C, class T> class basic_ios : public ios_base {
public:
  std::basic_string<C, T> buf; size_t rp = 0; bool sink = false;
  basic_streambuf<C, T> sb;
  basic_ios() {}
  basic_streambuf<C, T> *rdbuf() { sb.own = this; return &sb; }
  C fill() const { return fc; } C fill(C c) { C o = fc; fc = c; return o; }
};
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  void pad(const C *s, size_t n) {
    if (this->sink) { this->wid = 0; return; }
    size_t w = this->wid > 0 ? (size_t)this->wid : 0; this->wid = 0;
    if (w > n && !(this->fl & ios_base::left)) this->buf.append(w - n, this->fc);
    this->buf.append(s, n);
    if (w > n && (this->fl & ios_base::left)) this->buf.append(w - n, this->fc);
  }
  basic_ostream &put(C c) { if (!this->sink) this->buf.push_back(c); return *this; }
  basic_ostream &write(const C *s, streamsize n) { if (!this->sink) this->buf.append(s, n); return *this; }
  basic_ostream &flush() { return *this; }
  void num(unsigned long long v, bool neg) {
    char b[72]; int i = 72; unsigned base = (this->fl & ios_base::hex) ? 16 : (this->fl & ios_base::oct) ? 8 : 10;
    const char *d = (this->fl & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
    if (base == 10) { unsigned n = 1; unsigned long long p = 10; while (n < 20 && v >= p) { n++; p *= 10; } i -= n; vt_digits(b + i, n, v); }
    else do { b[--i] = d[v % base]; v /= base; } while (v);
    if (neg) b[--i] = '-';
    pad(b + i, 72 - i);
  }
  template <class I> void snum(I v) { if (v < 0 && !(this->fl & (ios_base::hex | ios_base::oct))) num(0ULL - (unsigned long long)(long long)v, true); else num((unsigned long long)(typename std::make_unsigned<I>::type)v, false); }
  basic_ostream &operator<<(bool v) { if (this->fl & ios_base::boolalpha) { if (v) pad("true", 4); else pad("false", 5); } else num(v, false); return *this; }
  basic_ostream &operator<<(short v) { if (!this->sink) snum(v); return *this; }
  basic_ostream &operator<<(unsigned short v) { if (!this->sink) num(v, false); return *this; }
  basic_ostream &operator<<(int v) { if (!this->sink) snum(v); return *this; }
  basic_ostream &operator<<(unsigned v) { if (!this->sink) num(v, false); return *this; }
  basic_ostream &operator<<(long v) { if (!this->sink) snum(v); return *this; }
  basic_ostream &operator<<(unsigned long v) { if (!this->sink) num(v, false); return *this; }
  basic_ostream &operator<<(long long v) { if (!this->sink) snum(v); return *this; }
  basic_ostream &operator<<(unsigned long long v) { if (!this->sink) num(v, false); return *this; }
  basic_ostream &operator<<(double v) { if (!this->sink) { char b[512]; int n = vt_format_double(b, 512, v, (this->fl & ios_base::fixed) ? 1000 + this->prec : (this->fl & ios_base::scientific) ? 2000 + this->prec : this->prec); pad(b, n); } return *this; }
  basic_ostream &operator<<(float v) { return *this << (double)v; }
  basic_ostream &operator<<(long double v) { return *this << (double)v; }
  basic_ostream &operator<<(const void *p) { if (!this->sink) { this->buf += "0x"; num((unsigned long long)(uintptr_t)p, false); } return *this; }
  basic_ostream &operator<<(basic_streambuf<C, T> *q) { auto *o = q->own; if (!this->sink) this->buf.append(o->buf, o->rp, std::string::npos); o->rp = o->buf.size(); return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream() {}
};
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put('\0'); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { if (!o.sink) o.pad(s, T::length(s)); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { o.pad(&c, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = (char)c; o.pad(&d, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = (char)c; o.pad(&d, 1); return o; }
template <class T, class A> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const basic_string<char, T, A> &s) { if (!o.sink) o.pad(s.data(), s.size()); return o; }
struct vt_setprecision { int n; }; struct vt_setw { int n; }; struct vt_setfill { char c; };
inline vt_setprecision setprecision(int n) { return {n}; } inline vt_setw setw(int n) { return {n}; } inline vt_setfill setfill(char c) { return {c}; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, vt_setprecision p) { o.prec = p.n; return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, vt_setw p) { o.wid = p.n; return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, vt_setfill p) { o.fc = p.c; return o; }
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  streamsize gc = 0;
  static bool sp(C c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool prep(bool ws = true) {
    if (!this->good()) { this->setstate(ios_base::failbit); return false; }
    if (ws && (this->fl & ios_base::skipws)) {
      while (this->rp < this->buf.size() && sp(this->buf[this->rp])) this->rp++;
      if (this->rp >= this->buf.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
    }
    return true;
  }
  template <class I> basic_istream &rdint(I &v) {
    if (!prep()) { return *this; }
    bool neg = false; size_t &p = this->rp; auto &b = this->buf;
    if (p < b.size() && (b[p] == '-' || b[p] == '+')) { neg = b[p] == '-'; p++; }
    unsigned long long acc = 0; bool any = false, ovf = false;
    const bool sgn = std::is_signed<I>::value;
    unsigned long long lim = sgn ? (unsigned long long)std::numeric_limits<I>::max() + (neg ? 1 : 0) : (unsigned long long)std::numeric_limits<I>::max();
    while (p < b.size() && b[p] >= '0' && b[p] <= '9') { unsigned d = b[p] - '0'; any = true; p++; if (ovf) continue; if (acc > ~0ULL / 10) { ovf = true; continue; } unsigned long long n = acc * 10; if (n > ~0ULL - d) { ovf = true; continue; } acc = n + d; if (acc > lim) ovf = true; }
    if (p >= b.size()) this->setstate(ios_base::eofbit);
    if (!any) { v = 0; this->setstate(ios_base::failbit); return *this; }
    if (ovf) { v = sgn ? (neg ? std::numeric_limits<I>::min() : std::numeric_limits<I>::max()) : std::numeric_limits<I>::max(); this->setstate(ios_base::failbit); return *this; }
    v = (I)(neg ? 0ULL - acc : acc); return *this;
  }
  basic_istream &operator>>(short &v) { return rdint(v); } basic_istream &operator>>(unsigned short &v) { return rdint(v); }
  basic_istream &operator>>(int &v) { return rdint(v); } basic_istream &operator>>(unsigned &v) { return rdint(v); }
  basic_istream &operator>>(long &v) { return rdint(v); } basic_istream &operator>>(unsigned long &v) { return rdint(v); }
  basic_istream &operator>>(long long &v) { return rdint(v); } basic_istream &operator>>(unsigned long long &v) { return rdint(v); }
  basic_istream &operator>>(bool &v) {
    if (!(this->fl & ios_base::boolalpha)) { long x = -1; size_t save = this->st; (void)save; rdint(x); if (this->fail()) { v = false; return *this; } if (x == 0) v = false; else if (x == 1) v = true; else { v = true; this->setstate(ios_base::failbit); } return *this; }
    if (!prep()) return *this;
    const char *w[2] = {"false", "true"}; size_t n[2] = {5, 4}; bool alive[2] = {true, true}; size_t k = 0; int got = -1;
    while (true) {
      for (int i = 0; i < 2; i++) if (alive[i] && k == n[i]) got = i;
      if (got >= 0) break;
      if (this->rp >= this->buf.size()) { this->setstate(ios_base::eofbit); break; }
      C c = this->buf[this->rp]; bool any = false;
      for (int i = 0; i < 2; i++) { if (alive[i] && w[i][k] == c) any = true; else alive[i] = false; }
      if (!any) break;
      this->rp++; k++;
    }
    if (got < 0) { v = false; this->setstate(ios_base::failbit); } else { v = got; if (this->rp >= this->buf.size()) this->setstate(ios_base::eofbit); }
    return *this;
  }
  basic_istream &operator>>(double &v) { return rddbl(v, 0); }
  basic_istream &rddbl(double &v, int isf) {
    if (!prep()) return *this;
    std::string t; size_t &p = this->rp; auto &b = this->buf; bool dig = false, dot = false, e = false, edig = false;
    if (p < b.size() && (b[p] == '-' || b[p] == '+')) t += b[p++];
    while (p < b.size()) {
      C c = b[p];
      if (c >= '0' && c <= '9') { if (e) edig = true; else dig = true; }
      else if (c == '.' && !dot && !e) dot = true;
      else if ((c == 'e' || c == 'E') && !e && dig) { e = true; t += c; p++; if (p < b.size() && (b[p] == '+' || b[p] == '-')) t += b[p++]; continue; }
      else break;
      t += c; p++;
    }
    if (p >= b.size()) this->setstate(ios_base::eofbit);
    if (!dig || (e && !edig)) { v = 0; this->setstate(ios_base::failbit); return *this; }
    v = vt_parse_double(t.c_str(), isf); return *this;
  }
  basic_istream &operator>>(float &v) { double d = 0; rddbl(d, 1); v = (float)d; return *this; }
  basic_istream &operator>>(long double &v) { double d = 0; *this >> d; v = d; return *this; }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  int get() { gc = 0; if (!prep(false)) return -1; if (this->rp >= this->buf.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return -1; } gc = 1; return (unsigned char)this->buf[this->rp++]; }
  basic_istream &get(C &c) { int x = get(); if (x >= 0) c = (C)x; return *this; }
  int peek() { if (!this->good()) return -1; if (this->rp >= this->buf.size()) { this->setstate(ios_base::eofbit); return -1; } return (unsigned char)this->buf[this->rp]; }
  basic_istream &unget() { this->st &= ~ios_base::eofbit; if (this->rp) this->rp--; return *this; }
  basic_istream &putback(C) { return unget(); }
  basic_istream &ignore(streamsize n = 1, int d = -1) { while (n-- > 0) { int c = get(); if (c < 0) { this->st &= ~ios_base::failbit; break; } if (c == d) break; } return *this; }
  basic_istream &read(C *s, streamsize n) { gc = 0; while (gc < n && this->rp < this->buf.size()) s[gc++] = this->buf[this->rp++]; if (gc < n) this->setstate(ios_base::eofbit | ios_base::failbit); return *this; }
  streamsize gcount() const { return gc; }
  streamoff tellg() { return this->fail() ? -1 : (streamoff)this->rp; }
  basic_istream &seekg(streamoff o) { this->st &= ~ios_base::eofbit; this->rp = o; return *this; }
  basic_istream() {}
};
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &c) { if (i.prep()) { if (i.rp >= i.buf.size()) i.setstate(ios_base::eofbit | ios_base::failbit); else c = i.buf[i.rp++]; } return i; }
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, unsigned char &c) { return i >> (char &)c; }
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, signed char &c) { return i >> (char &)c; }
template <class T, class A> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, basic_string<char, T, A> &s) {
  if (!i.prep()) return i;
  s.clear();
  while (i.rp < i.buf.size() && !i.sp(i.buf[i.rp])) s.push_back(i.buf[i.rp++]);
  if (i.rp >= i.buf.size()) i.setstate(ios_base::eofbit);
  if (s.empty()) i.setstate(ios_base::failbit);
  return i;
}

template <class T, class A> basic_istream<char, T> &getline(basic_istream<char, T> &i, basic_string<char, T, A> &s, char d = '\n') {
  if (!i.prep(false)) return i;
  s.clear(); bool got = false;
  while (i.rp < i.buf.size()) { char c = i.buf[i.rp++]; got = true; if (c == d) return i; s.push_back(c); }
  i.setstate(ios_base::eofbit); if (!got) i.setstate(ios_base::failbit);
  return i;
}
template <class T, class A> basic_istream<char, T> &getline(basic_istream<char, T> &&i, basic_string<char, T, A> &s, char d = '\n') { return getline(i, s, d); }
template <class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (i.rp < i.buf.size() && i.sp(i.buf[i.rp])) i.rp++; if (i.rp >= i.buf.size()) i.setstate(ios_base::eofbit); return i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
public:
  basic_stringstream() {} explicit basic_stringstream(ios_base::openmode) {}
  explicit basic_stringstream(const basic_string<C, T, A> &s, ios_base::openmode = 3) { this->buf = s; wr = 0; }
  size_t wr = 0;
  basic_string<C, T, A> str() const { return this->buf; } void str(const basic_string<C, T, A> &s) { this->buf = s; this->rp = 0; }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
public:
  basic_istringstream() {} explicit basic_istringstream(const basic_string<C, T, A> &s, ios_base::openmode = 1) { this->buf = s; }
  basic_string<C, T, A> str() const { return this->buf; } void str(const basic_string<C, T, A> &s) { this->buf = s; this->rp = 0; }
};
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
public:
  basic_ostringstream() {} explicit basic_ostringstream(const basic_string<C, T, A> &s, ios_base::openmode = 2) { this->buf = s; }
  basic_string<C, T, A> str() const { return this->buf; } void str(const basic_string<C, T, A> &s) { this->buf = s; }
};
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_ifstream : public basic_istream<C, T> {
public:
  bool op = false;
  basic_ifstream() {} explicit basic_ifstream(const char *n, ios_base::openmode = 1) { open(n); } explicit basic_ifstream(const std::string &n, ios_base::openmode = 1) { open(n); }
  void open(const std::string &n, ios_base::openmode = 1) { const std::string *c = vt_model::file_lookup(n); if (c) { this->buf = *c; op = true; } else this->setstate(ios_base::failbit); }
  bool is_open() const { return op; } void close() { op = false; }
};
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> {
public:
  basic_ofstream() {} explicit basic_ofstream(const std::string &, ios_base::openmode = 2) { this->sink = true; }
  void open(const std::string &, ios_base::openmode = 2) { this->sink = true; } bool is_open() const { return true; } void close() {}
};
template <class C, class T> class basic_fstream : public basic_iostream<C, T> {
public: basic_fstream() {} bool is_open() const { return false; } void close() {} };
template <class S, class V, class = typename std::enable_if<!std::is_lvalue_reference<S>::value && std::is_base_of<ios_base, S>::value>::type> S &&operator>>(S &&s, V &&v) { static_cast<istream &>(s) >> v; return (S &&)s; }
template <class S, class V, class = typename std::enable_if<!std::is_lvalue_reference<S>::value && std::is_base_of<ios_base, S>::value>::type> S &&operator<<(S &&s, const V &v) { static_cast<ostream &>(s) << v; return (S &&)s; }
extern ostream cout, cerr, clog; extern istream cin;
}
