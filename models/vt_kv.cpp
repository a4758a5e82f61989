#include "vt_kv.h"
namespace vt_kv {
bool fail_open, fail_write, fail_get;
static std::vector<Store *> *all;
Store *get(const std::string &name) {
  if (!all) all = new std::vector<Store *>;
  for (Store *s : *all) if (s->name == name) return s;
  Store *s = new Store; s->name = name; all->push_back(s); return s;
}
void reset() { if (all) { for (Store *s : *all) delete s; delete all; all = nullptr; } fail_open = fail_write = fail_get = false; }
int cmp(const char *a, size_t al, const char *b, size_t bl) {
  const size_t n = al < bl ? al : bl;
  const int r = n ? memcmp(a, b, n) : 0;
  return r ? r : al < bl ? -1 : al > bl ? 1 : 0;
}
bool eq(const std::string &a, const char *b, size_t bl) { return a.size() == bl && (!bl || memcmp(a.data(), b, bl) == 0); }
std::vector<KV> sorted(const Store &s) {
  std::vector<KV> r;
  for (const KV &e : s.kv) r.insert(r.begin() + lower(r, e.first.data(), e.first.size()), e);
  return r;
}
size_t lower(const std::vector<KV> &kv, const char *k, size_t n) {
  size_t i = 0;
  while (i < kv.size() && cmp(kv[i].first.data(), kv[i].first.size(), k, n) < 0) i++;
  return i;
}
void put(Store &s, const char *k, size_t kn, const char *v, size_t vn) {
  for (KV &e : s.kv) if (eq(e.first, k, kn)) { e.second.assign(v, vn); return; }
  s.kv.push_back(KV(std::string(k, kn), std::string(v, vn)));
}
void del(Store &s, const char *k, size_t kn) {
  for (size_t i = 0; i < s.kv.size(); i++) if (eq(s.kv[i].first, k, kn)) { s.kv.erase(s.kv.begin() + i); return; }
}
static void num(std::string &r, size_t n) { r.append((const char *)&n, sizeof n); }
void log_put(std::string &r, const char *k, size_t kn, const char *v, size_t vn) { r += 'P'; num(r, kn); num(r, vn); r.append(k, kn); r.append(v, vn); }
void log_del(std::string &r, const char *k, size_t kn) { r += 'D'; num(r, kn); num(r, 0); r.append(k, kn); }
void apply(Store &s, const std::string &r) {
  size_t p = 0; s.writes++;
  while (p < r.size()) {
    char op = r[p++]; size_t kn, vn; memcpy(&kn, r.data() + p, 8); p += 8; memcpy(&vn, r.data() + p, 8); p += 8;
    if (op == 'P') put(s, r.data() + p, kn, r.data() + p + kn, vn); else del(s, r.data() + p, kn);
    p += kn + vn;
  }
}
}
