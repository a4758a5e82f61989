// A datastore of a chosen kind next to a reference list of what it must contain
#pragma once
#include "vt_util.hpp"
#include "datastore/InMemory.hpp"
#include "datastore/LevelDB.hpp"
#include "datastore/RocksDB.hpp"
#include "datastore/constants.hpp"
#include "datastore/triplestore.hpp"
#include "message/Messages.hpp"
#include "vt_kv.h"
#include <algorithm>
#include <list>
namespace DS = ::Datastore;
enum { MEM, LDB, RDB, BACKENDS };
static const char *BE[] = {"InMemory", "LevelDB", "RocksDB"};
static const char *DBNAME = "vt-database";
// directories are made without a file system: C28 decides mkdir_p
#include <sys/stat.h>
extern "C" int mkdir(const char *, mode_t) { return 0; }
static inline DS::Datastore *make_ds(unsigned be, DS::Transform::Callbacks *cb = nullptr, bool create = true) {
  if (be == MEM) return construct<DS::InMemory>(0, 0, cb);
  if (be == LDB) return construct<DS::LevelDB>(0, 0, cb, create);
  return construct<DS::RocksDB>(0, 0, cb, create);
}
static inline unsigned pick_backend() { const unsigned b = vt_param("BACKEND", 9); return b < BACKENDS ? b : (unsigned)vt_choice(BACKENDS, "backend"); }
typedef std::string Bytes;
static inline Bytes sym_bytes(size_t maxlen, const char *name, size_t minlen = 0) { const size_t n = minlen + vt_choice(maxlen - minlen + 1, name); Buf b(n, name); return Bytes(b.p, n); }
static inline Blob ref(const Bytes &b, hxhim_data_t t) { return ReferenceBlob((void *)b.data(), b.size(), t); }
// numbers are compared as numbers, which is what the solver's integer reasoning wants to see
static inline bool val_eq(const void *a, const void *b, size_t n, hxhim_data_t t) {
  if (n == 4 && (t == HXHIM_DATA_INT32 || t == HXHIM_DATA_UINT32)) { uint32_t x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x == y; }
  if (n == 8 && (t == HXHIM_DATA_INT64 || t == HXHIM_DATA_UINT64)) { uint64_t x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); return x == y; }
  return bytes_eq(a, b, n); }
static inline bool is(const Blob &b, const Bytes &s, hxhim_data_t t) { return b.size() == s.size() && val_eq(b.data(), s.data(), s.size(), t) && b.data_type() == t; }
static inline bool same(const Bytes &a, const Bytes &b) { return a.size() == b.size() && bytes_eq(a.data(), b.data(), a.size()); }
struct Rec { Bytes s, p; hxhim_data_t st, pt; Bytes o; hxhim_data_t ot; };
static inline bool same_pair(const Rec &a, const Rec &b) { if (a.s.size() != b.s.size() || a.p.size() != b.p.size() || a.st != b.st || a.pt != b.pt) return false; return bytes_eq(a.s.data(), b.s.data(), a.s.size()) & bytes_eq(a.p.data(), b.p.data(), a.p.size()); }
typedef std::vector<Rec> Recs;
static inline void model_put(Recs &m, const Rec &r) { for (Rec &x : m) if (same_pair(x, r)) { x.o = r.o; x.ot = r.ot; return; } m.push_back(r); }
static inline bool model_del(Recs &m, const Rec &r) { for (size_t i = 0; i < m.size(); i++) if (same_pair(m[i], r)) { m.erase(m.begin() + i); return true; } return false; }
static inline const Rec *model_get(const Recs &m, const Rec &r) { for (const Rec &x : m) if (same_pair(x, r)) return &x; return nullptr; }
// a response announces enough room for itself and travels unchanged
template <class R> static R *travel(R *res) {
  void *buf = nullptr; size_t z = 0;
  VT_ASSERT(Message::Packer::pack((const Message::Response::Response *)res, &buf, &z) == MESSAGE_SUCCESS, "a response can be packed");
  Message::Response::Response *r = nullptr;
  VT_ASSERT(Message::Unpacker::unpack(&r, buf, z) == MESSAGE_SUCCESS && r && r->count == res->count, "a response can be unpacked");
  dealloc(buf); destruct(res);
  return static_cast<R *>(r);
}
// the response is about the request's items, in order
template <class Q, class R> static void about(Q &req, R *res) {
  VT_ASSERT(res && res->count == req.count, "every item of a request is answered");
  for (size_t i = 0; i < req.count; i++)
    VT_ASSERT(res->orig.subjects[i].data() == req.orig.subjects[i] && res->orig.subjects[i].size() == req.subjects[i].size() && res->orig.subjects[i].data_type() == req.subjects[i].data_type() &&
      res->orig.predicates[i].data() == req.orig.predicates[i] && res->orig.predicates[i].size() == req.predicates[i].size() && res->orig.predicates[i].data_type() == req.predicates[i].data_type(), "answers name the requester's subject and predicate");
}
static inline void ds_put(DS::Datastore *d, Recs &m, const Recs &items) {
  Message::Request::BPut req(items.size());
  for (const Rec &r : items) req.add(ref(r.s, r.st), ref(r.p, r.pt), ref(r.o, r.ot));
  Message::Response::BPut *res = d->operate(&req); about(req, res);
  for (size_t i = 0; i < items.size(); i++) { VT_ASSERT(res->statuses[i] == DATASTORE_SUCCESS, "a PUT succeeds"); model_put(m, items[i]); }
  destruct(travel(res));
}
static inline void ds_del(DS::Datastore *d, Recs &m, const Recs &items) {
  Message::Request::BDelete req(items.size());
  for (const Rec &r : items) req.add(ref(r.s, r.st), ref(r.p, r.pt));
  Message::Response::BDelete *res = d->operate(&req); about(req, res);
  for (size_t i = 0; i < items.size(); i++) if (model_del(m, items[i])) VT_ASSERT(res->statuses[i] == DATASTORE_SUCCESS, "deleting a stored pair succeeds");
  destruct(travel(res));
}
static inline void ds_get(DS::Datastore *d, const Recs &m, const Recs &items) {
  Message::Request::BGet req(items.size());
  for (const Rec &r : items) req.add(ref(r.s, r.st), ref(r.p, r.pt), r.ot);
  Message::Response::BGet *res = d->operate(&req); about(req, res);
  res = travel(res);
  for (size_t i = 0; i < items.size(); i++) {
    const Rec *e = model_get(m, items[i]);
    VT_ASSERT((res->statuses[i] == DATASTORE_SUCCESS) == (e != nullptr), "GET succeeds exactly for stored pairs");
    if (e) { VT_ASSERT(is(res->objects[i], e->o, e->ot), "GET returns the last object put for the pair, with its type"); vt_cover("found"); }
    else { VT_ASSERT(!res->objects[i].data(), "a failed GET has no object"); vt_cover("missing"); }
  }
  destruct(res);
}
static inline void rm_db() { vt_kv::reset(); if (!vt_engine()) { int rc = system("rm -rf ./vt-database*"); (void)rc; } }
