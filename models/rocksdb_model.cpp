#include "vt_kv.h"
#include <rocksdb/db.h>
namespace rocksdb {
Status WriteBatch::Put(const Slice &k, const Slice &v) { vt_kv::log_put(rep, k.data(), k.size(), v.data(), v.size()); return Status(); }
Status WriteBatch::Delete(const Slice &k) { vt_kv::log_del(rep, k.data(), k.size()); return Status(); }
Iterator::~Iterator() {}
DB::~DB() {}
namespace {
struct It : public Iterator {
  std::vector<vt_kv::KV> kv; long i = -1;
  bool Valid() const override { return i >= 0 && i < (long)kv.size(); }
  void SeekToFirst() override { i = kv.empty() ? -1 : 0; }
  void SeekToLast() override { i = (long)kv.size() - 1; }
  void Seek(const Slice &t) override { i = (long)vt_kv::lower(kv, t.data(), t.size()); }
  void Next() override { VT_ASSERT(Valid(), "rocksdb: Next on a valid iterator"); i++; }
  void Prev() override { VT_ASSERT(Valid(), "rocksdb: Prev on a valid iterator"); i--; }
  Slice key() const override { VT_ASSERT(Valid(), "rocksdb: key of a valid iterator"); return Slice(kv[i].first); }
  Slice value() const override { VT_ASSERT(Valid(), "rocksdb: value of a valid iterator"); return Slice(kv[i].second); }
  Status status() const override { return Status(); }
};
struct Db : public DB {
  vt_kv::Store *s;
  ~Db() override { s->open--; }
  Status Put(const WriteOptions &, const Slice &k, const Slice &v) override { vt_kv::put(*s, k.data(), k.size(), v.data(), v.size()); return Status(); }
  Status Delete(const WriteOptions &, const Slice &k) override { vt_kv::del(*s, k.data(), k.size()); return Status(); }
  Status Write(const WriteOptions &, WriteBatch *b) override {
    if (vt_kv::fail_write) { vt_kv::fail_write = false; return Status(5); }
    vt_kv::apply(*s, b->rep); return Status(); }
  Status Get(const ReadOptions &, const Slice &k, std::string *v) override {
    if (vt_kv::fail_get) { vt_kv::fail_get = false; return Status(5); }
    for (auto &e : s->kv) if (vt_kv::eq(e.first, k.data(), k.size())) { *v = e.second; return Status(); }
    return Status(1); }
  Iterator *NewIterator(const ReadOptions &) override { It *i = new It; i->kv = vt_kv::sorted(*s); return i; }
};
}
Status DB::Open(const Options &o, const std::string &name, DB **db) {
  *db = nullptr;
  if (vt_kv::fail_open) { vt_kv::fail_open = false; return Status(5); }
  vt_kv::Store *s = vt_kv::get("rocks:" + name);
  if (!s->exists && !o.create_if_missing) return Status(4);
  if (s->open) return Status(5);
  s->exists = true; s->open++;
  Db *d = new Db; d->s = s; *db = d; return Status();
}
}
