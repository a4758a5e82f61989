// LevelDB's library symbols over vt_kv (the headers are the real ones)
#include "vt_kv.h"
#include <leveldb/db.h>
#include <leveldb/write_batch.h>
namespace leveldb {
Options::Options() : comparator(nullptr), env(nullptr) {}
Status::Status(Code code, const Slice &msg, const Slice &) {
  const uint32_t n = msg.size(); char *r = new char[n + 5]; memcpy(r, &n, 4); r[4] = (char)code; memcpy(r + 5, msg.data(), n); state_ = r; }
const char *Status::CopyState(const char *s) { uint32_t n; memcpy(&n, s, 4); char *r = new char[n + 5]; memcpy(r, s, n + 5); return r; }
std::string Status::ToString() const { return state_ ? "error" : "OK"; }
class WriteBatchInternal { public: static std::string &rep(WriteBatch *b) { return b->rep_; } };
WriteBatch::WriteBatch() {}
WriteBatch::~WriteBatch() {}
void WriteBatch::Put(const Slice &k, const Slice &v) { vt_kv::log_put(rep_, k.data(), k.size(), v.data(), v.size()); }
void WriteBatch::Delete(const Slice &k) { vt_kv::log_del(rep_, k.data(), k.size()); }
void WriteBatch::Clear() { rep_.clear(); }
Iterator::Iterator() { memset((void *)&cleanup_head_, 0, sizeof cleanup_head_); }
Iterator::~Iterator() {}
DB::~DB() {}
Snapshot::~Snapshot() {}
namespace {
struct It : public Iterator {
  std::vector<vt_kv::KV> kv; long i = -1;
  bool Valid() const override { return i >= 0 && i < (long)kv.size(); }
  void SeekToFirst() override { i = kv.empty() ? -1 : 0; }
  void SeekToLast() override { i = (long)kv.size() - 1; }
  void Seek(const Slice &t) override { i = (long)vt_kv::lower(kv, t.data(), t.size()); }
  void Next() override { VT_ASSERT(Valid(), "leveldb: Next on a valid iterator"); i++; }
  void Prev() override { VT_ASSERT(Valid(), "leveldb: Prev on a valid iterator"); i--; }
  Slice key() const override { VT_ASSERT(Valid(), "leveldb: key of a valid iterator"); return Slice(kv[i].first); }
  Slice value() const override { VT_ASSERT(Valid(), "leveldb: value of a valid iterator"); return Slice(kv[i].second); }
  Status status() const override { return Status(); }
};
struct Db : public DB {
  vt_kv::Store *s;
  ~Db() override { s->open--; }
  Status Put(const WriteOptions &, const Slice &k, const Slice &v) override { vt_kv::put(*s, k.data(), k.size(), v.data(), v.size()); return Status(); }
  Status Delete(const WriteOptions &, const Slice &k) override { vt_kv::del(*s, k.data(), k.size()); return Status(); }
  Status Write(const WriteOptions &, WriteBatch *b) override {
    if (vt_kv::fail_write) { vt_kv::fail_write = false; return Status::IOError("injected"); }
    vt_kv::apply(*s, WriteBatchInternal::rep(b)); return Status(); }
  Status Get(const ReadOptions &, const Slice &k, std::string *v) override {
    if (vt_kv::fail_get) { vt_kv::fail_get = false; return Status::IOError("injected"); }
    for (auto &e : s->kv) if (vt_kv::eq(e.first, k.data(), k.size())) { *v = e.second; return Status(); }
    return Status::NotFound("not found"); }
  Iterator *NewIterator(const ReadOptions &) override { It *i = new It; i->kv = vt_kv::sorted(*s); return i; }
  const Snapshot *GetSnapshot() override { return nullptr; }
  void ReleaseSnapshot(const Snapshot *) override {}
  bool GetProperty(const Slice &, std::string *) override { return false; }
  void GetApproximateSizes(const Range *, int, uint64_t *) override {}
  void CompactRange(const Slice *, const Slice *) override {}
};
}
Status DB::Open(const Options &o, const std::string &name, DB **db) {
  *db = nullptr;
  if (vt_kv::fail_open) { vt_kv::fail_open = false; return Status::IOError("injected"); }
  vt_kv::Store *s = vt_kv::get(name);
  if (!s->exists && !o.create_if_missing) return Status::InvalidArgument("does not exist");
  if (s->open) return Status::IOError("lock held");
  s->exists = true; s->open++;
  Db *d = new Db; d->s = s; *db = d; return Status();
}
}
