// The part of the RocksDB interface the project uses, for symbolic execution (RocksDB's own headers and library are used natively).
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
namespace rocksdb {
class Slice { const char *d_; size_t n_;
 public:
  Slice() : d_(""), n_(0) {} Slice(const char *d, size_t n) : d_(d), n_(n) {} Slice(const std::string &s) : d_(s.data()), n_(s.size()) {} Slice(const char *s) : d_(s), n_(strlen(s)) {}
  const char *data() const { return d_; } size_t size() const { return n_; } bool empty() const { return n_ == 0; }
  std::string ToString() const { return std::string(d_, n_); }
  bool starts_with(const Slice &x) const { return n_ >= x.n_ && memcmp(d_, x.d_, x.n_) == 0; }
  char operator[](size_t i) const { return d_[i]; }
};
class Status { int c_ = 0; public: Status() {} explicit Status(int c) : c_(c) {} bool ok() const { return c_ == 0; } bool IsNotFound() const { return c_ == 1; } std::string ToString() const { return c_ ? "error" : "OK"; } };
struct Options { bool create_if_missing = false; bool error_if_exists = false; };
struct ReadOptions {}; struct WriteOptions { bool sync = false; };
class WriteBatch { public: std::string rep; Status Put(const Slice &k, const Slice &v); Status Delete(const Slice &k); };
class Iterator { public: virtual ~Iterator(); virtual bool Valid() const = 0; virtual void SeekToFirst() = 0; virtual void SeekToLast() = 0; virtual void Seek(const Slice &) = 0; virtual void Next() = 0; virtual void Prev() = 0; virtual Slice key() const = 0; virtual Slice value() const = 0; virtual Status status() const = 0; };
class DB { public: virtual ~DB(); static Status Open(const Options &, const std::string &, DB **);
  virtual Status Put(const WriteOptions &, const Slice &, const Slice &) = 0; virtual Status Delete(const WriteOptions &, const Slice &) = 0; virtual Status Write(const WriteOptions &, WriteBatch *) = 0; virtual Status Get(const ReadOptions &, const Slice &, std::string *) = 0; virtual Iterator *NewIterator(const ReadOptions &) = 0; };
}
