// A sorted key/value store standing in for the LevelDB / RocksDB libraries: ordered by unsigned bytes, atomic write
// batches, snapshot iterators, contents kept per database name across close and open.  Failures are injected by harnesses.
#pragma once
#include "vt.h"
#include <cstring>
#include <string>
#include <utility>
#include <vector>
namespace vt_kv {
typedef std::pair<std::string, std::string> KV;
struct Store { std::string name; std::vector<KV> kv /* in no order */; bool exists = false; int open = 0; unsigned writes = 0; };
Store *get(const std::string &name);
void reset();                                                          // forget every database
bool eq(const std::string &a, const char *b, size_t bl);
std::vector<KV> sorted(const Store &s);                                // what an iterator sees
int cmp(const char *a, size_t al, const char *b, size_t bl);
size_t lower(const std::vector<KV> &kv, const char *k, size_t n);      // first index whose key is >= k
void put(Store &s, const char *k, size_t kn, const char *v, size_t vn);
void del(Store &s, const char *k, size_t kn);
void log_put(std::string &rep, const char *k, size_t kn, const char *v, size_t vn);
void log_del(std::string &rep, const char *k, size_t kn);
void apply(Store &s, const std::string &rep);
extern bool fail_open, fail_write, fail_get;      // the next call of that kind reports an I/O error
}
