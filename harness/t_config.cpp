// What the configuration sources say is what the session does
#include "vt_client.hpp"
#include "hxhim/config.hpp"
#include "transport/backend/MPI/Options.hpp"
#include "datastore/datastores.hpp"
namespace vt_model { void file_set(const std::string &, const std::string &); void env_set(const std::string &, const std::string &); }
// a number of 1..D digits: its text has symbolic digits
static size_t longest = 2;
static std::string number(uint64_t &v, size_t D, const char *n) {
  const size_t k = D > 1 ? 1 + vt_choice(D, "digits") : 1; std::string s; v = 0;
  for (size_t i = 0; i < k; i++) { uint8_t d = vt_sym<uint8_t>(n); vt_assume(d <= 9); s.push_back((char)('0' + d)); v = v * 10 + d; }
  return s;
}
static std::string word(const char *n) { std::string s; const size_t k = longest > 1 ? 1 + vt_choice(2, "length") : 1; for (size_t i = 0; i < k; i++) { uint8_t c = vt_sym<uint8_t>(n); vt_assume(c > ' ' && c < 127 && c != ','); s.push_back((char)c); } return s; }
enum Kind { NUM, NUM1, NAME, TEXT, BOOL, GROUP, LIST, SYMBOL, OTHER };
// what a value is compared by
struct Val { uint64_t n = 0; std::string s; std::set<int> g; };
struct Key { const char *key; Kind kind; bool in_env; const char *names[8]; };
static const Key KEYS[] = {
  {"CLIENT_RATIO", NUM1, true, {}}, {"SERVER_RATIO", NUM1, true, {}}, {"DATASTORES_PER_SERVER", NUM1, true, {}}, {"START_ASYNC_PUTS_AT", NUM, true, {}}, {"MAXIMUM_OPS_PER_REQUEST", NUM1, true, {}}, {"MAXIMUM_SIZE_PER_REQUEST", NUM1, true, {}},
  {"HISTOGRAM_FIRST_N", NUM, true, {}}, {"DATASTORE_PREFIX", TEXT, true, {}}, {"DATASTORE_BASENAME", TEXT, true, {}}, {"DATASTORE_POSTFIX", TEXT, true, {}}, {"HISTOGRAM_READ_EXISTING", BOOL, true, {}}, {"HISTOGRAM_WRITE_AT_EXIT", BOOL, true, {}},
  {"LEVELDB_CREATE_IF_MISSING", BOOL, true, {}}, {"DEBUG_LEVEL", NAME, true, {"EMERGENCY", "ERROR", "DEBUG", "DEBUG3"}}, {"DATASTORE", NAME, true, {"IN_MEMORY", "LEVELDB", "ROCKSDB"}},
  {"HISTOGRAM_BUCKET_GEN_NAME", NAME, true, {"10_BUCKETS", "SQUARE_ROOT_CHOICE", "UNIFORM_LOG2", "UNIFORM_LOG10"}}, {"ENDPOINT_GROUP", GROUP, true, {}}, {"HISTOGRAM_TRACK_PREDICATES", LIST, false, {}}, {"ELEN_NEG_SYMBOL", SYMBOL, true, {}},
  {"ELEN_POS_SYMBOL", SYMBOL, true, {}}, {"ELEN_ENCODE_FLOAT_PRECISION", NUM, true, {}}, {"ELEN_ENCODE_DOUBLE_PRECISION", NUM, true, {}},
};
static const size_t NKEYS = sizeof KEYS / sizeof *KEYS;
static const int SIZE = 3;
static std::string value(const Key &k, Val &v) {
  switch (k.kind) {
    case NUM: case NUM1: { std::string s = number(v.n, longest > 1 ? vt_param("D", 2) : 1, "digit"); if (k.kind == NUM1) vt_assume(v.n > 0); return s; }
    case TEXT: return v.s = word("text");
    case BOOL: { static const char *const w[] = {"true", "false", "True", "FALSE"}; size_t i = vt_choice(4, "bool"); v.n = !(i & 1); return w[i]; }
    case NAME: { size_t n = 0; while (n < 8 && k.names[n]) n++; return v.s = k.names[vt_choice(n, "name")]; }
    case GROUP: { if (vt_choice(2, "all")) { for (int i = 0; i < SIZE; i++) v.g.insert(i); return "ALL"; }
      std::string s; for (size_t i = 0, n = 1 + vt_choice(2, "ranks"); i < n; i++) { uint64_t r; s += (i ? " " : "") + number(r, 1, "rank"); v.g.insert((int)r); } return s; }
    case LIST: { std::string s = word("name"); v.s = s; if (vt_choice(2, "second")) { std::string o = word("other"); s += "," + o; v.s = s; } return s; }
    case SYMBOL: { uint8_t c = vt_sym<uint8_t>("symbol"); bool neg = !strcmp(k.key, "ELEN_NEG_SYMBOL"); if (neg) vt_assume(c > ' ' && c <= '/'); else vt_assume(c >= ':' && c < 127); v.n = c; return std::string(1, (char)c); }
    default: return "";
  }
}
static bool is(hxhim_t *hx, const std::string &k, const Val &v) {
  auto *p = hx->p; auto &ds = p->range_server.datastores;
  if (k == "CLIENT_RATIO") return p->range_server.client_ratio == v.n;
  if (k == "SERVER_RATIO") return p->range_server.server_ratio == v.n;
  if (k == "DATASTORES_PER_SERVER") return ds.per_server == v.n;
  if (k == "START_ASYNC_PUTS_AT") return p->async_puts.enabled == (v.n > 0) && (!v.n || p->async_puts.max_queued == v.n);
  if (k == "MAXIMUM_OPS_PER_REQUEST") return p->queues.max_per_request.ops == v.n;
  if (k == "MAXIMUM_SIZE_PER_REQUEST") return p->queues.max_per_request.size == v.n;
  if (k == "HISTOGRAM_FIRST_N") return p->histograms.config.first_n == v.n;
  if (k == "DATASTORE_PREFIX") return ds.prefix == v.s;
  if (k == "DATASTORE_BASENAME") return ds.basename == v.s;
  if (k == "DATASTORE_POSTFIX") return ds.postfix == v.s;
  if (k == "HISTOGRAM_READ_EXISTING") return p->histograms.read == (bool)v.n;
  if (k == "HISTOGRAM_WRITE_AT_EXIT") return p->histograms.write == (bool)v.n;
  if (k == "LEVELDB_CREATE_IF_MISSING") return ds.config->type == Datastore::LEVELDB && static_cast<Datastore::LevelDB::Config *>(ds.config)->create_if_missing == (bool)v.n;
  if (k == "DEBUG_LEVEL") return p->debug_level == (v.s == "EMERGENCY" ? MLOG_EMERG : v.s == "CRITICAL" ? MLOG_CRIT : v.s == "ERROR" ? MLOG_ERR : v.s == "DEBUG" ? MLOG_DBG : MLOG_DBG3);
  if (k == "DATASTORE") return ds.config->type == (v.s == "IN_MEMORY" ? Datastore::IN_MEMORY : v.s == "LEVELDB" ? Datastore::LEVELDB : Datastore::ROCKSDB);
  if (k == "HISTOGRAM_BUCKET_GEN_NAME") return p->histograms.config.generator == (v.s == "10_BUCKETS" ? histogram_n_buckets : v.s == "SQUARE_ROOT_CHOICE" ? histogram_square_root_choice : histogram_uniform_logn) &&
    p->histograms.config.extra_args == (void *)(uintptr_t)(v.s == "UNIFORM_LOG2" ? 2 : v.s == "SQUARE_ROOT_CHOICE" ? 0 : 10);
  if (k == "ENDPOINT_GROUP") return p->transport.endpointgroup == v.g;
  if (k == "HISTOGRAM_TRACK_PREDICATES") { size_t c = v.s.find(','); auto &n = p->histograms.names; if (v.s.empty()) return n.empty(); if (c == std::string::npos) return n.size() == 1 && n.count(v.s); std::string a = v.s.substr(0, c), b = v.s.substr(c + 1); return n.count(a) && n.count(b) && n.size() == (a == b ? 1u : 2u); }
  auto &e = ds.transform.numeric_extra;
  if (k == "ELEN_NEG_SYMBOL") return (uint8_t)e.neg == v.n;
  if (k == "ELEN_POS_SYMBOL") return (uint8_t)e.pos == v.n;
  if (k == "ELEN_ENCODE_FLOAT_PRECISION") return e.float_precision == v.n;
  return e.double_precision == v.n;
}
// what a key is when nothing sets it
static Val standard(const std::string &k) {
  Val v; auto n = [&](uint64_t x) { v.n = x; }; auto s = [&](const char *x) { v.s = x; };
  if (k == "CLIENT_RATIO") n(2); else if (k == "SERVER_RATIO" || k == "DATASTORES_PER_SERVER") n(1); else if (k == "MAXIMUM_OPS_PER_REQUEST") n(128); else if (k == "MAXIMUM_SIZE_PER_REQUEST") n(1048576); else if (k == "HISTOGRAM_FIRST_N") n(10);
  else if (k == "DATASTORE_PREFIX") s("."); else if (k == "DATASTORE_BASENAME") s("hxhim"); else if (k == "HISTOGRAM_READ_EXISTING" || k == "HISTOGRAM_WRITE_AT_EXIT" || k == "LEVELDB_CREATE_IF_MISSING") n(1); else if (k == "DEBUG_LEVEL") s("CRITICAL");
  else if (k == "DATASTORE") s("LEVELDB"); else if (k == "HISTOGRAM_BUCKET_GEN_NAME") s("10_BUCKETS"); else if (k == "ENDPOINT_GROUP") for (int i = 0; i < SIZE; i++) v.g.insert(i);
  else if (k == "ELEN_NEG_SYMBOL") n((uint8_t)elen::NEG_SYMBOL); else if (k == "ELEN_POS_SYMBOL") n((uint8_t)elen::POS_SYMBOL); else if (k == "ELEN_ENCODE_FLOAT_PRECISION") n(elen::encode::FLOAT_PRECISION); else if (k == "ELEN_ENCODE_DOUBLE_PRECISION") n(elen::encode::DOUBLE_PRECISION);
  return v;
}
static void others_standard(hxhim_t *hx, const std::set<std::string> &but) {
  for (size_t i = 0; i < NKEYS; i++) if (!but.count(KEYS[i].key)) { std::string k = KEYS[i].key; if (k == "LEVELDB_CREATE_IF_MISSING" && but.count("DATASTORE")) continue; VT_ASSERT(is(hx, k, standard(k)), "a setting that is not given has its default"); }
}
extern "C" {
// one key, given in any of the three places
void h_source() {
  vt_mpi::size = SIZE;
  const Key &k = KEYS[vt_choice(NKEYS, "key")]; Val v = standard(k.key); std::string text; bool given = false;
  const size_t places = vt_choice(k.in_env ? 8 : 4, "places"); longest = places & (places - 1) ? 1 : 2;
  if (places & 1) {
    std::string t = value(k, v = Val()); given = true; static const char *const lead[] = {" ", "\t  "}, *const tail[] = {"\n", " \n", "\nMAXIMUM_OPS_PER_REQUEST2 7\n"};
    if (longest == 1) text = std::string(k.key) + " " + t + "\n"; else
    text = std::string("# a comment\n\n") + (vt_choice(2, "indent") ? "  " : "") + k.key + lead[vt_choice(2, "space")] + t + tail[vt_choice(3, "tail")];
    if (longest > 1 && vt_choice(2, "repeated")) text = std::string(k.key) + " 0x\n" + text;
    vt_model::file_set("hxhim.conf", text); vt_cover("file");
  }
  if (places & 2) { std::string t = value(k, v = Val()); given = true; vt_model::file_set("other.conf", std::string(k.key) + " " + t); vt_model::env_set("HXHIM_CONFIG", "other.conf"); vt_cover("named file"); }
  if (places & 4) { std::string t = value(k, v = Val()); given = true; vt_model::env_set(std::string("HXHIM_") + k.key, t); vt_cover("environment"); }
  if (!given) vt_cover("default");
  if (!strcmp(k.key, "ELEN_ENCODE_FLOAT_PRECISION")) vt_assume(v.n < (uint64_t)elen::encode::DOUBLE_PRECISION); if (!strcmp(k.key, "ELEN_ENCODE_DOUBLE_PRECISION")) vt_assume(v.n > (uint64_t)elen::encode::FLOAT_PRECISION);
  vt_leak_mark();
  { hxhim_t hx; VT_ASSERT(hxhim::Init(&hx, vt_mpi::comm(1)) == HXHIM_SUCCESS, "a session is initialized");
    VT_ASSERT(is(&hx, k.key, v), "a setting is what the last place that gives it says"); others_standard(&hx, {k.key});
    VT_ASSERT(hx.p->hash.func == hxhim_hash_RankModDatastores && hx.p->transport.config && hx.p->transport.config->type == Transport::TRANSPORT_NULL, "the default transport and hash");
    VT_ASSERT(hxhim::Close(&hx) == HXHIM_SUCCESS, "a session that was not opened closes"); }
  vt_check_leaks();
}
// two keys from different places
void h_pair() {
  vt_mpi::size = SIZE; static const char *const pick[] = {"CLIENT_RATIO", "DATASTORE", "DATASTORE_BASENAME", "ENDPOINT_GROUP", "START_ASYNC_PUTS_AT", "HISTOGRAM_FIRST_N", "HISTOGRAM_TRACK_PREDICATES", "ELEN_POS_SYMBOL", "HISTOGRAM_WRITE_AT_EXIT"}; const size_t n = sizeof pick / sizeof *pick;
  const size_t a = vt_choice(n, "first"), b = vt_choice(n, "second"); if (a == b) { vt_end(); return; }
  const Key *k[2] = {nullptr, nullptr}; for (size_t i = 0; i < NKEYS; i++) { if (!strcmp(KEYS[i].key, pick[a])) k[0] = &KEYS[i]; if (!strcmp(KEYS[i].key, pick[b])) k[1] = &KEYS[i]; }
  longest = 1; Val v[2]; std::string t[2] = {value(*k[0], v[0]), value(*k[1], v[1])}; const bool env = k[1]->in_env && vt_choice(2, "environment");
  vt_model::file_set("hxhim.conf", k[0]->key + std::string(" ") + t[0] + "\n" + (env ? "" : k[1]->key + std::string(" ") + t[1] + "\n")); if (env) vt_model::env_set(std::string("HXHIM_") + k[1]->key, t[1]);
  hxhim_t hx; VT_ASSERT(hxhim::Init(&hx, vt_mpi::comm(2)) == HXHIM_SUCCESS, "a session is initialized");
  VT_ASSERT(is(&hx, k[0]->key, v[0]) && is(&hx, k[1]->key, v[1]), "each of two settings is what was given"); others_standard(&hx, {k[0]->key, k[1]->key});
  vt_cover(env ? "environment" : "file"); hxhim::Close(&hx);
}
// the symbols and precisions of encoded numbers are used only if they are in order
void h_elen() {
  vt_mpi::size = SIZE; uint8_t c[2]; for (unsigned i = 0; i < 2; i++) { c[i] = vt_sym<uint8_t>("symbol"); vt_assume(c[i] > ' ' && c[i] < 127 && c[i] != '#'); } uint64_t n[2]; const std::string f = number(n[0], 2, "float precision"), d = number(n[1], 2, "double precision");
  const bool neg = vt_choice(2, "negative given"), flt = vt_choice(2, "float given"); const bool env = vt_choice(2, "environment"); std::string t;
  if (neg) t += std::string("ELEN_NEG_SYMBOL ") + (char)c[0] + "\n"; if (flt) t += "ELEN_ENCODE_FLOAT_PRECISION " + f + "\n"; t += "ELEN_ENCODE_DOUBLE_PRECISION " + d + "\n"; if (env) vt_model::env_set("HXHIM_ELEN_POS_SYMBOL", std::string(1, (char)c[1])); else t += std::string("ELEN_POS_SYMBOL ") + (char)c[1] + "\n";
  vt_model::file_set("hxhim.conf", t); if (!neg) c[0] = elen::NEG_SYMBOL; if (!flt) n[0] = elen::encode::FLOAT_PRECISION; const bool ok = c[0] < c[1] && n[0] < n[1];
  hxhim_t hx; VT_ASSERT(hxhim::Init(&hx, vt_mpi::comm(2)) == HXHIM_SUCCESS, "a session is initialized"); auto &e = hx.p->range_server.datastores.transform.numeric_extra;
  if (ok) { VT_ASSERT(e.neg == (char)c[0] && e.pos == (char)c[1] && (uint64_t)e.float_precision == n[0] && (uint64_t)e.double_precision == n[1], "symbols and precisions that are in order are used"); vt_cover("in order"); }
  else { VT_ASSERT(e.neg == elen::NEG_SYMBOL && e.pos == elen::POS_SYMBOL && e.float_precision == elen::encode::FLOAT_PRECISION && e.double_precision == elen::encode::DOUBLE_PRECISION, "others are refused"); vt_cover("out of order"); }
  hxhim::Close(&hx);
}
// transports and hashes
void h_transport() {
  vt_mpi::size = SIZE; static const char *const names[] = {"DATASTORE_0", "RANK_MOD_DATASTORES", "SUM_MOD_DATASTORES", "UTHASH_BER", "UTHASH_SAX", "UTHASH_FNV", "UTHASH_OAT", "UTHASH_JEN", "UTHASH_SFH"};
  static const hxhim_hash_t funcs[] = {hxhim_hash_DatastoreZero, hxhim_hash_RankModDatastores, hxhim_hash_SumModDatastores, hxhim_hash_uthash_BER, hxhim_hash_uthash_SAX, hxhim_hash_uthash_FNV, hxhim_hash_uthash_OAT, hxhim_hash_uthash_JEN, hxhim_hash_uthash_SFH};
  const size_t h = vt_choice(9, "hash"); uint64_t n; const std::string num = number(n, 2, "listeners"); vt_assume(n > 0); const bool env = vt_choice(2, "environment");
  std::string f = "TRANSPORT MPI\nNUM_LISTENERS " + num + "\n"; if (env) vt_model::env_set("HXHIM_HASH", names[h]); else f += std::string("HASH ") + names[h] + "\n"; vt_model::file_set("hxhim.conf", f);
  hxhim_t hx; VT_ASSERT(hxhim::Init(&hx, vt_mpi::comm(1)) == HXHIM_SUCCESS && hx.p->transport.config && hx.p->transport.config->type == Transport::TRANSPORT_MPI, "the transport is what was given");
  auto *o = static_cast<Transport::MPI::Options *>(hx.p->transport.config); VT_ASSERT(o->comm == vt_mpi::comm(1) && o->listeners == n && hx.p->hash.func == funcs[h] && hx.p->hash.name == names[h], "the MPI transport and the hash have the values given"); others_standard(&hx, {});
  vt_cover("end"); hxhim::Close(&hx);
}

// every function that sets something
}
struct Snap { std::vector<Val> v; uint64_t misc[14]; std::string hash; std::set<std::string> names; };
static Snap snap(hxhim_t *hx) {
  auto *p = hx->p; auto &ds = p->range_server.datastores; auto &e = ds.transform.numeric_extra; Snap s{};
  uint64_t m[] = {p->range_server.client_ratio, p->range_server.server_ratio, ds.per_server, p->queues.max_per_request.ops, p->queues.max_per_request.size, p->histograms.config.first_n, (uint64_t)p->histograms.config.generator, (uint64_t)p->histograms.config.extra_args,
    (uint64_t)p->debug_level, (uint64_t)p->bootstrap.comm, (uint64_t)p->hash.func, (uint64_t)p->hash.args, (uint64_t)(p->histograms.read + 2 * p->histograms.write + 4 * ds.open_init + 8 * p->async_puts.enabled) + 16 * p->async_puts.max_queued, e.float_precision * 64 + e.double_precision};
  memcpy(s.misc, m, sizeof m); s.hash = p->hash.name; for (auto &n : p->histograms.names) s.names.insert(n);
  Val t; t.s = ds.prefix + "|" + ds.basename + "|" + ds.postfix; t.s += e.neg; t.s += e.pos; t.g = p->transport.endpointgroup; t.n = (uint64_t)(uintptr_t)ds.config + (uint64_t)(uintptr_t)p->transport.config + ds.transform.encode.size() + ds.transform.decode.size(); s.v.push_back(t); return s;
}
static bool operator==(const Snap &a, const Snap &b) { for (int i = 0; i < 14; i++) if (a.misc[i] != b.misc[i]) return false; return a.hash == b.hash && a.names == b.names && a.v[0].s == b.v[0].s && a.v[0].g == b.v[0].g && a.v[0].n == b.v[0].n; }
static int gen(const double *, const size_t, double **, size_t *, void *) { return HISTOGRAM_SUCCESS; }
static int enc(void *, const size_t, void **, size_t *, void *) { return HXHIM_SUCCESS; }
static int hash1(hxhim_t *, void *, const size_t, void *, const size_t, void *) { return 0; }
enum { SETTERS = 27 };
// called with valid arguments (bad: with refusable ones); checks what it set
static int set(size_t w, hxhim_t *hx, bool bad, bool check, bool &refusable) {
  static uint64_t n; static int i; static char c[2]; static std::string s; static int extra; bool fresh = !check; refusable = true;
  if (fresh) { n = vt_sym<uint64_t>("n"); i = (int)vt_sym<uint32_t>("i"); c[0] = (char)vt_sym<uint8_t>("c"); c[1] = (char)vt_sym<uint8_t>("d"); s = word("s"); }
  auto *p = hx ? hx->p : nullptr; if (check) VT_ASSERT(p, "session");
  static const char *const hashes[] = {"DATASTORE_0", "SUM_MOD_DATASTORES", "UTHASH_JEN"}; static const hxhim_hash_t hf[] = {hxhim_hash_DatastoreZero, hxhim_hash_SumModDatastores, hxhim_hash_uthash_JEN}; static size_t pick;
#define GO(call, cond) { if (!check) return call; VT_ASSERT(cond, "an option that was set has the value given"); return HXHIM_SUCCESS; }
  switch (w) {
    case 0: refusable = false; GO(hxhim_set_debug_level(hx, i), p->debug_level == i)
    case 1: if (fresh) { if (bad) n = 0; else vt_assume(n > 0); } GO(hxhim_set_client_ratio(hx, n), p->range_server.client_ratio == n)
    case 2: if (fresh) { if (bad) n = 0; else vt_assume(n > 0); } GO(hxhim_set_server_ratio(hx, n), p->range_server.server_ratio == n)
    case 3: if (fresh) { if (bad) n = 0; else vt_assume(n > 0); } GO(hxhim_set_datastores_per_server(hx, n), p->range_server.datastores.per_server == n)
    case 4: refusable = false; GO(hxhim_set_open_init_datastore(hx, i), p->range_server.datastores.open_init == (i != 0))
    case 5: refusable = false; GO(hxhim_datastore_histograms(hx, i, !(i & 1)), p->histograms.read == (i != 0) && p->histograms.write == !(i & 1))
    case 6: refusable = false; GO(hxhim_set_datastore_name(hx, s.c_str(), "base", "post"), p->range_server.datastores.prefix == s && p->range_server.datastores.basename == "base" && p->range_server.datastores.postfix == "post")
    case 7: refusable = false; GO(hxhim_set_datastore_in_memory(hx), p->range_server.datastores.config->type == Datastore::IN_MEMORY)
    case 8: refusable = false; GO(hxhim_set_datastore_leveldb(hx, i), p->range_server.datastores.config->type == Datastore::LEVELDB && static_cast<Datastore::LevelDB::Config *>(p->range_server.datastores.config)->create_if_missing == (i != 0))
    case 9: refusable = false; GO(hxhim_set_datastore_rocksdb(hx, i), p->range_server.datastores.config->type == Datastore::ROCKSDB && static_cast<Datastore::RocksDB::Config *>(p->range_server.datastores.config)->create_if_missing == (i != 0))
    case 10: if (fresh) { pick = bad ? 0 : vt_choice(3, "hash"); } GO(hxhim_set_hash_name(hx, bad ? "NO_SUCH_HASH" : hashes[pick]), p->hash.func == hf[pick] && p->hash.name == hashes[pick] && !p->hash.args)
    case 11: GO(hxhim_set_hash_function(hx, s.c_str(), bad ? nullptr : hash1, &extra), p->hash.func == hash1 && p->hash.name == s && p->hash.args == &extra)
    case 12: refusable = false; GO(hxhim_set_transform_numeric_values(hx, c[0], c[1], n & 31, n >> 5 & 31), p->range_server.datastores.transform.numeric_extra.neg == c[0] && p->range_server.datastores.transform.numeric_extra.pos == c[1] && p->range_server.datastores.transform.numeric_extra.float_precision == (n & 31) && p->range_server.datastores.transform.numeric_extra.double_precision == (n >> 5 & 31))
    case 13: refusable = false; GO(hxhim_set_transform_function(hx, HXHIM_DATA_BYTE, enc, &extra, enc, &i), p->range_server.datastores.transform.encode[HXHIM_DATA_BYTE].first == enc && p->range_server.datastores.transform.encode[HXHIM_DATA_BYTE].second == &extra && p->range_server.datastores.transform.decode[HXHIM_DATA_BYTE].first == enc && p->range_server.datastores.transform.decode[HXHIM_DATA_BYTE].second == &i)
    case 14: refusable = false; GO(hxhim_set_transport_null(hx), p->transport.config->type == Transport::TRANSPORT_NULL)
    case 15: refusable = false; GO(hxhim_set_transport_mpi(hx, n), p->transport.config->type == Transport::TRANSPORT_MPI && static_cast<Transport::MPI::Options *>(p->transport.config)->listeners == n)
    case 16: if (fresh) vt_assume(bad ? i < 0 : i >= 0); GO(hxhim_add_endpoint_to_group(hx, i), p->transport.endpointgroup.count(i))
    case 17: refusable = false; GO(hxhim_clear_endpoint_group(hx), p->transport.endpointgroup.empty())
    case 18: refusable = false; if (fresh) vt_assume(n < 1u << 31); GO(hxhim_set_start_async_puts_at(hx, n), p->async_puts.enabled == (n != 0) && (!n || p->async_puts.max_queued == n))
    case 19: refusable = false; GO(hxhim_set_maximum_ops_per_request(hx, n), p->queues.max_per_request.ops == n)
    case 20: refusable = false; GO(hxhim_set_maximum_size_per_request(hx, n), p->queues.max_per_request.size == n)
    case 21: refusable = false; GO(hxhim_set_histogram_first_n(hx, n), p->histograms.config.first_n == n)
    case 22: GO(hxhim_set_histogram_bucket_gen_name(hx, bad ? "NO_SUCH_GENERATOR" : "UNIFORM_LOG2"), p->histograms.config.generator == histogram_uniform_logn && p->histograms.config.extra_args == (void *)(uintptr_t)2)
    case 23: GO(hxhim_set_histogram_bucket_gen_function(hx, bad ? nullptr : gen, &extra), p->histograms.config.generator == gen && p->histograms.config.extra_args == &extra)
    case 24: refusable = false; GO(hxhim_add_histogram_track_predicate(hx, s.data(), s.size()), p->histograms.names.count(s))
    case 25: refusable = false; GO(hxhim_add_histogram_track_predicate(hx, s), p->histograms.names.count(s))
    default: if (fresh) { if (bad) i = 0; } GO(hxhim_set_mpi_bootstrap(hx, bad ? MPI_COMM_NULL : vt_mpi::comm(2)), p->bootstrap.comm == vt_mpi::comm(2))
  }
}
extern "C" {
void h_set() {
  vt_mpi::size = SIZE; const size_t w = vt_choice(SETTERS, "function"), how = vt_choice(5, "how"); bool refusable;
  vt_leak_mark();
  { hxhim_t hx; VT_ASSERT(hxhim::Init(&hx, vt_mpi::comm(1)) == HXHIM_SUCCESS, "a session is initialized"); const Snap before = snap(&hx);
    if (how == 0) { VT_ASSERT(set(w, &hx, false, false, refusable) == HXHIM_SUCCESS, "an option can be set"); set(w, &hx, false, true, refusable); VT_ASSERT(set(w, &hx, false, false, refusable) == HXHIM_SUCCESS, "an option can be set again"); set(w, &hx, false, true, refusable); vt_cover("set"); }
    else if (how == 1) { int r = set(w, &hx, true, false, refusable); if (refusable) { VT_ASSERT(r == HXHIM_ERROR, "a bad value is refused"); if (w < 26) VT_ASSERT(snap(&hx) == before, "a refused value changes nothing"); vt_cover("bad"); } }
    else if (how == 2) { hx.p->running = true; VT_ASSERT(set(w, &hx, false, false, refusable) == HXHIM_ERROR, "options of a running session cannot be changed"); VT_ASSERT(snap(&hx) == before, "a refused call changes nothing"); hx.p->running = false; vt_cover("running"); }
    else if (how == 3) { VT_ASSERT(set(w, nullptr, false, false, refusable) == HXHIM_ERROR, "no session"); vt_cover("null"); }
    else { hxhim_t none; none.p = nullptr; VT_ASSERT(set(w, &none, false, false, refusable) == HXHIM_ERROR, "a closed session"); vt_cover("closed"); }
    VT_ASSERT(hxhim::Close(&hx) == HXHIM_SUCCESS, "a session that was not opened closes"); }
  vt_check_leaks();
}
}
