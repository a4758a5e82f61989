// Whole sessions: what is set before opening holds until closing, and stored data outlives the session
#include "vt_client.hpp"
#include "hxhim/private/Results.hpp"
static hxhim_data_t T; static uint8_t key[2]; static size_t encoded, decoded; static bool plain;
static int enc(void *src, const size_t n, void **dst, size_t *dn, void *extra) {
  VT_ASSERT(extra == &key[0], "an encoder gets the argument it was registered with"); encoded++;
  char *d = (char *)alloc(n + 1); for (size_t i = 0; i < n; i++) d[i] = ((char *)src)[i] ^ key[0]; d[n] = '!'; *dst = d; *dn = n + 1; return HXHIM_SUCCESS; }
static int dec(void *src, const size_t n, void **dst, size_t *dn, void *extra) {
  VT_ASSERT(extra == &key[1], "a decoder gets the argument it was registered with"); VT_ASSERT(n > 0 && ((char *)src)[n - 1] == '!', "a decoder gets what the encoder made"); decoded++;
  char *d = (char *)alloc(n); for (size_t i = 0; i + 1 < n; i++) d[i] = ((char *)src)[i] ^ key[0]; *dst = d; *dn = n - 1; return HXHIM_SUCCESS; }
static int wrong(void *, const size_t, void **, size_t *, void *) { VT_ASSERT(false, "a replaced function is not called"); return HXHIM_ERROR; }
static void with(hxhim_t *hx) {
  if (plain) { VT_ASSERT(hxhim_set_transform_function(hx, T, nullptr, nullptr, nullptr, nullptr) == HXHIM_SUCCESS, "a transform can be taken away"); return; }
  if (vt_param("TWICE", 0)) VT_ASSERT(hxhim_set_transform_function(hx, T, wrong, nullptr, wrong, nullptr) == HXHIM_SUCCESS, "a transform can be set");
  VT_ASSERT(hxhim_set_transform_function(hx, T, enc, &key[0], dec, &key[1]) == HXHIM_SUCCESS, "a transform can be set");
}
static Bytes coded(const Bytes &b) { Bytes r; for (char c : b) r.push_back(c ^ key[0]); r.push_back('!'); return r; }
static void put(hxhim_t *hx, Rec &r) {
  VT_ASSERT(hxhim::Put(hx, &r.s[0], r.s.size(), r.st, &r.p[0], r.p.size(), r.pt, &r.o[0], r.o.size(), r.ot, HXHIM_PUT_SPO) == HXHIM_SUCCESS, "a PUT is queued");
  hxhim::Results *res = hxhim::Flush(hx); int st; VT_ASSERT(res && res->Size() == 1, "a PUT has a result"); res->GoToHead(); VT_ASSERT(res->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS, "a PUT succeeds"); hxhim::Results::Destroy(res);
}
// GET or GETOP of a pair: found with this object, or (no object) not found
static void get(hxhim_t *hx, Rec &r, bool there, bool op) {
  if (op) VT_ASSERT(hxhim::GetOp(hx, &r.s[0], r.s.size(), r.st, &r.p[0], r.p.size(), r.pt, r.ot, 1, HXHIM_GETOP_EQ) == HXHIM_SUCCESS, "a GETOP is queued");
  else VT_ASSERT(hxhim::Get(hx, &r.s[0], r.s.size(), r.st, &r.p[0], r.p.size(), r.pt, r.ot) == HXHIM_SUCCESS, "a GET is queued");
  hxhim::Results *res = hxhim::Flush(hx); int st; VT_ASSERT(res && res->Size() == 1, "one result"); res->GoToHead(); VT_ASSERT(res->Status(&st) == HXHIM_SUCCESS, "a status");
  VT_ASSERT((st == HXHIM_SUCCESS) == there, "a pair is found exactly if it was stored");
  if (there) { void *d; size_t n; hxhim_data_t t; VT_ASSERT(res->Object(&d, &n, &t) == HXHIM_SUCCESS && t == r.ot && n == r.o.size() && bytes_eq(d, r.o.data(), n), "the object comes back as it was");
    VT_ASSERT(res->Subject(&d, &n, &t) == HXHIM_SUCCESS && t == r.st && n == r.s.size() && bytes_eq(d, r.s.data(), n) && res->Predicate(&d, &n, &t) == HXHIM_SUCCESS && t == r.pt && n == r.p.size() && bytes_eq(d, r.p.data(), n), "subject and predicate come back as they were"); }
  hxhim::Results::Destroy(res);
}
static Rec sym_rec(hxhim_data_t other) {
  Rec r; r.s = sym_bytes(1, "subject", 1); r.p = sym_bytes(1, "predicate", 1); r.o = sym_bytes(1, "object", 1); const size_t w = vt_choice(8, "transformed parts");
  r.st = w & 1 ? T : other; r.pt = w & 2 ? T : other; r.ot = w & 4 ? T : other; return r;
}
extern "C" {
// a user defined transform for any type is used for every part of that type, and nothing else
void h_transform() {
  static const hxhim_data_t types[] = {HXHIM_DATA_INT32, HXHIM_DATA_INT64, HXHIM_DATA_UINT32, HXHIM_DATA_UINT64, HXHIM_DATA_FLOAT, HXHIM_DATA_DOUBLE, HXHIM_DATA_POINTER, HXHIM_DATA_BYTE};
  T = types[vt_choice(8, "type")]; const hxhim_data_t other = T == HXHIM_DATA_BYTE ? HXHIM_DATA_POINTER : HXHIM_DATA_BYTE; key[0] = vt_sym<uint8_t>("key"); key[1] = 0; encoded = decoded = 0; plain = false;
  Job::Opt o; o.backend = vt_param("BACKEND", LDB); o.setup = with; rm_db(); Rec r = sym_rec(other); const size_t parts = (r.st == T) + (r.pt == T) + (r.ot == T);
  vt_leak_mark();
  { Job job(o); put(job.hx, r); VT_ASSERT(encoded == parts, "exactly the parts of the type are encoded"); get(job.hx, r, true, vt_choice(2, "GETOP")); VT_ASSERT(parts || !decoded, "nothing else is decoded");
    if (r.ot == T) VT_ASSERT(decoded > 0, "an object of the type is decoded");
    Rec miss = r; miss.s[0] ^= 1; get(job.hx, miss, false, false); }
  if (o.backend != MEM) {       // what is in the database is what the encoder made
    plain = true; Job job(o); Rec c = r; if (r.st == T) c.s = coded(r.s); if (r.pt == T) c.p = coded(r.p); if (r.ot == T) c.o = coded(r.o);
    get(job.hx, c, true, false); if (r.st == T || r.pt == T) get(job.hx, r, false, false); vt_cover("stored form"); }
  rm_db(); vt_check_leaks(); vt_cover("end");
}
// a session with a single datastore given by its path
void h_open_one() {
  const unsigned be = vt_param("BACKEND", LDB); rm_db(); T = HXHIM_DATA_INT32; Rec r; r.s = sym_bytes(1, "subject", 1); r.p = sym_bytes(1, "predicate", 1); r.o = sym_bytes(1, "object", 1); r.st = r.pt = r.ot = HXHIM_DATA_BYTE;
  // created by an ordinary database, the way OpenOne finds it
  DS::Datastore *d = make_ds(be); VT_ASSERT(d->Open(DBNAME), "a database is made"); Recs m; ds_put(d, m, Recs(1, r)); destruct(d);
  const size_t async = vt_choice(2, "background PUTs"), per = 1 + vt_choice(2, "per server"), cr = 1 + vt_choice(2, "client ratio"); vt_mpi::size = 1;
  Rec q = r; q.s[0] ^= (char)vt_sym<uint8_t>("flip"); const bool equal = q.s[0] == r.s[0]; const bool again = vt_choice(2, "reopened");
  vt_leak_mark();
  for (int round = 0; round < (again ? 2 : 1); round++) {
    hxhim_t hx; hx.p = construct<hxhim_private_t>();
    VT_ASSERT(hxhim_set_mpi_bootstrap(&hx, vt_mpi::comm(0)) == HXHIM_SUCCESS && hxhim_set_client_ratio(&hx, cr) == HXHIM_SUCCESS && hxhim_set_server_ratio(&hx, 1) == HXHIM_SUCCESS && hxhim_set_datastores_per_server(&hx, per) == HXHIM_SUCCESS &&
      (be == MEM ? hxhim_set_datastore_in_memory(&hx) : be == LDB ? hxhim_set_datastore_leveldb(&hx, 1) : hxhim_set_datastore_rocksdb(&hx, 1)) == HXHIM_SUCCESS && hxhim_set_hash_name(&hx, "SUM_MOD_DATASTORES") == HXHIM_SUCCESS &&
      hxhim_set_start_async_puts_at(&hx, async) == HXHIM_SUCCESS && hxhim_set_maximum_ops_per_request(&hx, 4) == HXHIM_SUCCESS, "options can be set");
    VT_ASSERT(hxhim::OpenOne(&hx, DBNAME) == HXHIM_SUCCESS, "a session with one datastore opens"); VT_ASSERT(hxhim::OpenOne(&hx, DBNAME) == HXHIM_ERROR, "an open session cannot be opened");
    size_t n = 0; VT_ASSERT(hxhim::GetDatastoreCount(&hx, &n) == HXHIM_SUCCESS && n == 1, "it has exactly one datastore");
    VT_ASSERT(hx.p->range_server.datastores.ds.size() == 1 && hx.p->range_server.id == 0 && hx.p->range_server.datastores.ds[0]->ID() == 0, "it is the first one of the first range server");
    if (be != MEM) { get(&hx, r, true, vt_choice(2, "GETOP")); vt_cover("found"); }
    if (!round) { if (be != MEM) get(&hx, q, equal, false); put(&hx, q); }
    get(&hx, q, be != MEM || !round, false);
    VT_ASSERT(hxhim::Close(&hx) == HXHIM_SUCCESS && !hx.p, "it closes");
  }
  rm_db(); vt_check_leaks(); vt_cover("end");
}
// opening that fails leaves nothing behind
void h_open_fail() {
  rm_db(); const unsigned be = 1 + vt_choice(2, "backend"); const size_t one = vt_choice(2, "OpenOne"), async = vt_choice(2, "background PUTs"), per = 1 + vt_choice(2, "per server"), why = vt_choice(3, "why");
  vt_leak_mark();
  hxhim_t hx; hx.p = construct<hxhim_private_t>(); vt_mpi::size = one && why == 1 ? 2 : 1;
  VT_ASSERT(hxhim_set_client_ratio(&hx, 1) == HXHIM_SUCCESS && hxhim_set_server_ratio(&hx, 1) == HXHIM_SUCCESS && hxhim_set_datastores_per_server(&hx, per) == HXHIM_SUCCESS && (be == LDB ? hxhim_set_datastore_leveldb(&hx, 0) : hxhim_set_datastore_rocksdb(&hx, 0)) == HXHIM_SUCCESS &&
    hxhim_set_datastore_name(&hx, ".", "vt-database", "") == HXHIM_SUCCESS && hxhim_set_hash_name(&hx, "DATASTORE_0") == HXHIM_SUCCESS && hxhim_set_start_async_puts_at(&hx, async) == HXHIM_SUCCESS && hxhim_set_maximum_ops_per_request(&hx, 4) == HXHIM_SUCCESS, "options can be set");
  if (why != 2) hxhim_set_mpi_bootstrap(&hx, vt_mpi::comm(0)); else hx.p->bootstrap.comm = MPI_COMM_NULL;
  const int rc = one ? hxhim::OpenOne(&hx, DBNAME) : hxhim::Open(&hx);
  VT_ASSERT(rc != HXHIM_SUCCESS, "a session whose database does not exist does not open"); if (!one && why < 2) VT_ASSERT(rc == HXHIM_OPEN_ERROR_DATASTORE, "Open says what went wrong");
  VT_ASSERT(!hx.p, "a session that does not open is cleaned up");
  rm_db(); vt_check_leaks(); vt_cover("end");
}
// what a session tells about itself, in C and in C++
static int any_hash(hxhim_t *, void *, const size_t, void *, const size_t, void *) { return 0; }
static int other_hash(hxhim_t *, void *, const size_t, void *, const size_t, void *) { return 0; }
static void tell_hash(hxhim_t *hx, const std::string &want, hxhim_hash_t f, void *a) {
  const char *name = nullptr; hxhim_hash_t func = nullptr; void *args = nullptr; const bool c = vt_choice(2, "C");
  VT_ASSERT((c ? hxhimGetHash(hx, &name, &func, &args) : hxhim::GetHash(hx, &name, &func, &args)) == HXHIM_SUCCESS && name && want == name && func == f && args == a, "the hash that is used is told");
  VT_ASSERT((c ? hxhimGetHash(hx, nullptr, nullptr, nullptr) : hxhim::GetHash(hx, nullptr, nullptr, nullptr)) == HXHIM_SUCCESS, "parts of the hash can be left out");
}
void h_accessors() {
  static char args[2]; const bool c = vt_choice(2, "C"); const unsigned use = vt_choice(4, "session");
  vt_leak_mark();
  {
    Job::Opt o; o.ranks = vt_param("RANKS", 2); o.client = vt_param("CLIENT", 1); o.server = vt_param("SERVER", 1); o.per_server = vt_param("PER", 1); o.me = vt_param("ME", 0);
    const size_t named = vt_choice(3, "histograms"); if (named > 0) o.hists.push_back("ab"); if (named > 1) o.hists.push_back("b");
    o.setup = [](hxhim_t *h) { VT_ASSERT(hxhim_set_hash_function(h, "name", any_hash, &args[1]) == HXHIM_SUCCESS, "a hash can be set"); };
    Job job(o); hxhim_t none; none.p = nullptr; hxhim_t idle; idle.p = construct<hxhim_private_t>();
    hxhim_t *hx = use == 0 ? job.hx : use == 1 ? nullptr : use == 2 ? &none : &idle; const bool ok = use == 0; const int want = ok ? HXHIM_SUCCESS : HXHIM_ERROR;
    const unsigned parts = vt_choice(8, "asked for");
    MPI_Comm comm = MPI_COMM_NULL; int rank = -7, size = -7; MPI_Comm *pc = parts & 1 ? &comm : nullptr; int *pr = parts & 2 ? &rank : nullptr, *pz = parts & 4 ? &size : nullptr;
    VT_ASSERT((c ? hxhimGetMPI(hx, pc, pr, pz) : hxhim::GetMPI(hx, pc, pr, pz)) == want, "exactly open sessions tell about MPI");
    VT_ASSERT(comm == (ok && pc ? job.hx->p->bootstrap.comm : MPI_COMM_NULL) && rank == (ok && pr ? (int)o.me : -7) && size == (ok && pz ? (int)o.ranks : -7), "rank, size and communicator are those of the session");
    size_t servers = 0, stores = 0; for (size_t r = 0; r < o.ranks; r++) if (o.client <= o.server || r % o.client < o.server) { servers++; stores += o.per_server; }
    size_t n = 77; size_t *pn = parts & 1 ? &n : nullptr;
    VT_ASSERT((c ? hxhimGetRangeServerCount(hx, pn) : hxhim::GetRangeServerCount(hx, pn)) == want && n == (ok && pn ? servers : 77), "the number of range servers is told");
    n = 77; VT_ASSERT((c ? hxhimGetDatastoreCount(hx, pn) : hxhim::GetDatastoreCount(hx, pn)) == want && n == (ok && pn ? stores : 77), "the number of datastores is told");
    size_t a = 77, b = 77; size_t *pa = parts & 1 ? &a : nullptr, *pb = parts & 2 ? &b : nullptr;
    VT_ASSERT((c ? hxhimGetRangeServerClientToServerRatio(hx, pa, pb) : hxhim::GetRangeServerClientToServerRatio(hx, pa, pb)) == want && a == (ok && pa ? o.client : 77) && b == (ok && pb ? o.server : 77), "the ratios are told");
    const int id = vt_sym<int>("datastore"); rank = size = -7; pr = parts & 1 ? &rank : nullptr; pz = parts & 2 ? &size : nullptr; const bool there = ok && id >= 0 && (size_t)id < stores;
    VT_ASSERT((c ? hxhimGetDatastoreLocation(hx, id, pr, pz) : hxhim::GetDatastoreLocation(hx, id, pr, pz)) == (there ? HXHIM_SUCCESS : HXHIM_ERROR), "exactly existing datastores have a location");
    if (there) { bool seen = false; for (size_t r = 0; r < o.ranks; r++) { auto &ds = job.ranks[r].p->range_server.datastores.ds; for (size_t i = 0; i < ds.size(); i++) if (ds[i]->ID() == id) { seen = true; VT_ASSERT((!pr || rank == (int)r) && (!pz || size == (int)i), "a datastore is where it is said to be"); } } VT_ASSERT(seen, "a datastore that is announced exists"); }
    // histograms
    const size_t len = vt_choice(3, "length"); Bytes name = sym_bytes(len, "name", len); int exists = -7; const std::string asked(name.begin(), name.end());
    VT_ASSERT((c ? hxhimHaveHistogram(hx, asked.data(), len, &exists) : hxhim::HaveHistogram(hx, asked.data(), len, &exists)) == want, "exactly open sessions tell about histograms");
    const bool have = (named > 0 && asked == "ab") || (named > 1 && asked == "b");
    VT_ASSERT(ok ? !!exists == have : exists == -7, "exactly the histograms that were configured exist"); if (ok) vt_cover(have ? "histogram" : "no histogram");
    VT_ASSERT((c ? hxhimHaveHistogram(hx, asked.data(), len, nullptr) : hxhim::HaveHistogram(hx, asked.data(), len, nullptr)) == HXHIM_ERROR, "an answer needs a place");
    // the time
    struct timespec ts; ts.tv_sec = ts.tv_nsec = -7; const int64_t when = (int64_t)(vt_sym<uint64_t>("epoch") & 0xffffffff) + (vt_choice(2, "late") ? 1700000000ll * 1000000000ll : 0); ::Stats::Chronopoint at; const bool has = use == 0 || use == 3;
    if (has) hx->p->epoch = ::Stats::Chronopoint(std::chrono::duration_cast<::Stats::Chronopoint::duration>(std::chrono::nanoseconds(when)));
    VT_ASSERT((c ? hxhimGetEpoch(hx, parts & 1 ? &ts : nullptr) : hxhim::GetEpoch(hx, parts & 1 ? &ts : nullptr)) == (has ? HXHIM_SUCCESS : HXHIM_ERROR), "the start is told");
    if (has && (parts & 1)) VT_ASSERT(ts.tv_nsec >= 0 && ts.tv_nsec < 1000000000 && ts.tv_sec * 1000000000 + ts.tv_nsec == when, "the start is told in seconds and nanoseconds"); else VT_ASSERT(ts.tv_sec == -7 && ts.tv_nsec == -7, "nothing else is written");
    VT_ASSERT(hxhim::GetEpoch(hx, at) == (has ? HXHIM_SUCCESS : HXHIM_ERROR), "the start is told in C++"); if (has) VT_ASSERT(at == hx->p->epoch, "the start is the same in C++");
    // the hash
    if (ok) {
      tell_hash(hx, "name", any_hash, &args[1]);
      hxhim::Results *r = hxhim::ChangeHash(hx, "other", other_hash, &args[0]); VT_ASSERT(r, "the hash can be changed"); hxhim::Results::Destroy(r); tell_hash(hx, "other", other_hash, &args[0]); vt_cover("open");
    }
    else { const char *nm = nullptr; hxhim_hash_t f = nullptr; void *x = nullptr; VT_ASSERT((c ? hxhimGetHash(hx, &nm, &f, &x) : hxhim::GetHash(hx, &nm, &f, &x)) == HXHIM_ERROR && !nm && !f && !x, "only open sessions tell their hash"); vt_cover("not open"); }
    destruct(idle.p);
  }
  vt_check_leaks();
}
}
