// Histograms: counting, bucket generators, packing, and histograms kept by a datastore
#include "vt_ds.hpp"
#include "utils/Histogram.hpp"
typedef ::Histogram::Histogram Hist;
static double *g_bounds; static size_t g_n; static int g_calls; static size_t g_seen; static double g_first[4]; static int g_rc;
static int custom(const double *v, const size_t n, double **b, size_t *s, void *extra) {
  g_calls++; g_seen = n; for (size_t i = 0; i < n && i < 4; i++) g_first[i] = v[i];
  VT_ASSERT(extra == &g_calls, "the generator gets its extra argument");
  if (g_rc != HISTOGRAM_SUCCESS) return g_rc;
  *s = g_n; *b = alloc_array<double>(g_n + 1); for (size_t i = 0; i < g_n; i++) (*b)[i] = g_bounds[i];
  return HISTOGRAM_SUCCESS; }
static double sym_double(const char *name) { double d = vt_sym<double>(name); vt_assume(d >= -1.7976931348623157e308 && d <= 1.7976931348623157e308); return d; }   // any finite value
// counts per bucket of the values, none of them NaN
static void expect(const Hist &h, const double *b, size_t nb, const double *v, size_t nv) {
  double *B = nullptr; size_t *C = nullptr, n = 0;
  VT_ASSERT(h.get(&B, &C, &n) == HISTOGRAM_SUCCESS && n == nb, "the buckets are available");
  for (size_t j = 0; j < nb; j++) {
    VT_ASSERT(B[j] == b[j], "buckets are the generated ones");
    size_t c = 0; for (size_t i = 0; i < nv; i++) c += (v[i] >= b[j]) & (j + 1 == nb || v[i] < b[j + 1]);
    VT_ASSERT(C[j] == c, "every value is counted in the bucket it falls in"); }
  bool any = false; double mx = 0; for (size_t i = 0; i < nv; i++) if (v[i] >= b[0]) { mx = any && mx > v[i] ? mx : v[i]; any = true; }
  if (any) VT_ASSERT(B[nb] == mx, "the upper bound is the largest counted value");
}
extern "C" void h_count() {
  const size_t K = vt_param("K", 3);
  double b[2], v[4]; g_bounds = b; g_n = 1 + vt_choice(2, "buckets"); g_calls = 0; g_rc = HISTOGRAM_SUCCESS;
  for (size_t i = 0; i < g_n; i++) b[i] = sym_double("bound"); if (g_n == 2) vt_assume(b[0] < b[1]);
  for (size_t i = 0; i < K; i++) v[i] = sym_double("value");
  const size_t first = vt_choice(K + 2, "first_n");
  vt_leak_mark();
  { Hist h(::Histogram::Config{first, custom, &g_calls}, "name");
    std::string nm; const char *np = nullptr; size_t nl = 0; VT_ASSERT(h.get_name(nm) == HISTOGRAM_SUCCESS && nm == "name" && h.get_name(&np, &nl) == HISTOGRAM_SUCCESS && nl == 4 && bytes_eq(np, "name", 4), "the name is kept");
    for (size_t i = 0; i < K; i++) {
      if (i < first) { double *B; VT_ASSERT(h.get(&B, nullptr, nullptr) == HISTOGRAM_ERROR && !g_calls, "no buckets before first_n values");
        size_t fn = 0, z = 0; double *c = nullptr; h.get_cache(&fn, &c, &z); VT_ASSERT(fn == first && z == i, "the first values are cached"); for (size_t q = 0; q < i; q++) VT_ASSERT(c[q] == v[q], "in order"); }
      VT_ASSERT(h.add(v[i]) == HISTOGRAM_SUCCESS, "a value is added");
      if (i + 1 >= first) expect(h, b, g_n, v, i + 1); }
    if (K >= first) { VT_ASSERT(g_calls == 1 && g_seen == first, "buckets are generated once, from the first values"); for (size_t q = 0; q < first; q++) VT_ASSERT(g_first[q] == v[q], "in order"); vt_cover("counted"); } else vt_cover("cached");
  }
  vt_check_leaks();
}
// a generator that cannot make buckets makes adding fail; nothing is read past the cached values
extern "C" void h_failing() {
  const size_t first = vt_choice(3, "first_n"), which = vt_choice(7, "generator");
  static const HistogramBucketGenerator_t gens[] = {custom, histogram_n_buckets, histogram_square_root_choice, histogram_sturges_formula, histogram_rice_rule, histogram_scotts_normal_reference_rule, histogram_uniform_logn};
  if (which && first) vt_end();
  g_rc = HISTOGRAM_ERROR; g_calls = 0; double v[4]; for (double &d : v) d = sym_double("value");
  vt_leak_mark();
  { Hist h(::Histogram::Config{first, gens[which], which ? (void *)(uintptr_t)3 : &g_calls}, "name");
    for (size_t i = 0; i < 4; i++) { const int rc = h.add(v[i]); VT_ASSERT((rc == HISTOGRAM_SUCCESS) == (i + 1 < first), "adding fails as long as there are no buckets"); if (!which && i + 1 >= first) VT_ASSERT(g_seen == first, "the generator sees the cached values"); }
    vt_cover(which ? "no values" : "error"); }
  vt_check_leaks();
}
// the predefined generators put every one of the first values into a bucket
static double sym_small(const char *name) { const int B = vt_param("B", 100); int8_t i = vt_sym<int8_t>(name); vt_assume(i >= -B && i <= B); return i; }
static void gen(HistogramBucketGenerator_t g, void *extra, int conc = 0) {
  const size_t n = 1 + vt_choice(vt_param("N", 3), "n"); double v[4]; for (size_t i = 0; i < n; i++) { v[i] = sym_small("value"); }
  if (conc) { const double base = conc == 2 ? (double)(int)vt_choice(5, "base") - 2 : v[0]; for (size_t i = 0; i < n; i++) v[i] = base + (double)(int)vt_choice(vt_param("SPREAD", 4), "offset"); }   // a symbolic position, the spread (and the position, where roots and logarithms of it are taken) forked over
  vt_leak_mark();
  { Hist h(::Histogram::Config{n, g, extra}, "name"); for (size_t i = 0; i < n; i++) VT_ASSERT(h.add(v[i]) == HISTOGRAM_SUCCESS, "a value is added");
    double *B = nullptr; size_t *C = nullptr, z = 0, sum = 0; VT_ASSERT(h.get(&B, &C, &z) == HISTOGRAM_SUCCESS && z >= 1 && z < 64, "there are buckets");
    double mn = v[0], mx = v[0]; for (size_t i = 1; i < n; i++) { mn = v[i] < mn ? v[i] : mn; mx = v[i] > mx ? v[i] : mx; }
    VT_ASSERT(B[0] == mn, "the first bucket starts at the smallest value"); VT_ASSERT(B[z] == mx, "the last bucket ends at the largest value");
    for (size_t j = 0; j + 1 < z; j++) VT_ASSERT(B[j] <= B[j + 1], "buckets are in order");
    for (size_t j = 0; j < z; j++) sum += C[j]; VT_ASSERT(sum == n, "every value is counted");
    if (g == histogram_n_buckets) VT_ASSERT(z == (size_t)extra, "as many buckets as were asked for");
    vt_cover("end"); }
  vt_check_leaks();
}
extern "C" void h_gen_n() { gen(histogram_n_buckets, (void *)(uintptr_t)(1 + vt_choice(3, "count"))); }
extern "C" void h_gen_sqrt() { gen(histogram_square_root_choice, nullptr, true); }
extern "C" void h_gen_sturges() { gen(histogram_sturges_formula, nullptr, true); }
extern "C" void h_gen_rice() { gen(histogram_rice_rule, nullptr, true); }
extern "C" void h_gen_scott() { gen(histogram_scotts_normal_reference_rule, nullptr, 2); }
extern "C" void h_gen_logn() { gen(histogram_uniform_logn, (void *)(uintptr_t)10, 2); }
// a histogram packs into the announced size and unpacks to the same; both count on alike
extern "C" void h_pack() {
  double b[2], v[3]; g_bounds = b; g_n = 1 + vt_choice(2, "buckets"); g_calls = 0; g_rc = HISTOGRAM_SUCCESS;
  for (size_t i = 0; i < g_n; i++) b[i] = sym_double("bound"); if (g_n == 2) vt_assume(b[0] < b[1]);
  const size_t first = vt_choice(4, "first_n"), n = vt_choice(3, "values"), L = vt_choice(3, "name"); Buf name(L, "name");
  const std::string nm(name.p, L);
  vt_leak_mark();
  { Hist h(::Histogram::Config{first, custom, &g_calls}, nm); for (size_t i = 0; i < n; i++) { v[i] = sym_double("value"); h.add(v[i]); }
    size_t z = 0; void *p = nullptr; VT_ASSERT(h.pack(&p, &z) && z == h.pack_size(), "packs into the announced size");
    size_t avail = z + 3, used = 0; char *q = (char *)malloc(avail); char *c = q; VT_ASSERT(h.pack(c, avail, &used) && c == q + z && used == z && avail == 3 && bytes_eq(p, q, z), "packs in place"); c = q; avail = z - 1; VT_ASSERT(!h.pack(c, avail, nullptr) && c == q && avail == z - 1, "refuses a buffer that is too small"); free(q);
    const size_t old = vt_choice(3, "old"); Hist r(::Histogram::Config{old ? 2u : 0u, custom, &g_calls}, "other"); if (old == 2) { r.add(1); r.add(2); }
    char *d = (char *)p; size_t left = z; used = 0; VT_ASSERT(r.unpack(d, left, &used) && d == (char *)p + z && used == z, "unpack consumes what pack wrote"); dealloc(p);
    std::string rn; r.get_name(rn); VT_ASSERT(rn.size() == L && bytes_eq(rn.data(), name.p, L), "the name comes back");
    VT_ASSERT(r.pack_size() == z, "the copy packs into the same size");
    if (n < first) { double *B; VT_ASSERT(r.get(&B, nullptr, nullptr) == HISTOGRAM_ERROR, "no buckets yet"); size_t fn = 0, k = 0; double *cc = nullptr; r.get_cache(&fn, &cc, &k); VT_ASSERT(fn == first && k == n, "the cache comes back"); for (size_t i = 0; i < n; i++) VT_ASSERT(cc[i] == v[i], "in order"); vt_cover("partial"); }
    else if (n) { for (int more = 0; more < 2; more++) { double *A = nullptr, *B = nullptr; size_t *C = nullptr, *D = nullptr, x = 0, y = 0; VT_ASSERT(h.get(&A, &C, &x) == HISTOGRAM_SUCCESS && r.get(&B, &D, &y) == HISTOGRAM_SUCCESS && x == y, "as many buckets");
        for (size_t j = 0; j < x; j++) VT_ASSERT(C[j] == D[j], "the counts come back"); VT_ASSERT(bytes_eq(A, B, (x + 1) * sizeof *A), "the buckets come back");
        if (!more) { const double w = sym_double("more"); VT_ASSERT(h.add(w) == HISTOGRAM_SUCCESS && r.add(w) == HISTOGRAM_SUCCESS, "both count on"); } }
      vt_cover("full"); }
  }
  vt_check_leaks();
}
// histograms kept by a datastore: what is counted, what a request returns, and what survives closing
static double as_num(const Bytes &o, hxhim_data_t t) { if (t == HXHIM_DATA_FLOAT) { float f; memcpy(&f, o.data(), 4); return f; } double d; memcpy(&d, o.data(), 8); return d; }
static DS::Transform::Callbacks *raw_numbers() {      // numbers stored as they are
  DS::Transform::Callbacks *cb = DS::Transform::default_callbacks(); for (hxhim_data_t t : {HXHIM_DATA_FLOAT, HXHIM_DATA_DOUBLE}) { cb->encode[t] = {nullptr, nullptr}; cb->decode[t] = {nullptr, nullptr}; } return cb; }
static void ask(DS::Datastore *d, const Bytes &name, bool known, size_t want, const double *v, size_t nv, const double *b, size_t nb) {
  Message::Request::BHistogram q(2); q.add(ReferenceBlob((void *)"none", 4, HXHIM_DATA_BYTE)); q.add(ref(name, HXHIM_DATA_BYTE));
  Message::Response::BHistogram *r = travel(d->operate(&q));
  VT_ASSERT(r->count == 2 && r->statuses[0] == DATASTORE_ERROR && (r->statuses[1] == DATASTORE_SUCCESS) == known, "only registered histograms are found");
  if (known) { double *B = nullptr; size_t *C = nullptr, n = 0; const int rc = r->histograms[1]->get(&B, &C, &n); std::string nm; r->histograms[1]->get_name(nm); VT_ASSERT(nm == name, "the histogram that was asked for");
    VT_ASSERT((rc == HISTOGRAM_SUCCESS) == (nv >= want), "buckets exist once there were enough values");
    if (nv >= want && nv) for (size_t j = 0; j < nb; j++) { size_t c = 0; for (size_t i = 0; i < nv; i++) c += (v[i] >= b[j]) & (j + 1 == nb || v[i] < b[j + 1]); VT_ASSERT(B[j] == b[j] && C[j] == c, "exactly the values put under the histogram's name are counted"); } }
  destruct(r); }
extern "C" void h_ds() {
  const unsigned be = pick_backend(), K = vt_param("K", 2); static double bounds[2] = {0, 10}; g_bounds = bounds; g_n = 2; g_rc = HISTOGRAM_SUCCESS; g_calls = 0;
  const size_t first = vt_choice(3, "first_n"); Buf nb(1, "histogram"); const Bytes name(nb.p, 1); double v[4]; size_t nv = 0;
  rm_db(); vt_leak_mark();
  { DS::Datastore *d = make_ds(be, raw_numbers()); d->Open(DBNAME); d->AddHistogram(name, ::Histogram::Config{first, custom, &g_calls});
    Recs m; int8_t val[3];
    for (unsigned k = 0; k < K; k++) { Rec r; r.s = "s" + std::string(1, 'a' + k); r.st = HXHIM_DATA_BYTE; r.p = sym_bytes(1, "predicate", 1); const unsigned kind = vt_choice(k ? 3 : 6, "kind"); if (kind == 5) r.st = HXHIM_DATA_MAX_KNOWN;
      r.pt = kind == 3 ? HXHIM_DATA_POINTER : HXHIM_DATA_BYTE; val[k] = vt_sym<int8_t>("value");
      if (kind == 1) { float f = val[k]; r.ot = HXHIM_DATA_FLOAT; r.o = Bytes((char *)&f, 4); } else { double f = val[k]; r.ot = kind == 2 ? HXHIM_DATA_BYTE : HXHIM_DATA_DOUBLE; r.o = Bytes((char *)&f, 8); }
      if (kind == 4) r.ot = HXHIM_DATA_MAX_KNOWN;       // cannot be stored
      Message::Request::BPut q(1); q.add(ref(r.s, r.st), ref(r.p, r.pt), ref(r.o, r.ot)); Message::Response::BPut *res = d->operate(&q); VT_ASSERT((res->statuses[0] == DATASTORE_SUCCESS) == (kind < 4), "stored unless it has no encoding"); destruct(res);
      if (r.p[0] == name[0] && (kind == 0 || kind == 1)) v[nv++] = val[k]; }
    ask(d, name, true, first, v, nv, bounds, 2);
    const unsigned then = vt_choice(be == MEM ? 2 : 5, "then");
    if (then == 1) {    // read back what was written
      VT_ASSERT(d->WriteHistograms() == DATASTORE_SUCCESS && d->ReadHistograms({name, "none"}) == 1, "the histogram is found again"); ask(d, name, true, first, v, nv, bounds, 2);
      Message::Request::BGetOp q(1); q.add(ReferenceBlob((void *)"HISTOGRAM", 9, HXHIM_DATA_BYTE), ref(name, HXHIM_DATA_BYTE), HXHIM_DATA_BYTE, 1 , HXHIM_GETOP_EQ); Message::Response::BGetOp *g = travel(d->operate(&q)); VT_ASSERT(g->statuses[0] == DATASTORE_SUCCESS && g->num_recs[0] == 1 && g->objects[0][0].data_type() == HXHIM_DATA_BYTE && g->subjects[0][0].size() == 9, "a walk passes over stored histograms"); destruct(g); vt_cover("stored"); }
    if (then == 2) { d->Change(DBNAME, true, nullptr); ask(d, name, false, first, v, nv, bounds, 2); VT_ASSERT(d->ReadHistograms({name}) == 1, "kept in the database"); ask(d, name, true, first, v, nv, bounds, 2); vt_cover("reopened"); }
    if (then == 3) { d->Change(DBNAME, false, nullptr); DS::HistNames_t names{name}; VT_ASSERT(d->Change(DBNAME, false, &names), "opens"); ask(d, name, false, first, v, nv, bounds, 2); vt_cover("dropped"); }
    if (then == 4) { DS::HistNames_t names{name}; VT_ASSERT(d->Change(DBNAME, false, &names), "opens"); ask(d, name, false, first, v, nv, bounds, 2); vt_cover("dropped"); }   // asked for, but never written
    if (then == 1 || then == 2) {      // counting goes on
      ::Histogram::Histogram *h = nullptr; VT_ASSERT(d->GetHistogram(name, &h) == DATASTORE_SUCCESS && h, "is registered"); h->set_generator(custom, &g_calls);
      for (int q = 0; q < 2; q++) { v[nv] = q ? 11 : 1; VT_ASSERT(h->add(v[nv]) == HISTOGRAM_SUCCESS, "counts on"); nv++; } if (K <= 2) ask(d, name, true, first, v, nv, bounds, 2); }
    destruct(d); }
  rm_db(); vt_check_leaks(); vt_cover("end");
}
// a histogram that was read and has no generator refuses to make buckets
extern "C" void h_unset() {
  g_n = 1; static double b0[1] = {0}; g_bounds = b0; g_rc = HISTOGRAM_SUCCESS; g_calls = 0; vt_leak_mark();
  { const size_t first = 1 + vt_choice(3, "first_n"), n = vt_choice(first, "n"); Hist h(::Histogram::Config{first, custom, &g_calls}, "n"); for (size_t i = 0; i < n; i++) h.add(i);
    void *p = nullptr; size_t z = 0; h.pack(&p, &z); Hist r; VT_ASSERT(r.unpack(p, z), "unpacks"); dealloc(p);
    for (size_t i = n; i < first + 1; i++) VT_ASSERT((r.add(i) == HISTOGRAM_SUCCESS) == (i + 1 < first), "no buckets without a generator");
    double *B; VT_ASSERT(h.get(&B, nullptr, nullptr) == HISTOGRAM_ERROR, "the original is independent"); }
  vt_check_leaks(); vt_cover("end");
}
