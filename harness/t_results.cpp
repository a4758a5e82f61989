// From responses to the results a user looks at
#include "vt_client.hpp"
#include "hxhim/private/Results.hpp"
enum { PUT, GET, GETOP, DELETE, HISTOGRAM, KINDS };
static const hxhim_op_t OPS[] = {HXHIM_PUT, HXHIM_GET, HXHIM_GETOP, HXHIM_DELETE, HXHIM_HISTOGRAM};
struct Want { hxhim_op_t op; int src; bool ok; Bytes s, p, o; void *sp = nullptr, *pp = nullptr; Histogram::Histogram *h = nullptr; bool nothing = false; };
static Blob real(const Bytes &b) { void *p = ::alloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size()); return RealBlob(p, b.size(), HXHIM_DATA_BYTE); }
static int gen(const double *, const size_t, double **b, size_t *n, void *) { *n = 2; *b = alloc_array<double>(3); (*b)[0] = 0; (*b)[1] = 1; (*b)[2] = 2; return HISTOGRAM_SUCCESS; }
static const Histogram::Config GEN = {0, gen, nullptr};
struct Item { Bytes s, p; };
static std::list<Item> items;
static Message::Response::Response *response(unsigned kind, size_t n, std::vector<Want> &want) {
  const int src = vt_sym<uint16_t>("source"); const size_t L = vt_param("L", 2);
  Message::Response::Response *out = nullptr;
  auto fill = [&](auto *res) {
    out = res; res->src = src;
    for (size_t i = 0; i < n; i++) {
      items.push_back({sym_bytes(L, "subject", 1), sym_bytes(L, "predicate", 1)}); Item &it = items.back(); Want w; w.op = OPS[kind]; w.src = src; const int st = vt_sym<int>("status"); w.ok = st == DATASTORE_SUCCESS;
      w.s = it.s; w.p = it.p; w.sp = &it.s[0]; w.pp = &it.p[0];
      Blob s = ref(it.s, HXHIM_DATA_BYTE), p = ref(it.p, HXHIM_DATA_BYTE);
      typedef std::remove_pointer_t<decltype(res)> R;
      if constexpr (std::is_same_v<R, Message::Response::BPut> || std::is_same_v<R, Message::Response::BDelete>) { res->add(s, p, st); want.push_back(w); }
      else if constexpr (std::is_same_v<R, Message::Response::BGet>) { w.o = sym_bytes(L, "object"); if (w.ok) res->add(s, p, real(w.o), st); else res->add(s, p, Blob(), st); want.push_back(w); }
      else if constexpr (std::is_same_v<R, Message::Response::BGetOp>) {
        const size_t recs = w.ok ? vt_choice(3, "records") : 1; Blob *a = alloc_array<Blob>(recs), *b = alloc_array<Blob>(recs), *c = alloc_array<Blob>(recs);
        w.sp = w.pp = nullptr;
        for (size_t j = 0; j < recs; j++) { Want x = w; x.s = sym_bytes(L, "subject", 1); x.p = sym_bytes(L, "predicate", 1); x.o = sym_bytes(L, "object"); a[j] = real(x.s); b[j] = real(x.p); if (w.ok) c[j] = real(x.o); want.push_back(x); }
        if (!recs) { w.nothing = true; want.push_back(w); }
        res->add(a, b, c, recs, st);
      }
      else { std::shared_ptr<Histogram::Histogram> h; if (w.ok) { h = std::shared_ptr<Histogram::Histogram>(new Histogram::Histogram(GEN, "name")); h->add(1.5); } w.h = h.get(); res->add(h, st); want.push_back(w); }
    }
  };
  if (kind == PUT) fill(construct<Message::Response::BPut>(n)); else if (kind == GET) fill(construct<Message::Response::BGet>(n)); else if (kind == GETOP) fill(construct<Message::Response::BGetOp>(n));
  else if (kind == DELETE) fill(construct<Message::Response::BDelete>(n)); else fill(construct<Message::Response::BHistogram>(n));
  return out;
}
static void check(hxhim_results_t *c, const std::vector<Want> &want) {
  hxhim::Results *r = c->res; size_t size = 99;
  VT_ASSERT(r->Size() == want.size() && hxhim_results_size(c, &size) == HXHIM_SUCCESS && size == want.size() && hxhim_results_size(c, nullptr) == HXHIM_SUCCESS, "every item of a response has one result");
  VT_ASSERT((hxhim_results_goto_head(c) == HXHIM_SUCCESS) == !want.empty(), "results can be walked over");
  for (size_t i = 0; i <= want.size(); i++) {
    const bool there = i < want.size(); hxhim_op_t op; int status, src; void *s = nullptr, *p = nullptr, *o = nullptr; size_t sl = 0, pl = 0, ol = 0; hxhim_data_t st, pt, ot; const char *name = nullptr; size_t nl = 0; double *buckets = nullptr; size_t *counts = nullptr, n = 0; ::Histogram::Histogram *h = nullptr;
    VT_ASSERT(r->ValidIterator() == there && (hxhim_results_valid_iterator(c) == HXHIM_SUCCESS) == there, "results can be walked over");
    const int good = there ? HXHIM_SUCCESS : HXHIM_ERROR;
    struct hxhim::Result::Timestamps *ts = nullptr;
    VT_ASSERT(hxhim_result_op(c, &op) == good && hxhim_result_status(c, &status) == good && hxhim_result_range_server(c, &src) == good && hxhim_result_op(c, nullptr) == good && hxhim_result_status(c, nullptr) == good && hxhim_result_range_server(c, nullptr) == good && r->Timestamps(&ts) == good, "exactly existing results can be looked at");
    const bool pair = there && want[i].op != HXHIM_HISTOGRAM && want[i].op != HXHIM_SYNC, obj = pair && want[i].ok && (want[i].op == HXHIM_GET || want[i].op == HXHIM_GETOP), hist = there && want[i].op == HXHIM_HISTOGRAM && want[i].ok;
    VT_ASSERT((hxhim_result_subject(c, &s, &sl, &st) == HXHIM_SUCCESS) == pair && (hxhim_result_predicate(c, &p, &pl, &pt) == HXHIM_SUCCESS) == pair, "exactly results about pairs have a subject and a predicate");
    VT_ASSERT((hxhim_result_object(c, &o, &ol, &ot) == HXHIM_SUCCESS) == obj, "exactly successful GETs have objects");
    VT_ASSERT((hxhim_result_histogram(c, &name, &nl, &buckets, &counts, &n) == HXHIM_SUCCESS) == hist && (r->Histogram(&h) == HXHIM_SUCCESS) == hist, "exactly successful histograms have a histogram");
    if (!there) break;
    const Want &w = want[i];
    VT_ASSERT(op == w.op && status == (w.ok ? HXHIM_SUCCESS : HXHIM_ERROR) && src == w.src, "a result tells its operation, whether it succeeded and where");
    if (pair && !w.nothing) { VT_ASSERT(sl == w.s.size() && bytes_eq(s, w.s.data(), sl) && pl == w.p.size() && bytes_eq(p, w.p.data(), pl) && st == HXHIM_DATA_BYTE && pt == HXHIM_DATA_BYTE, "a result has the subject and predicate of its item");
      if (w.sp) VT_ASSERT(s == w.sp && p == w.pp, "a result names the requester's subject and predicate"); }
    if (obj && !w.nothing) VT_ASSERT(ol == w.o.size() && bytes_eq(o, w.o.data(), ol) && ot == HXHIM_DATA_BYTE, "a result has the object of its item");
    if (hist) VT_ASSERT(h == w.h && nl == 4 && !memcmp(name, "name", 4) && n == 2 && buckets[0] == 0 && buckets[1] == 1 && counts[0] == 0 && counts[1] == 1, "a result has the histogram of its item");
    VT_ASSERT((hxhim_results_goto_next(c) == HXHIM_SUCCESS) == (i + 1 < want.size()), "results can be walked over");
  }
  VT_ASSERT(hxhim_results_goto_next(c) == HXHIM_ERROR && !r->ValidIterator(), "walking stops at the end");
}
extern "C" void h_results() {
  vt_leak_mark();
  { Job job({}); hxhim_t *hx = job.hx; std::vector<Want> want, more;
    hxhim_results_t *c = hxhim_results_init(hx, construct<hxhim::Results>()), none = {hx, nullptr};
    check(c, want);
    // a chain of responses, then another list appended
    const unsigned kind = vt_param("KIND", 9) < KINDS ? vt_param("KIND", 9) : vt_choice(KINDS, "kind"); const size_t chain = vt_choice(3, "responses");
    Message::Response::Response *first = nullptr, *last = nullptr;
    for (size_t i = 0; i < chain; i++) { Message::Response::Response *x = response(kind, 1 + (i == 0 && vt_choice(2, "items")), want); if (last) last->next = x; else first = x; last = x; }
    hxhim::Result::AddAll(hx, c->res, first); check(c, want);
    hxhim::Results *other = construct<hxhim::Results>();
    if (vt_choice(2, "more")) { hxhim::Result::AddAll(hx, other, response(PUT, 1, more)); const bool ok = vt_choice(2, "synced"); other->Add(hxhim::Result::init(hx, ok ? DATASTORE_SUCCESS : DATASTORE_ERROR)); Want w; w.op = HXHIM_SYNC; w.src = 0; w.ok = ok; more.push_back(w); vt_cover("more"); }
    c->res->Append(other); c->res->Append(nullptr); VT_ASSERT(other->Size() == 0, "appended results move over"); hxhim::Results::Destroy(other);
    for (auto &w : more) want.push_back(w);
    check(c, want);
    VT_ASSERT(hxhim_results_valid(&none) == HXHIM_ERROR && hxhim_results_valid(nullptr) == HXHIM_ERROR && hxhim_results_size(&none, nullptr) == HXHIM_ERROR && hxhim_results_goto_head(&none) == HXHIM_ERROR && hxhim_results_goto_next(nullptr) == HXHIM_ERROR && hxhim_result_op(&none, nullptr) == HXHIM_ERROR && hxhim_result_status(&none, nullptr) == HXHIM_ERROR && hxhim_result_range_server(&none, nullptr) == HXHIM_ERROR && hxhim_result_subject(&none, nullptr, nullptr, nullptr) == HXHIM_ERROR && hxhim_result_predicate(&none, nullptr, nullptr, nullptr) == HXHIM_ERROR && hxhim_result_object(&none, nullptr, nullptr, nullptr) == HXHIM_ERROR && hxhim_result_histogram(&none, nullptr, nullptr, nullptr, nullptr, nullptr) == HXHIM_ERROR, "results that are not there are refused");
    hxhim_results_destroy(c); hxhim_results_destroy(nullptr);
    items.clear(); }
  vt_check_leaks();
  vt_cover("end");
}
