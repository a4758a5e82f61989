// Operations queued through the client interface and their results
#include "vt_client.hpp"
#include "hxhim/hash.h"
#include "hxhim/private/Results.hpp"
static Job::Opt layout() { Job::Opt o; o.ranks = vt_param("RANKS", 2); o.per_server = vt_param("PER", 1); o.client = vt_param("CLIENT", 1); o.server = vt_param("SERVER", 1); o.me = vt_param("ME", 0); o.hists = {"h"}; return o; }
enum { PUT, GET, GETOP, DELETE, HISTOGRAM, KINDS };
static const hxhim_op_t OPS[] = {HXHIM_PUT, HXHIM_GET, HXHIM_GETOP, HXHIM_DELETE, HXHIM_HISTOGRAM};
struct Op : Rec { unsigned kind; size_t ds; bool ok; Bytes want; std::string name; };
typedef std::list<Op> Ops;
// bytes whose lowest bit picks the datastore
static Bytes routed(size_t bit, const char *name) { uint8_t b = vt_sym<uint8_t>(name); return Bytes(1, (char)((b & 0xfe) | bit)); }
struct Client {
  Job job; hxhim_t *hx; size_t total = 0; std::vector<Recs> model; Ops ops;
  Client(const Job::Opt &o) : job(o), hx(job.hx) { VT_ASSERT(hxhim::GetDatastoreCount(hx, &total) == HXHIM_SUCCESS && total > 0, "the number of datastores"); model.resize(total); }
  Op *make(unsigned kind) {
    ops.emplace_back(); Op &o = ops.back(); o.kind = kind; o.ok = false;
    if (kind == HISTOGRAM) { o.ds = vt_choice(total, "datastore"); o.name = vt_choice(2, "name") ? "h" : "x"; return &o; }
    const size_t a = total > 1 ? vt_choice(2, "subject bit") : 0, b = total > 2 ? vt_choice(2, "predicate bit") : 0;
    o.s = routed(a, "subject"); o.p = routed(b, "predicate"); o.st = o.pt = o.ot = HXHIM_DATA_BYTE; o.ds = (a + 2 * b) % total;
    if (kind == PUT) o.o = sym_bytes(1, "object", 1);
    return &o;
  }
  void single(unsigned kind) {
    Op &o = *make(kind); int rc;
    if (kind == PUT) rc = hxhim::Put(hx, &o.s[0], 1, o.st, &o.p[0], 1, o.pt, &o.o[0], 1, o.ot, HXHIM_PUT_SPO);
    else if (kind == GET) rc = hxhim::Get(hx, &o.s[0], 1, o.st, &o.p[0], 1, o.pt, o.ot);
    else if (kind == GETOP) rc = hxhim::GetOp(hx, &o.s[0], 1, o.st, &o.p[0], 1, o.pt, o.ot, 1, HXHIM_GETOP_EQ);
    else if (kind == DELETE) rc = hxhim::Delete(hx, &o.s[0], 1, o.st, &o.p[0], 1, o.pt);
    else rc = hxhim::Histogram(hx, (int)o.ds, o.name.data(), o.name.size());
    VT_ASSERT(rc == HXHIM_SUCCESS, "an operation can be queued");
  }
  void bulk(unsigned kind) {
    Op *o[2] = {make(kind), make(kind)}; int rc;
    void *s[2], *p[2], *v[2]; size_t one[2] = {1, 1}, recs[2] = {1, 1}, nl[2]; hxhim_data_t t[2] = {HXHIM_DATA_BYTE, HXHIM_DATA_BYTE}; int ds[2]; const char *names[2];
    hxhim_put_permutation_t perm[2] = {HXHIM_PUT_SPO, HXHIM_PUT_SPO}; hxhim_getop_t eq[2] = {HXHIM_GETOP_EQ, HXHIM_GETOP_EQ};
    for (int i = 0; i < 2; i++) { s[i] = &o[i]->s[0]; p[i] = &o[i]->p[0]; v[i] = &o[i]->o[0]; ds[i] = (int)o[i]->ds; names[i] = o[i]->name.data(); nl[i] = o[i]->name.size(); }
    if (kind == PUT) rc = hxhim::BPut(hx, s, one, t, p, one, t, v, one, t, perm, 2);
    else if (kind == GET) rc = hxhim::BGet(hx, s, one, t, p, one, t, t, 2);
    else if (kind == GETOP) rc = hxhim::BGetOp(hx, s, one, t, p, one, t, t, recs, eq, 2);
    else if (kind == DELETE) rc = hxhim::BDelete(hx, s, one, t, p, one, t, 2);
    else rc = hxhim::BHistogram(hx, ds, names, nl, 2);
    VT_ASSERT(rc == HXHIM_SUCCESS, "operations can be queued in bulk");
  }
  // what must happen: kinds in turn, each in the order of queueing
  void expect() {
    for (unsigned k = 0; k < KINDS; k++)
      for (Op &o : ops) if (o.kind == k) {
        Recs &m = model[o.kind == HISTOGRAM ? 0 : o.ds];
        if (k == PUT) { model_put(m, o); o.ok = true; }
        else if (k == GET || k == GETOP) { const Rec *r = model_get(m, o); o.ok = r; if (r) o.want = r->o; }
        else if (k == DELETE) o.ok = model_del(m, o);
        else o.ok = o.name == "h";
      }
  }
  void check(hxhim::Results *res) {
    VT_ASSERT(res && res->Size() == ops.size(), "every queued operation has one result");
    size_t seen = 0;
    std::vector<size_t> kinds(KINDS, 0);
    for (res->GoToHead(); res->ValidIterator(); res->GoToNext()) {
      hxhim_op_t op; int status, ds; seen++;
      VT_ASSERT(res->Op(&op) == HXHIM_SUCCESS && res->Status(&status) == HXHIM_SUCCESS && res->RangeServer(&ds) == HXHIM_SUCCESS, "a result can be looked at");
      VT_ASSERT(status == HXHIM_SUCCESS || status == HXHIM_ERROR, "a result has a status");
      void *s = nullptr, *p = nullptr, *v = nullptr; size_t sl = 0, pl = 0, vl = 0; hxhim_data_t st, pt, vt;
      if (op == HXHIM_HISTOGRAM) {
        ::Histogram::Histogram *h = nullptr; const int rc = res->Histogram(&h);
        VT_ASSERT((rc == HXHIM_SUCCESS) == (status == HXHIM_SUCCESS), "exactly a successful histogram has a histogram");
        Op *mine = nullptr;
        for (Op &o : ops) if (o.kind == HISTOGRAM && (int)o.ds == ds && o.ok == (status == HXHIM_SUCCESS) && !mine) mine = &o;
        VT_ASSERT(mine, "a histogram is answered truthfully by the datastore it was asked from");
        mine->kind = KINDS; kinds[HISTOGRAM]++; continue;
      }
      VT_ASSERT(res->Subject(&s, &sl, &st) == HXHIM_SUCCESS && res->Predicate(&p, &pl, &pt) == HXHIM_SUCCESS && sl == 1 && pl == 1 && st == HXHIM_DATA_BYTE && pt == HXHIM_DATA_BYTE, "a result names its pair");
      const bool has = res->Object(&v, &vl, &vt) == HXHIM_SUCCESS;
      VT_ASSERT(has == ((op == HXHIM_GET || op == HXHIM_GETOP) && status == HXHIM_SUCCESS), "exactly successful GETs have objects");
      Op *mine = nullptr;
      for (Op &o : ops) {
        if (o.kind >= KINDS || OPS[o.kind] != op) continue;
        // other results name the caller's own memory, GETOP brings back what is stored
        const bool it = op == HXHIM_GETOP ? (int)o.ds == ds && o.ok == (status == HXHIM_SUCCESS) && *(char *)s == o.s[0] && *(char *)p == o.p[0] : s == &o.s[0] && p == &o.p[0];
        if (it) { mine = &o; break; }
      }
      VT_ASSERT(mine, "a result belongs to an operation that was queued and has not been answered yet");
      VT_ASSERT((int)mine->ds == ds, "a result comes from the datastore of its pair");
      VT_ASSERT(mine->ok == (status == HXHIM_SUCCESS), "a result tells whether the operation succeeded");
      if (has) VT_ASSERT(vl == 1 && vt == HXHIM_DATA_BYTE && *(char *)v == mine->want[0], "a result has the stored object");
      kinds[mine->kind]++; mine->kind = KINDS; if (status == HXHIM_SUCCESS) vt_cover("succeeded"); else vt_cover("failed");
    }
    VT_ASSERT(seen == ops.size(), "results can be walked over");
    hxhim::Results::Destroy(res); ops.clear();
  }
  void flush() { expect(); check(hxhim::Flush(hx)); hxhim::Results *again = hxhim::Flush(hx); VT_ASSERT(again && again->Size() == 0, "a result is returned once"); hxhim::Results::Destroy(again); }
};
extern "C" void h_flush() {
  Job::Opt o = layout(); o.ops = vt_param("OPS", 0) ? vt_param("OPS", 0) : 1 + vt_choice(2, "ops per packet");
  vt_leak_mark();
  {
    Client c(o);
    for (size_t f = 0; f < vt_param("FLUSHES", 1); f++) {
      const size_t K = vt_param("K", 2);
      for (size_t i = 0; i < K; i++) { const size_t k = vt_choice(vt_param("BULK", 1) ? 2 * KINDS : KINDS, "operation"); if (k < KINDS) c.single(k); else c.bulk(k - KINDS); }
      c.flush();
    }
  }
  vt_check_leaks();
  vt_cover("end");
}
// packets stay within the limits on operations and bytes
extern "C" void h_limits() {
  Job::Opt o; o.ranks = 2; o.client = 2; o.server = 1; o.me = 1; o.hash = hxhim_hash_DatastoreZero; o.ops = 1 + vt_choice(3, "ops per packet");
  o.size = vt_sym<uint16_t>("bytes per packet"); vt_assume(o.size > 0);
  vt_leak_mark();
  {
    Job job(o); hxhim_t *hx = job.hx; const unsigned kind = vt_param("KIND", 9) < KINDS ? vt_param("KIND", 9) : vt_choice(KINDS, "operation"); const size_t K = vt_param("K", 3);
    char bytes[16] = "0123456789abcde";
    for (size_t i = 0; i < K; i++) {
      const size_t sl = 1 + vt_choice(2, "subject length") * 4, pl = 1 + vt_choice(2, "predicate length") * 5; const hxhim_data_t t = HXHIM_DATA_BYTE; int rc;
      if (kind == PUT) rc = hxhim::Put(hx, bytes, sl, t, bytes, pl, t, bytes, 3, t, HXHIM_PUT_SPO);
      else if (kind == GET) rc = hxhim::Get(hx, bytes, sl, t, bytes, pl, t, t);
      else if (kind == GETOP) rc = hxhim::GetOp(hx, bytes, sl, t, bytes, pl, t, t, 1, HXHIM_GETOP_EQ);
      else if (kind == DELETE) rc = hxhim::Delete(hx, bytes, sl, t, bytes, pl, t);
      else rc = hxhim::Histogram(hx, 0, bytes, pl);
      VT_ASSERT(rc == HXHIM_SUCCESS, "an operation can be queued");
    }
    hxhim::Results *res = hxhim::Flush(hx);
    VT_ASSERT(res && res->Size() == K, "every queued operation has one result");
    hxhim::Results::Destroy(res);
    // a packet is only closed when it has to be: with room for everything in one packet there is one packet
    if (o.ops >= K && o.size >= 1024) VT_ASSERT(job.sent == 1, "operations share a packet when they fit");
  }
  vt_check_leaks();
  vt_cover("end");
}
// every form of an operation, in C and C++, does what its name says
enum { GENERIC, DOUBLE_, FLOAT_, SINGLE, FORMS };
struct One {
  char s[2][2] = {{'s', '?'}, {'S', 't'}}, p[2][4] = {{'p', 'q', 'r', '?'}, {'P', 'Q', 'R', 'S'}}; double d[2] = {1.5, -2.25}; float f[2] = {0.5f, -8.f}; char b[2][3] = {{'x', 'y', 'z'}, {'u', 'v', 'w'}};
  void *ss[2] = {&s[0], &s[1]}, *pp[2] = {&p[0], &p[1]}, *oo[2]; double *dd[2] = {&d[0], &d[1]}; float *ff[2] = {&f[0], &f[1]};
  size_t sl[2] = {1, 2}, pl[2] = {3, 4}, ol[2] = {3, 2}, recs[2] = {1, 1}; hxhim_data_t st[2] = {HXHIM_DATA_BYTE, HXHIM_DATA_POINTER}, pt[2] = {HXHIM_DATA_POINTER, HXHIM_DATA_BYTE}; hxhim_put_permutation_t perm[2] = {HXHIM_PUT_SPO, HXHIM_PUT_SPO}; hxhim_getop_t eq[2] = {HXHIM_GETOP_EQ, HXHIM_GETOP_EQ};
  void fill() { vt_make_symbolic(b, sizeof b, "object"); }
  unsigned form; bool c, bulk; size_t n; hxhim_data_t ot, otypes[2];
  One(unsigned form_, bool c_, bool bulk_) : form(form_), c(c_), bulk(bulk_ || form_ == SINGLE), n(bulk ? 2 : 1) {
    ot = form == DOUBLE_ ? HXHIM_DATA_DOUBLE : form == FLOAT_ ? HXHIM_DATA_FLOAT : HXHIM_DATA_BYTE; for (int i = 0; i < 2; i++) { otypes[i] = ot; if (form == DOUBLE_) { oo[i] = &d[i]; ol[i] = sizeof(double); } else if (form == FLOAT_) { oo[i] = &f[i]; ol[i] = sizeof(float); } else oo[i] = b[i]; } }
  int put(hxhim_t *hx) {
    const hxhim_data_t T = HXHIM_DATA_BYTE, TP = HXHIM_DATA_POINTER;
    if (form == SINGLE) return (c ? hxhimBPutSingleType : hxhim::BPutSingleType)(hx, ss, sl, st, pp, pl, pt, oo, ol, ot, perm, 2);
    if (form == DOUBLE_) return bulk ? (c ? hxhimBPutDouble : hxhim::BPutDouble)(hx, ss, sl, st, pp, pl, pt, dd, perm, 2) : (c ? hxhimPutDouble : hxhim::PutDouble)(hx, s[0], sl[0], T, p[0], pl[0], TP, d, HXHIM_PUT_SPO);
    if (form == FLOAT_) return bulk ? (c ? hxhimBPutFloat : hxhim::BPutFloat)(hx, ss, sl, st, pp, pl, pt, ff, perm, 2) : (c ? hxhimPutFloat : hxhim::PutFloat)(hx, s[0], sl[0], T, p[0], pl[0], TP, f, HXHIM_PUT_SPO);
    return bulk ? (c ? hxhimBPut : hxhim::BPut)(hx, ss, sl, st, pp, pl, pt, oo, ol, otypes, perm, 2) : (c ? hxhimPut : hxhim::Put)(hx, s[0], sl[0], T, p[0], pl[0], TP, oo[0], ol[0], ot, HXHIM_PUT_SPO);
  }
  int get(hxhim_t *hx) {
    const hxhim_data_t T = HXHIM_DATA_BYTE, TP = HXHIM_DATA_POINTER;
    if (form == SINGLE) return (c ? hxhimBGetSingleType : hxhim::BGetSingleType)(hx, ss, sl, st, pp, pl, pt, ot, 2);
    if (form == DOUBLE_) return bulk ? (c ? hxhimBGetDouble : hxhim::BGetDouble)(hx, ss, sl, st, pp, pl, pt, 2) : (c ? hxhimGetDouble : hxhim::GetDouble)(hx, s[0], sl[0], T, p[0], pl[0], TP);
    if (form == FLOAT_) return bulk ? (c ? hxhimBGetFloat : hxhim::BGetFloat)(hx, ss, sl, st, pp, pl, pt, 2) : (c ? hxhimGetFloat : hxhim::GetFloat)(hx, s[0], sl[0], T, p[0], pl[0], TP);
    return bulk ? (c ? hxhimBGet : hxhim::BGet)(hx, ss, sl, st, pp, pl, pt, otypes, 2) : (c ? hxhimGet : hxhim::Get)(hx, s[0], sl[0], T, p[0], pl[0], TP, ot);
  }
  int getop(hxhim_t *hx) {
    const hxhim_data_t T = HXHIM_DATA_BYTE, TP = HXHIM_DATA_POINTER;
    if (form == SINGLE) return (c ? hxhimBGetOpSingleType : hxhim::BGetOpSingleType)(hx, ss, sl, st, pp, pl, pt, ot, recs, eq, 2);
    if (form == DOUBLE_) return bulk ? (c ? hxhimBGetOpDouble : hxhim::BGetOpDouble)(hx, ss, sl, st, pp, pl, pt, recs, eq, 2) : (c ? hxhimGetOpDouble : hxhim::GetOpDouble)(hx, s[0], sl[0], T, p[0], pl[0], TP, 1, HXHIM_GETOP_EQ);
    if (form == FLOAT_) return bulk ? (c ? hxhimBGetOpFloat : hxhim::BGetOpFloat)(hx, ss, sl, st, pp, pl, pt, recs, eq, 2) : (c ? hxhimGetOpFloat : hxhim::GetOpFloat)(hx, s[0], sl[0], T, p[0], pl[0], TP, 1, HXHIM_GETOP_EQ);
    return bulk ? (c ? hxhimBGetOp : hxhim::BGetOp)(hx, ss, sl, st, pp, pl, pt, otypes, recs, eq, 2) : (c ? hxhimGetOp : hxhim::GetOp)(hx, s[0], sl[0], T, p[0], pl[0], TP, ot, 1, HXHIM_GETOP_EQ);
  }
  int del(hxhim_t *hx) { const hxhim_data_t T = HXHIM_DATA_BYTE, TP = HXHIM_DATA_POINTER; return bulk ? (c ? hxhimBDelete : hxhim::BDelete)(hx, ss, sl, st, pp, pl, pt, 2) : (c ? hxhimDelete : hxhim::Delete)(hx, s[0], sl[0], T, p[0], pl[0], TP); }
  int hist(hxhim_t *hx) { const char *names[2] = {"h", "x"}; size_t nl[2] = {1, 1}; int ds[2] = {0, 0}; return bulk ? (c ? hxhimBHistogram : hxhim::BHistogram)(hx, ds, names, nl, 2) : (c ? hxhimHistogram : hxhim::Histogram)(hx, 0, "h", 1); }
};
// results of a C or C++ flush, in C form
static hxhim_results_t *c_flush(hxhim_t *hx, unsigned which, bool c) {
  static hxhim_results_t *(*const CF[])(hxhim_t *) = {hxhimFlushPuts, hxhimFlushGets, hxhimFlushGetOps, hxhimFlushDeletes, hxhimFlushHistograms, hxhimFlush};
  static hxhim::Results *(*const F[])(hxhim_t *) = {hxhim::FlushPuts, hxhim::FlushGets, hxhim::FlushGetOps, hxhim::FlushDeletes, hxhim::FlushHistograms, hxhim::Flush};
  hxhim_results_t *r = c ? CF[which](hx) : hxhim_results_init(hx, F[which](hx));
  VT_ASSERT(hxhim_results_valid(r) == HXHIM_SUCCESS, "a flush has results"); return r;
}
static size_t c_size(hxhim_results_t *r) { size_t n = 99; VT_ASSERT(hxhim_results_size(r, &n) == HXHIM_SUCCESS, "results have a size"); return n; }
// the results of one form: in order, about these items
static void c_check(hxhim_t *hx, One &o, unsigned kind, bool found, hxhim_results_t *r) {

  VT_ASSERT(c_size(r) == o.n, "every queued operation has one result");
  VT_ASSERT(hxhim_results_goto_head(r) == HXHIM_SUCCESS, "results can be walked over");
  for (size_t i = 0; i < o.n; i++) {
    hxhim_op_t op; int status, ds; VT_ASSERT(hxhim_results_valid_iterator(r) == HXHIM_SUCCESS && hxhim_result_op(r, &op) == HXHIM_SUCCESS && hxhim_result_status(r, &status) == HXHIM_SUCCESS && hxhim_result_range_server(r, &ds) == HXHIM_SUCCESS, "a result can be looked at");
    VT_ASSERT(op == OPS[kind] && ds == 0, "a result is about the operation that was called");
    if (kind == HISTOGRAM) { VT_ASSERT((status == HXHIM_SUCCESS) == (i == 0), "a histogram is found by its name"); hxhim_results_goto_next(r); continue; }
    VT_ASSERT(status == (found ? HXHIM_SUCCESS : HXHIM_ERROR), "a result tells whether the operation succeeded");
    void *s, *p, *v; size_t sl, pl, vl; hxhim_data_t st, pt, vt;
    VT_ASSERT(hxhim_result_subject(r, &s, &sl, &st) == HXHIM_SUCCESS && hxhim_result_predicate(r, &p, &pl, &pt) == HXHIM_SUCCESS && sl == o.sl[i] && pl == o.pl[i] && st == o.st[i] && pt == o.pt[i] && !memcmp(s, o.s[i], sl) && !memcmp(p, o.p[i], pl), "a result names its pair");
    const int rc = hxhim_result_object(r, &v, &vl, &vt);
    VT_ASSERT((rc == HXHIM_SUCCESS) == (found && (kind == GET || kind == GETOP)), "exactly successful GETs have objects");
    if (rc == HXHIM_SUCCESS) VT_ASSERT(vl == o.ol[i] && vt == o.ot && !memcmp(v, o.oo[i], vl), "the object that was put comes back with its type");
    VT_ASSERT((hxhim_results_goto_next(r) == HXHIM_SUCCESS) == (i + 1 < o.n), "results can be walked over");
  }
  hxhim_results_destroy(r);
  // nothing is left behind
  r = c_flush(hx, 5, true); VT_ASSERT(c_size(r) == 0 && hxhim_results_goto_head(r) == HXHIM_ERROR && hxhim_results_goto_next(r) == HXHIM_ERROR, "a result is returned once"); hxhim_results_destroy(r);
}
extern "C" void h_api() {
  Job::Opt lay; lay.hash = hxhim_hash_DatastoreZero; lay.hists = {"h"};
  vt_leak_mark();
  {
    Job job(lay); hxhim_t *hx = job.hx;
    const unsigned kind = vt_choice(KINDS, "operation"), form = vt_choice(kind <= GETOP ? FORMS : 1, "form"); const bool c = vt_choice(2, "C"), bulk = form == SINGLE || vt_choice(2, "bulk"), all = vt_choice(2, "flush everything"), there = kind == PUT || kind == HISTOGRAM || vt_choice(2, "stored");
    One o(form, c, bulk), plain(form == SINGLE ? GENERIC : form, false, bulk);
    if (form == GENERIC || form == SINGLE) { o.fill(); memcpy(plain.b, o.b, sizeof o.b); }
    auto run = [&](One &x, unsigned k, bool found) {
      const int rc = k == PUT ? x.put(hx) : k == GET ? x.get(hx) : k == GETOP ? x.getop(hx) : k == DELETE ? x.del(hx) : x.hist(hx);
      VT_ASSERT(rc == HXHIM_SUCCESS, "an operation can be queued");
      c_check(hx, x, k, found, c_flush(hx, all ? 5 : k, c));
    };
    if (there && kind != PUT && kind != HISTOGRAM) run(plain, PUT, true);
    run(o, kind, there);
    if (kind == PUT) run(plain, GET, true);
    if (kind == DELETE && there) { One g(form, false, bulk); run(g, GET, false); }
    vt_cover(kind == PUT ? "PUT" : kind == GET ? "GET" : kind == GETOP ? "GETOP" : kind == DELETE ? "DELETE" : "HISTOGRAM");
  }
  vt_check_leaks();
}
// flushing one kind of operation leaves the others queued
extern "C" void h_partial() {
  Job::Opt lay; lay.hash = hxhim_hash_DatastoreZero; lay.hists = {"h"};
  vt_leak_mark();
  {
    Job job(lay); hxhim_t *hx = job.hx; One o(GENERIC, false, false), before(GENERIC, false, false);
    VT_ASSERT(before.put(hx) == HXHIM_SUCCESS, "an operation can be queued"); hxhim_results_destroy(c_flush(hx, 0, true));
    const unsigned left = vt_choice(1 << KINDS, "queued");
    if (left & 1) o.put(hx); if (left & 2) o.get(hx); if (left & 4) o.getop(hx); if (left & 8) o.del(hx); if (left & 16) o.hist(hx);
    const unsigned k = vt_choice(KINDS, "flushed"); const bool c = vt_choice(2, "C");
    hxhim_results_t *r = c_flush(hx, k, c); VT_ASSERT(c_size(r) == ((left >> k) & 1), "only operations of the flushed kind are processed");
    if (c_size(r)) { hxhim_op_t op; int st; hxhim_results_goto_head(r); VT_ASSERT(hxhim_result_op(r, &op) == HXHIM_SUCCESS && op == OPS[k] && hxhim_result_status(r, &st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS, "operations of the flushed kind are processed"); }
    hxhim_results_destroy(r);
    r = c_flush(hx, 5, c); hxhim_results_goto_head(r);
    for (unsigned i = 0; i < KINDS; i++) if (i != k && (left >> i & 1)) { hxhim_op_t op; VT_ASSERT(hxhim_result_op(r, &op) == HXHIM_SUCCESS && op == OPS[i], "the other operations stay queued"); hxhim_results_goto_next(r); }
    VT_ASSERT(hxhim_results_valid_iterator(r) == HXHIM_ERROR, "an operation is processed once"); hxhim_results_destroy(r);
  }
  vt_check_leaks();
  vt_cover("end");
}
// a PUT stores its triple in exactly the orders asked for
extern "C" void h_permute() {
  Job::Opt lay; lay.per_server = 2; lay.ranks = vt_param("RANKS", 1); lay.ops = 1 + vt_choice(2, "ops per packet") * 3;
  vt_leak_mark();
  {
    Job job(lay); hxhim_t *hx = job.hx;
    const hxhim_put_permutation_t mask = vt_sym<uint8_t>("permutations"); const bool bulk = vt_choice(2, "bulk");
    uint8_t s[1] = {(uint8_t)(0x72 + vt_choice(2, "subject"))}; int32_t p = -7; uint64_t o = 123456789012ull;
    struct Part { void *p; size_t n; hxhim_data_t t; } part[3] = {{s, 1, HXHIM_DATA_BYTE}, {&p, 4, HXHIM_DATA_INT32}, {&o, 8, HXHIM_DATA_UINT64}};
    static const struct { hxhim_put_permutation_t m; int s, p, o; } ORDER[] = {{HXHIM_PUT_SPO, 0, 1, 2}, {HXHIM_PUT_SOP, 0, 2, 1}, {HXHIM_PUT_PSO, 1, 0, 2}, {HXHIM_PUT_POS, 1, 2, 0}, {HXHIM_PUT_OSP, 2, 0, 1}, {HXHIM_PUT_OPS, 2, 1, 0}};
    int rc; size_t extra = 0;
    if (bulk) { // another triple in the same call, in other orders
      uint8_t s2 = s[0] ^ 0x10; void *ss[2] = {s, nullptr}, *pp[2] = {&p, &p}, *oo[2] = {&o, &o}; size_t sl[2] = {1, 1}, pl[2] = {4, 4}, ol[2] = {8, 8}; hxhim_data_t st[2] = {HXHIM_DATA_BYTE, HXHIM_DATA_BYTE}, pt[2] = {HXHIM_DATA_INT32, HXHIM_DATA_INT32}, ot[2] = {HXHIM_DATA_UINT64, HXHIM_DATA_UINT64};
      static uint8_t other; other = s2; ss[1] = &other; hxhim_put_permutation_t perms[2] = {mask, HXHIM_PUT_SPO}; extra = 1;
      rc = hxhim::BPut(hx, ss, sl, st, pp, pl, pt, oo, ol, ot, perms, 2);
    }
    else rc = hxhim::Put(hx, s, 1, HXHIM_DATA_BYTE, &p, 4, HXHIM_DATA_INT32, &o, 8, HXHIM_DATA_UINT64, mask);
    VT_ASSERT(rc == HXHIM_SUCCESS, "a triple can be put");
    size_t orders = 0; for (auto const &x : ORDER) orders += !!(mask & x.m);
    hxhim::Results *r = hxhim::Flush(hx); VT_ASSERT(r && r->Size() == orders + extra, "every order of a triple has one result");
    size_t seen[6] = {0, 0, 0, 0, 0, 0};
    for (r->GoToHead(); r->ValidIterator(); r->GoToNext()) {
      void *a, *b; int st; VT_ASSERT(r->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS && r->Subject(&a, nullptr, nullptr) == HXHIM_SUCCESS && r->Predicate(&b, nullptr, nullptr) == HXHIM_SUCCESS, "a PUT succeeds");
      for (int i = 0; i < 6; i++) seen[i] += a == part[ORDER[i].s].p && b == part[ORDER[i].p].p;
    }
    for (int i = 0; i < 6; i++) VT_ASSERT(seen[i] == !!(mask & ORDER[i].m), "every order of a triple has one result");
    hxhim::Results::Destroy(r);
    for (auto const &x : ORDER) {
      const Part &S = part[x.s], &P = part[x.p], &O = part[x.o];
      VT_ASSERT(hxhim::Get(hx, S.p, S.n, S.t, P.p, P.n, P.t, O.t) == HXHIM_SUCCESS, "an operation can be queued");
      r = hxhim::Flush(hx); r->GoToHead(); int st = 0; VT_ASSERT(r->Size() == 1 && r->Status(&st) == HXHIM_SUCCESS, "every queued operation has one result");
      VT_ASSERT((st == HXHIM_SUCCESS) == !!(mask & x.m), "a triple is found in exactly the orders asked for");
      void *v; size_t vl; hxhim_data_t vt; if (st == HXHIM_SUCCESS) VT_ASSERT(r->Object(&v, &vl, &vt) == HXHIM_SUCCESS && vl == O.n && vt == O.t && bytes_eq(v, O.p, vl), "each order has the remaining part as its object");
      hxhim::Results::Destroy(r);
    }
    vt_cover(mask ? "some" : "none");
  }
  vt_check_leaks();
}
// calls that make no sense are refused and leave nothing queued
extern "C" void h_reject() {
  Job::Opt lay; lay.hash = hxhim_hash_DatastoreZero; lay.hists = {"h"}; lay.per_server = 1 + vt_choice(2, "per server");
  vt_leak_mark();
  {
    Job job(lay); hxhim_t *hx = job.hx; One o(GENERIC, false, false); const hxhim_data_t T = HXHIM_DATA_BYTE;
    const unsigned kind = vt_choice(KINDS, "operation"), closed = vt_choice(4, "session"); const bool bulk = vt_choice(2, "bulk"), single = bulk && kind <= GETOP && vt_choice(2, "single type");
    hxhim_t none; none.p = nullptr; hxhim_t idle; idle.p = construct<hxhim_private_t>();
    hxhim_t *use = closed == 1 ? nullptr : closed == 2 ? &none : closed == 3 ? &idle : hx;
    void *s = o.s, *p = o.p, *v = o.b[0]; size_t sl = 1, pl = 1, vl = 3; int id = 0; const char *names[2] = {"h", "h"}; size_t nl[2] = {1, 1}; int rc; const int total = (int)lay.per_server;
    void **ss = o.ss, **pp = o.pp, **oo = o.oo; size_t *sls = o.sl, *pls = o.pl, *ols = o.ol, *recs = o.recs; hxhim_data_t *sts = o.st, *pts = o.pt, *ots = o.otypes; hxhim_put_permutation_t *perm = o.perm; hxhim_getop_t *eq = o.eq; int ids[2] = {0, 0}, *idp = ids; const char **np = names; size_t *nlp = nl;
    if (!closed) { // one thing wrong
      if (kind == HISTOGRAM) { id = vt_sym<int>("datastore"); vt_assume(id < 0 || id >= total); if (bulk) { const unsigned w = vt_choice(5, "wrong"); if (w < 2) ids[w] = id; else if (w == 2) idp = nullptr; else if (w == 3) np = nullptr; else nlp = nullptr; } }
      else if (!bulk) {
        const unsigned w = vt_choice(kind == PUT ? 6 : kind == GETOP ? 2 : 4, "wrong"); if (w == 0) s = nullptr; else if (w == 1) sl = 0; else if (w == 2) p = nullptr; else if (w == 3) pl = 0; else if (w == 4) v = nullptr; else vl = 0;
      }
      else {
        const unsigned w = vt_choice(kind == PUT ? 10 : kind == GET ? 7 : kind == GETOP ? 9 : 6, "wrong");
        if (w == 0) ss = nullptr; else if (w == 1) sls = nullptr; else if (w == 2) pp = nullptr; else if (w == 3) pls = nullptr; else if (w == 4) sts = nullptr; else if (w == 5) pts = nullptr;
        else if (w == 6) ots = nullptr; else if (kind == PUT) { if (w == 7) oo = nullptr; else if (w == 8) ols = nullptr; else perm = nullptr; } else if (w == 7) recs = nullptr; else eq = nullptr;
        if (single && (!sts || !pts || !ots)) { destruct(idle.p); return; }   // not looked at
      }
    }
    if (kind == PUT) rc = single ? hxhim::BPutSingleType(use, ss, sls, sts, pp, pls, pts, oo, ols, T, perm, 2) : bulk ? hxhim::BPut(use, ss, sls, sts, pp, pls, pts, oo, ols, ots, perm, 2) : hxhim::Put(use, s, sl, T, p, pl, T, v, vl, T, HXHIM_PUT_SPO);
    else if (kind == GET) rc = single ? hxhim::BGetSingleType(use, ss, sls, sts, pp, pls, pts, T, 2) : bulk ? hxhim::BGet(use, ss, sls, sts, pp, pls, pts, ots, 2) : hxhim::Get(use, s, sl, T, p, pl, T, T);
    else if (kind == GETOP) rc = single ? hxhim::BGetOpSingleType(use, ss, sls, sts, pp, pls, pts, T, recs, eq, 2) : bulk ? hxhim::BGetOp(use, ss, sls, sts, pp, pls, pts, ots, recs, eq, 2) : hxhim::GetOp(use, s, sl, T, p, pl, T, T, 1, HXHIM_GETOP_EQ);
    else if (kind == DELETE) rc = bulk ? hxhim::BDelete(use, ss, sls, sts, pp, pls, pts, 2) : hxhim::Delete(use, s, sl, T, p, pl, T);
    else rc = bulk ? hxhim::BHistogram(use, idp, np, nlp, 2) : hxhim::Histogram(use, id, "h", 1);
    VT_ASSERT(rc == HXHIM_ERROR, "a call that makes no sense is refused");
    hxhim::Results *r = hxhim::Flush(hx); VT_ASSERT(r && r->Size() == 0, "a refused call leaves nothing queued"); hxhim::Results::Destroy(r);
    destruct(idle.p);
    vt_cover(closed ? "no session" : "bad argument");
  }
  vt_check_leaks();
}
// any histogram of any existing datastore can be asked for, and only those
extern "C" void h_hist_id() {
  Job::Opt lay = layout(); lay.hists = {"h"}; Job job(lay); size_t total = 0; hxhim::GetDatastoreCount(job.hx, &total);
  int id = vt_sym<int>("datastore"); const bool ok = id >= 0 && (size_t)id < total; if (ok) id = (int)vt_concretize(id); const int rc = hxhim::Histogram(job.hx, id, "h", 1);
  VT_ASSERT((rc == HXHIM_SUCCESS) == ok, "exactly histograms of existing datastores can be asked for");
  hxhim::Results *r = hxhim::Flush(job.hx); VT_ASSERT(r->Size() == ok, "every queued operation has one result");
  int ds = -1, st = 0; if (ok) { r->GoToHead(); VT_ASSERT(r->RangeServer(&ds) == HXHIM_SUCCESS && ds == id && r->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS, "the histogram comes from the datastore asked"); vt_cover("exists"); } else vt_cover("missing");
  hxhim::Results::Destroy(r);
}
// changing the hash or the name of the datastores changes where data is, and nothing is lost or mixed up
static int hash_last(hxhim_t *hx, void *, const size_t, void *, const size_t, void *args) { size_t total = 0; hxhim::nocheck::GetDatastoreCount(hx, &total); return args ? (int)total - 1 : 0; }
extern "C" void h_change() {
  rm_db();
  Job::Opt lay; lay.per_server = 2; lay.backend = vt_param("BACKEND", LDB); lay.hists = {"h"}; lay.write_hist = vt_choice(2, "keep histograms");
  vt_leak_mark();
  {
    Job job(lay); hxhim_t *hx = job.hx; static int yes = 1; const bool mem = lay.backend == MEM;
    const hxhim_data_t T = HXHIM_DATA_BYTE; size_t hash = 0; char name[2] = {'n', 0}; int fresh = 0;
    struct Space { std::string name; Bytes v[2]; }; std::vector<Space> spaces; spaces.push_back({"", {}}); size_t at = 0;   // what each set of datastores holds, per hash_bytes datastore
    uint8_t s[2] = {(uint8_t)(vt_sym<uint8_t>("even") & 0xfe), (uint8_t)(vt_sym<uint8_t>("odd") | 1)}, p = vt_sym<uint8_t>("predicate"), vals[4]; size_t nv = 0;
    auto dst = [&](int i) { return hash == 0 ? i : hash == 1 ? 0 : 1; };
    struct At { int ds; Bytes v; }; std::vector<std::vector<std::pair<std::pair<int, int>, uint8_t>>> store(1);      // per space: (datastore, subject) -> value
    auto lookup = [&](int i) -> const uint8_t * { for (auto &e : store[at]) if (e.first.first == dst(i) && e.first.second == i) return &e.second; return nullptr; };
    std::vector<std::string> names(1, "vt-database#");   // of the spaces; '#': by datastore name
    const size_t K = vt_param("K", 3);
    for (size_t k = 0; k < K; k++) {
      const int i = (int)vt_choice(2, "subject"); vals[nv] = vt_sym<uint8_t>("object"); bool put = false;
      if (vt_choice(2, "put")) { VT_ASSERT(hxhim::Put(hx, &s[i], 1, T, &p, 1, T, &vals[nv], 1, T, HXHIM_PUT_SPO) == HXHIM_SUCCESS, "an operation can be queued"); put = true;
        const uint8_t *old = lookup(i); if (old) *(uint8_t *)old = vals[nv]; else store[at].push_back({{dst(i), i}, vals[nv]}); nv++; }
      // queued operations are carried out before the change
      const unsigned how = vt_choice(5, "change"); hxhim::Results *r; std::string to; size_t h = hash;
      if (how == 0) { r = hxhim::Sync(hx); to = names[at]; }
      else if (how <= 2) { h = how; to = how == 1 ? "vt-database-zero" : "vt-database-last"; r = hxhim::ChangeHash(hx, to, hash_last, how == 1 ? nullptr : &yes); }
      else { to = how == 3 ? "vt-database#" : "vt-database2#"; r = hxhim::ChangeDatastoreName(hx, to.substr(0, to.size() - 1), lay.write_hist, lay.write_hist, true); }
      VT_ASSERT(r && r->Size() == (size_t)put + 2 * (how == 0) + 2 * (how != 0), "a change returns the results of queued operations and of syncing every datastore");
      size_t syncs = 0, puts = 0; for (r->GoToHead(); r->ValidIterator(); r->GoToNext()) { hxhim_op_t op; int st; VT_ASSERT(r->Op(&op) == HXHIM_SUCCESS && r->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS, "queued operations succeed"); syncs += op == HXHIM_SYNC; puts += op == HXHIM_PUT; }
      VT_ASSERT(syncs == 2 && puts == put, "a change returns the results of queued operations and of syncing every datastore");
      hxhim::Results::Destroy(r);
      hash = h; for (at = 0; at < names.size() && names[at] != to; at++); if (at == names.size()) { names.push_back(to); store.emplace_back(); }
      if (mem && how != 0) store[at].clear();   // closing forgets
      const char *hn = nullptr; hxhim_hash_t f = nullptr; void *args = nullptr;
      VT_ASSERT(hxhim::GetHash(hx, &hn, &f, &args) == HXHIM_SUCCESS && (hash ? f == hash_last && std::string(hn) == (hash == 1 ? "vt-database-zero" : "vt-database-last") && !args == (hash == 1) : f == hash_bytes), "the hash is the one that was set");
      for (int j = 0; j < 2; j++) {
        VT_ASSERT(hxhim::Get(hx, &s[j], 1, T, &p, 1, T, T) == HXHIM_SUCCESS, "an operation can be queued");
        r = hxhim::Flush(hx); r->GoToHead(); int st, ds; VT_ASSERT(r->Size() == 1 && r->Status(&st) == HXHIM_SUCCESS && r->RangeServer(&ds) == HXHIM_SUCCESS, "every queued operation has one result");
        VT_ASSERT(ds == dst(j), "operations go where the current hash says");
        const uint8_t *want = lookup(j); VT_ASSERT((st == HXHIM_SUCCESS) == !!want, "a datastore has exactly what was put into it under its current name");
        void *v; size_t vl; hxhim_data_t vt; if (want) { VT_ASSERT(r->Object(&v, &vl, &vt) == HXHIM_SUCCESS && vl == 1 && vt == T && *(uint8_t *)v == *want, "the last object put for the pair comes back"); vt_cover("found"); } else vt_cover("missing");
        hxhim::Results::Destroy(r);
      }
      VT_ASSERT(hxhim::Histogram(hx, dst(0), "h", 1) == HXHIM_SUCCESS, "an operation can be queued");
      r = hxhim::Flush(hx); r->GoToHead(); int st; VT_ASSERT(r->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS, "histograms are there after a change"); hxhim::Results::Destroy(r);
    }
  }
  rm_db(); vt_check_leaks();
  vt_cover("end");
}
// a change of name or hash keeps, finds, makes or drops histograms as it is told to, whatever the session does by itself
extern "C" void h_change_hist() {
  rm_db(); static bool sr, sw; sr = vt_choice(2, "session reads"); sw = vt_choice(2, "session writes");
  Job::Opt lay; lay.backend = vt_param("BACKEND", LDB); lay.hists = {"h"};
  lay.setup = [](hxhim_t *h) { VT_ASSERT(hxhim_datastore_histograms(h, sr, sw) == HXHIM_SUCCESS && hxhim_set_histogram_first_n(h, 2) == HXHIM_SUCCESS, "options can be set before opening"); };
  vt_leak_mark();
  {
    Job job(lay); hxhim_t *hx = job.hx; const bool mem = lay.backend == MEM; const char *to[3] = {"vt-database", "vt-database2", "vt-database-zero"};
    long saved[3] = {-1, -1, -1}, now = 0; size_t at = 0; const size_t K = vt_param("K", 2); uint8_t s = vt_sym<uint8_t>("subject"), p = 'h'; const unsigned which = vt_choice(2, "C or C++ first");   // -1: no histogram
    for (size_t k = 0; k < K; k++) {
      double v = k + 1; VT_ASSERT(hxhim::Put(hx, &s, 1, HXHIM_DATA_BYTE, &p, 1, HXHIM_DATA_BYTE, &v, sizeof(v), HXHIM_DATA_DOUBLE, HXHIM_PUT_SPO) == HXHIM_SUCCESS, "an operation can be queued");
      if (now >= 0) now++;
      const size_t n = vt_choice(3, "name"); bool w = sw, r = sr, c = true; hxhim::Results *res;
      if (n < 2) { w = vt_choice(2, "write"); r = vt_choice(2, "read"); c = vt_choice(2, "create"); vt_assume(w || !sw);   /* a session that writes has saved them while syncing */
      }
      if ((k & 1) == which) {
        res = n < 2 ? hxhim::ChangeDatastoreName(hx, to[n], w, r, c) : hxhim::ChangeHash(hx, to[n], hash_last, nullptr);
        VT_ASSERT(res && res->Size() == 2, "a change returns the results of queued operations and of syncing every datastore"); hxhim::Results::Destroy(res);
      } else {
        hxhim_results_t *cr = n < 2 ? hxhimChangeDatastoreName(hx, to[n], strlen(to[n]), w, r, c) : hxhimChangeHash(hx, to[n], strlen(to[n]), hash_last, nullptr);
        VT_ASSERT(hxhim_results_valid(cr) == HXHIM_SUCCESS && c_size(cr) == 2, "a change returns the results of queued operations and of syncing every datastore"); hxhim_results_destroy(cr);
      }
      if (w && now >= 0 && !mem) saved[at] = now;
      at = n; now = r && saved[at] >= 0 ? saved[at] : c ? 0 : -1;
      VT_ASSERT(hxhim::Histogram(hx, 0, "h", 1) == HXHIM_SUCCESS, "an operation can be queued"); res = hxhim::Flush(hx); res->GoToHead(); int st;
      VT_ASSERT(res->Size() == 1 && res->Status(&st) == HXHIM_SUCCESS && (st == HXHIM_SUCCESS) == (now >= 0), "a histogram is there after a change if it was read or made");
      if (now >= 0) { double *b; size_t *cs, z, sum = 0; const bool any = res->Histogram(nullptr, nullptr, &b, &cs, &z) == HXHIM_SUCCESS; VT_ASSERT(any == (now >= 2), "a histogram can be read once it has its buckets"); for (size_t i = 0; any && i < z; i++) sum += cs[i]; VT_ASSERT(!any || sum == (size_t)now, "a histogram counts what was counted in the datastores of that name when it was saved"); vt_cover(any ? "buckets" : now ? "kept" : "made"); } else vt_cover("none");
      hxhim::Results::Destroy(res);
    }
  }
  rm_db(); vt_check_leaks();
  vt_cover("end");
}
