// Requests and responses survive packing and unpacking
#include "vt_util.hpp"
#include "message/Messages.hpp"
#include "datastore/constants.hpp"
#include "message/constants.hpp"
using namespace Message;
static const size_t MAXI = 3;
static const char *NM[3][MAXI] = {{"s0", "s1", "s2"}, {"p0", "p1", "p2"}, {"o0", "o1", "o2"}};
// the first item takes every length up to L, later ones a single length, so that offsets vary without an explosion
struct Item { Buf s, p, o; hxhim_data_t st, pt, ot; bool snull;
  Item(unsigned i, size_t L) : s(i ? L - 1 : vt_choice(L + 1, "slen"), NM[0][i]), p(i ? vt_choice(2, "plen") * L : vt_choice(L + 1, "plen"), NM[1][i]), o(i ? 1 : vt_choice(L + 1, "olen"), NM[2][i]),
    st(sym_type("st")), pt(sym_type("pt")), ot(sym_type("ot")), snull(s.n == 0 && vt_choice(2, "null")) {}
  Blob S() const { return snull ? ReferenceBlob(nullptr, 0, st) : s.ref(st); }
  Blob P() const { return p.ref(pt); }
  Blob O() const { return o.ref(ot); } };
static bool is(const Blob &b, const Buf &x, hxhim_data_t t) { return x.same(b.data(), b.size()) && b.data_type() == t; }
static void header(::Message::Message *m) { m->src = vt_sym<int>("src"); m->dst = vt_sym<int>("dst"); }
static void same_header(::Message::Message *a, ::Message::Message *b) {
  VT_ASSERT(a->direction == b->direction && a->op == b->op && a->src == b->src && a->dst == b->dst && a->count == b->count && a->filled() == b->filled(), "header comes back"); }
// pack into a buffer of exactly the announced size: any write past it is a memory error
template <class M> static void *pack(M *m, size_t *n) {
  const bool own = vt_choice(2, "allocated_by_caller");
  void *buf = own ? alloc(m->size()) : nullptr;
  VT_ASSERT(Packer::pack((const M *)m, &buf, n) == MESSAGE_SUCCESS && buf && *n == m->size(), "packing succeeds and announces the size");
  return buf;
}
static void req_put(Item **it, size_t n) {
  Request::BPut *m = construct<Request::BPut>(n); header(m);
  for (size_t i = 0; i < n; i++) m->add(it[i]->S(), it[i]->P(), it[i]->O());
  size_t z; void *buf = pack<Request::Request>(m, &z); Request::Request *r = nullptr;
  VT_ASSERT(Unpacker::unpack(&r, buf, z) == MESSAGE_SUCCESS && r, "unpacks"); dealloc(buf); same_header(m, r);
  Request::BPut *u = static_cast<Request::BPut *>(r);
  for (size_t i = 0; i < n; i++) {
    VT_ASSERT(is(u->subjects[i], it[i]->s, it[i]->st) && is(u->predicates[i], it[i]->p, it[i]->pt) && is(u->objects[i], it[i]->o, it[i]->ot), "PUT request: subject, predicate, object come back");
    VT_ASSERT(u->orig.subjects[i] == it[i]->S().data() && u->orig.predicates[i] == it[i]->P().data(), "PUT request: the sender's addresses come back"); }
  destruct(u); destruct(m);
}
static void req_get(Item **it, size_t n) {
  Request::BGet *m = construct<Request::BGet>(n); header(m);
  for (size_t i = 0; i < n; i++) m->add(it[i]->S(), it[i]->P(), it[i]->ot);
  size_t z; void *buf = pack<Request::Request>(m, &z); Request::Request *r = nullptr;
  VT_ASSERT(Unpacker::unpack(&r, buf, z) == MESSAGE_SUCCESS && r, "unpacks"); dealloc(buf); same_header(m, r);
  Request::BGet *u = static_cast<Request::BGet *>(r);
  for (size_t i = 0; i < n; i++) {
    VT_ASSERT(is(u->subjects[i], it[i]->s, it[i]->st) && is(u->predicates[i], it[i]->p, it[i]->pt) && u->object_types[i] == it[i]->ot, "GET request comes back");
    VT_ASSERT(u->orig.subjects[i] == it[i]->S().data() && u->orig.predicates[i] == it[i]->P().data(), "GET request: the sender's addresses come back"); }
  destruct(u); destruct(m);
}
static void req_getop(Item **it, size_t n) {
  Request::BGetOp *m = construct<Request::BGetOp>(n); header(m); hxhim_getop_t ops[MAXI]; size_t num[MAXI];
  for (size_t i = 0; i < n; i++) { ops[i] = (hxhim_getop_t)vt_choice(HXHIM_GETOP_INVALID, "getop"); num[i] = vt_sym<size_t>("num_recs"); m->add(it[i]->S(), it[i]->P(), it[i]->ot, num[i], ops[i]); }
  size_t z; void *buf = pack<Request::Request>(m, &z); Request::Request *r = nullptr;
  VT_ASSERT(Unpacker::unpack(&r, buf, z) == MESSAGE_SUCCESS && r, "unpacks"); dealloc(buf); same_header(m, r);
  Request::BGetOp *u = static_cast<Request::BGetOp *>(r);
  for (size_t i = 0; i < n; i++) {
    VT_ASSERT(u->ops[i] == ops[i] && u->num_recs[i] == num[i] && u->object_types[i] == it[i]->ot, "GETOP request: operation, count and type come back");
    if (ops[i] != HXHIM_GETOP_FIRST && ops[i] != HXHIM_GETOP_LAST) VT_ASSERT(is(u->subjects[i], it[i]->s, it[i]->st) && is(u->predicates[i], it[i]->p, it[i]->pt), "GETOP request: prefix comes back"); }
  destruct(u); destruct(m);
}
static void req_del(Item **it, size_t n) {
  Request::BDelete *m = construct<Request::BDelete>(n); header(m);
  for (size_t i = 0; i < n; i++) m->add(it[i]->S(), it[i]->P());
  size_t z; void *buf = pack<Request::Request>(m, &z); Request::Request *r = nullptr;
  VT_ASSERT(Unpacker::unpack(&r, buf, z) == MESSAGE_SUCCESS && r, "unpacks"); dealloc(buf); same_header(m, r);
  Request::BDelete *u = static_cast<Request::BDelete *>(r);
  for (size_t i = 0; i < n; i++) {
    VT_ASSERT(is(u->subjects[i], it[i]->s, it[i]->st) && is(u->predicates[i], it[i]->p, it[i]->pt), "DELETE request comes back");
    VT_ASSERT(u->orig.subjects[i] == it[i]->S().data() && u->orig.predicates[i] == it[i]->P().data(), "DELETE request: the sender's addresses come back"); }
  destruct(u); destruct(m);
}
static void req_hist(Item **it, size_t n) {
  Request::BHistogram *m = construct<Request::BHistogram>(n); header(m);
  for (size_t i = 0; i < n; i++) m->add(it[i]->O());
  size_t z; void *buf = pack<Request::Request>(m, &z); Request::Request *r = nullptr;
  VT_ASSERT(Unpacker::unpack(&r, buf, z) == MESSAGE_SUCCESS && r, "unpacks"); dealloc(buf); same_header(m, r);
  Request::BHistogram *u = static_cast<Request::BHistogram *>(r);
  for (size_t i = 0; i < n; i++) VT_ASSERT(it[i]->o.same(u->names[i].data(), u->names[i].size()), "HISTOGRAM request comes back");
  destruct(u); destruct(m);
}
static const char *LBL[] = {"PUT", "GET", "GETOP", "DELETE", "HISTOGRAM"};
extern "C" void h_request() {
  const size_t L = vt_param("L", 2), n = 1 + vt_choice(vt_param("COUNT", 2), "count"); const unsigned k = vt_choice(5, "op");
  vt_leak_mark();
  { Item *it[MAXI]; for (size_t i = 0; i < n; i++) it[i] = new Item(i, L);
    switch (k) { case 0: req_put(it, n); break; case 1: req_get(it, n); break; case 2: req_getop(it, n); break; case 3: req_del(it, n); break; default: req_hist(it, n); }
    for (size_t i = 0; i < n; i++) delete it[i]; }
  vt_check_leaks();
  vt_cover(LBL[k]);
}
static int sym_status(const char *nm) { return vt_choice(2, nm) ? DATASTORE_SUCCESS : DATASTORE_ERROR; }
// responses: pack, unpack, then move every item into another response (as the transport does)
template <class R> static R *through(R *m, bool steal) {
  size_t z; void *buf = pack<Response::Response>(m, &z); Response::Response *r = nullptr;
  VT_ASSERT(Unpacker::unpack(&r, buf, z) == MESSAGE_SUCCESS && r, "unpacks"); dealloc(buf); same_header(m, r);
  R *u = static_cast<R *>(r);
  if (!steal) return u;
  R *t = construct<R>(m->count);
  for (size_t i = 0; i < m->count; i++) t->steal(u, i);
  VT_ASSERT(t->count == m->count, "every item was taken over");
  destruct(u); return t;
}
template <class R> static void res_sp(Item **it, size_t n) {
  R *m = construct<R>(n); header(m); int st[MAXI];
  for (size_t i = 0; i < n; i++) { st[i] = vt_sym<int>("status"); m->add(it[i]->S(), it[i]->P(), st[i]); }
  R *u = through(m, vt_choice(2, "steal"));
  for (size_t i = 0; i < n; i++) VT_ASSERT(u->statuses[i] == st[i] && u->orig.subjects[i].data() == it[i]->S().data() && u->orig.subjects[i].size() == it[i]->s.n && u->orig.subjects[i].data_type() == it[i]->st &&
    u->orig.predicates[i].data() == it[i]->P().data() && u->orig.predicates[i].size() == it[i]->p.n && u->orig.predicates[i].data_type() == it[i]->pt, "status and the requester's subject and predicate come back");
  destruct(u); destruct(m);
}
static void res_get(Item **it, size_t n) {
  Response::BGet *m = construct<Response::BGet>(n); header(m); int st[MAXI];
  for (size_t i = 0; i < n; i++) { st[i] = sym_status("status"); m->add(it[i]->S(), it[i]->P(), it[i]->O(), st[i]); }
  Response::BGet *u = through(m, vt_choice(2, "steal"));
  for (size_t i = 0; i < n; i++) {
    VT_ASSERT(u->statuses[i] == st[i] && u->orig.subjects[i].data() == it[i]->S().data() && u->orig.subjects[i].size() == it[i]->s.n && u->orig.predicates[i].data() == it[i]->P().data() && u->orig.predicates[i].size() == it[i]->p.n, "GET response: status and pair come back");
    if (st[i] == DATASTORE_SUCCESS) VT_ASSERT(is(u->objects[i], it[i]->o, it[i]->ot), "GET response: the object comes back"); else VT_ASSERT(!u->objects[i].data(), "GET response: a failure has no object"); }
  destruct(u); destruct(m);
}
static void res_getop(Item **it, size_t n, size_t L) {
  Response::BGetOp *m = construct<Response::BGetOp>(n); header(m); int st[MAXI]; size_t nr[MAXI];
  for (size_t i = 0; i < n; i++) {
    st[i] = sym_status("status"); nr[i] = vt_choice(3, "records");
    Blob *s = alloc_array<Blob>(nr[i]), *p = alloc_array<Blob>(nr[i]), *o = alloc_array<Blob>(nr[i]);
    for (size_t j = 0; j < nr[i]; j++) { s[j] = Blob(it[i]->s.n, it[i]->s.p, it[i]->st); p[j] = Blob(it[i]->p.n, it[i]->p.p, it[i]->pt); if (st[i] == DATASTORE_SUCCESS) o[j] = Blob(it[i]->o.n, it[i]->o.p, it[i]->ot); }
    m->add(s, p, o, nr[i], st[i]); }
  Response::BGetOp *u = through(m, vt_choice(2, "steal"));
  for (size_t i = 0; i < n; i++) {
    VT_ASSERT(u->statuses[i] == st[i] && u->num_recs[i] == nr[i], "GETOP response: status and number of records come back");
    for (size_t j = 0; j < nr[i]; j++) { VT_ASSERT(is(u->subjects[i][j], it[i]->s, it[i]->st) && is(u->predicates[i][j], it[i]->p, it[i]->pt), "GETOP response: every pair comes back");
      if (st[i] == DATASTORE_SUCCESS) VT_ASSERT(is(u->objects[i][j], it[i]->o, it[i]->ot), "GETOP response: every object comes back"); } }
  destruct(u); destruct(m);
}
static int two(const double *v, const size_t n, double **b, size_t *size, void *) { *size = 2; *b = alloc_array<double>(3); (*b)[0] = 1; (*b)[1] = 2; return HISTOGRAM_SUCCESS; }
static void res_hist(Item **it, size_t n) {
  Response::BHistogram *m = construct<Response::BHistogram>(n); header(m); int st[MAXI]; std::shared_ptr<Histogram::Histogram> h[MAXI];
  for (size_t i = 0; i < n; i++) {
    st[i] = sym_status("status");
    h[i] = std::shared_ptr<Histogram::Histogram>(construct<Histogram::Histogram>(Histogram::Config{2, two, nullptr}, std::string(it[i]->o.p, it[i]->o.n)), Histogram::deleter);
    for (size_t k = vt_choice(4, "values"); k--;) h[i]->add(1.0 + k);
    m->add(h[i], st[i]); }
  Response::BHistogram *u = through(m, vt_choice(2, "steal"));
  for (size_t i = 0; i < n; i++) {
    VT_ASSERT(u->statuses[i] == st[i], "HISTOGRAM response: status comes back");
    if (st[i] != DATASTORE_SUCCESS) { VT_ASSERT(!u->histograms[i], "HISTOGRAM response: a failure has no histogram"); continue; }
    VT_ASSERT(u->histograms[i], "HISTOGRAM response: a success has a histogram");
    const char *nm; size_t len; u->histograms[i]->get_name(&nm, &len); VT_ASSERT(it[i]->o.same(nm, len), "HISTOGRAM response: the name comes back");
    double *b = nullptr, *b2 = nullptr; size_t *c = nullptr, *c2 = nullptr, z = 0, z2 = 0; const int r = h[i]->get(&b, &c, &z), r2 = u->histograms[i]->get(&b2, &c2, &z2);
    VT_ASSERT(r == r2 && z == z2, "HISTOGRAM response: the same number of buckets");
    if (r == HISTOGRAM_SUCCESS) { for (size_t k = 0; k < z; k++) VT_ASSERT(b[k] == b2[k] && c[k] == c2[k], "HISTOGRAM response: buckets and counts come back"); }
    size_t f, f2, cs, cs2; double *d, *d2; h[i]->get_cache(&f, &d, &cs); u->histograms[i]->get_cache(&f2, &d2, &cs2); VT_ASSERT(f == f2 && cs == cs2, "HISTOGRAM response: cache sizes come back");
    if (cs < f) for (size_t k = 0; k < cs; k++) VT_ASSERT(d[k] == d2[k], "HISTOGRAM response: cached values come back"); }
  destruct(u); destruct(m);
}
extern "C" void h_response() {
  const size_t L = vt_param("L", 2), n = 1 + vt_choice(vt_param("COUNT", 2), "count"); const unsigned k = vt_choice(5, "op");
  vt_leak_mark();
  { Item *it[MAXI]; for (size_t i = 0; i < n; i++) it[i] = new Item(i, L);
    switch (k) { case 0: res_sp<Response::BPut>(it, n); break; case 1: res_get(it, n); break; case 2: res_getop(it, n, L); break; case 3: res_sp<Response::BDelete>(it, n); break; default: res_hist(it, n); }
    for (size_t i = 0; i < n; i++) delete it[i]; }
  vt_check_leaks();
  vt_cover(LBL[k]);
}
// what is not a request (response) of a known kind is refused, and nothing leaks
extern "C" void h_refuse() {
  const int dir = vt_choice(4, "direction"), op = vt_choice(HXHIM_INVALID + 1, "op"); const bool as_request = vt_choice(2, "as_request");
  vt_leak_mark();
  { char buf[4 + 4 + 4 + 4 + 8]; memset(buf, 0, sizeof buf); memcpy(buf, &dir, 4); memcpy(buf + 4, &op, 4);
    const bool known = op == HXHIM_PUT || op == HXHIM_GET || op == HXHIM_GETOP || op == HXHIM_DELETE || op == HXHIM_HISTOGRAM;
    if (as_request) { Request::Request *r = nullptr; int rc = Unpacker::unpack(&r, buf, sizeof buf); VT_ASSERT((rc == MESSAGE_SUCCESS) == (known && dir == REQUEST), "only requests of a known kind unpack as requests"); VT_ASSERT((rc == MESSAGE_SUCCESS) == (r != nullptr), "a message exists on success"); destruct(r); }
    else { Response::Response *r = nullptr; int rc = Unpacker::unpack(&r, buf, sizeof buf); VT_ASSERT((rc == MESSAGE_SUCCESS) == (known && dir == RESPONSE), "only responses of a known kind unpack as responses"); VT_ASSERT((rc == MESSAGE_SUCCESS) == (r != nullptr), "a message exists on success"); destruct(r); }
    Request::Request *q = nullptr; VT_ASSERT(Unpacker::unpack((Request::Request **)nullptr, buf, sizeof buf) == MESSAGE_ERROR && Unpacker::unpack(&q, nullptr, 0) == MESSAGE_ERROR, "missing arguments are refused");
    void *b = nullptr; size_t z; VT_ASSERT(Packer::pack((Request::Request *)nullptr, &b, &z) == MESSAGE_ERROR && Packer::pack((Response::Response *)nullptr, &b, &z) == MESSAGE_ERROR && !b, "no message is refused"); }
  vt_check_leaks();
  vt_cover("end");
}
