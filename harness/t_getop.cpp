// GETOP against a sorted reference
#include "vt_ds.hpp"
struct KRec { Bytes key; Rec r; };
static Bytes key_of(const Rec &r) { Blob k; sp_to_key(ref(r.s, r.st), ref(r.p, r.pt), &k); return Bytes((const char *)k.data(), k.size()); }
static bool less(const Bytes &a, const Bytes &b) { const size_t n = std::min(a.size(), b.size()); const int c = n ? memcmp(a.data(), b.data(), n) : 0; return c ? c < 0 : a.size() < b.size(); }
static bool starts(const Bytes &a, const Bytes &p) { return a.size() >= p.size() && bytes_eq(a.data(), p.data(), p.size()); }
static std::vector<KRec> sorted(const Recs &m) {
  std::vector<KRec> v;
  for (const Rec &r : m) { KRec k{key_of(r), r}; size_t i = 0; while (i < v.size() && less(v[i].key, k.key)) i++; v.insert(v.begin() + i, k); }
  return v; }
// what a GETOP must return: indices into the sorted records; false: ERROR
static bool expect(const std::vector<KRec> &v, const Bytes &prefix, hxhim_getop_t op, size_t n, std::vector<size_t> &out) {
  const long N = (long)v.size(); out.clear();
  long lo = 0; if (op != HXHIM_GETOP_FIRST && op != HXHIM_GETOP_LAST) while (lo < N && less(v[lo].key, prefix)) lo++;   // first key that is not before the prefix
  const bool has = lo < N && (op == HXHIM_GETOP_FIRST || op == HXHIM_GETOP_LAST || starts(v[lo].key, prefix));
  switch (op) {
    case HXHIM_GETOP_EQ: if (!has) return false; out.push_back(lo); return true;
    case HXHIM_GETOP_NEXT: case HXHIM_GETOP_FIRST: if (lo >= N) return false; for (long i = lo; i < N && out.size() < n; i++) out.push_back(i); return true;
    case HXHIM_GETOP_PREV: if (lo >= N) return false; for (long i = lo; i >= 0 && out.size() < n; i--) out.push_back(i); return true;
    case HXHIM_GETOP_LAST: if (!N) return false; for (long i = N - 1; i >= 0 && out.size() < n; i--) out.push_back(i); return true;
    case HXHIM_GETOP_LOWEST: if (!has) return false; for (long i = lo; i < N && out.size() < n && starts(v[i].key, prefix); i++) out.push_back(i); return true;
    case HXHIM_GETOP_HIGHEST: { if (!has) return false; long hi = lo; while (hi + 1 < N && starts(v[hi + 1].key, prefix)) hi++; for (long i = hi; i >= lo && out.size() < n; i--) out.push_back(i); return true; }
    default: return false;
  }
}
static void check_op(Message::Response::BGetOp *res, size_t i, const std::vector<KRec> &v, bool ok, const std::vector<size_t> &want, const Rec &q) {
  VT_ASSERT((res->statuses[i] == DATASTORE_SUCCESS) == ok, "GETOP succeeds exactly when there is a record to return");
  if (!ok) {
    VT_ASSERT(res->num_recs[i] == 1 && is(res->subjects[i][0], q.s, q.st) && is(res->predicates[i][0], q.p, q.pt), "a failed GETOP returns the pair that was asked for"); vt_cover("nothing"); return; }
  VT_ASSERT(res->num_recs[i] == want.size(), "GETOP returns the number of records that exist, up to the number asked for");
  for (size_t j = 0; j < want.size(); j++) { const Rec &e = v[want[j]].r;
    VT_ASSERT(is(res->subjects[i][j], e.s, e.st) && is(res->predicates[i][j], e.p, e.pt) && is(res->objects[i][j], e.o, e.ot), "GETOP returns the right records in the right order, with their types"); }
  vt_cover("records");
}
extern "C" void h_getop() {
  const unsigned N = vt_param("N", 2), be = pick_backend(), opp = vt_param("OP", 99);
  rm_db(); Recs m;
  vt_leak_mark();
  { DS::Datastore *d = make_ds(be); d->Open(DBNAME);
    const unsigned n = vt_choice(N + 1, "records");
    Recs in; for (unsigned i = 0; i < n; i++) { Rec r; r.s = sym_bytes(1, "subject", 1); r.p = sym_bytes(1, "predicate", i ? 1 : 0); r.st = i == 1 ? HXHIM_DATA_POINTER : HXHIM_DATA_BYTE; r.pt = HXHIM_DATA_BYTE; r.o = Bytes(1, 'a' + i); r.ot = r.st; in.push_back(r); }
    if (n) ds_put(d, m, in);
    const hxhim_getop_t op = (hxhim_getop_t)(opp < HXHIM_GETOP_INVALID ? opp : vt_choice(HXHIM_GETOP_INVALID + 1, "op"));
    const size_t num = vt_choice(N + 2, "num_recs");
    Rec q; q.s = sym_bytes(1, "query_subject"); q.p = sym_bytes(1, "query_predicate"); q.st = q.pt = HXHIM_DATA_BYTE;
    Message::Request::BGetOp req(2);
    req.add(ref(q.s, q.st), ref(q.p, q.pt), HXHIM_DATA_BYTE, num, op);
    req.add(ref(q.s, q.st), ref(q.p, q.pt), HXHIM_DATA_BYTE, 1, HXHIM_GETOP_FIRST);
    Message::Response::BGetOp *res = d->operate(&req);
    VT_ASSERT(res && res->count == 2, "every item of a request is answered");
    res = travel(res);
    { const std::vector<KRec> v = sorted(m); std::vector<size_t> want; bool ok = expect(v, q.s + q.p, op, num, want); check_op(res, 0, v, ok, want, q);
      ok = expect(v, Bytes(), HXHIM_GETOP_FIRST, 1, want); check_op(res, 1, v, ok, want, q); }
    destruct(res); destruct(d); m.clear(); m.shrink_to_fit(); }
  rm_db(); vt_check_leaks();
}
