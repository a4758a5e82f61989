// Histories of PUT, GET and DELETE on one datastore against a reference
#include "vt_ds.hpp"
static hxhim_data_t byte_type(bool other) { return other ? HXHIM_DATA_POINTER : HXHIM_DATA_BYTE; }
static Rec sym_rec(size_t L, bool object, size_t min = 1) {
  Rec r; r.s = sym_bytes(L, "subject", min); r.p = sym_bytes(L, "predicate", min); r.st = r.pt = r.ot = HXHIM_DATA_BYTE;
  if (object) r.o = sym_bytes(1, "object");
  return r; }
static void reopen(DS::Datastore *d, unsigned be, Recs &m, Recs &m2, bool other) {
  if (other) { VT_ASSERT(d->Change("vt-database2", true, nullptr), "another database opens"); if (be == MEM) m2.clear(); Rec q = sym_rec(1, true); ds_get(d, m2, {q}); ds_put(d, m2, {q}); }
  VT_ASSERT(d->Change(DBNAME, other, nullptr) && d->Usable(), "the database reopens");
  if (be == MEM) m.clear();        // contents of the in-memory store live as long as it is open
}
// any history of PUTs, DELETEs, syncs and reopenings, then a GET of any pair at all
extern "C" void h_history() {
  const unsigned K = vt_param("K", 2), L = vt_param("L", 1), be = pick_backend();
  rm_db(); Recs m, m2;
  vt_leak_mark();
  { DS::Datastore *d = make_ds(be); VT_ASSERT(!d->Usable(), "not usable before it is opened"); VT_ASSERT(d->Open(DBNAME), "opens");
    for (unsigned k = 0; k < K; k++) { static const unsigned WITHOUT[] = {0, 1, 3, 4}; const bool del = vt_param("DEL", 1);
      const unsigned step = k ? vt_choice(del ? 3 : 4, "step") : vt_choice(2, "step");
      switch (del || !k ? step : WITHOUT[step]) {
      case 0: ds_put(d, m, {sym_rec(L, true)}); break;
      case 1: { Rec a = sym_rec(1, false), b = sym_rec(1, true); a.ot = HXHIM_DATA_POINTER; ds_put(d, m, {a, b}); break; }
      case 2: ds_del(d, m, {sym_rec(L, false)}); break;
      case 3: reopen(d, be, m, m2, false); break;
      case 4: VT_ASSERT(d->Sync(false) == DATASTORE_SUCCESS, "sync succeeds"); reopen(d, be, m, m2, true); break;
    } }
    Rec q = sym_rec(L, false); const unsigned t = vt_choice(4, "type"); q.st = byte_type(t == 1); q.pt = byte_type(t == 2); q.ot = byte_type(t == 3);
    ds_get(d, m, {q});
    d->Close(); VT_ASSERT(!d->Usable(), "not usable after it is closed");
    Message::Request::BGet g(1); g.add(ref(q.s, q.st), ref(q.p, q.pt), q.ot); VT_ASSERT(d->operate(&g) == nullptr, "a closed datastore answers nothing");
    destruct(d); m.clear(); m.shrink_to_fit(); m2.clear(); m2.shrink_to_fit(); }
  rm_db(); vt_check_leaks(); vt_cover("end");
}
// batches: one PUT request of N, one DELETE request of 2, one GET request of 2
extern "C" void h_batch() {
  const unsigned N = vt_param("N", 2), be = pick_backend();
  rm_db(); Recs m, in;
  vt_leak_mark();
  { DS::Datastore *d = make_ds(be); d->Open(DBNAME);
    for (unsigned i = 0; i < N; i++) { Rec r; r.s = sym_bytes(1, "subject", 1); r.p = Bytes(i & 1, 'p'); r.o = sym_bytes(1, "object", 1); r.st = byte_type(i == 1 && vt_choice(2, "type")); r.pt = r.ot = HXHIM_DATA_BYTE; in.push_back(r); }
    ds_put(d, m, in);
    Rec a = in[0], b = in[1 + vt_choice(N - 1, "which")]; const unsigned w = vt_choice(4, "delete"); Buf fresh(1, "fresh"); if (w & 1) a.s = Bytes(fresh.p, 1);
    if (w & 2) ds_del(d, m, {a, b}); else ds_del(d, m, {b});
    Rec c = in[0]; ds_get(d, m, {c, a, b});
    destruct(d); m.clear(); m.shrink_to_fit(); in.clear(); in.shrink_to_fit(); }
  rm_db(); vt_check_leaks(); vt_cover("end");
}
// numbers as subjects, predicates and objects come back as the numbers they were
template <class T> static Bytes num(T v) { return Bytes((const char *)&v, sizeof v); }
template <class T> static void typed(hxhim_data_t t) {
  const unsigned be = pick_backend(), part = vt_choice(3, "part");
  rm_db(); Recs m;
  vt_leak_mark();
  { DS::Datastore *d = make_ds(be); d->Open(DBNAME);
    T v = vt_sym<T>("value"); Rec r; r.s = r.p = "k"; r.o = "v"; r.st = r.pt = r.ot = HXHIM_DATA_BYTE;
    (part == 0 ? r.s : part == 1 ? r.p : r.o) = num(v); (part == 0 ? r.st : part == 1 ? r.pt : r.ot) = t;
    ds_put(d, m, {r}); ds_get(d, m, {r});
    Message::Request::BGetOp q(1); q.add(ref(r.s, r.st), ref(r.p, r.pt), r.ot, 1, HXHIM_GETOP_FIRST); Message::Response::BGetOp *res = travel(d->operate(&q));
    VT_ASSERT(res->statuses[0] == DATASTORE_SUCCESS && res->num_recs[0] == 1 && is(res->subjects[0][0], r.s, r.st) && is(res->predicates[0][0], r.p, r.pt) && is(res->objects[0][0], r.o, r.ot), "GETOP returns the values that were put");
    destruct(res); ds_del(d, m, {r}); ds_get(d, m, {r});
    destruct(d); m.clear(); m.shrink_to_fit(); }
  rm_db(); vt_check_leaks(); vt_cover("end");
}
extern "C" void h_typed_i32() { typed<int32_t>(HXHIM_DATA_INT32); }
extern "C" void h_typed_u32() { typed<uint32_t>(HXHIM_DATA_UINT32); }
extern "C" void h_typed_i64() { typed<int64_t>(HXHIM_DATA_INT64); }
extern "C" void h_typed_u64() { typed<uint64_t>(HXHIM_DATA_UINT64); }
// numeric predicates of one subject are visited in the order of their values
extern "C" void h_numeric_order() {
  const unsigned be = pick_backend(); const int B = vt_param("B", 120);
  rm_db(); Recs m;
  vt_leak_mark();
  { DS::Datastore *d = make_ds(be); d->Open(DBNAME);
    int32_t a = vt_sym<int32_t>("a"), b = vt_sym<int32_t>("b"); vt_assume(a >= -B && a <= B && b >= -B && b <= B && a < b);
    Rec x, y; x.s = y.s = "s"; x.st = y.st = x.ot = y.ot = HXHIM_DATA_BYTE; x.pt = y.pt = HXHIM_DATA_INT32; x.p = num(a); y.p = num(b); x.o = "x"; y.o = "y";
    Rec other = x; other.s = vt_choice(2, "other") ? "r" : "t"; other.o = "z";
    ds_put(d, m, {y, x}); ds_put(d, m, {other});
    const bool up = vt_choice(2, "lowest"); Bytes none;
    Message::Request::BGetOp q(1); q.add(ref(x.s, x.st), ref(none, HXHIM_DATA_INT32), HXHIM_DATA_BYTE, 3, up ? HXHIM_GETOP_LOWEST : HXHIM_GETOP_HIGHEST); Message::Response::BGetOp *res = travel(d->operate(&q));
    VT_ASSERT(res->statuses[0] == DATASTORE_SUCCESS && res->num_recs[0] == 2, "exactly the records of the subject");
    VT_ASSERT(is(res->predicates[0][0], up ? x.p : y.p, HXHIM_DATA_INT32) && is(res->predicates[0][1], up ? y.p : x.p, HXHIM_DATA_INT32) && is(res->objects[0][0], up ? x.o : y.o, HXHIM_DATA_BYTE), "numeric predicates come in numeric order");
    destruct(res);
    // the whole pair of a record
    const bool hi = vt_choice(2, "which"); const Rec &w = hi ? y : x; const hxhim_getop_t ops[] = {HXHIM_GETOP_EQ, HXHIM_GETOP_NEXT, HXHIM_GETOP_PREV, HXHIM_GETOP_LOWEST, HXHIM_GETOP_HIGHEST}; const hxhim_getop_t op = ops[vt_choice(5, "op")];
    Message::Request::BGetOp f(1); f.add(ref(w.s, w.st), ref(w.p, w.pt), HXHIM_DATA_BYTE, 2, op); res = travel(d->operate(&f)); const bool after = other.s == "t", next = op == HXHIM_GETOP_NEXT && (!hi || after), prev = op == HXHIM_GETOP_PREV && (hi || !after);
    VT_ASSERT(res->statuses[0] == DATASTORE_SUCCESS && res->num_recs[0] == (next || prev ? 2u : 1u), "exactly the records from the pair on");
    VT_ASSERT(is(res->subjects[0][0], w.s, w.st) && is(res->predicates[0][0], w.p, w.pt) && is(res->objects[0][0], w.o, w.ot), "the pair is found");
    if (next || prev) { const Rec &z = next == hi ? other : next ? y : x; VT_ASSERT(is(res->subjects[0][1], z.s, z.st) && is(res->predicates[0][1], z.p, z.pt) && is(res->objects[0][1], z.o, z.ot), "then comes its neighbour"); }
    destruct(res); destruct(d); m.clear(); m.shrink_to_fit(); }
  rm_db(); vt_check_leaks(); vt_cover("end");
}
