// native-kv: model
// Failures of the storage library and of value encodings are reported for exactly the operations they hit
#include "vt_ds.hpp"
static Rec rec(const char *n, hxhim_data_t t = HXHIM_DATA_BYTE) { Rec r; Buf s(1, n), o(1, n); r.s = Bytes(s.p, 1); r.p = "p"; r.o = Bytes(o.p, 1); r.st = t; r.pt = r.ot = HXHIM_DATA_BYTE; return r; }
template <class Q> static void all_failed(Q &req, Message::Response::BPut *res) { about(req, res); for (size_t i = 0; i < res->count; i++) VT_ASSERT(res->statuses[i] == DATASTORE_ERROR, "a PUT that was not written is reported as an error"); destruct(travel(res)); }
template <class Q> static void all_failed(Q &req, Message::Response::BDelete *res) { about(req, res); for (size_t i = 0; i < res->count; i++) VT_ASSERT(res->statuses[i] == DATASTORE_ERROR, "a DELETE that was not written is reported as an error"); destruct(travel(res)); }
// an I/O error of the library during open, write or read
extern "C" void h_io() {
  const unsigned be = vt_choice(2, "backend") ? RDB : LDB;
  rm_db(); Recs m;
  vt_leak_mark();
  { DS::Datastore *d = make_ds(be);
    if (vt_choice(2, "open_fails_first")) { vt_kv::fail_open = true; VT_ASSERT(!d->Open(DBNAME) && !d->Usable(), "a database that does not open is not usable");
      Message::Request::BGet g(1); Rec q = rec("q"); g.add(ref(q.s, q.st), ref(q.p, q.pt), q.ot); VT_ASSERT(d->operate(&g) == nullptr, "a datastore that is not open answers nothing"); }
    VT_ASSERT(d->Open(DBNAME) && d->Usable(), "opens");
    Rec a = rec("a"), b = rec("b"); ds_put(d, m, {a});
    switch (vt_choice(4, "fault")) {
      case 0: { vt_kv::fail_write = true; Rec c = a; Buf o(1, "new"); c.o = Bytes(o.p, 1); Message::Request::BPut p(2); p.add(ref(c.s, c.st), ref(c.p, c.pt), ref(c.o, c.ot)); p.add(ref(b.s, b.st), ref(b.p, b.pt), ref(b.o, b.ot)); all_failed(p, d->operate(&p)); vt_cover("write"); break; }
      case 1: { vt_kv::fail_write = true; Message::Request::BDelete p(2); p.add(ref(b.s, b.st), ref(b.p, b.pt)); p.add(ref(a.s, a.st), ref(a.p, a.pt)); all_failed(p, d->operate(&p)); vt_cover("delete"); break; }
      case 2: { vt_kv::fail_get = true; Message::Request::BGet g(2); g.add(ref(a.s, a.st), ref(a.p, a.pt), a.ot); g.add(ref(b.s, b.st), ref(b.p, b.pt), b.ot); Message::Response::BGet *res = d->operate(&g); about(g, res);
        VT_ASSERT(res->statuses[0] == DATASTORE_ERROR && !res->objects[0].data(), "a GET that could not be read is reported as an error"); destruct(travel(res)); vt_cover("read"); break; }
      default: { vt_kv::fail_open = true; VT_ASSERT(!d->Change("vt-database2", true, nullptr) && !d->Usable(), "a change to a database that does not open fails"); VT_ASSERT(d->Change(DBNAME, false, nullptr), "reopens"); vt_cover("change"); }
    }
    ds_get(d, m, {a, b});
    destruct(d); m.clear(); m.shrink_to_fit(); }
  rm_db(); vt_check_leaks();
}
static int refuse(void *src, const size_t n, void **dst, size_t *dn, void *) { if (n && *(char *)src == 'x') return HXHIM_ERROR; *dst = alloc(n); memcpy(*dst, src, n); *dn = n; return HXHIM_SUCCESS; }
// values whose type has no encoding, or whose encoding or decoding fails: only those items fail
extern "C" void h_encoding() {
  const unsigned be = pick_backend(), kind = vt_choice(4, "kind"), which = vt_choice(3, "part"), pos = vt_choice(2, "position");
  rm_db(); Recs m;
  vt_leak_mark();
  { DS::Transform::Callbacks *cb = DS::Transform::default_callbacks(); const hxhim_data_t T = HXHIM_DATA_POINTER;
    if (kind == 0) cb->encode.erase(T); else if (kind == 1) cb->encode[T] = std::make_pair(refuse, nullptr); else if (kind == 2) cb->decode.erase(T); else cb->decode[T] = std::make_pair(refuse, nullptr);
    DS::Datastore *d = make_ds(be, cb); d->Open(DBNAME);
    Rec good = rec("good"), bad = rec("bad"); vt_assume(good.s[0] != bad.s[0] && good.s[0] != 'x'); good.p = "p"; bad.p = "p";
    (which == 0 ? bad.s : which == 1 ? bad.p : bad.o) = "x"; (which == 0 ? bad.st : which == 1 ? bad.pt : bad.ot) = T;
    Message::Request::BPut p(2); for (unsigned i = 0; i < 2; i++) { const Rec &r = i == pos ? bad : good; p.add(ref(r.s, r.st), ref(r.p, r.pt), ref(r.o, r.ot)); }
    Message::Response::BPut *res = d->operate(&p); about(p, res);
    VT_ASSERT(res->statuses[!pos] == DATASTORE_SUCCESS && (res->statuses[pos] == DATASTORE_SUCCESS) == (kind >= 2), "exactly the PUTs that cannot be encoded fail");
    destruct(travel(res)); model_put(m, good);
    // reading: unreadable records fail, the others are unaffected
    Message::Request::BGet g(2); for (unsigned i = 0; i < 2; i++) { const Rec &r = i == pos ? bad : good; g.add(ref(r.s, r.st), ref(r.p, r.pt), r.ot); }
    Message::Response::BGet *gr = d->operate(&g); about(g, gr); gr = travel(gr);
    VT_ASSERT(gr->statuses[!pos] == DATASTORE_SUCCESS && is(gr->objects[!pos], good.o, good.ot), "the other item of a batch is unaffected");
    if (kind < 2 || which == 2) VT_ASSERT(gr->statuses[pos] == DATASTORE_ERROR && !gr->objects[pos].data(), "a value that was not stored or cannot be decoded is an error");
    else VT_ASSERT(gr->statuses[pos] == DATASTORE_SUCCESS && is(gr->objects[pos], bad.o, bad.ot), "GET does not decode keys");
    destruct(gr);
    if (kind >= 2) { Message::Request::BGetOp q(1); q.add(ref(bad.s, bad.st), ref(bad.p, bad.pt), bad.ot, 1, HXHIM_GETOP_EQ); Message::Response::BGetOp *r = d->operate(&q); VT_ASSERT(r && r->count == 1, "answered"); r = travel(r); VT_ASSERT(r->statuses[0] == DATASTORE_ERROR, "a record that cannot be decoded is an error"); destruct(r); vt_cover("decode"); }
    if (kind < 2) { Message::Request::BDelete x(2); x.add(ref(bad.s, bad.st), ref(bad.p, bad.pt)); x.add(ref(good.s, good.st), ref(good.p, good.pt)); Message::Response::BDelete *r = d->operate(&x); about(x, r); VT_ASSERT(r->statuses[1] == DATASTORE_SUCCESS && (which == 2 || r->statuses[0] == DATASTORE_ERROR), "exactly the DELETEs that cannot be encoded fail"); destruct(travel(r)); model_del(m, good); vt_cover("encode"); }
    ds_get(d, m, {good});
    destruct(d); m.clear(); m.shrink_to_fit(); }
  rm_db(); vt_check_leaks();
}
