// PUTs processed in the background: every schedule of the client's thread(s) and the background thread
#include "vt_client.hpp"
#include "hxhim/hash.h"
#include "hxhim/private/Results.hpp"
struct Sent { uint8_t s, p, o; bool done = false; };
static std::list<Sent> sent;
static const hxhim_data_t T = HXHIM_DATA_BYTE;
static void put(hxhim_t *hx, unsigned form, size_t n) {
  void *s[2], *p[2], *o[2]; size_t one[2] = {1, 1}; hxhim_data_t t[2] = {T, T}; hxhim_put_permutation_t perm[2] = {HXHIM_PUT_SPO, HXHIM_PUT_SPO};
  for (size_t i = 0; i < n; i++) {
    const uint8_t k = (uint8_t)sent.size();
    sent.push_back({(uint8_t)(vt_sym<uint8_t>("subject") & 0xf0 | k << 1 | (vt_param("PER", 1) > 1 ? vt_choice(2, "datastore") : 0)), 'p', vt_sym<uint8_t>("object")}); Sent &x = sent.back(); s[i] = &x.s; p[i] = &x.p; o[i] = &x.o;
  }
  const int rc = form == 0 ? hxhim::Put(hx, s[0], 1, T, p[0], 1, T, o[0], 1, T, HXHIM_PUT_SPO) : form == 1 ? hxhim::BPut(hx, s, one, t, p, one, t, o, one, t, perm, n) : hxhim::BPutSingleType(hx, s, one, t, p, one, t, o, one, T, perm, n);
  VT_ASSERT(rc == HXHIM_SUCCESS, "a PUT can be queued");
}
static void check(hxhim::Results *r, size_t others = 0) {
  size_t puts = 0;
  for (r->GoToHead(); r->ValidIterator(); r->GoToNext()) {
    hxhim_op_t op; int st; void *s, *p; VT_ASSERT(r->Op(&op) == HXHIM_SUCCESS && r->Status(&st) == HXHIM_SUCCESS, "a result can be looked at");
    if (op != HXHIM_PUT) { others--; continue; }
    VT_ASSERT(st == HXHIM_SUCCESS && r->Subject(&s, nullptr, nullptr) == HXHIM_SUCCESS && r->Predicate(&p, nullptr, nullptr) == HXHIM_SUCCESS, "a PUT in the background succeeds");
    Sent *mine = nullptr; for (Sent &x : sent) if (s == &x.s && p == &x.p && !x.done) mine = &x;
    VT_ASSERT(mine, "a PUT has one result"); mine->done = true; puts++;
  }
  for (Sent &x : sent) VT_ASSERT(x.done, "a flush returns the results of every PUT queued before it");
  VT_ASSERT(!others, "every other operation has its result");
  hxhim::Results::Destroy(r);
}
static void lookup(hxhim_t *hx) {
  for (Sent &x : sent) {
    VT_ASSERT(hxhim::Get(hx, &x.s, 1, T, &x.p, 1, T, T) == HXHIM_SUCCESS, "an operation can be queued");
    hxhim::Results *r = hxhim::FlushGets(hx); r->GoToHead(); int st; void *v = nullptr; size_t l = 0; VT_ASSERT(r->Size() == 1 && r->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS, "a flushed PUT is stored");
    VT_ASSERT(r->Object(&v, &l, nullptr) == HXHIM_SUCCESS && l == 1 && *(uint8_t *)v == x.o, "a flushed PUT is stored"); hxhim::Results::Destroy(r);
  }
}
// one client thread: PUTs, perhaps another operation in between, a flush, more PUTs, the end
extern "C" void h_async() {
  Job::Opt o; o.per_server = vt_param("PER", 1); o.ops = vt_param("OPS", 1); o.async = vt_param("AT", 1);
  vt_leak_mark();
  {
    Job job(o); hxhim_t *hx = job.hx; const size_t K = vt_param("K", 1), forms = vt_param("FORMS", 3), end = vt_param("END", 9) < 3 ? vt_param("END", 9) : vt_choice(3, "end");
    for (size_t k = 0; k < K; k++) { const unsigned f = vt_choice(forms, "form"); put(hx, f, f ? vt_param("BULK", 2) : 1); }
    const bool get = vt_param("GET", 0); if (get) { VT_ASSERT(hxhim::Get(hx, &sent.front().s, 1, T, &sent.front().p, 1, T, T) == HXHIM_SUCCESS, "an operation can be queued"); hxhim::Results *g = hxhim::FlushGets(hx); VT_ASSERT(g && g->Size() == 1, "every queued operation has one result"); hxhim::Results::Destroy(g); }
    if (end != 2) { check(end ? hxhim::Flush(hx) : hxhim::FlushPuts(hx)); lookup(hx); hxhim::Results *again = hxhim::FlushPuts(hx); VT_ASSERT(again && !again->Size(), "a PUT has one result"); hxhim::Results::Destroy(again); vt_cover("flushed"); }
    else vt_cover("closed");
  }
  sent.clear(); vt_check_leaks();
}
