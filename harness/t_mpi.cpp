// The MPI transport: clients, listeners and messages between the ranks of a job, in every order
#include "vt_client.hpp"
#include "hxhim/hash.h"
#include <thread>
static const hxhim_data_t T = HXHIM_DATA_BYTE;
struct Op { uint8_t s, p, o; };
// subjects of the two (four) datastores of a job; the rest of the bytes is arbitrary
static Op op(unsigned to, const char *n) { Op x; x.s = (uint8_t)((vt_sym<uint8_t>(n) & 0xfe) | (to & 1)); x.p = (uint8_t)('p' & 0xfe) | (to >> 1 & 1); x.o = vt_sym<uint8_t>("object"); return x; }
static bool same(const Op &a, const Op &b) { return a.s == b.s && a.p == b.p; }
static void put(hxhim_t *hx, std::vector<Op> &v) {
  for (Op &x : v) VT_ASSERT(hxhim::Put(hx, &x.s, 1, T, &x.p, 1, T, &x.o, 1, T, HXHIM_PUT_SPO) == HXHIM_SUCCESS, "an operation can be queued");
}
static void stored(hxhim::Results *r, const std::vector<Op> &v) {
  VT_ASSERT(r && r->Size() == v.size(), "every operation has one result"); std::vector<bool> seen(v.size(), false);
  for (r->GoToHead(); r->ValidIterator(); r->GoToNext()) {
    int st; hxhim_op_t k; void *s, *p; VT_ASSERT(r->Op(&k) == HXHIM_SUCCESS && k == HXHIM_PUT && r->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS && r->Subject(&s, nullptr, nullptr) == HXHIM_SUCCESS && r->Predicate(&p, nullptr, nullptr) == HXHIM_SUCCESS, "a PUT succeeds");
    bool mine = false; for (size_t i = 0; i < v.size(); i++) if (s == &v[i].s && p == &v[i].p && !seen[i]) { seen[i] = mine = true; break; }
    VT_ASSERT(mine, "a result belongs to an operation of this rank");
  }
  hxhim::Results::Destroy(r);
}
// GET each; 'found' says whether it has to be there
static void get(hxhim_t *hx, std::vector<Op> &v, bool found) {
  for (Op &x : v) VT_ASSERT(hxhim::Get(hx, &x.s, 1, T, &x.p, 1, T, T) == HXHIM_SUCCESS, "an operation can be queued");
  hxhim::Results *r = hxhim::FlushGets(hx); VT_ASSERT(r && r->Size() == v.size(), "every operation has one result"); size_t n = 0;
  for (r->GoToHead(); r->ValidIterator(); r->GoToNext()) {
    int st; void *s, *o = nullptr; size_t l = 0; VT_ASSERT(r->Status(&st) == HXHIM_SUCCESS && (st == HXHIM_SUCCESS) == found && r->Subject(&s, nullptr, nullptr) == HXHIM_SUCCESS, "a GET finds exactly what was stored");
    for (Op &x : v) if (s == &x.s) { n++; if (found) VT_ASSERT(r->Object(&o, &l, nullptr) == HXHIM_SUCCESS && l == 1 && *(uint8_t *)o == x.o, "a GET finds exactly what was stored"); }
  }
  VT_ASSERT(n == v.size(), "a result belongs to an operation of this rank"); hxhim::Results::Destroy(r);
}
static Job::Opt layout() { Job::Opt o; o.ranks = vt_param("RANKS", 2); o.per_server = vt_param("PER", 1); o.client = vt_param("CLIENT", 1); o.server = vt_param("SERVER", 1); o.me = vt_param("ME", 0); o.ops = vt_param("OPS", 4); o.hists = {"p"}; return o; }
// GETOP, DELETE and HISTOGRAM
static void others(hxhim_t *hx, std::vector<Op> &v, unsigned what) {
  Op &x = v[0]; hxhim::Results *r; int st;
  if (what == 0) {
    VT_ASSERT(hxhim::GetOp(hx, &x.s, 1, T, &x.p, 1, T, T, 2, HXHIM_GETOP_EQ) == HXHIM_SUCCESS, "an operation can be queued"); r = hxhim::FlushGetOps(hx); VT_ASSERT(r && r->Size() == 1, "one record has the pair"); r->GoToHead();
    void *o; size_t l; VT_ASSERT(r->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS && r->Object(&o, &l, nullptr) == HXHIM_SUCCESS && l == 1 && *(uint8_t *)o == x.o, "GETOP returns what was stored");
  } else if (what == 1) {
    VT_ASSERT(hxhim::Delete(hx, &x.s, 1, T, &x.p, 1, T) == HXHIM_SUCCESS, "an operation can be queued"); r = hxhim::FlushDeletes(hx); VT_ASSERT(r && r->Size() == 1, "every operation has one result"); r->GoToHead();
    VT_ASSERT(r->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS, "a DELETE succeeds"); std::vector<Op> one(1, x); get(hx, one, false);
  } else {
    size_t total = 0; VT_ASSERT(hxhim::GetDatastoreCount(hx, &total) == HXHIM_SUCCESS, "datastores are known"); for (size_t i = 0; i < total; i++) VT_ASSERT(hxhim::Histogram(hx, (int)i, "p", 1) == HXHIM_SUCCESS, "an operation can be queued");
    r = hxhim::FlushHistograms(hx); VT_ASSERT(r && r->Size() == total, "every operation has one result"); std::vector<bool> seen(total, false);
    for (r->GoToHead(); r->ValidIterator(); r->GoToNext()) { int ds; VT_ASSERT(r->RangeServer(&ds) == HXHIM_SUCCESS && r->Status(&st) == HXHIM_SUCCESS && st == HXHIM_SUCCESS && ds >= 0 && (size_t)ds < total && !seen[ds], "one histogram comes from each datastore"); seen[ds] = true; }
  }
  hxhim::Results::Destroy(r);
}
extern "C" {
// one rank works, every other one answers
void h_remote() {
  Job::Opt o = layout(); const unsigned what = vt_choice(3, "then"); size_t n = o.ranks / o.client * o.server + std::min(o.ranks % o.client, o.server); n *= o.per_server;
  vt_leak_mark();
  { Job job(o); std::vector<Op> v; size_t total = 0; VT_ASSERT(hxhim::GetDatastoreCount(job.hx, &total) == HXHIM_SUCCESS, "datastores are known");
    const unsigned to = vt_choice((1u << std::min<size_t>(total, 3)) - 1, "datastores") + 1; for (unsigned d = 0; d < 3 && d < total; d++) if (to >> d & 1) v.push_back(op(d, "subject"));
    put(job.hx, v); stored(hxhim::FlushPuts(job.hx), v); get(job.hx, v, true); others(job.hx, v, what); (void)n; }
  vt_check_leaks(); vt_cover("end");
}
// every rank works at the same time, and each closes when it is done
static void work(hxhim_t *hx, std::vector<Op> *v, bool read) { put(hx, *v); stored(hxhim::FlushPuts(hx), *v); if (read) get(hx, *v, true); VT_ASSERT(hxhim::Close(hx) == HXHIM_SUCCESS && !hx->p, "a session closes"); }
void h_all() {
  Job::Opt o = layout(); const bool read = vt_param("READ", 1); const unsigned busy = vt_param("BUSY", 9), only = vt_param("ONLY", 0);
  vt_leak_mark();
  { Job job(o); std::vector<std::vector<Op>> v(o.ranks); size_t total = 0; VT_ASSERT(hxhim::GetDatastoreCount(job.hx, &total) == HXHIM_SUCCESS, "datastores are known");
    for (size_t r = 0; r < o.ranks; r++) if (busy >> r & 1) for (unsigned d = 0; d < 3 && d < total; d++) if (!only || d != r) { Op x = op(d, "subject"); x.s = (uint8_t)((x.s & 0x0f) | (r + 1) << 4); v[r].push_back(x); }
    vt_mpi::collective_alone = false; std::vector<std::thread> t;
    for (size_t r = 1; r < o.ranks; r++) t.emplace_back(work, &job.ranks[r], &v[r], read);
    work(&job.ranks[0], &v[0], read); for (std::thread &x : t) x.join();
    job.ranks.clear(); }
  vt_check_leaks(); vt_cover("end");
}
// PUTs sent in the background while the same rank reads from the same place
void h_background() {
  Job::Opt o = layout(); o.async = vt_param("AT", 1); o.ops = vt_param("OPS", 1); const unsigned end = vt_choice(3, "end");
  vt_leak_mark();
  std::vector<Op> v, w; /* (the caller's memory outlives the session) */
  { Job job(o); v.push_back(op(1, "subject")); v.push_back(op(vt_param("SECOND", 1), "subject")); vt_assume(!same(v[0], v[1])); w.push_back(op(1, "other")); vt_assume(!same(w[0], v[0]) && !same(w[0], v[1]));
    put(job.hx, v); if (vt_param("GET", 1)) get(job.hx, w, false);
    if (end < 2) { stored(end ? hxhim::Flush(job.hx) : hxhim::FlushPuts(job.hx), v); get(job.hx, v, true); vt_cover("flushed"); } else vt_cover("closed"); }
  v.clear(); v.shrink_to_fit(); w.clear(); w.shrink_to_fit(); vt_check_leaks();
}
}
