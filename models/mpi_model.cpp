#include "vt.h"
#include "vt_mpi.h"
#include <cstring>
#include <mutex>
#include <unistd.h>
namespace vt_mpi {
int size = 1; size_t eager = (size_t)-1; std::vector<Msg> wire; bool collective_alone = true;
static char handles[8][16]; static std::mutex nat; static int arrived[8], phase_;
MPI_Comm comm(int r) { return (MPI_Comm)handles[r]; }
static int rankOf(MPI_Comm c) { for (int i = 0; i < 8; i++) if ((void *)c == (void *)handles[i]) return i; return c == MPI_COMM_WORLD ? 0 : -1; }
struct Req { bool recv, done; int self, src, tag; void *buf; size_t n; int from; };
// one step for the scheduler; a message orders what its sender did before what its receiver does after, and nothing else
struct Step { Step() { vt_atomic(1); if (!vt_engine()) nat.lock(); } ~Step() { if (!vt_engine()) nat.unlock(); vt_atomic(0); } };
static size_t find(const Req *x) { for (size_t i = 0; i < wire.size(); i++) if (wire[i].dst == x->self && wire[i].tag == x->tag && (x->src == MPI_ANY_SOURCE || x->src == wire[i].src)) return i; return wire.size(); }
static void release(Msg &w) { w.before->lock(); w.before->unlock(); }
}
using namespace vt_mpi;
static size_t szof(MPI_Datatype t) { return t == MPI_CHAR || t == MPI_BYTE ? 1 : t == MPI_INT || t == MPI_UNSIGNED ? 4 : t == MPI_LONG_DOUBLE ? 16 : 8; }
extern "C" {
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Init_thread(int *, char ***, int, int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Finalize(void) { return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { int k = rankOf(c); if (k < 0) return MPI_ERR_COMM; *r = k; return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { if (rankOf(c) < 0) return MPI_ERR_COMM; *n = vt_mpi::size; return 0; }
int MPI_Barrier(MPI_Comm c) {
  if (collective_alone || vt_mpi::size == 1) return 0;
  const int r = rankOf(c); int mine; { Step g; mine = ++arrived[r]; vt_progress(); }
  for (;;) { { Step g; bool all = true; for (int i = 0; i < vt_mpi::size; i++) if (arrived[i] < mine) all = false; if (all) return 0; } vt_poll_wait(); }
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q) {
  const int r = rankOf(c); if (r < 0 || dst < 0 || dst >= vt_mpi::size || n < 0) return MPI_ERR_ARG;
  vt_yield(); Step g; const size_t z = n * szof(t); const bool now = z <= eager;
  Req *x = new Req{false, now, r, dst, tag, (void *)b, z, 0}; *q = (MPI_Request)x;
  wire.push_back(Msg{r, dst, tag, now ? std::string((const char *)b, z) : std::string(), now ? nullptr : x, new std::mutex}); release(wire.back()); vt_progress(); return 0; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q) {
  const int r = rankOf(c); if (r < 0 || n < 0 || src >= vt_mpi::size) return MPI_ERR_ARG;
  Step g; Req *x = new Req{true, false, r, src, tag, b, n * szof(t), 0}; *q = (MPI_Request)x; return 0; }
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st) {
  if (*q == MPI_REQUEST_NULL) { *flag = 1; return 0; }
  Req *x = (Req *)*q; bool ready; { Step g; ready = !x->done && x->recv && find(x) < wire.size(); }
  if (ready) vt_yield();      // a message is about to be taken
  { Step g;
    if (x->recv && !x->done) {
      const size_t i = find(x);
      if (i < wire.size()) { Msg &w = wire[i];
        if (w.sender) w.data.assign((const char *)w.sender->buf, w.sender->n);
        VT_ASSERT(w.data.size() <= x->n, "a received message fits into the buffer posted for it");
        memcpy(x->buf, w.data.data(), w.data.size()); x->from = w.src; x->done = true; if (w.sender) w.sender->done = true;
        release(w); delete w.before; wire.erase(wire.begin() + i); vt_progress(); } }
    *flag = x->done;
    if (x->done) { if (st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = x->from; st->MPI_TAG = x->tag; } delete x; *q = MPI_REQUEST_NULL; } }
  if (!*flag) vt_poll_wait();
  return 0; }
int MPI_Request_free(MPI_Request *q) { if (*q == MPI_REQUEST_NULL) return MPI_ERR_REQUEST; Step g; Req *x = (Req *)*q;
  for (Msg &w : wire) if (w.sender == x) { w.data.assign((const char *)x->buf, x->n); w.sender = nullptr; }
  delete x; *q = MPI_REQUEST_NULL; return 0; }
// collectives: one rank alone contributes to itself
int MPI_Allreduce(const void *s, void *d, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { memcpy(d, s, n * szof(t)); return 0; }
int MPI_Allgather(const void *s, int n, MPI_Datatype t, void *d, int, MPI_Datatype, MPI_Comm) { memcpy(d, s, n * szof(t)); return 0; }
int MPI_Gather(const void *s, int n, MPI_Datatype t, void *d, int, MPI_Datatype, int root, MPI_Comm c) { if (rankOf(c) == root) memcpy((char *)d + (size_t)root * n * szof(t), s, n * szof(t)); return 0; }
}
