// A job of a few ranks: rank 0 uses the client interface, requests to other ranks travel packed
#pragma once
#include "vt_ds.hpp"
#include "vt_mpi.h"
#include "hxhim/hxhim.hpp"
#include "hxhim/options.hpp"
#include "hxhim/double.hpp"
#include "hxhim/float.hpp"
#include "hxhim/single_type.hpp"
#include "hxhim/Datastore.hpp"
#include "hxhim/private/accessors.hpp"
#include "hxhim/private/hxhim.hpp"
#include "transport/backend/local/RangeServer.hpp"
#include "transport/transports.hpp"
#include "utils/mlog2.h"
struct Job;
struct Wire : Transport::EndpointGroup {
  Job *job; Wire(Job *j) : job(j) {}
  template <class Q, class R> R *go(const Transport::ReqList<Q> &reqs);
  Message::Response::BPut *communicate(const Transport::ReqList<Message::Request::BPut> &l) override { return go<Message::Request::BPut, Message::Response::BPut>(l); }
  Message::Response::BGet *communicate(const Transport::ReqList<Message::Request::BGet> &l) override { return go<Message::Request::BGet, Message::Response::BGet>(l); }
  Message::Response::BGetOp *communicate(const Transport::ReqList<Message::Request::BGetOp> &l) override { return go<Message::Request::BGetOp, Message::Response::BGetOp>(l); }
  Message::Response::BDelete *communicate(const Transport::ReqList<Message::Request::BDelete> &l) override { return go<Message::Request::BDelete, Message::Response::BDelete>(l); }
  Message::Response::BHistogram *communicate(const Transport::ReqList<Message::Request::BHistogram> &l) override { return go<Message::Request::BHistogram, Message::Response::BHistogram>(l); }
};
// subject and predicate bytes pick the datastore
static int hash_bytes(hxhim_t *hx, void *s, const size_t sl, void *p, const size_t pl, void *) {
  size_t total = 0; hxhim::nocheck::GetDatastoreCount(hx, &total);
  return ((sl ? ((uint8_t *)s)[0] & 1 : 0) + (pl ? 2 * (((uint8_t *)p)[0] & 1) : 0)) % total;
}
struct Job {
  std::vector<hxhim_t> ranks; hxhim_t *hx; size_t sent = 0;
  struct Opt { size_t ranks = 1, client = 1, server = 1, per_server = 1, ops = 4, size = 0, async = 0, me = 0, backend = MEM; bool write_hist = false; hxhim_hash_t hash = hash_bytes; std::vector<std::string> hists; void (*setup)(hxhim_t *) = nullptr; } o;
  Job(const Opt &opt) : o(opt) {
    const size_t mpi = vt_param("MPI", 0); if (mpi) vt_mpi::eager = vt_param("EAGER", 1) ? (size_t)-1 : sizeof(size_t);   // listeners per rank, if the MPI transport is used
    ranks.resize(o.ranks); vt_mpi::size = (int)o.ranks;
    for (size_t r = 0; r < o.ranks; r++) {
      hxhim_t *h = &ranks[r]; h->p = construct<hxhim_private_t>();
      VT_ASSERT(hxhim_set_mpi_bootstrap(h, vt_mpi::comm((int)r)) == HXHIM_SUCCESS && hxhim_set_client_ratio(h, o.client) == HXHIM_SUCCESS && hxhim_set_server_ratio(h, o.server) == HXHIM_SUCCESS &&
        hxhim_set_datastores_per_server(h, o.per_server) == HXHIM_SUCCESS && (o.backend == MEM ? hxhim_set_datastore_in_memory(h) : o.backend == LDB ? hxhim_set_datastore_leveldb(h, true) : hxhim_set_datastore_rocksdb(h, true)) == HXHIM_SUCCESS && hxhim_set_datastore_name(h, ".", "vt-database", "") == HXHIM_SUCCESS && hxhim_datastore_histograms(h, o.write_hist, o.write_hist) == HXHIM_SUCCESS && hxhim_set_transport_null(h) == HXHIM_SUCCESS &&
        hxhim_set_hash_function(h, "vt", o.hash, nullptr) == HXHIM_SUCCESS && hxhim_set_start_async_puts_at(h, r == o.me ? o.async : 0) == HXHIM_SUCCESS && hxhim_set_maximum_ops_per_request(h, o.ops) == HXHIM_SUCCESS &&
        hxhim_set_maximum_size_per_request(h, o.size) == HXHIM_SUCCESS && hxhim_set_histogram_first_n(h, 1) == HXHIM_SUCCESS && hxhim_set_histogram_bucket_gen_name(h, "10_BUCKETS") == HXHIM_SUCCESS, "options can be set before opening");
      for (const std::string &n : o.hists) h->p->histograms.names.emplace(n);
      if (mpi) { VT_ASSERT(hxhim_set_transport_mpi(h, mpi) == HXHIM_SUCCESS, "the transport can be set"); for (size_t i = 0; i < o.ranks; i++) VT_ASSERT(hxhim_add_endpoint_to_group(h, (int)i) == HXHIM_SUCCESS, "an endpoint can be added"); }
      if (o.setup) o.setup(h);
      VT_ASSERT(hxhim::Open(h) == HXHIM_SUCCESS, "a session opens");
      if (!mpi) h->p->transport.transport = construct<Transport::Transport>(construct<Wire>(this), nullptr);
    }
    hx = &ranks[o.me];
  }
  ~Job() { for (hxhim_t &h : ranks) VT_ASSERT(hxhim::Close(&h) == HXHIM_SUCCESS && !h.p, "a session closes"); VT_ASSERT(vt_mpi::wire.empty(), "every message is received"); std::vector<vt_mpi::Msg>().swap(vt_mpi::wire); }
};
template <class Q, class R> R *Wire::go(const Transport::ReqList<Q> &reqs) {
  R *first = nullptr, *last = nullptr;
  VT_ASSERT(!reqs.empty(), "something is sent");
  for (auto const &q : reqs) {
    Q *req = q.second; job->sent++;
    VT_ASSERT(req && req->dst_rank == q.first && q.first >= 0 && q.first != (int)job->o.me && q.first < (int)job->ranks.size(), "a request is addressed to another rank of the job");
    hxhim_t *srv = &job->ranks[q.first]; auto &ds = srv->p->range_server.datastores;
    VT_ASSERT(!ds.ds.empty() && req->dst >= ds.ds.front()->ID() && req->dst <= ds.ds.back()->ID(), "the rank a request is sent to has the datastore it is for");
    void *buf = nullptr; size_t z = 0; Message::Request::Request *there = nullptr; Message::Response::Response *back = nullptr;
    VT_ASSERT(Message::Packer::pack((const Message::Request::Request *)req, &buf, &z) == MESSAGE_SUCCESS && Message::Unpacker::unpack(&there, buf, z) == MESSAGE_SUCCESS, "a request travels");
    VT_ASSERT(req->count <= job->o.ops, "a packet has no more operations than allowed"); vt_cover(req->count > 1 ? "packet of several" : "packet of one");
    if (job->o.size && req->count > 1) VT_ASSERT(z <= job->o.size, "a packet of several operations is not larger than allowed");
    dealloc(buf); buf = nullptr;
    Message::Response::Response *res = Transport::local::range_server(srv, there);
    destruct(there);
    VT_ASSERT(res && Message::Packer::pack((const Message::Response::Response *)res, &buf, &z) == MESSAGE_SUCCESS && Message::Unpacker::unpack(&back, buf, z) == MESSAGE_SUCCESS, "a response travels");
    dealloc(buf); destruct(res);
    R *r = static_cast<R *>(back);
    if (last) last->next = r; else first = r;
    last = r;
  }
  return first;
}
// one result per operation: found by the addresses of subject and predicate
struct Found { size_t n = 0; int status = 0; Blob object; };
