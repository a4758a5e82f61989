// Which datastore an operation goes to, and which rank holds it
#include "vt_util.hpp"
#include "hxhim/hash.h"
#include "hxhim/Datastore.hpp"
#include "hxhim/RangeServer.hpp"
#include "hxhim/accessors.hpp"
#include "hxhim/hxhim.hpp"
#include "hxhim/options.hpp"
#include "hxhim/private/hxhim.hpp"
#include "hxhim/private/accessors.hpp"
#include "datastore/datastores.hpp"
#include "vt_mpi.h"
static hxhim_hash_t HASHES[] = {hxhim_hash_DatastoreZero, hxhim_hash_RankModDatastores, hxhim_hash_SumModDatastores, hxhim_hash_uthash_BER, hxhim_hash_uthash_SAX, hxhim_hash_uthash_FNV, hxhim_hash_uthash_OAT, hxhim_hash_uthash_JEN, hxhim_hash_uthash_SFH};
// every predefined hash names an existing datastore and looks at nothing but the bytes
extern "C" void h_hash() {
  hxhim_t hx; hx.p = construct<hxhim_private_t>();
  const unsigned total = 1 + (vt_sym<uint16_t>("total") & 0x7fff);
  const uint16_t rank = vt_sym<uint16_t>("rank");
  hx.p->range_server.datastores.total = total; hx.p->bootstrap.rank = rank; hx.p->running = true;
  const unsigned h = vt_param("HASH", 99) < 9 ? vt_param("HASH", 99) : vt_choice(9, "hash");
  hx.p->hash.func = HASHES[h]; hx.p->hash.args = nullptr;
  const size_t L = vt_param("L", 5), big = vt_choice(2, "long") ? 11 : 0;
  const size_t sl = vt_choice(L, "subject length") + big, pl = vt_choice(L, "predicate length");
  Buf s(sl, "subject"), p(pl, "predicate"), s2(0, "copy"), p2(0, "copy");
  free(s2.p); s2.p = (char *)malloc(sl + 3); memcpy(s2.p + 3, s.p, sl);
  free(p2.p); p2.p = (char *)malloc(pl + 5); memcpy(p2.p + 5, p.p, pl);
  const int a = hxhim_hash(&hx, s.p, sl, p.p, pl);
  VT_ASSERT(a >= 0 && a < (int)total, "a hash names one of the datastores");
  const int b = hxhim_hash(&hx, s2.p + 3, sl, p2.p + 5, pl);
  VT_ASSERT(a == b, "equal subjects and predicates go to the same datastore");
  if (h == 0) VT_ASSERT(a == 0, "DATASTORE_0 always names datastore 0");
  if (h == 1) VT_ASSERT(a == (int)(rank % total), "RANK_MOD_DATASTORES follows the rank");
  if (h == 2) { size_t sum = 0; for (size_t i = 0; i < sl; i++) sum += (uint8_t)s.p[i]; for (size_t i = 0; i < pl; i++) sum += (uint8_t)p.p[i]; VT_ASSERT(a == (int)(sum % total), "SUM_MOD_DATASTORES adds up the bytes"); }
  hx.p->running = false; destruct(hx.p);
  vt_cover("end");
}
// range server ids and datastore ids against ranks
extern "C" void h_ids() {
  const size_t C = 1 + vt_choice(vt_param("R", 4), "client ratio"), S = 1 + vt_choice(vt_param("R", 4), "server ratio"), D = 1 + vt_choice(3, "per server");
  const uint32_t M = vt_param("MASK", 0xff); const int size = 1 + (int)(vt_sym<uint32_t>("size") & M), rank = (int)(vt_sym<uint32_t>("rank") & (2 * M + 1));
  const size_t off = vt_choice(D + 1, "offset");
  namespace RS = hxhim::RangeServer; namespace D_ = hxhim::Datastore;
  const bool exists = rank < size, server = exists && (C <= S || rank % C < S);
  VT_ASSERT(RS::is_range_server(rank, size, C, S) == (exists ? server : -1), "the first server_ratio of every client_ratio ranks are range servers");
  VT_ASSERT(RS::is_range_server(rank, C, S) == (C <= S || rank % C < S), "the first server_ratio of every client_ratio ranks would be range servers");
  const int id = RS::get_id(rank, size, C, S);
  VT_ASSERT((id >= 0) == server, "exactly the range servers have ids");
  if (server) {
    VT_ASSERT(RS::get_rank(id, size, C, S) == rank, "the id of a range server leads back to its rank");
    // ids are given in the order of the ranks, without gaps: the id counts the range servers before this rank
    const int before = C <= S ? rank : (rank / (int)C) * (int)S + rank % (int)C;
    VT_ASSERT(id == before, "range server ids count up without gaps");
    vt_cover("server");
  }
  else { VT_ASSERT(id == -1, "no id"); vt_cover("client"); }
  const int ds = D_::get_id(rank, off, size, C, S, D);
  VT_ASSERT((ds >= 0) == (server && off < D), "exactly the datastores of range servers have ids");
  if (ds >= 0) {
    VT_ASSERT(ds == id * (int)D + (int)off, "datastore ids count up without gaps");
    VT_ASSERT(D_::get_rank(ds, size, C, S, D) == rank, "the id of a datastore leads back to its rank");
    VT_ASSERT(ds % (int)D == (int)off, "the id of a datastore leads back to its position");
  }
  // and the other way round
  const int any = (int)(vt_sym<uint32_t>("any") & M);
  const int r = RS::get_rank(any, size, C, S);
  if (r >= 0) VT_ASSERT(r < size && RS::get_id(r, size, C, S) == any, "the rank of a range server id has that id");
  const int r2 = D_::get_rank(any, size, C, S, D);
  if (r2 >= 0) VT_ASSERT(r2 < size && D_::get_id(r2, any % D, size, C, S, D) == any, "the rank of a datastore id has that id");
  VT_ASSERT(RS::get_id(-1, size, C, S) == -1 && RS::get_rank(-1, size, C, S) == -1 && D_::get_id(-1, 0, size, C, S, D) == -1 && D_::get_rank(-1, size, C, S, D) == -1 && RS::is_range_server(-1, size, C, S) == -1, "negative ranks and ids are refused");
  VT_ASSERT(RS::get_id(0, size, 0, S) == -1 && RS::get_rank(0, size, C, 0) == -1 && D_::get_id(0, 0, size, C, S, 0) == -1 && D_::get_rank(0, size, 0, S, D) == -1, "ratios of zero are refused");
}
// what opening computes on a rank agrees with what every other rank computes
extern "C" void h_open() {
  const size_t C = 1 + vt_choice(vt_param("R", 4), "client ratio"), S = 1 + vt_choice(vt_param("R", 4), "server ratio"), D = 1 + vt_choice(3, "per server");
  const int size = 1 + (int)(vt_sym<uint32_t>("size") & 0xff), rank = (int)(vt_sym<uint32_t>("rank") & 0xff); vt_assume(rank < size);
  hxhim_t hx; hx.p = construct<hxhim_private_t>();
  hx.p->bootstrap.rank = rank; hx.p->bootstrap.size = size;
  auto &rs = hx.p->range_server; rs.client_ratio = C; rs.server_ratio = S; rs.datastores.per_server = D; rs.datastores.open_init = false;
  rs.datastores.config = construct<::Datastore::InMemory::Config>();
  VT_ASSERT(hxhim::init::datastore(&hx) == HXHIM_SUCCESS, "datastores can be set up");
  const bool server = C <= S || rank % C < S;
  VT_ASSERT((rs.id >= 0) == server && rs.datastores.ds.size() == (server ? D : 0), "a range server has its datastores, a client has none");
  for (size_t i = 0; i < rs.datastores.ds.size(); i++) {
    VT_ASSERT(rs.datastores.ds[i]->ID() == rs.id * (int)D + (int)i, "datastores are numbered through");
    VT_ASSERT(rs.datastores.ds[i]->ID() < (int)rs.datastores.total, "no more datastores than announced");
  }
  // the announced number is exact: the last id exists, the next one does not
  const int last = (int)rs.datastores.total - 1;
  VT_ASSERT(hxhim::Datastore::get_rank(last, size, C, S, D) >= 0, "every announced datastore is on some rank");
  VT_ASSERT(hxhim::Datastore::get_rank(last + 1, size, C, S, D) == -1, "no datastore beyond the announced number");
  VT_ASSERT(rs.total_range_servers * D == rs.datastores.total, "every range server has the same number of datastores");
  hxhim::destroy::datastore(&hx); destruct(hx.p);
  vt_cover(server ? "server" : "client");
}
// where a datastore is, as told to the user
extern "C" void h_location() {
  const size_t C = 1 + vt_choice(vt_param("R", 3), "client ratio"), S = 1 + vt_choice(vt_param("R", 3), "server ratio"), D = 1 + vt_choice(3, "per server");
  const int size = 1 + (int)(vt_sym<uint32_t>("size") & 0xff), rank = (int)(vt_sym<uint32_t>("rank") & 0xff); vt_assume(rank < size);
  hxhim_t hx; hx.p = construct<hxhim_private_t>();
  hx.p->bootstrap.rank = rank; hx.p->bootstrap.size = size;
  auto &rs = hx.p->range_server; rs.client_ratio = C; rs.server_ratio = S; rs.datastores.per_server = D; rs.datastores.open_init = false;
  rs.datastores.config = construct<::Datastore::InMemory::Config>();
  VT_ASSERT(hxhim::init::datastore(&hx) == HXHIM_SUCCESS, "datastores can be set up");
  const int id = (int)vt_sym<uint16_t>("id") - 0x8000; int r = -7, off = -7; size_t n = 0, servers = 0, c = 0, s = 0;
  VT_ASSERT(hxhim::GetDatastoreLocation(&hx, id, &r, &off) == HXHIM_ERROR && hxhim::GetDatastoreCount(&hx, &n) == HXHIM_ERROR && hxhim::GetRangeServerCount(&hx, &servers) == HXHIM_ERROR && hxhim::GetRangeServerClientToServerRatio(&hx, &c, &s) == HXHIM_ERROR, "nothing is told about a session that is not open");
  hx.p->running = true;
  VT_ASSERT(hxhim::GetDatastoreCount(&hx, &n) == HXHIM_SUCCESS && hxhim::GetRangeServerCount(&hx, &servers) == HXHIM_SUCCESS && n == servers * D, "the number of datastores is told");
  VT_ASSERT(hxhim::GetRangeServerClientToServerRatio(&hx, &c, &s) == HXHIM_SUCCESS && c == C && s == S, "the ratios are told");
  const int rc = hxhim::GetDatastoreLocation(&hx, id, &r, &off);
  VT_ASSERT((rc == HXHIM_SUCCESS) == (id >= 0 && (size_t)id < n), "exactly existing datastores have a location");
  if (rc == HXHIM_SUCCESS) {
    VT_ASSERT(off == id % (int)D && hxhim::Datastore::get_id(r, off, size, C, S, D) == id, "the location of a datastore is where its operations go");
    VT_ASSERT(hxhim::GetDatastoreLocation(&hx, id, nullptr, nullptr) == HXHIM_SUCCESS, "parts of a location can be left out");
    vt_cover("exists");
  }
  else vt_cover("missing");
  hx.p->running = false; hxhim::destroy::datastore(&hx); destruct(hx.p);
}
