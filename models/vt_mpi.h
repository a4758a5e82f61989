// MPI between the ranks of one harness.  Every rank uses its own communicator handle.
#pragma once
#include <mpi.h>
#include <mutex>
#include <string>
#include <vector>
namespace vt_mpi {
extern int size;                       // ranks of the job
MPI_Comm comm(int rank);               // the world communicator as seen by a rank
struct Req;
struct Msg { int src, dst, tag; std::string data; Req *sender; std::mutex *before; };
extern std::vector<Msg> wire;          // sent, not yet received
extern size_t eager;                   // longer messages are sent only when they are received
extern bool collective_alone;          // collectives are called by one rank only and complete immediately
}
