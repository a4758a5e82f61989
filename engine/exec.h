#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unordered_map>
#include <functional>
#include <chrono>

// ------------------------------------------------------------------ intrusive refs
template <class T> struct Ref {
  T *p = nullptr;
  Ref() {}
  explicit Ref(T *x) : p(x) { if (p) p->rc++; }
  Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
  Ref(Ref &&o) : p(o.p) { o.p = nullptr; }
  Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; T *q = p; p = o.p; drop(q); return *this; }
  Ref &operator=(Ref &&o) { std::swap(p, o.p); return *this; }
  ~Ref() { drop(p); }
  static void drop(T *q) { if (q && --q->rc == 0) delete q; }
  T *operator->() const { return p; }
  explicit operator bool() const { return p; }
  // unique copy for writing
  T *w() { if (p->rc > 1) { T *n = new T(*p); n->rc = 0; *this = Ref(n); } return p; }
};

// ------------------------------------------------------------------ values
struct Val; typedef std::vector<Val> Agg;
struct Val {
  enum { None, C, S, A };
  uint8_t t = None; uint16_t w = 0;
  union { uint64_t c; E e; const Agg *a; };
  Val() : c(0) {}
};
static inline Val VC(uint64_t c, unsigned w) { Val v; v.t = Val::C; v.w = w; v.c = c & maskw(w); return v; }
static inline Val VE(E e) {
  if (e->k == K_Const) return VC(e->v, e->w);
  Val v; v.t = Val::S; v.w = e->w; v.e = e; return v;
}
static inline Val VA(const Agg *a) { Val v; v.t = Val::A; v.a = a; return v; }
static inline E toE(const Val &v) { return v.t == Val::C ? mkConst(v.c, v.w) : v.e; }

// ------------------------------------------------------------------ memory
extern E UNINIT;      // sentinel byte
enum AK : uint8_t { AK_Malloc, AK_New, AK_NewArr, AK_Stack, AK_Global, AK_Exc };

struct ShadowCell { uint8_t wt = 255; uint32_t wc = 0; uint32_t rc[6] = {0,0,0,0,0,0}; const llvm::Instruction *wi = nullptr; const llvm::Instruction *ri = nullptr; };
struct Obj {
  int rc = 0;
  uint64_t base = 0, size = 0, serial = 0;
  AK kind = AK_Malloc;
  bool alive = true, ro = false;
  const llvm::Value *site = nullptr;
  const llvm::Instruction *freeSite = nullptr;
  std::string stack;               // allocation stack (heap only)
  std::vector<uint8_t> data;
  std::vector<E> sym;              // empty, or per byte (nullptr = concrete)
  std::vector<ShadowCell> shadow;  // data race detection
};
struct Chunk { int rc = 0; Ref<Obj> o[32]; };
struct Region { std::vector<Ref<Chunk>> ch; uint64_t n = 0; };
static const unsigned STRIDE_BITS = 20;
static const uint64_t REGION_BITS = 40;

// ------------------------------------------------------------------ code
struct Opnd { int reg; Val c; };
struct CInst {
  const llvm::Instruction *I;
  unsigned op;
  int dest;
  std::vector<Opnd> ops;
  unsigned w;                       // result width for ints
  // gep precomputation
  uint64_t gepOff = 0; std::vector<std::pair<Opnd, uint64_t>> gepIdx;
  int callee = -1;                  // cached function index
};
struct CBlock { const llvm::BasicBlock *bb; std::vector<CInst> insts; unsigned firstNonPhi = 0; };
struct CFn {
  const llvm::Function *F; std::string name; int index;
  bool compiled = false; unsigned nregs = 0; std::vector<CBlock> blocks;
  std::map<const llvm::BasicBlock *, int> bidx;
  std::string file; bool fromRepo = false; uint64_t execCount = 0;
};

struct Frame {
  CFn *fn; std::vector<Val> regs; int bb = 0, prevbb = -1; unsigned pc = 0;
  uint64_t stackMark = 0;
  std::vector<Val> va;   // variable arguments
};
typedef std::vector<uint32_t> VClock;
struct Thread {
  enum St { Run, BlockMutex, BlockCond, BlockJoin, BlockPoll, Done } st = Run;
  uint64_t waitAddr = 0, waitMutex = 0; unsigned joinTid = 0;
  std::vector<Frame> frames;
  VClock vc;
  bool granted = false, atomic = false; uint64_t pollSeen = 0; unsigned pollMiss = 0;
  // exceptions
  uint64_t excPtr = 0, excType = 0;
  std::vector<std::pair<uint64_t, uint64_t>> caught;
};
struct Input { std::string name; std::vector<E> bytes; };

struct MutexSt { int owner = -1; unsigned count = 0; VClock vc; };

struct State {
  uint64_t id = 0;
  std::map<unsigned, Region> mem;
  std::vector<Thread> th; unsigned cur = 0;
  std::vector<E> pc; ModelP model;
  std::vector<Input> inputs; std::vector<uint32_t> trace;
  std::map<uint64_t, MutexSt> mtx;
  std::map<uint64_t, VClock> atomVC;
  std::vector<uint8_t> sched; unsigned preempts = 0; uint64_t progress = 1;
  uint64_t steps = 0, heapSerial = 0, leakMark = 0, symCount = 0, clock = 1000;
  unsigned depth = 0;
  std::vector<std::string> covers;
};

struct Violation { std::string kind, msg, where, stack; std::vector<std::pair<std::string, std::string>> inputs; std::vector<uint8_t> sched; std::string sig; };
