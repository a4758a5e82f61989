#include <set>
// Symbolic executor for LLVM IR.
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/MathExtras.h>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <fstream>
#include <algorithm>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

E UNINIT;
static Module *M; static const DataLayout *DL;
static std::vector<CFn *> fns; static std::map<const Function *, int> fnIdx; static std::unordered_map<std::string, int> fnByName;
static std::vector<State *> work;
static std::map<const GlobalVariable *, uint64_t> gaddr;
static std::vector<Violation> viols; static std::set<std::string> violSigs;
static std::map<std::string, uint64_t> covers; static std::map<std::string, uint64_t> assertsChecked;
static std::vector<std::string> problems; static std::set<std::string> problemSet;
static uint64_t nPaths = 0, nPathsErr = 0, nPathsAssumed = 0, nForks = 0, nInstr = 0, nStates = 0, nAsserts = 0, nMemChecks = 0, nUninitChecks = 0;
static std::set<std::string> extCalled;
static std::map<std::string, uint64_t> params;
static double maxTime = 600; static uint64_t maxSteps = 30000000; static uint64_t maxViol = 40; static unsigned maxPreempt = 1000000; static bool delayBound = false, quietLoads = false; static uint64_t maxPathsLimit = 0;
static bool detectRaces = true, checkUninit = true;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
struct PathEnd {};          // thrown to terminate the current path
struct Retry {};            // thrown to re-execute the current instruction (e.g. thread switch)
static const Instruction *curI; static State *cs;

static const uint64_t FN_BASE = 0x10000;
static uint64_t fnAddr(int i) { return FN_BASE + 16ULL * i; }

// ------------------------------------------------------------------ problems and violations
static void problem(const std::string &s) { if (problemSet.insert(s).second) { problems.push_back(s); fprintf(stderr, "PROBLEM: %s\n", s.c_str()); } }
static std::string jesc(const std::string &s) {
  std::string r; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r;
}
static std::string demangleLite(const std::string &n);
static std::string locOf(const Instruction *I) {
  if (!I) return "?";
  if (const DebugLoc &d = I->getDebugLoc()) {
    const DILocation *l = d.get();
    return (l->getDirectory().empty() || l->getFilename().starts_with("/") ? std::string() : l->getDirectory().str() + "/") + l->getFilename().str() + ":" + std::to_string(l->getLine());
  }
  return I->getFunction()->getName().str();
}
static bool inHarness(const std::string &loc) { return loc.find("/repo/") == std::string::npos; }
// chain of source locations (innermost first), following inlined-at
static void locChain(const Instruction *I, std::vector<std::string> &out) {
  if (!I) return;
  if (const DebugLoc &d = I->getDebugLoc()) {
    for (const DILocation *l = d.get(); l; l = l->getInlinedAt()) {
      std::string f = (l->getFilename().starts_with("/") ? std::string() : l->getDirectory().str() + "/") + l->getFilename().str();
      std::string fn;
      if (auto *sp = l->getScope()->getSubprogram()) fn = sp->getName().str();
      out.push_back(fn + " " + f + ":" + std::to_string(l->getLine()));
    }
  } else out.push_back(I->getFunction()->getName().str());
}
static std::string stackOf(State &s, unsigned tid, unsigned limit = 16) {
  std::string r; Thread &t = s.th[tid];
  unsigned n = 0;
  for (int i = (int)t.frames.size() - 1; i >= 0 && n < limit; i--) {
    Frame &f = t.frames[i];
    auto &insts = f.fn->blocks[f.bb].insts;
    const Instruction *I = f.pc < insts.size() ? insts[f.pc].I : nullptr;
    std::vector<std::string> ch; locChain(I, ch);
    for (auto &c : ch) { if (n++ >= limit) break; if (c.find("/usr/") != std::string::npos) { n--; continue; } r += c + " | "; }
  }
  return r;
}
static std::string repoWhere(State &s) {
  Thread &t = s.th[s.cur];
  for (int i = (int)t.frames.size() - 1; i >= 0; i--) {
    Frame &f = t.frames[i];
    auto &insts = f.fn->blocks[f.bb].insts;
    const Instruction *I = f.pc < insts.size() ? insts[f.pc].I : nullptr;
    std::vector<std::string> ch; locChain(I, ch);
    for (auto &c : ch) if (c.find("/repo/") != std::string::npos || c.find("/harness/") != std::string::npos) return c;
  }
  return "?";
}
static std::string hex(const std::vector<uint8_t> &v) { std::string r; char b[4]; for (uint8_t c : v) { snprintf(b, 4, "%02x", c); r += b; } return r; }

static void violation(State &s, const std::string &kind, const std::string &msg, const ModelP &m) {
  Violation v; v.kind = kind; v.msg = msg; v.where = repoWhere(s); v.stack = stackOf(s, s.cur);
  std::string fn = v.where.substr(0, v.where.find(' '));
  v.sig = kind + "|" + (kind == "assert" ? msg : fn);
  std::string key = v.sig + "|" + v.where + msg;
  if (!violSigs.insert(key).second) return;
  for (auto &in : s.inputs) { std::vector<uint8_t> b; for (E e : in.bytes) b.push_back((uint8_t)evalE(e, *m)); v.inputs.push_back({in.name, hex(b)}); }
  v.sched = s.sched;
  fprintf(stderr, "VIOL[%s] %s @ %s\n   stack: %s\n", kind.c_str(), msg.c_str(), v.where.c_str(), v.stack.c_str());
  for (auto &p : v.inputs) fprintf(stderr, "   in %s = %s\n", p.first.c_str(), p.second.c_str());
  viols.push_back(v);
}
// samples of completed paths (reservoir), for replay against the native build
struct PathSample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<uint32_t> trace; bool threads; };
static std::vector<PathSample> samples; static size_t maxSamples = 0; static uint64_t rngState = 88172645463325252ULL;
static std::vector<std::string> coverNames; static std::map<std::string, uint32_t> coverIds;
[[noreturn]] static void pathDone(State &s) {
  nPaths++;
  if (maxSamples) {
    size_t slot = samples.size();
    if (slot < maxSamples) samples.emplace_back();
    else { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; slot = rngState % nPaths; }
    if (slot < samples.size()) {
      PathSample &p = samples[slot]; p.inputs.clear(); p.trace = s.trace; p.threads = s.th.size() > 1;
      for (auto &in : s.inputs) { std::vector<uint8_t> b; for (E e : in.bytes) b.push_back((uint8_t)evalE(e, *s.model)); p.inputs.push_back({in.name, hex(b)}); }
    }
  }
  throw PathEnd();
}
[[noreturn]] static void violEnd(State &s, const std::string &kind, const std::string &msg) { violation(s, kind, msg, s.model); nPathsErr++; throw PathEnd(); }
[[noreturn]] static void problemEnd(const std::string &msg) { problem(msg + " @ " + (cs ? repoWhere(*cs) : "") + " / " + locOf(curI)); nPathsErr++; throw PathEnd(); }

// ------------------------------------------------------------------ constraints
static void addPC(State &s, E c) { if (!isTrue(c)) s.pc.push_back(c); }
static State *forkState(State &s) { State *o = new State(s); o->id = ++nStates; o->depth++; s.depth++; nForks++; return o; }
// returns true if c can hold; m gets a model
static bool may(State &s, E c, ModelP &m) {
  Res r = solveWith(s.pc, s.model, c, m);
  if (r == Res::Unknown) problem("solver returned unknown / timed out");
  return r == Res::Sat;
}
// Decide condition; forks. Returns truth value followed by the current state.
static bool decide(State &s, E c) {
  if (isC(c)) return c->v;
  bool v = evalE(c, *s.model) != 0;
  E taken = v ? c : mkNot(c), other = v ? mkNot(c) : c;
  ModelP m;
  if (may(s, other, m)) {
    State *o = forkState(s); addPC(*o, other); o->model = m;
    work.push_back(o);
    addPC(s, taken);
    // note: 'o' re-executes the same instruction and will take the other side
  }
  return v;
}
static uint64_t concretize(State &s, const Val &v) {
  if (v.t == Val::C) return v.c;
  E e = v.e;
  uint64_t x = (uint64_t)evalE(e, *s.model);
  E eq = mkEq(e, mkConst(x, e->w));
  ModelP m;
  if (may(s, mkNot(eq), m)) { State *o = forkState(s); addPC(*o, mkNot(eq)); o->model = m; work.push_back(o); addPC(s, eq); }
  return x;
}

// ------------------------------------------------------------------ memory
static inline Region &region(State &s, unsigned r) { return s.mem[r]; }
static Obj *lookup(State &s, uint64_t addr) {
  unsigned r = addr >> REGION_BITS;
  auto it = s.mem.find(r);
  if (it == s.mem.end()) return nullptr;
  uint64_t idx = (addr & ((1ULL << REGION_BITS) - 1)) >> STRIDE_BITS;
  if (idx >= it->second.n) return nullptr;
  auto &c = it->second.ch[idx / 32];
  if (!c) return nullptr;
  return c->o[idx % 32].p;
}
static Ref<Obj> &slotW(State &s, uint64_t addr) {
  Region &R = s.mem[addr >> REGION_BITS];
  uint64_t idx = (addr & ((1ULL << REGION_BITS) - 1)) >> STRIDE_BITS;
  auto &c = R.ch[idx / 32];
  return c.w()->o[idx % 32];
}
static Obj *objW(State &s, uint64_t addr) { return slotW(s, addr).w(); }
static Obj *newObj(State &s, unsigned r, uint64_t size, AK kind, bool uninit) {
  if (size > (1ULL << STRIDE_BITS) - 8192) problemEnd("object too large: " + std::to_string(size));
  Region &R = s.mem[r];
  uint64_t idx = R.n++;
  if (R.ch.size() <= idx / 32) R.ch.resize(idx / 32 + 1);
  auto &c = R.ch[idx / 32];
  if (!c) c = Ref<Chunk>(new Chunk);
  Obj *o = new Obj;
  o->base = ((uint64_t)r << REGION_BITS) + (idx << STRIDE_BITS) + 4096;
  o->size = size; o->kind = kind; o->serial = ++s.heapSerial; o->site = curI;
  o->data.assign(size, 0);
  if (uninit && size) o->sym.assign(size, UNINIT);
  c.w()->o[idx % 32] = Ref<Obj>(o);
  return o;
}
static unsigned stackRegion(unsigned tid) { return 16 + tid; }
static const unsigned R_GLOBAL = 1, R_HEAP = 2;

static std::string addrDesc(State &s, uint64_t a, uint64_t n) {
  Obj *o = lookup(s, a);
  char b[64]; snprintf(b, 64, "0x%llx", (unsigned long long)a);
  if (!o) return std::string("address ") + b + " (" + (a < 4096 ? "null" : "no object") + ")";
  std::string w = o->kind == AK_Stack ? "stack" : o->kind == AK_Global ? "global" : "heap";
  std::string r = w + " object of size " + std::to_string(o->size) + " at offset " + std::to_string((int64_t)(a - o->base)) + " length " + std::to_string(n);
  if (!o->alive) r += " (freed at " + locOf(o->freeSite) + ")";
  return r;
}

// ---- races
static void raceCheck(State &s, Obj *o, uint64_t off, uint64_t n, bool write) {
  if (s.th[s.cur].atomic) return;
  Thread &t = s.th[s.cur];
  if (o->shadow.size() < o->size) o->shadow.resize(o->size);
  auto fmt = [&](const Instruction *other, bool ow) {
    // the report is keyed on the two program locations
    std::vector<std::string> a, b; locChain(curI, a); locChain(other, b);
    auto pick = [](std::vector<std::string> &v) { for (auto &x : v) if (x.find("/repo/") != std::string::npos) return x; return v.empty() ? std::string("?") : v[0]; };
    return std::string("data race: ") + (write ? "write" : "read") + " at " + repoWhere(s) + " vs " + (ow ? "write" : "read") + " at " + pick(b);
  };
  for (uint64_t i = off; i < off + n; i++) {
    ShadowCell &c = o->shadow[i];
    if (c.wt != 255 && c.wt != s.cur && c.wc > t.vc[c.wt]) violEnd(s, "race", fmt(c.wi, true));
    if (write) {
      for (unsigned k = 0; k < s.th.size() && k < 6; k++) if (k != s.cur && c.rc[k] > t.vc[k]) violEnd(s, "race", fmt(c.ri, false));
      c.wt = s.cur; c.wc = t.vc[s.cur]; c.wi = curI;
    } else if (s.cur < 6) { c.rc[s.cur] = t.vc[s.cur]; c.ri = curI; }
  }
}

// An address that is one of a few constants, chosen by conditions: follow one of them (the others are separate paths).
static bool constLeaves(E e, int &left) {
  if (isC(e)) return --left >= 0;
  if (e->k == K_Ite) return constLeaves(e->b, left) && constLeaves(e->c, left);
  if (e->k == K_Add && isC(e->b)) return constLeaves(e->a, left);
  return false;
}
static Val pickLeaf(State &s, Val v) {
  if (v.t != Val::S) return v;
  int left = 4; if (!constLeaves(v.e, left)) return v;
  uint64_t add = 0; E e = v.e;
  while (!isC(e)) { if (e->k == K_Ite) e = decide(s, e->a) ? e->b : e->c; else { add += e->b->v; e = e->a; } }
  return VC(e->v + add, v.w);
}
// Resolve an address for an access of n bytes. Returns object; off set to concrete or symbolic.
static Obj *resolve(State &s, const Val &addr, uint64_t n, bool write, uint64_t &off, E &symoff, bool forceConcrete = false) {
  nMemChecks++;
  symoff = nullptr;
  Val av = pickLeaf(s, addr);
  if (av.t == Val::S && forceConcrete) av = VC(concretize(s, av), 64);
  uint64_t a = av.t == Val::C ? av.c : (uint64_t)evalE(av.e, *s.model);
  Obj *o = lookup(s, a);
  const char *what = write ? "write" : "read";
  if (!o || !o->alive || a < o->base || a + n > o->base + o->size) {
    std::string kind = !o ? (a < 65536 ? "null-deref" : "wild-pointer") : !o->alive ? "use-after-free" : "out-of-bounds";
    violEnd(s, kind, std::string(what) + " of " + addrDesc(s, a, n));
  }
  if (write && o->ro) violEnd(s, "write-to-constant", addrDesc(s, a, n));
  if (av.t == Val::S) {
    E d = mkBin(K_Sub, av.e, mkConst(o->base, 64));
    E inb = mkCmp(K_Ule, d, mkConst(o->size - n, 64));
    ModelP m;
    if (may(s, mkNot(inb), m)) { State *x = forkState(s); addPC(*x, mkNot(inb)); x->model = m; work.push_back(x); addPC(s, inb); }
    if (isC(d)) off = d->v;
    else if (o->size > 2048) { uint64_t c = concretize(s, VE(d)); off = c; }
    else { symoff = d; off = a - o->base; }
  } else off = a - o->base;
  if (s.th.size() > 1 && detectRaces && o->kind != AK_Stack) {
    Obj *w = objW(s, o->base);
    if (symoff) raceCheck(s, w, 0, w->size, write); else raceCheck(s, w, off, n, write);
    o = w;
  }
  if (write) o = objW(s, o->base);
  return o;
}
static E byteAt(State &s, Obj *&o, uint64_t off) {
  if (!o->sym.empty() && o->sym[off]) {
    if (o->sym[off] == UNINIT) {
      o = objW(s, o->base);
      o->sym[off] = mkVar("uninit" + std::to_string(g_vars.size()) + "@" + (o->site && isa<Instruction>(o->site) ? locOf(cast<Instruction>(o->site)) : "?"), 8, true);
    }
    return o->sym[off];
  }
  return mkConst(o->data[off], 8);
}
static Val loadC(State &s, Obj *&o, uint64_t off, unsigned n) {
  if (o->sym.empty() && n <= 8) { uint64_t v = 0; memcpy(&v, &o->data[off], n); return VC(v, n * 8); }
  bool anyS = false;
  if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { anyS = true; break; }
  if (!anyS && n <= 8) { uint64_t v = 0; memcpy(&v, &o->data[off], n); return VC(v, n * 8); }
  E e = byteAt(s, o, off + n - 1);
  for (int i = (int)n - 2; i >= 0; i--) e = mkConcat(e, byteAt(s, o, off + i));
  return VE(e);
}
static unsigned knownZeros(E e) {  // number of low bits known zero
  if (isC(e)) return e->v ? __builtin_ctzll(e->v) : 63;
  if (e->k == K_Concat) { unsigned z = knownZeros(e->b); if (isC(e->b) && e->b->v == 0) return e->b->w + std::min(knownZeros(e->a), 8u); return z; }
  if (e->k == K_ZExt || e->k == K_SExt) return knownZeros(e->a);
  if (e->k == K_Add) return std::min(knownZeros(e->a), knownZeros(e->b));
  if (e->k == K_Ite) return std::min(knownZeros(e->b), knownZeros(e->c));
  if (e->k == K_Mul) return std::min(20u, knownZeros(e->a) + knownZeros(e->b));
  return 0;
}
static Val loadMem(State &s, const Val &addr, unsigned n) {
  uint64_t off; E so;
  Obj *o = resolve(s, addr, n, false, off, so);
  if (!so) return loadC(s, o, off, n);
  unsigned st = 1u << std::min(6u, knownZeros(so));
  E r = nullptr;
  for (uint64_t k = 0; k + n <= o->size; k += st) {
    E v = toE(loadC(s, o, k, n));
    r = r ? mkIte(mkEq(so, mkConst(k, 64)), v, r) : v;
  }
  return VE(r);
}
static void putByte(Obj *o, uint64_t off, E b) {
  if (isC(b)) { o->data[off] = (uint8_t)b->v; if (!o->sym.empty()) o->sym[off] = nullptr; }
  else { if (o->sym.empty()) o->sym.assign(o->size, nullptr); o->sym[off] = b; }
}
static void storeC(Obj *o, uint64_t off, const Val &v, unsigned n) {
  if (v.t == Val::C) {
    uint64_t c = v.c; memcpy(&o->data[off], &c, n);
    if (!o->sym.empty()) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
    return;
  }
  for (unsigned i = 0; i < n; i++) putByte(o, off + i, mkExtract(v.e, i * 8, 8));
}
static void storeMem(State &s, const Val &addr, const Val &val, unsigned n) {
  uint64_t off; E so;
  Obj *o = resolve(s, addr, n, true, off, so);
  Val v = val;
  if (v.w < n * 8) v = VE(mkZExt(toE(v), n * 8));
  if (!so) { storeC(o, off, v, n); return; }
  unsigned st = 1u << std::min(6u, knownZeros(so));
  std::vector<E> nb(o->size, nullptr);
  for (uint64_t k = 0; k + n <= o->size; k += st) {
    E c = mkEq(so, mkConst(k, 64));
    for (unsigned i = 0; i < n; i++) {
      E old = nb[k + i] ? nb[k + i] : byteAt(s, o, k + i);
      nb[k + i] = mkIte(c, mkExtract(toE(v), i * 8, 8), old);
    }
  }
  o = objW(s, o->base);
  for (uint64_t k = 0; k < o->size; k++) if (nb[k]) putByte(o, k, nb[k]);
}
// raw byte vectors (sentinel-preserving)
struct Bytes { std::vector<uint8_t> d; std::vector<E> s; };
static Bytes readRaw(State &s, const Val &addr, uint64_t n) {
  Bytes b; if (!n) return b;
  uint64_t off; E so; Obj *o = resolve(s, addr, n, false, off, so, true);
  b.d.assign(o->data.begin() + off, o->data.begin() + off + n);
  if (!o->sym.empty()) b.s.assign(o->sym.begin() + off, o->sym.begin() + off + n);
  return b;
}
static void writeRaw(State &s, const Val &addr, const Bytes &b) {
  uint64_t n = b.d.size(); if (!n) return;
  uint64_t off; E so; Obj *o = resolve(s, addr, n, true, off, so, true);
  memcpy(&o->data[off], b.d.data(), n);
  bool any = false; for (E e : b.s) if (e) { any = true; break; }
  if (any) { if (o->sym.empty()) o->sym.assign(o->size, nullptr); for (uint64_t i = 0; i < n; i++) o->sym[off + i] = b.s[i]; }
  else if (!o->sym.empty()) for (uint64_t i = 0; i < n; i++) o->sym[off + i] = nullptr;
}
static std::vector<E> readBytes(State &s, const Val &addr, uint64_t n) {
  std::vector<E> r; if (!n) return r;
  uint64_t off; E so; Obj *o = resolve(s, addr, n, false, off, so, true);
  for (uint64_t i = 0; i < n; i++) r.push_back(byteAt(s, o, off + i));
  return r;
}
static std::string readCStr(State &s, uint64_t a) {
  std::string r; if (!a) return r;
  for (;; a++) {
    Obj *o = lookup(s, a);
    if (!o || !o->alive || a < o->base || a >= o->base + o->size) break;
    if (!o->sym.empty() && o->sym[a - o->base]) { r += '?'; continue; }
    char c = o->data[a - o->base]; if (!c) break; r += c;
    if (r.size() > 4000) break;
  }
  return r;
}
static uint64_t heapAlloc(State &s, uint64_t n, AK kind) {
  Obj *o = newObj(s, R_HEAP, n, kind, true);
  o->stack = "";
  std::string st; 
  o->stack = stackOf(s, s.cur, 6);
  return o->base;
}
static void heapFree(State &s, const Val &pv, AK kind) {
  uint64_t p = concretize(s, pv);
  if (!p) return;
  Obj *o = lookup(s, p);
  if (!o || (o->kind != AK_Malloc && o->kind != AK_New && o->kind != AK_NewArr)) violEnd(s, "bad-free", "free of non-heap " + addrDesc(s, p, 0));
  if (!o->alive) violEnd(s, "double-free", addrDesc(s, p, 0));
  if (o->base != p) violEnd(s, "bad-free", "free of interior pointer: " + addrDesc(s, p, 0));
  if (o->kind != kind) violEnd(s, "alloc-dealloc-mismatch", std::string("allocated with ") + (o->kind == AK_Malloc ? "malloc" : o->kind == AK_New ? "new" : "new[]") + ", freed with " + (kind == AK_Malloc ? "free" : kind == AK_New ? "delete" : "delete[]"));
  o = objW(s, p);
  if (s.th.size() > 1 && detectRaces) raceCheck(s, o, 0, o->size, true);
  o->alive = false; o->freeSite = curI; o->data.clear(); o->data.shrink_to_fit(); o->sym.clear(); o->sym.shrink_to_fit(); o->shadow.clear();
}

// ------------------------------------------------------------------ constants
static Val constVal(const Constant *c);
static uint64_t addrOfGlobal(const GlobalValue *g) {
  if (auto *f = dyn_cast<Function>(g)) return fnAddr(fnIdx.at(f));
  if (auto *v = dyn_cast<GlobalVariable>(g)) return gaddr.at(v);
  if (auto *a = dyn_cast<GlobalAlias>(g)) { Val r = constVal(a->getAliasee()); return r.c; }
  problemEnd("address of unknown global " + g->getName().str());
}
static unsigned bitsOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static Val zeroOf(Type *t) {
  if (unsigned b = bitsOf(t)) return b <= 64 ? VC(0, b) : VE(mkConst(0, b));
  Agg *a = new Agg;
  if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) a->push_back(zeroOf(e));
  else if (auto *at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); i++) a->push_back(zeroOf(at->getElementType()));
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) for (uint64_t i = 0; i < vt->getNumElements(); i++) a->push_back(zeroOf(vt->getElementType()));
  return VA(a);
}
static Val apVal(const APInt &x) {
  unsigned w = x.getBitWidth();
  if (w <= 64) return VC(x.getZExtValue(), w);
  E e = mkConst(x.extractBitsAsZExtValue(std::min(64u, w), 0), 64); unsigned p = 64;
  while (p < w) { unsigned n = std::min(64u, w - p); e = mkConcat(mkConst(x.extractBitsAsZExtValue(n, p), n), e); p += n; }
  return VE(e);
}
static Val icmpVal(CmpInst::Predicate p, const Val &a, const Val &b);
static Val binVal(unsigned op, const Val &a, const Val &b);
static Val castVal(unsigned op, const Val &a, Type *to);
static Val constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return apVal(i->getValue());
  if (auto *f = dyn_cast<ConstantFP>(c); f && f->getType()->isX86_FP80Ty()) {
    APFloat d = f->getValueAPF(); bool lost; d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost); return apVal(d.bitcastToAPInt().zext(80)); }
  if (auto *f = dyn_cast<ConstantFP>(c)) return apVal(f->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return VC(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
  if (auto *g = dyn_cast<GlobalValue>(c)) return VC(addrOfGlobal(g), 64);
  if (auto *a = dyn_cast<ConstantAggregate>(c)) { Agg *r = new Agg; for (auto &o : a->operands()) r->push_back(constVal(cast<Constant>(o))); return VA(r); }
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { Agg *r = new Agg; for (unsigned i = 0; i < d->getNumElements(); i++) r->push_back(constVal(d->getElementAsConstant(i))); return VA(r); }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) problemEnd("constant gep");
      Val b = constVal(cast<Constant>(gep->getPointerOperand()));
      return VC(b.c + off.getSExtValue(), 64);
    }
    if (ce->isCast()) return castVal(ce->getOpcode(), constVal(ce->getOperand(0)), ce->getType());
    if (ce->getOpcode() == Instruction::ICmp) return icmpVal((CmpInst::Predicate)ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
    if (Instruction::isBinaryOp(ce->getOpcode())) return binVal(ce->getOpcode(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
  }
  std::string s; raw_string_ostream os(s); c->print(os);
  problemEnd("unsupported constant " + s);
}
static void initMem(State &s, uint64_t addr, const Constant *c) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  Type *t = c->getType();
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(s, addr + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) initMem(s, addr + i * es, c->getAggregateElement(i)); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) initMem(s, addr + i * es, c->getAggregateElement(i)); return; }
  Val v = constVal(c);
  Obj *o = objW(s, addr);
  unsigned n = DL->getTypeStoreSize(t);
  if (v.w < n * 8) v = VE(mkZExt(toE(v), n * 8));
  storeC(o, addr - o->base, v, n);
}

// ------------------------------------------------------------------ operations
static Val icmpVal(CmpInst::Predicate p, const Val &a, const Val &b) {
  if (a.t == Val::C && b.t == Val::C) {
    uint64_t x = a.c, y = b.c; int64_t sx = sextv(x, a.w), sy = sextv(y, b.w); bool r;
    switch (p) {
    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
    case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
    default: problemEnd("icmp");
    }
    return VC(r, 1);
  }
  E x = toE(a), y = toE(b);
  switch (p) {
  case CmpInst::ICMP_EQ: return VE(mkEq(x, y)); case CmpInst::ICMP_NE: return VE(mkNe(x, y));
  case CmpInst::ICMP_UGT: return VE(mkCmp(K_Ult, y, x)); case CmpInst::ICMP_UGE: return VE(mkCmp(K_Ule, y, x));
  case CmpInst::ICMP_ULT: return VE(mkCmp(K_Ult, x, y)); case CmpInst::ICMP_ULE: return VE(mkCmp(K_Ule, x, y));
  case CmpInst::ICMP_SGT: return VE(mkCmp(K_Slt, y, x)); case CmpInst::ICMP_SGE: return VE(mkCmp(K_Sle, y, x));
  case CmpInst::ICMP_SLT: return VE(mkCmp(K_Slt, x, y)); case CmpInst::ICMP_SLE: return VE(mkCmp(K_Sle, x, y));
  default: problemEnd("icmp");
  }
}
static Val fcmpVal(CmpInst::Predicate p, const Val &a, const Val &b) {
  E x = toE(a), y = toE(b);
  if (a.w > 64) { x = mkExtract(x, 0, 64); y = mkExtract(y, 0, 64); }
  auto olt = [&](E u, E v) { return mkFP(K_FOlt, 1, u, v); };
  auto ole = [&](E u, E v) { return mkFP(K_FOle, 1, u, v); };
  E oeq = mkFP(K_FOeq, 1, x, y), uno = mkFP(K_FUno, 1, x, y);
  switch (p) {
  case CmpInst::FCMP_FALSE: return VC(0, 1); case CmpInst::FCMP_TRUE: return VC(1, 1);
  case CmpInst::FCMP_OEQ: return VE(oeq); case CmpInst::FCMP_UNE: return VE(mkNot(oeq));
  case CmpInst::FCMP_ONE: return VE(mkOr(olt(x, y), olt(y, x)));
  case CmpInst::FCMP_UEQ: return VE(mkOr(oeq, uno));
  case CmpInst::FCMP_OLT: return VE(olt(x, y)); case CmpInst::FCMP_OGT: return VE(olt(y, x));
  case CmpInst::FCMP_OLE: return VE(ole(x, y)); case CmpInst::FCMP_OGE: return VE(ole(y, x));
  case CmpInst::FCMP_ULT: return VE(mkNot(ole(y, x))); case CmpInst::FCMP_UGT: return VE(mkNot(ole(x, y)));
  case CmpInst::FCMP_ULE: return VE(mkNot(olt(y, x))); case CmpInst::FCMP_UGE: return VE(mkNot(olt(x, y)));
  case CmpInst::FCMP_ORD: return VE(mkNot(uno)); case CmpInst::FCMP_UNO: return VE(uno);
  default: problemEnd("fcmp");
  }
}
static Kind kindOf(unsigned op) {
  switch (op) {
  case Instruction::Add: return K_Add; case Instruction::Sub: return K_Sub; case Instruction::Mul: return K_Mul;
  case Instruction::UDiv: return K_UDiv; case Instruction::SDiv: return K_SDiv; case Instruction::URem: return K_URem; case Instruction::SRem: return K_SRem;
  case Instruction::And: return K_And; case Instruction::Or: return K_Or; case Instruction::Xor: return K_Xor;
  case Instruction::Shl: return K_Shl; case Instruction::LShr: return K_LShr; case Instruction::AShr: return K_AShr;
  }
  problemEnd("binary opcode");
}
static Val binVal(unsigned op, const Val &a, const Val &b) {
  if (a.t == Val::A) { Agg *r = new Agg; for (size_t i = 0; i < a.a->size(); i++) r->push_back(binVal(op, (*a.a)[i], (*b.a)[i])); return VA(r); }
  if (op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul || op == Instruction::FDiv) {
    if (a.w > 64) return VE(mkZExt(toE(binVal(op, VE(mkExtract(toE(a), 0, 64)), VE(mkExtract(toE(b), 0, 64)))), a.w));   // long double is computed in double precision
    Kind k = op == Instruction::FAdd ? K_FAdd : op == Instruction::FSub ? K_FSub : op == Instruction::FMul ? K_FMul : K_FDiv;
    return VE(mkFP(k, a.w, toE(a), toE(b)));
  }
  if (op == Instruction::FRem) {
    if (a.t == Val::C && b.t == Val::C && a.w == 64) { double x, y; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8); x = fmod(x, y); uint64_t r; memcpy(&r, &x, 8); return VC(r, 64); }
    problemEnd("frem");
  }
  if (a.t == Val::C && b.t == Val::C) {
    unsigned w = a.w;
    switch (op) {
    case Instruction::Add: return VC(a.c + b.c, w); case Instruction::Sub: return VC(a.c - b.c, w); case Instruction::Mul: return VC(a.c * b.c, w);
    case Instruction::And: return VC(a.c & b.c, w); case Instruction::Or: return VC(a.c | b.c, w); case Instruction::Xor: return VC(a.c ^ b.c, w);
    default: break;
    }
  }
  return VE(mkBin(kindOf(op), toE(a), toE(b)));
}
static Val castVal(unsigned op, const Val &a, Type *to) {
  if (a.t == Val::A) {
    if (op == Instruction::BitCast) problemEnd("vector bitcast");
    Agg *r = new Agg; Type *et = cast<FixedVectorType>(to)->getElementType(); for (auto &x : *a.a) r->push_back(castVal(op, x, et)); return VA(r);
  }
  unsigned w = bitsOf(to);
  if (!w) problemEnd("cast to unsupported type");
  switch (op) {
  case Instruction::Trunc: if (a.t == Val::C) return VC(a.c, w); return VE(mkExtract(toE(a), 0, w));
  case Instruction::ZExt: if (a.t == Val::C && w <= 64) return VC(a.c, w); return VE(mkZExt(toE(a), w));
  case Instruction::SExt: return VE(mkSExt(toE(a), w));
  case Instruction::PtrToInt: case Instruction::IntToPtr:
    if (a.w == w) return a; if (a.w > w) return VE(mkExtract(toE(a), 0, w)); return VE(mkZExt(toE(a), w));
  case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
  default: break;
  }
  if (a.w > 64 && op != Instruction::SIToFP && op != Instruction::UIToFP) { Val d = VE(mkExtract(toE(a), 0, 64)); return op == Instruction::FPTrunc && w == 64 ? d : VE(toE(castVal(op, d, to))); }
  if (w > 64 && (op == Instruction::FPExt || op == Instruction::SIToFP || op == Instruction::UIToFP)) {
    Type *dt = Type::getDoubleTy(to->getContext());
    Val d = op == Instruction::FPExt && a.w == 64 ? a : castVal(op, a, dt); return VE(mkZExt(toE(d), w)); }
  if (w > 64 || a.w > 64) problemEnd("wide conversion");
  switch (op) {
  case Instruction::FPExt: return VE(mkFP(K_FExt, w, toE(a)));
  case Instruction::FPTrunc: return VE(mkFP(K_FTrunc, w, toE(a)));
  case Instruction::SIToFP: return VE(mkFP(K_SIToFP, w, toE(a)));
  case Instruction::UIToFP: return VE(mkFP(K_UIToFP, w, toE(a)));
  case Instruction::FPToSI: return VE(mkFP(K_FPToSI, w, toE(a)));
  case Instruction::FPToUI: return VE(mkFP(K_FPToUI, w, toE(a)));
  }
  problemEnd("cast opcode");
}
static Val loadTy(State &s, const Val &addr, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); Agg *r = new Agg; for (unsigned i = 0; i < st->getNumElements(); i++) r->push_back(loadTy(s, binVal(Instruction::Add, addr, VC(sl->getElementOffset(i), 64)), st->getElementType(i))); return VA(r); }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); Agg *r = new Agg; for (uint64_t i = 0; i < at->getNumElements(); i++) r->push_back(loadTy(s, binVal(Instruction::Add, addr, VC(i * es, 64)), at->getElementType())); return VA(r); }
  if (auto *at = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); Agg *r = new Agg; for (uint64_t i = 0; i < at->getNumElements(); i++) r->push_back(loadTy(s, binVal(Instruction::Add, addr, VC(i * es, 64)), at->getElementType())); return VA(r); }
  unsigned w = bitsOf(t); if (!w) problemEnd("load of unsupported type");
  unsigned n = DL->getTypeStoreSize(t);
  Val v = loadMem(s, addr, n);
  if (v.w != w) v = v.t == Val::C ? VC(v.c, w) : VE(mkExtract(toE(v), 0, w));
  return v;
}
static void storeTy(State &s, const Val &addr, const Val &v, Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, binVal(Instruction::Add, addr, VC(sl->getElementOffset(i), 64)), (*v.a)[i], st->getElementType(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) storeTy(s, binVal(Instruction::Add, addr, VC(i * es, 64)), (*v.a)[i], at->getElementType()); return; }
  if (auto *at = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) storeTy(s, binVal(Instruction::Add, addr, VC(i * es, 64)), (*v.a)[i], at->getElementType()); return; }
  storeMem(s, addr, v, DL->getTypeStoreSize(t));
}

// ------------------------------------------------------------------ compile functions
static void compileFn(CFn *f) {
  if (f->compiled) return;
  f->compiled = true;
  std::map<const Value *, int> reg; int n = 0;
  for (auto &a : f->F->args()) reg[&a] = n++;
  for (auto &bb : *f->F) for (auto &i : bb) if (!i.getType()->isVoidTy()) reg[&i] = n++;
  f->nregs = n;
  if (auto *sp = f->F->getSubprogram()) { f->file = (sp->getFilename().starts_with("/") ? std::string() : sp->getDirectory().str() + "/") + sp->getFilename().str(); f->fromRepo = f->file.find("/repo/") != std::string::npos || f->file.find("/hxhim-src/") != std::string::npos; }
  int bi = 0;
  for (auto &bb : *f->F) f->bidx[&bb] = bi++;
  auto opn = [&](const Value *v) -> Opnd {
    Opnd o; o.reg = -1;
    auto it = reg.find(v);
    if (it != reg.end()) o.reg = it->second;
    else if (auto *c = dyn_cast<Constant>(v)) o.c = constVal(c);
    else if (auto *b = dyn_cast<BasicBlock>(v)) { o.c = VC(f->bidx[b], 64); }
    else if (isa<MetadataAsValue>(v)) o.c = VC(0, 64);
    else if (isa<InlineAsm>(v)) o.c = VC(0, 64);
    else problemEnd("operand kind");
    return o;
  };
  for (auto &bb : *f->F) {
    CBlock cb; cb.bb = &bb;
    for (auto &i : bb) {
      if (isa<DbgInfoIntrinsic>(i)) continue;
      CInst ci; ci.I = &i; ci.op = i.getOpcode(); ci.dest = i.getType()->isVoidTy() ? -1 : reg[&i]; ci.w = bitsOf(i.getType());
      if (auto *phi = dyn_cast<PHINode>(&i)) {
        for (unsigned k = 0; k < phi->getNumIncomingValues(); k++) { ci.ops.push_back(opn(phi->getIncomingValue(k))); Opnd b; b.reg = -1; b.c = VC(f->bidx[phi->getIncomingBlock(k)], 64); ci.ops.push_back(b); }
        cb.firstNonPhi = cb.insts.size() + 1;
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
        if (!g->getType()->isPointerTy()) { /* vector gep */ }
        ci.ops.push_back(opn(g->getPointerOperand()));
        for (auto ti = gep_type_begin(g); ti != gep_type_end(g); ++ti) {
          Value *idx = ti.getOperand();
          if (StructType *st = ti.getStructTypeOrNull()) ci.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
          else {
            uint64_t es = DL->getTypeAllocSize(ti.getIndexedType());
            if (auto *c = dyn_cast<ConstantInt>(idx)) ci.gepOff += es * (uint64_t)c->getSExtValue();
            else ci.gepIdx.push_back({opn(idx), es});
          }
        }
      } else if (auto *call = dyn_cast<CallBase>(&i)) {
        for (auto &a : call->args()) ci.ops.push_back(opn(a));
        Value *cv = call->getCalledOperand()->stripPointerCasts();
        if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        if (auto *cf = dyn_cast<Function>(cv)) ci.callee = fnIdx.at(cf);
        else ci.ops.push_back(opn(call->getCalledOperand()));
      } else for (auto &o : i.operands()) ci.ops.push_back(opn(o));
      cb.insts.push_back(std::move(ci));
    }
    f->blocks.push_back(std::move(cb));
  }
}

// ------------------------------------------------------------------ calls and frames
static inline Frame &fr(State &s) { return s.th[s.cur].frames.back(); }
static inline Val opv(State &s, const Opnd &o) { return o.reg >= 0 ? fr(s).regs[o.reg] : o.c; }
static void setDest(State &s, const CInst &ci, const Val &v) { if (ci.dest >= 0) fr(s).regs[ci.dest] = v; }
static void gotoBB(State &s, int bb) {
  Frame &f = fr(s);
  int from = f.bb; f.prevbb = from; f.bb = bb;
  CBlock &b = f.fn->blocks[bb];
  if (b.firstNonPhi) {
    std::vector<std::pair<int, Val>> tmp;
    for (unsigned i = 0; i < b.insts.size() && b.insts[i].op == Instruction::PHI; i++) {
      CInst &ci = b.insts[i]; bool ok = false;
      for (size_t k = 0; k + 1 < ci.ops.size(); k += 2) if ((int)ci.ops[k + 1].c.c == from) { tmp.push_back({ci.dest, opv(s, ci.ops[k])}); ok = true; break; }
      if (!ok) problemEnd("phi without incoming edge");
    }
    for (auto &p : tmp) f.regs[p.first] = p.second;
  }
  f.pc = b.firstNonPhi;
}
static void pushFrame(State &s, unsigned tid, CFn *f, const std::vector<Val> &args) {
  compileFn(f); f->execCount++;
  if (s.th[tid].frames.size() > 3000) violEnd(s, "stack-overflow", "recursion deeper than 3000 frames in " + f->name);
  Frame nf; nf.fn = f; nf.regs.resize(f->nregs);
  size_t na = f->F->arg_size();
  unsigned i = 0;
  for (; i < na && i < args.size(); i++) nf.regs[i] = args[i];
  if (f->F->isVarArg() && args.size() > na) nf.va.assign(args.begin() + na, args.end());
  nf.stackMark = s.mem[stackRegion(tid)].n;
  s.th[tid].frames.push_back(std::move(nf));
  // byval arguments: copy
  unsigned k = 0;
  for (auto &a : f->F->args()) {
    if (a.hasByValAttr() && k < args.size()) {
      uint64_t n = DL->getTypeAllocSize(a.getParamByValType());
      Bytes b = readRaw(s, args[k], n);
      unsigned c = s.cur; 
      Obj *o = newObj(s, stackRegion(tid), n, AK_Stack, true);
      Val p = VC(o->base, 64); writeRaw(s, p, b);
      s.th[tid].frames.back().regs[k] = p; (void)c;
    }
    k++;
  }
}
static void popFrame(State &s) {
  Thread &t = s.th[s.cur];
  Region &R = s.mem[stackRegion(s.cur)];
  uint64_t mark = t.frames.back().stackMark;
  for (uint64_t i = mark; i < R.n; i++) R.ch[i / 32].w()->o[i % 32] = Ref<Obj>();
  R.n = mark;
  t.frames.pop_back();
}
static void finishCall(State &s, const CInst &ci, const Val &v) {   // normal completion of an external call
  setDest(s, ci, v);
  if (ci.op == Instruction::Invoke) gotoBB(s, fr(s).fn->bidx[cast<InvokeInst>(ci.I)->getNormalDest()]);
  else fr(s).pc++;
}

// ------------------------------------------------------------------ threads
static std::string threadStates(State &s) {
  std::string r;
  for (unsigned i = 0; i < s.th.size(); i++) { Thread &t = s.th[i]; r += "T" + std::to_string(i) + (t.st == Thread::Run ? " running" : t.st == Thread::BlockMutex ? " waiting for mutex" : t.st == Thread::BlockCond ? " waiting on condition variable" : t.st == Thread::BlockJoin ? " joining" : " done") + "; "; if (t.st != Thread::Done && t.st != Thread::Run) r += "[" + stackOf(s, i, 3) + "] "; }
  return r;
}
static bool enabled(State &s, unsigned i) {
  Thread &t = s.th[i];
  switch (t.st) {
  case Thread::Run: return true;
  case Thread::BlockMutex: return s.mtx[t.waitAddr].owner < 0;
  case Thread::BlockJoin: return s.th[t.joinTid].st == Thread::Done;
  case Thread::BlockPoll: return s.progress != t.pollSeen;
  default: return false;
  }
}
static void wake(State &s, unsigned i) {  // thread i is chosen to run and was blocked
  Thread &t = s.th[i];
  if (t.st == Thread::BlockMutex || t.st == Thread::BlockJoin || t.st == Thread::BlockPoll) t.st = Thread::Run;  // re-executes the blocking call
}
// choose the next thread when the current one cannot continue
static void reschedule(State &s) {
  std::vector<unsigned> en;
  for (unsigned i = 0; i < s.th.size(); i++) if (enabled(s, i)) en.push_back(i);
  if (en.empty()) {
    bool all = true; for (auto &t : s.th) if (t.st != Thread::Done) all = false;
    if (all) pathDone(s);
    violEnd(s, "deadlock", "no thread can run: " + threadStates(s));
  }
  if (delayBound) {   // round robin; any other choice counts as a preemption
    std::stable_partition(en.begin(), en.end(), [&](unsigned i) { return i > s.cur; });
    if (s.preempts >= maxPreempt) en.resize(1);
  }
  for (size_t k = 1; k < en.size(); k++) { State *o = forkState(s); if (delayBound) o->preempts++; o->cur = en[k]; wake(*o, en[k]); o->th[en[k]].granted = true; o->sched.push_back(en[k]); work.push_back(o); }
  s.cur = en[0]; wake(s, en[0]); s.th[en[0]].granted = true; if (s.th.size() > 1) s.sched.push_back(en[0]);
}
// scheduling point before a synchronisation operation of the current thread
static void schedPoint(State &s) {
  Thread &t = s.th[s.cur];
  if (t.atomic) return;
  if (t.granted) { t.granted = false; return; }
  if (s.th.size() < 2) return;
  if (getenv("SX_SCHED")) fprintf(stderr, "SCHED id%llu T%u pre%u at %s\n", (unsigned long long)s.id, s.cur, s.preempts, repoWhere(s).c_str());
  if (s.preempts >= maxPreempt) return;
  for (unsigned i = 0; i < s.th.size(); i++) if (i != s.cur && enabled(s, i)) {
    State *o = forkState(s); o->preempts++; o->cur = i; wake(*o, i); o->th[i].granted = true; o->sched.push_back(i); work.push_back(o);
  }
  s.sched.push_back(s.cur);
}
static void vcJoin(VClock &a, const VClock &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vcTick(State &s) { Thread &t = s.th[s.cur]; if (t.vc.size() < s.th.size()) t.vc.resize(s.th.size(), 0); t.vc[s.cur]++; }
static void fixVC(State &s) { for (auto &t : s.th) t.vc.resize(s.th.size(), 0); }
static void mutexLock(State &s, uint64_t m, bool recursive) {
  MutexSt &x = s.mtx[m];
  Thread &t = s.th[s.cur];
  if (x.owner == (int)s.cur) {
    if (recursive) { x.count++; return; }
    violEnd(s, "deadlock", "thread locks a mutex it already holds");
  }
  if (x.owner >= 0) { t.st = Thread::BlockMutex; t.waitAddr = m; reschedule(s); throw Retry(); }
  x.owner = s.cur; x.count = 1; vcJoin(t.vc, x.vc);
}
static void mutexUnlock(State &s, uint64_t m) {
  MutexSt &x = s.mtx[m];
  if (x.owner != (int)s.cur) violEnd(s, "mutex", "unlock of a mutex not held by this thread");
  if (--x.count == 0) { x.owner = -1; x.vc = s.th[s.cur].vc; vcTick(s); }
}

// ------------------------------------------------------------------ exceptions
static std::map<uint64_t, int> typeIds;
static int typeId(uint64_t t) { auto it = typeIds.find(t); if (it != typeIds.end()) return it->second; int n = typeIds.size() + 1; typeIds[t] = n; return n; }
static std::string globalNameAt(uint64_t a) { for (auto &p : gaddr) if (p.second == a) return p.first->getName().str(); return "?"; }
static const std::map<std::string, std::string> stdBases = {
  {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
static bool excMatches(State &s, uint64_t thrown, uint64_t want) {
  if (!want || thrown == want) return true;
  std::string n = globalNameAt(thrown), w = globalNameAt(want);
  for (int guard = 0; guard < 20; guard++) {
    if (n == w) return true;
    auto it = stdBases.find(n);
    if (it != stdBases.end()) { n = it->second; continue; }
    // user type with single inheritance: third word of the type info is the base
    const GlobalVariable *g = M->getGlobalVariable(n, true);
    if (!g || !g->hasInitializer() || !isa<ConstantStruct>(g->getInitializer())) return false;
    auto *cst = cast<ConstantStruct>(g->getInitializer());
    if (cst->getNumOperands() != 3) return false;
    auto *b = dyn_cast<GlobalValue>(cst->getOperand(2)->stripPointerCasts());
    if (!b) return false;
    n = b->getName().str();
  }
  return false;
}
static void unwind(State &s, const char *what) {
  Thread &t = s.th[s.cur];
  // phase 1: is there a handler?
  bool handler = false;
  for (int i = (int)t.frames.size() - 1; i >= 0 && !handler; i--) {
    Frame &f = t.frames[i];
    const Instruction *I = f.fn->blocks[f.bb].insts[f.pc].I;
    if (auto *inv = dyn_cast<InvokeInst>(I)) {
      auto *lp = inv->getLandingPadInst();
      for (unsigned k = 0; k < lp->getNumClauses(); k++) if (lp->isCatch(k) && excMatches(s, t.excType, constVal(lp->getClause(k)).c)) handler = true;
    }
  }
  if (!handler) violEnd(s, "uncaught-exception", std::string("uncaught exception of type ") + globalNameAt(t.excType));
  while (!t.frames.empty()) {
    Frame &f = t.frames.back();
    CInst &ci = f.fn->blocks[f.bb].insts[f.pc];
    if (auto *inv = dyn_cast<InvokeInst>(ci.I)) {
      auto *lp = inv->getLandingPadInst();
      int sel = 0; bool enter = lp->isCleanup();
      for (unsigned k = 0; k < lp->getNumClauses(); k++) {
        if (lp->isCatch(k)) { uint64_t w = constVal(lp->getClause(k)).c; if (excMatches(s, t.excType, w)) { sel = w ? typeId(w) : typeId(0); enter = true; break; } }
        else enter = true;   // filter: treated as a cleanup
      }
      if (enter) {
        gotoBB(s, f.fn->bidx[inv->getUnwindDest()]);
        Frame &g = fr(s);
        CInst &l = g.fn->blocks[g.bb].insts[g.pc];
        Agg *a = new Agg{VC(t.excPtr, 64), VC(sel, 32)};
        setDest(s, l, VA(a)); g.pc++;
        return;
      }
    }
    popFrame(s);
  }
  violEnd(s, "uncaught-exception", "exception left the outermost frame");
}

// ------------------------------------------------------------------ external functions
typedef std::function<bool(State &, const CInst &, std::vector<Val> &, Val &)> Handler;  // return false if control was already transferred
static std::unordered_map<std::string, Handler> ext;

static double dbl(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t bitsd(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }

static E memcmpE(const std::vector<E> &a, const std::vector<E> &b) {
  E r = mkConst(0, 32);
  for (int i = (int)a.size() - 1; i >= 0; i--) r = mkIte(mkEq(a[i], b[i]), r, mkIte(mkCmp(K_Ult, a[i], b[i]), mkConst(0xffffffff, 32), mkConst(1, 32)));
  return r;
}
static void uninitCheck(State &s, E c, const char *what) {
  if (!checkUninit || !hasUninit(c)) return;
  nUninitChecks++;
  ModelP m1, m2;
  // can the condition take both values under one assignment of the real inputs?
  bool v = evalE(c, *s.model) != 0;
  E other = v ? mkNot(c) : c;
  // keep real inputs fixed at the current model, vary only the uninitialised bytes
  E fix = mkConst(1, 1);
  std::set<uint32_t> vars(varsOf(c).begin(), varsOf(c).end());
  for (uint32_t i : vars) if (!g_vars[i].uninit) {
    // find var expr
    static std::map<uint32_t, E> vexp; (void)vexp;
  }
  (void)fix; (void)other; (void)m1; (void)m2;
  ModelP m; if (may(s, other, m)) {
    // conservative confirmation: both outcomes feasible and the set of real inputs does not decide it
    bool onlyUninit = true; for (uint32_t i : vars) if (!g_vars[i].uninit) onlyUninit = false;
    if (onlyUninit) violEnd(s, "uninitialised", std::string("decision depends on uninitialised memory (") + what + "): " + toStr(c, 5));
  }
}

static uint64_t argC(State &s, std::vector<Val> &a, unsigned i) { uint64_t v = concretize(s, a[i]); a[i] = VC(v, a[i].w); return v; }

static bool doAtomicYield(State &s) { if (s.th.size() > 1) schedPoint(s); return true; }

static void registerExt() {
  auto A = [&](const char *n, AK k) { ext[n] = [k](State &s, const CInst &, std::vector<Val> &a, Val &r) { uint64_t n = argC(s, a, 0); r = VC(heapAlloc(s, n, k), 64); return true; }; };
  A("malloc", AK_Malloc); A("_Znwm", AK_New); A("_Znam", AK_NewArr); A("_ZnwmRKSt9nothrow_t", AK_New); A("_ZnamRKSt9nothrow_t", AK_NewArr);
  A("_ZnwmSt11align_val_t", AK_New); A("_ZnamSt11align_val_t", AK_NewArr);
  auto F = [&](const char *n, AK k) { ext[n] = [k](State &s, const CInst &, std::vector<Val> &a, Val &) { heapFree(s, a[0], k); return true; }; };
  F("free", AK_Malloc); F("_ZdlPv", AK_New); F("_ZdlPvm", AK_New); F("_ZdaPv", AK_NewArr); F("_ZdaPvm", AK_NewArr); F("_ZdlPvSt11align_val_t", AK_New); F("_ZdlPvmSt11align_val_t", AK_New); F("_ZdaPvSt11align_val_t", AK_NewArr);
  ext["calloc"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { uint64_t x = argC(s, a, 0), y = argC(s, a, 1); uint64_t p = heapAlloc(s, x * y, AK_Malloc); objW(s, p)->sym.clear(); r = VC(p, 64); return true; };
  ext["realloc"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) {
    uint64_t p = argC(s, a, 0), n = argC(s, a, 1);
    if (!p) { r = VC(heapAlloc(s, n, AK_Malloc), 64); return true; }
    Obj *o = lookup(s, p); if (!o || !o->alive || o->base != p) violEnd(s, "bad-free", "realloc " + addrDesc(s, p, 0));
    uint64_t c = std::min(n, o->size); Bytes b = readRaw(s, VC(p, 64), c);
    uint64_t q = heapAlloc(s, n, AK_Malloc); writeRaw(s, VC(q, 64), b); heapFree(s, VC(p, 64), AK_Malloc); r = VC(q, 64); return true; };
  auto cpy = [](State &s, const CInst &, std::vector<Val> &a, Val &r) {
    uint64_t n = argC(s, a, 2); r = a[0]; if (!n) return true;
    uint64_t d = argC(s, a, 0), sc = argC(s, a, 1);
    if (d == sc && lookup(s, d)) { }
    Bytes b = readRaw(s, VC(sc, 64), n); writeRaw(s, VC(d, 64), b); return true; };
  ext["memmove"] = cpy;
  ext["memcpy"] = [cpy](State &s, const CInst &ci, std::vector<Val> &a, Val &r) {
    uint64_t n = argC(s, a, 2); if (n) { uint64_t d = argC(s, a, 0), sc = argC(s, a, 1); if (d != sc && d < sc + n && sc < d + n) violEnd(s, "memcpy-overlap", "memcpy with overlapping ranges"); }
    return cpy(s, ci, a, r); };
  ext["mempcpy"] = [cpy](State &s, const CInst &ci, std::vector<Val> &a, Val &r) { cpy(s, ci, a, r); r = VC(a[0].c + a[2].c, 64); return true; };
  ext["memset"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) {
    uint64_t n = argC(s, a, 2); r = a[0]; if (!n) return true;
    argC(s, a, 0);
    E b = mkExtract(toE(a[1]), 0, 8);
    Bytes x; x.d.assign(n, isC(b) ? (uint8_t)b->v : 0); if (!isC(b)) x.s.assign(n, b);
    writeRaw(s, a[0], x); return true; };
  auto cmp = [](State &s, const CInst &, std::vector<Val> &a, Val &r) {
    uint64_t n = argC(s, a, 2); if (!n) { r = VC(0, 32); return true; }
    argC(s, a, 0); argC(s, a, 1);
    std::vector<E> x = readBytes(s, a[0], n), y = readBytes(s, a[1], n);
    r = VE(memcmpE(x, y)); return true; };
  ext["memcmp"] = cmp; ext["bcmp"] = cmp;
  // harness interface
  ext["vt_make_symbolic"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) {
    uint64_t p = argC(s, a, 0), n = argC(s, a, 1); std::string nm = readCStr(s, argC(s, a, 2));
    Input in; in.name = nm; if (!n) { s.inputs.push_back(in); return true; }
    uint64_t off; E so; Obj *o = resolve(s, VC(p, 64), n, true, off, so);
    for (uint64_t i = 0; i < n; i++) { 
      // variables are shared between paths: named by (symbol number, byte)
      static std::map<std::pair<uint64_t, std::string>, E> vars;
      auto key = std::make_pair(s.symCount, nm + "[" + std::to_string(i) + "]");
      E &v = vars[key]; if (!v) v = mkVar(key.second, 8);
      in.bytes.push_back(v); putByte(o, off + i, v); }
    s.symCount++;
    s.inputs.push_back(in); return true; };
  ext["vt_choice"] = [](State &s, const CInst &ci, std::vector<Val> &a, Val &r) {
    uint64_t n = argC(s, a, 0); std::string nm = readCStr(s, argC(s, a, 1));
    if (n == 0) throw PathEnd();
    for (uint64_t k = 1; k < n; k++) { State *o = forkState(s); Input in; in.name = nm; for (int i = 0; i < 8; i++) in.bytes.push_back(mkConst((k >> (8 * i)) & 255, 8)); o->inputs.push_back(in);
      std::swap(cs, o); finishCall(*cs, ci, VC(k, 64)); std::swap(cs, o); work.push_back(o); }
    Input in; in.name = nm; for (int i = 0; i < 8; i++) in.bytes.push_back(mkConst(0, 8)); s.inputs.push_back(in);
    r = VC(0, 64); return true; };
  ext["vt_concretize"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { r = VC(argC(s, a, 0), 64); return true; };
  ext["vt_is_symbolic"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { r = VC(a[0].t == Val::S, 32); return true; };
  ext["vt_engine"] = [](State &, const CInst &, std::vector<Val> &, Val &r) { r = VC(1, 32); return true; };
  ext["vt_assume"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) {
    E c = mkNe(toE(a[0]), mkConst(0, a[0].w)); if (isTrue(c)) return true;
    ModelP m; if (!may(s, c, m)) { nPathsAssumed++; throw PathEnd(); }
    addPC(s, c); s.model = m; return true; };
  ext["vt_assert_"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) {
    nAsserts++;
    E c = mkNe(toE(a[0]), mkConst(0, a[0].w)); uint64_t pm = argC(s, a, 1);
    std::string msg = readCStr(s, pm); assertsChecked[msg]++;
    if (isTrue(c)) return true;
    ModelP m;
    if (may(s, mkNot(c), m)) { violation(s, "assert", msg, m);
      if (!may(s, c, m)) { nPathsErr++; throw PathEnd(); }
      s.model = m; addPC(s, c); }
    return true; };
  // decimal digits of a value below 10^len: fresh digit variables defined by their Horner sum
  ext["vt_digits"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) {
    uint64_t len = argC(s, a, 1); Bytes x; x.d.assign(len, '0');
    if (a[2].t == Val::C) { uint64_t v = a[2].c; for (int i = (int)len - 1; i >= 0; i--) { x.d[i] = '0' + v % 10; v /= 10; } writeRaw(s, a[0], x); return true; }
    E val = a[2].e; static std::map<std::pair<E, uint64_t>, std::vector<E>> dv; auto &d = dv[{val, len}];
    if (d.empty()) { static int n = 0; n++; for (uint64_t i = 0; i < len; i++) d.push_back(mkVar("digit" + std::to_string(n) + "." + std::to_string(i), 8, false, 9)); }
    auto nm = std::make_shared<Model>(*s.model); uint64_t v = (uint64_t)evalE(val, *s.model);
    for (int i = (int)len - 1; i >= 0; i--) { uint32_t vi = d[i]->aux; if (nm->val.size() <= vi) nm->val.resize(vi + 1, 0); nm->val[vi] = v % 10; v /= 10; }
    if (v) problemEnd("vt_digits: value does not fit");
    s.model = nm;
    E acc = mkConst(0, 64); bool newly = true;
    for (uint64_t i = 0; i < len; i++) acc = mkBin(K_Add, mkBin(K_Mul, acc, mkConst(10, 64)), mkZExt(d[i], 64));
    { E c = mkEq(acc, val); for (E q : s.pc) if (q == c) newly = false; if (isTrue(c)) newly = false; }
    if (newly) { s.pc.push_back(mkEq(acc, val)); if (len == 20) s.pc.push_back(mkEq(d[0], mkConst(1, 8))); else if (len > 1) s.pc.push_back(mkNe(d[0], mkConst(0, 8)));

    }
    x.s.assign(len, nullptr); for (uint64_t i = 0; i < len; i++) x.s[i] = mkBin(K_Add, d[i], mkConst('0', 8));
    writeRaw(s, a[0], x); return true; };
  ext["vt_param"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { auto it = params.find(readCStr(s, argC(s, a, 0))); r = it == params.end() ? a[1] : VC(it->second, 64); return true; };
  ext["vt_fail"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) -> bool { violEnd(s, "assert", readCStr(s, argC(s, a, 0))); };
  ext["vt_cover"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) { std::string c = readCStr(s, argC(s, a, 0)); covers[c]++; auto it = coverIds.find(c); if (it == coverIds.end()) { it = coverIds.emplace(c, coverNames.size()).first; coverNames.push_back(c); } s.trace.push_back(it->second); return true; };
  ext["vt_end"] = [](State &s, const CInst &, std::vector<Val> &, Val &) -> bool { pathDone(s); };
  ext["vt_log"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) { if (getenv("SX_LOG")) { fprintf(stderr, "LOG %s", readCStr(s, argC(s, a, 0)).c_str()); if (a.size() > 1) { if (a[1].t == Val::C) fprintf(stderr, " %lld", (long long)a[1].c); else fprintf(stderr, " %s", toStr(a[1].e, 20).c_str()); } fprintf(stderr, "\n"); } return true; };
  ext["vt_leak_mark"] = [](State &s, const CInst &, std::vector<Val> &, Val &) { s.leakMark = s.heapSerial; return true; };
  ext["vt_leak_count"] = [](State &s, const CInst &, std::vector<Val> &, Val &r) {
    uint64_t n = 0; for (auto &c : s.mem[R_HEAP].ch) if (c) for (auto &o : c->o) if (o && o->alive && o->kind != AK_Exc && o->serial > s.leakMark) n++;
    r = VC(n, 64); return true; };
  ext["vt_check_leaks"] = [](State &s, const CInst &, std::vector<Val> &, Val &) {
    nAsserts++; assertsChecked["no leaked heap object"]++;
    for (auto &c : s.mem[R_HEAP].ch) if (c) for (auto &o : c->o) if (o && o->alive && o->kind != AK_Exc && o->serial > s.leakMark)
      violEnd(s, "leak", "heap object of " + std::to_string(o->size) + " bytes never freed, allocated at " + o->stack);
    return true; };
  ext["vt_readable"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) {
    uint64_t p = argC(s, a, 0), n = argC(s, a, 1); Obj *o = lookup(s, p);
    r = VC(n == 0 || (o && o->alive && p >= o->base && p + n <= o->base + o->size), 32); return true; };
  ext["vt_thread_id"] = [](State &s, const CInst &, std::vector<Val> &, Val &r) { r = VC(s.cur, 32); return true; };
  ext["vt_yield"] = [](State &s, const CInst &, std::vector<Val> &, Val &) { schedPoint(s); return true; };
  // a poll that found nothing: wait until something a poll can see has changed (a message, an atomic variable)
  ext["vt_poll_wait"] = [](State &s, const CInst &, std::vector<Val> &, Val &) {
    Thread &t = s.th[s.cur];
    if (t.granted) { t.granted = false; return true; }
    if (t.pollSeen != s.progress) { t.pollSeen = s.progress; t.pollMiss = 0; }
    if (++t.pollMiss < 9) return true;   // a loop that polls looks at fewer things
    t.pollMiss = 0;
    t.st = Thread::BlockPoll; reschedule(s); throw Retry(); };
  ext["vt_progress"] = [](State &s, const CInst &, std::vector<Val> &, Val &) { s.progress++; return true; };
  // the inside of a model: one step for the scheduler and the race detector
  ext["vt_atomic"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) { s.th[s.cur].atomic = argC(s, a, 0); return true; };
  // switch away until another thread has made progress (used by models of blocking waits)
  ext["vt_block_yield"] = [](State &s, const CInst &ci, std::vector<Val> &, Val &) {
    Thread &t = s.th[s.cur];
    if (t.granted) { t.granted = false; return true; }
    std::vector<unsigned> en; for (unsigned i = 0; i < s.th.size(); i++) if (i != s.cur && enabled(s, i)) en.push_back(i);
    if (en.empty()) violEnd(s, "deadlock", "busy wait with no other runnable thread: " + threadStates(s));
    fr(s).pc = fr(s).pc;
    for (size_t k = 1; k < en.size(); k++) { State *o = forkState(s); o->cur = en[k]; wake(*o, en[k]); o->th[en[k]].granted = true; o->sched.push_back(en[k]); work.push_back(o); }
    s.cur = en[0]; wake(s, en[0]); s.th[en[0]].granted = true; s.sched.push_back(en[0]);
    throw Retry(); };
  // C / C++ runtime
  ext["abort"] = [](State &s, const CInst &, std::vector<Val> &, Val &) -> bool { violEnd(s, "abort", "abort() called"); };
  ext["_ZSt9terminatev"] = [](State &s, const CInst &, std::vector<Val> &, Val &) -> bool { violEnd(s, "abort", "std::terminate() called"); };
  ext["__cxa_pure_virtual"] = [](State &s, const CInst &, std::vector<Val> &, Val &) -> bool { violEnd(s, "abort", "pure virtual call"); };
  ext["exit"] = [](State &s, const CInst &, std::vector<Val> &, Val &) -> bool { violEnd(s, "abort", "exit() called"); };
  ext["__assert_fail"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) -> bool { violEnd(s, "abort", "assertion failed: " + readCStr(s, argC(s, a, 0))); };
  auto nop0 = [](State &, const CInst &, std::vector<Val> &, Val &r) { r = VC(0, 64); return true; };
  for (const char *n : {"__cxa_atexit", "atexit", "puts", "printf", "fprintf", "fflush", "fputs", "fputc", "putchar", "fwrite", "perror", "vfprintf", "sched_yield", "usleep", "sleep", "nanosleep", "tzset"}) ext[n] = nop0;
  ext["__cxa_guard_acquire"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { Val v = loadMem(s, a[0], 1); r = VC(v.t == Val::C && v.c == 0, 32); return true; };
  ext["__cxa_guard_release"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) { storeMem(s, a[0], VC(1, 8), 1); return true; };
  ext["__cxa_guard_abort"] = nop0;
  ext["__cxa_allocate_exception"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { uint64_t n = argC(s, a, 0); r = VC(newObj(s, R_HEAP, std::max<uint64_t>(n, 64), AK_Exc, true)->base, 64); return true; };
  ext["__cxa_free_exception"] = nop0;
  ext["__cxa_throw"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) { Thread &t = s.th[s.cur]; t.excPtr = argC(s, a, 0); t.excType = argC(s, a, 1); unwind(s, "throw"); return false; };
  ext["__cxa_rethrow"] = [](State &s, const CInst &, std::vector<Val> &, Val &) { Thread &t = s.th[s.cur]; if (t.caught.empty()) violEnd(s, "abort", "rethrow without exception"); t.excPtr = t.caught.back().first; t.excType = t.caught.back().second; unwind(s, "rethrow"); return false; };
  ext["__cxa_begin_catch"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { Thread &t = s.th[s.cur]; t.caught.push_back({t.excPtr, t.excType}); r = a[0]; return true; };
  ext["__cxa_get_exception_ptr"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { r = a[0]; return true; };
  ext["__cxa_end_catch"] = [](State &s, const CInst &, std::vector<Val> &, Val &) { Thread &t = s.th[s.cur]; if (!t.caught.empty()) t.caught.pop_back(); return true; };
  ext["__clang_call_terminate"] = ext["_ZSt9terminatev"];
  // standard exception classes: constructors and destructors have no observable effect here
  for (const char *c : {"St12out_of_range", "St16invalid_argument", "St12length_error", "St11logic_error", "St13runtime_error", "St9exception", "St9bad_alloc", "St11range_error", "St12domain_error", "St14overflow_error"}) {
    std::string b = c; 
    std::string in = b.substr(2);   // e.g. 12out_of_range
    for (const char *k : {"C1EPKc", "C2EPKc", "C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "D1Ev", "D2Ev", "D0Ev", "C1ERKS_", "C2ERKS_"})
      if (k[0] == 'D' || k[1] == '2' || b == "St9exception" || b == "St9bad_alloc") ext["_ZNSt" + in + k] = nop0;   // the others are in rt.cpp
  }
  // time: a strictly increasing counter
  ext["_ZNSt6chrono3_V212steady_clock3nowEv"] = ext["_ZNSt6chrono3_V212system_clock3nowEv"] = [](State &s, const CInst &, std::vector<Val> &, Val &r) { s.clock += 10; r = VC(s.clock, 64); return true; };
  ext["time"] = [](State &s, const CInst &, std::vector<Val> &, Val &r) { r = VC(s.clock += 10, 64); return true; };
  ext["clock_gettime"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { s.clock += 10; storeMem(s, a[1], VC(0, 64), 8); storeMem(s, binVal(Instruction::Add, a[1], VC(8, 64)), VC(s.clock, 64), 8); r = VC(0, 32); return true; };
  // pthreads
  auto lock = [](bool tr) { return [tr](State &s, const CInst &, std::vector<Val> &a, Val &r) {
    uint64_t m = argC(s, a, 0); { Obj *o = lookup(s, m); if (!o || !o->alive) violEnd(s, "use-after-free", "mutex lock on " + addrDesc(s, m, 0)); }
    schedPoint(s);
    if (tr && s.mtx[m].owner >= 0) { r = VC(16, 32); return true; }
    mutexLock(s, m, false); r = VC(0, 32); return true; }; };
  ext["pthread_mutex_lock"] = lock(false); ext["pthread_mutex_trylock"] = lock(true);
  ext["pthread_mutex_unlock"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { uint64_t m = argC(s, a, 0); { Obj *o = lookup(s, m); if (!o || !o->alive) violEnd(s, "use-after-free", "mutex unlock on " + addrDesc(s, m, 0)); } mutexUnlock(s, m); r = VC(0, 32); return true; };
  ext["pthread_mutex_init"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { s.mtx.erase(argC(s, a, 0)); r = VC(0, 32); return true; };
  ext["pthread_mutex_destroy"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { uint64_t m = argC(s, a, 0); if (s.mtx[m].owner >= 0) violEnd(s, "mutex", "destroying a locked mutex"); s.mtx.erase(m); r = VC(0, 32); return true; };
  for (const char *n : {"pthread_rwlock_rdlock", "pthread_rwlock_wrlock"}) ext[n] = ext["pthread_mutex_lock"];   // readers exclude each other too
  for (const char *n : {"pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock"}) ext[n] = ext["pthread_mutex_trylock"];
  for (const char *n : {"unlock", "init", "destroy"}) ext[std::string("pthread_rwlock_") + n] = ext[std::string("pthread_mutex_") + n];
  ext["pthread_cond_destroy"] = ext["pthread_cond_init"] = [](State &, const CInst &, std::vector<Val> &, Val &r) { r = VC(0, 32); return true; };
  ext["vt_cond_wait"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) {
    // two phases: enter (release + block), then re-acquire
    uint64_t cv = argC(s, a, 0), m = argC(s, a, 1); Thread &t = s.th[s.cur];
    { Obj *o = lookup(s, cv); if (!o || !o->alive) violEnd(s, "use-after-free", "wait on " + addrDesc(s, cv, 0)); }
    if (t.waitMutex == m && t.st == Thread::Run && t.waitAddr == cv + 1) { // woken: reacquire
      if (s.mtx[m].owner >= 0) { t.st = Thread::BlockMutex; uint64_t keep = t.waitAddr; (void)keep; t.waitAddr = m; t.waitMutex = m; t.granted = false; s.th[s.cur].joinTid = 0xffff; reschedule(s); throw Retry(); }
      mutexLock(s, m, false); t.waitMutex = 0; t.waitAddr = 0; t.granted = false; return true; }
    if (t.joinTid == 0xffff && t.waitMutex == m && t.st == Thread::Run) { // granted the mutex after blocking
      t.joinTid = 0; if (s.mtx[m].owner >= 0) { t.st = Thread::BlockMutex; t.waitAddr = m; t.joinTid = 0xffff; t.granted = false; reschedule(s); throw Retry(); }
      mutexLock(s, m, false); t.waitMutex = 0; t.waitAddr = 0; t.granted = false; return true; }
    t.granted = false;
    mutexUnlock(s, m);
    t.st = Thread::BlockCond; t.waitAddr = cv; t.waitMutex = m; t.joinTid = 0;
    reschedule(s); throw Retry(); };
  auto notify = [](bool all) { return [all](State &s, const CInst &ci, std::vector<Val> &a, Val &) {
    uint64_t cv = argC(s, a, 0); { Obj *o = lookup(s, cv); if (!o || !o->alive) violEnd(s, "use-after-free", "notify on " + addrDesc(s, cv, 0)); }
    schedPoint(s);
    std::vector<unsigned> ws; for (unsigned i = 0; i < s.th.size(); i++) if (s.th[i].st == Thread::BlockCond && s.th[i].waitAddr == cv) ws.push_back(i);
    auto wk = [cv](State &x, unsigned i) { x.th[i].st = Thread::Run; x.th[i].waitAddr = cv + 1; };
    if (all) for (unsigned i : ws) wk(s, i);
    else if (!ws.empty()) {
      for (size_t k = 1; k < ws.size(); k++) { State *o = forkState(s); wk(*o, ws[k]); std::swap(cs, o); finishCall(*cs, ci, VC(0, 64)); std::swap(cs, o); work.push_back(o); }
      wk(s, ws[0]);
    }
    return true; }; };
  ext["vt_cond_notify_one"] = notify(false); ext["vt_cond_notify_all"] = notify(true);
  ext["vt_thread_create"] = [](State &s, const CInst &ci, std::vector<Val> &a, Val &r) {
    schedPoint(s);
    uint64_t f = argC(s, a, 0); unsigned tid = s.th.size();
    if (f < FN_BASE || (f - FN_BASE) / 16 >= fns.size()) violEnd(s, "wild-pointer", "thread entry point");
    s.th.emplace_back(); fixVC(s);
    vcTick(s); s.th[tid].vc = s.th[s.cur].vc; s.th[tid].vc[tid] = 1; vcTick(s);
    pushFrame(s, tid, fns[(f - FN_BASE) / 16], {a[1]});
    r = VC(tid, 32); return true; };
  ext["vt_thread_join"] = [](State &s, const CInst &, std::vector<Val> &a, Val &) {
    unsigned tid = argC(s, a, 0); Thread &t = s.th[s.cur]; t.granted = false;
    if (tid >= s.th.size() || tid == s.cur) violEnd(s, "thread", "join of invalid thread");
    if (s.th[tid].st != Thread::Done) { t.st = Thread::BlockJoin; t.joinTid = tid; reschedule(s); throw Retry(); }
    t.joinTid = 0; vcJoin(t.vc, s.th[tid].vc); return true; };
  // libm on concrete arguments
  auto m1 = [&](const char *n, double (*f)(double)) { ext[n] = [f, n](State &, const CInst &, std::vector<Val> &a, Val &r) { if (a[0].t != Val::C) problemEnd(std::string("symbolic argument to ") + n); r = VC(bitsd(f(dbl(a[0].c))), 64); return true; }; };
  auto m1f = [&](const char *n, float (*f)(float)) { ext[n] = [f, n](State &, const CInst &, std::vector<Val> &a, Val &r) { if (a[0].t != Val::C) problemEnd(std::string("symbolic argument to ") + n); float x, y; uint32_t b = (uint32_t)a[0].c; memcpy(&x, &b, 4); y = f(x); memcpy(&b, &y, 4); r = VC(b, 32); return true; }; };
  m1f("logf", logf); m1f("log2f", log2f); m1f("log10f", log10f); m1f("expf", expf);
  m1("log", log); m1("log2", log2); m1("log10", log10); m1("exp", exp); m1("exp2", exp2); m1("cbrt", cbrt); m1("sin", sin); m1("cos", cos);
  ext["sqrt"] = [](State &, const CInst &, std::vector<Val> &a, Val &r) { r = VE(mkFP(K_FSqrt, 64, toE(a[0]))); return true; };
  ext["pow"] = [](State &, const CInst &, std::vector<Val> &a, Val &r) { if (a[0].t != Val::C || a[1].t != Val::C) problemEnd("symbolic argument to pow"); r = VC(bitsd(pow(dbl(a[0].c), dbl(a[1].c))), 64); return true; };
  ext["ldexp"] = [](State &, const CInst &, std::vector<Val> &a, Val &r) { if (a[0].t != Val::C || a[1].t != Val::C) problemEnd("symbolic argument to ldexp"); r = VC(bitsd(ldexp(dbl(a[0].c), (int)a[1].c)), 64); return true; };
  auto m2 = [&](const char *n, double (*f)(double, double)) { ext[n] = [f, n](State &, const CInst &, std::vector<Val> &a, Val &r) { if (a[0].t != Val::C || a[1].t != Val::C) problemEnd(std::string("symbolic argument to ") + n); r = VC(bitsd(f(dbl(a[0].c), dbl(a[1].c))), 64); return true; }; };
  for (const char *n : {"lround", "llround", "lrint", "llrint"}) { bool even = strstr(n, "rint"); ext[n] = [even](State &, const CInst &, std::vector<Val> &a, Val &r) { if (a[0].t != Val::C) problemEnd("symbolic argument to lround"); r = VC(even ? lrint(dbl(a[0].c)) : lround(dbl(a[0].c)), 64); return true; }; }
  m2("fmod", fmod); m2("atan2", atan2); m2("hypot", hypot); m2("nextafter", nextafter); m2("remainder", remainder);
  auto rnd = [&](const char *n, unsigned mode) { ext[n] = [mode](State &, const CInst &, std::vector<Val> &a, Val &r) { r = VE(mkFP(K_FRnd, a[0].w, toE(a[0]), nullptr, mode)); return true; }; };
  rnd("floor", 0); rnd("ceil", 1); rnd("trunc", 2); rnd("round", 3); rnd("rint", 4); rnd("nearbyint", 4); rnd("floorf", 0); rnd("ceilf", 1);
  // formatted output of concrete numbers (used by models)
  ext["vt_format_double"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { // (buf, cap, double, prec) -> len
    if (a[2].t != Val::C) { if (!params.count("FORMAT")) problemEnd("formatting a symbolic double"); storeMem(s, a[0], VC('#', 8), 1); r = VC(1, 64); return true; }   // harnesses that never look at the text ask for this
    char b[512]; int p = (int)a[3].c; double dv = dbl(a[2].c);
    int n = p < 0 ? snprintf(b, sizeof b, "%g", dv) : p >= 2000 ? snprintf(b, sizeof b, "%.*e", p - 2000, dv) : p >= 1000 ? snprintf(b, sizeof b, "%.*f", p - 1000, dv) : snprintf(b, sizeof b, "%.*g", p, dv);
    if (n >= (int)sizeof b) problemEnd("formatted double too long");
    Bytes x; x.d.assign(b, b + n + 1); writeRaw(s, a[0], x); r = VC(n, 64); return true; };
  ext["vt_parse_double"] = [](State &s, const CInst &, std::vector<Val> &a, Val &r) { // (cstr) -> double
    uint64_t p = argC(s, a, 0); std::string t; for (;; p++) { Val c = loadMem(s, VC(p, 64), 1); if (c.t != Val::C) problemEnd("parsing a symbolic double"); if (!c.c) break; t += (char)c.c; }
    r = VC(bitsd(a.size() > 1 && a[1].c ? (double)strtof(t.c_str(), nullptr) : strtod(t.c_str(), nullptr)), 64); return true; };
}

// intrinsics -------------------------------------------------------
static Val intrinsic(State &s, const IntrinsicInst *II, std::vector<Val> &a, bool &handled) {
  handled = true;
  Intrinsic::ID id = II->getIntrinsicID();
  auto bw = [&] { return a[0].w; };
  auto cmpSel = [&](Kind k, bool swap) { E x = toE(a[0]), y = toE(a[1]); E c = mkCmp(k, x, y); return VE(swap ? mkIte(c, y, x) : mkIte(c, x, y)); };
  Val dummy; CInst ci; 
  switch (id) {
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline: { uint64_t n = argC(s, a, 2); if (n) { uint64_t d = argC(s, a, 0), q = argC(s, a, 1); Bytes b = readRaw(s, VC(q, 64), n); writeRaw(s, VC(d, 64), b); } return Val(); }
  case Intrinsic::vastart: {   // every variable argument goes to the overflow area of the x86-64 va_list
    std::vector<Val> va = fr(s).va; Obj *o = newObj(s, stackRegion(s.cur), 8 * va.size() + 8, AK_Stack, true); uint64_t base = o->base, l = argC(s, a, 0);
    for (size_t i = 0; i < va.size(); i++) { if (va[i].t == Val::A || va[i].t == Val::None || va[i].w > 64) problemEnd("unsupported variable argument"); storeMem(s, VC(base + 8 * i, 64), va[i], std::max(1u, (unsigned)va[i].w / 8)); }
    storeMem(s, VC(l, 64), VC(48, 32), 4); storeMem(s, VC(l + 4, 64), VC(176, 32), 4); storeMem(s, VC(l + 8, 64), VC(base, 64), 8); storeMem(s, VC(l + 16, 64), VC(0, 64), 8); return Val(); }
  case Intrinsic::vacopy: { uint64_t d = argC(s, a, 0), q = argC(s, a, 1); Bytes b = readRaw(s, VC(q, 64), 24); writeRaw(s, VC(d, 64), b); return Val(); }
  case Intrinsic::vaend: return Val();
  case Intrinsic::memmove: ext["memmove"](s, ci, a, dummy); return Val();
  case Intrinsic::memset: ext["memset"](s, ci, a, dummy); return Val();
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::sideeffect: return Val();
  case Intrinsic::invariant_start: case Intrinsic::stacksave: return VC(0, 64);
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
  case Intrinsic::threadlocal_address: return a[0];
  case Intrinsic::umin: return cmpSel(K_Ult, false); case Intrinsic::umax: return cmpSel(K_Ult, true);
  case Intrinsic::smin: return cmpSel(K_Slt, false); case Intrinsic::smax: return cmpSel(K_Slt, true);
  case Intrinsic::abs: { E x = toE(a[0]); return VE(mkIte(mkCmp(K_Slt, x, mkConst(0, bw())), mkBin(K_Sub, mkConst(0, bw()), x), x)); }
  case Intrinsic::ctpop: { E x = toE(a[0]); unsigned w = bw(); E r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(K_Add, r, mkZExt(mkExtract(x, i, 1), w)); return VE(r); }
  case Intrinsic::ctlz: { E x = toE(a[0]); unsigned w = bw(); E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(w - 1 - i, w), r); return VE(r); }
  case Intrinsic::cttz: { E x = toE(a[0]); unsigned w = bw(); E r = mkConst(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(i, w), r); return VE(r); }
  case Intrinsic::bswap: { E x = toE(a[0]); unsigned n = bw() / 8; E r = mkExtract(x, 0, 8); for (unsigned i = 1; i < n; i++) r = mkConcat(r, mkExtract(x, i * 8, 8)); return VE(r); }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    E x = toE(a[0]), y = toE(a[1]), z = toE(a[2]); unsigned w = bw(); E m = mkBin(K_URem, z, mkConst(w, w)); E W = mkConst(w, w);
    if (id == Intrinsic::fshl) return VE(mkIte(mkEq(m, mkConst(0, w)), x, mkBin(K_Or, mkBin(K_Shl, x, m), mkBin(K_LShr, y, mkBin(K_Sub, W, m)))));
    return VE(mkIte(mkEq(m, mkConst(0, w)), y, mkBin(K_Or, mkBin(K_LShr, y, m), mkBin(K_Shl, x, mkBin(K_Sub, W, m))))); }
  case Intrinsic::uadd_with_overflow: { E x = toE(a[0]), y = toE(a[1]); E r = mkBin(K_Add, x, y); return VA(new Agg{VE(r), VE(mkCmp(K_Ult, r, x))}); }
  case Intrinsic::usub_with_overflow: { E x = toE(a[0]), y = toE(a[1]); return VA(new Agg{VE(mkBin(K_Sub, x, y)), VE(mkCmp(K_Ult, x, y))}); }
  case Intrinsic::umul_with_overflow: { E x = toE(a[0]), y = toE(a[1]); unsigned w = bw(); E r = mkBin(K_Mul, x, y); 
    E ov; if (isC(y) && y->v) ov = mkCmp(K_Ult, mkConst(maskw(w) / y->v, w), x); else if (isC(y)) ov = mkConst(0, 1); else if (isC(x) && x->v) ov = mkCmp(K_Ult, mkConst(maskw(w) / x->v, w), y); else if (isC(x)) ov = mkConst(0, 1); else ov = mkNe(mkExtract(mkBin(K_Mul, mkZExt(x, 2 * w), mkZExt(y, 2 * w)), w, w), mkConst(0, w));
    return VA(new Agg{VE(r), VE(ov)}); }
  case Intrinsic::sadd_with_overflow: { E x = toE(a[0]), y = toE(a[1]); unsigned w = bw(); E r = mkBin(K_Add, x, y); E sx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1); return VA(new Agg{VE(r), VE(mkAnd(mkEq(sx, sy), mkNe(sx, sr)))}); }
  case Intrinsic::ssub_with_overflow: { E x = toE(a[0]), y = toE(a[1]); unsigned w = bw(); E r = mkBin(K_Sub, x, y); E sx = mkExtract(x, w - 1, 1), sy = mkExtract(y, w - 1, 1), sr = mkExtract(r, w - 1, 1); return VA(new Agg{VE(r), VE(mkAnd(mkNe(sx, sy), mkNe(sx, sr)))}); }
  case Intrinsic::uadd_sat: { E x = toE(a[0]), y = toE(a[1]); E r = mkBin(K_Add, x, y); return VE(mkIte(mkCmp(K_Ult, r, x), mkConst(~0ULL, bw()), r)); }
  case Intrinsic::usub_sat: { E x = toE(a[0]), y = toE(a[1]); return VE(mkIte(mkCmp(K_Ult, x, y), mkConst(0, bw()), mkBin(K_Sub, x, y))); }
  case Intrinsic::fabs: { E x = toE(a[0]); unsigned w = bw(); return VE(mkConcat(mkConst(0, 1), mkExtract(x, 0, w - 1))); }
  case Intrinsic::copysign: { E x = toE(a[0]), y = toE(a[1]); unsigned w = bw(); return VE(mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1))); }
  case Intrinsic::sqrt: return VE(mkFP(K_FSqrt, bw(), toE(a[0])));
  case Intrinsic::floor: return VE(mkFP(K_FRnd, bw(), toE(a[0]), nullptr, 0));
  case Intrinsic::ceil: return VE(mkFP(K_FRnd, bw(), toE(a[0]), nullptr, 1));
  case Intrinsic::trunc: return VE(mkFP(K_FRnd, bw(), toE(a[0]), nullptr, 2));
  case Intrinsic::round: return VE(mkFP(K_FRnd, bw(), toE(a[0]), nullptr, 3));
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return VE(mkFP(K_FRnd, bw(), toE(a[0]), nullptr, 4));
  case Intrinsic::fmuladd: return VE(mkFP(K_FAdd, bw(), mkFP(K_FMul, bw(), toE(a[0]), toE(a[1])), toE(a[2])));
  case Intrinsic::minnum: return VE(mkIte(mkFP(K_FOlt, 1, toE(a[0]), toE(a[1])), toE(a[0]), toE(a[1])));
  case Intrinsic::maxnum: return VE(mkIte(mkFP(K_FOlt, 1, toE(a[0]), toE(a[1])), toE(a[1]), toE(a[0])));
  case Intrinsic::pow: { ext["pow"](s, ci, a, dummy); return dummy; }
  case Intrinsic::powi: if (a[0].t == Val::C && a[1].t == Val::C) return VC(bitsd(pow(dbl(a[0].c), (int)a[1].c)), 64); problemEnd("symbolic powi");
  case Intrinsic::exp: { ext["exp"](s, ci, a, dummy); return dummy; }
  case Intrinsic::exp2: { ext["exp2"](s, ci, a, dummy); return dummy; }
  case Intrinsic::log: { ext["log"](s, ci, a, dummy); return dummy; }
  case Intrinsic::log2: { ext["log2"](s, ci, a, dummy); return dummy; }
  case Intrinsic::log10: { ext["log10"](s, ci, a, dummy); return dummy; }
  case Intrinsic::trap: violEnd(s, "abort", "trap");
  case Intrinsic::eh_typeid_for: return VC(typeId(a[0].c), 32);
  case Intrinsic::is_constant: return VC(0, 1);
  case Intrinsic::objectsize: return VC(~0ULL, bitsOf(II->getType()));
  case Intrinsic::ptrmask: return binVal(Instruction::And, a[0], a[1]);
  case Intrinsic::is_fpclass: problemEnd("is_fpclass");
  default: break;
  }
  handled = false;
  return Val();
}

static bool fnHasBody(const CFn *f) { return !f->F->isDeclaration(); }

static void callFn(State &s, const CInst &ci, int fi, std::vector<Val> &args) {
  CFn *f = fns[fi];
  auto it = ext.find(f->name);
  if (it != ext.end()) {
    extCalled.insert(f->name);
    Val r = VC(0, 64);
    unsigned w = ci.w;
    size_t depthThread = s.cur; (void)depthThread;
    if (it->second(s, ci, args, r)) { if (ci.dest >= 0 && w && r.t == Val::C && r.w != w) r = VC(r.c, w); finishCall(s, ci, r); }
    return;
  }
  if (fnHasBody(f)) { 
    // frame pc stays on the call instruction until return
    pushFrame(s, s.cur, f, args);
    return;
  }
  if (f->name.rfind("llvm.", 0) == 0) problemEnd("unsupported intrinsic " + f->name);
  problemEnd("call to unmodelled external function " + f->name);
}

static void doReturn(State &s, const Val *v) {
  popFrame(s);
  Thread &t = s.th[s.cur];
  if (t.frames.empty()) {
    t.st = Thread::Done;
    if (s.cur == 0) pathDone(s);
    vcTick(s);
    reschedule(s);
    return;
  }
  Frame &f = fr(s);
  CInst &ci = f.fn->blocks[f.bb].insts[f.pc];
  curI = ci.I;
  if (v && ci.dest >= 0) f.regs[ci.dest] = *v;
  if (ci.op == Instruction::Invoke) gotoBB(s, f.fn->bidx[cast<InvokeInst>(ci.I)->getNormalDest()]);
  else f.pc++;
}

static Val vecMap2(const Val &a, const Val &b, std::function<Val(const Val &, const Val &)> f) {
  Agg *r = new Agg; for (size_t i = 0; i < a.a->size(); i++) r->push_back(f((*a.a)[i], (*b.a)[i])); return VA(r);
}

static void step(State &s) {
  Frame &f = fr(s);
  CInst &ci = f.fn->blocks[f.bb].insts[f.pc];
  curI = ci.I;
  nInstr++;
  if (++s.steps > maxSteps) violEnd(s, "no-termination", "step limit of " + std::to_string(maxSteps) + " instructions reached on one path");
  switch (ci.op) {
  case Instruction::Ret: {
    if (ci.ops.empty()) doReturn(s, nullptr); else { Val v = opv(s, ci.ops[0]); doReturn(s, &v); }
    return;
  }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(ci.I);
    if (b->isUnconditional()) { gotoBB(s, ci.ops[0].c.c); return; }
    Val c = opv(s, ci.ops[0]);
    bool t;
    if (c.t == Val::C) t = c.c;
    else { uninitCheck(s, c.e, "branch"); t = decide(s, c.e); }
    // operand order in BranchInst: cond, false, true
    gotoBB(s, t ? ci.ops[2].c.c : ci.ops[1].c.c);
    return;
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(ci.I);
    Val c = opv(s, ci.ops[0]);
    if (c.t == Val::S) {
      E e = c.e; uint64_t v = (uint64_t)evalE(e, *s.model);
      // group by destination
      std::map<const BasicBlock *, E> conds; E any = mkConst(0, 1); const BasicBlock *taken = sw->getDefaultDest();
      for (auto &cc : sw->cases()) { E q = mkEq(e, mkConst(cc.getCaseValue()->getZExtValue(), e->w)); auto &x = conds[cc.getCaseSuccessor()]; x = x ? mkOr(x, q) : q; any = mkOr(any, q); if (cc.getCaseValue()->getZExtValue() == v) taken = cc.getCaseSuccessor(); }
      auto &d = conds[sw->getDefaultDest()]; d = d ? mkOr(d, mkNot(any)) : mkNot(any);
      ModelP m; E tk = conds[taken];
      if (may(s, mkNot(tk), m)) { State *o = forkState(s); addPC(*o, mkNot(tk)); o->model = m; work.push_back(o); addPC(s, tk); }
      gotoBB(s, f.fn->bidx[taken]);
      return;
    }
    const BasicBlock *d = sw->getDefaultDest();
    for (auto &cc : sw->cases()) if (cc.getCaseValue()->getZExtValue() == c.c) { d = cc.getCaseSuccessor(); break; }
    gotoBB(s, f.fn->bidx[d]);
    return;
  }
  case Instruction::Unreachable: violEnd(s, "unreachable", "control reached undefined behaviour (unreachable)");
  case Instruction::Call: case Instruction::Invoke: {
    if (auto *II = dyn_cast<IntrinsicInst>(ci.I)) {
      std::vector<Val> a; for (auto &o : ci.ops) a.push_back(opv(s, o));
      bool h; 
      if (II->getType()->isVectorTy()) problemEnd("vector intrinsic");
      Val r = intrinsic(s, II, a, h);
      if (!h) problemEnd("unsupported intrinsic " + II->getCalledFunction()->getName().str());
      finishCall(s, ci, r); return;
    }
    auto *cb = cast<CallBase>(ci.I);
    unsigned na = cb->arg_size();
    std::vector<Val> args; args.reserve(na);
    for (unsigned i = 0; i < na; i++) args.push_back(opv(s, ci.ops[i]));
    int fi = ci.callee;
    if (fi < 0) {
      if (cb->isInlineAsm()) { finishCall(s, ci, VC(0, ci.w ? ci.w : 64)); return; }
      uint64_t p = concretize(s, opv(s, ci.ops[na]));
      if (p < FN_BASE || (p - FN_BASE) % 16 || (p - FN_BASE) / 16 >= fns.size()) violEnd(s, p == 0 ? "null-deref" : "wild-pointer", "call through invalid function pointer");
      fi = (p - FN_BASE) / 16;
    }
    callFn(s, ci, fi, args);
    return;
  }
  case Instruction::Resume: { Val v = opv(s, ci.ops[0]); Thread &t = s.th[s.cur]; t.excPtr = (*v.a)[0].c; popFrame(s); if (t.frames.empty()) violEnd(s, "uncaught-exception", "exception left the outermost frame"); unwind(s, "resume"); return; }
  case Instruction::Alloca: {
    auto *al = cast<AllocaInst>(ci.I); uint64_t n = DL->getTypeAllocSize(al->getAllocatedType());
    if (al->isArrayAllocation()) n *= concretize(s, opv(s, ci.ops[0]));
    Obj *o = newObj(s, stackRegion(s.cur), n, AK_Stack, true);
    setDest(s, ci, VC(o->base, 64)); fr(s).pc++; return;
  }
  case Instruction::Load: {
    auto *ld = cast<LoadInst>(ci.I); Val p = opv(s, ci.ops[0]);
    if (ld->isAtomic() && s.th.size() > 1) {
      if (!quietLoads) schedPoint(s); uint64_t a = concretize(s, p); bool dr = detectRaces; detectRaces = false; Val v;
      try { v = loadTy(s, p, ld->getType()); } catch (...) { detectRaces = dr; throw; } detectRaces = dr;
      vcJoin(s.th[s.cur].vc, s.atomVC[a]); setDest(s, ci, v); fr(s).pc++; return;
    }
    Val v = loadTy(s, p, ld->getType());
    setDest(s, ci, v); fr(s).pc++; return;
  }
  case Instruction::Store: {
    auto *st = cast<StoreInst>(ci.I); Val v = opv(s, ci.ops[0]), p = opv(s, ci.ops[1]);
    if (st->isAtomic() && s.th.size() > 1) {
      schedPoint(s); uint64_t a = concretize(s, p); bool dr = detectRaces; detectRaces = false;
      try { storeTy(s, p, v, st->getValueOperand()->getType()); } catch (...) { detectRaces = dr; throw; } detectRaces = dr;
      vcJoin(s.atomVC[a], s.th[s.cur].vc); vcTick(s); s.progress++; fr(s).pc++; return;
    }
    storeTy(s, p, v, st->getValueOperand()->getType());
    fr(s).pc++; return;
  }
  case Instruction::AtomicRMW: {
    auto *rm = cast<AtomicRMWInst>(ci.I); schedPoint(s);
    Val p = opv(s, ci.ops[0]), v = opv(s, ci.ops[1]); uint64_t a = concretize(s, p);
    bool dr = detectRaces; detectRaces = false; Val old, nv;
    try {
      old = loadTy(s, p, rm->getType());
      switch (rm->getOperation()) {
      case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = binVal(Instruction::Add, old, v); break; case AtomicRMWInst::Sub: nv = binVal(Instruction::Sub, old, v); break;
      case AtomicRMWInst::And: nv = binVal(Instruction::And, old, v); break; case AtomicRMWInst::Or: nv = binVal(Instruction::Or, old, v); break; case AtomicRMWInst::Xor: nv = binVal(Instruction::Xor, old, v); break;
      default: problemEnd("atomicrmw");
      }
      storeTy(s, p, nv, rm->getType());
    } catch (...) { detectRaces = dr; throw; }
    detectRaces = dr;
    if (s.th.size() > 1) { vcJoin(s.th[s.cur].vc, s.atomVC[a]); vcJoin(s.atomVC[a], s.th[s.cur].vc); vcTick(s); s.progress++; }
    setDest(s, ci, old); fr(s).pc++; return;
  }
  case Instruction::AtomicCmpXchg: {
    auto *cx = cast<AtomicCmpXchgInst>(ci.I); schedPoint(s);
    Val p = opv(s, ci.ops[0]), c = opv(s, ci.ops[1]), n = opv(s, ci.ops[2]); uint64_t a = concretize(s, p);
    bool dr = detectRaces; detectRaces = false; Val old, eq;
    try { old = loadTy(s, p, cx->getCompareOperand()->getType()); eq = icmpVal(CmpInst::ICMP_EQ, old, c); bool b = decide(s, toE(eq)); eq = VC(b, 1); if (b) storeTy(s, p, n, cx->getCompareOperand()->getType()); } catch (...) { detectRaces = dr; throw; }
    detectRaces = dr;
    if (s.th.size() > 1) { vcJoin(s.th[s.cur].vc, s.atomVC[a]); vcJoin(s.atomVC[a], s.th[s.cur].vc); vcTick(s); s.progress++; }
    setDest(s, ci, VA(new Agg{old, eq})); fr(s).pc++; return;
  }
  case Instruction::Fence: fr(s).pc++; return;
  case Instruction::GetElementPtr: {
    Val b = opv(s, ci.ops[0]);
    if (b.t == Val::A) problemEnd("vector gep");
    Val r = b;
    if (ci.gepOff) r = binVal(Instruction::Add, r, VC(ci.gepOff, 64));
    for (auto &gi : ci.gepIdx) {
      Val i = opv(s, gi.first);
      if (i.t == Val::C) { int64_t x = sextv(i.c, i.w); r = binVal(Instruction::Add, r, VC((uint64_t)x * gi.second, 64)); }
      else { if (i.t == Val::A) problemEnd("vector gep"); E e = i.w < 64 ? mkSExt(i.e, 64) : i.e; r = VE(mkBin(K_Add, toE(r), mkBin(K_Mul, e, mkConst(gi.second, 64)))); }
    }
    setDest(s, ci, r); f.pc++; return;
  }
  case Instruction::PHI: problemEnd("phi executed");
  case Instruction::Select: {
    Val c = opv(s, ci.ops[0]), a = opv(s, ci.ops[1]), b = opv(s, ci.ops[2]);
    if (c.t == Val::C) { setDest(s, ci, c.c ? a : b); }
    else if (c.t == Val::A) { Agg *r = new Agg; for (size_t i = 0; i < c.a->size(); i++) r->push_back(VE(mkIte(toE((*c.a)[i]), toE((*a.a)[i]), toE((*b.a)[i])))); setDest(s, ci, VA(r)); }
    else if (a.t == Val::A || ci.I->getType()->isPointerTy()) { bool t = decide(s, c.e); setDest(s, ci, t ? a : b); }
    else setDest(s, ci, VE(mkIte(c.e, toE(a), toE(b))));
    f.pc++; return;
  }
  case Instruction::ICmp: {
    Val a = opv(s, ci.ops[0]), b = opv(s, ci.ops[1]); auto p = cast<ICmpInst>(ci.I)->getPredicate();
    if (a.t == Val::A) setDest(s, ci, vecMap2(a, b, [p](const Val &x, const Val &y) { return icmpVal(p, x, y); }));
    else setDest(s, ci, icmpVal(p, a, b));
    f.pc++; return;
  }
  case Instruction::FCmp: setDest(s, ci, fcmpVal(cast<FCmpInst>(ci.I)->getPredicate(), opv(s, ci.ops[0]), opv(s, ci.ops[1]))); f.pc++; return;
  case Instruction::FNeg: { E x = toE(opv(s, ci.ops[0])); unsigned w = x->w; if (w > 64) { x = mkExtract(x, 0, 64); setDest(s, ci, VE(mkZExt(mkConcat(mkNot(mkExtract(x, 63, 1)), mkExtract(x, 0, 63)), w))); f.pc++; return; } setDest(s, ci, VE(mkConcat(mkNot(mkExtract(x, w - 1, 1)), mkExtract(x, 0, w - 1)))); f.pc++; return; }
  case Instruction::ExtractValue: { Val v = opv(s, ci.ops[0]); for (unsigned i : cast<ExtractValueInst>(ci.I)->indices()) v = (*v.a)[i]; setDest(s, ci, v); f.pc++; return; }
  case Instruction::InsertValue: {
    Val v = opv(s, ci.ops[0]), x = opv(s, ci.ops[1]); auto idx = cast<InsertValueInst>(ci.I)->getIndices();
    std::function<Val(const Val &, unsigned)> ins = [&](const Val &b, unsigned d) -> Val { Agg *r = new Agg(*b.a); (*r)[idx[d]] = d + 1 == idx.size() ? x : ins((*r)[idx[d]], d + 1); return VA(r); };
    setDest(s, ci, ins(v, 0)); f.pc++; return;
  }
  case Instruction::ExtractElement: { Val v = opv(s, ci.ops[0]); uint64_t i = concretize(s, opv(s, ci.ops[1])); setDest(s, ci, (*v.a)[i]); f.pc++; return; }
  case Instruction::InsertElement: { Val v = opv(s, ci.ops[0]), x = opv(s, ci.ops[1]); uint64_t i = concretize(s, opv(s, ci.ops[2])); Agg *r = new Agg(*v.a); (*r)[i] = x; setDest(s, ci, VA(r)); f.pc++; return; }
  case Instruction::ShuffleVector: { Val a = opv(s, ci.ops[0]), b = opv(s, ci.ops[1]); Agg *r = new Agg; int n = a.a->size(); for (int m : cast<ShuffleVectorInst>(ci.I)->getShuffleMask()) r->push_back(m < 0 ? (*a.a)[0] : m < n ? (*a.a)[m] : (*b.a)[m - n]); setDest(s, ci, VA(r)); f.pc++; return; }
  case Instruction::Freeze: setDest(s, ci, opv(s, ci.ops[0])); f.pc++; return;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val a = opv(s, ci.ops[0]), b = opv(s, ci.ops[1]);
    E z = mkEq(toE(b), mkConst(0, b.w));
    if (!isFalse(z)) { bool t = decide(s, z); if (t) violEnd(s, "division-by-zero", "division by zero"); }
    setDest(s, ci, binVal(ci.op, a, b)); f.pc++; return;
  }
  default: break;
  }
  if (Instruction::isBinaryOp(ci.op)) { setDest(s, ci, binVal(ci.op, opv(s, ci.ops[0]), opv(s, ci.ops[1]))); f.pc++; return; }
  if (Instruction::isCast(ci.op)) { setDest(s, ci, castVal(ci.op, opv(s, ci.ops[0]), ci.I->getType())); f.pc++; return; }
  problemEnd(std::string("unsupported instruction ") + ci.I->getOpcodeName());
}

static void runPath(State *s) {
  cs = s;
  uint64_t tick = 0;
  try {
    for (;;) {
      try { step(*s); } catch (Retry &) {}
      if ((++tick & 0x3fff) == 0 && elapsed() > maxTime) { problem("time limit reached"); break; }
    }
  } catch (PathEnd &) {}
  delete s;
}

static void callInit(State *s0, const Function *F) {
  // run a static constructor to completion on the single initial state
  pushFrame(*s0, 0, fns[fnIdx.at(F)], {});
  size_t base = s0->th[0].frames.size();
  while (s0->th[0].frames.size() >= base) {
    Thread &t = s0->th[0];
    Frame &f = t.frames.back();
    if (t.frames.size() == base && f.fn->blocks[f.bb].insts[f.pc].op == Instruction::Ret) { popFrame(*s0); break; }
    step(*s0);
    if (!work.empty()) { problem("fork in static constructor"); break; }
  }
}

int main(int argc, char **argv) {
  std::string file, entry, out;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&](const char *k) -> const char * { size_t n = strlen(k); return a.compare(0, n, k) == 0 ? a.c_str() + n : nullptr; };
    if (auto *v = val("--entry=")) entry = v; else if (auto *v = val("--out=")) out = v; else if (auto *v = val("--max-time=")) maxTime = atof(v);
    else if (auto *v = val("--max-steps=")) maxSteps = atoll(v); else if (auto *v = val("--delays=")) { maxPreempt = atoi(v); delayBound = true; } else if (a == "--quiet-loads") quietLoads = true; else if (auto *v = val("--max-viol=")) maxViol = atoll(v); else if (auto *v = val("--preempt=")) maxPreempt = atoi(v);
    else if (auto *v = val("--query-timeout=")) g_queryTimeoutMs = atoi(v); else if (auto *v = val("--param=")) { std::string q = v; size_t e = q.find('='); params[q.substr(0, e)] = strtoull(q.c_str() + e + 1, nullptr, 0); } else if (auto *v = val("--samples=")) maxSamples = atoi(v); else if (auto *v = val("--seed=")) rngState += 0x9E3779B97F4A7C15ULL * (1 + strtoull(v, nullptr, 0)); else if (a == "--no-races") detectRaces = false; else if (a == "--no-uninit") checkUninit = false;
    else file = a;
  }
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 1ULL << 30; setrlimit(RLIMIT_STACK, &rl);
  T0 = std::chrono::steady_clock::now();
  LLVMContext C; SMDiagnostic err;
  std::unique_ptr<Module> mod = parseIRFile(file, err, C);
  if (!mod) { err.print("symex", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  UNINIT = mkVar("<uninit sentinel>", 8, true);
  for (auto &f : *M) { CFn *c = new CFn; c->F = &f; c->name = f.getName().str(); c->index = fns.size(); fnIdx[&f] = c->index; fnByName[c->name] = c->index; fns.push_back(c); }
  registerExt();
  State *s0 = new State; s0->th.emplace_back(); s0->th[0].vc = {1}; s0->model = std::make_shared<Model>();
  cs = s0;
  try {
    for (auto &g : M->globals()) {
      if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used" || g.getName() == "llvm.global_dtors") continue;
      uint64_t n = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 64;
      if (g.isDeclaration() && n < 64) n = 64;
      Obj *o = newObj(*s0, R_GLOBAL, n, AK_Global, false);
      gaddr[&g] = o->base;
    }
    for (auto &g : M->globals()) if (g.hasInitializer() && gaddr.count(&g)) initMem(*s0, gaddr[&g], g.getInitializer());
    for (auto &g : M->globals()) if (g.isConstant() && gaddr.count(&g)) objW(*s0, gaddr[&g])->ro = true;
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, const Function *>> cs_;
      for (auto &o : ca->operands()) { auto *st = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) cs_.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(cs_.begin(), cs_.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &p : cs_) callInit(s0, p.second);
    }
  } catch (PathEnd &) { problem("static initialisation failed"); } catch (Retry &) { problem("static initialisation blocked"); }
  uint64_t initInstr = nInstr;
  if (problems.empty() && viols.empty()) {
    auto it = fnByName.find(entry);
    if (it == fnByName.end()) problem("entry " + entry + " not found");
    else {
      for (auto *f : fns) f->execCount = 0;
      s0->steps = 0;
      try { pushFrame(*s0, 0, fns[it->second], {}); work.push_back(s0); } catch (PathEnd &) {}
      while (!work.empty()) {
        State *s = work.back(); work.pop_back();
        runPath(s);
        if (elapsed() > maxTime) { problem("time limit reached with " + std::to_string(work.size()) + " states pending"); break; }
        if (viols.size() >= maxViol) { problem("violation limit reached"); break; }
      }
    }
  }
  // ---------------------------------------------------------------- report
  std::string r = "{\n";
  auto kv = [&](const char *k, uint64_t v) { r += std::string("\"") + k + "\": " + std::to_string(v) + ",\n"; };
  r += "\"entry\": \"" + jesc(entry) + "\",\n";
  kv("paths", nPaths); kv("paths_error", nPathsErr); kv("paths_assumed_away", nPathsAssumed); kv("forks", nForks); kv("instructions", nInstr - initInstr); kv("asserts_checked", nAsserts); kv("memory_checks", nMemChecks);
  kv("queries", g_ss.queries); kv("sat", g_ss.sat); kv("unsat", g_ss.unsat); kv("unknown", g_ss.unknown); kv("query_cache_hits", g_ss.cacheHits); kv("model_hits", g_ss.modelHits); kv("lia", g_ss.lia); kv("expressions", exprCount());
  char b[64]; snprintf(b, 64, "%.3f", g_ss.time); r += std::string("\"solver_time\": ") + b + ",\n"; snprintf(b, 64, "%.3f", g_ss.maxTime); r += std::string("\"max_query_time\": ") + b + ",\n";
  snprintf(b, 64, "%.3f", elapsed()); r += std::string("\"wall\": ") + b + ",\n";
  r += "\"problems\": ["; for (size_t i = 0; i < problems.size(); i++) r += (i ? ", " : "") + std::string("\"") + jesc(problems[i]) + "\""; r += "],\n";
  r += "\"covers\": {"; { bool f = true; for (auto &p : covers) { r += (f ? "" : ", ") + std::string("\"") + jesc(p.first) + "\": " + std::to_string(p.second); f = false; } } r += "},\n";
  r += "\"asserts\": {"; { bool f = true; for (auto &p : assertsChecked) { r += (f ? "" : ", ") + std::string("\"") + jesc(p.first) + "\": " + std::to_string(p.second); f = false; } } r += "},\n";
  r += "\"functions\": ["; {
    std::set<std::string> names;
    for (auto *c : fns) if (c->execCount && c->F) for (auto &bb : *c->F) for (auto &I : bb)
      for (const DILocation *l = I.getDebugLoc().get(); l; l = l->getInlinedAt()) if (auto *sp = l->getScope()->getSubprogram()) {
        std::string f = sp->getFilename().str(); size_t at = f.find("/repo/"); if (at == std::string::npos) continue;
        names.insert(f.substr(at + 6) + ":" + sp->getName().str()); }
    bool f = true; for (auto &n : names) { r += (f ? "" : ", ") + std::string("\"") + jesc(n) + "\""; f = false; } } r += "],\n";
  r += "\"externals\": ["; { bool f = true; for (auto &c : extCalled) { r += (f ? "" : ", ") + std::string("\"") + jesc(c) + "\""; f = false; } } r += "],\n";
  r += "\"path_samples\": [";
  for (size_t i = 0; i < samples.size(); i++) {
    r += (i ? ",\n" : "\n") + std::string("{\"inputs\": [");
    for (size_t k = 0; k < samples[i].inputs.size(); k++) r += (k ? ", " : "") + std::string("[\"") + jesc(samples[i].inputs[k].first) + "\", \"" + samples[i].inputs[k].second + "\"]";
    r += "], \"trace\": ["; for (size_t k = 0; k < samples[i].trace.size(); k++) r += (k ? ", " : "") + std::string("\"") + jesc(coverNames[samples[i].trace[k]]) + "\""; r += std::string("], \"threads\": ") + (samples[i].threads ? "true" : "false") + "}";
  }
  r += "],\n";
  r += "\"violations\": [";
  for (size_t i = 0; i < viols.size(); i++) {
    auto &v = viols[i];
    r += (i ? ",\n" : "\n") + std::string("{\"kind\": \"") + jesc(v.kind) + "\", \"msg\": \"" + jesc(v.msg) + "\", \"where\": \"" + jesc(v.where) + "\", \"stack\": \"" + jesc(v.stack) + "\", \"sig\": \"" + jesc(v.sig) + "\", \"inputs\": [";
    for (size_t k = 0; k < v.inputs.size(); k++) r += (k ? ", " : "") + std::string("[\"") + jesc(v.inputs[k].first) + "\", \"" + v.inputs[k].second + "\"]";
    r += "], \"schedule\": ["; for (size_t k = 0; k < v.sched.size(); k++) r += (k ? "," : "") + std::to_string(v.sched[k]); r += "]}";
  }
  r += "]\n}\n";
  if (out.empty()) fputs(r.c_str(), stdout); else { std::ofstream o(out); o << r; }
  fflush(stdout);
  _exit(viols.empty() ? (problems.empty() ? 0 : 2) : 1);
}
