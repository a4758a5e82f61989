// Native replayer: the harness interface over a file of concrete inputs.
#include "vt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <thread>
#include <mutex>
#include <unordered_map>
#include <atomic>
#include <condition_variable>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/stat.h>

struct In { std::string name, bytes; };
static std::vector<In> ins; static size_t pos;
static int failures;
static FILE *tr;
static void fin() { if (tr) fflush(tr); fflush(stderr); }
static const std::string &next(const char *name, size_t n) {
  static std::string zero;
  if (pos >= ins.size()) { zero.assign(n, 0); return zero; }
  In &i = ins[pos++];
  if (i.name != name) { fprintf(stderr, "VT-DESYNC expected input %s, harness asked for %s\n", i.name.c_str(), name); fin(); _exit(9); }
  i.bytes.resize(n); return i.bytes;
}
extern "C" {
void vt_make_symbolic(void *p, size_t n, const char *name) { const std::string &b = next(name, n); if (n) memcpy(p, b.data(), n); }
uint64_t vt_choice(uint64_t n, const char *name) { const std::string &b = next(name, 8); uint64_t v; memcpy(&v, b.data(), 8); if (v >= n) v = 0; return v; }
uint64_t vt_param(const char *n, uint64_t d) { const char *e = getenv((std::string("VTP_") + n).c_str()); return e ? strtoull(e, nullptr, 0) : d; }
uint64_t vt_concretize(uint64_t v) { return v; }
int vt_is_symbolic(uint64_t) { return 0; }
int vt_engine(void) { return 0; }
void vt_assume(int c) { if (!c) { fprintf(stderr, "VT-ASSUME-FALSE\n"); if (tr) fprintf(tr, "assume-false\n"); fin(); _exit(8); } }
void vt_assert_(int c, const char *m) { if (tr) fprintf(tr, "assert %s %d\n", m, c); if (!c) { fprintf(stderr, "VT-FAIL %s\n", m); failures++; if (!getenv("VT_CONTINUE")) { fin(); _exit(1); } } }
void vt_fail(const char *m) { fprintf(stderr, "VT-FAIL %s\n", m); if (tr) fprintf(tr, "fail %s\n", m); fin(); _exit(1); }
void vt_cover(const char *l) { if (tr) fprintf(tr, "cover %s\n", l); }
void vt_end(void) { fprintf(stderr, "VT-END\n"); fin(); _exit(failures ? 1 : 0); }
void vt_log(const char *s, long v) { if (getenv("SX_LOG")) fprintf(stderr, "LOG %s %ld\n", s, v); }
int vt_readable(const void *, size_t) { return 1; }
void vt_yield(void) { std::this_thread::yield(); }
void vt_block_yield(void) { usleep(100); }
void vt_poll_wait(void) { usleep(100); }
void vt_progress(void) {}
void vt_atomic(int) {}
}
// live heap objects since the mark
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static std::atomic<bool> marking{false};
static const int CAP = 1 << 16; static const void *livep[CAP]; static size_t livesz[CAP]; static std::mutex lm;
static void onMalloc(const volatile void *p, size_t n) { if (!marking || !p) return; std::lock_guard<std::mutex> g(lm); for (int i = 0; i < CAP; i++) if (!livep[i]) { livep[i] = (const void *)p; livesz[i] = n; return; } }
static void onFree(const volatile void *p) { if (!marking || !p) return; std::lock_guard<std::mutex> g(lm); for (int i = 0; i < CAP; i++) if (livep[i] == p) { livep[i] = nullptr; return; } }
extern "C" {
void vt_leak_mark(void) { static bool once = (__sanitizer_install_malloc_and_free_hooks(onMalloc, onFree), true); (void)once; memset(livep, 0, sizeof livep); marking = true; }
size_t vt_leak_count(void) { size_t n = 0; for (int i = 0; i < CAP; i++) if (livep[i]) n++; return n; }
void vt_check_leaks(void) { size_t n = vt_leak_count(); marking = false; if (n) { fprintf(stderr, "VT-FAIL leak: %zu heap objects never freed\n", n); fin(); _exit(1); } }
}
#else
extern "C" { void vt_leak_mark(void) {} size_t vt_leak_count(void) { return 0; } void vt_check_leaks(void) {} }
#endif
// threads
static std::vector<std::thread *> ths; static std::mutex tm_; static thread_local int tid_ = 0;
extern "C" {
int vt_thread_id(void) { return tid_; }
int vt_thread_create(void *(*f)(void *), void *a) { std::lock_guard<std::mutex> g(tm_); int id = (int)ths.size() + 1; ths.push_back(new std::thread([=] { tid_ = id; f(a); })); return id; }
void vt_thread_join(int t) { std::thread *x; { std::lock_guard<std::mutex> g(tm_); x = ths[t - 1]; } x->join(); delete x; }
void *vt_memset_seed = nullptr;
}
namespace vt_model {
// files named by harnesses are written below the current (scratch) directory
void file_set(const std::string &n, const std::string &c) { std::ofstream o(n); o << c; }
void env_set(const std::string &n, const std::string &c) { setenv(n.c_str(), c.c_str(), 1); }
}
int main(int argc, char **argv) {
  if (argc < 3) return 9;
  if (getenv("VT_TRACE")) tr = fopen(getenv("VT_TRACE"), "w");
  std::ifstream f(argv[1]); std::string line;
  while (std::getline(f, line)) {
    size_t t = line.find('\t'); if (t == std::string::npos) continue;
    In i; i.name = line.substr(0, t); std::string h = line.substr(t + 1);
    for (size_t k = 0; k + 1 < h.size(); k += 2) i.bytes.push_back((char)strtol(h.substr(k, 2).c_str(), nullptr, 16));
    ins.push_back(i);
  }
  void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
  if (!e) { fprintf(stderr, "no entry %s\n", argv[2]); return 9; }
  try { e(); } catch (std::exception &x) { fprintf(stderr, "VT-FAIL uncaught exception: %s\n", x.what()); fin(); _exit(1); }
  fprintf(stderr, failures ? "VT-DONE with failures\n" : "VT-OK\n"); fin();
  _exit(failures ? 1 : 0);
}
