// Interface between harnesses and the symbolic engine / the native replayer.
#pragma once
#include <cstddef>
#include <cstdint>
#ifdef __cplusplus
extern "C" {
#endif
void vt_make_symbolic(void *p, size_t n, const char *name);
uint64_t vt_choice(uint64_t n, const char *name);     // forks over 0..n-1
uint64_t vt_concretize(uint64_t v);
uint64_t vt_param(const char *name, uint64_t dflt);       // bound chosen by the driver
int vt_engine(void);                                   // 1 in the symbolic engine, 0 natively
void vt_assume(int c);
void vt_assert_(int c, const char *msg);
void vt_fail(const char *msg);
void vt_cover(const char *label);
void vt_end(void);
int vt_is_symbolic(uint64_t v);
void vt_log(const char *s, long v);
void vt_leak_mark(void);
size_t vt_leak_count(void);
void vt_check_leaks(void);
int vt_readable(const void *p, size_t n);
void vt_yield(void);
void vt_block_yield(void);
void vt_poll_wait(void);
void vt_progress(void);
void vt_atomic(int on);
int vt_thread_id(void);
int vt_thread_create(void *(*f)(void *), void *arg);
void vt_thread_join(int t);
#ifdef __cplusplus
}
template <class T> static inline T vt_sym(const char *name) { T t; vt_make_symbolic(&t, sizeof t, name); return t; }
#endif
#define VT_ASSERT(c, msg) vt_assert_(!!(c), msg)
