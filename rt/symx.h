// Harness interface. The same harness source is executed symbolically by the engine
// and compiled natively (native.cpp) to replay counterexamples and validate sampled paths.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
extern "C" {
uint64_t symx_val(unsigned width, const char *name);      // fresh value of 'width' bits
void symx_make(void *p, size_t n, const char *name);      // n fresh bytes
unsigned symx_choice(unsigned n, const char *name);       // 0..n-1, one path each
void symx_assume(bool c);
void symx_assert(bool c, const char *msg);
void symx_reach(const char *label);                       // vacuity witness
void symx_trace(uint64_t v);                              // compared between engine and native run
void symx_allow_abort(int on);                            // a failed INVARIANT / abort from here on is an accepted outcome
long symx_param(const char *name, long dflt);
uint64_t symx_concretize(uint64_t v);
int64_t symx_live(void);                                  // live heap allocations
int symx_symbolic(void);
void symx_end(void) __attribute__((noreturn));
void symx_fail(const char *msg) __attribute__((noreturn));
void symx_alloc_fail(int nth);                            // the nth allocation from now fails (-1: none)
uint64_t symx_objsize(const void *p);
int symx_readable(const void *p, size_t n);
int symx_spawn(void (*fn)(void *), void *arg);
void symx_join(int tid);
void symx_yield(void);
void symx_block_while(volatile uint32_t *p, uint32_t v);
void symx_watch(const volatile void *p);           // with --all-mem: only plain accesses to watched objects are scheduling points
void symx_atomic(int on);                          // models only: no scheduling point while on
int symx_tid(void);
int symx_thread_done(int tid);
void symx_thread_exit(void) __attribute__((noreturn));
void symx_register(const char *name, void (*fn)(void));
}
#ifdef SYMX_NATIVE
#define ENTRY(n) extern "C" void n(void); static struct Reg_##n { Reg_##n() { symx_register(#n, n); } } reg_##n; extern "C" void n(void)
#else
#define ENTRY(n) extern "C" void n(void)
#endif
#define CHECK(c, m) symx_assert((c), m)
template <class T> inline T sym(const char *n) { return (T)symx_val(sizeof(T) * 8, n); }
template <> inline bool sym<bool>(const char *n) { return symx_val(1, n) != 0; }
template <> inline double sym<double>(const char *n) { uint64_t v = symx_val(64, n); double d; __builtin_memcpy(&d, &v, 8); return d; }
template <> inline float sym<float>(const char *n) { uint32_t v = (uint32_t)symx_val(32, n); float d; __builtin_memcpy(&d, &v, 4); return d; }
inline void traced(double d) { uint64_t v; __builtin_memcpy(&v, &d, 8); symx_trace(v); }
// a string of n symbolic bytes (n concrete)
inline std::string symStr(size_t n, const char *name) { std::string s(n, 'x'); if (n) symx_make(&s[0], n, name); return s; }
// branch-free comparison of equally sized strings' bytes
inline bool eqBytes(const char *a, const char *b, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r = r & (a[i] == b[i]); return r; }
inline bool eqStr(const std::string &a, const std::string &b) { return a.size() == b.size() && eqBytes(a.data(), b.data(), a.size()); }
inline void traceStr(const std::string &s) { symx_trace(s.size()); for (size_t i = 0; i < s.size(); i++) symx_trace((unsigned char)s[i]); }
