// Native side of the harness interface: feeds recorded inputs to the real code.
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <vector>
#include <string>
#include <unistd.h>
#include <pthread.h>
#include <malloc.h>
typedef void (*Fn)();
static std::map<std::string, Fn> &reg() { static std::map<std::string, Fn> r; return r; }
struct In { int kind; std::string name; int w; unsigned long long v; };
static std::vector<In> ins; static size_t pos; static std::map<std::string, long> params; static int allowAbort; static volatile int64_t live; static int failNth = -1; static long allocN; static bool exhausted;
static volatile bool counting;
extern "C" {
void symx_register(const char *n, void (*f)()) { reg()[n] = f; }
static void finish(const char *how, int rc) { fflush(stdout); char b[300]; int n = snprintf(b, sizeof b, "SYMX-END %s\n", how); (void)!write(1, b, n); _exit(rc); }
static In *next(int kind, const char *name) {
  if (pos >= ins.size()) { exhausted = true; return nullptr; }
  In *i = &ins[pos++]; if (i->kind != kind || i->name != name) { printf("SYMX-DIVERGED wanted %s got %s\n", name, i->name.c_str()); finish("diverged", 79); } return i;
}
uint64_t symx_val(unsigned w, const char *name) { In *i = next(0, name); uint64_t v = i ? i->v : 0; return w >= 64 ? v : v & ((1ULL << w) - 1); }
void symx_make(void *p, size_t n, const char *name) { for (size_t k = 0; k < n; k++) ((unsigned char *)p)[k] = (unsigned char)symx_val(8, name); }
unsigned symx_choice(unsigned n, const char *name) { In *i = next(1, name); unsigned v = i ? (unsigned)i->v : 0; if (v >= n) finish("diverged", 79); return v; }
void symx_assume(bool c) { if (!c) finish("assume", 78); }
void symx_assert(bool c, const char *m) { if (!c) { printf("SYMX-ASSERT %s\n", m); finish("assert", 77); } }
void symx_fail(const char *m) { printf("SYMX-ASSERT %s\n", m); finish("assert", 77); abort(); }
void symx_reach(const char *) {}
void symx_trace(uint64_t v) { printf("T %llu\n", (unsigned long long)v); }
static void onAbort(int) { if (allowAbort) finish("abort-allowed", 0); finish("abort", 80); }
void symx_allow_abort(int on) { allowAbort = on; }
long symx_param(const char *n, long d) { auto i = params.find(n); return i == params.end() ? d : i->second; }
uint64_t symx_concretize(uint64_t v) { return v; }
int64_t symx_live(void) { return live; }
int symx_symbolic(void) { return 0; }
void symx_end(void) { finish("done", 0); abort(); }
void symx_alloc_fail(int n) { failNth = n; allocN = 0; }
uint64_t symx_objsize(const void *p) { return malloc_usable_size((void *)p); }
int symx_readable(const void *, size_t) { return 1; }
// threads: run for real
struct Th { pthread_t t; void (*fn)(void *); void *arg; volatile int done; }; static Th ths[64]; static int nth = 1; static __thread int mytid;
static void *tmain(void *p) { Th *t = (Th *)p; mytid = t - ths; t->fn(t->arg); t->done = 1; return nullptr; }
int symx_spawn(void (*fn)(void *), void *arg) { int id = nth++; ths[id].fn = fn; ths[id].arg = arg; ths[id].done = 0; pthread_create(&ths[id].t, nullptr, tmain, &ths[id]); return id; }
void symx_join(int id) { pthread_join(ths[id].t, nullptr); }
void symx_yield(void) { sched_yield(); }
void symx_block_while(volatile uint32_t *p, uint32_t v) { while (*p == v) sched_yield(); }
void symx_watch(const volatile void *) {}
void symx_atomic(int) {}
int symx_tid(void) { return mytid; }
int symx_thread_done(int id) { return ths[id].done; }
void symx_thread_exit(void) { ths[mytid].done = 1; pthread_exit(nullptr); }
}
#ifdef SYMX_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void hm(const volatile void *, size_t) { __sync_fetch_and_add(&live, 1); }
static void hf(const volatile void *p) { if (p) __sync_fetch_and_sub(&live, 1); }
#else
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t);
static int fillByte = -1;
void *malloc(size_t n) { if (failNth >= 0 && allocN++ == failNth) return nullptr; void *p = __libc_malloc(n); if (p) { __sync_fetch_and_add(&live, 1); if (fillByte >= 0) memset(p, fillByte, n); } return p; }
void free(void *p) { if (p) __sync_fetch_and_sub(&live, 1); __libc_free(p); }
void *calloc(size_t a, size_t b) { void *p = __libc_calloc(a, b); if (p) __sync_fetch_and_add(&live, 1); return p; }
void *realloc(void *p, size_t n) { void *q = __libc_realloc(p, n); if (q && !p) __sync_fetch_and_add(&live, 1); return q; }
}
#endif
static void noCrash(int s) { char b[64]; int n = snprintf(b, sizeof b, "SYMX-SIGNAL %d\n", s); (void)!write(1, b, n); _exit(81); }
int main(int argc, char **argv) {
  const char *f = argc > 1 ? argv[1] : getenv("SYMX_INPUT"); std::string entry;
  FILE *fp = fopen(f, "r"); if (!fp) return 3; char line[4096];
  bool inI = false;
  while (fgets(line, sizeof line, fp)) {
    line[strcspn(line, "\n")] = 0;
    if (!strncmp(line, "entry ", 6)) entry = line + 6;
    else if (!strcmp(line, "inputs")) inI = true;
    else if (!strcmp(line, "end")) inI = false;
    else if (inI) { char k[16], nm[200]; int w; unsigned long long v; if (sscanf(line, "%15s %199s %d %llu", k, nm, &w, &v) == 4) ins.push_back(In{!strcmp(k, "choice"), nm, w, v}); }
  }
  fclose(fp);
  for (int i = 2; i < argc; i++) { std::string a = argv[i]; size_t e = a.find('='); if (e != std::string::npos) params[a.substr(0, e)] = atol(a.c_str() + e + 1); }
  signal(SIGABRT, onAbort);
#ifndef SYMX_ASAN
  signal(SIGSEGV, noCrash); signal(SIGBUS, noCrash); signal(SIGFPE, noCrash); signal(SIGILL, noCrash);
  if (getenv("SYMX_FILL")) fillByte = atoi(getenv("SYMX_FILL"));
#else
  signal(SIGFPE, noCrash);
  __sanitizer_install_malloc_and_free_hooks(hm, hf);
#endif
  auto it = reg().find(entry); if (it == reg().end()) { printf("no entry %s\n", entry.c_str()); return 3; }
  static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  it->second();
  finish(exhausted ? "done-exhausted" : "done", 0);
}
