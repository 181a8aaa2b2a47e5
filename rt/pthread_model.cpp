// Symbolic side only: POSIX threads primitives over the engine's scheduler, laid out as glibc does
// (first word of a mutex is its lock word), with the error returns POSIX specifies for the cases the code can meet.
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <signal.h>
#include <string.h>
#include "symx.h"
extern "C" {
int symx_model_timeout = 1; // what a timed wait that cannot proceed does: 1 times out, 0 waits
struct Atom { Atom() { symx_atomic(1); } ~Atom() { symx_atomic(0); } }; // the body of a primitive is one step, except where it waits
static unsigned self() { return (unsigned)symx_tid() + 1; }
int pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t *a, int k) { if (k < 0 || k > 3) return EINVAL; *(int *)a = k; return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); m->__data.__kind = a ? *(const int *)a : 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (m->__data.__lock) return EBUSY; m->__data.__kind = -1; return 0; }
static int take(pthread_mutex_t *m) { m->__data.__lock = 1; m->__data.__owner = self(); m->__data.__nusers = 1; return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { symx_yield(); Atom at_; if (m->__data.__kind < 0) return EINVAL; if (m->__data.__lock) return EBUSY; return take(m); }
int pthread_mutex_lock(pthread_mutex_t *m) {
    symx_yield(); Atom at_; if (m->__data.__kind < 0) return EINVAL;
    while (m->__data.__lock) { if (m->__data.__kind == PTHREAD_MUTEX_ERRORCHECK && m->__data.__owner == (int)self()) return EDEADLK; symx_block_while((volatile uint32_t *)&m->__data.__lock, 1); }
    return take(m);
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) {
    symx_yield(); Atom at_; if (!m->__data.__lock) return take(m); if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) return EINVAL; if (m->__data.__kind == PTHREAD_MUTEX_ERRORCHECK && m->__data.__owner == (int)self()) return EDEADLK; if (symx_model_timeout) return ETIMEDOUT;
    while (m->__data.__lock) symx_block_while((volatile uint32_t *)&m->__data.__lock, 1);
    return take(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) { { Atom at_; if (m->__data.__kind == PTHREAD_MUTEX_ERRORCHECK && (!m->__data.__lock || m->__data.__owner != (int)self())) return EPERM; m->__data.__lock = 0; m->__data.__owner = 0; m->__data.__nusers = 0; } symx_yield(); return 0; }
// condition variables: waiters are woken in the order they came
struct CV { uint32_t head, tail; uint32_t woken[8]; };
static struct CVs { const void *c; CV v; } cvs[4];
static CV *cv(pthread_cond_t *c) { for (auto &x : cvs) if (x.c == c) return &x.v; for (auto &x : cvs) if (!x.c) { x.c = c; return &x.v; } symx_fail("model: too many condition variables"); }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); CV *v = cv(c); memset(v, 0, sizeof *v); return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { for (auto &x : cvs) if (x.c == c) x.c = 0; return 0; }
int pthread_cond_signal(pthread_cond_t *c) { symx_yield(); Atom at_; CV *v = cv(c); if (v->head < v->tail) v->woken[v->head++] = 1; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { symx_yield(); Atom at_; CV *v = cv(c); while (v->head < v->tail) v->woken[v->head++] = 1; return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    Atom at_; CV *v = cv(c); if (v->tail >= 8) symx_fail("model: too many waits"); uint32_t me = v->tail++; v->woken[me] = 0; m->__data.__lock = 0; m->__data.__owner = 0;
    while (!v->woken[me]) symx_block_while(&v->woken[me], 0);
    while (m->__data.__lock) symx_block_while((volatile uint32_t *)&m->__data.__lock, 1);
    return take(m);
}
// read-write and spin locks
static uint32_t *rw(void *p) { return (uint32_t *)p; } // [0] readers, [1] writer
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { symx_yield(); Atom at_; uint32_t *w = rw(l); while (w[1]) symx_block_while(&w[1], 1); w[0]++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { symx_yield(); Atom at_; uint32_t *w = rw(l); while (w[0] || w[1]) { if (w[1]) symx_block_while(&w[1], 1); else symx_block_while(&w[0], w[0]); } w[1] = 1; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { { Atom at_; uint32_t *w = rw(l); if (w[1]) w[1] = 0; else w[0]--; } symx_yield(); return 0; }
int pthread_spin_init(pthread_spinlock_t *l, int) { *l = 0; return 0; }
int pthread_spin_lock(pthread_spinlock_t *l) { symx_yield(); Atom at_; while (*l) symx_block_while((volatile uint32_t *)l, 1); *l = 1; return 0; }
int pthread_spin_unlock(pthread_spinlock_t *l) { { Atom at_; *l = 0; } symx_yield(); return 0; }
int sched_yield(void) throw() { symx_yield(); Atom at_; return 0; }
// threads, their attributes and signal masks
struct At { uint64_t magic; int detached; size_t stack, guard; };
static uint64_t masks[16]; static struct { void *(*f)(void *); void *a, *ret; int sid, state; } th[8]; static unsigned nth; // state 1 joinable, 2 detached, 3 joined
static void tmain(void *p) { unsigned i = (unsigned)(uintptr_t)p; th[i].ret = th[i].f(th[i].a); }
int symx_model_create = 0; // error that pthread_create returns
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    if (symx_model_create) return symx_model_create; if (nth >= 8) return EAGAIN; unsigned i = nth++; th[i].f = f; th[i].a = arg; *t = i + 1; th[i].state = a && ((const At *)a)->detached == PTHREAD_CREATE_DETACHED ? 2 : 1;
    th[i].sid = symx_spawn(tmain, (void *)(uintptr_t)i); masks[th[i].sid] = masks[symx_tid()]; symx_yield(); return 0;
}
int pthread_join(pthread_t t, void **r) { if (t < 1 || t > nth) return ESRCH; if (th[t - 1].state != 1) return EINVAL; symx_join(th[t - 1].sid); th[t - 1].state = 3; if (r) *r = th[t - 1].ret; return 0; }
int pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); At *x = (At *)a; x->magic = 77; x->detached = PTHREAD_CREATE_JOINABLE; x->stack = 8u << 20; x->guard = 4096; return 0; }
int pthread_attr_destroy(pthread_attr_t *a) { CHECK(((At *)a)->magic == 77, "model: an initialised attribute is destroyed once"); ((At *)a)->magic = 0; return 0; }
int pthread_attr_setdetachstate(pthread_attr_t *a, int d) { ((At *)a)->detached = d; return 0; }
int pthread_attr_getstacksize(const pthread_attr_t *a, size_t *n) { *n = ((const At *)a)->stack; return 0; }
int pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { if (n < 16384) return EINVAL; ((At *)a)->stack = n; return 0; }
int pthread_attr_getguardsize(const pthread_attr_t *a, size_t *n) { *n = ((const At *)a)->guard; return 0; }
int pthread_attr_setguardsize(pthread_attr_t *a, size_t n) { ((At *)a)->guard = n; return 0; }
static uint64_t &w0(const sigset_t *s) { return *(uint64_t *)s; }
int sigemptyset(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
int sigfillset(sigset_t *s) { memset(s, 0xff, sizeof *s); w0(s) &= ~(3ull << 31); return 0; }
int sigaddset(sigset_t *s, int n) { if (n < 1 || n > 64) return -1; w0(s) |= 1ull << (n - 1); return 0; }
int sigdelset(sigset_t *s, int n) { if (n < 1 || n > 64) return -1; w0(s) &= ~(1ull << (n - 1)); return 0; }
int sigismember(const sigset_t *s, int n) { if (n < 1 || n > 64) return -1; return (w0(s) >> (n - 1)) & 1; }
int pthread_sigmask(int how, const sigset_t *n, sigset_t *o) {
    uint64_t &m = masks[symx_tid()], was = m, never = (1ull << (SIGKILL - 1)) | (1ull << (SIGSTOP - 1));
    if (n) { uint64_t v = w0(n); if (how == SIG_BLOCK) m |= v & ~never; else if (how == SIG_UNBLOCK) m &= ~v; else if (how == SIG_SETMASK) m = v & ~never; else return EINVAL; }
    if (o) { memset(o, 0, sizeof *o); w0(o) = was; } return 0;
}
}
