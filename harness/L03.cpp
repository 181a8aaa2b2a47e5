// Condition variables: no wake-up is lost, waits give the mutex up and take it back, timed waits have the right deadline.
//@ src src/PThread.cpp
//@ symsrc verif:rt/pthread_model.cpp verif:rt/tss_model.cpp
//@ define SYMX_FORMAT=1 pthread_mutexattr_setkind_np=pthread_mutexattr_settype clock_gettime=sx_clock_gettime pthread_cond_timedwait=sx_cond_timedwait
//@ nativesrc src/StringUtil.cpp src/SimpleMutex.cpp
//@ nativeflags -DSYS_POSIX=1 -lboost_thread
//@ assume pthread condition variables behave as POSIX says, waiters woken in order and without spurious wake-ups (rt/pthread_model.cpp); clock_gettime and pthread_cond_timedwait are stand-ins that return symbolic values and record their arguments
//@ bound timed waits from any clock value (seconds up to 2^40, all nanoseconds) for any whole number of seconds below 2^31 plus every fraction of BITS bits (quick 8, thorough 11) and the doubles next to a whole second; two consumers and one producer, or one and one, all interleavings with up to 5 preemptions
//@ entry c_deadline quick="BITS=8" thorough="BITS=11" reach=end
//@ entry c_edges reach=end
//@ entry c_result reach=end,refused
//@ entry c_handoff opts="--preempt 6" reach=end
//@ entry c_broadcast opts="--preempt 5" reach=end
#include "symx.h"
#include <Lintel/PThread.hpp>
static struct timespec g_now, g_dead; static int g_rc; static unsigned g_calls; static PThreadMutex *g_m; static PThreadCond *g_c;
extern "C" int sx_clock_gettime(clockid_t c, struct timespec *t) throw() { CHECK(c == CLOCK_REALTIME, "condition variables wait on the real time clock"); *t = g_now; return 0; }
extern "C" int sx_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { g_dead = *t; g_calls++; CHECK(g_m->isLocked(), "the mutex is held when the wait starts"); pthread_mutex_unlock(m); CHECK(!g_m->isLocked(), "the wait releases the mutex it was given"); pthread_mutex_lock(m); return g_rc; }
static void begin() { g_m = new PThreadMutex; g_c = new PThreadCond; g_calls = 0; }
static void now() { g_now.tv_sec = (time_t)(symx_val(40, "sec")); g_now.tv_nsec = symx_val(30, "nsec"); symx_assume(g_now.tv_nsec < 1000000000); }
static void deadline(uint64_t whole, uint64_t ns) { // ns may be a full second
    CHECK(g_calls == 1, "one wait"); CHECK((g_dead.tv_nsec >= 0) & (g_dead.tv_nsec < 1000000000), "the deadline is a valid time"); uint64_t n = (uint64_t)g_now.tv_nsec + ns; bool carry = n >= 1000000000; CHECK((uint64_t)g_dead.tv_sec == (uint64_t)g_now.tv_sec + whole + carry, "seconds of the deadline"); CHECK((uint64_t)g_dead.tv_nsec == n - (carry ? 1000000000 : 0), "nanoseconds of the deadline");
}
ENTRY(c_deadline) {
    begin(); now(); unsigned B = symx_param("BITS", 8); uint32_t whole = symx_choice(2, "big") ? symx_val(31, "whole") : symx_choice(3, "whole"); uint64_t f = symx_val(B, "frac"); double s = (double)whole + (double)(uint32_t)f / (double)(1u << B); g_rc = ETIMEDOUT;
    PThreadScopedLock l(*g_m); CHECK(g_c->timedWait(*g_m, s), "timed out"); uint64_t ns = (f * 1000000000ull + (1u << (B - 1))) >> B; deadline(whole, ns); symx_reach("end");
}
ENTRY(c_edges) { // the doubles around whole seconds and half nanoseconds
    static const struct { double s; uint64_t whole, ns; } k[] = {{0.0, 0, 0}, {1.0, 1, 0}, {0.9999999999, 0, 1000000000}, {0.99999999951, 0, 1000000000}, {0.9999999994, 0, 999999999}, {1.9999999996, 1, 1000000000}, {4e-10, 0, 0}, {6e-10, 0, 1}, {3.000000001, 3, 1}, {1e9, 1000000000, 0}, {0.5, 0, 500000000}};
    begin(); now(); unsigned i = symx_choice(sizeof k / sizeof *k, "case"); g_rc = ETIMEDOUT; g_m->lock(); g_c->timedWait(*g_m, k[i].s); deadline(k[i].whole, k[i].ns); g_m->unlock(); symx_reach("end");
}
ENTRY(c_result) { // true exactly on time-out; other errors are refused, as are negative waits
    begin(); now(); unsigned how = symx_choice(4, "how"); g_rc = how == 0 ? 0 : how == 1 ? ETIMEDOUT : how == 2 ? EINVAL : EPERM; bool abs = symx_choice(2, "abs"); g_m->lock(); if (how >= 2) { symx_reach("refused"); symx_allow_abort(1); } bool r;
    if (!abs && how == 1 && symx_choice(2, "negative")) { symx_allow_abort(1); g_c->timedWait(*g_m, -1.0); symx_allow_abort(0); symx_fail("a negative wait is refused"); }
    if (abs) { struct timespec t = {(time_t)symx_val(40, "asec"), (long)symx_val(30, "ansec")}; r = g_c->timedWaitAbs(*g_m, t); CHECK(g_dead.tv_sec == t.tv_sec && g_dead.tv_nsec == t.tv_nsec, "the given deadline is used"); } else r = g_c->timedWait(*g_m, 2.5);
    symx_allow_abort(0); CHECK(how < 2, "errors are refused"); CHECK(r == (how == 1), "true exactly on time-out"); CHECK(g_m->isLocked(), "the mutex is held after the wait"); g_m->unlock(); symx_reach("end");
}
// hand-off between threads: every item sent is received once, nobody is left waiting
static int g_full, g_item, g_got, g_recv; static PThreadCond *g_c2;
static void consumer(void *p) { for (long i = (long)p; i > 0; i--) { PThreadScopedLock l(*g_m); while (!g_full) g_c->wait(*g_m); g_got += g_item; g_recv++; g_full = 0; g_c2->signal(); } }
ENTRY(c_handoff) {
    begin(); g_c2 = new PThreadCond; g_full = g_got = g_recv = 0; long n = 2; int id = symx_spawn(consumer, (void *)n); int sum = 0; for (long i = 0; i < n; i++) { int x = sym<uint8_t>("item"); sum += x; PThreadScopedLock l(*g_m); while (g_full) g_c2->wait(*g_m); g_item = x; g_full = 1; g_c->signal(); }
    symx_join(id); CHECK(g_recv == n && g_got == sum, "every item is received once"); CHECK(!g_m->isLocked(), "released"); delete g_c; delete g_c2; delete g_m; symx_reach("end");
}
static int g_open, g_passed; static void gate(void *) { PThreadScopedLock l(*g_m); while (!g_open) g_c->wait(*g_m); g_passed++; }
ENTRY(c_broadcast) { begin(); g_open = g_passed = 0; int a = symx_spawn(gate, 0), b = symx_spawn(gate, 0); { PThreadScopedLock l(*g_m); g_open = 1; if (symx_choice(2, "inside")) g_c->broadcast(); else { PThreadScopedUnlock u(l); g_c->broadcast(); } } symx_join(a); symx_join(b); CHECK(g_passed == 2, "a broadcast wakes every waiter"); symx_reach("end"); }
