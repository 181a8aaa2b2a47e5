// Mutexes: exclusion, truthful try and timed locking, contention count, refused misuse.
//@ src src/PThread.cpp src/SimpleMutex.cpp
//@ symsrc verif:rt/pthread_model.cpp verif:rt/tss_model.cpp
//@ define SYMX_FORMAT=1 pthread_mutexattr_setkind_np=pthread_mutexattr_settype
//@ nativesrc src/StringUtil.cpp
//@ nativeflags -DSYS_POSIX=1 -lboost_thread
//@ assume pthread mutexes behave as POSIX says (rt/pthread_model.cpp)
//@ bound histories of OPS operations (quick 5, thorough 7) on two mutexes by one thread, with and without error checking; two threads with two critical sections each entered by lock, trylock loop or scope, a scheduling point at every pthread call and every access to the protected data, up to 4 preemptions (three threads: 2); symbolic protected values
//@ entry m_history quick="OPS=5" thorough="OPS=7" reach=end
//@ entry m_misuse reach=end
//@ entry m_two opts="--preempt 4 --all-mem" reach=end stress=m_two_stress
//@ entry m_three opts="--preempt 2 --all-mem" reach=end stress=m_three_stress
//@ entry m_contend opts="--preempt 0" reach=end
#include "symx.h"
#include <unistd.h>
#include <stdio.h>
#include <dirent.h>
#include <sys/syscall.h>
#include <Lintel/PThread.hpp>
#include <Lintel/SimpleMutex.hpp>
ENTRY(m_history) {
    bool ec = symx_choice(2, "errorcheck"); PThreadMutex *m[2] = {new PThreadMutex(ec), new PThreadMutex}; bool held[2] = {false, false};
    for (long k = symx_param("OPS", 5); k > 0; k--) {
        unsigned i = symx_choice(2, "mutex"), op = symx_choice(5, "op");
        if (op == 0) break;
        if (op == 1) { if (held[i]) continue; m[i]->lock(); held[i] = true; }
        else if (op == 2) { if (!held[i]) continue; m[i]->unlock(); held[i] = false; }
        else if (op == 3) { bool got = m[i]->trylock(); CHECK(got == !held[i], "trylock tells whether it locked"); held[i] = true; }
        else { if (held[i] && ec && i == 0) continue; struct timespec past = {1, 0}; bool got = m[i]->timedLock(past); CHECK(got == !held[i], "timedLock tells whether it locked"); held[i] = true; }
        CHECK(m[0]->isLocked() == held[0] && m[1]->isLocked() == held[1], "isLocked"); CHECK(m[i]->getContention() == 0, "nobody had to wait");
    }
    for (int i = 0; i < 2; i++) { if (held[i]) m[i]->unlock(); CHECK(!m[i]->isLocked(), "unlocked"); delete m[i]; } symx_reach("end");
}
ENTRY(m_misuse) { // an error-checking mutex refuses what would corrupt it; destroying a locked mutex is refused
    unsigned k = symx_choice(4, "misuse"); PThreadMutex *m = new PThreadMutex(true); SimpleMutex *s = new SimpleMutex; symx_reach("end"); symx_allow_abort(1);
    if (k == 0) m->unlock(); else if (k == 1) { m->lock(); m->lock(); } else if (k == 2) { m->lock(); delete m; } else { s->lock(); delete s; } symx_allow_abort(0); symx_fail("misuse of a mutex is refused");
}
// two or three threads, each a sequence of critical sections over symbolic data
static PThreadMutex *g_m; static SimpleMutex *g_s; SIMPLE_MUTEX_SINGLETON(theMutex)
static volatile uint8_t g_v; static volatile int g_in, g_bad; static unsigned g_nt, g_n; static unsigned char g_how[3][2]; static uint8_t g_add[3][2]; static unsigned g_type; static int g_reps = 1;
static void inside(unsigned t, unsigned i) { if (g_in) g_bad = 1; g_in = 1; uint8_t v = g_v; g_v = v + g_add[t][i]; g_in = 0; }
static void work(void *p) {
    unsigned t = (unsigned)(uintptr_t)p;
    for (int r = 0; r < g_reps; r++) for (unsigned i = 0; i < g_n; i++) {
        if (g_type == 1) { if (g_how[t][i] & 1) { SimpleScopedLock l(*g_s); inside(t, i); } else { g_s->lock(); inside(t, i); g_s->unlock(); } continue; }
        if (g_type == 2) { SimpleScopedLock l(theMutex()); inside(t, i); continue; }
        switch (g_how[t][i]) {
        case 0: g_m->lock(); inside(t, i); g_m->unlock(); break;
        case 1: { PThreadScopedLock l(*g_m); inside(t, i); { PThreadScopedUnlock u(l); } } break;
        case 2: if (g_m->trylock()) { inside(t, i); g_m->unlock(); } else { PThreadAutoLocker l(*g_m); inside(t, i); } break;
        default: { PThreadScopedLock l(*g_m); { PThreadScopedUnlock u(l); } inside(t, i); }
        }
    }
}
static void go(unsigned nt, unsigned n) {
    g_nt = nt; g_n = n; g_type = symx_choice(3, "type"); g_in = g_bad = 0; g_v = sym<uint8_t>("v"); uint8_t want = g_v; if (!g_m) g_m = new PThreadMutex(false); if (!g_s) g_s = new SimpleMutex; theMutex(); symx_watch(&g_v); symx_watch(&g_in);
    for (unsigned t = 0; t < nt; t++) for (unsigned i = 0; i < n; i++) { g_how[t][i] = symx_choice(4, "how"); g_add[t][i] = sym<uint8_t>("add"); want += g_add[t][i] * g_reps; }
    int id[3]; for (unsigned t = 1; t < nt; t++) id[t] = symx_spawn(work, (void *)(uintptr_t)t); work(0); for (unsigned t = 1; t < nt; t++) symx_join(id[t]);
    CHECK(!g_bad, "one thread at a time inside"); CHECK(g_v == want, "no update is lost"); CHECK(!g_m->isLocked(), "released"); CHECK(g_m->getContention() <= (g_type == 0 ? 4u * nt * n * (unsigned)g_reps : 0u), "only lock calls that waited count");
}
ENTRY(m_two) { go(2, 2); symx_reach("end"); }
ENTRY(m_three) { go(3, 1); symx_reach("end"); }
ENTRY(m_two_stress) { g_reps = symx_symbolic() ? 1 : 100000; go(2, 2); }
ENTRY(m_three_stress) { g_reps = symx_symbolic() ? 1 : 100000; go(3, 1); }
// a lock call that has to wait counts, one that does not wait does not
static volatile uint32_t g_tid;
static void waiter(void *) { g_tid = symx_symbolic() ? 1 : (uint32_t)syscall(SYS_gettid); g_m->lock(); g_m->unlock(); }
static void untilAsleep() { // natively: until the other thread sleeps in its lock call
    if (symx_symbolic()) { symx_yield(); return; }
    while (!g_tid) usleep(100); for (int k = 0, asleep = 0; k < 100000 && asleep < 20; k++) { char f[64], b[256] = ""; snprintf(f, sizeof f, "/proc/self/task/%u/stat", g_tid); FILE *fp = fopen(f, "r"); if (fp) { if (!fgets(b, sizeof b, fp)) b[0] = 0; fclose(fp); } const char *q = strrchr(b, ')'); asleep = q && q[2] == 'S' ? asleep + 1 : 0; usleep(200); }
}
ENTRY(m_contend) { g_m = new PThreadMutex; unsigned n = symx_choice(3, "waits"); for (unsigned i = 0; i < n; i++) { g_tid = 0; g_m->lock(); int id = symx_spawn(waiter, 0); symx_block_while(&g_tid, 0); untilAsleep(); g_m->unlock(); symx_join(id); } CHECK(g_m->getContention() == n, "a lock call that waits is counted once"); symx_reach("end"); }
