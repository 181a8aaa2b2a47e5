// Locks exclude: at most one writer, no reader beside a writer, and every waiter gets in.
//@ symsrc verif:rt/pthread_model.cpp
//@ assume pthread mutexes, read-write locks and spin locks behave as POSIX says (rt/pthread_model.cpp); sequentially consistent memory; a waiting thread that executes pause is rescheduled after another thread has written
//@ bound two threads entering N times each (quick 2, thorough 3) and three threads entering once, reader or writer chosen per entry, a scheduling point at every instruction of the lock's assembly, every pthread call and every access to the protected data, up to 4 preemptions (three threads: 2) beside the switches at which a thread waits
//@ bcflags -Irt/shim -Dpthread_yield=sched_yield
//@ nativeflags -Irt/shim -Dpthread_yield=sched_yield
//@ entry k_two quick="N=2" thorough="N=3" opts="--preempt 4 --all-mem" reach=end stress=k_stress
//@ entry k_three quick="N=1" thorough="N=1" opts="--preempt 2 --all-mem" reach=end stress=k_stress3
//@ entry k_share reach=end
//@ entry k_single reach=end
#include "symx.h"
#include <Lintel/Lock.hpp>
using namespace lintel;
static volatile int g_w, g_r, g_bad; typedef uint8_t Cnt; static volatile Cnt g_cnt; static Cnt g_add[3][64]; static unsigned g_n, g_nt; static unsigned char g_kind[3][64]; static bool g_rw; static int g_reps = 1;
template <class L> struct Run {
    static L *l;
    static void body(unsigned t) {
        for (unsigned i = 0; i < g_n; i++) {
            if (g_kind[t][i]) { l->wrlock(); if (g_w || g_r) g_bad = 1; g_w = 1; Cnt c = g_cnt; g_cnt = c + g_add[t][i]; g_w = 0; l->unlock(); }
            else { l->rdlock(); if (g_w) g_bad = 1; Cnt c = g_cnt; if (c != g_cnt) g_bad = 1; l->unlock(); }
        }
    }
    static void thr(void *p) { for (int k = 0; k < g_reps; k++) body((unsigned)(uintptr_t)p); }
    static void go() {
        l = new L; symx_watch(&g_w); symx_watch(&g_cnt); symx_watch(l); Cnt want = g_cnt; for (unsigned t = 0; t < g_nt; t++) for (unsigned i = 0; i < g_n; i++) want += g_kind[t][i] ? g_add[t][i] * g_reps : 0;
        int id[3]; for (unsigned t = 1; t < g_nt; t++) id[t] = symx_spawn(thr, (void *)(uintptr_t)t); thr((void *)0); for (unsigned t = 1; t < g_nt; t++) symx_join(id[t]);
        CHECK(!g_bad, "nobody else is inside while a writer is"); CHECK(g_cnt == want, "no update of the protected data is lost"); delete l;
    }
};
template <class L> L *Run<L>::l;
static void all() { switch (symx_choice(6, "lock")) { case 0: Run<AtomicSpinLock>::go(); break; case 1: Run<GlibcPosixSpinLock>::go(); break; case 2: Run<SpinLockYield>::go(); break; case 3: Run<RWPosixLock>::go(); break; case 4: Run<PosixLock>::go(); break; default: Run<PosixSpinLock>::go(); } }
static void setup(unsigned nt, unsigned n) { g_nt = nt; g_n = n; g_w = g_r = g_bad = 0; g_cnt = sym<Cnt>("value"); for (unsigned t = 0; t < nt; t++) for (unsigned i = 0; i < n; i++) { g_kind[t][i] = symx_choice(2, "writer"); g_add[t][i] = sym<Cnt>("add"); } }
ENTRY(k_two) { setup(2, symx_param("N", 2)); all(); symx_reach("end"); }
ENTRY(k_three) { setup(3, symx_param("N", 1)); all(); symx_reach("end"); }
ENTRY(k_stress) { g_reps = symx_symbolic() ? 1 : 300000; setup(2, symx_param("N", 2)); all(); }
ENTRY(k_stress3) { g_reps = symx_symbolic() ? 1 : 200000; setup(3, symx_param("N", 1)); all(); }
// read-write locks let readers share; a lock can be taken again after it is released
static RWPosixLock *g_rwl; static volatile uint32_t g_in;
static void reader(void *) { g_rwl->rdlock(); __sync_fetch_and_add(&g_in, 1); symx_block_while(&g_in, 1); g_rwl->unlock(); }
ENTRY(k_share) { g_rwl = new RWPosixLock; g_rwl->rdlock(); int id = symx_spawn(reader, 0); symx_block_while(&g_in, 0); CHECK(g_in == 1, "a second reader gets in beside the first"); g_in = 2; g_rwl->unlock(); symx_join(id); g_rwl->wrlock(); g_rwl->unlock(); delete g_rwl; symx_reach("end"); }
template <class L> static void single() { L l; for (unsigned i = 0; i < 3; i++) { if (symx_choice(2, "writer")) l.wrlock(); else l.rdlock(); l.unlock(); } }
ENTRY(k_single) { switch (symx_choice(6, "lock")) { case 0: single<AtomicSpinLock>(); break; case 1: single<GlibcPosixSpinLock>(); break; case 2: single<SpinLockYield>(); break; case 3: single<RWPosixLock>(); break; case 4: single<PosixLock>(); break; default: single<PosixSpinLock>(); } symx_reach("end"); }
