// Threads: run() once per start, its value from join, signals blocked where promised, refused misuse.
//@ src src/PThread.cpp
//@ symsrc verif:rt/pthread_model.cpp verif:rt/tss_model.cpp
//@ define SYMX_FORMAT=1 pthread_mutexattr_setkind_np=pthread_mutexattr_settype pthread_kill=sx_pthread_kill BOOST_LEXICAL_CAST_ASSUME_C_LOCALE=1
//@ src src/SimpleMutex.cpp src/StringUtil.cpp
//@ nativeflags -DSYS_POSIX=1 -lboost_thread
//@ bcflags -DSYS_POSIX=1
//@ assume POSIX threads behave as specified (rt/pthread_model.cpp): a new thread inherits the creator's signal mask, joining a detached thread is an error; getenv (symbolic side) and pthread_kill are stand-ins
//@ bound any sequence of up to OPS operations (quick 4, thorough 6) on two thread objects (plain, signal-blocking or running a function), symbolic return values, any subset of eight signals blocked in the caller
//@ entry t_history quick="OPS=4" thorough="OPS=6" opts="--preempt 2" reach=end
//@ entry t_misuse reach=end
//@ entry t_attr reach=end
//@ entry t_signals opts="--preempt 2" reach=end
//@ entry t_env reach=end
//@ entry t_kill reach=end
#include "symx.h"
#include <signal.h>
#include <boost/bind.hpp>
#include <Lintel/PThread.hpp>
static const char *g_env; static int g_krc, g_ksig;
#ifndef SYMX_NATIVE
extern "C" char *getenv(const char *n) throw() { CHECK(!strcmp(n, "NUMBER_OF_PROCESSORS"), "only the documented variable is read"); return (char *)g_env; }
static void env(const char *e) { g_env = e; }
#else
static void env(const char *e) { setenv("NUMBER_OF_PROCESSORS", e, 1); }
#endif
extern "C" int sx_pthread_kill(pthread_t, int sig) throw() { g_ksig = sig; return g_krc; }
struct Obs { volatile int runs; void *ret; uint64_t mask; } g_o[2];
static uint64_t maskNow() { sigset_t s; sigemptyset(&s); pthread_sigmask(SIG_BLOCK, 0, &s); uint64_t m = 0; for (int i = 1; i < 32; i++) if (sigismember(&s, i) == 1) m |= 1ull << i; return m; }
static void *observe(int i) { g_o[i].runs++; g_o[i].mask = maskNow(); return g_o[i].ret; }
struct Plain : PThread { int i; Plain(int i) : i(i) {} void *run() { return observe(i); } };
struct Quiet : PThreadNoSignals { int i; Quiet(int i) : i(i) {} void *run() { return observe(i); } };
static PThread *make(unsigned kind, int i) { if (kind == 0) return new Plain(i); if (kind == 1) return new Quiet(i); return new PThreadFunction(boost::bind(observe, i)); }
static const int sigs[8] = {SIGHUP, SIGINT, SIGUSR1, SIGUSR2, SIGALRM, SIGTERM, SIGCHLD, SIGWINCH};
static uint64_t setMask(unsigned bits) { sigset_t s; sigemptyset(&s); for (int i = 0; i < 8; i++) if (bits >> i & 1) sigaddset(&s, sigs[i]); pthread_sigmask(SIG_SETMASK, &s, 0); return maskNow(); }
static uint64_t everything() { sigset_t s; sigfillset(&s); uint64_t m = 0; for (int i = 1; i < 32; i++) if (i != SIGKILL && i != SIGSTOP) m |= 1ull << i; return m; }
ENTRY(t_history) {
    unsigned kind[2] = {symx_choice(3, "kind"), symx_choice(3, "kind")}; PThread *t[2] = {make(kind[0], 0), make(kind[1], 1)}; bool live[2] = {false, false}; int runs[2] = {0, 0}; uint64_t m0 = setMask(symx_choice(2, "mask") ? 0x15 : 0); pthread_t self = pthread_self(); (void)self;
    for (long k = symx_param("OPS", 4); k > 0; k--) {
        unsigned op = symx_choice(3, "op"); if (op == 2) break; unsigned i = symx_choice(2, "thread");
        if (!live[i]) { g_o[i].ret = (void *)(uintptr_t)sym<uint64_t>("ret"); pthread_t tid = t[i]->start(); CHECK(tid != 0, "start gives the thread"); live[i] = true; runs[i]++; }
        else { void *r = t[i]->join(); live[i] = false; CHECK(r == g_o[i].ret, "join gives the value run returned"); CHECK(g_o[i].runs == runs[i], "run is executed once for every start"); CHECK(g_o[i].mask == (kind[i] ? everything() : m0), "signals are blocked in the thread exactly where promised"); }
        CHECK(maskNow() == m0, "the caller's signal mask is unchanged");
    }
    for (int i = 0; i < 2; i++) { if (live[i]) { CHECK(t[i]->join() == g_o[i].ret && g_o[i].runs == runs[i], "joined at the end"); } CHECK(g_o[i].runs == runs[i], "no extra run"); delete t[i]; } symx_reach("end");
}
ENTRY(t_misuse) {
    unsigned kind = symx_choice(3, "kind"); PThread *t = make(kind, 0); unsigned k = symx_choice(4, "misuse"); symx_reach("end");
    if (k == 1 || k == 2) t->start(); if (k == 2) t->join(); if (k == 3) { t->setDetached(true); t->start(); }
    symx_allow_abort(1); if (k == 1) t->start(); else t->join(); symx_allow_abort(0); symx_fail("starting a running thread, joining one that is not or joining a detached one is refused");
}
ENTRY(t_attr) {
    Plain *p = new Plain(0); size_t n = 65536 + 4096 * (size_t)sym<uint8_t>("pages"), g = 4096 * (size_t)sym<uint8_t>("guard"); p->setStackSize(n); CHECK(p->getStackSize() == n, "stack size"); p->setGuardSize(g); CHECK(p->getGuardSize() == g && p->getStackSize() == n, "guard size"); p->setDetached(true); p->setDetached(false); p->setDetached(); p->setDetached(false); p->setGuardSize(4096); p->setStackSize(262144); g_o[0].ret = p; p->start(); CHECK(p->join() == p && g_o[0].runs == 1, "a thread made joinable again can be joined"); 
    if (symx_choice(2, "small")) { symx_reach("end"); symx_allow_abort(1); p->setStackSize(symx_val(10, "tiny")); symx_allow_abort(0); symx_fail("an impossible stack size is refused"); } delete p; symx_reach("end");
}
ENTRY(t_signals) { uint64_t m0 = setMask(symx_choice(256, "mask")); for (int k = 0; k < 2; k++) { unsigned kind = k; PThread *t = make(kind ? 2 - symx_choice(2, "fn") : 0, 0); t->start(); CHECK(maskNow() == m0, "the caller's signal mask is unchanged"); t->join(); CHECK(maskNow() == m0, "the caller's signal mask is unchanged"); CHECK(g_o[0].mask == (kind ? everything() : m0), "signals are blocked in the thread exactly where promised"); delete t; } symx_reach("end"); }
ENTRY(t_env) { static char e[8]; unsigned n = 1 + symx_choice(3, "digits"), v = 0; for (unsigned i = 0; i < n; i++) { uint8_t d = symx_val(8, "d"); symx_assume(d <= 9); e[i] = '0' + d; v = v * 10 + d; } if (n > 1) symx_assume(e[0] != '0'); env(e); if (v == 0) { symx_allow_abort(1); PThreadMisc::getNCpus(); symx_allow_abort(0); symx_fail("zero processors are refused"); } CHECK(PThreadMisc::getNCpus() == (int)v, "the number in the environment"); env("77"); CHECK(PThreadMisc::getNCpus(true) == (int)v, "read once"); CHECK(PThreadMisc::getCurrentCPU(true) == -1, "unknown is -1"); symx_reach("end"); }
ENTRY(t_kill) { Plain p(0); p.start(); p.join(); unsigned k = symx_choice(3, "rc"); g_krc = k == 0 ? 0 : k == 1 ? ESRCH : EINVAL; int s = symx_val(6, "sig"); symx_reach("end"); if (k == 2) symx_allow_abort(1); int r = p.kill(s); symx_allow_abort(0); CHECK(k != 2, "an invalid signal is refused"); CHECK(r == g_krc && g_ksig == s, "kill passes the signal on and returns the outcome"); }
