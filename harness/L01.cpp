// Scoped locks hold their mutex exactly for their scope; lock ordering groups admit only rising levels and restore them.
//@ src src/PThread.cpp src/AssertBoost.cpp
//@ symsrc verif:rt/pthread_model.cpp verif:rt/tss_model.cpp verif:rt/iostream_model.cpp
//@ noassertstub
//@ define SYMX_FORMAT=1 pthread_mutexattr_setkind_np=pthread_mutexattr_settype
//@ nativesrc src/StringUtil.cpp src/SimpleMutex.cpp src/AssertException.cpp
//@ nativeflags -DSYS_POSIX=1 -lboost_thread
//@ assume pthread mutexes behave as POSIX says (rt/pthread_model.cpp) and thread-specific pointers keep one value per thread; refusals are mapped to exceptions with the documented hook
//@ bound nestings of scopes in depth and sequence 3 of unordered locks, ordered locks with any double as level, unlock scopes of any held lock, and exceptions thrown through them, over three mutexes and one group; two threads with their own levels
//@ entry s_scopes quick="D=3" thorough="D=3" reach=end,refused,unwound
//@ entry s_threads reach=end
#include "symx.h"
#include <Lintel/PThread.hpp>
static PThreadScopedOnlyMutex *mx[3]; static LockOrderingGroup *grp; struct Held { PThreadScopedLock *l; int m; bool ord; double level, old; bool out; }; static Held held[8]; static unsigned nheld; static bool locked[3]; static double cur;
struct Boom {};
static void same() { for (int i = 0; i < 3; i++) CHECK(mx[i]->isLocked() == locked[i], "a mutex is locked exactly inside the scopes that lock it"); CHECK(grp->curLevel() == cur, "the level is that of the innermost ordered lock held"); }
static void rec(int d) {
    same(); if (!d) return; unsigned k = symx_choice(5, "scope");
    if (k == 0) return;
    if (k == 1 || k == 2) {
        int m = 0; while (m < 3 && locked[m]) m++; if (m == 3) return;
        if (k == 1) { { PThreadScopedLock l(*mx[m]); Held h = {&l, m, false, 0, 0, false}; held[nheld++] = h; locked[m] = true; try { rec(d - 1); } catch (...) { locked[m] = false; nheld--; throw; } locked[m] = false; nheld--; } same(); rec(d - 1); return; }
        double lv = sym<double>("level"), was = cur; symx_assume(lv == lv); bool in = false;
        try {
            PThreadScopedLock l(*mx[m], *grp, lv); in = true; CHECK(was < lv, "only a higher level may be entered"); Held h = {&l, m, true, lv, was, false}; held[nheld++] = h; locked[m] = true; cur = lv;
            try { rec(d - 1); } catch (...) { locked[m] = false; nheld--; cur = was; throw; } locked[m] = false; nheld--; cur = was;
        } catch (AssertBoostException &e) { if (in) throw; CHECK(!(was < lv), "a higher level is admitted"); symx_reach("refused"); }
        same(); rec(d - 1); return;
    }
    if (k == 3) { throw Boom(); }
    if (!nheld) return; unsigned i = symx_choice(nheld, "which"); Held &h = held[i]; if (!locked[h.m]) return; double was = cur; bool in = false;
    try {
        PThreadScopedUnlock u(*h.l); in = true; CHECK(!h.ord || cur == h.level, "only the innermost ordered lock may be given up"); locked[h.m] = false; if (h.ord) cur = h.old;
        try { rec(d - 1); } catch (...) { locked[h.m] = true; cur = was; throw; } locked[h.m] = true; cur = was;
    } catch (AssertBoostException &e) { if (in) throw; CHECK(h.ord && !(cur == h.level), "the innermost ordered lock can be given up"); }
    same();
}
ENTRY(s_scopes) {
    AssertBoostFnBefore(AssertBoostThrowExceptionFn); for (int i = 0; i < 3; i++) mx[i] = new PThreadScopedOnlyMutex(true); grp = new LockOrderingGroup; cur = 0;
    try { rec(symx_param("D", 3)); } catch (Boom &) { symx_reach("unwound"); }
    same(); CHECK(!locked[0] && !locked[1] && !locked[2] && cur == 0, "everything is given back"); for (int i = 0; i < 3; i++) delete mx[i]; delete grp; symx_reach("end");
}
// every thread has its own level
static double tl; static volatile bool tok, tdone;
static void other(void *) { grp->prepare(); CHECK(grp->curLevel() == 0, "a thread starts at level zero"); { PThreadScopedLock l(*mx[1], *grp, tl); CHECK(grp->curLevel() == tl && mx[1]->isLocked(), "it enters its own level"); grp->prepare(); CHECK(grp->curLevel() == tl, "preparing again changes nothing"); } CHECK(grp->curLevel() == 0, "and leaves it"); tok = true; }
ENTRY(s_threads) {
    for (int i = 0; i < 3; i++) mx[i] = new PThreadScopedOnlyMutex(true); grp = new LockOrderingGroup; uint8_t a = sym<uint8_t>("mine"), b = sym<uint8_t>("theirs"); symx_assume((a > 0) & (b > 0)); double ml = a; tl = b; int id;
    { PThreadScopedLock l(*mx[0], *grp, ml); id = symx_spawn(other, 0); symx_yield(); CHECK(grp->curLevel() == ml, "other threads' levels do not matter"); symx_join(id); CHECK(grp->curLevel() == ml && tok, "other threads' levels do not matter"); } CHECK(grp->curLevel() == 0, "level restored"); symx_reach("end");
}
