// Logging: the level that counts is the last one set for a name, levels are parsed exactly, every message reaches every destination once, one thread at a time.
//@ define SYS_POSIX=1 SYMX_FORMAT=1 BOOST_LEXICAL_CAST_ASSUME_C_LOCALE=1
//@ src src/SimpleMutex.cpp src/StringUtil.cpp src/HashFns.cpp src/HashTable.cpp
//@ symsrc verif:rt/pthread_model.cpp verif:rt/iostream_model.cpp
//@ nativesrc src/AssertBoost.cpp
//@ nativeflags -lboost_thread
//@ assume pthread mutexes behave as POSIX says (rt/pthread_model.cpp); the console streams are stand-ins that keep what is written; sequential consistency
//@ bound histories of OPS operations (quick 4, thorough 5) over eight names and prefixes with every 8-bit level set and every 32-bit level asked; option strings of up to three entries with levels of 1 to 3 (thorough 5) arbitrary digits; up to 3 destinations, messages of up to 3 arbitrary bytes, every type; two threads with up to 4 preemptions, a scheduling point at every pthread call and every access to the pointer to the registry or the destination's state
//@ entry g_levels quick="OPS=4" thorough="OPS=5" reach=end opts="--mux 1"
//@ entry g_parse quick="D=3" thorough="D=5" reach=end
//@ entry g_badparse reach=end
//@ entry g_appenders quick="A=2" thorough="A=3" reach=end
//@ entry g_console reach=end
//@ entry g_limit reach=end
//@ entry g_threads quick="R=1" thorough="R=2" opts="--preempt 3 --all-mem" reach=end stress=g_threads_stress
//@ entry g_first opts="--preempt 4 --all-mem" reach=end stress=g_first
#include "symx.h"
#include <iostream>
#include <queue>
#include <vector>
#include <algorithm>
#include <string.h>
#include <stdlib.h>
#include <sys/time.h>
#include <boost/smart_ptr.hpp>
#include <boost/utility.hpp>
#include <boost/format.hpp>
#include <boost/function.hpp>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/HashMap.hpp>
#include <Lintel/SimpleMutex.hpp>
#include <Lintel/StringUtil.hpp>
struct Out { std::string s; int flushed; void flush() { flushed++; } Out &operator<<(const std::string &x) { s += x; return *this; } Out &operator<<(const char *x) { s += x; return *this; } Out &operator<<(const boost::format &f) { s += f.str(); return *this; } Out &operator<<(std::ostream &(*)(std::ostream &)) { s += "\n"; flushed++; return *this; } };
static Out &sxo() { static Out o; return o; }
static Out &sxe() { static Out o; return o; }
static const char *g_env; static char *sx_getenv(const char *n) { CHECK(strcmp(n, "LINTEL_LOG_DEBUG") == 0, "the documented variable"); return (char *)g_env; }
#define cout sxo()
#define cerr sxe()
#define getenv sx_getenv
#define private public // the threads may meet at the pointer to the registry
#include <Lintel/LintelLog.hpp>
#undef private
#include "../src/LintelLog.cpp"
#undef cout
#undef cerr
#undef getenv
typedef LintelLog L;
static const char *const names[] = {"a", "ab", "b", "", "ba"}; static const char *const pats[] = {"*", "a*", "ab*", "b*"};
static bool covers(unsigned p, unsigned n) { return strncmp(names[n], pats[p], strlen(pats[p]) - 1) == 0; }
ENTRY(g_levels) {
    uint8_t want[5] = {0}; bool used[5] = {false}; unsigned id[5];
    for (long k = symx_param("OPS", 4); k > 0; k--) {
        unsigned op = symx_choice(5, "op");
        if (op == 0) break;
        if (op == 1) { unsigned n = symx_choice(5, "name"); uint8_t l = sym<uint8_t>("level"); L::setDebugLevel(names[n], l); want[n] = l; }
        else if (op == 2) { unsigned p = symx_choice(4, "prefix"); uint8_t l = sym<uint8_t>("level"); L::setDebugLevel(pats[p], l); for (unsigned n = 0; n < 5; n++) if (covers(p, n)) want[n] = l; }
        else if (op == 3) { unsigned n = symx_choice(5, "name"); uint32_t q = sym<uint32_t>("asked"); CHECK(L::wouldDebug(std::string(names[n]), q) == (want[n] >= q), "wouldDebug by name"); }
        else { unsigned n = symx_choice(5, "name"); L::Category c((std::string(names[n]))); uint32_t q = sym<uint32_t>("asked"); CHECK(L::getDebugLevel(c) == want[n], "the last level set"); CHECK(L::wouldDebug(c, q) == (want[n] >= q), "wouldDebug by category"); CHECK(L::wouldDebug(c) == (want[n] >= 1), "wouldDebug asks for level 1"); if (used[n]) CHECK(id[n] == c.id, "one identity per name"); used[n] = true; id[n] = c.id; for (unsigned m = 0; m < 5; m++) if (m != n && used[m]) CHECK(id[m] != c.id, "different names, different identities"); }
    }
    for (unsigned n = 0; n < 5; n++) CHECK(L::getDebugLevel(L::Category(names[n])) == want[n], "the last level set, at the end"); CHECK(sxo().s.empty() && sxe().s.empty(), "nothing is printed"); symx_reach("end");
}
static std::string digits(unsigned n, uint32_t &v) { std::string s; v = 0; for (unsigned i = 0; i < n; i++) { uint32_t d = (uint32_t)symx_val(4, "digit"); symx_assume(d <= 9); s += (char)('0' + d); v = v * 10 + d; } return s; }
ENTRY(g_parse) {
    unsigned n = 1 + symx_choice(3, "entries"); std::string all; unsigned want[5] = {0}; bool ok = true; bool env = n == 1 && symx_choice(2, "environment");
    for (unsigned k = 0; k < n; k++) {
        unsigned w = symx_choice(k == 0 ? 4 : 3, "who"); unsigned d = symx_choice(k == 0 ? (unsigned)symx_param("D", 3) + 1 : 2, "digits"); uint32_t v = 1; static const char *const e[] = {"a", "ab", "a*", "b"}; if (k) all += ","; all += e[w]; if (d) { all += "="; all += digits(d, v); }
        symx_assume(v <= 255); if (w == 2) want[0] = want[1] = v; else want[w == 3 ? 2 : w] = v;
    }
    if (env) { g_env = 0; L::parseEnv(); g_env = all.c_str(); L::parseEnv(); } else L::parseDebugString(all);
    for (unsigned i = 0; i < 3; i++) CHECK(L::getDebugLevel(L::Category(names[i])) == want[i], "the level written in the options"); symx_reach("end");
}
ENTRY(g_badparse) { // a level that is not a number from 0 to 255 is refused
    std::string s = "a="; unsigned k = symx_choice(4, "how"); uint32_t v; if (k == 3) s += "1=2"; else if (k == 0) { s += digits(3, v); symx_assume(v > 255); } else if (k == 1) { s += digits(5, v); symx_assume(v > 255); } else { uint8_t c = sym<uint8_t>("c"); symx_assume(c != 0 && c != '=' && c != ',' && !(c >= '0' && c <= '9')); s += "1"; s += (char)c; if (c == ' ' || (c >= 9 && c <= 13)) symx_end(); }
    symx_reach("end"); symx_allow_abort(1); L::parseDebugString(s); symx_allow_abort(0); symx_fail("a level out of range is refused");
}
static std::string g_msg; static unsigned g_seen[8]; static unsigned g_n, g_want; static const L::LogType types[] = {L::Report, L::Debug, L::Info, L::Warn, L::Error};
template <int I> static void app(const std::string &m, const L::LogType t) { CHECK((unsigned)t == g_want, "the type of the message"); CHECK(eqStr(m, g_msg), "the message"); if (g_n < 8) g_seen[g_n] = I; g_n++; }
static void put(unsigned how, unsigned t, const std::string &m) { g_want = t; if (how == 0) L::log(m, types[t]); else switch (t) { case 0: L::report(m); break; case 1: L::debug(m); break; case 2: L::info(m); break; case 3: L::warn(m); break; default: L::error(m); } }
ENTRY(g_appenders) {
    unsigned a = 1 + symx_choice((unsigned)symx_param("A", 2), "destinations"); unsigned o[3]; for (unsigned i = 0; i < a; i++) { o[i] = symx_choice(2, "which"); L::addAppender(o[i] ? app<1> : app<0>); }
    for (unsigned k = 0; k < 2; k++) { g_msg = symStr(symx_choice(4, "length"), "text"); g_n = 0; unsigned how = symx_choice(2, "how"), type = symx_choice(5, "type"); put(how, type, g_msg); CHECK(g_n == a, "every destination gets the message once"); for (unsigned i = 0; i < a; i++) CHECK(g_seen[i] == o[i], "destinations in order"); }
    CHECK(sxo().s.empty() && sxe().s.empty(), "no console output next to the destinations"); symx_reach("end");
}
ENTRY(g_console) { // without destinations (or with the console one): type prefix, message, newline; warnings and errors to the error stream
    bool add = symx_choice(2, "added"); if (add) L::addAppender(L::consoleAppender); std::string o, e; static const char *const pre[] = {"", "DEBUG: ", "INFO: ", "WARN: ", "ERROR: "};
    for (unsigned k = 0; k < 2; k++) { unsigned t = symx_choice(5, "type"); std::string m = symStr(symx_choice(3, "length"), "text"); unsigned how = symx_choice(2, "how"); put(how, t, m); (t >= 3 ? e : o) += pre[t] + m + "\n"; CHECK(t < 3 || (sxo().flushed && sxe().flushed), "problems are flushed"); }
    CHECK(eqStr(sxo().s, o) && eqStr(sxe().s, e), "what the console shows"); symx_reach("end");
}
ENTRY(g_limit) { // the table of levels never moves: one name more than reserved is refused, up to there every name works
    L::reserveCategories(4000); unsigned cap = 4000 - (unsigned)symx_choice(2, "short"); std::vector<std::string> v; for (unsigned i = 0; i < cap; i++) { std::string s; for (unsigned x = i + 1; x; x /= 16) s += (char)('a' + x % 16); v.push_back(s); } L::setKnownCategories(v); const uint32_t q = sym<uint32_t>("asked"); L::setDebugLevel(v[7], 3); CHECK(L::wouldDebug(v[7], q) == (3 >= q), "levels still work"); CHECK(!L::wouldDebug(v[8], 1), "others untouched");
    symx_reach("end"); if (cap == 4000) symx_allow_abort(1); L::Category c("one more"); symx_allow_abort(0); CHECK(cap < 4000, "no name beyond the reserved number"); CHECK(c.id == cap, "the last one");
}
static volatile int g_in, g_cnt[2][2]; static unsigned g_reps = 1, g_rep = 1; static std::string g_m[2];
template <int I> static void tapp(const std::string &m, const L::LogType) { int was = g_in; g_in = was + 1; CHECK(was == 0, "destinations are entered by one thread at a time"); int who = m[0] - '0'; g_cnt[I][who] = g_cnt[I][who] + 1; g_in = 0; }
static void talker(void *p) { int who = (int)(long)p; for (unsigned i = 0; i < g_reps; i++) L::log(g_m[who], L::Info); }
static void threads() { g_reps = (unsigned)symx_param("R", 1) * g_rep; g_m[0] = "0x"; g_m[1] = "1y"; L::addAppender(tapp<0>); L::addAppender(tapp<1>); symx_watch((const void *)&g_in); int a = symx_spawn(talker, (void *)0), b = symx_spawn(talker, (void *)1); symx_join(a); symx_join(b); for (int i = 0; i < 2; i++) for (int w = 0; w < 2; w++) CHECK(g_cnt[i][w] == (int)g_reps, "every message once to every destination"); symx_reach("end"); }
ENTRY(g_threads) { threads(); }
ENTRY(g_threads_stress) { g_rep = symx_symbolic() ? 1 : 100000; threads(); }
// first use by two threads at once: one registry, no level and no name lost
static uint8_t g_l[2]; static unsigned g_id[2]; static unsigned g_same;
static void firster(void *p) { int who = (int)(long)p; if (g_same) { L::Category c("a"); g_id[who] = c.id; } else { L::setDebugLevel(names[who], g_l[who]); } }
ENTRY(g_first) { g_same = symx_choice(2, "same"); for (int i = 0; i < 2; i++) g_l[i] = sym<uint8_t>("level"); symx_watch(&L::instance); int a = symx_spawn(firster, (void *)0), b = symx_spawn(firster, (void *)1); symx_join(a); symx_join(b); if (g_same) CHECK(g_id[0] == g_id[1] && L::Category("a").id == g_id[0], "one identity per name"); else for (int i = 0; i < 2; i++) CHECK(L::getDebugLevel(L::Category(names[i])) == g_l[i], "no level is lost"); symx_reach("end"); }
