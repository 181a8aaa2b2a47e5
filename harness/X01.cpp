// Failed invariants: control never passes one, every hook is told what failed, in order, and the failure is shown in full.
//@ define SYS_POSIX=1 SYMX_FORMAT=2
//@ assume boost::format is a functional model of %s and %d with boost's argument counting (rt/stubs); the error stream, abort, getenv and vsnprintf are stand-ins that record what they are given
//@ bound histories of OPS operations (quick 4, thorough 5): hooks that record or throw added before or after, cleared, invariants over every 64-bit value with messages of up to 2 arbitrary bytes and every line below 1000; exceptions over texts of up to 3 arbitrary bytes with every single allocation failing; printf-style texts of 0 to 2 and 1022 to 3000 arbitrary bytes
//@ entry x_history quick="OPS=4" thorough="OPS=5" reach=died,caught,end
//@ entry x_recurse reach=died
//@ entry x_format reach=died
//@ entry x_what quick="N=2" thorough="N=3" reach=end
//@ entry x_printf quick="BIG=1" thorough="BIG=3" reach=end
//@ entry x_macro reach=end
#include "symx.h"
#include <sys/types.h>
#include <signal.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <stdlib.h>
#include <iostream>
#include <cstdlib>
#include <cstdio>
#include <cstdarg>
#include <vector>
#include <exception>
#include <stdexcept>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <boost/format.hpp>
#include <Lintel/CompilerMarkup.hpp>
#include <Lintel/DebugFlag.hpp>
struct Out { std::string s; void flush() {} Out &operator<<(const std::string &x) { s += x; return *this; } Out &operator<<(const char *x) { s += x; return *this; } Out &operator<<(const boost::format &f) { s += f.str(); return *this; } Out &operator<<(std::ostream &(*)(std::ostream &)) { s += "\n"; return *this; } };
static Out &sxe() { static Out o; return o; }
static void sx_abort() __attribute__((noreturn));
static char *sx_getenv(const char *) { return 0; }
static std::string g_text; // what the C library would format
// a list of arguments is a value that is good for one pass; passing it on uses it up
struct Args { int left; }; static void sx_start(Args &a) { a.left = 1; } static void sx_copy(Args &d, const Args &s) { d = s; }
static int sx_vsnprintf(char *b, size_t n, const char *, Args &ap) {
    if (ap.left != 1) symx_fail("the arguments of the message are used twice"); ap.left = 0;
    if (n) { size_t m = g_text.size() < n - 1 ? g_text.size() : n - 1; memcpy(b, g_text.data(), m); b[m] = 0; } return (int)g_text.size();
}
#define cout sxe()
#define cerr sxe()
#define abort sx_abort
#define exit(x) sx_abort()
#define getenv sx_getenv
#define fflush(x) (void)0
#define vsnprintf sx_vsnprintf
#undef va_start
#undef va_end
#undef va_copy
#define va_start(a, b) sx_start(a)
#define va_copy(d, s) sx_copy(d, s)
#define va_end(a) (void)(a)
#define va_list Args
namespace x { // apart from the copy of the library the harness itself is linked with
#include <Lintel/AssertBoost.hpp>
#include "../src/AssertBoost.cpp"
#include <Lintel/AssertException.hpp>
#include "../src/AssertException.cpp"
}
#undef cout
#undef cerr
#undef abort
#undef exit
#undef getenv
#undef fflush
#undef vsnprintf
#undef va_list
using namespace x; typedef std::string Str;
static unsigned g_pre[6], g_npre, g_post[6], g_npost, g_call; // the model: kinds of the hooks; calls seen
static Str g_expr, g_file, g_msg; static unsigned g_line; static unsigned g_out; // what fails now; what has been shown before
static bool g_recurse; static unsigned g_inner;
static Str dec(unsigned v) { Str s; if (v >= 100) s += (char)('0' + v / 100); if (v >= 10) s += (char)('0' + v / 10 % 10); s += (char)('0' + v % 10); return s; }
static Str shown(const Str &e, const Str &f, unsigned l, const Str &m) { return "\n**** Assertion failure in file " + f + ", line " + dec(l) + "\n**** Failed expression: " + e + "\n" + (m.size() ? "**** Details: " + m + "\n" : Str()); }
static bool has(const char *t) { return sxe().s.find(t, g_out) != Str::npos; }
static void sx_abort() {
    if (g_recurse) { CHECK(has("innerfail"), "the failure inside the hook is shown"); CHECK(g_call == 1, "no hook is entered again"); symx_reach("died"); symx_end(); }
    CHECK(g_call == g_npre + g_npost, "every hook is called once before the end"); CHECK(eqStr(sxe().s.substr(g_out), shown(g_expr, g_file, g_line, g_msg)), "the failure is shown in full, once"); symx_reach("died"); symx_end();
}
struct Hook { unsigned kind; bool post; // kind: 0 records, 1 throws
    void operator()(const char *e, const char *f, unsigned l, const Str &m) const {
        CHECK(strcmp(e, g_expr.c_str()) == 0 && strcmp(f, g_file.c_str()) == 0 && l == g_line, "a hook is told the expression, the file and the line"); CHECK(eqStr(m, g_msg), "a hook is told the message");
        unsigned at = g_call++; CHECK(post ? at >= g_npre && at - g_npre < g_npost && g_post[at - g_npre] == kind : at < g_npre && g_pre[at] == kind, "hooks are called in the order they were added");
        CHECK((sxe().s.size() > g_out) == post, "hooks before run before the failure is shown, hooks after run after it");
        if (kind == 1) AssertBoostThrowExceptionFn(e, f, l, m); } };
static void noargs() { unsigned at = g_call++; CHECK(at >= g_npre && at - g_npre < g_npost && g_post[at - g_npre] == 2, "hooks without arguments are called in order too"); }
static unsigned g_eval; static bool ev(uint64_t v) { g_eval++; return v != 0; }
static bool throwing() { for (unsigned i = 0; i < g_npre; i++) if (g_pre[i] == 1) return true; for (unsigned i = 0; i < g_npost; i++) if (g_post[i] == 1) return true; return false; }
ENTRY(x_history) {
    for (long k = symx_param("OPS", 4); k > 0; k--) {
        unsigned op = symx_choice(5, "op"); if (op == 0) break;
        if (op == 1) { Hook h = {symx_choice(2, "kind"), false}; AssertBoostFnBefore(h); g_pre[g_npre++] = h.kind; }
        else if (op == 2) { unsigned w = symx_choice(3, "kind"); if (w == 2) AssertBoostFnAfter(noargs); else { Hook h = {w, true}; AssertBoostFnAfter(h); } g_post[g_npost++] = w; }
        else if (op == 3) { AssertBoostClearFns(); g_npre = g_npost = 0; }
        else {
            g_call = 0; g_out = sxe().s.size(); g_file = __FILE__; g_eval = 0; uint64_t v = sym<uint64_t>("condition"); unsigned way = symx_choice(6, "way"); Str m = symStr(symx_choice(3, "length"), "message"); for (size_t i = 0; i < m.size(); i++) symx_assume(m[i] != 0);
            g_msg = m; g_expr = "ev(v)"; bool before = v != 0, thrown = false;
            try {
                [&]() { switch (way) {
                case 0: g_line = __LINE__; INVARIANT(ev(v), m); break;
                case 1: g_line = __LINE__; g_msg = "got " + m + " and " + dec(7); INVARIANT(ev(v), boost::format("got %s and %d") % m % 7); break;
                case 2: g_line = __LINE__; g_msg = global_assertboost_no_details; SINVARIANT(ev(v)); break;
                case 3: g_line = __LINE__; CHECKED(ev(v), m); break;
                case 4: g_expr = "Fatal error"; g_line = __LINE__; FATAL_ERROR(m);
                    break;
                default: g_expr = "e"; g_file = "f"; g_line = (unsigned)symx_val(16, "line"); symx_assume(g_line < 1000); AssertBoostFail("e", "f", (int)g_line, m);
                } }(); // apart, so that leaving the function is noticed too
            } catch (AssertBoostException &e) { thrown = true; CHECK(e.expression == g_expr && e.filename == g_file && e.line == g_line, "the exception says what failed and where"); CHECK(eqStr(e.msg, g_msg), "the exception carries the message"); CHECK(throwing(), "only a hook throws"); unsigned i = 0; while (i < g_npre && g_pre[i] != 1) i++; if (i == g_npre) { i = 0; while (g_post[i] != 1) i++; i += g_npre; } CHECK(g_call == i + 1, "the first hook that throws ends it"); symx_reach("caught"); }
            if (way < 4) CHECK(thrown == !before, "control passes an invariant exactly when it holds"); else CHECK(thrown, "control never passes a fatal error"); if (way < 4) CHECK(g_eval == 1, "the expression is evaluated once"); if (!thrown) CHECK(g_call == 0 && sxe().s.size() == g_out, "an invariant that holds does nothing");
        }
    }
    symx_reach("end");
}
static void badhook(const char *, const char *, unsigned, const Str &) { g_call++; bool innerfail = symx_choice(2, "way") && false; INVARIANT(innerfail, "within"); symx_fail("control passed an invariant in a hook"); }
ENTRY(x_recurse) { // a hook that fails itself: no endless recursion, both failures shown, no way past
    g_recurse = true; unsigned n = symx_choice(3, "hooks"), post = symx_choice(2, "post"); Hook h = {0, false}; if (n == 1 && !post) { } for (unsigned i = 0; i <= n; i++) if (post) AssertBoostFnAfter(badhook); else AssertBoostFnBefore(badhook); (void)h;
    INVARIANT(n == 77, symStr(2, "message")); symx_fail("control passed a failed invariant");
}
ENTRY(x_format) { // a message that cannot be formatted loses the message, never the failure
    unsigned n = symx_choice(4, "arguments"); bool hook = symx_choice(2, "hook"), fatal = symx_choice(2, "fatal"); int a = (int)symx_val(5, "value"); g_expr = fatal ? "Fatal error" : "a < 0"; g_file = __FILE__; struct Seen { static void hook(const char *e, const char *f, unsigned l, const Str &m) { g_call++; CHECK(g_expr == e && g_file == f && l == g_line && m.size() > 0, "hooks are told about a failure whose message is malformed"); g_msg = m; } }; if (hook) { AssertBoostFnBefore(Seen::hook); g_pre[g_npre++] = 0; } else g_msg = "";
    struct End { static void after(const char *, const char *, unsigned, const Str &m) { g_msg = m; g_call++; if (g_pre[0] == 9) CHECK(m == "7 of 7" , "the message"); } }; AssertBoostFnAfter(End::after); g_post[g_npost++] = 0; if (n == 2) { g_pre[0] = 9; }
    if (fatal) { switch (n) { case 0: g_line = __LINE__; FATAL_ERROR(boost::format("%d of %d")); break; case 1: g_line = __LINE__; FATAL_ERROR(boost::format("%d of %d") % a); break; case 2: g_line = __LINE__; FATAL_ERROR(boost::format("%d of %d") % 7 % 7); break; default: g_line = __LINE__; FATAL_ERROR(boost::format("%d of %d") % a % a % a); } }
    else { switch (n) { case 0: g_line = __LINE__; INVARIANT(a < 0, boost::format("%d of %d")); break; case 1: g_line = __LINE__; INVARIANT(a < 0, boost::format("%d of %d") % a); break; case 2: g_line = __LINE__; INVARIANT(a < 0, boost::format("%d of %d") % 7 % 7); break; default: g_line = __LINE__; INVARIANT(a < 0, boost::format("%d of %d") % a % a % a); } }
    symx_fail("control passed a failed invariant");
}
ENTRY(x_what) { // what() tells everything, the same every time, and never throws
    size_t n = (size_t)symx_param("N", 2); Str m = symStr(symx_choice((unsigned)n + 1, "length"), "message"), e = symStr(2, "expression"); for (size_t i = 0; i < 2; i++) symx_assume(e[i] != 0); for (size_t i = 0; i < m.size(); i++) symx_assume(m[i] != 0); unsigned l = (unsigned)symx_val(10, "line"); symx_assume(l < 1000);
    AssertBoostException x(e.c_str(), "a file", l, m); Str want = "AssertBoostException(" + e + ",a file," + dec(l) + "," + m + ")"; if (symx_choice(2, "copy")) { AssertBoostException y(x); CHECK(eqStr(y.what(), want) && eqStr(y.msg, m), "a copy says the same"); }
    unsigned fail = symx_choice(4, "fail"); if (fail) symx_alloc_fail((int)fail); const char *w = 0; try { w = x.what(); } catch (...) { symx_fail("what() throws"); } symx_alloc_fail(-1); CHECK(eqStr(w, want) || (fail && strstr(w, "AssertBoostException") == w), "what() tells expression, file, line and message"); CHECK(eqStr(x.what(), want), "what() again"); CHECK(eqStr(x.summary(), want), "the summary"); symx_reach("end");
}
ENTRY(x_printf) { // a printf-style message keeps every byte, however long
    static const unsigned len[] = {0, 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 3000}; g_text = symStr(len[symx_choice(symx_param("BIG", 1) > 1 ? 10 : 7, "length")], "text"); Str r = AssertExceptionT::stringPrintF("%d", 4711); CHECK(r.size() == g_text.size(), "the length of the message"); CHECK(eqBytes(r.data(), g_text.data(), g_text.size()), "the message"); symx_reach("end");
}
ENTRY(x_macro) { // the throwing assertions throw exactly when they fail, with all the details
    uint64_t v = sym<uint64_t>("condition"); bool msg = symx_choice(2, "message"), thrown = false; g_text = msg ? symStr(3, "text") : Str(); int line = 0; g_eval = 0;
    try { if (msg) { line = __LINE__; AssertExceptionMsg(ev(v), ("%d", 4711)); } else { line = __LINE__; AssertException(ev(v)); } } catch (AssertExceptionT &e) { thrown = true; CHECK(e.condition == "ev(v)" && strcmp(e.filename, __FILE__) == 0 && e.lineno == line && eqStr(e.message, g_text), "what failed and where"); }
    CHECK(thrown == (v == 0), "thrown exactly when the condition fails"); CHECK(g_eval == 1, "evaluated once"); symx_reach("end");
}
