// AssertBoost entry points for symbolic builds that do not include AssertBoost.cpp: a failed invariant ends the program.
#include <string>
#include <boost/format.hpp>
extern "C" void abort(void) __attribute__((noreturn));
extern "C" void __assert_fail(const char *, const char *, unsigned, const char *) noexcept(true) __attribute__((noreturn));
void AssertBoostFail(const char *e, const char *f, int l, const boost::format &) __attribute__((noreturn));
void AssertBoostFail(const char *e, const char *f, int l, const std::string &) __attribute__((noreturn));
void AssertBoostFail(const char *e, const char *f, int l, const boost::format &) { __assert_fail(e, f, l, ""); }
void AssertBoostFail(const char *e, const char *f, int l, const std::string &) { __assert_fail(e, f, l, ""); }
__attribute__((init_priority(101))) std::string global_assertboost_no_details("no details");
