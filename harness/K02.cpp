// Time from the cycle counter: a reading of the clock plus the cycles since, calibrated often enough, for every counter and clock history.
//@ define SYS_POSIX=1 SYMX_FORMAT=1 gettimeofday=sx_gettimeofday DISABLE_DEBUG_LINTELLOG=1
//@ nativesrc src/AssertBoost.cpp src/StringUtil.cpp src/Stats.cpp src/Double.cpp src/LintelLog.cpp src/PThread.cpp src/SimpleMutex.cpp src/MersenneTwisterRandom.cpp src/HashFns.cpp src/HashTable.cpp
//@ symsrc src/Stats.cpp src/Double.cpp
//@ nativeflags -lboost_thread
//@ assume the cycle counter and gettimeofday are stand-ins that return symbolic values; the clock rate is calibrated to a power of two of cycles per unit, so that the arithmetic is exact; as documented, the machine was not started less than an interval ago (counter above 2^30)
//@ bound histories of N calls (3) by one clock object with every 64-bit counter value for each reading, including backward jumps, clock readings that differ in any way within 2^20 seconds, one rate (thorough and single steps: three), every frequency scaling policy
//@ entry t_history quick="N=3,R=1" thorough="N=3,R=3" reach=end
//@ entry t_policy reach=end
//@ entry t_gap reach=end
//@ entry t_interval reach=end
//@ entry t_conv reach=end
#include "symx.h"
#include <stdio.h>
#include <sys/time.h>
#include <dirent.h>
#include <algorithm>
#include <vector>
#include <iostream>
#include <boost/format.hpp>
#include <Lintel/Stats.hpp>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/Double.hpp>
#include <boost/function.hpp>
#include <boost/thread/tss.hpp>
#include <pthread.h>
#include <string.h>
static uint64_t g_cc[16]; static struct timeval g_tv[16]; static int g_nc, g_nt;
static void sx_rdtsc(uint32_t &lo, uint32_t &hi) { uint64_t v = g_cc[g_nc++]; lo = (uint32_t)v; hi = v >> 32; }
// the counter is read by one instruction of inline assembly: a stand-in takes its place
#define asm
#define volatile(...) sx_rdtsc(low, high)
#include <Lintel/Clock.hpp>
#include "../src/Clock.cpp"
#undef asm
#undef volatile
extern "C" int sx_gettimeofday(struct timeval *t, void *) throw() { *t = g_tv[g_nt++]; return 0; }
typedef Clock::Tfrac Tfrac;
static const uint64_t usFrac[] = {0, 4295, 2147483648u, 4294963002u}; static const uint32_t usVal[] = {0, 1, 500000, 999999};
static uint32_t g_u[16]; static Tfrac tod(int i) { return ((uint64_t)g_tv[i].tv_sec << 32) + usFrac[g_u[i]]; }
static void setup(int n, bool mono) { g_nc = g_nt = 0; for (int i = 0; i < 3 * n; i++) { g_cc[i] = sym<uint64_t>("cc"); symx_assume(g_cc[i] > 1u << 30); } for (int i = 0; i < n; i++) { g_tv[i].tv_sec = symx_val(20, "sec"); g_u[i] = i == 1 ? symx_choice(2, "us") * 3 : i; g_tv[i].tv_usec = usVal[g_u[i]]; if (mono && i) symx_assume(tod(i) >= tod(i - 1)); } }
static void rate(unsigned k) { // cycles per microsecond; tfrac per cycle: 4, 1, 0.25 in units of 2^-32 s (the megahertz only matter for the interval)
    static const double r[] = {4, 1, 0.25}; Clock::clock_rate = 1000; Clock::inverse_clock_rate_tfrac = r[k]; Clock::max_recalibrate_measure_time = 2000; }
ENTRY(t_history) {
    int n = symx_param("N", 3); setup(n, true); unsigned k = (1 + symx_choice(symx_param("R", 1), "rate")) % 3; Clock::clock_rate = -Double::Inf; Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes); rate(k); Clock c; uint64_t lim = c.recalibrate_interval_cycles; CHECK(lim == 1000000, "recalibrated after one millisecond");
    bool have = false; uint64_t base_cc = 0, last = 0; Tfrac base = 0; size_t nre = 0;
    for (int i = 0; i < n; i++) {
        uint64_t now = g_cc[g_nc]; int t0 = g_nt, c0 = g_nc; Tfrac got = c.todccTfrac();
        if (g_nt == t0) { // answered from the counter
            CHECK(have, "only a good calibration is used"); CHECK(now > last && now - base_cc <= lim, "the counter moved forward and the calibration is not too old"); uint64_t d = now - base_cc; Tfrac want = base + (k == 0 ? d * 4 : k == 1 ? d : d / 4); CHECK(got == want, "the calibration time plus the cycles since"); last = now;
        } else {
            CHECK(g_nt == t0 + 1 && g_nc == c0 + 3, "one reading of the clock between two of the counter"); CHECK(got == tod(t0), "the clock's own time");
            uint64_t a = g_cc[c0 + 1], b = g_cc[c0 + 2]; if (have) CHECK(now <= last || now - base_cc > lim, "a usable calibration is used");
            if (b > a && b - a < 2000) { uint64_t mid = a + (b - a) / 2; base = got; if (a + b < a) symx_end(); base_cc = last = mid; have = true; nre++; } else have = false;
        }
        CHECK(c.nrecalibrate == nre, "good calibrations are counted");
    }
    symx_reach("end");
}
// a good calibration is used within its interval, a bad one never; bad gaps are counted
ENTRY(t_gap) {
    setup(3, true); unsigned k = symx_choice(3, "rate"); Clock::clock_rate = -Double::Inf; Clock::allowUnsafeFrequencyScaling(Clock::AUFSO_Yes); rate(k); Clock c; uint64_t a = symx_val(40, "start") + (1u << 31), w = symx_val(12, "gap"), d = symx_val(21, "later"); g_cc[0] = a - 1; g_cc[1] = a; g_cc[2] = a + w; g_cc[3] = a + w / 2 + d; g_cc[4] = a + w + d + 1; g_cc[5] = a + w + d + 5;
    CHECK(c.todccTfrac() == tod(0), "the first time is the clock's"); bool good = w > 0 && w < 2000; CHECK(c.nrecalibrate == good, "an over-long reading does not calibrate"); CHECK(good ? c.bad_get_tod_cycle_gap == 0 : c.bad_get_tod_cycle_gap->countll() == 1, "bad readings are recorded");
    Tfrac t = c.todccTfrac(); bool inc = good && d > 0 && d <= 1000000; CHECK(inc == (g_nt == 1), "the counter is used exactly when the calibration is good and fresh"); CHECK(t == (inc ? tod(0) + (k == 0 ? d * 4 : k == 1 ? d : d / 4) : tod(1)), "the right time"); symx_reach("end");
}
ENTRY(t_policy) {
    setup(4, true); static const Clock::AllowUnsafeFreqScalingOpt pol[] = {Clock::AUFSO_Yes, Clock::AUFSO_WarnFast, Clock::AUFSO_WarnSlow, Clock::AUFSO_Slow, Clock::AUFSO_UseTod}; unsigned p = symx_choice(5, "policy"); Clock::clock_rate = -Double::Inf; Clock::allowUnsafeFrequencyScaling(pol[p]); CHECK(Clock::getFrequencyScalingInfo().first == pol[p], "the policy set"); if (p == 4) { CHECK(Clock::isCalibrated(), "nothing to calibrate"); Clock::calibrateClock(); CHECK(Clock::getFrequencyScalingInfo().second, "assumed"); } else { CHECK(!Clock::isCalibrated(), "not yet calibrated"); rate(1); CHECK(Clock::isCalibrated(), "calibrated"); }
    Clock c; int nc = g_nc; (void)nc; Tfrac t0 = c.todccTfrac(); CHECK(t0 == tod(0) && g_nt == 1, "the first time is the clock's"); 
    if (p >= 2) { Tfrac t1 = c.todccTfrac(); CHECK(t1 == tod(1) && g_nt == 2, "always the clock's time"); CHECK(c.nrecalibrate == 0, "no calibration"); } symx_reach("end");
}
ENTRY(t_interval) { rate(symx_choice(3, "rate")); setup(1, true); Clock::clock_rate = 1u << symx_choice(12, "mhz"); Clock c; CHECK(c.recalibrate_interval_cycles == (uint64_t)(1000 * Clock::clock_rate), "one millisecond by default"); unsigned ms = symx_val(8, "ms"); symx_assume(ms > 0); double f = Clock::inverse_clock_rate_tfrac < 1 ? 1 : Clock::inverse_clock_rate_tfrac, cyc = (double)ms / 128.0 * 1e6 * Clock::clock_rate; bool fits = cyc * f < (double)(1 << 30); symx_reach("end"); if (!fits) symx_allow_abort(1); c.setRecalibrateIntervalSeconds((double)ms / 128.0); symx_allow_abort(0); CHECK(fits, "an interval too long for the arithmetic is refused"); CHECK(c.recalibrate_interval_cycles == (uint64_t)cyc, "the interval in cycles"); }
// the time of day in every form
ENTRY(t_conv) { setup(1, true); g_tv[0].tv_sec = sym<uint32_t>("sec"); unsigned u = symx_val(6, "us"); g_tv[0].tv_usec = 999936 + u; Tfrac t = Clock::todTfrac(); CHECK(t >> 32 == (uint64_t)g_tv[0].tv_sec && Clock::TfracToMicroSec(t) == 999936 + u, "the time of day"); symx_reach("end"); }
