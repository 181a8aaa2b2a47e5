// Conversions between clock representations: round trips, nearest values, monotonicity.
//@ define SYMX_FORMAT=1
//@ nativesrc src/AssertBoost.cpp src/StringUtil.cpp
//@ define SYS_POSIX=1
//@ assume IEEE double arithmetic, rounding to nearest
//@ bound every 32-bit second; every microsecond (quick: every 32nd window of 256); nanoseconds in windows of 2^B consecutive values (quick 8, thorough 9) at the start, the end, the middle and at values that broke older code; fractions of 32 bits in windows likewise; seconds as doubles: every 32-bit fraction F bits wide (quick 8, thorough 12), halves of a unit and values next to a whole second
//@ entry c_micro quick="B=8,STRIDE=32" thorough="B=8,STRIDE=1" reach=end
//@ entry c_nano quick="B=8" thorough="B=9" reach=end
//@ entry c_back quick="B=10" thorough="B=12" reach=end
//@ entry c_double quick="F=8" thorough="F=11" reach=end
//@ entry c_seconds quick="F=8" thorough="F=12" reach=end
//@ entry c_edge reach=end
//@ entry c_offset quick="F=8" thorough="F=12" reach=end
//@ entry c_range reach=end
#include "symx.h"
#include <Lintel/Clock.hpp>
typedef Clock::Tfrac Tfrac;
static uint32_t window(uint32_t limit, unsigned b) { // limit: number of values
    if (limit == 1000000) { uint32_t lo = symx_val(b, "low"); uint32_t n = limit - 1 >> b, st = symx_param("STRIDE", 32), h = symx_choice((n + st - 1) / st + 1, "high") * st; if (h > n) h = n; uint32_t v = (h << b) + lo; symx_assume(v < limit); return v; }
    uint32_t lo = symx_val(b, "low"), base; switch (symx_choice(7, "window")) { case 0: base = 0; break; case 1: base = limit - (1u << b); break; case 2: base = limit / 2 - (1u << (b - 1)); break; case 3: base = (limit >> b) / 3 << b; break; case 4: base = (uint32_t)((uint64_t)limit * 7 / 10); break; case 5: base = limit / 10 - 3; break; default: base = limit / 16 - 5; } return base + lo;
}
static void units(uint32_t per) {
    uint32_t s = sym<uint32_t>("sec"), u = window(per, symx_param("B", 5)); Tfrac t = per == 1000000 ? Clock::secMicroToTfrac(s, u) : Clock::secNanoToTfrac(s, u);
    CHECK(t >> 32 == s, "the seconds are kept"); uint64_t f = t & 0xffffffffu; CHECK(f * per >= (uint64_t)u << 32 && (f == 0 || (f - 1) * per < (uint64_t)u << 32), "the fraction is the first not before the time");
    CHECK(Clock::TfracToSec(t) == s, "seconds back"); CHECK((per == 1000000 ? Clock::TfracToMicroSec(t) : Clock::TfracToNanoSec(t)) == u, "the same unit back");
    if (per == 1000000) { CHECK(Clock::TfracToTll(t) == (int64_t)s * 1000000 + Clock::TfracToMicroSec(t), "microseconds since the epoch"); struct timeval v = Clock::TfracToStructTimeval(t); CHECK((v.tv_sec == (int64_t)s) & (v.tv_usec == (int64_t)Clock::TfracToMicroSec(t)), "the same timeval back"); } symx_reach("end");
}
ENTRY(c_micro) { units(1000000); }
ENTRY(c_nano) { units(1000000000); }
ENTRY(c_back) { // units of any fraction: the last not after it, below one second
    unsigned b = symx_param("B", 5); uint32_t s = sym<uint32_t>("sec"), f = symx_val(b, "f"); switch (symx_choice(5, "at")) { case 0: break; case 1: f = ~f; break; case 2: f += 0x7fffffe8u; break; case 3: f = f << (32 - b); break; default: f += 0x1999998u; } Tfrac t = (uint64_t)s << 32 | f;
    uint32_t us = Clock::TfracToMicroSec(t), ns = Clock::TfracToNanoSec(t); CHECK(us < 1000000 && ns < 1000000000, "a fraction is below one second"); CHECK(us == (uint64_t)f * 1000000 >> 32, "microseconds are rounded down"); CHECK(ns == (uint64_t)f * 1000000000 >> 32, "nanoseconds are rounded down"); symx_reach("end");
}
ENTRY(c_double) { unsigned b = symx_param("F", 8); uint32_t s = symx_val(b, "sec"), f = symx_val(b, "f"); if (symx_choice(2, "high")) s = ~s; switch (symx_choice(3, "at")) { case 0: break; case 1: f = ~f; break; default: f <<= 32 - b; } Tfrac t = (uint64_t)s << 32 | f; double d = Clock::TfracToDouble(t); CHECK(d >= s && d <= s + 1.0, "within the second"); symx_reach("end");
  int64_t i = (int64_t)(t >> 1); CHECK(Clock::int64TfracToDouble(i) == Clock::TfracToDouble(i), "positive differences"); CHECK(Clock::int64TfracToDouble(-i) == -Clock::TfracToDouble(i), "negative differences mirror"); }
// doubles that are exact in the representation come back as they are
ENTRY(c_seconds) { unsigned b = symx_param("F", 8); uint32_t s = symx_val(b, "sec"); uint32_t f = symx_val(b, "f"); switch (symx_choice(3, "at")) { case 0: break; case 1: f = ~f; break; default: f <<= 32 - b; } Tfrac t = (uint64_t)s << 32 | f; double d = (double)t / 4294967296.0; CHECK(Clock::secondsToTfrac(d) == t, "an exact time is kept"); CHECK(Clock::secondsToTfrac(Clock::TfracToDouble(t)) == t, "the same time back"); symx_reach("end"); }
// fractions of a unit: nearest, also next to a whole second
ENTRY(c_edge) { uint32_t s = symx_choice(3, "sec") * 1000; int k = symx_val(4, "k"); uint64_t eighths = (((uint64_t)s + 1) << 35) + k - 8; double d = (double)eighths / 34359738368.0; Tfrac t = Clock::secondsToTfrac(d); int64_t err = (int64_t)(t << 3) - (int64_t)eighths; CHECK(err <= 4 && err >= -4, "the nearest representable time"); symx_reach("end"); }
ENTRY(c_offset) { unsigned b = symx_param("F", 8); Tfrac t = sym<uint64_t>("t"); uint64_t o = symx_val(b, "off"); if (symx_choice(2, "big")) o <<= 30; double d = (double)o / 4294967296.0; CHECK(Clock::TfracOffsetDouble(t, d) == t + o, "later by the offset"); CHECK(Clock::TfracOffsetDouble(t, -d) == t - o, "earlier by the offset"); symx_reach("end"); }
ENTRY(c_range) { static const double big[] = {4294967295.0, 4294967296.0, 1e12, 1.0 / 0.0, 0.0 / 0.0}; double d = big[symx_choice(5, "big")]; symx_reach("end"); symx_allow_abort(1); Clock::secondsToTfrac(d); symx_allow_abort(0); symx_fail("a time out of range is refused"); }
