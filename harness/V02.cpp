// A bounded sequence of statistics: buckets are consecutive equal spans of the values added, merged by the chosen rule.
//@ src src/StatsSequence.cpp src/Stats.cpp src/Double.cpp
//@ define SYMX_FORMAT=1
//@ bound retained sizes 2, 4 and 6, up to ADDS symbolic 6-bit signed values (several rescalings), all three merge rules, reset and reuse
//@ entry q_buckets quick="ADDS=6" thorough="ADDS=9" reach=end
//@ entry q_reset quick="ADDS=4" thorough="ADDS=6" reach=end
//@ entry q_refuse reach=end
#include "symx.h"
#include <Lintel/StatsSequence.hpp>
static double v[16];
static void verify(StatsSequence &s, unsigned n, unsigned retain, int mode) {
    unsigned ppb = 1; while (n > retain * ppb) ppb *= 2; CHECK(s.getPointsPerBucket() == (int)ppb, "points per bucket: the smallest power of two that fits"); unsigned b = n / ppb; CHECK(s.maxSeqNum() == b, "one bucket for every complete span"); CHECK(s.count() == n, "count");
    bool ok = true; for (unsigned i = 0; i < b; i++) { double r = v[i * ppb]; bool mx = true, has = false; double g = s.get(i); for (unsigned j = 1; j < ppb; j++) r += v[i * ppb + j]; for (unsigned j = 0; j < ppb; j++) { mx = mx & (g >= v[i * ppb + j]); has = has | (g == v[i * ppb + j]); } ok = ok & (mode == 0 ? g == r : mode == 1 ? g == r / ppb : mx & has); } CHECK(ok, "a bucket is the sum, mean or maximum of its span");
}
static StatsSequence::mode modes[] = {StatsSequence::MergeSum, StatsSequence::MergeMean, StatsSequence::MergeMax};
static void add(StatsSequence &s, unsigned i) { v[i] = (double)((int8_t)(symx_val(6, "v") << 2) >> 2); s.add(v[i]); }
ENTRY(q_buckets) { unsigned retain = 2 * (1 + symx_choice(3, "retain")); int m = symx_choice(3, "mode"); StatsSequence s(retain, modes[m]); unsigned n = symx_param("ADDS", 7); for (unsigned i = 0; i < n; i++) { add(s, i); if (i + 1 == n || (i & 1)) verify(s, i + 1, retain, m); } double t = 0; for (unsigned i = 0; i < n; i++) t += v[i]; CHECK(s.total() == t, "the total covers every value"); symx_trace(s.maxSeqNum()); symx_reach("end"); }
ENTRY(q_reset) {
    StatsSequence s(2); s.setIntervalWidth(2.0); int m = symx_choice(3, "mode"); s.setMergeMode(modes[m]); unsigned n = 1 + symx_choice(symx_param("ADDS", 4), "n"), k = 1 + symx_choice(3, "k"); for (unsigned i = 0; i < n; i++) add(s, i); verify(s, n, 2, m); s.reset(); verify(s, 0, 2, m); int m2 = symx_choice(3, "mode2"); s.setMergeMode(modes[m2]); for (unsigned i = 0; i < k; i++) add(s, i); verify(s, k, 2, m2); symx_reach("end");
}
ENTRY(q_refuse) { // misuse is refused
    symx_allow_abort(1); switch (symx_choice(4, "what")) {
    case 0: { unsigned r = symx_choice(4, "retain"); symx_allow_abort(r == 0 || (r & 1)); StatsSequence s(r); CHECK(r && !(r & 1), "an odd or zero size is refused"); break; }
    case 1: { StatsSequence s(2); s.add(1); s.setMergeMode(StatsSequence::MergeMax); CHECK(false, "changing the rule after a value is refused"); break; }
    case 2: { StatsSequence s(2); s.add(1); s.setIntervalWidth(3); CHECK(false, "changing the width after a value is refused"); break; }
    case 3: { StatsSequence s(4); unsigned n = symx_choice(4, "n"); for (unsigned i = 0; i < n; i++) s.add(i); uint32_t k = sym<uint32_t>("k"); symx_allow_abort(1); double d = s.get(k); CHECK(k < n && d == (double)k, "a bucket that does not exist is refused"); break; }
    } symx_reach("end");
}
