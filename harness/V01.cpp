// Simple statistics: count, sums, extremes and moments of exactly the values added, however they are split and merged.
//@ src src/Stats.cpp src/Double.cpp
//@ define SYMX_FORMAT=1
//@ assume values are finite; moments are compared with the same formula in double arithmetic, sums of integral values exactly
//@ bound up to N symbolic 12-bit signed integral or quarter values, every split into two statistics that are then merged in either direction, resets in between; up to R resets (quick 5, thorough 11) before adding; one fully symbolic double
//@ entry s_add quick="N=4" thorough="N=5" reach=end
//@ entry s_merge quick="N=3" thorough="N=5" reach=end
//@ entry s_spread quick="N=3" thorough="N=4" reach=end
//@ entry s_reset quick="R=6" thorough="R=12" reach=end
//@ entry s_any reach=end
#include "symx.h"
#include <Lintel/Double.hpp>
#include <Lintel/Stats.hpp>
static double v[8]; static unsigned n;
static void pick() { n = symx_choice(symx_param("N", 4) + 1, "n"); double scale = symx_choice(2, "scale") ? 1.0 : 0.25; for (unsigned i = 0; i < n; i++) v[i] = (double)((int32_t)(symx_val(12, "v") << 20) >> 20) * scale; }
static void verify(const Stats &s, unsigned from, unsigned to) {
    double sum = 0, sq = 0; unsigned k = to - from; for (unsigned i = from; i < to; i++) { sum += v[i]; sq += v[i] * v[i]; }
    CHECK(s.count() == k && s.countll() == k, "count"); CHECK(s.total() == sum, "total"); CHECK(s.total_sq() == sq, "total of squares"); symx_trace(s.count());
    if (k == 0) { CHECK(s.min() == Double::Inf && s.max() == -Double::Inf, "no extremes yet"); CHECK(s.mean() == 0 && s.variance() == 0 && s.stddev() == 0, "empty moments are zero"); return; }
    double mn = s.min(), mx = s.max(); bool in = true, hasn = false, hasx = false; for (unsigned i = from; i < to; i++) { in = in & (v[i] >= mn) & (v[i] <= mx); hasn |= v[i] == mn; hasx |= v[i] == mx; } CHECK(in & hasn, "minimum"); CHECK(in & hasx, "maximum"); double m = s.total() / (double)k; CHECK(s.mean() == m, "mean");
    if ((k & (k - 1)) == 0) { CHECK(s.variance() == s.total_sq() / (double)k - m * m, "variance is the mean square less the squared mean"); CHECK((s.mean() >= mn) & (s.mean() <= mx), "the mean lies between the extremes"); }
}
ENTRY(s_add) { pick(); Stats s; for (unsigned i = 0; i < n; i++) { if (i & 1) s.addTimeSeq(v[i], i); else s.add(v[i]); } verify(s, 0, n); if (symx_choice(2, "reset")) { unsigned r = s.resets(); s.reset(); verify(s, 0, 0); CHECK(s.resets() == r + 1, "resets are counted"); if (n) s.add(v[0]); verify(s, 0, n ? 1 : 0); } Stats *f = s.another_new(); verify(*f, 0, 0); delete f; symx_reach("end"); }
ENTRY(s_merge) {
    pick(); unsigned k = symx_choice(n + 1, "split"); Stats a, b; for (unsigned i = 0; i < n; i++) (i < k ? a : b).add(v[i]); if (symx_choice(2, "direction")) { a.add(b); verify(b, k, n); verify(a, 0, n); } else { b.add(a); verify(a, 0, k); verify(b, 0, n); } symx_reach("end");
}
// standard deviation and confidence interval, by their defining properties
ENTRY(s_spread) {
    unsigned k = 1 + symx_choice(symx_param("N", 3), "n"); Stats s; uint8_t x = sym<uint8_t>("x"); double q = (int8_t)x, sum = 0, sq = 0; for (unsigned i = 0; i < k; i++) { double y = (i & 1) ? 3.0 : q; s.add(y); sum += y; sq += y * y; } double var = sq / k - (sum / k) * (sum / k), sd = s.stddev();
    CHECK(sd >= 0, "not negative"); CHECK(var >= -1e-9 && s.variance() == var, "the variance"); double e = sd * sd - (var > 0 ? var : 0); CHECK(e < 1e-6 && e > -1e-6, "the square root of the variance"); double c = s.conf95() * s.conf95() * k - 1.96 * 1.96 * (var > 0 ? var : 0); CHECK(c < 1e-5 && c > -1e-5, "1.96 standard errors"); if (sum != 0) CHECK(s.relconf95() == s.conf95() / s.mean(), "relative to the mean"); symx_reach("end");
}
// a statistic that has been reset any number of times starts over like a new one
ENTRY(s_reset) { unsigned r = symx_choice(symx_param("R", 5), "resets"); Stats s; for (unsigned i = 0; i < r; i++) { s.add(sym<uint8_t>("old")); s.reset(); } unsigned r0 = s.resets(); n = symx_choice(3, "n"); for (unsigned i = 0; i < n; i++) { v[i] = (int8_t)sym<uint8_t>("v"); s.add(v[i]); } verify(s, 0, n); s.reset(); CHECK(s.resets() == r0 + 1, "resets are counted"); verify(s, 0, 0); symx_reach("end"); }
ENTRY(s_any) { double d = sym<double>("d"); symx_assume(d == d); Stats s; s.add(d); CHECK(s.count() == 1, "count"); CHECK(s.min() == d && s.max() == d, "extremes of any value"); symx_assume((d > -1e300) & (d < 1e300)); CHECK(s.total() == d && s.mean() == d, "total and mean"); symx_reach("end"); }
