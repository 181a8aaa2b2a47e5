// Statistics over a sequence: autocovariance of a series, groups of intervals, exponential moving averages.
//@ src src/StatsSeries.cpp src/StatsSeriesGroup.cpp src/StatsEMA.cpp src/StatsMaker.cpp src/StatsSequence.cpp src/StatsHistogram.cpp src/StatsRW.cpp src/Stats.cpp src/Double.cpp
//@ define SYMX_FORMAT=1 SYS_POSIX=1
//@ nativesrc src/AssertBoost.cpp src/StringUtil.cpp
//@ symsrc verif:rt/iostream_model.cpp
//@ assume values are small whole numbers, for which the sums are exact; autocovariances and averages are compared within a relative 1e-9 where division rounds
//@ bound series of up to N values (quick 5, thorough 7) of 4 bits, every lag up to a maximum of 1 to 3, resets; interval groups of up to G additions (quick 3, thorough 5) at 5-bit times for two interval widths; averages of up to M values (quick 6, thorough 8) with one and two decay rates
//@ entry e_series quick="N=5" thorough="N=7" reach=end
//@ entry e_group quick="G=3" thorough="G=5" reach=end opts="--mux 1"
//@ entry e_ema quick="M=6" thorough="M=8" reach=end
//@ entry e_refuse reach=end
#include "symx.h"
#include <math.h>
#include <vector>
#include <Lintel/Double.hpp>
#include <Lintel/StatsSeries.hpp>
#include <Lintel/StatsSeriesGroup.hpp>
#include <Lintel/StatsEMA.hpp>
using std::vector;
static int val(const char *n, unsigned bits) { return (int)(symx_val(bits, n) << (32 - bits)) >> (32 - bits); }
ENTRY(e_series) {
    unsigned n = 1 + symx_choice(symx_param("N", 4), "n"), ml = 1 + symx_choice(3, "maxlag"); int64_t live = symx_live(); { StatsSeries s(ml); CHECK(s.maxlag() == ml, "the longest lag"); bool again = symx_choice(2, "again"); if (again) { for (unsigned i = 0; i < ml + 1; i++) s.add(3.0 + i); s.reset(); CHECK(s.count() == 0, "a reset forgets everything"); }
    // one value is symbolic over its whole width, the others take a few values each
    int z[8]; unsigned who = symx_choice(n, "who"); static const int few[] = {-5, 0, 3}; for (unsigned i = 0; i < n; i++) { z[i] = i == who ? val("v", 4) : few[(i * i + i / 2 + (again ? 1 : 0)) % 3]; s.add((double)z[i]); } long sum = 0; for (unsigned i = 0; i < n; i++) sum += z[i]; CHECK(s.total() == (double)sum && s.count() == n, "the values are summarised");
    // n^3 times the autocovariance is a whole number
    for (unsigned k = 0; k <= ml; k++) { long c = 0; for (unsigned t = 0; t + k < n; t++) c += ((long)n * z[t] - sum) * ((long)n * z[t + k] - sum); double want = (double)c / (double)(n * n * n), got = s.autocovariance(k), e = got - want; CHECK((e < 1e-9) & (e > -1e-9), "the mean of the products of deviations that far apart"); if (k == 0) { double v = s.variance() - got; CHECK((v < 1e-9) & (v > -1e-9), "at no distance it is the variance"); } }
    if (n <= 3) CHECK(!s.iscorrelated95(1), "too few values to tell"); StatsSeries *f = dynamic_cast<StatsSeries *>(s.another_new()); CHECK(f && f->maxlag() == ml && f->count() == 0, "another one of the same kind"); delete f; } CHECK(symx_live() == live, "no memory is lost"); symx_reach("end");
}
ENTRY(e_group) {
    unsigned n = symx_choice(symx_param("G", 3) + 1, "n"); double w = symx_choice(2, "width") ? 4.0 : 1.5; StatsSeriesGroup g("name", w); bool started = symx_choice(2, "started"), again = n < 3 && symx_choice(2, "again"); if (again) { g.addTimeSeq(7, 2); g.addTimeSeq(8, 20); g.reset(); } CHECK(g.count() == 0 && g.total() == 0 && g.getSeriesLength() == 0, "empty to begin with");
    double t0 = -2; double v[8], t[8]; if (started) { g.setSeriesStart(t0); CHECK(g.getSeriesLength() == 1 && g.getSeriesStat(0).count() == 0, "the first interval begins"); }
    for (unsigned i = 0; i < n; i++) { static const double t1[] = {-1.5, 3}; t[i] = i || started ? (double)val("t", 4) / 2 : t1[symx_choice(2, "t0")]; v[i] = (double)val("v", 3); double last = i ? t[i - 1] : started ? t0 : t[0]; bool ok = t[i] >= last; if (!ok) symx_allow_abort(1); g.addTimeSeq(v[i], t[i]); symx_allow_abort(0); CHECK(ok, "times that go back are refused"); }
    if (n && !started) t0 = t[0]; unsigned len = g.getSeriesLength(); double sum = 0; for (unsigned i = 0; i < n; i++) sum += v[i]; CHECK(g.count() == n && g.total() == sum, "everything is summarised"); bool fits = true; unsigned long all = 0; if (n) { double d = t[n - 1] - t0; CHECK((d >= (double)(len - 1) * w) & (d < (double)len * w), "as many intervals as there has been time"); }
    for (unsigned k = 0; k < len; k++) { const Stats &s = g.getSeriesStat(k); unsigned c = 0; double want = 0; for (unsigned i = 0; i < n; i++) { bool in = (t[i] - t0 >= (double)k * w) & (t[i] - t0 < (double)(k + 1) * w); c += in; want += in ? v[i] : 0.0; } fits = fits & (s.count() == c) & (s.total() == want); all += s.count(); } CHECK(fits, "each interval summarises the values of its half-open span"); CHECK(all == n, "every value is in one interval"); symx_reach("end");
}
// the mean until there are more values than one over the rate, from then on the decaying average
ENTRY(e_ema) {
    unsigned m = 1 + symx_choice(symx_param("M", 4), "m"); vector<double> r; static const double rates[] = {0.5, 0.25, 0.3}; unsigned first = symx_choice(3, "rate"); bool two = symx_choice(2, "two"); r.push_back(rates[first]); if (two) r.push_back(rates[(first + 1) % 3]); StatsEMA *e = two ? new StatsEMA(r) : new StatsEMA(rates[first]); double want[2] = {0, 0}; double sum = 0; unsigned who = symx_choice(m, "who");
    for (unsigned i = 0; i < m; i++) { double v = i == who ? (double)val("v", 6) : (double)(int)(i * 5 % 7) - 3; e->add(v); sum += v; for (unsigned k = 0; k < r.size(); k++) { double n = i + 1; if (n > 1.0 / r[k]) want[k] = (1.0 - r[k]) * want[k] + r[k] * v; else want[k] = sum / n; double d = e->getEMA(k) - want[k]; CHECK((d < 1e-9) & (d > -1e-9), "the mean of the first values, then the decaying average"); } }
    double a = e->getEMA(0), b = two ? e->getEMA(1) : a; CHECK(e->minEMA() == (a < b ? a : b) && e->maxEMA() == (a > b ? a : b), "the smallest and the largest average"); CHECK(e->count() == m && e->total() == sum, "the values are summarised"); delete e; symx_reach("end");
}
ENTRY(e_refuse) {
    unsigned c = symx_choice(10, "case"); StatsSeries s(2); StatsSeriesGroup g("x", 1); StatsEMA e(0.5); Stats o; vector<double> none; volatile double sink = 0; s.add(1.0); g.addTimeSeq(1, 1);
    switch (c) {
    case 0: { uint32_t k = sym<uint32_t>("lag"); bool ok = k <= 2; if (!ok) symx_allow_abort(1); sink = s.autocovariance(k); symx_allow_abort(0); CHECK(ok, "a lag that is not kept is refused"); break; }
    case 1: { int32_t k = sym<int32_t>("k"); bool ok = k == 0; if (!ok) symx_allow_abort(1); sink = g.getSeriesStat(k).count(); symx_allow_abort(0); CHECK(ok, "an interval that is not there is refused"); break; }
    case 2: { uint32_t k = sym<uint32_t>("k"); bool ok = k == 0; if (!ok) symx_allow_abort(1); sink = e.getEMA(k); symx_allow_abort(0); CHECK(ok, "an average that is not there is refused"); break; }
    case 3: { double d = sym<double>("rate"); bool ok = (d > 0) & (d < 1); if (!ok) symx_allow_abort(1); StatsEMA x(d); symx_allow_abort(0); CHECK(ok, "a rate outside 0 to 1 is refused"); break; }
    default: symx_reach("end"); symx_allow_abort(1); switch (c) { case 4: { StatsSeries x(0); break; } case 5: g.add(1.0); break; case 6: g.setSeriesStart(5); break; case 7: { StatsEMA x(none); break; } case 8: static_cast<Stats &>(s).add(o); break; default: static_cast<Stats &>(e).add(o); } symx_allow_abort(0); CHECK(false, "misuse is refused");
    } (void)sink;
}
