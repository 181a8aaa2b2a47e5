// Histograms with bins of one width: every value is counted once, in the bin whose range holds it, through rescaling and growing.
//@ src src/StatsHistogram.cpp src/Stats.cpp src/Double.cpp
//@ define SYMX_FORMAT=1
//@ nativesrc src/AssertBoost.cpp src/StringUtil.cpp
//@ define SYS_POSIX=1
//@ assume the placement of values is compared with the bin limits for limits and values exact in double arithmetic; for other limits totals and memory safety only
//@ bound histories of up to N additions (quick 2 or 3, thorough 3 or 4) of symbolic 4 to 7-bit values around ranges of 2 to 6 bins, fixed, scalable and growable, resets between; one arbitrary double per history over ranges whose bin width is rounded; groups of up to three ranges
//@ entry u_history quick="N=2" thorough="N=3" reach=end opts="--mux 1"
//@ entry u_any reach=end
//@ entry u_accum quick="N=2" thorough="N=3" reach=end opts="--mux 1"
//@ entry u_summary quick="N=3" thorough="N=4" reach=end opts="--mux 1"
//@ entry u_group quick="N=2" thorough="N=3" reach=end opts="--mux 1"
//@ entry u_refuse reach=end
//@ entry l_accum reach=end
#include "symx.h"
#include <math.h>
#include <vector>
#include <Lintel/Double.hpp>
#include <Lintel/StatsHistogram.hpp>
using std::vector;
// -16 to 15.75 by quarters, or -8 to 7 in four grids beside each other
static bool g_coarse;
static double value() { if (g_coarse) { static const double off[] = {0, 0.75}; return (double)((int32_t)(symx_val(4, "v") << 28) >> 28) + off[symx_choice(2, "grid")]; } return (double)((int32_t)(symx_val(7, "v") << 25) >> 25) * 0.25; }
struct Vals { double v[8], d[8]; int n; Vals() : n(0) {} };
static void counted(const StatsHistogram &h, const Vals &x, bool clamp, const StatsHistogramUniformAccum *acc = NULL) {
    unsigned nb = h.numBins(); unsigned long total = 0; bool every = true, sums = true; CHECK(h.binlow(0) == h.low() && h.binhigh(nb - 1) == h.high(), "the bins make up the range");
    for (unsigned b = 0; b < nb; b++) {
        double lo = h.binlow(b), hi = h.binhigh(b), sum = 0; CHECK(hi - lo == h.binWidth(b) && h.bincenter(b) == lo + (hi - lo) / 2, "width and centre"); unsigned long want = 0;
        for (int i = 0; i < x.n; i++) { bool in = (x.v[i] >= lo) & (x.v[i] < hi); if (clamp) in = in | ((b == 0) & (x.v[i] < lo)) | ((b == nb - 1) & (x.v[i] >= hi)); want += in; sum += in ? x.d[i] : 0.0; }
        unsigned long got = h[b]; every = every & (got == want); total += got; if (acc) { double s = acc->value(b); sums = sums & (s == sum); }
    }
    CHECK(every, "each bin counts the values in its range"); CHECK(total == (unsigned long)x.n && h.countll() == (uint64_t)x.n, "every value is counted once"); CHECK(sums, "each bin sums the data of its values");
}
static unsigned g_bins; static double g_low, g_high;
static void range() { static const unsigned bins[] = {4, 1, 6}; unsigned k = symx_choice(3, "bins"); g_bins = bins[k]; g_low = k == 0 ? -2 : k == 1 ? 1 : 0; g_high = k == 0 ? 2 : k == 1 ? 5 : 3; }
ENTRY(u_history) {
    int n = symx_param("N", 3); range(); unsigned mode = symx_choice(3, "mode"); g_coarse = mode == 2 || n > 2; Vals x; int64_t live = symx_live(); { StatsHistogramUniform h(g_bins, g_low, g_high, mode == 1, mode == 2); CHECK(h.isScalable() == (mode == 1) && h.isGrowable() == (mode == 2), "the kind asked for"); unsigned nb = h.numBins(); CHECK(nb == (g_bins + 1) / 2 * 2, "an even number of bins"); CHECK(h.low() == g_low && h.high() == g_high, "the range asked for"); double w = h.binWidth();
    unsigned again = g_bins == 4 ? symx_choice(2, "reset") * 2 : 0; unsigned changes = 0;
    for (int i = 0; i < n; i++) {
        if (again == (unsigned)i + 1) { h.reset(); x.n = 0; changes = 0; CHECK(h.numRescales() == 0, "a reset forgets the rescalings"); counted(h, x, false); }
        double v = value(), lo = h.low(), hi = h.high(), bw = h.binWidth(); unsigned b0 = h.numBins(); bool in = (v >= lo) & (v < hi); x.v[x.n] = x.d[x.n] = v; x.n++; if (i & 1) h.add(v, v); else h.add(v);
        if (mode == 0) CHECK(h.low() == lo && h.high() == hi && h.numBins() == b0 && h.binWidth() == bw, "a fixed range stays");
        else { CHECK((h.low() <= lo) & (h.high() >= hi), "the range only widens"); CHECK((v >= h.low()) & (v < h.high()), "the range covers the value"); bool same = (h.low() == lo) & (h.high() == hi); CHECK(same == in, "the range changes only for a value outside it"); changes += !in; CHECK(h.numRescales() == changes, "changes of range are counted"); }
        if (mode == 1) CHECK(h.numBins() == nb, "scaling keeps the number of bins"); if (mode == 2) CHECK(h.binWidth() == w, "growing keeps the width of the bins");
    }
    counted(h, x, mode == 0); StatsHistogramUniform *f = dynamic_cast<StatsHistogramUniform *>(h.another_new()); CHECK(f && f->count() == 0 && f->numBins() >= h.numBins() && f->low() == h.low() && f->high() == h.high() && f->isScalable() == h.isScalable() && f->isGrowable() == h.isGrowable(), "another one of the same kind"); delete f; } CHECK(symx_live() == live, "no memory is lost"); symx_reach("end");
}
// limits whose bin width is rounded, and any double: nothing outside the bins is touched, the value is counted once, and at the proper end
ENTRY(u_any) {
    static const double lim[][2] = {{0, 1}, {0.1, 1.1}, {-1, 1e-17}, {0, 1e300}}; unsigned k = symx_choice(4, "range"), bins = 2 * (1 + symx_choice(4, "bins")); double v = sym<double>("v"); StatsHistogramUniform h(bins, lim[k][0], lim[k][1]); h.add(v); unsigned long total = 0; for (unsigned b = 0; b < h.numBins(); b++) total += h[b];
    CHECK(total == 1, "the value is counted once"); CHECK(!(v < h.low()) || h[0] == 1, "what is below the range counts in the first bin"); CHECK(!(v >= h.high()) || h[bins - 1] == 1, "what is above the range counts in the last bin"); symx_reach("end");
}
ENTRY(u_accum) {
    int n = symx_param("N", 2); range(); unsigned mode = symx_choice(3, "mode"); g_coarse = true; Vals x; int64_t live = symx_live(); { StatsHistogramUniformAccum h(g_bins, g_low, g_high, mode == 1, mode == 2); unsigned again = g_bins == 4 ? symx_choice(2, "reset") * 2 : 0; double sum = 0;
    for (int i = 0; i < n; i++) { if (again == (unsigned)i + 1) { h.reset(); x.n = 0; sum = 0; counted(h, x, false, &h); } double v = value(), d = i ? value() : v; sum += d; x.v[x.n] = v; x.d[x.n++] = d; if (i) h.add(v, d); else h.add(v); if (mode) CHECK((v >= h.low()) & (v < h.high()), "the range covers the value"); }
    counted(h, x, mode == 0, &h); CHECK(h.total() == sum, "the data are summarised"); StatsHistogramUniformAccum *f = dynamic_cast<StatsHistogramUniformAccum *>(h.another_new()); CHECK(f && f->count() == 0 && f->low() == h.low() && f->high() == h.high() && f->isScalable() == h.isScalable() && f->isGrowable() == h.isGrowable(), "another one of the same kind"); delete f; } CHECK(symx_live() == live, "no memory is lost"); symx_reach("end");
}
// mode and percentiles, from the bin counts
ENTRY(u_summary) {
    int n = 1 + symx_choice(symx_param("N", 3), "n"); range(); g_coarse = true; bool accum = symx_choice(2, "accum"); StatsHistogramUniform *h = accum ? new StatsHistogramUniformAccum(g_bins, g_low, g_high) : new StatsHistogramUniform(g_bins, g_low, g_high); for (int i = 0; i < n; i++) h->add(value());
    unsigned nb = h->numBins(); unsigned long max = 0; for (unsigned b = 0; b < nb; b++) { unsigned long c = (*h)[b]; max = c > max ? c : max; } double m = h->mode(); bool fits = false; for (unsigned b = 0; b < nb; b++) fits = fits | ((m == h->bincenter(b)) & ((*h)[b] == max)); CHECK(fits, "the mode is the centre of a fullest bin");
    static const double ps[] = {0.25, 0.5, 0.75, 1}; double p = ps[symx_choice(4, "p")], t = p * n, x = h->percentile(p); double cum = 0, prev = 0; bool right = false; for (unsigned b = 0; b < nb; b++) { double c = cum + (double)(*h)[b]; bool here = (cum < t) & (c >= t); double s = (double)(*h)[b]; double exact = s > 0 ? h->binlow(b) + h->binWidth() * ((t - cum) / s) : 0.0; double e = x - exact; right = right | (here & (e < 1e-9) & (e > -1e-9)); cum = c; } (void)prev; CHECK(right, "the percentile is interpolated in the bin that reaches it"); delete h; symx_reach("end");
}
ENTRY(u_group) {
    int n = symx_param("N", 2); unsigned k = 1 + symx_choice(3, "ranges"); static const double lim[] = {-3, 0, 1, 5}; vector<double> r(lim, lim + k + 1); bool mixed = k == 3 && symx_choice(2, "mixed"); vector<StatsHistogram::HistMode> ms; vector<int> nb; for (unsigned i = 0; i < k; i++) { ms.push_back(i & 1 ? StatsHistogram::UniformAccum : StatsHistogram::Uniform); nb.push_back(i == 2 ? 4 : 2); }
    int64_t live = symx_live(); { StatsHistogramGroup *g = mixed ? new StatsHistogramGroup(ms, nb, r) : new StatsHistogramGroup(StatsHistogram::UniformAccum, 2, r); Vals part[3]; double sum = 0, ls = 0, hs = 0; unsigned ln = 0, hn = 0; bool again = k == 2 && symx_choice(2, "reset"); if (again) { g->add(value()); g->reset(); CHECK(g->count() == 0 && g->getLow().count() == 0 && g->getHigh().count() == 0, "a reset forgets everything"); }
    for (int i = 0; i < n; i++) { double v = value(), d = (i & 1) && !mixed ? value() : v; if (i & 1) g->add(v, d); else g->add(v); sum += d; if (v < r[0]) { ln++; ls += d; } else if (v >= r[k]) { hn++; hs += d; } else for (unsigned j = 0; j < k; j++) if (v >= r[j] && v < r[j + 1]) { part[j].v[part[j].n] = v; part[j].d[part[j].n++] = d; } }
    CHECK(g->count() == (unsigned long)n && g->total() == sum, "everything is summarised"); CHECK(g->getLow().count() == ln && g->getLow().total() == ls, "what lies below all ranges"); CHECK(g->getHigh().count() == hn && g->getHigh().total() == hs, "what lies above all ranges");
    for (unsigned j = 0; j < k; j++) { const StatsHistogram &h = g->getHistogram(j); CHECK(h.low() == r[j] && h.high() == r[j + 1] && h.numBins() == (mixed ? (unsigned)nb[j] : 2), "a histogram for each range"); counted(h, part[j], false, dynamic_cast<const StatsHistogramUniformAccum *>(&h)); } delete g; } CHECK(symx_live() == live, "no memory is lost"); symx_reach("end");
}
ENTRY(u_refuse) {
    unsigned c = symx_choice(12, "case"); if (c >= 3) { symx_reach("end"); }
    StatsHistogramUniform h(4, 0, 4); StatsHistogramUniformAccum a(3, 0, 4); Vals x; x.v[0] = x.d[0] = 1; x.n = 1; h.add(1.0); Stats s; vector<double> one(1), two(2); two[1] = 1; vector<StatsHistogram::HistMode> ms(2, StatsHistogram::Uniform); vector<int> nb(1, 2); volatile double sink = 0;
    if (c == 0) { double v = sym<double>("p"); bool ok = (v >= 0) & (v <= 1); if (!ok) symx_allow_abort(1); sink = h.percentile(v); symx_allow_abort(0); CHECK(ok, "a percentile outside 0 to 1 is refused"); return; }
    if (c == 1) { uint32_t i = sym<uint32_t>("i"); bool ok = i < 4; if (!ok) symx_allow_abort(1); sink = h[i]; symx_allow_abort(0); CHECK(ok, "a bin that is not there is refused"); return; }
    if (c == 2) { uint32_t i = sym<uint32_t>("i"); bool ok = i < 4; if (!ok) symx_allow_abort(1); sink = a.value(i); symx_allow_abort(0); CHECK(ok, "a bin that is not there is refused"); return; }
    if (c == 3) { double v = value(), d = value(); bool ok = v == d; if (!ok) symx_allow_abort(1); h.add(v, d); symx_allow_abort(0); CHECK(ok, "data other than the value is refused"); return; }
    symx_allow_abort(1);
    switch (c) { case 4: { StatsHistogramUniform b(0, 0, 1); break; } case 5: { StatsHistogramUniform b(2, 1, 0.5); break; } case 6: { StatsHistogramUniform b(2, 0, 1, true, true); break; } case 7: static_cast<StatsHistogram &>(h).add(s); break; case 8: { StatsHistogramGroup g(StatsHistogram::Uniform, 2, one); break; } case 9: { StatsHistogramGroup g(ms, nb, two); break; } case 10: { StatsHistogramGroup g(StatsHistogram::Uniform, 2, two); g.getHistogram(1); break; } default: { StatsHistogramGroup g(StatsHistogram::Uniform, 2, two); static_cast<Stats &>(g).add(s); } }
    symx_allow_abort(0); CHECK(false, "misuse is refused"); (void)sink;
}
// logarithmic bins with sums release what they hold
ENTRY(l_accum) { int64_t live = symx_live(); { StatsHistogramLogAccum h(1 + symx_choice(4, "bins"), 1, 16); CHECK(h.numBins() % 2 == 0 && h.count() == 0, "an even number of bins, empty"); for (unsigned b = 0; b < h.numBins(); b++) CHECK(h[b] == 0 && h.value(b) == 0, "empty bins"); } CHECK(symx_live() == live, "no memory is lost"); symx_reach("end"); }
