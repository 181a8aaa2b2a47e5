// Read/write statistics and the maker of statistics: each value reaches the statistics it is for; names find their kind.
//@ src src/StatsRW.cpp src/StatsMaker.cpp src/StatsSeriesGroup.cpp src/StatsSequence.cpp src/StatsHistogram.cpp src/Stats.cpp src/Double.cpp
//@ define SYMX_FORMAT=1 SYS_POSIX=1
//@ nativesrc src/AssertBoost.cpp src/StringUtil.cpp
//@ symsrc verif:rt/iostream_model.cpp
//@ assume what is printed is not looked at, only which statistics are printed
//@ bound up to N additions (quick 4, thorough 5) in every order of kinds, of symbolic values, to statistics of which any may be absent, or to three groups of intervals; names of up to L characters (quick 1, thorough 3), alone or after one of three beginnings, over a letter, another and the dash against every set of two configured names from seven
//@ entry w_add quick="N=4" thorough="N=5" reach=end
//@ entry w_groups quick="N=3" thorough="N=4" reach=end
//@ entry w_names quick="L=1" thorough="L=3" reach=end
//@ entry w_kinds reach=end
#include "symx.h"
#include <sstream>
#include <vector>
#include <Lintel/Double.hpp>
#include <Lintel/StatsRW.hpp>
#include <Lintel/StatsMaker.hpp>
#include <Lintel/StatsSeriesGroup.hpp>
using std::vector; using std::string;
static int g_printed[3], g_gone;
struct Probe : Stats { int who; Probe(int w) : who(w) {} virtual ~Probe() { g_gone |= 1 << who; } virtual void printRome(int, std::ostream &) const { g_printed[who]++; } virtual void printTabular(int, std::ostream &) const { g_printed[who]++; } };
static uint64_t g_outbuf[64];
static std::ostream &out() {
#ifdef SYMX_NATIVE
    static std::ostringstream o; return o;
#else
    return *(std::ostream *)g_outbuf;
#endif
}
ENTRY(w_add) {
    g_gone = 0; g_printed[0] = g_printed[1] = g_printed[2] = 0; unsigned have = symx_choice(8, "have"); Probe *p[3]; for (int i = 0; i < 3; i++) p[i] = have >> i & 1 ? new Probe(i) : NULL; StatsRW *rw = new StatsRW(p[0], p[1], p[2]); bool own = false; double sum[3] = {0, 0, 0}; unsigned cnt[3] = {0, 0, 0}; unsigned n = symx_choice(symx_param("N", 4) + 1, "n");
    for (unsigned i = 0; i < n; i++) { unsigned m = symx_choice(3, "mode"); double v = (double)(int8_t)symx_val(8, "v"); rw->add(v, m == 0 ? StatsRW::Read : m == 1 ? StatsRW::Write : StatsRW::All, i); if (m == 2) { if (!own) { own = true; sum[2] = 0; cnt[2] = 0; } sum[2] += v; cnt[2]++; } else { sum[m] += v; cnt[m]++; if (!own) { sum[2] += v; cnt[2]++; } } }
    for (int i = 0; i < 3; i++) if (p[i]) CHECK(p[i]->count() == cnt[i] && p[i]->total() == sum[i], "each kind has its values; all has every one, until values are given to it alone");
    bool tab = symx_choice(2, "tabular"); if (tab) rw->printTabular(0, out()); else rw->printRome(2, out()); for (int i = 0; i < 3; i++) CHECK(g_printed[i] == (p[i] && cnt[i] ? 1 : 0), "each kind with values is printed once"); delete rw; CHECK(g_gone == (int)have, "the statistics handed over are destroyed"); symx_reach("end");
}
// three groups of intervals begin together, however the values come
ENTRY(w_groups) {
    StatsSeriesGroup *g[3]; for (int i = 0; i < 3; i++) g[i] = new StatsSeriesGroup("g", 2); StatsRW rw(g[0], g[1], g[2]); unsigned n = symx_param("N", 3); bool own = false; unsigned cnt[3] = {0, 0, 0}; double t = 1; for (unsigned i = 0; i < n; i++) { unsigned m = symx_choice(3, "mode"); rw.add((double)(int8_t)symx_val(8, "v"), m == 0 ? StatsRW::Read : m == 1 ? StatsRW::Write : StatsRW::All, t); if (m == 2) { if (!own) cnt[2] = 0; own = true; cnt[2]++; } else { cnt[m]++; if (!own) cnt[2]++; } t += symx_choice(2, "later") ? 2.0 : 0.5; }
    for (int i = 0; i < 3; i++) CHECK(g[i]->count() == cnt[i], "each group has its values"); CHECK(g[0]->getSeriesLength() >= 1 && g[1]->getSeriesLength() >= 1, "the groups begin together"); symx_reach("end");
}
static unsigned binsOf(Stats *s) { StatsHistogramUniform *h = dynamic_cast<StatsHistogramUniform *>(s); unsigned r = h ? h->numBins() : 0; delete s; return r; }
// the longest configured prefix of a name, cut before groups of dashes, decides
ENTRY(w_names) {
    static const char *known[] = {"a", "b", "a-b", "a-a", "a-b-a", "ab", "a--b"}; unsigned x = symx_choice(7, "first"), y = symx_choice(7, "second"); bool dflt = symx_choice(2, "default"); if (y <= x) symx_end(); StatsMaker::setModeHistogram(known[x], StatsHistogram::Uniform, 2, 0, 1); StatsMaker::setModeHistogram(known[y], StatsHistogram::Uniform, 4, 0, 1); if (dflt) StatsMaker::setModeHistogram("default", StatsHistogram::Uniform, 6, 0, 1);
    static const char *pre[] = {"", "a-", "a-b", "a--"}; string name = pre[symx_choice(4, "prefix")]; unsigned len = symx_choice(symx_param("L", 4) + 1, "len"); for (unsigned i = 0; i < len; i++) { char c = (char)sym<uint8_t>("c"); symx_assume((c == 'a') | (c == 'b') | (c == '-')); name += c; } string q = name; unsigned want = 0; bool done = false; while (!done) { if (q == known[x]) { want = 2; break; } if (q == known[y]) { want = 4; break; } size_t d = q.rfind('-'); if (d == string::npos) { want = dflt ? 6 : 0; break; } while (d > 0 && q[d - 1] == '-') d--; q = q.substr(0, d); }
    for (int i = 0; i < 2; i++) CHECK(binsOf(StatsMaker::make(name)) == want, "the longest configured name decides, then the default"); symx_reach("end");
}
ENTRY(w_kinds) { // each mode makes the kind it names, with the settings given
    vector<double> r(3); r[1] = 1; r[2] = 2; unsigned k = symx_choice(6, "kind"); StatsMaker::setModeSimple("n-read"); switch (k) { case 0: StatsMaker::setModeSimple("n"); break; case 1: StatsMaker::setModeHistogram("n", StatsHistogram::Uniform, 4, 1, 5, true, false); break; case 2: StatsMaker::setModeHistogram("n", StatsHistogram::UniformAccum, 4, 1, 5, false, true); break; case 3: StatsMaker::setModeHistogramGroup("n", StatsHistogram::Uniform, 2, r); break; case 4: StatsMaker::setModeSequence("n", 4); break; default: setModeHistogram("n", "Log", 4, 1, 16, false, false); }
    Stats *s = StatsMaker::make("n-x"); StatsHistogramUniform *u = dynamic_cast<StatsHistogramUniform *>(s); CHECK(s->count() == 0, "new"); CHECK((u != NULL) == (k == 1 || k == 2), "a histogram with bins of one width when asked for"); if (u) CHECK(u->numBins() == 4 && u->low() == 1 && u->high() == 5 && u->isScalable() == (k == 1) && u->isGrowable() == (k == 2) && (dynamic_cast<StatsHistogramUniformAccum *>(s) != NULL) == (k == 2), "the settings given"); CHECK((dynamic_cast<StatsHistogramGroup *>(s) != NULL) == (k == 3) && (dynamic_cast<StatsSequence *>(s) != NULL) == (k == 4) && (dynamic_cast<StatsHistogramLog *>(s) != NULL) == (k == 5), "the kind asked for"); delete s;
    StatsRW *rw = StatsMaker::makeRW("n"); double v = k == 5 ? 3.0 : (double)symx_val(4, "v"); rw->add(v + 1, StatsRW::Read); rw->add(v + 1, StatsRW::Write); delete rw; symx_reach("end");
}
