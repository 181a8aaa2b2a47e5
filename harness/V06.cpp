// Quantiles of a stream: exact while everything fits, within the rank error of the collapses done or asked for, merges and queries that change nothing.
//@ src src/StatsQuantile.cpp src/Stats.cpp src/Double.cpp src/HashFns.cpp src/HashTable.cpp
//@ define SYMX_FORMAT=1 SYS_POSIX=1 DISABLE_DEBUG_LINTELLOG=1
//@ nativesrc src/AssertBoost.cpp src/StringUtil.cpp src/LintelLog.cpp src/SimpleMutex.cpp
//@ nativeflags -lboost_thread
//@ symsrc verif:rt/iostream_model.cpp
//@ assume values are finite; small whole numbers stand for them, since only their order matters
//@ bound streams of up to E (quick 4, thorough 5) values of 3 bits each, all arbitrary, in any order with queries in between; streams of up to N values (quick 46, thorough 80) in four patterns with one arbitrary value of 6 bits (of 1 and 4 bits with many buffers and in quick merges) at any of the places tried, for 2 to 4 buffers of 10 and 11 (thorough) values and 12 buffers of 10; merges of up to three streams; the constructor with four pairs of error and size, with every stream length up to the size in steps; quantiles at every element, between them and at the ends
//@ entry u_exact quick="E=4" thorough="E=5" reach=end
//@ entry u_stream quick="N=46,W=2" thorough="N=80,W=6" reach=end
//@ entry u_asked quick="C=3" thorough="C=5" reach=end
//@ entry u_merge quick="M=1" thorough="M=2" reach=end
//@ entry u_many reach=end
//@ entry u_refuse reach=end
#include "symx.h"
#include <vector>
#include <math.h>
#include <Lintel/Double.hpp>
#include <Lintel/StatsQuantile.hpp>
using std::vector;
// what the properties are about: how many values each kept one stands for, and the buffers' use
class StatsQuantileTest { public:
    static int64_t weight(const StatsQuantile &q) { int64_t w = 0; for (int i = 0; i <= q.cur_buffer; i++) w += q.buffer_weight[i] * (i < q.cur_buffer ? q.buffer_size : q.cur_buffer_pos); return w; }
    static bool full(const StatsQuantile &q) { return q.cur_buffer == q.nbuffers - 1 && q.cur_buffer_pos == q.buffer_size; }
    static int64_t collapsed(const StatsQuantile &q) { return q.buffer_weight[q.cur_buffer - 1]; }
    static int64_t heaviest(const StatsQuantile &q) { int64_t w = 1; for (int i = 0; i <= q.cur_buffer; i++) if (q.buffer_weight[i] > w) w = q.buffer_weight[i]; return w; }
    static double slow(const StatsQuantile &q, uint64_t i) { return q.getQuantileByIndex(i); }
};
typedef StatsQuantileTest X;
// the rank error the collapses done so far allow: half of what their weights exceed their number by, and the heaviest buffer
struct Model { vector<double> v; int64_t w, c, more; Model() : w(0), c(0), more(0) { } double err(const StatsQuantile &q) const { return c ? (double)(w - c - 1) / 2 + (double)X::heaviest(q) + (double)more : (double)more; } };
static void put(StatsQuantile &q, Model &m, double x) { bool col = X::full(q); q.add(x); m.v.push_back(x); if (col) { m.c++; m.w += X::collapsed(q); } }
static double ask(StatsQuantile &q, const Model &m, unsigned j, bool half, double err, const char *what) {
    unsigned n = m.v.size(); double phi = half ? ((double)j + 0.5) / (double)n : (double)j / (double)n; int t = half ? (int)j : j ? (int)j - 1 : 0; double x = q.getQuantile(phi); CHECK(q.countll() == n && X::weight(q) == (int64_t)n, "every value is stood for"); int lo = 0, hi = 0; for (unsigned i = 0; i < n; i++) { lo += m.v[i] < x; hi += m.v[i] <= x; }
    CHECK(lo < hi, "a quantile is one of the values"); int e = (int)floor(err); CHECK((lo - t <= e) & (t - (hi - 1) <= e), what); return x; }
static void all(StatsQuantile &q, const Model &m, double err, unsigned step, const char *what) { double last = 0; unsigned n = m.v.size(); for (unsigned j = 0; j <= n; j += j + step > n && j < n ? n - j : step) { double x = ask(q, m, j, false, err, what); if (j) CHECK(last <= x, "a larger share, no smaller quantile"); last = x; if (step == 1 && j < n) { double y = ask(q, m, j, true, err, what); CHECK(x <= y, "a larger share, no smaller quantile"); last = y; } if (j) CHECK(X::slow(q, j - 1) == x, "both searches agree"); } }
// 64 plus an arbitrary number below 64
static double val(unsigned bits) { uint64_t u = 0x4050000000000000ull | symx_val(bits, "v") << 46; double d; __builtin_memcpy(&d, &u, 8); return d; }
static double pat0(unsigned p, unsigned i) { switch (p) { case 0: return (double)(i & 63); case 1: return (double)(63 - (i * 3 / 2 & 63)); case 2: return (double)((i * 1103515245u + 12345u * (i * i + 7)) >> 9 & 63); default: return i & 1 ? (double)(60 - i % 5) : (double)(i * 7 & 31); } }
static double pat(unsigned p, unsigned i) { return 64 + pat0(p, i); }
static StatsQuantile *make(int b, int k) { return new StatsQuantile("", b, k); }
ENTRY(u_exact) { { StatsQuantile warm(0.19, 100); } int64_t live = symx_live(); { unsigned n = 1 + symx_choice(symx_param("E", 4), "n"), at = symx_choice(n + 1, "query"); bool lazy = symx_choice(2, "lazy"); StatsQuantile q(0.19, 100, 10, lazy); Model m; CHECK(q.getQuantile(0.5) != q.getQuantile(0.5), "no quantile of nothing"); if (at == n) { q.add(77); q.reset(); } for (unsigned i = 0; i < n; i++) { put(q, m, val(3)); if (i == at) all(q, m, 0, 2, "the element at its place, before more are added"); } all(q, m, 0, 1, "the element at its place"); } CHECK(symx_live() == live, "no memory is lost"); symx_reach("end"); }
static void stream(StatsQuantile &q, Model &m, unsigned n, unsigned p, int who, unsigned bits = 6) { for (unsigned i = 0; i < n; i++) put(q, m, (int)i == who ? val(bits) : pat(p, i)); }
ENTRY(u_stream) { int64_t live = symx_live(); { unsigned N = symx_param("N", 46), W = symx_param("W", 3), b = 2 + symx_choice(3, "buffers"), k = 10 + symx_choice(N > 50 ? 2 : 1, "size"), p = symx_choice(4, "pattern"), n = N - symx_choice(3, "less") * (N / 4), who = symx_choice(W, "who") * (n - 1) / (W - 1), mid = (n + p) & 1; StatsQuantile *q = make(b, k); Model m; if ((b + p) & 1) { for (unsigned i = 0; i < b * k + 3; i++) q->add(99 - i); q->reset(); }
    for (unsigned i = 0; i < n; i++) { put(*q, m, i == who ? val(6) : pat(p, i)); if (mid && i % 17 == 8) ask(*q, m, i / 2, false, m.err(*q), "the rank error the collapses allow, in between"); } all(*q, m, m.err(*q), n / 5, "the rank error the collapses allow"); delete q; } CHECK(symx_live() == live, "no memory is lost"); symx_reach("end"); }
ENTRY(u_asked) { static const double eps[] = {0.19, 0.15, 0.1, 0.19, 0.05}; static const int nb[] = {100, 150, 100, 200, 100}; unsigned c = symx_choice(symx_param("C", 3), "configuration"), p = symx_choice(4, "pattern"), n = nb[c] * (2 + symx_choice(4, "length")) / 5, who = symx_choice(3, "who") * (n - 1) / 2; StatsQuantile q(eps[c], nb[c], 10, p & 1); Model m; stream(q, m, n, p, who);
    for (unsigned j = 0; j <= n; j += n / 5) { double phi = (double)j / n, x = q.getQuantile(phi); int lo = 0, hi = 0; for (unsigned i = 0; i < n; i++) { lo += m.v[i] < x; hi += m.v[i] <= x; } CHECK(((double)hi >= ceil((phi - eps[c]) * n)) & ((double)lo + 1 <= ceil((phi + eps[c]) * n)), "within the error asked for"); } symx_reach("end"); }
static void merge(StatsQuantile &a, Model &ma, StatsQuantile &b, const Model &mb, bool copy) { if (copy) { ma.w = mb.w; ma.c = mb.c; ma.more = mb.more; } else { ma.more += (int64_t)ceil(mb.err(b)); Model s; StatsQuantile *q = make(a.getNBuffers(), a.getBufferSize()); for (unsigned i = 0; i < ma.v.size() + mb.v.size(); i++) put(*q, s, 0); ma.w = s.w; ma.c = s.c; delete q; } a.add(static_cast<const Stats &>(b)); ma.v.insert(ma.v.end(), mb.v.begin(), mb.v.end()); }
ENTRY(u_merge) { unsigned M = symx_param("M", 1); static const unsigned len[] = {0, 7, 10, 20, 21, 33}; bool same = symx_choice(2, "same"), nonlazy = symx_choice(2, "allocated"); unsigned n = len[symx_choice(6, "into")], k = len[symx_choice(6, "from")], p = M > 1 ? symx_choice(2, "pattern") : (n + k) & 1, who = symx_choice(1 + M, "who"), q1 = M > 1 ? symx_choice(2, "queried") : n & 1; { StatsQuantile warm(0.19, 100); } int64_t live = symx_live(); { StatsQuantile a("", 2, 13), b("", same ? 2 : 3, same ? 13 : 10), na(0.19, 100, 10, false), nb(0.19, 100, 10, false); StatsQuantile &A = nonlazy ? na : a, &B = nonlazy && same ? nb : b; Model ma, mb;
    stream(A, ma, n, p, who == 0 ? (int)n / 2 : -1, M > 1 ? 6 : 4); stream(B, mb, k, p + 2, who == 1 || !n ? (int)k - 1 : -1, M > 1 ? 6 : 4); if (q1 && k) ask(B, mb, k / 2, false, mb.err(B), "the rank error the collapses allow"); merge(A, ma, B, mb, n == 0 && same); if (n + k) all(A, ma, ma.err(A), (n + k) / 6 + 1, "the rank errors of both"); else CHECK(A.count() == 0, "nothing and nothing");
    if (n == 0 && same && k) for (unsigned j = 0; j <= k; j++) CHECK(A.getQuantile((double)j / k) == B.getQuantile((double)j / k), "a copy is the same"); for (unsigned i = 0; i < 15; i++) put(A, ma, pat(3, i)); all(A, ma, ma.err(A), (n + k) / 4 + 3, "the rank error after more"); if (k) all(B, mb, mb.err(B), k / 4 + 1, "what was merged stays the same"); } CHECK(symx_live() == live, "no memory is lost"); symx_reach("end"); }
ENTRY(u_many) { int64_t live = symx_live(); { StatsQuantile *q = make(12, 10), *r = make(12, 10); Model m, e; stream(*q, m, 123, 2, 119, 1); ask(*q, m, 65, false, m.err(*q), "the rank error the collapses allow"); if (symx_choice(2, "merge")) { merge(*r, e, *q, m, true); ask(*r, e, 65, false, m.err(*r), "the rank error the collapses allow"); } delete q; delete r; } CHECK(symx_live() == live, "no memory is lost"); symx_reach("end"); }
ENTRY(u_refuse) { StatsQuantile q("", 2, 10); Stats plain; plain.add(1.0); volatile double sink = 0; unsigned c = symx_choice(6, "case"); q.add(3.0); switch (c) {
    case 0: { double phi = sym<double>("phi"); bool ok = (phi >= 0) & (phi <= 1); if (!ok) symx_allow_abort(1); sink = q.getQuantile(phi); symx_allow_abort(0); CHECK(ok, "a share outside 0 to 1 is refused"); CHECK(sink == 3.0, "the only value"); break; }
    case 1: { int b = (int)sym<int8_t>("b"), k = (int)sym<int8_t>("k"); symx_assume((b < 6) & (k < 14)); bool ok = (b > 1) & (k >= 10); if (!ok) symx_allow_abort(1); b = (int)symx_concretize(b); k = (int)symx_concretize(k); StatsQuantile x("", b, k); symx_allow_abort(0); CHECK(ok, "too few or too small buffers are refused"); break; }
    case 2: { int64_t n = sym<int8_t>("n"); bool ok = n > 1; if (!ok) symx_allow_abort(1); StatsQuantile x(0.19, n); symx_allow_abort(0); CHECK(ok, "a bound of nothing is refused"); break; }
    case 3: { StatsQuantile x(0.19, 100); for (int i = 0; i < 100; i++) x.add(1.0); sink = x.getQuantile(1); x.add(2.0); CHECK(x.getQuantile(0.5, true) == 1.0, "allowed to go beyond"); symx_allow_abort(1); sink = x.getQuantile(0.5); symx_allow_abort(0); symx_fail("more values than promised are refused"); break; }
    case 4: symx_allow_abort(1); { StatsQuantile x(0.2, 100); } symx_allow_abort(0); symx_fail("too large an error is refused"); break;
    default: symx_allow_abort(1); static_cast<Stats &>(q).add(plain); symx_allow_abort(0); symx_fail("statistics of another kind are refused"); } symx_reach("end"); (void)sink; }
