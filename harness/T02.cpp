// A table from tuples to statistics: every value is counted under its own key, and the walks visit each entry as documented.
//@ src src/HashTable.cpp src/Stats.cpp src/Double.cpp src/HashFns.cpp
//@ bound histories of up to OPS additions, look-ups and prunings with two- and three-component keys over 2-bit values, in any order of traversal the hash produces
//@ entry h_add quick="OPS=4" thorough="OPS=5" reach=end
//@ entry h_prune quick="OPS=4" thorough="OPS=5" reach=end
//@ entry h_zeros quick="OPS=3" thorough="OPS=5" reach=end
//@ entry h_ordered quick="OPS=4" thorough="OPS=5" reach=end
#include "symx.h"
#include <boost/tuple/tuple_comparison.hpp>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/HashMap.hpp>
#include <Lintel/HashTupleStats.hpp>
using namespace lintel; using boost::bind;
typedef boost::tuple<int32_t, uint32_t> T2;
static int alive;
struct St : public Stats { uint32_t n, s; St() : n(0), s(0) { alive++; } ~St() { alive--; } void add(const double v) { n++; s += (uint32_t)v; } void add(const Stats &) { } };  // weights of the values added
typedef HashTupleStats<T2, St> H;
struct Row { uint8_t a, b; uint32_t w; bool live; };
static Row rows[8]; static unsigned nr;
static T2 key(const Row &r) { return T2((int32_t)r.a - 1, r.b); }
static Row sel(const char *n) { Row r; r.a = symx_concretize(symx_val(2, n)); r.b = symx_concretize(symx_val(1, n)); r.w = 0; r.live = true; return r; }
static uint32_t want(uint8_t a, uint8_t b, uint32_t &n) { uint32_t s = 0; n = 0; for (unsigned i = 0; i < nr; i++) if (rows[i].live && rows[i].a == a && rows[i].b == b) { s += rows[i].w; n++; } return s; }
static unsigned keys() { unsigned k = 0; for (unsigned i = 0; i < nr; i++) { bool first = rows[i].live; for (unsigned j = 0; j < i; j++) first = first && !(rows[j].live && rows[j].a == rows[i].a && rows[j].b == rows[i].b); k += first; } return k; }
static void fill(H &h) { nr = 0; unsigned n = symx_param("OPS", 4) - symx_choice(2, "n"); for (unsigned i = 0; i < n; i++) { Row r = sel("k"); r.w = 1u << (4 * i); if (i & 1) h.add(key(r), r.w); else h[key(r)].add(r.w); rows[nr++] = r; } }
static unsigned visits[4][2]; static bool okv; static T2 last; static bool ordered, any;
static void visit(const T2 &k, St &s) { unsigned a = k.get<0>() + 1, b = k.get<1>(); uint32_t n, w = want(a, b, n); CHECK(a < 4 && b < 2, "a key that was added"); visits[a][b]++; okv = okv && s.s == w && s.n == n; if (any) ordered = ordered && last < k; last = k; any = true; }
static void verify(H &h, bool ord) {
    for (int a = 0; a < 4; a++) visits[a][0] = visits[a][1] = 0; okv = ordered = true; any = false; if (ord) h.walkOrdered(visit); else h.walk(visit); CHECK(okv, "each entry holds exactly the values added under its key");
    for (int a = 0; a < 4; a++) for (int b = 0; b < 2; b++) { uint32_t n; want(a, b, n); CHECK(visits[a][b] == (n ? 1u : 0u), "each key is visited exactly once"); } CHECK(h.size() == keys(), "size"); CHECK(alive == (int)keys(), "one statistic for each key"); if (ord) CHECK(ordered, "in key order");
}
static void rest(H &h) { h.clear(); CHECK(h.size() == 0 && alive == 0, "clear deletes every statistic"); Row r = sel("again"); r.w = 5; nr = 0; h.add(key(r), 5); rows[nr++] = r; verify(h, false); }
ENTRY(h_add) { { H h; fill(h); verify(h, false); rest(h); } CHECK(alive == 0, "destruction deletes every statistic"); symx_reach("end"); }
ENTRY(h_ordered) { H h; fill(h); verify(h, true); symx_reach("end"); }
static uint8_t pruneMask; static bool prune(const T2 &k) { return (pruneMask >> ((k.get<0>() + 1) * 2 + k.get<1>())) & 1; }
ENTRY(h_prune) { { H h; fill(h); pruneMask = sym<uint8_t>("mask"); h.prune(prune); for (unsigned i = 0; i < nr; i++) if (prune(key(rows[i]))) rows[i].live = false; verify(h, false); Row r = sel("after"); r.w = 1 << 20; h.add(key(r), r.w); rows[nr++] = r; verify(h, false); } CHECK(alive == 0, "every statistic is deleted once"); symx_reach("end"); }
struct Zs : public Stats { uint32_t n, s; Zs() : n(0), s(0) { alive++; } ~Zs() { alive--; } void add(const double v) { n++; s += (uint32_t)v; } };
static Stats *newZs() { return new Zs; }
static bool cz, okz;
static void zvisit(const T2 &k, Stats &s) { unsigned a = k.get<0>() + 1, b = k.get<1>(); CHECK(a < 4 && b < 2, "a combination of values that were added"); uint32_t n, w = want(a, b, n); visits[a][b]++; const Zs &z = static_cast<const Zs &>(s); okz = okz && (n ? z.n == n && z.s == w : z.n == (cz ? 1u : 0u) && z.s == 0); }
ENTRY(h_zeros) { // the full cross product of the values seen in each component
    { HashTupleStats<T2> h((HashTupleStats<T2>::StatsFactoryFn(newZs))); nr = 0; unsigned n = symx_param("OPS", 3) - symx_choice(2, "n"); for (unsigned i = 0; i < n; i++) { Row r = sel("k"); r.w = 1u << (4 * i); h.add(key(r), r.w); rows[nr++] = r; }
      cz = symx_choice(2, "countzeros"); okz = true; for (int a = 0; a < 4; a++) visits[a][0] = visits[a][1] = 0; if (symx_choice(2, "hut")) { HashTupleStats<T2>::HashUniqueTuple hut; h.fillHashUniqueTuple(hut); h.walkZeros(zvisit, hut, cz); } else h.walkZeros(zvisit, cz); CHECK(okz, "entries present have their values, absent ones the zero statistic");
      for (int a = 0; a < 4; a++) for (int b = 0; b < 2; b++) { bool ha = false, hb = false; for (unsigned i = 0; i < nr; i++) { ha |= rows[i].a == a; hb |= rows[i].b == b; } CHECK(visits[a][b] == (ha && hb ? 1u : 0u), "each combination is visited exactly once"); } CHECK(h.size() == keys() && alive == (int)keys(), "the table is unchanged"); }
    CHECK(alive == 0, "every statistic is deleted once"); symx_reach("end");
}
