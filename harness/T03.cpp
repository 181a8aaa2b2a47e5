// The cube operator: every combination of values and wildcards accumulates exactly the rows it covers.
//@ src src/HashTable.cpp src/Stats.cpp src/Double.cpp src/HashFns.cpp
//@ bound up to OPS rows with two-component keys over 1- and 2-bit values (c_three: three 1-bit components), both inclusion rules, any prune set over the keys
//@ entry c_cube quick="OPS=3" thorough="OPS=4" reach=end
//@ entry c_three quick="OPS=2" thorough="OPS=3" reach=end
//@ entry c_zero quick="OPS=3" thorough="OPS=4" reach=end
//@ entry c_prune quick="OPS=3" thorough="OPS=3" reach=end
#include "symx.h"
#include <boost/tuple/tuple_comparison.hpp>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/HashMap.hpp>
#include <Lintel/StatsCube.hpp>
using namespace lintel;
static int alive;
struct W : public Stats { uint32_t n, s, z; W() : n(0), s(0), z(0) { alive++; } ~W() { alive--; } void add(const double v) { n++; s += (uint32_t)v; } void add(const Stats &o) { const W &w = static_cast<const W &>(o); n += w.n; s += w.s; z++; } };
static Stats *newW() { return new W; }
struct Row { uint8_t a, b, c; uint32_t w; };
static Row rows[8]; static unsigned nr; static uint8_t nb[3]; // nb: number of values of each component
static Row sel(int i, bool three) { Row r; r.a = symx_concretize(symx_val(1, "a")); r.b = symx_concretize(symx_val(three ? 1 : 2, "b")); r.c = three ? symx_concretize(symx_val(1, "c")) : 0; r.w = 1u << (4 * i); return r; }
// rows covered by (a, b, c) with wildcard bits m
static uint32_t want(unsigned m, int a, int b, int c, uint32_t &n) { uint32_t s = 0; n = 0; for (unsigned i = 0; i < nr; i++) if (((m & 1) || rows[i].a == a) && ((m & 2) || rows[i].b == b) && ((m & 4) || rows[i].c == c)) { s += rows[i].w; n++; } return s; }
static unsigned seen[8][2][4][2]; static bool okv, ordered, first;
template <class MyAny> struct Vis { static MyAny last; static void visit(const MyAny &k, Stats &st) {
    const W &s = static_cast<const W &>(st); unsigned m = k.any.to_ulong(); int a = k.data.template get<0>(), b = k.data.template get<1>(); if (m & 1) a = 0; if (m & 2) b = 0; CHECK(a < 2 && b < 4, "a key that was added"); uint32_t n, w = want(m, a, b, 0, n); seen[m][a][b][0]++; okv = okv && s.s == w && s.n == n; if (!first) ordered = ordered && last < k; first = false; last = k; } };
template <class MyAny> MyAny Vis<MyAny>::last;
typedef boost::tuple<int32_t, uint32_t> T2; typedef StatsCube<T2> C2;
static bool cubeAll(bool, const C2::MyAny &) { return true; }
static void clearSeen() { for (int m = 0; m < 8; m++) for (int a = 0; a < 2; a++) for (int b = 0; b < 4; b++) seen[m][a][b][0] = seen[m][a][b][1] = 0; okv = ordered = first = true; }
static uint32_t pruned; static bool prune(const C2::MyAny &k) { unsigned a = k.any[0] ? 2 : k.data.get<0>(), b = k.any[1] ? 4 : k.data.get<1>(); return (pruned >> (a * 5 + b)) & 1; }
static void verify(C2 &c, bool all, bool ord, bool zeros = false) {
    clearSeen(); if (ord) c.walkOrdered(Vis<C2::MyAny>::visit); else c.walk(Vis<C2::MyAny>::visit); CHECK(okv, "an entry accumulates exactly the rows it covers"); if (ord) CHECK(ordered, "in order, wildcards last"); unsigned tot = 0;
    for (unsigned m = 0; m < 4; m++) for (int a = 0; a < 2; a++) for (int b = 0; b < 4; b++) { if (((m & 1) && a) || ((m & 2) && b)) continue; uint32_t n; bool in; if (!zeros) { want(m, a, b, 0, n); in = n; } else { uint32_t na, nbb; want(m | 2, a, 0, 0, na); want(m | 1, 0, b, 0, nbb); in = na && nbb && nr; }
        bool w = in && (all || m) && !((pruned >> (((m & 1) ? 2 : a) * 5 + ((m & 2) ? 4 : b))) & 1); CHECK(seen[m][a][b][0] == (w ? 1u : 0u), "exactly the covered combinations are present, once each"); tot += w; }
    CHECK(c.size() == tot, "size");
}
static void fill(C2 &c) { nr = 0; unsigned n = symx_param("OPS", 3) - symx_choice(2, "n"); for (unsigned i = 0; i < n; i++) { rows[nr] = sel(i, false); c.add(T2(rows[nr].a, rows[nr].b), rows[nr].w); nr++; } }
struct Cube : public C2 { Cube(bool all) : C2(all ? OptionalCubeFn(cubeAll) : OptionalCubeFn(boost::bind(&StatsCubeFns::cubeHadAny, _1)), boost::bind(&StatsCubeFns::addFullStats, _1, _2), newW, newW) { } };
ENTRY(c_cube) {
    { bool all = symx_choice(2, "all"); Cube c(all); fill(c); unsigned base = alive; c.cube(); verify(c, all, symx_choice(2, "ordered")); C2::MyAny k(T2(0, 0)); k.any.set(); if (nr) CHECK(static_cast<W &>(c.getCubeEntry(k)).n == nr, "the grand total covers every row");
      if (symx_choice(2, "again")) { c.clear(false); CHECK(c.size() == 0 && alive == (int)base, "clearing the cube keeps the base data"); c.cube(); verify(c, all, false); } else { c.clear(); CHECK(c.size() == 0 && alive == 0 && c.base_data.size() == 0, "clear deletes everything"); } }
    CHECK(alive == 0, "every statistic is deleted once"); symx_reach("end");
}
ENTRY(c_zero) { { bool all = symx_choice(2, "all"); Cube c(all); fill(c); c.zeroCube(); verify(c, all, false, true); } CHECK(alive == 0, "every statistic is deleted once"); symx_reach("end"); }
ENTRY(c_prune) { { Cube c(true); fill(c); c.cube(); pruned = symx_val(15, "pruned"); c.prune(prune); verify(c, true, false); } CHECK(alive == 0, "every statistic is deleted once"); symx_reach("end"); }
typedef boost::tuple<uint8_t, uint16_t, int32_t> T3; typedef StatsCube<T3> C3; static unsigned n3; static bool ok3;
static void visit3(const C3::MyAny &k, Stats &st) { const W &s = static_cast<const W &>(st); unsigned m = k.any.to_ulong(); int a = k.data.get<0>(), b = k.data.get<1>(), c = k.data.get<2>(); uint32_t n, w = want(m, a, b, c, n); ok3 = ok3 && n && s.s == w && s.n == n; seen[m][(m & 1) ? 0 : a][(m & 2) ? 0 : b][(m & 4) ? 0 : c]++; n3++; }
ENTRY(c_three) {
    { C3 c(boost::bind(&StatsCubeFns::cubeAll), boost::bind(&StatsCubeFns::addFullStats, _1, _2), newW, newW); nr = 0; clearSeen(); unsigned n = symx_param("OPS", 2); for (unsigned i = 0; i < n; i++) { rows[nr] = sel(i, true); W v; v.add(rows[nr].w); c.addToCube(T3(rows[nr].a, rows[nr].b, rows[nr].c), v); nr++; }
      n3 = 0; ok3 = true; c.walk(visit3); CHECK(ok3, "an entry accumulates exactly the rows it covers"); CHECK(n3 == c.size(), "size"); unsigned tot = 0;
      for (unsigned m = 0; m < 8; m++) for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int e = 0; e < 2; e++) { if (((m & 1) && a) || ((m & 2) && b) || ((m & 4) && e)) continue; uint32_t k; want(m, a, b, e, k); CHECK(seen[m][a][b][e] == (k ? 1u : 0u), "exactly the covered combinations are present, once each"); tot += k != 0; } CHECK(n3 == tot, "nothing else"); }
    CHECK(alive == 0, "every statistic is deleted once"); symx_reach("end");
}
