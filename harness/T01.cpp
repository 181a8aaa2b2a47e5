// Tuples with wildcards: equality, order and hash are consistent with each other.
//@ src src/HashFns.cpp
//@ bound tuples of 1..4 components of symbolic 16- and 32-bit integers with every combination of wildcards
//@ entry t_bitset reach=end
//@ entry t_order reach=end
//@ entry t_pair reach=end
//@ entry t_plain reach=end
#include "symx.h"
#include <boost/tuple/tuple_comparison.hpp>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/HashMap.hpp>
#include <Lintel/Tuples.hpp>
using namespace lintel; using namespace lintel::tuples;
typedef boost::tuple<uint32_t, int16_t, uint32_t> T3; typedef BitsetAnyTuple<T3> B3; typedef boost::tuple<uint32_t, uint32_t, uint16_t, int32_t> T4; typedef BitsetAnyTuple<T4> B4; typedef BitsetAnyTuple<boost::tuple<int32_t> > B1; typedef BitsetAnyTuple<boost::tuple<uint32_t, int32_t> > B2;
template <class Tu> static void same(const BitsetAnyTuple<Tu> &x, const BitsetAnyTuple<Tu> &y) { CHECK(x == y, "differences under wildcards do not matter"); CHECK(lintel::hash(x) == lintel::hash(y), "equal tuples hash alike"); CHECK(BitsetAnyTupleHash<Tu>()(x) == lintel::hash(x), "hash functor agrees"); CHECK(!(x < y) & !(y < x), "equal tuples are not ordered"); }
ENTRY(t_bitset) {
    unsigned n = 1 + symx_choice(4, "n"), m = symx_choice(1u << n, "any"); bool diff = symx_choice(2, "differ"); // b differs from a only under wildcards
    switch (n) {
    case 1: { B1 x(boost::make_tuple(sym<int32_t>("a"))), y(x.data); if (m & 1) y.data.get<0>() = sym<int32_t>("b"); if (!diff) y.any = x.any = m; else { y.any = m; x.any = ~m; CHECK(!(x == y), "different wildcards differ"); break; } same(x, y); break; }
    case 2: { B2 x(boost::make_tuple(sym<uint32_t>("a"), sym<int32_t>("a"))), y(x); if (m & 1) y.data.get<0>() = sym<uint32_t>("b"); if (m & 2) y.data.get<1>() = sym<int32_t>("b"); y.any = x.any = m; if (diff) { x.any.flip(symx_choice(2, "bit")); CHECK(!(x == y), "different wildcards differ"); CHECK((x < y) != (y < x), "and are ordered"); } else same(x, y); break; }
    case 3: { B3 x(boost::make_tuple(sym<uint32_t>("a"), sym<int16_t>("a"), sym<uint32_t>("a"))), y(x); if (m & 1) y.data.get<0>() = sym<uint32_t>("b"); if (m & 2) y.data.get<1>() = sym<int16_t>("b"); if (m & 4) y.data.get<2>() = sym<uint32_t>("b"); y.any = x.any = m; if (diff) { x.any.flip(symx_choice(3, "bit")); CHECK(!(x == y), "different wildcards differ"); CHECK((x < y) != (y < x), "and are ordered"); } else same(x, y); break; }
    case 4: { B4 x(boost::make_tuple(sym<uint32_t>("a"), sym<uint32_t>("a"), sym<uint16_t>("a"), sym<int32_t>("a"))), y(x); if (m & 1) y.data.get<0>() = sym<uint32_t>("b"); if (m & 2) y.data.get<1>() = sym<uint32_t>("b"); if (m & 4) y.data.get<2>() = sym<uint16_t>("b"); if (m & 8) y.data.get<3>() = sym<int32_t>("b"); y.any = x.any = m; if (diff) { x.any.flip(symx_choice(4, "bit")); CHECK(!(x == y), "different wildcards differ"); CHECK((x < y) != (y < x), "and are ordered"); } else same(x, y); break; }
    }
    symx_reach("end");
}
static B3 any3(const char *n) { B3 b(boost::make_tuple(sym<uint32_t>(n), sym<int16_t>(n), sym<uint32_t>(n))); unsigned m = symx_val(3, "any"); for (int i = 0; i < 3; i++) b.any[i] = (m >> i) & 1; return b; }
// lexicographic, a wildcard after every value
static bool less3(const B3 &x, const B3 &y) {
    bool lt = false, dec = false; for (int i = 0; i < 3; i++) { bool xa = x.any[i], ya = y.any[i]; int64_t xv = i == 0 ? (int64_t)x.data.get<0>() : i == 1 ? (int64_t)x.data.get<1>() : (int64_t)x.data.get<2>(), yv = i == 0 ? (int64_t)y.data.get<0>() : i == 1 ? (int64_t)y.data.get<1>() : (int64_t)y.data.get<2>();
        bool l = (!xa & ya) | (!xa & !ya & (xv < yv)), g = (xa & !ya) | (!xa & !ya & (xv > yv)); lt = lt | (!dec & l); dec = dec | l | g; } return lt;
}
ENTRY(t_order) { B3 x = any3("x"), y = any3("y"); bool l = less3(x, y), g = less3(y, x); CHECK((x < y) == l, "order: lexicographic with wildcards last"); CHECK((y < x) == g, "in both directions"); CHECK((x == y) == (!l & !g), "exactly one of less, equal, greater"); symx_trace(l); symx_reach("end"); }
ENTRY(t_pair) {
    typedef AnyPair<uint32_t> P; P x, y; CHECK(x.any && x == y, "default is the wildcard"); bool xa = symx_choice(2, "xa"), ya = symx_choice(2, "ya"); uint32_t v = sym<uint32_t>("v"), w = sym<uint32_t>("w"); if (!xa) x = P(v); if (!ya) y.set(w);
    bool eq = (xa & ya) | (!xa & !ya & (v == w)), lt = (!xa & ya) | (!xa & !ya & (v < w)); CHECK((x == y) == eq, "equality"); CHECK((x < y) == lt, "order"); CHECK((y < x) == (!eq & !lt), "the other direction");
    typedef TupleToAnyTuple<boost::tuple<uint32_t, int32_t, uint16_t> >::type AT; AT a, b; boost::tuple<uint32_t, int32_t, uint16_t> s(v, (int32_t)w, sym<uint16_t>("u")); lintel::tuples::assign(a, s);
    CHECK(!a.get<0>().any && !a.get<1>().any && !a.get<2>().any, "assigning sets every component"); CHECK((a.get<0>().val == v) & (a.get<1>().val == (int32_t)w) & (a.get<2>().val == s.get<2>()), "to the values"); b = a; CHECK(TupleHash<AT>()(a) == TupleHash<AT>()(b), "equal tuples hash alike"); CHECK(a == b, "copies are equal");
    AT c(a); unsigned m = symx_choice(8, "any"); if (m & 1) { a.get<0>().any = c.get<0>().any = true; c.get<0>().val = 7; } if (m & 2) { a.get<1>().any = c.get<1>().any = true; c.get<1>().val = 7; } if (m & 4) { a.get<2>().any = c.get<2>().any = true; c.get<2>().val = 7; } CHECK(a == c, "values under wildcards do not matter"); CHECK(TupleHash<AT>()(a) == TupleHash<AT>()(c), "nor for the hash"); symx_reach("end");
}
ENTRY(t_plain) { // flipping any bit of any component changes the hash
    uint8_t a = sym<uint8_t>("a"); unsigned k = symx_choice(3, "component"), bit = symx_choice(8, "bit"); uint8_t b = a ^ (1u << bit); T3 x(k == 0 ? a : 5u, k == 1 ? a : 6, k == 2 ? a : 7u), y(k == 0 ? b : 5u, k == 1 ? b : 6, k == 2 ? b : 7u);
    uint32_t h = lintel::hash(x), g = lintel::hash(y); symx_trace(h); CHECK(TupleHash<T3>()(x) == h, "hash functor agrees"); CHECK(h != g, "every component matters"); symx_reach("end");
}
