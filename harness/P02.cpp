// Comparing two iterator ranges.
//@ bound ranges of 0..N symbolic 32-bit values behind random access, list and pointer iterators
//@ entry p_range quick="N=8" thorough="N=14" reach=end
//@ entry p_nest quick="N=3" thorough="N=5" reach=end
#include "symx.h"
#include <list>
#include <vector>
#include <Lintel/STLUtility.hpp>
using namespace lintel;
ENTRY(p_range) { // equal iff same length and same elements; nothing beyond the shorter range is touched
    unsigned N = symx_param("N", 5), n = symx_choice(N + 1, "n"), m = symx_choice(N + 1, "m"); std::vector<uint32_t> a; std::list<uint32_t> b; uint32_t *c = new uint32_t[m]; bool eq = n == m;
    for (unsigned i = 0; i < n; i++) a.push_back(sym<uint32_t>("a")); for (unsigned i = 0; i < m; i++) { c[i] = sym<uint32_t>("b"); b.push_back(c[i]); if (i < n) eq = eq & (a[i] == c[i]); }
    CHECK(iteratorRangeEqual(a.begin(), a.end(), b.begin(), b.end()) == eq, "equal iff element-wise equal"); CHECK(iteratorRangeEqual(b.begin(), b.end(), a.begin(), a.end()) == eq, "symmetric"); CHECK(iteratorRangeEqual(a.begin(), a.end(), c, c + m) == eq, "pointers"); symx_trace(eq); delete[] c; symx_reach("end");
}
// element equality is the element type's own (here: modulo 16)
struct M16 { uint8_t v; bool operator==(const M16 &o) const { return ((v ^ o.v) & 15) == 0; } bool operator!=(const M16 &o) const { return !(*this == o); } };
ENTRY(p_nest) {
    unsigned N = symx_param("N", 3), n = symx_choice(N + 1, "n"), m = symx_choice(N + 1, "m"); M16 *a = new M16[n], *b = new M16[m]; bool eq = n == m; for (unsigned i = 0; i < n; i++) a[i].v = sym<uint8_t>("a"); for (unsigned i = 0; i < m; i++) { b[i].v = sym<uint8_t>("b"); if (i < n) eq = eq & (a[i] == b[i]); }
    CHECK(iteratorRangeEqual(a, a + n, b, b + m) == eq, "equal iff element-wise equal by the element's own comparison"); delete[] a; delete[] b; symx_reach("end");
}
