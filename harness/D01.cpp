// Deque: FIFO order, indexing and iterator arithmetic for every wrap position.
//@ assume no operation on an empty deque that requires an element; positions within range
//@ bound initial capacity 1..4 slots, histories of OPS operations (push_back, push_back of a vector, pop_front, clear, reserve) with symbolic values, then every position and every in-range iterator offset
//@ entry d_hist quick="OPS=6" thorough="OPS=8" reach=end
//@ entry d_iter quick="N=4" thorough="N=6" reach=end
//@ entry d_self reach=end
//@ entry d_misc reach=end
#include "symx.h"
#include <string>
#include <limits>
#include <Lintel/Deque.hpp>
typedef Deque<uint32_t> D;
static void verify(D &d, uint32_t *m, unsigned lo, unsigned hi) {
    CHECK(d.size() == hi - lo, "size"); CHECK(d.empty() == (hi == lo), "empty"); CHECK(d.capacity() >= d.size(), "capacity covers the contents");
    if (hi > lo) CHECK((d.front() == m[lo]) & (d.back() == m[hi - 1]), "front and back");
    if (hi > lo) { size_t p = sym<size_t>("pos"); symx_assume(p < hi - lo); uint32_t w = m[lo]; for (unsigned i = lo; i < hi; i++) w = p == i - lo ? m[i] : w; CHECK(d.at(p) == w, "at(i) is the i-th oldest element"); }
    bool ok = true;
    unsigned n = 0; for (D::iterator i = d.begin(); i != d.end(); ++i, ++n) { if (n >= hi - lo) break; ok &= *i == m[lo + n]; } CHECK(ok & (n == hi - lo), "iteration yields the elements in order");
}
ENTRY(d_hist) {
    D d(2 + symx_choice(4, "cap")); uint32_t m[64]; unsigned lo = 0, hi = 0, ops = symx_param("OPS", 6);
    for (unsigned i = 0; i < ops; i++) switch (symx_choice(i + 2 < ops ? 3 : 5, "op")) {
    case 0: m[hi++] = sym<uint32_t>("v"); d.push_back(m[hi - 1]); break;
    case 1: if (lo == hi) symx_end(); CHECK(d.front() == m[lo], "front before pop"); d.pop_front(); lo++; break;
    case 2: { std::vector<uint32_t> v; v.push_back(m[hi++] = sym<uint32_t>("v")); v.push_back(m[hi++] = 5 + i); d.push_back(v); break; }
    case 3: d.clear(); lo = hi; break;
    case 4: if (lo != hi) { symx_allow_abort(1); d.reserve(7); symx_fail("reserve on a non-empty deque was not refused"); } d.reserve(1 + symx_choice(3, "rsv")); break;
    }
    verify(d, m, lo, hi); symx_trace(d.size()); symx_reach("end");
}
static uint32_t pick(uint32_t *m, unsigned n, size_t p) { uint32_t w = m[0]; for (unsigned i = 0; i < n; i++) w = p == i ? m[i] : w; return w; }
// all iterator arithmetic against plain indices, for every rotation
ENTRY(d_iter) {
    unsigned cap = 2 + symx_choice(symx_param("N", 4) + 1, "cap"), rot = symx_choice(cap, "rot"), n = symx_choice(cap, "n"); D d(cap); uint32_t m[16];
    for (unsigned i = 0; i < rot; i++) { d.push_back(0); d.pop_front(); }
    for (unsigned i = 0; i < n; i++) { m[i] = sym<uint32_t>("v"); d.push_back(m[i]); }
    size_t a = sym<size_t>("a"), b = sym<size_t>("b"); symx_assume((a <= n) & (b <= n)); ptrdiff_t diff = (ptrdiff_t)b - (ptrdiff_t)a;
    D::iterator i = d.begin() + a, j = d.begin() + b;
    CHECK((i == j) == (a == b), "equality of positions"); CHECK((i != j) == (a != b), "inequality of positions");
    CHECK((j - i) == diff, "distance"); CHECK((i < j) == (a < b), "<"); CHECK((i > j) == (a > b), ">"); CHECK((i <= j) == (a <= b), "<="); CHECK((i >= j) == (a >= b), ">=");
    CHECK((i + diff) == j, "it + n moves by n positions"); CHECK((j - diff) == i, "it - n moves back by n positions"); CHECK((i - (-diff)) == j, "it - (-n)");
    D::iterator x = i; x += diff; CHECK(x == j, "+="); x = j; x -= diff; CHECK(x == i, "-="); CHECK((d.begin() - i == -(ptrdiff_t)a) & (d.end() - i == (ptrdiff_t)(n - a)), "distance from the ends"); CHECK((i == d.end()) == (a == n), "end position");
    if (a < n) { CHECK((*i == pick(m, n, a)) & (*i.operator->() == pick(m, n, a)), "dereference"); x = i; CHECK((++x - i) == 1, "++"); x = i; CHECK(x++ == i, "post-increment"); CHECK((x - i) == 1, "post-increment moves"); }
    if (a > 0) { x = i; --x; CHECK(*x == pick(m, n, a - 1), "--"); x = i; CHECK(x-- == i, "post-decrement"); CHECK((i - x) == 1, "post-decrement moves"); } symx_reach("end");
}
// appending an element of the deque to itself
ENTRY(d_self) {
    unsigned cap = 2 + symx_choice(3, "cap"), rot = symx_choice(cap, "rot"), n = 1 + symx_choice(cap - 1, "n"); Deque<std::string> d(cap);
    for (unsigned i = 0; i < rot; i++) { d.push_back("x"); d.pop_front(); }
    for (unsigned i = 0; i < n; i++) { std::string s(20, 'a' + i); s[3] = sym<char>("c"); d.push_back(s); }
    unsigned w = symx_choice(n, "which"); std::string want = d.at(w); d.push_back(d.at(w)); CHECK(eqStr(d.back(), want), "the appended copy equals the element"); CHECK(d.size() == n + 1, "size"); CHECK(eqStr(d.at(w), want), "the element itself is unchanged"); symx_reach("end");
}
ENTRY(d_misc) {
    if (symx_choice(2, "t")) { symx_allow_abort(1); D d(symx_choice(2, "bad")); symx_fail("a deque of fewer than two slots was accepted"); }
    D d; unsigned n = symx_choice(20, "n"); d.reserve(1 + symx_choice(4, "r")); size_t c = d.capacity(); for (unsigned i = 0; i < n; i++) { size_t before = d.capacity(); d.push_back(i); CHECK(d.size() <= before ? d.capacity() == before : d.capacity() > before, "grows only when full"); }
    (void)c; if (n) { d.front() = 77; d.at(n - 1) = 78; } if (n) CHECK((d.back() == 78) & (n == 1 || d.front() == 77), "references write through"); symx_reach("end");
}
