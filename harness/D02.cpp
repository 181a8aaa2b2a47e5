// Deque: every element is constructed once, destroyed once, and none is leaked or used after destruction.
//@ assume element copy constructors do not throw
//@ bound initial capacity 1..3 slots, histories of OPS operations including growth with any rotation, then destruction of the deque
//@ entry l_hist quick="OPS=5" thorough="OPS=7" reach=end
//@ entry l_string quick="OPS=4" thorough="OPS=6" reach=end
#include "symx.h"
#include <string>
#include <limits>
#include <Lintel/Deque.hpp>
static int live, bad;
struct X { uint32_t v, tag; X *self;
    X(uint32_t a) : v(a), tag(0x11111111), self(this) { live++; }
    X(const X &o) : v(o.v), tag(0x11111111), self(this) { bad += (o.tag != 0x11111111) | (o.self != &o); live++; }
    ~X() { bad += (tag != 0x11111111) | (self != this); tag = 0xdead; live--; }
    X &operator=(const X &o) { bad += tag != 0x11111111; v = o.v; return *this; } };
ENTRY(l_hist) {
    live = bad = 0; int64_t heap = symx_live();
    { Deque<X> d(2 + symx_choice(3, "cap")); uint32_t m[32]; unsigned lo = 0, hi = 0, ops = symx_param("OPS", 5);
      for (unsigned i = 0; i < ops; i++) { switch (symx_val(2, "op")) {
        case 0: m[hi++] = i; d.push_back(X(i)); break;
        case 1: if (lo == hi) symx_end(); d.pop_front(); lo++; break;
        case 2: d.clear(); lo = hi; break;
        case 3: if (lo != hi) { size_t w = sym<size_t>("w"); symx_assume(w < hi - lo); d.push_back(d.at(w)); hi++; } else d.reserve(2); break; }
        CHECK(live == (int)(hi - lo), "exactly the contained elements are alive"); CHECK(bad == 0, "elements are constructed before use and destroyed once"); } }
    CHECK(bad == 0, "no double destruction"); CHECK(live == 0, "the destructor destroys every remaining element"); CHECK(symx_live() == heap, "no memory is left behind"); symx_reach("end");
}
ENTRY(l_string) {
    int64_t heap = symx_live();
    { Deque<std::string> d(2 + symx_choice(2, "cap")); unsigned n = 0, ops = symx_param("OPS", 4);
      for (unsigned i = 0; i < ops; i++) if (n && sym<bool>("op")) { d.pop_front(); n--; } else { d.push_back(std::string(20, 'a' + i)); n++; CHECK(d.back()[3] == (char)('a' + i), "value"); } }
    CHECK(symx_live() == heap, "no memory is left behind"); symx_reach("end");
}
