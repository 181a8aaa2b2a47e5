// HashUnique is a set.
//@ src src/HashTable.cpp src/Stats.cpp src/Double.cpp
//@ assume the hash functor is a pure function of the key
//@ bound histories of OPS operations, symbolic 4-bit keys, identity or low-bit hash
//@ entry u_hist quick="OPS=3" thorough="OPS=4" reach=end
//@ entry u_payload reach=end
#include "symx.h"
#include <Lintel/HashUnique.hpp>
#include "hmodel.hpp"
static int hmode;
struct H { uint32_t operator()(const uint32_t &a) const { return hmode == 0 ? a : (a & 1); } };
typedef HashUnique<uint32_t, H> U;
static uint32_t key(const char *n) { return symx_val(4, n); }
ENTRY(u_hist) {
    hmode = symx_choice(2, "hash"); U t; Model m; unsigned ops = symx_param("OPS", 3);
    for (unsigned i = 0; i < ops; i++) {
        uint32_t k = key("k"); bool has = m.has(k);
        switch (symx_choice(5, "op")) {
        case 0: CHECK(t.add(k) == !has, "add reports whether the key was new"); if (!has) m.add(k, 0); break;
        case 1: CHECK(t.addOrReplace(k) == has, "addOrReplace reports a replacement"); if (!has) m.add(k, 0); break;
        case 2: t.remove(k, false); m.del(k); break;
        case 3: { U c(t), d; d.add(k); d = c; t.clear(); CHECK((t.size() == 0) & !t.exists(k), "clear empties the set"); t = d; break; }
        case 4: t.clear(); m = Model(); break;
        }
    }
    uint32_t q = key("q"); CHECK(t.exists(q) == m.has(q), "membership"); CHECK(t.size() == m.size(), "size counts distinct keys");
    unsigned n = 0, c = 0; for (U::iterator i = t.begin(); i != t.end(); ++i) { c += *i == q; if (++n > 8) break; }
    CHECK((n == m.size()) & (c == (m.has(q) ? 1u : 0u)), "traversal yields each member once"); symx_trace(n); symx_reach("end");
}
struct P { uint32_t k, v; P() : k(0), v(0) { } P(uint32_t a, uint32_t b) : k(a), v(b) { } bool operator==(const P &o) const { return k == o.k; } };
struct PH { uint32_t operator()(const P &p) const { return p.k; } };
ENTRY(u_payload) { // add keeps the first representative, addOrReplace the last
    HashUnique<P, PH> t; uint32_t a = key("a"), b = key("b"); bool rep = symx_choice(2, "rep"); t.add(P(a, 1)); if (rep) t.addOrReplace(P(b, 2)); else t.add(P(b, 2));
    unsigned sum = 0, n = 0; for (HashUnique<P, PH>::const_iterator i = ((const HashUnique<P, PH> &)t).begin(); i != ((const HashUnique<P, PH> &)t).end(); ++i) { n++; sum += i->v; }
    CHECK(n == (a == b ? 1u : 2u), "set size"); CHECK(sum == (a != b ? 3u : rep ? 2u : 1u), "which representative stays"); symx_reach("end");
}
