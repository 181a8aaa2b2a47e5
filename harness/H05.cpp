// RotatingHashMap: two-generation aging map.
//@ src src/HashTable.cpp src/Stats.cpp src/Double.cpp
//@ assume the hash functor is a pure function of the key and the callback does not touch the map
//@ bound histories of OPS operations, symbolic 4-bit keys and symbolic values
//@ entry r_hist quick="OPS=3" thorough="OPS=4" reach=end
//@ entry r_rotate quick="OPS=2" thorough="OPS=3" reach=end
//@ entry r_missing reach=end
#include "symx.h"
#include <Lintel/RotatingHashMap.hpp>
#include "hmodel.hpp"
struct H { uint32_t operator()(const uint32_t &a) const { return a; } };
typedef RotatingHashMap<uint32_t, uint32_t, H> R;
static uint32_t key(const char *n) { return symx_val(4, n); }
static unsigned cbN, cbHit; static uint32_t cbQ, cbV;
static void cb(const uint32_t &k, uint32_t &v) { cbN++; cbHit += k == cbQ; cbV = k == cbQ ? v : cbV; }
struct RM {   // reference: recent and old generation
    Model r, o;
    bool has(uint32_t k) const { return r.has(k) | o.has(k); }
    static uint32_t get(const Model &m, uint32_t k) { uint32_t x = 0; for (unsigned i = 0; i < m.n; i++) x = (m.live[i] & (m.k[i] == k)) ? m.v[i] : x; return x; }
    void touch(uint32_t k) { uint32_t v = get(o, k); if (o.has(k)) { o.del(k); r.add(k, v); } }
    void rotate() { o = r; r = Model(); }
};
static void step(R &t, RM &m) {
    uint32_t k = key("k"), v = sym<uint32_t>("v"); bool has = m.has(k);
    switch (symx_choice(6, "op")) {
    case 0: { uint32_t *p = t.lookup(k); CHECK((p != NULL) == has, "lookup finds keys of both generations"); m.touch(k); if (p) CHECK(*p == RM::get(m.r, k), "lookup keeps the value when it promotes"); break; }
    case 1: { uint32_t &p = t[k]; m.touch(k); CHECK(p == (has ? RM::get(m.r, k) : 0u), "operator[] yields the value or a default"); p = v; if (has) m.r.set(k, v); else m.r.add(k, v); break; }
    case 2: { CHECK(t.remove(k, false) == has, "remove reports presence in either generation"); m.r.del(k); m.o.del(k); break; }
    case 3: t.rotate(); m.rotate(); break;
    case 4: { CHECK(t.existsNoPromote(k) == has, "existsNoPromote"); break; }
    case 5: { CHECK(t.exists(k) == has, "exists"); m.touch(k); break; }
    }
}
static void verify(R &t, RM &m) {
    uint32_t q = key("q"); CHECK(t.exists_recent(q) == m.r.has(q), "recent generation"); CHECK(t.exists_old(q) == m.o.has(q), "old generation");
    CHECK((t.size_recent() == m.r.size()) & (t.size_old() == m.o.size()) & (t.size() == m.r.size() + m.o.size()), "sizes"); CHECK(t.empty() == (m.r.size() + m.o.size() == 0), "empty");
    cbN = cbHit = 0; cbQ = q; cbV = 0; t.walk(cb); CHECK((cbN == t.size()) & (cbHit == (m.has(q) ? 1u : 0u)), "walk visits every entry once"); if (cbHit) CHECK(cbV == (m.r.has(q) ? RM::get(m.r, q) : RM::get(m.o, q)), "walk sees the current value");
    symx_trace(t.size());
}
ENTRY(r_hist) { R t; RM m; unsigned n = symx_param("OPS", 3); for (unsigned i = 0; i < n; i++) step(t, m); verify(t, m); symx_reach("end"); }
// rotation hands exactly the entries that age out to the callback and drops them
ENTRY(r_rotate) {
    R t; RM m; uint32_t a = key("a"), b = key("b"); symx_assume(a != b); t[a] = 5; t[b] = 6; m.r.add(a, 5); m.r.add(b, 6); t.rotate(); m.rotate();
    unsigned n = symx_param("OPS", 2); for (unsigned i = 0; i < n; i++) step(t, m);
    uint32_t q = key("q"); cbN = cbHit = 0; cbQ = q; cbV = 0; bool full = symx_choice(2, "flush");
    if (full) { t.flushRotate(cb); CHECK((cbN == m.r.size() + m.o.size()) & (cbHit == (m.has(q) ? 1u : 0u)), "flush hands out every entry once"); CHECK(t.empty(), "flush empties"); }
    else { t.rotate(cb); CHECK((cbN == m.o.size()) & (cbHit == (m.o.has(q) ? 1u : 0u)), "rotate hands out exactly the old entries"); if (cbHit) CHECK(cbV == RM::get(m.o, q), "rotate passes the value"); m.rotate(); CHECK((t.existsNoPromote(q) == m.has(q)) & (t.size() == m.o.size()), "only the old entries are dropped"); }
    symx_reach("end");
}
ENTRY(r_missing) { R t; uint32_t a = key("a"), k = key("k"); t[a] = 1; if (symx_choice(2, "rot")) t.rotate(); if (a != k) symx_allow_abort(1); CHECK(t.remove(k), "remove of a present key"); if (a != k) symx_fail("removing a missing key was not refused"); symx_reach("end"); }
