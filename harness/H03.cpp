// HashMap is a map from keys to values under every bounded history.
//@ src src/HashTable.cpp src/Stats.cpp src/Double.cpp src/HashFns.cpp
//@ assume the hash functor is a pure function of the key
//@ bound histories of OPS operations on an initially empty or 10-entry map, symbolic 4-bit keys and 32-bit values, identity or low-bit hash; string keys of up to 2 bytes over {NUL, 'a'} with the library hash
//@ entry m_hist quick="OPS=3" thorough="OPS=4" reach=end
//@ entry m_grow quick="OPS=1" thorough="OPS=2" reach=end
//@ entry m_copy reach=end
//@ entry m_missing reach=end
//@ entry m_string reach=end
#include "symx.h"
#include <Lintel/HashMap.hpp>
#include "hmodel.hpp"
static int hmode;
struct H { uint32_t operator()(const uint32_t &a) const { return hmode == 0 ? a : (a & 1); } };
typedef HashMap<uint32_t, uint32_t, H> M;
static bool conc;
static uint32_t key(const char *n) { uint32_t k = symx_val(4, n); return conc ? symx_concretize(k) : k; }
static void verify(M &t, Model &m, uint32_t q) {
    const M &ct = t; uint32_t *f = t.lookup(q); bool has = m.has(q);
    CHECK((f != NULL) == has, "lookup finds exactly the stored keys"); if (f) CHECK(m.hasKV(q, *f), "lookup yields the last value");
    CHECK(ct.exists(q) == has, "exists"); CHECK(ct.lookup(q) == f, "const lookup"); CHECK(t.size() == m.size(), "size"); CHECK(t.empty() == (m.size() == 0), "empty");
    if (f) CHECK(&ct.cGet(q) == f, "cGet"); CHECK(ct.dGet(q) == (f ? *f : 0u), "dGet yields the value or the default");
    M::iterator it = t.find(q); CHECK((it == t.end()) == !has, "find"); if (f) CHECK(&it->second == f, "find and lookup agree");
    std::vector<uint32_t> ks = ct.keys(); CHECK(ks.size() == m.size(), "keys lists every key once"); unsigned c = 0; bool in = true; for (size_t i = 0; i < ks.size(); i++) { c += ks[i] == q; in &= m.has(ks[i]); } CHECK((c == (has ? 1u : 0u)) & in, "keys lists exactly the keys");
    symx_trace(t.size()); symx_trace(f ? *f : 7);
}
static void hist(M &t, Model &m, unsigned ops) {
    for (unsigned i = 0; i < ops; i++) {
        unsigned op = symx_choice(6, "op"); uint32_t k = key("k"), v = sym<uint32_t>("v"); bool has = m.has(k);
        switch (op) {
        case 0: { uint32_t &r = t[k]; CHECK(has ? m.hasKV(k, r) : r == 0, "operator[] yields the value or a default"); r = v; if (has) m.set(k, v); else m.add(k, v); break; }
        case 1: { bool a = t.addUnlessExist(k); CHECK(a == !has, "addUnlessExist adds only missing keys"); if (!has) m.add(k, 0); break; }
        case 2: { bool r = t.remove(k, false); CHECK(r == has, "remove reports presence"); m.del(k); break; }
        case 3: { M::iterator it = t.find(k); if (it != t.end()) { t.erase(it); m.del(k); } break; }
        case 4: { uint32_t *p = t.lookup(k); if (p) { *p = v; m.set(k, v); } break; }
        case 5: { t.clear(); m = Model(); break; }
        }
    }
}
ENTRY(m_hist) { hmode = symx_choice(2, "hash"); M t(0.5); Model m; hist(t, m, symx_param("OPS", 3)); verify(t, m, key("q")); symx_reach("end"); }
ENTRY(m_grow) { hmode = 0; conc = true; M t; Model m; if (symx_choice(2, "rsv")) t.reserve(10); for (unsigned i = 0; i < 10; i++) { t[i * 3] = i + 1; m.add(i * 3, i + 1); } hist(t, m, symx_param("OPS", 1)); conc = false; verify(t, m, key("q")); symx_reach("end"); }
ENTRY(m_copy) {
    M t; Model m, mo; uint32_t a = key("a"), b = key("b"), c = key("c"); symx_assume(a != b); t[a] = 1; t[b] = 2; m.add(a, 1); m.add(b, 2); mo = m;
    if (symx_choice(2, "assign")) { M o; o[c] = 9; o = t; o[c] = 5; if (mo.has(c)) mo.set(c, 5); else mo.add(c, 5); verify(o, mo, key("q")); }
    else { M o(t); o.remove(a); mo.del(a); verify(o, mo, key("q")); }
    verify(t, m, key("q2")); symx_reach("end");
}
ENTRY(m_missing) {
    M t; uint32_t a = key("a"), q = key("q"); t[a] = 3; bool has = a == q; const M &ct = t; if (!has) symx_allow_abort(1);
    if (symx_choice(2, "op")) { CHECK(ct.cGet(q) == 3, "cGet"); } else t.remove(q);
    if (!has) symx_fail("access to a missing key was not refused"); symx_reach("end");
}
// the default string hash and equality: keys are distinguished by their full content
static std::string str(const char *n) { std::string s(symx_choice(3, "len"), 'a'); for (size_t i = 0; i < s.size(); i++) s[i] = symx_concretize(symx_val(1, n)) ? 'a' : 0; return s; }
ENTRY(m_string) {
    HashMap<std::string, int> t; std::string a = str("a"), b = str("b"), q = str("q");
    t[a] = 1; t[b] = 2; bool ea = eqStr(a, q), eb = eqStr(b, q); int *p = t.lookup(q);
    CHECK((p != NULL) == (ea | eb), "string keys compare by content"); if (p) CHECK(*p == (eb ? 2 : 1), "string key value"); symx_reach("end");
}
