// Hash table behaves as a finite map/multimap under every bounded history.
//@ src src/HashTable.cpp src/Stats.cpp src/Double.cpp
//@ assume the hash functor is a pure function of the key, equality compares the key only, and iterators used for erase come from the same table
//@ bound h_long: every history of OPS additions of new keys and removals (by key or by iterator) of any live one, in one chain and in two chains, any set of equally spaced symbolic keys; other entries: histories: an empty table or one preloaded with 10 or 46 distinct entries (default and 0.3 target chain length), then up to OPS operations (add, addOrReplace, lookup, remove, erase by iterator, clear, copy) with symbolic keys out of 16 hashed by identity, low-bit or constant hash functions, then a lookup with one more symbolic key and a full traversal
//@ entry h_fresh quick="OPS=3" thorough="OPS=4" reach=end
//@ entry h_tight quick="OPS=3" thorough="OPS=4" reach=end
//@ entry h_preload quick="OPS=1" thorough="OPS=2" reach=end
//@ entry h_dup quick="OPS=3" thorough="OPS=5" reach=end
//@ entry h_long quick="OPS=9" thorough="OPS=12" reach=end
//@ entry h_missing reach=end
//@ entry h_random reach=end
#include "symx.h"
#include <Lintel/HashTable.hpp>

struct KV { uint32_t k, v; KV() : k(0), v(0) { } KV(uint32_t a, uint32_t b) : k(a), v(b) { } };
static int hmode;
struct H { uint32_t operator()(const KV &a) const { return hmode == 0 ? a.k : hmode == 1 ? (a.k & 1) : 7; } };
struct E { bool operator()(const KV &a, const KV &b) const { return a.k == b.k; } };
typedef HashTable<KV, H, E> T;
#include "hmodel.hpp"
static void verify(T &t, Model &m, uint32_t q) {
    const T &ct = t;
    KV *f = t.lookup(KV(q, 0));
    CHECK((f != NULL) == m.has(q), "lookup finds a key exactly when it was added and not removed");
    if (f) CHECK((f->k == q) & m.hasKV(q, f->v), "lookup returns the stored value");
    CHECK((ct.lookup(KV(q, 0)) == f), "const and non-const lookup agree");
    CHECK(t.size() == m.size(), "size is the number of live entries");
    CHECK(t.empty() == (m.size() == 0), "empty matches size");
    T::iterator it = t.find(KV(q, 0));
    CHECK((it != t.end()) == (f != NULL), "find agrees with lookup");
    unsigned n = 0; bool ok = true;
    for (T::iterator i = t.begin(); i != t.end(); ++i) { n++; CHECK(n <= MAXM, "traversal terminates"); ok &= m.hasKV(i->k, i->v); }
    CHECK(ok, "traversal yields only live entries");
    CHECK(n == m.size(), "traversal visits as many entries as are stored");
    symx_trace(n); symx_trace(f ? f->v : 999);
}
static bool conc;   // split each operation's key into its values (large tables)
static uint32_t key(const char *n) { uint32_t k = symx_val(4, n); return conc ? symx_concretize(k) : k; }
// distinct keys: every operation keeps at most one entry per key
static void history(T &t, Model &m, unsigned ops, unsigned nextv) {
    for (unsigned i = 0; i < ops; i++) {
        unsigned op = symx_choice(i + 1 == ops ? 6 : 5, "op"); uint32_t k = key("k"); nextv++;
        symx_trace(op);
        switch (op) {
        case 0: { symx_assume(!m.has(k)); KV *r = t.add(KV(k, nextv)); m.add(k, nextv); CHECK((r->k == k) & (r->v == nextv), "add returns the stored entry"); break; }
        case 1: { bool rep = false; KV *r = t.addOrReplace(KV(k, nextv), rep); bool had = m.has(k);
            CHECK(rep == had, "addOrReplace reports whether the key was present");
            if (had) m.set(k, nextv); else m.add(k, nextv);
            CHECK((r->k == k) & (r->v == nextv), "addOrReplace stores the new data"); break; }
        case 2: { bool had = m.has(k), r = t.remove(KV(k, 0), false); CHECK(r == had, "remove reports whether the key was present"); m.del(k); break; }
        case 3: { T::iterator it = t.find(KV(k, 0)); CHECK((it != t.end()) == m.has(k), "find locates exactly the stored keys");
            if (it != t.end()) { t.erase(it); m.del(k); } break; }
        case 4: { T c(t); t.clear(); CHECK(t.empty() & (t.begin() == t.end()), "clear empties"); t = c; break; }
        case 5: { t.clear(); m = Model(); break; }
        }
    }
}
ENTRY(h_fresh) { hmode = symx_choice(2, "hash") * 2; T t; Model m; history(t, m, symx_param("OPS", 3), 1000); verify(t, m, key("q")); symx_reach("end"); }
ENTRY(h_tight) { hmode = symx_choice(2, "hash"); T t(0.3); Model m; history(t, m, symx_param("OPS", 3), 1000); verify(t, m, key("q")); symx_reach("end"); }
ENTRY(h_preload) {
    hmode = 0; conc = true; T t; Model m; unsigned n = symx_choice(2, "n") ? 46 : 10;
    if (symx_choice(2, "reserve")) t.reserve(n);
    for (unsigned i = 0; i < n; i++) { t.add(KV(i * 3, i)); m.add(i * 3, i); }
    if (symx_choice(2, "hole")) { t.remove(KV(3, 0)); m.del(3); }
    history(t, m, symx_param("OPS", 2), 1000); conc = false; verify(t, m, key("q")); symx_reach("end");
}
// duplicates: add always adds, remove takes exactly one entry of that key
ENTRY(h_dup) {
    hmode = symx_choice(2, "hash"); T t(0.5); uint32_t ks[8]; unsigned cnt[8], n = 0; unsigned ops = symx_param("OPS", 4);
    unsigned total = 0; uint32_t q = key("q"); unsigned qc = 0;
    for (unsigned i = 0; i < ops; i++) {
        uint32_t k = key("k");
        if (symx_choice(2, "op") == 0) { t.add(KV(k, i)); total++; qc += k == q; }
        else { unsigned before = t.size(); bool r = t.remove(KV(k, 0), false); CHECK(t.size() == before - r, "remove takes one entry"); total -= r; qc -= (r & (k == q)); }
    }
    CHECK(t.size() == total, "size counts duplicates");
    unsigned c = 0, n2 = 0; for (T::iterator i = t.begin(); i != t.end(); ++i) { c += i->k == q; n2++; }
    CHECK(c == qc, "each key is stored as often as it was added minus removed"); CHECK(n2 == total, "traversal covers duplicates");
    CHECK((t.lookup(KV(q, 0)) != NULL) == (qc > 0), "lookup with duplicates");
    symx_reach("end");
}
// remove(must_exist) on a missing key is refused, and never changes the table
ENTRY(h_missing) {
    hmode = 0; T t; uint32_t a = key("a"), b = key("b"), c = key("c"); t.add(KV(a, 1)); t.add(KV(b, 2)); if (symx_choice(2, "rm")) t.remove(KV(a, 0));
    bool there = t.lookup(KV(c, 0)) != NULL; if (!there) symx_allow_abort(1);
    t.remove(KV(c, 0)); if (!there) symx_fail("removing a missing key was not refused"); symx_reach("end");
}
ENTRY(h_random) {
    hmode = 0; T t; Model m; unsigned n = symx_choice(4, "n");
    for (unsigned i = 0; i < n; i++) { uint32_t k = key("k"); symx_assume(!m.has(k)); t.add(KV(k, i)); m.add(k, i); }
    if (n && symx_choice(2, "rm")) { uint32_t k = key("r"); if (t.remove(KV(k, 0), false)) m.del(k); }
    uint32_t ra = sym<uint8_t>("ra"), rb = sym<uint8_t>("rb"); KV *r = t.randomlookup(ra, rb);
    CHECK((r == NULL) == (m.size() == 0), "random lookup finds something in every non-empty table"); if (r) CHECK(m.hasKV(r->k, r->v), "random lookup returns a live entry");
    symx_reach("end");
}

// long histories: keys b, b+1, ... with b symbolic, in one chain or two; each step adds the next key or removes any live one
ENTRY(h_long) {
    struct { uint32_t k, v; bool live; } m[12]; unsigned n = 0, live = 0, ops = symx_param("OPS", 7); hmode = symx_choice(2, "chains") ? 1 : 2; bool er = symx_choice(2, "erase"); uint32_t b = sym<uint32_t>("b") << 4; T t(hmode == 1 ? 1.0 : 2.0);
    for (unsigned i = 0; i < ops; i++) {
        unsigned c = symx_choice(live + 1, "op");
        if (c == live) { m[n].k = b + n; m[n].v = sym<uint32_t>("v"); m[n].live = true; t.add(KV(m[n].k, m[n].v)); n++; live++; }
        else { unsigned j = 0; for (unsigned k = 0; k < n; k++) if (m[k].live && c-- == 0) j = k; if (er && (i & 1)) { T::iterator it = t.find(KV(m[j].k, 0)); CHECK(it != t.end(), "find a live key"); t.erase(it); } else CHECK(t.remove(KV(m[j].k, 0), false), "remove a live key"); m[j].live = false; live--; }
    }
    bool ok = t.size() == live; for (unsigned k = 0; k < n; k++) { KV *f = t.lookup(KV(m[k].k, 0)); ok = ok & ((f != NULL) == m[k].live); if (f) ok = ok & (f->v == m[k].v) & (f->k == m[k].k); } CHECK(ok, "a look-up finds exactly the live entries with their data");
    unsigned seen = 0, left = live; for (T::iterator i = t.begin(); i != t.end(); ++i) { CHECK(left > 0, "the traversal ends"); left--; for (unsigned k = 0; k < n; k++) if (m[k].live && i->k == m[k].k) seen |= 1u << k; } unsigned want = 0; for (unsigned k = 0; k < n; k++) want |= (unsigned)m[k].live << k; CHECK((left == 0) & (seen == want), "the traversal visits each live entry once"); symx_trace(seen); symx_reach("end");
}
