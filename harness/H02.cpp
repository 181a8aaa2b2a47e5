// Hash table traversal: complete, terminating, and safe to combine with updates as documented.
//@ src src/HashTable.cpp src/Stats.cpp src/Double.cpp
//@ assume the hash functor is a pure function of the key
//@ bound tables of up to 3 (thorough 4) entries with symbolic 4-bit keys inserted by symbolic-choice of hash (identity, low bit), optionally one removed; one interruption point anywhere in the traversal
//@ entry h_walk quick="N=3" thorough="N=4" reach=end
//@ entry h_erase quick="N=3" thorough="N=4" reach=end
//@ entry h_partial quick="N=3" thorough="N=4" reach=end
//@ entry h_reset quick="N=2" thorough="N=3" reach=end
//@ entry h_chain quick="N=3" thorough="N=4" reach=end
#include "symx.h"
#include <Lintel/HashTable.hpp>
#include "hmodel.hpp"
struct KV { uint32_t k, v; KV() : k(77), v(0) { } KV(uint32_t a, uint32_t b) : k(a), v(b) { } };
static int hmode;
struct H { uint32_t operator()(const KV &a) const { return hmode == 0 ? a.k : (a.k & 1); } };
struct E { bool operator()(const KV &a, const KV &b) const { return a.k == b.k; } };
typedef HashTable<KV, H, E> T;
static uint32_t key(const char *n) { return symx_val(4, n); }
static void fill(T &t, Model &m, unsigned n) {
    hmode = symx_choice(2, "hash");
    unsigned cnt = symx_choice(n + 1, "count");
    for (unsigned i = 0; i < cnt; i++) { uint32_t k = key("k"); symx_assume(!m.has(k)); t.add(KV(k, i)); m.add(k, i); }
    if (cnt && symx_choice(2, "hole")) { uint32_t k = m.k[symx_choice(cnt, "which")]; CHECK(t.remove(KV(k, 0)), "remove of a present key"); m.del(k); }
}
// every entry exactly once, for all iterator flavours
ENTRY(h_walk) {
    T t; Model m; fill(t, m, symx_param("N", 3)); unsigned seen[16] = {0}, n = 0; const T &ct = t;
    unsigned flavour = symx_choice(3, "flavour");
    if (flavour == 0) for (T::iterator i = t.begin(); i != t.end(); ++i) { CHECK(i->v < 16, "value in range"); seen[i->v]++; if (++n > 8) break; }
    else if (flavour == 1) for (T::iterator i = t.begin(); i != t.end(); ) { T::iterator o = i++; seen[(*o).v & 15]++; if (++n > 8) break; }
    else for (T::const_iterator i = ct.begin(); !(i == ct.end()); i++) { seen[i->v & 15]++; if (++n > 8) break; }
    CHECK(n == m.size(), "as many steps as entries");
    for (unsigned i = 0; i < m.n; i++) CHECK(seen[i] == (m.live[i] ? 1u : 0u), "each live entry is visited exactly once");
    symx_trace(n); symx_reach("end");
}
// erasing the visited entry (after stepping past it) leaves the rest of the traversal intact
ENTRY(h_erase) {
    T t; Model m; fill(t, m, symx_param("N", 3)); unsigned seen[16] = {0}, n = 0; uint32_t q = key("q");
    for (T::iterator i = t.begin(); i != t.end(); ) {
        if (++n > 8) break; uint32_t k = i->k; seen[i->v & 15]++;
        if (k & 1) { T::iterator j = i; ++i; t.erase(j); m.del(k); } else ++i;
    }
    CHECK(n <= 8, "terminates"); unsigned left = 0;
    for (T::iterator i = t.begin(); i != t.end(); ++i) { left++; CHECK((i->k & 1) == 0, "erased entries are gone"); }
    CHECK((left == m.size()) & (t.size() == m.size()), "exactly the erased entries disappeared");
    CHECK((t.lookup(KV(q, 0)) != NULL) == m.has(q), "other entries still found");
    for (unsigned i = 0; i < m.n; i++) CHECK(seen[i] <= 1, "no entry twice");
    symx_reach("end");
}
// incremental scan: interrupted once, a key removed, resumed with partialReset: what stayed is visited
ENTRY(h_partial) {
    T t; Model m; fill(t, m, symx_param("N", 3)); unsigned seen[16] = {0}, n = 0; unsigned stop = symx_choice(symx_param("N", 3) + 1, "stop"); bool did = false;
    T::iterator i = t.begin();
    for (;;) {
        if (!did && n == stop) { did = true; uint32_t r = key("r"); bool was = m.has(r); CHECK(t.remove(KV(r, 0), false) == was, "remove during a scan"); m.del(r); i.partialReset(); }
        if (i == t.end()) break;
        CHECK(i->k < 16, "only live entries are visited"); seen[i->v & 15]++; ++i; if (++n > 16) break;
    }
    CHECK(n <= 16, "terminates");
    for (unsigned j = 0; j < m.n; j++) CHECK(!m.live[j] | (seen[j] >= 1), "an entry present throughout is visited");
    symx_reach("end");
}
ENTRY(h_reset) {
    T t; Model m; fill(t, m, symx_param("N", 3)); T::iterator i = t.begin(); unsigned adv = symx_choice(3, "adv");
    while (adv-- && i != t.end()) ++i;
    if (symx_choice(2, "clear")) { t.clear(); m = Model(); }
    i.reset(); unsigned n = 0;
    for (; i != t.end(); ++i) { CHECK(m.hasKV(i->k, i->v), "live entry"); if (++n > 8) break; }
    CHECK(n == m.size(), "a reset iterator walks the whole table"); symx_reach("end");
}
ENTRY(h_chain) {
    T t; Model m; fill(t, m, symx_param("N", 3)); unsigned n = 0, starts = 0, ends = 0;
    for (T::iterator i = t.begin(); i != t.end(); ++i) {
        if (++n > 8) break; bool st = i.atStartOfChain(), en = i.atEndOfChain(); starts += st; ends += en;
        T::iterator p = i; p.partialReset(); CHECK((p == i) == st, "partialReset goes back to the start of the current chain");
        T::iterator nx = i; ++nx; CHECK(en == (nx == t.end() || nx.getCurChain() != i.getCurChain()), "end of chain is where the chain changes");
    }
    CHECK(starts == ends, "every chain has a start and an end"); CHECK(t.end().atStartOfChain() & t.end().atEndOfChain(), "the end is a chain boundary");
    symx_reach("end");
}
