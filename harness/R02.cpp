// Derived random values: ranges, unbiasedness, reproducibility and shuffles, for every stream of generator words.
//@ src src/MersenneTwisterRandom.cpp
//@ define SYS_POSIX=1 SYMX_FORMAT=1
//@ nativesrc src/AssertBoost.cpp src/StringUtil.cpp
//@ assume a generator is any object with randInt(); the doubles of 53 bits are bounded in the words they are made from
//@ bound every 32-bit word of the stream; limits of BITS bits beside the boundary limits (quick 6, thorough 10); up to 140 fast booleans; shuffles of up to N elements (quick 5, thorough 7) and every 32-bit word drawn; doubles from all 32-bit words (closed and 53-bit forms: words with WB free bits at the top and bottom, quick 8, thorough 12)
//@ entry d_range quick="BITS=6" thorough="BITS=10" reach=end
//@ entry d_unbiased quick="BITS=4" thorough="BITS=7" reach=end
//@ entry d_bools reach=end
//@ entry d_open reach=end
//@ entry d_closed quick="WB=8" thorough="WB=12" reach=end
//@ entry d_open53 quick="WB=6" thorough="WB=10" reach=end
//@ entry d_shuffle quick="N=5" thorough="N=7" reach=end
//@ entry d_restart reach=end
#include "symx.h"
#include <string.h>
#include <algorithm>
#include <Lintel/MersenneTwisterRandom.hpp>
#include <Lintel/MarsagliaRandom.hpp>
using namespace lintel; using std::vector;
static uint32_t g_w[200]; static int g_n, g_i;
struct Words { Words(uint32_t = 0) {} Words(vector<uint32_t>) {} void init(uint32_t) {} void initArray(vector<uint32_t>) {} uint32_t randInt() { if (g_i == g_n) { symx_fail("more words drawn than needed"); } return g_w[g_i++]; } };
typedef RandomTempl<Words> Rnd;
static void words(int n) { g_n = n; g_i = 0; for (int i = 0; i < n; i++) g_w[i] = sym<uint32_t>("w"); }
static uint32_t limit() { switch (symx_choice(3, "limit")) { case 0: { uint32_t m = symx_val(symx_param("BITS", 6), "max"); symx_assume(m > 0); return m; } case 1: return 1u << symx_choice(32, "pow"); default: { static const uint32_t t[] = {3, 5, 7, 1000, 0x7fffffffu, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0xaaaaaaabu, 18782}; return t[symx_choice(10, "lim")]; } } }
ENTRY(d_range) { Rnd r; words(2); uint32_t m = limit(), x = r.randInt(m); CHECK(x < m, "below the limit"); CHECK(x == g_w[0] % m, "the word modulo the limit"); CHECK(g_i == 1, "one word drawn"); uint64_t l; g_i = 0; l = r.randLongLong(); CHECK(l == ((uint64_t)g_w[0] << 32 | g_w[1]), "64 bits from two words"); g_i = 0; CHECK(r.randBool() == (g_w[0] & 1), "one bit of a word"); g_i = 0; CHECK(r.randInt() == g_w[0], "the word itself"); symx_reach("end"); }
// the words accepted make whole runs of residues, so each value below the limit comes from equally many words; at least half of all words are accepted
ENTRY(d_unbiased) {
    Rnd r; words(2); uint32_t m = limit(); uint64_t runs = (1ull << 32) / m; symx_assume(g_w[1] < m); // the second is acceptable whatever the cut
    uint32_t x = r.randIntUnbiased(m); CHECK(x < m, "below the limit"); bool first = g_i == 1; uint32_t w = g_w[0];
    if (first) CHECK(x == w % m && w / m < runs, "an accepted word belongs to a whole run of residues"); else { CHECK(x == g_w[1], "the next word decides"); CHECK((uint64_t)w >= (uint64_t)(0xffffffffu / m) * m, "only words beyond the last whole run are rejected"); } symx_reach("end");
}
ENTRY(d_bools) { Rnd r; unsigned n = symx_choice(5, "n") * 35; words(6); bool ok = true; for (unsigned i = 0; i < n; i++) { unsigned k = i / 64 * 2, b = i % 64; bool want = b < 32 ? g_w[k + 1] >> b & 1 : g_w[k] >> (b - 32) & 1; ok = ok & (r.randBoolFast() == want); } CHECK(ok, "64 booleans are the bits of two words"); CHECK((unsigned)g_i == (n + 63) / 64 * 2, "words are drawn when needed"); symx_reach("end"); }
ENTRY(d_open) { Rnd r; words(1); double d = symx_choice(2, "which") ? r.randDouble() : r.randDoubleOpen(); CHECK(d >= 0 && d < 1, "in the half-open unit interval"); CHECK(d * 4294967296.0 == (double)g_w[0], "the word as a fraction"); symx_reach("end"); }
static uint32_t edge(unsigned b) { uint32_t lo = symx_val(b, "lo"); switch (symx_choice(3, "at")) { case 0: return lo; case 1: return ~lo; default: return lo << (32 - b) | lo; } }
ENTRY(d_closed) { Rnd r; words(0); g_n = 1; unsigned b = symx_param("WB", 8); g_w[0] = edge(b); double d = r.randDoubleClosed(); CHECK(d >= 0 && d <= 1, "in the closed unit interval"); CHECK((d == 0) == (g_w[0] == 0), "zero from zero only"); CHECK(g_w[0] != 0xffffffffu || d == 1, "one is reached"); symx_reach("end"); }
ENTRY(d_open53) { Rnd r; words(0); g_n = 2; unsigned b = symx_param("WB", 6); g_w[0] = edge(b); g_w[1] = edge(b); uint64_t v = (uint64_t)(g_w[0] >> 5) << 26 | g_w[1] >> 6; double d = r.randDoubleOpen53(); CHECK(d >= 0 && d < 1, "in the half-open unit interval"); CHECK(d * 9007199254740992.0 == (double)v, "53 bits as a fraction"); g_i = 0; double c = r.randDoubleClosed53(); CHECK(c >= 0 && c <= 1, "in the closed unit interval"); CHECK(v != (1ull << 53) - 1 || c == 1, "one is reached"); CHECK((v == 0) == (c == 0), "zero from zero only"); symx_reach("end"); }
static uint32_t temper(uint32_t y) { y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18); }
ENTRY(d_shuffle) {
    unsigned n = symx_choice(symx_param("N", 5) + 1, "n"); vector<uint32_t> key; key.push_back(7); MersenneTwisterRandom g(key), h(key); vector<uint8_t> a(n), b(n); for (unsigned i = 0; i < n; i++) a[i] = b[i] = 10 * i + 3;
    // make the generator's words arbitrary: find the state by content in two equal generators
    uint32_t *p = (uint32_t *)&g, *q = (uint32_t *)&h; MersenneTwisterRandom t(key); uint32_t o1 = t.randInt(), *s = (uint32_t *)&t; size_t at = sizeof t; for (size_t i = 0; i < sizeof(t) / 4; i++) if (temper(s[i]) == o1) { at = i; break; }
    if (at < sizeof t) { g.randInt(); h.randInt(); for (unsigned i = 0; i < 8; i++) p[at + 1 + i] = q[at + 1 + i] = sym<uint32_t>("word"); }
    MT_random_shuffle(a.begin(), a.end(), g);
    for (unsigned i = 1; i < n; i++) { uint32_t j = h.randInt() % (i + 1); for (unsigned k = 0; k <= i; k++) { bool at = k == j; uint8_t x = b[i], y = b[k]; b[i] = at ? y : x; b[k] = at ? x : y; } }
    bool ok = true; for (unsigned i = 0; i < n; i++) ok = ok & (a[i] == b[i]); CHECK(ok, "every prefix grows by exchange with a uniformly chosen element"); for (unsigned v = 0; v < n; v++) { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += a[i] == 10 * v + 3; CHECK(c == 1, "a permutation"); } CHECK(n < 2 || g.randInt() == h.randInt(), "one word per exchange"); symx_reach("end");
}
// seeding again gives the stream of a new generator, whatever was drawn before
struct Seeded { int i; Seeded(uint32_t s = 0) { init(s); } Seeded(vector<uint32_t> k) { initArray(k); } void init(uint32_t s) { i = 40 * (s & 1); } void initArray(vector<uint32_t> k) { init(k[0]); } uint32_t randInt() { return g_w[i++]; } };
ENTRY(d_restart) {
    words(120); RandomTempl<Seeded> g(symx_choice(2, "seed")); for (unsigned k = symx_choice(5, "bools") * 21; k; k--) g.randBoolFast(); for (unsigned k = symx_choice(3, "words"); k; k--) g.randInt();
    uint32_t s = symx_choice(2, "again"); bool arr = symx_choice(2, "array"); vector<uint32_t> key(1, s); if (arr) g.initArray(key); else g.init(s); RandomTempl<Seeded> f(s), fa(key); RandomTempl<Seeded> &n = arr ? fa : f; bool ok = true;
    for (int k = 0; k < 65; k++) ok = ok & (g.randBoolFast() == n.randBoolFast()); CHECK(ok, "booleans after seeding are those of a new generator"); CHECK((g.randInt() == n.randInt()) & (g.randLongLong() == n.randLongLong()) & (g.randInt(10) == n.randInt(10)), "values after seeding are those of a new generator"); symx_reach("end");
}
