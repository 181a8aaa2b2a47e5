// The Mersenne Twister is MT19937: seeding and output are the published recurrences, for every seed, key and state.
//@ src src/MersenneTwisterRandom.cpp
//@ define SYS_POSIX=1 SYMX_FORMAT=1
//@ nativesrc src/AssertBoost.cpp src/StringUtil.cpp
//@ assume the state words lie in one piece in the object in the order of the recurrence (looked up by content, otherwise the entries about arbitrary states check nothing beyond every seed)
//@ bound every 32-bit seed and every key of 1 to K words (quick 3, thorough 6) and some longer than the state with symbolic words, the whole first block of 624 outputs (of a plain seed every EVERY-th, quick 48, thorough 8) and the first of the second; every state of 624 arbitrary words, two whole blocks
//@ entry r_seed quick="EVERY=48" thorough="EVERY=8" reach=end
//@ entry r_state quick="B=2" thorough="B=3" reach=end
//@ entry r_key quick="K=3" thorough="K=6" reach=end
//@ entry r_reseed reach=end
//@ entry r_longkey reach=end
//@ entry r_nokey reach=end
#include "symx.h"
#include <string.h>
#include <Lintel/MersenneTwisterRandom.hpp>
using namespace lintel; using std::vector;
static const uint64_t mag[2] = {0, 0x9908b0dfu};
struct Ref {
    uint32_t s[624]; int n;
    void seed(uint32_t x) { s[0] = x; for (int i = 1; i < 624; i++) s[i] = 1812433253UL * (s[i - 1] ^ (s[i - 1] >> 30)) + i; n = 624; }
    void key(const vector<uint32_t> &k) {
        seed(19650218u); size_t i = 1, j = 0, m = k.size(); for (size_t c = m > 624 ? m : 624; c; c--) { s[i] = (s[i] ^ ((s[i - 1] ^ (s[i - 1] >> 30)) * 1664525u)) + k[j] + (uint32_t)j; if (++i == 624) { s[0] = s[623]; i = 1; } if (++j == m) j = 0; }
        for (int c = 623; c; c--) { s[i] = (s[i] ^ ((s[i - 1] ^ (s[i - 1] >> 30)) * 1566083941u)) - (uint32_t)i; if (++i == 624) { s[0] = s[623]; i = 1; } } s[0] = 0x80000000u;
    }
    uint32_t next() {
        if (n == 624) { for (int k = 0; k < 624; k++) { uint32_t y = (s[k] & 0x80000000u) | (s[(k + 1) % 624] & 0x7fffffffu); s[k] = s[(k + 397) % 624] ^ (y >> 1) ^ mag[y & 1]; } n = 0; }
        uint32_t y = s[n++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18);
    }
};
static void same(MersenneTwisterInternal &m, Ref &r, int n, int every = 1) { for (int i = 0; i < n; i++) { uint32_t a = m.randInt(), b = r.next(); if (i % every == 0 || i < 3) CHECK(a == b, "the output is that of the published generator"); if (i % 100 == 0) symx_trace(a); } }
static uint32_t *state(MersenneTwisterInternal &m, const Ref &r) { uint32_t *w = (uint32_t *)&m; for (size_t o = 0; o + 624 <= sizeof(m) / 4; o++) if (!memcmp(w + o, r.s, sizeof r.s)) return w + o; return 0; }
static Ref R;
ENTRY(r_seed) { uint32_t s = sym<uint32_t>("seed"); symx_assume(s != 0); MersenneTwisterInternal m(s); R.seed(s); CHECK(m.seedUsed() == s, "the seed used is the seed given"); same(m, R, 625, symx_param("EVERY", 48)); symx_reach("end"); }
ENTRY(r_reseed) { MersenneTwisterInternal m(5489); for (unsigned k = symx_choice(3, "drawn") * 100; k; k--) m.randInt(); uint32_t s = sym<uint32_t>("seed"); if (symx_choice(2, "key")) { vector<uint32_t> k(1, s); m.initArray(k); R.key(k); } else { m.init(s); R.seed(s); CHECK(m.seedUsed() == s, "the seed used is the seed given"); } same(m, R, 4); symx_reach("end"); }
ENTRY(r_state) {
    MersenneTwisterInternal m(5489); R.seed(5489); uint32_t *p = state(m, R); if (p) { symx_make(p, 624 * 4, "state"); memcpy(R.s, p, 624 * 4); } same(m, R, 624 * symx_param("B", 2)); symx_reach("end");
}
ENTRY(r_key) { vector<uint32_t> k; unsigned n = 1 + symx_choice(symx_param("K", 3), "n"); for (unsigned i = 0; i < n; i++) k.push_back(sym<uint32_t>("k")); MersenneTwisterInternal m(k); R.key(k); same(m, R, 625); symx_reach("end"); }
ENTRY(r_longkey) { vector<uint32_t> k; unsigned n = 623 + symx_choice(4, "n"); for (unsigned i = 0; i < n; i++) k.push_back(i % 7 == 3 || i > 620 ? sym<uint32_t>("k") : i * 77); MersenneTwisterInternal m(k); R.key(k); same(m, R, 625); symx_reach("end"); }
ENTRY(r_nokey) { vector<uint32_t> k; symx_reach("end"); symx_allow_abort(1); MersenneTwisterInternal m(k); symx_allow_abort(0); symx_fail("an empty key is refused"); }
