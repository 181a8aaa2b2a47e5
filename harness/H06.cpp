// Hash functions: pure functions of exactly the given bytes, equal to the published algorithm.
//@ src src/HashFns.cpp src/HashTable.cpp src/Stats.cpp src/Double.cpp
//@ assume reference: Bob Jenkins' 1996 hash (evahash), written independently in the harness
//@ bound byte strings of up to L bytes (quick 26, thorough 40): every length, one byte (any position, any value) symbolic over two base patterns, plus every value of one byte of the seed; integer hashes over all 32-bit values or one symbolic byte of a 64-bit value
//@ entry f_bytes quick="L=26" thorough="L=40" reach=end
//@ entry f_seed reach=end
//@ entry f_exact quick="L=26" thorough="L=40" reach=end
//@ entry f_ints reach=end
//@ entry f_strings reach=end
#include "symx.h"
#include <Lintel/HashFns.hpp>
#include <Lintel/HashTable.hpp>
#include <Lintel/HashMap.hpp>
static void rmix(uint32_t &a, uint32_t &b, uint32_t &c) {
    static const int sh[9] = {13, 8, 13, 12, 16, 5, 3, 10, 15};
    for (int r = 0; r < 9; r += 3) { a = (a - b - c) ^ (c >> sh[r]); b = (b - c - a) ^ (a << sh[r + 1]); c = (c - a - b) ^ (b >> sh[r + 2]); }
}
static uint32_t ref(const unsigned char *k, uint32_t n, uint32_t seed) {
    uint32_t a = 0x9e3779b9u, b = a, c = seed, i = 0;
    uint32_t w[3]; uint32_t full = n / 12;
    for (i = 0; i < full; i++) { for (int j = 0; j < 3; j++) w[j] = k[12 * i + 4 * j] | (k[12 * i + 4 * j + 1] << 8) | (k[12 * i + 4 * j + 2] << 16) | ((uint32_t)k[12 * i + 4 * j + 3] << 24); a += w[0]; b += w[1]; c += w[2]; rmix(a, b, c); }
    w[0] = w[1] = w[2] = 0; for (uint32_t j = 12 * full; j < n; j++) { uint32_t o = j - 12 * full; if (o < 8) w[o / 4] |= (uint32_t)k[j] << (8 * (o % 4)); else w[2] |= (uint32_t)k[j] << (8 * (o - 8 + 1)); }
    a += w[0]; b += w[1]; c += w[2] + n; rmix(a, b, c); return c;
}
static unsigned char *buf(unsigned n, unsigned pos, unsigned pat) { unsigned char *p = new unsigned char[n]; for (unsigned i = 0; i < n; i++) p[i] = pat ? 0x91 + 37 * i : 0; if (pos < n) p[pos] = sym<uint8_t>("byte"); return p; }
ENTRY(f_bytes) {
    unsigned n = symx_choice(symx_param("L", 26) + 1, "len"), pos = n ? symx_choice(n, "pos") : 0, pat = symx_choice(2, "pat"); unsigned char *p = buf(n, pos, pat);
    uint32_t seed = pat ? 1972 : 0xdeadbeef, h = lintel::bobJenkinsHash(seed, p, n); symx_trace(h);
    CHECK(h == ref(p, n, seed), "the hash equals the published function of the bytes, length and seed"); delete[] p; symx_reach("end");
}
ENTRY(f_seed) {
    unsigned n = symx_choice(14, "len"); unsigned char *p = buf(n, n, 1); unsigned sh = symx_choice(4, "sh") * 8; uint32_t seed = 0x5a17c3b2; seed ^= (uint32_t)sym<uint8_t>("seed") << sh;
    CHECK(lintel::bobJenkinsHash(seed, p, n) == ref(p, n, seed), "seed"); CHECK(lintel::hashBytes(p, n, seed) == lintel::bobJenkinsHash(seed, p, n), "hashBytes"); CHECK(lintel::hashBytes(p, n) == ref(p, n, 1972), "default seed"); delete[] p; symx_reach("end");
}
// surrounding bytes do not matter, none is read outside the range
ENTRY(f_exact) {
    unsigned n = symx_choice(symx_param("L", 26) + 1, "len"), off = symx_choice(2, "off"); unsigned char *p = buf(n + 2, n + 2, 1), *x = buf(n, n, 0); p[n + off ? n + 1 : 0] = 7;
    for (unsigned i = 0; i < n; i++) x[i] = p[off + i]; p[off + n] = sym<uint8_t>("after"); if (off) p[0] = sym<uint8_t>("before");
    CHECK(lintel::bobJenkinsHash(5, p + off, n) == lintel::bobJenkinsHash(5, x, n), "only the given bytes count"); delete[] p; delete[] x; symx_reach("end");
}
ENTRY(f_ints) {
    uint32_t v = sym<uint32_t>("v"); CHECK(lintel::hash(v) == v, "32-bit integers hash to themselves"); CHECK(lintel::hash((uint8_t)v) == (v & 255), "8-bit"); CHECK(lintel::hash((uint16_t)v) == (v & 65535), "16-bit"); CHECK(lintel::hash((int32_t)v) == v, "signed");
    unsigned sh = symx_choice(8, "sh") * 8; uint64_t q = 0x123456789abcdef0ull ^ ((uint64_t)sym<uint8_t>("q") << sh); uint32_t a = q, b = q >> 32, c = 1972; rmix(a, b, c);
    CHECK(lintel::hash(q) == c, "64-bit integers are mixed from both halves"); CHECK(lintel::hash((int64_t)q) == c, "signed 64-bit"); CHECK(lintel::BobJenkinsHashMixULL(q) == c, "mix");
    uint32_t x = q, y = q >> 32, z = 77; rmix(x, y, z); CHECK(lintel::BobJenkinsHashMix3((uint32_t)q, (uint32_t)(q >> 32), 77) == z, "mix3");
    int obj[2]; lintel::PointerHash<int> ph; CHECK(ph(&obj[0]) == lintel::hash((uint64_t)(uintptr_t)&obj[0]), "pointers hash by address"); lintel::PointerEqual<int> pe; CHECK(pe(obj, obj) & !pe(obj, obj + 1), "pointers compare by address"); symx_reach("end");
}
struct Mem { uint32_t x; uint32_t hash() const { return x ^ 5; } };
ENTRY(f_strings) {
    unsigned n = symx_choice(14, "len"); std::string s(n, 'q'); for (unsigned i = 0; i < n; i++) s[i] = 'a' + i; unsigned pos = n ? symx_choice(n, "pos") : 0; if (n) s[pos] = sym<uint8_t>("c");
    uint32_t want = ref((const unsigned char *)s.data(), n, 1972); CHECK(lintel::hash(s) == want, "std::string hashes its whole content"); HashMap_hash<std::string> hm; CHECK(hm(s) == want, "map hash of strings");
    if (n) symx_assume(s[pos] != 0); const char *cs = s.c_str(); CHECK(lintel::hashType(cs) == want, "C strings hash up to the terminator");
    uint32_t k = sym<uint32_t>("k"); Mem m; m.x = k; CHECK(lintel::hash(m) == (k ^ 5), "a hash() member is used"); symx_reach("end");
}
