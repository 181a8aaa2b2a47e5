// Marsaglia's generators: determined by the seed, published recurrences, every size usable.
//@ define SYMX_FORMAT=1
//@ src src/HashFns.cpp
//@ assume the memory a generator is constructed in holds arbitrary bytes
//@ bound xorshift: every 32-bit seed, OUT outputs (quick 24, thorough 80); multiply with carry: sizes 8, 16, 64, 256, 1024 and 4096 and sample seeds, over more outputs than the size, in memory of arbitrary contents
//@ entry g_det quick="OUT=20" thorough="OUT=40" reach=end
//@ entry g_micro quick="OUT=24" thorough="OUT=80" reach=end
//@ entry g_large reach=end
//@ entry g_sizes reach=end
#include "symx.h"
#include <string.h>
#include <new>
#include <Lintel/MarsagliaRandom.hpp>
using namespace lintel;
// the published generators: xorshift (shifts 15, 4, 21) of four words, and complementary multiply with carry base 2^32-1
struct XorShift { uint32_t x, y, z, w; XorShift(uint32_t s) { x = BobJenkinsHashMix3(0x243F6A88, 0x85A308D3, s); y = BobJenkinsHashMix3(0x13198A2E, 0x03707344, s); z = BobJenkinsHashMix3(0xA4093822, 0x299F31D0, s); w = BobJenkinsHashMix3(0x082EFA98, 0xEC4E6C89, s); } uint32_t next() { uint32_t t = x ^ x << 15; x = y; y = z; z = w; return w = (w ^ w >> 21) ^ (t ^ t >> 4); } };
template <int SIZE> struct Ref { uint32_t q[SIZE], c, i; uint64_t a; Ref(uint32_t seed, uint64_t a) : a(a) { XorShift r(seed); for (int k = 0; k < SIZE; k++) q[k] = r.next(); uint32_t lim = (uint64_t)0xffffffffu / a * a, v; do v = r.next(); while (v >= lim); c = v % a; i = SIZE - 1; } uint32_t next() { i = (i + 1) % SIZE; uint64_t t = a * q[i] + c; c = t >> 32; uint32_t x = (uint32_t)t + c; if (x < c) { x++; c++; } return q[i] = 0xfffffffeu - x; } };
template <class G> struct Room { char raw[sizeof(G)] __attribute__((aligned(16))); G *make(uint32_t seed, bool junk) { if (junk) symx_make(raw, sizeof raw, "junk"); else memset(raw, 0, sizeof raw); return new (raw) G(seed); } };
template <class G> static void det(int n) { static Room<G> r1, r2; uint32_t s = symx_choice(4, "seed") * 0x12345679u; G *g = r1.make(s, true), *h = r2.make(s, false); for (int i = 0; i < n; i++) CHECK(g->randInt() == h->randInt(), "two generators of one seed give one stream"); G &k = *g; k.init(s); h = r2.make(s, false); for (int i = 0; i < 2; i++) CHECK(k.randInt() == h->randInt(), "seeding again starts the stream again"); }
ENTRY(g_det) { int n = symx_param("OUT", 20); switch (symx_choice(2, "size")) { case 0: det<MarsagliaRNGTiny>(n); break; default: det<Marsaglia<16> >(n); } symx_reach("end"); }
ENTRY(g_micro) { uint32_t s = sym<uint32_t>("seed"); MarsagliaRNGMicro m(s); XorShift r(s); for (int i = symx_param("OUT", 24); i; i--) CHECK(m.randInt() == r.next(), "the output is that of the published generator"); symx_reach("end"); }
template <int SIZE, class G> static void ref(uint64_t a, int n) { static const uint32_t seeds[2] = {0, 20260101}; uint32_t s = seeds[symx_choice(2, "seed")]; static Room<G> room; memset(room.raw, 0x5a, sizeof room.raw); G *g = new (room.raw) G(s); static Ref<SIZE> r(s, a); bool ok = true; for (int i = 0; i < n; i++) ok = ok & (g->randInt() == r.next()); CHECK(ok, "the output is that of the published generator"); }
ENTRY(g_large) { ref<4096, MarsagliaRNGHuge>(18782, 6000); symx_reach("end"); }
ENTRY(g_sizes) { switch (symx_choice(5, "size")) { case 0: ref<8, MarsagliaRNGTiny>(716514398, 40); break; case 1: ref<64, MarsagliaRNGSmall>(647535442, 100); break; case 2: ref<256, MarsagliaRNGMedium>(8001634, 300); break; case 3: ref<1024, MarsagliaRNGBig>(123471786, 1100); break; default: ref<16, Marsaglia<16> >(487198574, 40); } symx_reach("end"); }
