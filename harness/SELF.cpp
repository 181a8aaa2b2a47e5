// Engine self-test (not a property): every operator on symbolic values constrained to corner cases, traces compared with native execution.
//@ entry t_int8 opts="--samples 4000" 
//@ entry t_int16 opts="--samples 4000" 
//@ entry t_int32 opts="--samples 4000" 
//@ entry t_int64 opts="--samples 4000" 
//@ entry t_mixed opts="--samples 4000" 
//@ entry t_fp opts="--samples 4000"
//@ entry t_fix opts="--samples 4000"
#include "symx.h"
#include <limits>
#include <string.h>
template <class U> static U pick(const char *n, bool symb) {
    static const uint64_t t[] = {0, 1, 2, 3, 7, 10, 100, 127, 128, 255, 256, 32767, 32768, 65535, 0x7fffffff, 0x80000000, 0xffffffff, 0x123456789abcdef0, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 10000000000000000000ull};
    uint64_t v = t[symx_choice(sizeof(t) / 8, n)]; if ((uint64_t)(U)v != v && v < 0xffffffffffffffff) symx_end(); if (!symb) return (U)v; U x = sym<U>(n); symx_assume(x == (U)v); return x;
}
template <class U, class S> static void all(int mode) {
    U a = pick<U>("a", mode & 1), b = pick<U>("b", mode & 2); S x = (S)a, y = (S)b; const unsigned W = sizeof(U) * 8;
    U r; S q; bool o;
    o = __builtin_add_overflow(a, b, &r); symx_trace(o); symx_trace(r); o = __builtin_sub_overflow(a, b, &r); symx_trace(o); symx_trace(r);
    o = __builtin_add_overflow(x, y, &q); symx_trace(o); symx_trace((U)q); o = __builtin_sub_overflow(x, y, &q); symx_trace(o); symx_trace((U)q);
    if (W < 64 || mode != 3) { o = __builtin_mul_overflow(a, b, &r); symx_trace(o); symx_trace(r); o = __builtin_mul_overflow(x, y, &q); symx_trace(o); symx_trace((U)q); }
    symx_trace((U)(a * b)); if (b) { symx_trace((U)(a / b)); symx_trace((U)(a % b)); if (!(y == -1 && x == std::numeric_limits<S>::min())) { symx_trace((U)(x / y)); symx_trace((U)(x % y)); } }
    unsigned s = (unsigned)(b % W); symx_trace((U)(a << s)); symx_trace((U)(a >> s)); symx_trace((U)(x >> s)); symx_trace((U)((a << s) | (a >> ((W - s) % W))));
    symx_trace(a < b); symx_trace(x < y); symx_trace(a <= b); symx_trace(x <= y); symx_trace(a == b); symx_trace((U)(a & b)); symx_trace((U)(a | b)); symx_trace((U)(a ^ b)); symx_trace((U)~a); symx_trace((U)-a);
    symx_trace(__builtin_popcountll(a)); if (a) { symx_trace(__builtin_clzll(a)); symx_trace(__builtin_ctzll(a)); } symx_trace(__builtin_bswap64(a)); symx_trace(__builtin_bswap32((uint32_t)a)); symx_trace(a > b ? a - b : 0); symx_trace((U)(x < 0 ? -(uint64_t)x : x)); symx_trace(a > b ? a : b); symx_trace((U)(x > y ? x : y));
    symx_trace((uint64_t)(int64_t)x); symx_trace((uint64_t)(int8_t)a); symx_trace((uint16_t)a); symx_trace((uint64_t)(int32_t)x); symx_trace((U)(a * 10 + b)); symx_trace((U)(a / 10)); symx_trace((U)(x / 10)); symx_trace((U)(x % 1000)); symx_trace((U)(a % 7));
}
ENTRY(t_int8) { all<uint8_t, int8_t>(symx_choice(4, "m")); }
ENTRY(t_int16) { all<uint16_t, int16_t>(symx_choice(4, "m")); }
ENTRY(t_int32) { all<uint32_t, int32_t>(symx_choice(4, "m")); }
ENTRY(t_int64) { all<uint64_t, int64_t>(symx_choice(4, "m")); }
ENTRY(t_mixed) {
    uint8_t a = pick<uint8_t>("a", true), b = pick<uint8_t>("b", true); uint8_t m[8]; symx_make(m, 8, "m"); for (int i = 0; i < 8; i++) symx_assume(m[i] == (uint8_t)(i * 37 + 11)); m[a % 8] = b; uint32_t w; memcpy(&w, m + (b % 5), 4); symx_trace(w); uint16_t h; memcpy(&h, m + 3, 2); symx_trace(h); symx_trace(memcmp(m, m + 4, 4) < 0); memmove(m + 1, m, 6); uint64_t z; memcpy(&z, m, 8); symx_trace(z);
    struct { unsigned x : 3, y : 7; int s : 5; } bf; bf.x = a; bf.y = b; bf.s = a; symx_trace(bf.x); symx_trace(bf.y); symx_trace((uint64_t)(int64_t)bf.s); switch (a & 15) { case 1: symx_trace(1); break; case 3: symx_trace(3); break; case 7: symx_trace(7); break; default: symx_trace(99); }
}
ENTRY(t_fp) {
    static const double t[] = {0.0, -0.0, 1, -1, 0.5, 1.5, 2.5, -2.5, 1e10, -1e10, 1e300, 1e-310, 4294967295.5, 0.1, 9007199254740993.0};
    double a = sym<double>("a"), b = sym<double>("b"); uint64_t ua, ub; double ca = t[symx_choice(15, "i")], cb = t[symx_choice(15, "j")]; uint64_t va, vb; memcpy(&ua, &a, 8); memcpy(&ub, &b, 8); memcpy(&va, &ca, 8); memcpy(&vb, &cb, 8); symx_assume(ua == va); symx_assume(ub == vb);
    traced(a + b); traced(a - b); traced(a * b); if (cb != 0) traced(a / b); symx_trace(a < b); symx_trace(a <= b); symx_trace(a == b); symx_trace(a != b); symx_trace(a >= b); traced(__builtin_fabs(a)); traced(-a); traced(__builtin_floor(a)); traced(__builtin_ceil(a)); traced(__builtin_trunc(a)); if (ca >= 0) traced(__builtin_sqrt(a)); traced((double)(float)a);
    if (ca > -1e9 && ca < 1e9) { symx_trace((uint64_t)(int64_t)a); symx_trace((uint64_t)(int32_t)a); } if (ca >= 0 && ca < 1e15) symx_trace((uint64_t)a); traced((double)(int64_t)ua); traced((double)ub); traced((float)a); traced((double)(uint32_t)ua); traced((double)(int32_t)ub); traced(a < b ? a : b); traced(a * b + a); traced(__builtin_round(a)); traced(__builtin_rint(b));
}
// doubles built from integers (evaluated as scaled integers in the engine)
ENTRY(t_fix) {
    int8_t i = (int8_t)pick<uint8_t>("i", true); int32_t j = (int32_t)pick<uint32_t>("j", true); uint16_t k = sym<uint16_t>("k"); symx_assume(k == (uint16_t)(i * 77 + j)); double a = i, b = j, c = k, d = a * 0.5, e = (c - a) / 4.0, f = (i > 3) ? a : b, g = b * 3.0 + a * a;
    double v[] = {a, b, c, d, e, f, g, a + b, a - b, a * a, b * b, c * c, a * b, d * d, d + e, e - f, g - f, a * 2.0 + d, b / 8.0, c * d, f * f, a + 0.1, a + 0.75, -a, a - a, f / 2.0, g / 1024.0, c + 1e15, b * 1e10, d * 0.0, c * 0.0, (double)(uint32_t)j, (double)(uint64_t)(uint32_t)j, (a + b) / 2.0, c * 0.5 - b };
    unsigned n = sizeof(v) / 8, p = symx_choice(n, "p"), q = symx_choice(5, "q"); double x = v[p], y = v[(p * 7 + q * 3 + 1) % n]; traced(x); traced(x + y); traced(x - y); traced(x * y); traced(__builtin_floor(x)); traced(__builtin_ceil(x)); traced(__builtin_trunc(x)); traced(__builtin_fabs(x)); traced(x / 2.0); traced(x * 4.0);
    symx_trace(x < y); symx_trace(x <= y); symx_trace(x == y); symx_trace(x > y); symx_trace(x != y); symx_trace(x != x); traced(x < y ? x : y); traced(x < y ? y : x); if (i > -100 && j > -1000000 && j < 1000000 && x > -1e12 && x < 1e12) { symx_trace((uint64_t)(int64_t)x); symx_trace((uint64_t)(int64_t)(x + y)); if (x > -2e9 && x < 2e9) symx_trace((uint64_t)(int32_t)x); if (x >= 0) symx_trace((uint64_t)x); }
}
