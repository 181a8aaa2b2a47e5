// ASCIIbetical base 64 preserves order; numbers are written big-endian.
//@ assume digit counts are non-negative
//@ bound pairs of strings of up to N fully symbolic bytes; all 32-bit numbers with 6 (default) or 0..7 digits, all 64-bit numbers with 11 (default) or 1..12 digits; right-aligned encoding of up to 5 bytes into up to 9 digits
//@ entry o_strings quick="N=8" thorough="N=12" reach=end
//@ entry o_numbers reach=end
//@ entry o_number64 reach=end
//@ entry o_backward reach=end
#include "symx.h"
#include <Lintel/Base64.hpp>
using namespace std; using lintel::ASCIIbeticalB64;
static const char *alpha = "+,0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
static bool codeLess(const string &a, const string &b) { bool lt = false, gt = false; for (size_t i = 0; i < a.size() && i < b.size(); i++) { unsigned char x = a[i], y = b[i]; gt |= !lt & (x > y); lt |= !gt & (x < y); } return lt | (!gt & (a.size() < b.size())); }
ENTRY(o_strings) {
    size_t N = symx_param("N", 5), n = symx_choice(N + 1, "n"), m = symx_choice(N + 1, "m"); string a = symStr(n, "a"), b = symStr(m, "b"), x = ASCIIbeticalB64::encode(a, 0), y = ASCIIbeticalB64::encode(b, 0);
    CHECK(codeLess(a, b) == codeLess(x, y), "the codes are ordered as the strings"); CHECK(codeLess(b, a) == codeLess(y, x), "in both directions"); symx_reach("end");
}
template <class U, class S> static void num(int dflt, int k) {
    U v = sym<U>("v"), w = sym<U>("w"); int digits = k ? k : dflt; string a = ASCIIbeticalB64::encode(v, k), b = ASCIIbeticalB64::encode((S)v, k), c = ASCIIbeticalB64::encode(w, k); CHECK(a.size() == (size_t)digits, "number of digits"); CHECK(eqStr(a, b), "signed and unsigned agree");
    bool ok = true; for (int i = 0; i < digits; i++) { unsigned s = 6 * (digits - 1 - i); ok &= a[i] == alpha[s < sizeof(U) * 8 ? (unsigned)(v >> s) & 63 : 0]; } CHECK(ok, "digits, most significant first"); if ((unsigned)digits * 6 >= sizeof(U) * 8) CHECK(codeLess(a, c) == (v < w), "codes are ordered as the numbers"); char raw[16] = "###############"; ASCIIbeticalB64::encode(v, digits, raw); CHECK(eqBytes(raw, a.data(), digits) & (raw[digits] == '#'), "in-place form"); char raw2[16] = "###############"; ASCIIbeticalB64::encode((S)v, digits, raw2); CHECK(eqBytes(raw, raw2, 16), "signed in-place form"); symx_reach("end");
}
ENTRY(o_numbers) { num<uint32_t, int32_t>(6, symx_choice(8, "digits")); }
ENTRY(o_number64) { num<uint64_t, int64_t>(11, symx_choice(13, "digits")); }
ENTRY(o_backward) {
    size_t n = symx_choice(6, "n"), k = symx_choice(10, "k"); string d = symStr(n, "d"); char raw[12]; for (int i = 0; i < 12; i++) raw[i] = '#'; char *exact = new char[n]; for (size_t i = 0; i < n; i++) exact[i] = d[i]; ASCIIbeticalB64::encodeBackward(exact, n, k, raw); uint64_t v = 0; for (size_t i = 0; i < n; i++) v = v << 8 | (unsigned char)d[i];
    bool ok = true; for (size_t i = 0; i < k; i++) ok &= raw[i] == alpha[(v >> 6 * (k - 1 - i)) & 63]; CHECK(ok, "the data read as a big-endian number, zero digits in front"); CHECK(raw[k] == '#', "nothing beyond the digits"); delete[] exact; symx_reach("end");
}
