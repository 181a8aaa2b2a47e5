// ASCIIbetical base 64: decoding undoes encoding; truncation and padding; decoding anything is memory safe.
//@ assume digit counts are non-negative
//@ bound data of up to N fully symbolic bytes, every digit count up to 4 more than needed, decoded strings of up to N fully symbolic bytes
//@ entry b_round quick="N=18" thorough="N=30" reach=end
//@ entry b_digits quick="N=9" thorough="N=16" reach=end
//@ entry b_any quick="N=16" thorough="N=28" reach=end
#include "symx.h"
#include <Lintel/Base64.hpp>
using namespace std; using lintel::ASCIIbeticalB64;
static const char *alpha = "+,0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
// bit i (from the most significant end) of the data, zero beyond it
static unsigned sextet(const string &d, size_t k) { unsigned r = 0; for (size_t b = 6 * k; b < 6 * k + 6; b++) r = r << 1 | (b / 8 < d.size() ? ((unsigned char)d[b / 8] >> (7 - b % 8)) & 1 : 0); return r; }
ENTRY(b_round) {
    size_t n = symx_choice(symx_param("N", 9) + 1, "n"); string d = symStr(n, "d"), e = ASCIIbeticalB64::encode(d.data(), n, 0), e2 = ASCIIbeticalB64::encode(d, 0); CHECK(e.size() == (n * 8 + 5) / 6, "one digit per six bits, rounded up"); CHECK(eqStr(e, e2), "both forms agree");
    bool ok = true; for (size_t k = 0; k < e.size(); k++) ok &= e[k] == alpha[sextet(d, k)]; CHECK(ok, "digits, most significant bits first, padded with zero bits");
    string b = ASCIIbeticalB64::decode(e), b2 = ASCIIbeticalB64::decode(e.data(), e.size()); CHECK(eqStr(b, d), "decode undoes encode"); CHECK(eqStr(b, b2), "both forms agree"); traceStr(e); symx_reach("end");
}
ENTRY(b_digits) {
    size_t n = symx_choice(symx_param("N", 6) + 1, "n"), full = (n * 8 + 5) / 6, k = 1 + symx_choice(full + 4, "k"); string d = symStr(n, "d"), e = ASCIIbeticalB64::encode(d.data(), n, k); CHECK(e.size() == k, "requested number of digits"); bool ok = true; for (size_t i = 0; i < k; i++) ok &= e[i] == alpha[sextet(d, i)]; CHECK(ok, "the leading digits, zero digits beyond the data");
    string raw(k + 2, '#'); ASCIIbeticalB64::encode(d.data(), n, k, &raw[0]); ok = true; for (size_t i = 0; i < k && i < full; i++) ok &= raw[i] == e[i]; CHECK(ok, "in-place form writes the same digits"); CHECK((raw[k] == '#') & (raw[k + 1] == '#'), "and nothing beyond"); symx_reach("end");
}
ENTRY(b_any) {
    size_t n = symx_choice(symx_param("N", 8) + 1, "n"); string s = symStr(n, "s"), d = ASCIIbeticalB64::decode(s); CHECK(d.size() == n * 6 / 8, "decoded size"); unsigned v[32]; bool valid = true; for (size_t i = 0; i < n; i++) { unsigned char c = s[i]; bool dg = (c >= '0') & (c <= '9'), up = (c >= 'A') & (c <= 'Z'), lo = (c >= 'a') & (c <= 'z'), pl = c == '+', co = c == ','; valid &= dg | up | lo | pl | co; v[i] = co * 1 + dg * (c - '0' + 2) + up * (c - 'A' + 12) + lo * (c - 'a' + 38); }
    bool ok = true; for (size_t b = 0; b < d.size() * 8; b++) ok &= (((unsigned char)d[b / 8] >> (7 - b % 8)) & 1) == ((v[b / 6] >> (5 - b % 6)) & 1); CHECK(ok | !valid, "decoded bits are those of the digits"); symx_reach("end");
}
