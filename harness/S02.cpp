// Hexadecimal conversion: lossless, total on valid input, refused on anything else.
//@ src src/StringUtil.cpp
//@ define SYS_POSIX=1
//@ assume the C locale
//@ bound up to N symbolic bytes of data, hex strings of up to 4 symbolic bytes
//@ entry x_round quick="N=7" thorough="N=9" reach=end
//@ entry x_decode reach=end
//@ entry x_maybe reach=end
#include "symx.h"
#include <Lintel/StringUtil.hpp>
using namespace std;
static int val(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
ENTRY(x_round) {
    size_t n = symx_choice(symx_param("N", 6) + 1, "n"); string d = symStr(n, "d"), h = hexstring(d), h2 = hexstring(d.data(), n); CHECK(h.size() == 2 * n, "two digits per byte"); CHECK(eqStr(h, h2), "both forms agree");
    bool ok = true; for (size_t i = 0; i < n; i++) { unsigned char c = d[i]; ok &= (h[2 * i] == "0123456789abcdef"[c >> 4]) & (h[2 * i + 1] == "0123456789abcdef"[c & 15]); } CHECK(ok, "digits, high nibble first, lower case");
    CHECK(ishexstring(h), "the result is a hex string"); CHECK(eqStr(hex2raw(h), d), "hex2raw undoes hexstring"); CHECK(eqStr(maybehex2raw(h), d), "maybehex2raw undoes hexstring"); traceStr(h); symx_reach("end");
}
ENTRY(x_decode) {
    size_t n = symx_choice(5, "n"); string s = symStr(n, "s"); bool hex = n % 2 == 0; for (size_t i = 0; i < n; i++) hex = hex & (val(s[i]) >= 0);
    if (symx_choice(2, "op")) { CHECK(ishexstring(s) == hex, "a hex string is an even number of hex digits"); string r = maybehex2raw(s); if (!hex) CHECK(eqStr(r, s), "anything else is left alone"); else { CHECK(r.size() == n / 2, "decoded size"); bool ok = true; for (size_t i = 0; i < n / 2; i++) ok &= (unsigned char)r[i] == val(s[2 * i]) * 16 + val(s[2 * i + 1]); CHECK(ok, "decoded bytes"); } }
    else { if (!hex) symx_allow_abort(1); string r = hex2raw(s); CHECK(hex, "bad hex is refused"); CHECK(r.size() == n / 2, "decoded size"); if (n >= 2) { CHECK((unsigned char)r[0] == val(s[0]) * 16 + val(s[1]), "first byte"); CHECK(unpackhex(s.data()) == (unsigned char)r[0], "unpackhex"); } string r2 = hex2raw(s.data(), n); CHECK(eqStr(r, r2), "both forms agree"); }
    symx_reach("end");
}
ENTRY(x_maybe) {
    size_t n = symx_choice(4, "n"); string s = symStr(n, "s"); bool pr = true; for (size_t i = 0; i < n; i++) pr = pr & ((unsigned char)s[i] >= 32) & ((unsigned char)s[i] < 127);
    string a = maybehexstring(s), b = maybehexstring(s.data(), n); if (pr) CHECK(eqStr(a, s) & eqStr(b, s), "printable data is left alone"); else CHECK(eqStr(a, hexstring(s)) & eqStr(b, a), "unprintable data is converted"); symx_reach("end");
}
