// Prefix and suffix tests; IPv4 addresses in text and numeric form.
//@ src src/StringUtil.cpp
//@ define SYS_POSIX=1 SYMX_FORMAT=1
//@ assume inet_addr/inet_aton as documented for four-part addresses (model in rt/rt.cpp); boost::format's %d prints a decimal integer (model in rt/stubs)
//@ bound strings of up to N fully symbolic bytes; all 2^32 addresses (by length of each octet), text forms of four octets in decimal, octal or hex with one symbolic octet, and one corrupted character
//@ entry p_affix quick="N=4" thorough="N=6" reach=end
//@ entry p_ip reach=end
//@ entry p_forms reach=end
//@ entry p_bad
#include "symx.h"
#include <Lintel/StringUtil.hpp>
using namespace std;
ENTRY(p_affix) {
    size_t N = symx_param("N", 4), n = symx_choice(N + 1, "n"), m = symx_choice(N + 1, "m"); string s = symStr(n, "s"), p = symStr(m, "p");
    CHECK(prefixequal(s, p) == (m <= n && eqBytes(s.data(), p.data(), m)), "prefix test"); CHECK(suffixequal(s, p) == (m <= n && eqBytes(s.data() + (n - m), p.data(), m)), "suffix test"); symx_reach("end");
}
static string dec(unsigned v) { string r; if (v >= 100) r += '0' + v / 100; if (v >= 10) r += '0' + v / 10 % 10; r += '0' + v % 10; return r; }
ENTRY(p_ip) {
    uint32_t v = sym<uint32_t>("ip"); string w; for (int k = 24; k >= 0; k -= 8) { if (w.size()) w += '.'; w += dec(v >> k & 255); }
    string s = ipv4tostring(v); CHECK(eqStr(s, w), "dotted decimal, first octet first"); CHECK(stringtoipv4(s) == v, "reads back as the same address"); symx_reach("end");
}
ENTRY(p_forms) {
    uint8_t o = sym<uint8_t>("octet"); unsigned pos = symx_choice(4, "pos"), form = symx_choice(3, "form"); uint32_t v = 0; string s;
    for (unsigned k = 0; k < 4; k++) { unsigned x = k == pos ? o : 10 + k; v = v << 8 | x; if (k) s += '.'; if (k != pos || form == 0) s += dec(x); else if (form == 1) { s += '0'; s += '0' + (x >> 6); s += '0' + (x >> 3 & 7); s += '0' + (x & 7); } else { s += "0x"; s += "0123456789abcdef"[x >> 4]; s += "0123456789abcdef"[x & 15]; } }
    CHECK(stringtoipv4(s) == v, "octal and hexadecimal octets"); symx_reach("end");
}
ENTRY(p_bad) { string s("10.20.30.40"); size_t i = symx_choice(11, "i"); char c = sym<char>("c"); bool digit = (c >= '0') & (c <= '9'); symx_assume(!digit & (c != '.') & (c != 0) & !((c == 'x') | (c == 'X'))); if (i == 10 || i == 9) symx_assume((c != ' ') & !((c >= 9) & (c <= 13))); s[i] = c; symx_allow_abort(1); stringtoipv4(s); symx_reach("end"); CHECK(false, "a malformed address is refused"); }
