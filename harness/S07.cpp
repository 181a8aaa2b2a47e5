// Decimal string to integer conversion: exact or refused.
//@ define BOOST_LEXICAL_CAST_ASSUME_C_LOCALE=1
//@ assume the C locale; base 10 (the octal and hexadecimal paths go through iostreams, which are not encoded)
//@ bound fully symbolic strings of up to N bytes for 16- and 32-bit types, and signed digit strings around the limits of 16-, 32- and 64-bit types (one digit more or fewer) with every window of W symbolic digits
//@ entry i_short quick="N=4" thorough="N=6" reach=end
//@ entry i_limit32 quick="W=3" thorough="W=5" reach=end
//@ entry i_limit64 quick="W=2" thorough="W=4" reach=end
//@ entry i_byte reach=end
#include "symx.h"
#include <limits>
#include <Lintel/StringUtil.hpp>
using namespace std;
// is s an optional sign followed by digits, and is its magnitude at most lim (compared digit by digit)?
static bool magLeq(const string &s, size_t i, uint64_t lim) {
    char l[24]; size_t k = 24; do { l[--k] = '0' + lim % 10; lim /= 10; } while (lim); size_t n = s.size() - i, ln = 24 - k; bool ok = true; while (n > ln) { ok &= s[i] == '0'; i++; n--; }
    if (n < ln) return ok; bool lt = false, gt = false; for (size_t j = 0; j < n; j++) { gt |= !lt & (s[i + j] > l[k + j]); lt |= !gt & (s[i + j] < l[k + j]); } return ok & !gt;
}
template <class T> static void run(const string &s) {
    size_t i = 0; bool neg = false; if (s.size() && (s[0] == '-' || s[0] == '+')) { neg = s[0] == '-'; i = 1; } bool fits = i < s.size(); uint64_t v = 0; for (size_t k = i; k < s.size(); k++) { fits &= (s[k] >= '0') & (s[k] <= '9'); v = v * 10 + (uint64_t)(s[k] - '0'); }
    if (neg) { v = 0 - v; fits &= magLeq(s, i, numeric_limits<T>::is_signed ? (uint64_t)numeric_limits<T>::max() + 1 : 0); } else fits &= magLeq(s, i, (uint64_t)numeric_limits<T>::max());
    if (!fits) symx_allow_abort(1); T r = stringToInteger<T>(s); CHECK(fits, "a string that is no integer of the type's range is refused"); CHECK((uint64_t)r == v, "the exact value"); symx_trace((uint64_t)r); symx_reach("end");
}
ENTRY(i_short) { string s = symStr(symx_choice(symx_param("N", 4) + 1, "n"), "s"); switch (symx_choice(4, "type")) { case 0: run<int32_t>(s); break; case 1: run<uint32_t>(s); break; case 2: run<int16_t>(s); break; case 3: run<int64_t>(s); break; } }
// the decimal digits of a limit (optionally with one more or one fewer digit) with a window of W symbolic digits
static string digits(const char *lim) { static const char *sg[] = {"", "-", "+"}; string s(sg[symx_choice(3, "sign")]), d(lim); switch (symx_choice(3, "length")) { case 1: d = "0" + d; break; case 2: d += "0"; break; }
    size_t W = symx_param("W", 3), p = symx_choice(d.size() - W + 1, "window"); for (size_t i = 0; i < W; i++) { uint8_t c = symx_val(4, "digit"); symx_assume(c < 10); d[p + i] = '0' + c; } return s + d; }
ENTRY(i_limit32) { switch (symx_choice(4, "type")) { case 0: run<int32_t>(digits("2147483647")); break; case 1: run<int32_t>(digits("2147483648")); break; case 2: run<uint32_t>(digits("4294967295")); break; case 3: if (symx_choice(2, "w")) run<int16_t>(digits("32767")); else run<uint16_t>(digits("65535")); break; } }
ENTRY(i_limit64) { switch (symx_choice(3, "type")) { case 0: run<int64_t>(digits("9223372036854775807")); break; case 1: run<int64_t>(digits("9223372036854775808")); break; case 2: run<uint64_t>(digits("18446744073709551615")); break; } }
ENTRY(i_byte) { string s = symStr(symx_choice(4, "n"), "s"); if (symx_choice(2, "type")) run<int8_t>(s); else run<uint8_t>(s); }
