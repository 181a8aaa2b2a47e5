// String to double: the whole string or nothing.
//@ src src/StringUtil.cpp
//@ symsrc verif:rt/strtod_model.cpp
//@ define SYS_POSIX=1
//@ assume strtod consumes some prefix of the C string it is given and returns some double (contract model; the digits-to-double conversion itself is the C library's); natively the real strtod runs
//@ bound strings of up to N symbolic bytes out of digits, '.', blanks, letters and NUL
//@ entry d_whole quick="N=4" thorough="N=6" reach=end
#include "symx.h"
#include <Lintel/StringUtil.hpp>
using namespace std;
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
ENTRY(d_whole) {
    size_t n = symx_choice(symx_param("N", 4) + 1, "n"); string s = symStr(n, "s"); // [digits][.digits] followed by anything that cannot continue a number
    bool good = n > 0; size_t i = 0; for (size_t k = 0; k < n; k++) symx_assume(digit(s[k]) | (s[k] == '.') | (s[k] == ' ') | (s[k] == 'z') | (s[k] == 0));
    uint64_t v = 0, f = 1; size_t nd = 0; while (i < n && s[i] == ' ') i++; for (; i < n && digit(s[i]); i++) { v = v * 10 + (s[i] - '0'); nd++; } if (i < n && s[i] == '.') for (i++; i < n && digit(s[i]); i++) { nd++; f = 0; v = v * 10 + (s[i] - '0'); } good = nd > 0 && i == n;
    if (!good) symx_allow_abort(1); double r = stringToDouble(s); CHECK(good, "a string with anything but one number is refused"); if (f == 1) CHECK(r == (double)v, "integral values are exact"); symx_reach("end");
}
