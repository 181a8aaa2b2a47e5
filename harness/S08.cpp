// Case conversion and blank tests are bytewise and exact in the C locale.
//@ src src/StringUtil.cpp
//@ define SYS_POSIX=1
//@ assume the C locale
//@ bound strings of up to N fully symbolic bytes
//@ entry k_case quick="N=6" thorough="N=10" reach=end
//@ entry k_blank quick="N=6" thorough="N=10" reach=end
#include "symx.h"
#include <Lintel/StringUtil.hpp>
using namespace std;
ENTRY(k_case) {
    size_t n = symx_choice(symx_param("N", 6) + 1, "n"); string s = symStr(n, "s"), u = upcaseString(s), d = downcaseString(s); CHECK((u.size() == n) & (d.size() == n), "length kept"); bool ok = true;
    for (size_t i = 0; i < n; i++) { char c = s[i]; bool lo = (c >= 'a') & (c <= 'z'), up = (c >= 'A') & (c <= 'Z'); ok &= (u[i] == (char)(lo ? c - 32 : c)) & (d[i] == (char)(up ? c + 32 : c)); } CHECK(ok, "exactly the ASCII letters change case"); CHECK(eqStr(upcaseString(d), u) & eqStr(downcaseString(u), d), "idempotent up to case"); traceStr(u); symx_reach("end");
}
ENTRY(k_blank) {
    size_t n = symx_choice(symx_param("N", 6) + 1, "n"); string s = symStr(n, "s"); bool b = true, w = true; for (size_t i = 0; i < n; i++) { b &= (s[i] == ' ') | (s[i] == '\t'); w &= (s[i] == ' ') | ((s[i] >= 9) & (s[i] <= 13)); }
    CHECK(stringIsBlank(s) == b, "blank: only spaces and tabs"); CHECK(stringIsSpace(s) == w, "space: only white space"); symx_reach("end");
}
