// SQL escaping: neutralises every special byte and is lossless.
//@ src src/StringUtil.cpp
//@ define SYS_POSIX=1
//@ bound up to N fully symbolic bytes
//@ entry e_round quick="N=5" thorough="N=8" reach=end
#include "symx.h"
#include <Lintel/StringUtil.hpp>
using namespace std;
ENTRY(e_round) {
    size_t n = symx_choice(symx_param("N", 4) + 1, "n"); string d = symStr(n, "d"), e = mysqlEscape(d), back; traceStr(e);
    for (size_t i = 0; i < e.size(); i++) { char c = e[i]; CHECK((c != 0) & (c != '\n') & (c != '\r') & (c != 26) & (c != '\'' || (i && e[i - 1] == '\\')) & (c != '"' || (i && e[i - 1] == '\\')), "no special byte is left bare");
        if (c == '\\') { CHECK(i + 1 < e.size(), "an escape is complete"); c = e[++i]; switch (c) { case '0': c = 0; break; case 'b': c = 8; break; case 't': c = 9; break; case 'n': c = 10; break; case 'r': c = 13; break; case 'Z': c = 26; break; case '\\': case '\'': case '"': break; default: CHECK(false, "only documented escapes"); } back += c; }
        else { CHECK((c != 8) & (c != 9), "documented specials are escaped"); back += c; } }
    CHECK(eqStr(back, d), "the server reads back the original bytes"); string e2 = mysqlEscape(d.data(), n); CHECK(eqStr(e, e2), "both forms agree"); symx_reach("end");
}
