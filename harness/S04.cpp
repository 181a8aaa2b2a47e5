// Escaping of unprintable bytes: output printable and lossless.
//@ src src/StringUtil.cpp
//@ define SYS_POSIX=1
//@ assume the C locale
//@ bound up to N fully symbolic bytes, and the 12/13 byte size threshold with symbolic first and last bytes
//@ entry u_round quick="N=6" thorough="N=8" reach=end
//@ entry u_lengthy reach=end
#include "symx.h"
#include <Lintel/StringUtil.hpp>
using namespace std;
static int val(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static void run(const string &d) {
    string e = escapeUnprintable(d), back; traceStr(e);
    for (size_t i = 0; i < e.size(); i++) { unsigned char c = e[i]; CHECK((c >= 32) & (c < 127), "the result is printable"); if (c != '%') { back += c; continue; }
        CHECK(i + 1 < e.size(), "escape complete"); if (e[i + 1] == '%') { back += '%'; i++; continue; } CHECK(i + 2 < e.size() && val(e[i + 1]) >= 0 && val(e[i + 2]) >= 0, "escape is two hex digits"); c = val(e[i + 1]) * 16 + val(e[i + 2]); CHECK((c < 32) | (c >= 127), "printable bytes are left alone"); back += c; i += 2; }
    CHECK(eqStr(back, d), "the original can be read back"); symx_reach("end");
}
ENTRY(u_round) { run(symStr(symx_choice(symx_param("N", 5) + 1, "n"), "d")); }
ENTRY(u_lengthy) { size_t n = 11 + symx_choice(4, "n"); string d(n, '\1'); d[0] = sym<char>("a"); d[n - 1] = sym<char>("b"); run(d); }
