// Wrapping of help texts: every line fits the width, and only breaks are added or put in place of spaces.
//@ src src/StringUtil.cpp
//@ define SYMX_FORMAT=1 SYS_POSIX=1 BOOST_LEXICAL_CAST_ASSUME_C_LOCALE=1
//@ nativesrc src/AssertBoost.cpp
//@ nativeflags -lboost_program_options
//@ symsrc verif:rt/iostream_model.cpp
//@ assume bytes are letters, spaces or line breaks, the only ones told apart
//@ bound texts of every length up to N (quick 32, thorough 42), every arrangement of spaces and other bytes with up to 2 line breaks anywhere, at widths of 10 and 11 (thorough 12) and settings below the smallest
//@ entry o_wrap quick="N=32,B=2,W=3" thorough="N=42,B=2,W=5" reach=end
//@ entry o_width reach=end
#include "symx.h"
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <iostream>
#include <fstream>
#include <vector>
#include <boost/program_options.hpp>
#include <boost/program_options/errors.hpp>
static const char *g_cols; static char *sx_getenv(const char *n) { CHECK(strcmp(n, "COLUMNS") == 0, "the width of the terminal"); return (char *)g_cols; }
#include <Lintel/ProgramOptions.hpp>
#include <Lintel/StringUtil.hpp>
#define getenv sx_getenv
#include "../src/ProgramOptions.cpp"
#undef getenv
using std::string;
ENTRY(o_wrap) {
    static const char *const cols[] = {"10", "11", "0", "12", "9"}; unsigned c = symx_choice((unsigned)symx_param("W", 3), "width"), w = c == 1 ? 11 : c == 3 ? 12 : 10, n = symx_choice(symx_param("N", 26) + 1, "length"); g_cols = cols[c]; string in(n, 'x'); for (unsigned i = 0; i < n; i++) in[i] = symx_val(1, "space") ? ' ' : 'a';
    unsigned at = 0; for (long k = symx_param("B", 1); k > 0 && at < n; k--) { unsigned p = symx_choice(n - at + 1, "break"); if (at + p == n) break; in[at + p] = '\n'; at += p + 1; }
    string out = lintel::detail::basicWordWrap(in); symx_reach("end");
    // line lengths, and (by the number of breaks put in so far) whether the text up to here is accounted for
    unsigned line = 0, d = out.size() - n; bool fits = true; CHECK(out.size() >= n && d <= n / 5 + 1, "few breaks are put in"); std::vector<char> ok(d + 2, 0); ok[0] = 1;
    for (unsigned o = 0; o < out.size(); o++) { char x = out[o]; bool nl = x == '\n'; line = nl ? 0 : line + 1; fits = fits & (line <= w); for (int j = (int)(o + 1 < d ? o + 1 : d); j >= 0; j--) { bool r = false; if (j > 0) r = ok[j - 1] & nl; int i = (int)o - j; if (i >= 0 && i < (int)n) { char y = in[i]; r = r | (ok[j] & ((x == y) | (nl & (y == ' ')))); } ok[j] = r; } }
    CHECK(fits, "every line fits"); CHECK(ok[d], "the text with spaces turned into breaks or breaks put in"); symx_trace(out.size());
}
ENTRY(o_width) { unsigned d = 1 + symx_choice(4, "digits"); char b[8] = {0}; uint32_t v = 0; bool set = symx_choice(2, "set"); for (unsigned i = 0; i < d; i++) { uint32_t x = (uint32_t)symx_val(4, "digit"); symx_assume(x <= 9); b[i] = (char)('0' + x); v = v * 10 + x; } g_cols = set ? b : 0; CHECK(lintel::detail::getHelpWidth() == (set ? v : 80u), "the terminal's width, 80 where unknown"); symx_reach("end"); }
