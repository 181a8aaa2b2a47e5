// Boyer-Moore-Horspool search: the leftmost occurrence, for every needle and haystack.
//@ src src/BoyerMooreHorspool.cpp
//@ bound needles of 1..M and haystacks of 0..H fully symbolic bytes in exactly sized buffers
//@ entry f_find quick="M=4 H=6" thorough="M=5 H=8" reach=end
//@ entry f_two quick="M=4 H=9" thorough="M=5 H=11" reach=end
//@ entry f_empty
#include "symx.h"
#include <Lintel/BoyerMooreHorspool.hpp>
using namespace std; using lintel::BoyerMooreHorspool;
static void run(const string &p, const string &s) {
    size_t m = p.size(), h = s.size(), want = (size_t)-1; for (size_t i = h - m + 1; h >= m && i-- > 0;) want = eqBytes(s.data() + i, p.data(), m) ? i : want;
    char *hay = new char[h], *nd = new char[m]; for (size_t i = 0; i < h; i++) hay[i] = s[i]; for (size_t i = 0; i < m; i++) nd[i] = p[i]; BoyerMooreHorspool a(nd, m); for (size_t i = 0; i < m; i++) nd[i] = 0; delete[] nd; // the needle is copied
    size_t r = a.find(hay, h); CHECK(r == want, "offset of the leftmost occurrence, or none"); CHECK(a.matches(hay, h) == (want != (size_t)-1), "matches iff there is an occurrence"); symx_trace(r); delete[] hay;
    if (symx_param("TWO", 1)) { BoyerMooreHorspool b(p); CHECK(b.find(s.data(), h) == want, "string form"); } symx_reach("end");
}
ENTRY(f_find) { string p = symStr(1 + symx_choice(symx_param("M", 3), "m"), "p"), s = symStr(symx_choice(symx_param("H", 5) + 1, "h"), "s"); run(p, s); }
// two letter alphabet (one of them >= 0x80), longer strings
ENTRY(f_two) { size_t m = 1 + symx_choice(symx_param("M", 4), "m"), h = symx_param("H", 8) - symx_choice(2, "h"); string p(m, 0), s(h, 0); for (size_t i = 0; i < m; i++) p[i] = symx_concretize(symx_val(1, "c")) ? '\xE0' : 'a'; for (size_t i = 0; i < h; i++) s[i] = symx_val(1, "c") ? '\xE0' : 'a'; run(p, s); }
ENTRY(f_empty) { symx_allow_abort(1); string e; BoyerMooreHorspool a(e); CHECK(false, "an empty needle is refused"); }
