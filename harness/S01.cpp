// split and join are inverse and split at exactly the separators.
//@ src src/StringUtil.cpp
//@ define SYS_POSIX=1
//@ bound strings of up to N fully symbolic bytes, separators of 1..3 (thorough 4) symbolic bytes, joins of up to 3 parts of up to 2 bytes
//@ assume strings shorter than 2 GB
//@ entry s_split quick="N=9" thorough="N=12" reach=end
//@ entry s_join reach=end
//@ entry s_inverse reach=end
//@ entry s_empty reach=end
#include "symx.h"
#include <Lintel/StringUtil.hpp>
using namespace std;
static bool at(const string &s, size_t i, const string &p) { if (i + p.size() > s.size()) return false; return eqBytes(s.data() + i, p.data(), p.size()); }
ENTRY(s_split) {
    size_t n = symx_choice(symx_param("N", 6) + 1, "n"), k = 1 + symx_choice(3, "k"); string s = symStr(n, "s"), p = symStr(k, "sep"); vector<string> v; v.push_back("before"); split(s, p, v);
    CHECK(v.size() >= 2 && v[0] == "before", "earlier contents of the result vector are kept");
    size_t pos = 0; for (size_t i = 1; i < v.size(); i++) { // parts follow each other, separated by exactly the separator, and a part contains no separator
        CHECK(pos + v[i].size() <= n && eqBytes(v[i].data(), s.data() + pos, v[i].size()), "parts are consecutive pieces of the input"); bool inside = false; for (size_t j = pos; j < pos + v[i].size(); j++) inside |= at(s, j, p);
        CHECK(!inside, "every occurrence of the separator, leftmost first, ends a part"); pos += v[i].size(); if (i + 1 < v.size()) { CHECK(at(s, pos, p), "parts are separated by the separator"); pos += k; } }
    CHECK(pos == n, "nothing is dropped"); v.erase(v.begin()); string j = join(p, v); CHECK(eqStr(j, s), "join undoes split"); vector<string> w = split(s, p); CHECK(w.size() == v.size(), "both forms agree"); symx_trace(v.size()); symx_reach("end");
}
ENTRY(s_join) {
    size_t m = symx_choice(4, "m"); string p = symStr(symx_choice(3, "k"), "sep"), want; vector<string> v; for (size_t i = 0; i < m; i++) { v.push_back(symStr(symx_choice(3, "n"), "part")); if (i) want += p; want += v.back(); }
    CHECK(eqStr(join(p, v), want), "join puts the separator between consecutive parts only"); symx_reach("end");
}
// splitting a join gives the parts back when none contains the (one byte) separator
ENTRY(s_inverse) {
    size_t m = 1 + symx_choice(3, "m"); string p = symStr(1, "sep"); vector<string> v, w; for (size_t i = 0; i < m; i++) { v.push_back(symStr(symx_choice(3, "n"), "part")); for (size_t k = 0; k < v[i].size(); k++) symx_assume(v[i][k] != p[0]); }
    split(join(p, v), p, w); CHECK(w.size() == m, "split undoes join: number of parts"); for (size_t i = 0; i < m; i++) CHECK(eqStr(v[i], w[i]), "split undoes join: parts"); symx_reach("end");
}
ENTRY(s_empty) { string s = symStr(symx_choice(2, "n"), "s"); vector<string> v; if (symx_choice(2, "empty")) { symx_allow_abort(1); split(s, "", v); CHECK(false, "an empty separator is refused"); } else { split(s, "::", v); CHECK(v.size() == 1 && eqStr(v[0], s), "a string without separator is one part"); } symx_reach("end"); }
