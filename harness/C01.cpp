// Constant strings: interning, faithful contents, stable addresses, and an order consistent with equality.
//@ src src/ConstantString.cpp src/HashTable.cpp src/Stats.cpp src/Double.cpp
//@ define SYMX_FORMAT=1
//@ assume the byte hash is a pure function of the bytes (a coarse symbolic-friendly hash with many collisions stands in for the library's, which H06 covers); strings are below the documented size limit
//@ bound pools of up to 3 strings of up to N symbolic bytes plus fixed ones, pairs of strings of up to M symbolic bytes for the order, every remaining space of a pool buffer from 0 to 15 bytes
//@ entry c_intern quick="N=3" thorough="N=4" reach=end
//@ entry c_order quick="M=6" thorough="M=10" reach=end
//@ entry c_stdorder quick="M=6" thorough="M=10" reach=end
//@ entry c_buffers reach=end
#include "symx.h"
#include <Lintel/ConstantString.hpp>
using namespace std;
static int hmode;
namespace lintel { uint32_t bobJenkinsHash(const uint32_t prev, const void *b, const size_t n) { const unsigned char *p = (const unsigned char *)b; return hmode == 0 ? (uint32_t)n + prev : n ? (uint32_t)(p[n - 1] & 3) : 0u; } }
static bool strLess(const string &a, const string &b) { bool lt = false, gt = false; for (size_t i = 0; i < a.size() && i < b.size(); i++) { unsigned char x = a[i], y = b[i]; gt |= !lt & (x > y); lt |= !gt & (x < y); } return lt | (!gt & (a.size() < b.size())); }
static void same(const ConstantString &c, const string &s) {
    CHECK(c.size() == s.size() && c.length() == s.size() && c.empty() == s.empty(), "size"); CHECK(eqBytes(c.data(), s.data(), s.size()), "contents"); CHECK(c.c_str()[s.size()] == 0, "zero terminated"); CHECK(c.str().size() == s.size() && eqStr(c.str(), s), "converts back");
}
ENTRY(c_intern) {
    hmode = symx_choice(2, "hash"); size_t N = symx_param("N", 2); vector<string> w; vector<ConstantString> v; const ConstantString f("ab"), e; vector<const char *> at;
    for (unsigned i = 0; i < 3; i++) { string s = symStr(symx_choice(N + 1, "n"), "s"); w.push_back(s); switch (i) { case 0: v.push_back(ConstantString(s)); break; case 1: v.push_back(ConstantString((const void *)s.data(), s.size())); break; default: { ConstantString c; CHECK(c.empty(), "a default constructed string is empty"); c = ConstantString(s); v.push_back(c); } } at.push_back(v.back().c_str()); }
    for (unsigned i = 0; i < 3; i++) { same(v[i], w[i]); CHECK(v[i].c_str() == at[i], "addresses are stable"); for (size_t k = 0; k < w[i].size(); k++) CHECK(v[i][k] == w[i][k], "indexing");
        for (unsigned j = 0; j < 3; j++) { bool eq = eqStr(w[i], w[j]); CHECK((v[i] == v[j]) == eq, "equal iff same contents"); CHECK((v[i] != v[j]) == !eq, "unequal iff different contents"); CHECK((v[i].c_str() == v[j].c_str()) == eq, "one representative for each contents"); if (eq) CHECK(v[i].hash() == v[j].hash(), "equal strings hash alike"); }
        CHECK((v[i] == f) == eqStr(w[i], "ab"), "against an earlier string"); CHECK((v[i] == e) == w[i].empty(), "against the empty string"); }
    same(f, "ab"); same(e, ""); symx_trace(v[0] == v[1]); symx_trace(v[1] == v[2]); symx_reach("end");
}
ENTRY(c_order) {
    hmode = 1; size_t M = symx_param("M", 3); string a = symStr(symx_choice(M + 1, "n"), "a"), b = symStr(symx_choice(M + 1, "m"), "b"); ConstantString x(a), y(b); bool lt = strLess(a, b), gt = strLess(b, a); symx_trace(lt);
    CHECK((x < y) == lt, "less"); CHECK((x > y) == gt, "greater"); CHECK((x <= y) == !gt, "less or equal"); CHECK((x >= y) == !lt, "greater or equal"); CHECK((x == y) == (!lt & !gt), "exactly one of less, equal, greater"); symx_reach("end");
}
ENTRY(c_stdorder) {
    hmode = 1; size_t M = symx_param("M", 3); string a = symStr(symx_choice(M + 1, "n"), "a"), b = symStr(symx_choice(M + 1, "m"), "b"); ConstantString x(a); bool lt = strLess(a, b), gt = strLess(b, a);
    CHECK((x.compare(b) < 0) == lt, "compare with a std::string: less"); CHECK((x.compare(b) > 0) == gt, "compare with a std::string: greater"); CHECK((x != b) == (lt | gt), "unequal to a std::string");
    bool z = false; for (size_t i = 0; i < b.size(); i++) z |= b[i] == 0; if (!z) CHECK((x != b.c_str()) == (lt | gt), "unequal to a C string"); symx_reach("end");
}
// leave r bytes in the current pool buffer, then intern strings of k and 1 symbolic bytes
ENTRY(c_buffers) {
    hmode = 0; string big(8100, 'q'); vector<ConstantString> v; for (unsigned i = 0; i < 64; i++) { big[0] = '0' + i; v.push_back(ConstantString(big)); } // 8108 bytes each, 518912 in all
    unsigned r = 4 * symx_choice(5, "r"), rest = 512 * 1024 - 64 * 8108 - r; ConstantString fill(string(rest - 8, 'f')); size_t k = symx_choice(12, "k"); string s = symStr(k, "s"), t = symStr(1, "t"); ConstantString x(s), y(t), z(s);
    same(x, s); same(y, t); CHECK(x == z, "one representative for each contents"); CHECK(fill.size() == rest - 8 && fill.c_str()[0] == 'f' && fill.c_str()[rest - 9] == 'f' && fill.c_str()[rest - 8] == 0, "earlier strings untouched"); CHECK(v[63].c_str()[0] == '0' + 63 && v[63].size() == 8100, "first of the big strings untouched"); ConstantString again(big); CHECK(again == v[63], "still found"); symx_reach("end");
}
