// CSV conversion: a row of converted fields reads back as the fields.
//@ src src/StringUtil.cpp
//@ define SYS_POSIX=1
//@ assume the reader follows RFC 4180: a field starting with a double quote ends at the matching undoubled quote, any other ends at the next comma or line break
//@ bound rows of up to 2 fields of up to N fully symbolic bytes
//@ entry c_row quick="N=8" thorough="N=12" reach=end
//@ entry c_two reach=end
#include "symx.h"
#include <Lintel/StringUtil.hpp>
using namespace std;
static vector<string> parse(const string &r) {
    vector<string> v; size_t i = 0;
    while (1) { string f;
        if (i < r.size() && r[i] == '"') { i++; while (1) { if (i >= r.size()) { CHECK(false, "quoted field is closed"); break; } if (r[i] == '"') { if (i + 1 < r.size() && r[i + 1] == '"') { f += '"'; i += 2; continue; } i++; break; } f += r[i++]; } CHECK(i == r.size() || r[i] == ',', "nothing follows the closing quote"); }
        else while (i < r.size() && r[i] != ',') { CHECK((r[i] != '\n') & (r[i] != '\r'), "an unquoted field has no line break"); f += r[i++]; }
        v.push_back(f); if (i >= r.size()) return v; i++; }
}
ENTRY(c_row) { string d = symStr(symx_choice(symx_param("N", 4) + 1, "n"), "d"), c = toCSVform(d); traceStr(c); vector<string> v = parse(c); CHECK(v.size() == 1, "one field stays one field"); CHECK(eqStr(v[0], d), "a field reads back unchanged"); symx_reach("end"); }
ENTRY(c_two) { string a = symStr(symx_choice(3, "n"), "a"), b = symStr(symx_choice(3, "n"), "b"); vector<string> v = parse(toCSVform(a) + "," + toCSVform(b)); CHECK(v.size() == 2, "two fields stay two fields"); CHECK(eqStr(v[0], a) & eqStr(v[1], b), "fields read back unchanged"); symx_reach("end"); }
