// ByteBuffer: behaves as a byte queue over a contiguous buffer; no byte lost, changed or invented.
//@ assume debug logging is compiled out with the library's own DISABLE_DEBUG_LINTELLOG switch
//@ define DISABLE_DEBUG_LINTELLOG=1
//@ assume arguments respect the documented preconditions; the buffer is not shared
//@ bound histories of OPS operations on one unshared buffer, appended pieces of 0..3 symbolic bytes, symbolic consume/extend/unextend amounts and resize targets up to 3 beyond the contents
//@ entry b_hist quick="OPS=5" thorough="OPS=6" reach=end
//@ entry b_init reach=end
//@ entry b_self reach=end
//@ entry b_limits reach=end
//@ entry b_eq reach=end
#include "symx.h"
#include <string.h>
#include <Lintel/ByteBuffer.hpp>
using lintel::ByteBuffer;
static size_t upto(size_t n, const char *name) { size_t v = sym<uint8_t>(name); symx_assume(v <= n); return symx_concretize(v); }
static void verify(const ByteBuffer &b, const uint8_t *m, size_t n) {
    CHECK(b.readAvailable() == n, "readable size"); CHECK(b.empty() == (n == 0), "empty"); CHECK(b.readAvailable() + b.writeAvailable() <= b.bufferSize(), "regions fit in the buffer");
    if (n) CHECK(eqBytes((const char *)b.readStart(), (const char *)m, n), "readable bytes"); for (size_t i = 0; i < n; i++) symx_trace(b.readStart()[i]);
}
ENTRY(b_hist) {
    ByteBuffer b; uint8_t m[64]; size_t lo = 0, hi = 0; unsigned ops = symx_param("OPS", 4), cnt = 0;
    for (unsigned i = 0; i < ops; i++) switch (symx_choice(10, "op")) {
    case 0: { size_t n = symx_choice(4, "n"); uint8_t t[4]; for (size_t k = 0; k < n; k++) m[hi++] = t[k] = sym<uint8_t>("byte"); b.append(t, n); break; }
    case 1: { size_t n = upto(hi - lo, "consume"); b.consume(n); lo += n; break; }
    case 2: { size_t n = upto(b.writeAvailable(), "write"); uint8_t *w = b.writeStart(n); for (size_t k = 0; k < n; k++) w[k] = m[hi++] = 100 + cnt++; break; }
    case 3: { size_t n = upto(b.writeAvailable(), "extend"); uint8_t *w = b.writeStart(0); for (size_t k = 0; k < n; k++) w[k] = m[hi++] = 50 + cnt++; b.extend(n); break; }
    case 4: { size_t n = upto(hi - lo, "unextend"); b.unextend(n); hi -= n; break; }
    case 5: { size_t s = hi - lo + symx_choice(4, "more"); b.resizeBuffer(s); CHECK(b.bufferSize() == s, "resized to the requested size"); CHECK(b.writeAvailable() == s - (hi - lo), "after a resize everything but the contents is writable"); break; }
    case 6: { size_t before = b.bufferSize(); b.shift(); CHECK((b.bufferSize() == before) & (b.writeAvailable() == before - (hi - lo)), "shift makes all free space writable"); break; }
    case 7: if (symx_choice(2, "purge")) { b.purge(); CHECK(b.bufferSize() == 0, "purge frees the space"); } else { size_t before = b.bufferSize(); b.reset(); CHECK((b.bufferSize() == before) & (b.writeAvailable() == before), "reset keeps the space"); } lo = hi; break;
    case 8: { if (hi == lo) symx_end(); size_t off = upto(hi - lo - 1, "offset"), n = upto(hi - lo - off, "length"); uint8_t t[64]; for (size_t k = 0; k < n; k++) m[lo + off + k] = t[k] = 200 + cnt++; b.replace(off, t, n); break; }
    case 9: { std::string s(symx_choice(3, "n"), 's'); for (size_t k = 0; k < s.size(); k++) s[k] = sym<char>("c"); b.assign(s); lo = hi; for (size_t k = 0; k < s.size(); k++) m[hi++] = s[k]; break; }
    }
    verify(b, m + lo, hi - lo); CHECK(b.asString().size() == hi - lo, "asString length"); if (hi > lo) CHECK(eqBytes(b.asString().data(), (char *)m + lo, hi - lo), "asString"); symx_reach("end");
}
ENTRY(b_init) {
    size_t n = symx_choice(4, "n"); std::string s = symStr(n, "s"); ByteBuffer a(s); verify(a, (const uint8_t *)s.data(), n);
    ByteBuffer c(s.data(), (ssize_t)n); verify(c, (const uint8_t *)s.data(), n); size_t z = 0; while (z < n && s[z]) z++; ByteBuffer d(s.c_str()); verify(d, (const uint8_t *)s.data(), z);
    ByteBuffer e; e.append(a); e.append(d); CHECK(e.readAvailable() == n + z, "appending buffers"); ByteBuffer f; f.append("xx", 2); f.assign(a); verify(f, (const uint8_t *)s.data(), n); f.assign(s.data(), n); verify(f, (const uint8_t *)s.data(), n);
    if (n) { f.writeableReadStart()[0] = 'Z'; CHECK(f.readStart()[0] == 'Z', "the read region is writable in place"); f.resizeBuffer(16); uint32_t *p = f.writeStartAs<uint32_t>(1); uint32_t v = sym<uint32_t>("v"); memcpy(p, &v, 4); f.consume(n); CHECK(memcmp(f.readStartAs<uint32_t>(), &v, 4) == 0, "typed access"); f.extendAs<uint16_t>(2); CHECK(f.readAvailable() == 8, "typed extend"); } symx_reach("end");
}
// appending / assigning a buffer to itself
ENTRY(b_self) {
    size_t n = 1 + symx_choice(3, "n"), sp = symx_choice(2, "room") * 8; std::string s = symStr(n, "s"), w; ByteBuffer b(s); if (sp) b.resizeBuffer(n + sp); size_t c = symx_choice(2, "c"); b.consume(c); w = s.substr(c) + s.substr(c);
    b.append(b); CHECK((b.readAvailable() == w.size()) && eqBytes((const char *)b.readStart(), w.data(), w.size()), "a buffer appended to itself holds its contents twice"); symx_reach("end");
}
// amounts beyond what is available are refused instead of corrupting the buffer
ENTRY(b_limits) {
    ByteBuffer b("abcd", 4); b.resizeBuffer(6); size_t amt = sym<size_t>("amt"), off = sym<size_t>("off"); symx_assume((amt < (1ull << 62)) & (off < (1ull << 62)));
    switch (symx_choice(4, "op")) {
    case 0: if (amt > 2) symx_allow_abort(1); b.extend(amt); CHECK((amt <= 2) & (b.readAvailable() == 4 + amt), "extend"); break;
    case 1: if (amt > 4) symx_allow_abort(1); b.unextend(amt); CHECK((amt <= 4) & (b.readAvailable() == 4 - amt), "unextend"); break;
    case 2: if (amt > 2) symx_allow_abort(1); b.writeStart(amt); CHECK((amt <= 2) & (b.readAvailable() == 4 + amt), "writeStart"); break;
    case 3: { uint8_t t[4] = {9, 9, 9, 9}; if (off + amt > 4) symx_allow_abort(1); b.replace(off, t, amt); CHECK((off + amt <= 4) & (b.readAvailable() == 4), "replace"); break; }
    } symx_reach("end");
}
ENTRY(b_eq) {
    std::string s = symStr(symx_choice(4, "n"), "s"), t = symStr(symx_choice(4, "m"), "t"); ByteBuffer a(s), b("xx", 2); unsigned drop = symx_choice(2, "d"); if (drop) b.consume(2); else b.reset(); b.append(t);
    CHECK((a == b) == eqStr(s, t), "equality is equality of the readable bytes"); CHECK((a != b) == !eqStr(s, t), "inequality"); ByteBuffer c(a); CHECK(c == a, "a copy is equal"); symx_reach("end");
}
