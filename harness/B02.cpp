// ByteBuffer copies: sharing is never observable.
//@ assume debug logging is compiled out with the library's own DISABLE_DEBUG_LINTELLOG switch
//@ define DISABLE_DEBUG_LINTELLOG=1
//@ assume preconditions are evaluated on the buffer before the mutating call, as a caller does
//@ bound two or three buffers sharing one representation of up to 3 symbolic bytes with up to 3 free bytes and up to 2 consumed bytes, then up to OPS mutations of either
//@ entry c_mut quick="OPS=3" thorough="OPS=4" reach=end
//@ entry c_refuse reach=end
//@ entry c_force reach=end
#include "symx.h"
#include <string.h>
#include <Lintel/ByteBuffer.hpp>
using lintel::ByteBuffer;
static bool holds(const ByteBuffer &b, const std::string &w) { return b.readAvailable() == w.size() && (w.empty() || eqBytes((const char *)b.readStart(), w.data(), w.size())); }
static unsigned cnt;
static void mutate(ByteBuffer &b, std::string &w) {
    switch (symx_choice(9, "op")) {
    case 0: { std::string s = symStr(symx_choice(3, "n"), "s"); b.append(s); w += s; break; }
    case 1: { if (w.empty()) symx_end(); b.consume(1); w.erase(0, 1); break; }
    case 2: { size_t n = b.writeAvailable(); if (n > 2) n = 2; uint8_t *p = b.writeStart(n); for (size_t i = 0; i < n; i++) { p[i] = 'A' + cnt; w += 'A' + cnt++; } break; }
    case 3: { size_t n = b.writeAvailable(); uint8_t *p = b.writeableReadStart(); size_t r = b.readAvailable(); for (size_t i = 0; i < r + n; i++) p[i] = '0' + i; b.extend(n); w.clear(); for (size_t i = 0; i < r + n; i++) w += '0' + i; break; }
    case 4: { if (w.empty()) symx_end(); uint8_t c = sym<uint8_t>("c"); b.replace(0, &c, 1); w[0] = c; break; }
    case 5: b.reset(); w.clear(); break;
    case 6: if (symx_choice(2, "purge")) b.purge(); else b.detach(); w.clear(); break;
    case 7: { b.resizeBuffer(w.size() + symx_choice(3, "more")); break; }
    case 8: { if (w.empty()) symx_end(); b.unextend(1); w.erase(w.size() - 1); b.shift(); break; }
    }
}
static ByteBuffer *mk(std::string &w, bool cow) { w = symStr(symx_choice(3, "n"), "w"); ByteBuffer *b = new ByteBuffer("zz", 2, cow); b->append(w); if (symx_choice(2, "free")) b->resizeBuffer(w.size() + 5); if (symx_choice(2, "shiftless")) { b->consume(2); } else { b->consume(2); b->shift(); } return b; }
ENTRY(c_mut) {
    std::string wa, wb, wc; ByteBuffer *pa = mk(wa, true); ByteBuffer a(*pa), c(true); c = a; delete pa; ByteBuffer b(a); wb = wc = wa; unsigned n = symx_param("OPS", 2);
    for (unsigned i = 0; i < n; i++) { if (symx_choice(2, "who")) mutate(a, wa); else mutate(b, wb);
        CHECK(holds(a, wa), "the mutated buffer changes as a private one would"); CHECK(holds(b, wb), "the other copy is unaffected"); CHECK(holds(c, wc), "a third copy is unaffected"); }
    CHECK((a == b) == eqStr(wa, wb), "equality by content"); symx_reach("end");
}
// without copy-on-write, mutating shared data is refused and changes nothing
ENTRY(c_refuse) {
    std::string wa, wb; ByteBuffer *a = mk(wa, false); ByteBuffer b(*a); wb = wa; bool hold = symx_choice(2, "shared"); const uint8_t *p = a->readStart(); if (!hold) delete a;
    if (hold) symx_allow_abort(1); const ByteBuffer &ob = hold ? *a : b; (void)p; mutate(b, wb);
    CHECK(holds(b, wb), "an unshared buffer is mutable"); if (hold) CHECK(holds(ob, wa), "no write goes through to the other copy"); symx_reach("end");
}
ENTRY(c_force) {
    std::string wa; ByteBuffer *a = mk(wa, symx_choice(2, "cow")); ByteBuffer b(*a); CHECK(b.readStart() == a->readStart(), "copies share until written"); b.forceUnique(); CHECK(holds(b, wa) && holds(*a, wa), "forceUnique keeps the contents");
    b.append("Q", 1); CHECK(holds(*a, wa), "after forceUnique writes are private"); std::string w2 = wa + "Q"; CHECK(holds(b, w2), "append"); ByteBuffer d; d = b; delete a; CHECK(holds(d, w2), "assigned copy survives"); symx_reach("end");
}
