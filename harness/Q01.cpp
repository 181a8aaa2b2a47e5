// Priority queue: always yields a most important element and preserves the multiset of elements.
//@ assume the comparison is a total (pre)order given as a strict or reflexive less-important relation; replacement values are not references into the queue
//@ bound histories of OPS operations (push, pop, bottom-up pop, replaceTop, clear) on queues with initial capacity 0..3, symbolic 8-bit keys with distinct payloads; heaps of up to HEAP arbitrary elements popped in full; q_step: one operation on every heap of up to HEAP elements
//@ entry q_hist quick="OPS=5" thorough="OPS=6" reach=end
//@ entry q_drain quick="HEAP=5" thorough="HEAP=7" reach=end
//@ entry q_replace quick="HEAP=4" thorough="HEAP=6" reach=end
//@ entry q_step quick="HEAP=9" thorough="HEAP=17" reach=end
//@ entry q_big reach=end
//@ entry q_self reach=end
#include "symx.h"
#include <functional>
#include <Lintel/PriorityQueue.hpp>
struct P { uint8_t k, id; P() : k(0), id(99) { } P(uint8_t a, uint8_t b) : k(a), id(b) { } };
static int strict;
struct Less { bool operator()(const P &a, const P &b) const { return strict ? a.k < b.k : a.k <= b.k; } };
typedef PriorityQueue<P, Less> Q;
struct Model { uint8_t k[24]; bool live[24]; unsigned n; Model() : n(0) { }
    unsigned size() const { unsigned c = 0; for (unsigned i = 0; i < n; i++) c += live[i]; return c; }
    uint8_t max() const { uint8_t r = 0; for (unsigned i = 0; i < n; i++) r = (live[i] & (k[i] > r)) ? k[i] : r; return r; } };
static void push(Q &q, Model &m, uint8_t k) { q.push(P(k, m.n)); m.k[m.n] = k; m.live[m.n++] = true; }
static void takeTop(Q &q, Model &m) { // the top must be a live element of maximal key
    P t = q.top(); CHECK(t.k == m.max(), "top is a most important element"); bool ok = false; for (unsigned i = 0; i < m.n; i++) { bool is = m.live[i] & (t.id == i) & (m.k[i] == t.k); ok |= is; m.live[i] = m.live[i] & !is; } CHECK(ok, "top is an element that was pushed and not removed yet"); }
ENTRY(q_hist) {
    strict = symx_choice(2, "strict"); Q q((int)symx_choice(4, "cap")); Model m; unsigned ops = symx_param("OPS", 5);
    for (unsigned i = 0; i < ops; i++) switch (symx_choice(strict ? 3 : 4, "op")) {
    case 0: push(q, m, sym<uint8_t>("k")); break;
    case 1: if (!m.size()) symx_end(); takeTop(q, m); q.pop(); break;
    case 2: if (!m.size()) symx_end(); { takeTop(q, m); uint8_t k = sym<uint8_t>("r"); q.replaceTop(P(k, m.n)); m.k[m.n] = k; m.live[m.n++] = true; } break;
    case 3: if (!m.size()) symx_end(); takeTop(q, m); q.pop_bottom_up_heuristic(); break;
    }
    CHECK(q.size() == m.size(), "size"); CHECK(q.empty() == (m.size() == 0), "empty"); q.selfVerify();
    if (m.size()) takeTop(q, m); CHECK(q.PQ_End() - q.PQ_Begin() == (long)q.size(), "element range"); symx_trace(q.size()); symx_reach("end");
}
ENTRY(q_drain) {
    strict = symx_choice(2, "strict"); Q q(Less(), 2); Model m; unsigned n = symx_param("HEAP", 5); for (unsigned i = 0; i < n; i++) push(q, m, sym<uint8_t>("k")); q.selfVerify();
    unsigned bu = strict ? 0 : symx_choice(2, "bu"); uint8_t last = 255; for (unsigned i = 0; i < n; i++) { CHECK(q.size() == n - i, "size while draining"); uint8_t k = q.top().k; CHECK(k <= last, "elements come out in order of importance"); last = k; takeTop(q, m); if (bu) q.pop_bottom_up_heuristic(); else q.pop(); } CHECK(q.empty(), "drained"); symx_reach("end");
}
ENTRY(q_replace) {
    strict = symx_choice(2, "strict"); Q q(1); Model m; unsigned n = symx_param("HEAP", 4); for (unsigned i = 0; i < n; i++) push(q, m, sym<uint8_t>("k"));
    takeTop(q, m); uint8_t k = sym<uint8_t>("r"); q.replaceTop(P(k, m.n)); m.k[m.n] = k; m.live[m.n++] = true; CHECK(q.size() == n, "replaceTop keeps the size"); q.selfVerify(); for (unsigned i = 0; i < n; i++) { takeTop(q, m); q.pop(); } symx_reach("end");
}
struct Big { uint32_t k; char pad[1100]; bool operator<=(const Big &o) const { return k <= o.k; } };
ENTRY(q_big) { PriorityQueue<Big> q; Big b; b.k = sym<uint32_t>("a"); uint32_t mx = b.k; q.push(b); b.k = sym<uint32_t>("b"); if (b.k > mx) mx = b.k; q.push(b); CHECK((q.top().k == mx) & (q.size() == 2), "default-constructed queue of large elements"); symx_reach("end"); }
ENTRY(q_self) { PriorityQueue<uint32_t> q(1 + (int)symx_choice(2, "cap")); uint32_t a = sym<uint32_t>("a"); q.push(a); q.push(q.top()); q.push(q.top()); CHECK((q.size() == 3) & (q.top() == a), "pushing a copy of the top"); q.pop(); q.pop(); CHECK(q.top() == a, "copies"); q.clear(); CHECK(q.empty(), "clear"); q.reserve(5); q.push(a); CHECK(q.top() == a, "reserve"); symx_reach("end"); }

// one operation on any heap leaves a heap of the right elements (elements pushed in heap order stay where they are pushed)
ENTRY(q_step) {
    strict = symx_choice(2, "strict"); unsigned n = 1 + symx_choice(symx_param("HEAP", 10), "n"); Q q(2); Model m; for (unsigned i = 0; i < n; i++) { uint8_t k = sym<uint8_t>("k"); if (i) symx_assume(k <= m.k[(i - 1) / 2]); push(q, m, k); }
    unsigned top = symx_concretize(q.top().id), op = symx_choice(strict ? 3 : 4, "op"); CHECK((top < n) & (q.top().k == m.k[0]), "top is a most important element"); if (op) m.live[top] = false;
    if (op == 0) push(q, m, sym<uint8_t>("k")); else if (op == 1) q.pop(); else if (op == 3) q.pop_bottom_up_heuristic();
    else { uint8_t k = sym<uint8_t>("r"); q.replaceTop(P(k, m.n)); m.k[m.n] = k; m.live[m.n++] = true; }
    q.selfVerify(); CHECK(q.size() == m.size(), "size"); unsigned ids = 0, want = 0; bool ok = true, heap = true; P *b = q.PQ_Begin();
    for (unsigned i = 0; i < q.size(); i++) { unsigned id = symx_concretize(b[i].id); CHECK(id < m.n, "an element that was pushed"); ids |= 1u << id; ok = ok & (b[i].k == m.k[id]); heap = heap & (b[i].k <= b[0].k); } for (unsigned i = 0; i < m.n; i++) want |= (unsigned)m.live[i] << i;
    CHECK(ok & (ids == want), "exactly the live elements are stored"); CHECK(heap, "the top is most important"); symx_reach("end");
}
