// Atomic<T>: every operation is one indivisible step with the documented result, at every width.
//@ assume asm is executed by the engine's x86 interpreter (engine/asm_x86.inc): a locked instruction is one step, an unlocked read-modify-write is two; sequential consistency (x86-TSO store buffering is not modelled)
//@ bound a_seq: every operation at 8, 16, 32 and 64 bits, all operand values; a_two: two threads with one operation each, all pairs of the 23 operations, all 32-bit values; a_mix: two threads with two and one operations; a_three: three threads with one operation each; every interleaving within the stated context-switch bound (6, 4 and 4 preemptions)
//@ bcflags -O1
//@ entry a_seq reach=end
//@ entry a_signed reach=end
//@ entry a_two opts="--preempt 6 --all-mem" reach=end stress=st_two
//@ entry a_mix quick="K=5" thorough="K=9" opts="--preempt 4 --all-mem" reach=end stress=st_mix
//@ entry a_three quick="K=4" thorough="K=5" opts="--preempt 4 --all-mem" reach=end stress=st_three
//@ entry a_unsafe reach=end
#include "symx.h"
#include <Lintel/AtomicCounter.hpp>
using lintel::Atomic;
static const unsigned NOP = 23;
template <class T> struct Op { unsigned k; T a, e; };
template <class T> struct Res { T ret, exp; };
// the real operation
template <class T> static Res<T> real(Atomic<T> &c, const Op<T> &o) {
    Res<T> r; r.ret = 0; r.exp = o.e;
    switch (o.k) {
    case 0: r.ret = c.fetch_add(o.a); break;
    case 1: r.ret = c.fetch_or(o.a); break;
    case 2: r.ret = c.fetch_xor(o.a); break;
    case 3: r.ret = c.exchange(o.a); break;
    case 4: { T e = o.e; r.ret = c.compare_exchange_strong(&e, o.a); r.exp = e; break; }
    case 5: r.ret = c.load(); break;
    case 6: c.store(o.a); break;
    case 7: r.ret = --c; break;
    case 8: r.ret = c.fetch_and(o.a); break;
    case 9: r.ret = c.fetch_sub(o.a); break;
    case 10: r.ret = c++; break;
    case 11: r.ret = c.addThenFetch(o.a); break;
    case 12: r.ret = (c -= o.a); break;
    case 13: r.ret = (c |= o.a); break;
    case 14: r.ret = (c &= o.a); break;
    case 15: r.ret = (c ^= o.a); break;
    case 16: r.ret = c--; break;
    case 17: r.ret = c.incThenFetch(); break;
    case 18: r.ret = c.decThenFetch(); break;
    case 19: r.ret = ++c; break;
    case 20: r.ret = (c = o.a); break;
    case 21: r.ret = c.isZero(); break;
    default: r.ret = (T)c; break;
    }
    return r;
}
// what it must do to a plain variable
template <class T> static Res<T> model(T &v, const Op<T> &o) {
    Res<T> r; r.ret = v; r.exp = o.e;
    switch (o.k) {
    case 0: case 10: case 11: v = v + (o.k == 10 ? (T)1 : o.a); break;
    case 1: case 13: v = v | o.a; break;
    case 2: case 15: v = v ^ o.a; break;
    case 3: v = o.a; break;
    case 4: { bool eq = v == o.e; r.exp = v; r.ret = eq; v = eq ? o.a : v; break; }
    case 5: case 22: break;
    case 6: v = o.a; r.ret = 0; break;
    case 20: v = o.a; break;
    case 21: r.ret = v == 0; break;
    case 17: case 19: v = v + 1; break;
    case 8: case 14: v = v & o.a; break;
    case 9: case 12: v = v - o.a; break;
    default: v = v - 1; break;
    }
    if (o.k == 7 || (o.k >= 11 && o.k <= 15) || (o.k >= 17 && o.k <= 20)) r.ret = v;
    return r;
}
template <class T> static bool same(const Res<T> &a, const Res<T> &b) { return (a.ret == b.ret) & (a.exp == b.exp); }
template <class T> static Op<T> symOp(unsigned n, const char *nm) { Op<T> o; o.k = symx_choice(n, nm); o.a = sym<T>("arg"); o.e = o.k == 4 ? sym<T>("expect") : (T)0; return o; }
template <class T> static void seq() {
    Op<T> o = symOp<T>(NOP, "op"); T v0 = sym<T>("init"), v = v0; Atomic<T> c(v0); Res<T> r = real(c, o), m = model(v, o);
    symx_trace((uint64_t)r.ret); CHECK(same(r, m), "the operation returns what it documents"); CHECK(c.load() == v, "the operation leaves the documented value"); CHECK(c.isZero() == (v == 0) && (T)c == v, "isZero and the conversion read the value");
    Atomic<T> d; CHECK(d.load() == 0, "a new counter is zero"); T t = (d = v0); CHECK(t == v0 && d.load() == v0, "assignment stores");
    CHECK(d.incThenFetch() == (T)(v0 + 1) && d.decThenFetch() == v0 && d.load() == v0, "incThenFetch and decThenFetch"); CHECK(++d == (T)(v0 + 1), "prefix increment");
}
ENTRY(a_seq) { switch (symx_choice(4, "width")) { case 0: seq<uint8_t>(); break; case 1: seq<uint16_t>(); break; case 2: seq<uint32_t>(); break; default: seq<uint64_t>(); } symx_reach("end"); }
ENTRY(a_signed) { // the width users have: AtomicCounter is Atomic<int>
    int v0 = sym<int>("init"), a = sym<int>("arg"); lintel::AtomicCounter c(v0); unsigned w = (unsigned)v0;
    CHECK(c.fetch_add(a) == v0 && (unsigned)c.load() == w + (unsigned)a, "AtomicCounter adds"); CHECK((unsigned)c.fetch_sub(a) == w + (unsigned)a && c.load() == v0, "AtomicCounter subtracts");
    CHECK((unsigned)c.incThenFetch() == w + 1u && (unsigned)c.decThenFetch() == w, "AtomicCounter counts"); symx_reach("end");
}
ENTRY(a_unsafe) {
    uint32_t v = sym<uint32_t>("init"), v0 = v, a = sym<uint32_t>("arg"), e = sym<uint32_t>("expect"), e0 = e; using namespace lintel::unsafe;
    CHECK(atomic_load(&v) == v0, "unsafe load"); CHECK(atomic_fetch_add(&v, a) == v0 && v == v0 + a, "unsafe add"); CHECK(atomic_fetch_sub(&v, a) == v0 + a && v == v0, "unsafe sub");
    CHECK(atomic_fetch_or(&v, a) == v0 && v == (v0 | a), "unsafe or"); atomic_store(&v, v0); CHECK(v == v0, "unsafe store"); CHECK(atomic_fetch_and(&v, a) == v0 && v == (v0 & a), "unsafe and"); CHECK(atomic_exchange(&v, v0) == (v0 & a) && v == v0, "unsafe exchange");
    CHECK(atomic_fetch_xor(&v, a) == v0 && v == (v0 ^ a), "unsafe xor"); uint32_t b = v; bool ok = atomic_compare_exchange_strong(&v, &e, a); CHECK(ok == (b == e0) && v == (ok ? a : b) && e == b, "unsafe compare and exchange"); symx_reach("end");
}
// concurrency: thread t runs its operations in order; some interleaving of the whole operations must explain all results
typedef uint32_t W;
static Op<W> g_op[3][2]; static Res<W> g_res[3][2]; static unsigned g_n[3]; static Atomic<W> g_c; static unsigned g_nt; static volatile unsigned g_go[3];
static void body(unsigned t) { for (unsigned i = 0; i < g_n[t]; i++) g_res[t][i] = real(g_c, g_op[t][i]); }
static void thr(void *p) { body((unsigned)(uintptr_t)p); }
static bool explain(W v, unsigned *pos, W fin) {
    bool any = false, end = true;
    for (unsigned t = 0; t < g_nt; t++) if (pos[t] < g_n[t]) {
        end = false; W x = v; Res<W> m = model(x, g_op[t][pos[t]]); bool ok = same(m, g_res[t][pos[t]]); pos[t]++; any = any | (ok & explain(x, pos, fin)); pos[t]--; }
    return end ? v == fin : any;
}
static void runOnce(W v0) {
    symx_watch(&g_c); g_c.store(v0); int id[3]; for (unsigned t = 1; t < g_nt; t++) id[t] = symx_spawn(thr, (void *)(uintptr_t)t);
    body(0); for (unsigned t = 1; t < g_nt; t++) symx_join(id[t]);
    unsigned pos[3] = {0, 0, 0}; CHECK(explain(v0, pos, g_c.load()), "the results and the final value are those of some one-at-a-time order of the operations");
}
static W setup(unsigned nt, unsigned n0, unsigned n1, unsigned n2, unsigned kinds) {
    g_nt = nt; g_n[0] = n0; g_n[1] = n1; g_n[2] = n2; for (unsigned t = 0; t < nt; t++) for (unsigned i = 0; i < g_n[t]; i++) g_op[t][i] = symOp<W>(kinds, "op"); return sym<W>("init");
}
ENTRY(a_two) { runOnce(setup(2, 1, 1, 0, NOP)); symx_reach("end"); }
ENTRY(a_mix) { runOnce(setup(2, 2, 1, 0, symx_param("K", 5))); symx_reach("end"); }
ENTRY(a_three) { runOnce(setup(3, 1, 1, 1, symx_param("K", 4))); symx_reach("end"); }
// stress replay of a reported schedule: the same operations, raced for real many times
static W g_v0; static const unsigned ROUNDS = 200000; static volatile unsigned g_round, g_fin;
static void racer(void *p) { unsigned t = (unsigned)(uintptr_t)p; for (unsigned r = 1; r <= ROUNDS; r++) { while (g_round != r) {} body(t); __sync_fetch_and_add(&g_fin, 1); } }
static void stress(W v0) {
    if (symx_symbolic()) return; int id[3]; g_round = 0; for (unsigned t = 1; t < g_nt; t++) id[t] = symx_spawn(racer, (void *)(uintptr_t)t);
    for (unsigned r = 1; r <= ROUNDS; r++) { g_c.store(v0); g_fin = 0; __sync_synchronize(); g_round = r; body(0); while (g_fin != g_nt - 1) {} unsigned pos[3] = {0, 0, 0}; CHECK(explain(v0, pos, g_c.load()), "the results and the final value are those of some one-at-a-time order of the operations"); }
    for (unsigned t = 1; t < g_nt; t++) symx_join(id[t]);
}
ENTRY(st_two) { stress(setup(2, 1, 1, 0, NOP)); }
ENTRY(st_mix) { stress(setup(2, 2, 1, 0, symx_param("K", 5))); }
ENTRY(st_three) { stress(setup(3, 1, 1, 1, symx_param("K", 4))); }
