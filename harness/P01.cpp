// Checked pointer casts and references succeed exactly when the object is of the requested type.
//@ define SYMX_FORMAT=1
//@ bound objects of every dynamic type of a hierarchy with single, multiple, virtual and unrelated bases, raw and shared pointers, const and not, with null pointers; symbolic contents
//@ entry p_down reach=end
//@ entry p_cross reach=end
//@ entry p_shared reach=end
//@ entry p_ref reach=end
#include "symx.h"
#include <Lintel/PointerUtil.hpp>
using namespace lintel; using boost::shared_ptr;
struct A { uint32_t a; A() : a(0) { } virtual ~A() { } virtual int id() const { return 0; } };
struct O { uint32_t o; O() : o(0) { } virtual ~O() { } virtual int oid() const { return 0; } };
struct B : public A { uint32_t b; B() : b(0) { } int id() const { return 1; } };
struct C : public O, public A { uint32_t c; C() : c(0) { } int id() const { return 2; } int oid() const { return 2; } };  // A at an offset
struct D : public B { uint32_t d; D() : d(0) { } int id() const { return 3; } };
struct F : public C { int id() const { return 4; } int oid() const { return 4; } };
static A *make(unsigned k) { switch (k) { case 0: return new A; case 1: return new B; case 2: return new C; case 3: return new D; case 4: return new F; default: return NULL; } }
template <class T> static void down(A *x, bool ok, int lo) {
    if (!ok) symx_allow_abort(1); T *r = safeDownCast<T>(x); CHECK(ok, "a wrong downcast is refused"); CHECK((r == NULL) == (x == NULL), "null stays null"); if (r) { CHECK(static_cast<A *>(r) == x, "the same object"); CHECK(r->id() >= lo, "of the requested type"); } const T *c = safeDownCast<const T>((const A *)x); CHECK(c == r, "const form agrees");
}
ENTRY(p_down) {
    unsigned k = symx_choice(6, "type"); A *x = make(k); uint32_t v = sym<uint32_t>("v"); if (x) x->a = v; bool n = x == NULL;
    switch (symx_choice(5, "target")) { case 0: down<A>(x, true, 0); break; case 1: down<B>(x, n || k == 1 || k == 3, 1); break; case 2: down<C>(x, n || k == 2 || k == 4, 2); break; case 3: down<D>(x, n || k == 3, 3); break; case 4: down<F>(x, n || k == 4, 4); break; }
    if (x) CHECK(x->a == v, "contents untouched"); delete x; symx_reach("end");
}
ENTRY(p_cross) {
    unsigned k = symx_choice(6, "type"); A *x = make(k); bool ok = k == 2 || k == 4; if (!ok) symx_allow_abort(1); O *o = safeCrossCast<O>(x); CHECK(ok, "a wrong or null crosscast is refused"); uint32_t v = sym<uint32_t>("v"); o->o = v;
    CHECK(o->oid() == (int)k, "the same object"); CHECK(dynamic_cast<C *>(x)->o == v, "contents reached through the cast"); A *back = safeCrossCast<A>(o); CHECK(back == x, "and back"); delete x; symx_reach("end");
}
ENTRY(p_shared) {
    unsigned k = symx_choice(6, "type"), t = symx_choice(3, "target"); shared_ptr<A> x(make(k)); bool c = k == 2 || k == 4, ok = t == 0 ? (!x || k == 1 || k == 3) : t == 1 ? (!x || c) : c; if (!ok) symx_allow_abort(1);
    if (t == 0) { shared_ptr<B> r = safeDownCast<B>(x); CHECK(ok, "a wrong downcast is refused"); CHECK(static_cast<A *>(r.get()) == x.get(), "the same object"); if (x) CHECK(x.use_count() == 2 && r.use_count() == 2, "shared ownership"); if (r) { x.reset(); CHECK(r->id() == (int)k, "kept alive"); } }
    else if (t == 1) { shared_ptr<C> r = safeDownCast<C>(x); CHECK(ok, "a wrong downcast is refused"); CHECK(static_cast<A *>(r.get()) == x.get(), "the same object, at another address"); if (x) CHECK(x.use_count() == 2, "shared ownership"); if (r) CHECK(voidCast(r) == static_cast<void *>(r.get()), "voidCast of a shared pointer"); }
    else { shared_ptr<O> r = safeCrossCast<O>(x); CHECK(ok, "a wrong or null crosscast is refused"); CHECK(r->oid() == (int)k && x.use_count() == 2, "the same object, shared"); x.reset(); CHECK(r->oid() == (int)k, "kept alive"); }
    symx_reach("end");
}
ENTRY(p_ref) {
    uint32_t v = sym<uint32_t>("v"), w = v; bool null = symx_choice(2, "null"); if (null) symx_allow_abort(1);
    switch (symx_choice(4, "form")) {
    case 0: { uint32_t &r = safeRef(null ? (uint32_t *)NULL : &v); CHECK(!null && &r == &v, "the object itself; null refused"); CHECK(voidCast(&v) == (void *)&v, "voidCast"); break; }
    case 1: { const uint32_t &r = safeRef(null ? (const uint32_t *)NULL : (const uint32_t *)&v); CHECK(!null && &r == &v, "the object itself; null refused"); break; }
    case 2: { shared_ptr<uint32_t> p(null ? NULL : new uint32_t(v)); uint32_t &r = safeRef(p); CHECK(!null && &r == p.get() && r == w, "the object itself; null refused"); r = v + 1; CHECK(*p == v + 1, "writable"); break; }
    case 3: { shared_ptr<const uint32_t> p(null ? NULL : new uint32_t(v)); const uint32_t &r = safeRef(p); CHECK(!null && &r == p.get() && r == w, "the object itself; null refused"); break; }
    }
    symx_reach("end");
}
