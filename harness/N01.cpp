// Approximate comparison of doubles: consistent relations with the documented tolerance.
//@ src src/Double.cpp
//@ bound n_order (thorough): all pairs of doubles; n_grid: all pairs out of 16 doubles including infinities, both zeros and neighbours within and just outside the tolerance; n_tolerance, n_symmetric: a in a grid of 12 magnitudes and both signs, b an 8-bit perturbation of it relative to the tolerance; tolerances of 0..20 digits and 0..60 bits
//@ entry n_order tier=thorough reach=end
//@ entry n_grid reach=end
//@ entry n_self reach=end
//@ entry n_tolerance reach=end
//@ entry n_digits reach=end
#include "symx.h"
#include <Lintel/Double.hpp>
static bool isNan(double d) { uint64_t v; __builtin_memcpy(&v, &d, 8); return (v & 0x7fffffffffffffffULL) > 0x7ff0000000000000ULL; }
ENTRY(n_self) {
    double a = sym<double>("a"); bool n = isNan(a); CHECK(Double::eq(a, a) == !n, "every number, infinities included, equals itself; NaN does not"); CHECK(Double::leq(a, a) == !n && Double::geq(a, a) == !n, "not less and not greater than itself"); CHECK(!Double::lt(a, a) && !Double::gt(a, a), "neither less nor greater"); CHECK(Double::eq(a, a, 1e-3) == !n, "with an explicit tolerance"); symx_reach("end");
}
// any a and b that are not approximately equal by the library's own test: exactly one of lt, eq, gt
static void order(double a, double b) {
    bool lt = Double::lt(a, b), gt = Double::gt(a, b), eq = Double::eq(a, b), le = Double::leq(a, b), ge = Double::geq(a, b);
    CHECK((int)lt + (int)gt + (int)eq == 1, "exactly one of less, equal, greater"); CHECK(le == (lt || eq), "less or equal"); CHECK(ge == (gt || eq), "greater or equal"); if (lt) CHECK(a < b, "less implies numerically less"); if (gt) CHECK(a > b, "greater implies numerically greater"); symx_reach("end");
}
ENTRY(n_order) { double a = sym<double>("a"), b = sym<double>("b"); symx_assume(!isNan(a) & !isNan(b)); order(a, b); }
static const double grid[16] = {0.0, -0.0, 1.0, 1.0 + 1e-13, 1.0 + 1e-11, 1.0 + 2e-12, -1.0, -1.0 - 1e-13, 1e-13, 4e-324, __builtin_inf(), -__builtin_inf(), 1e308, 1e308 * (1 + 1e-13), 2.0, -1.0 + 1e-11};
ENTRY(n_grid) { uint8_t x = sym<uint8_t>("x"); double a = grid[x >> 4], b = grid[x & 15]; order(a, b); }
static const double mag[] = {1.0, 3.0, 0.1, 1e-3, 7e5, 1e10, 1e-10, 1e100, 1e-100, 123456.789, 1e-12, 5e-12};
ENTRY(n_tolerance) { // |a - b| relative to the smaller magnitude, on both sides of the tolerance
    double a = mag[symx_choice(12, "a")], eps = symx_choice(2, "eps") ? 1e-12 : 1e-3; int8_t k = sym<int8_t>("k"); symx_assume((k < 62) | (k > 66)); symx_assume((k > -62) | (k < -66)); double b = a * (1.0 + eps * k / 64.0); if (symx_choice(2, "neg")) { a = -a; b = -b; }
    bool near = (k < 64) & (k > -64), e = eps == 1e-12 && symx_choice(2, "default") ? Double::eq(a, b) : Double::eq(a, b, eps); CHECK(e == near, "equal iff within the relative tolerance"); CHECK(Double::eq(b, a, eps) == near, "symmetric"); CHECK(!Double::eq(a, -b, eps), "opposite signs differ");
    double z = eps * (k + 0.5) / 64.0; CHECK(Double::eq(0.0, z, eps) == near && Double::eq(z, 0.0, eps) == near, "against zero the tolerance is absolute"); symx_reach("end");
}
ENTRY(n_digits) {
    unsigned d = symx_choice(21, "digits"), bits = symx_choice(61, "bits"); Double::setEpsilonDigits(d); double t = 1; for (unsigned i = 0; i < d; i++) t *= 10; double r = Double::default_epsilon * t; CHECK(r > 0.999999 && r < 1.000001, "epsilon for so many decimal digits"); double p = 1; for (unsigned i = 0; i < bits; i++) p *= 0.5; Double::setEpsilonBits(bits); CHECK(Double::default_epsilon == p, "epsilon for so many bits");
    int8_t k = sym<int8_t>("k"); double b = 1.0 + k * p / 64.0; symx_assume((k < 62) | (k > 66)); symx_assume((k > -62)); symx_assume(k >= 0); if (bits > 2 && bits < 40) CHECK(Double::eq(1.0, b) == (k < 64), "the default tolerance is used"); symx_trace(Double::lt(1.0, b)); symx_reach("end");
}
