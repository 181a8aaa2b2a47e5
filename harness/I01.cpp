// Interpolation search returns the lower bound, whatever the estimator guesses.
//@ assume the range is sorted by the comparison; the element type has an exact conversion of differences to double
//@ bound sorted ranges of 0..N symbolic 8-bit values (signed and unsigned), any estimator that returns an offset in range (a fresh symbolic value per call), five step configurations including the default; the shipped estimator over all 5-bit (thorough 8-bit) values and the extreme 32/64-bit values
//@ entry l_any quick="N=8" thorough="N=10" reach=end
//@ entry l_estimator quick="BITS=5" thorough="BITS=8" reach=end
//@ entry l_extreme reach=end
//@ entry l_default quick="N=3" thorough="N=4" reach=end
#include "symx.h"
#include <algorithm>
#include <limits>
#include <Lintel/AssertBoost.hpp>
#include <Lintel/unstable/InterpolationSearch.hpp>
using namespace lintel;
template <class T> struct AnyEst { size_t operator()(const T &v, const T &first, const T &last, size_t last_pos) const { CHECK((first < v) & (v <= last), "the estimator is only asked about a value inside the range"); size_t r = symx_val(4, "estimate"); symx_assume(r <= last_pos); return symx_concretize(r); } };
template <class T> static void run(size_t n, bool dflt) {
    T *a = new T[n]; T v = sym<T>("v"); size_t want = 0; for (size_t i = 0; i < n; i++) { a[i] = sym<T>("a"); if (i) symx_assume(a[i - 1] <= a[i]); want += a[i] < v; }
    T *r; AnyEst<T> est; if (dflt) r = interpolationLowerBound(a, a + n, v); else switch (symx_choice(4, "cfg")) { case 0: r = detail::interpolationLowerBound<1, 1, 0>(a, a + n, v, est, Compare<T>()); break; case 1: r = detail::interpolationLowerBound<2, 4, 2>(a, a + n, v, est, Compare<T>()); break; case 2: r = detail::interpolationLowerBound<1, 2, 0>(a, a + n, v, est, Compare<T>()); break; default: r = detail::interpolationLowerBound<2, 4, 256>(a, a + n, v, est, Compare<T>()); }
    CHECK((size_t)(r - a) == want, "the first element not less than the value"); symx_trace(want); delete[] a; symx_reach("end");
}
ENTRY(l_any) { size_t n = symx_choice(symx_param("N", 5) + 1, "n"); if (symx_choice(2, "type")) run<int8_t>(n, false); else run<uint8_t>(n, false); }
ENTRY(l_default) { size_t n = symx_choice(symx_param("N", 3) + 1, "n"); int8_t vals[] = {-128, -1, 0, 100, 127}; (void)vals; static const int32_t t[] = {std::numeric_limits<int32_t>::min(), -7, 0, 1, std::numeric_limits<int32_t>::max()}; int32_t a[8]; size_t k = 0; for (size_t i = 0; i < n; i++) { k += symx_choice(5 - k, "k"); a[i] = t[k]; } int32_t v = t[symx_choice(5, "v")] + (symx_choice(2, "off") ? 1 : 0); size_t want = 0; for (size_t i = 0; i < n; i++) want += a[i] < v; int32_t *r = interpolationLowerBound(a, a + n, v); CHECK((size_t)(r - a) == want, "default search over extreme values"); symx_reach("end"); }
template <class T> static void est() { unsigned B = symx_param("BITS", 5), h = std::numeric_limits<T>::is_signed ? 1u << (B - 1) : 0; T f = (T)(symx_val(B, "first") - h), v = (T)(symx_val(B, "v") - h), l = (T)(symx_val(B, "last") - h); symx_assume((f < v) & (v <= l)); size_t n = 1 + symx_choice(3, "n") * 3; EstimateOffset<T> e; CHECK(e(v, f, l, n) <= n, "the estimate stays in range"); CHECK(e(l, f, l, n) == n, "the last value is estimated at the end"); symx_reach("end"); }
ENTRY(l_estimator) { if (symx_choice(2, "type")) est<int8_t>(); else est<uint8_t>(); }
template <class T> static void ext() { T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); T v = symx_choice(2, "v") ? hi : symx_choice(2, "w") ? (T)(lo + 1) : (T)(lo / 2 + hi / 2); EstimateOffset<T> e; size_t n = 1 + symx_choice(4, "n"); CHECK(e(v, lo, hi, n) <= n, "no overflow over the full value range"); CHECK(e(hi, lo, hi, n) == n, "end"); symx_reach("end"); }
ENTRY(l_extreme) { switch (symx_choice(4, "type")) { case 0: ext<int32_t>(); break; case 1: ext<int64_t>(); break; case 2: ext<uint32_t>(); break; default: ext<uint64_t>(); } }
