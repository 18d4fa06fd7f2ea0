#include "wfield.hpp"
#include <samurai/numeric/prediction.hpp>
#include "predspec.hpp"
using namespace samurai;
template <size_t o> using O = std::integral_constant<size_t, o>;
using T = std::integral_constant<bool, true>; using F = std::integral_constant<bool, false>;
#define P1(o) \
W void C04_children_1d_o##o##__impl(size_t level, int s) noexcept { U<0> u; U<1> v; prediction_op<1, Int>(level, Int{s, s + 1})(Dim<1>{}, v, u, O<o>{}, T{}); } \
W void C04_children_1d_o##o##__spec(size_t level, int s) noexcept { for (int a = 0; a < 2; ++a) U<1>::el(level + 1, 2 * s + a) = pred1<o, U<0>>(level, s, a); }
P1(0) P1(1) P1(2) P1(3) P1(4) P1(5)
// several dimensions: every directional part is the one-dimensional formula; the product terms enter with one of the two published sign conventions, the same for all children
#define P2(o) \
W bool C04_children_2d_o##o##__true(size_t level, int s, int j) noexcept { U<0> u; U<1> v; prediction_op<2, Int>(level, Int{s, s + 1}, j)(Dim<2>{}, v, u, O<o>{}, T{}); \
 bool r = true; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { double x = U<1>::el(level + 1, 2 * s + a, 2 * j + b); double p = x - pred2<o, U<0>>(level, s, j, a, b, 1), m = x - pred2<o, U<0>>(level, s, j, a, b, -1); r = r & (p * m == 0); } return r; } \
W bool C04_mean_2d_o##o##__true(size_t level, int s, int j) noexcept { U<0> u; U<1> v; prediction_op<2, Int>(level, Int{s, s + 1}, j)(Dim<2>{}, v, u, O<o>{}, T{}); \
 double r = 0; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) r += U<1>::el(level + 1, 2 * s + a, 2 * j + b); return r == 4 * U<0>::el(level, s, j); }
P2(0) P2(1) P2(2) P2(3)
#define P3(o) \
W bool C04_children_3d_o##o##__true(size_t level, int s, int j, int k) noexcept { U<0> u; U<1> v; prediction_op<3, Int>(level, Int{s, s + 1}, j, k)(Dim<3>{}, v, u, O<o>{}, T{}); \
 bool r = true; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int c = 0; c < 2; ++c) { double x = U<1>::el(level + 1, 2 * s + a, 2 * j + b, 2 * k + c); double p = x - pred3<o, U<0>>(level, s, j, k, a, b, c, 1), m = x - pred3<o, U<0>>(level, s, j, k, a, b, c, -1); r = r & (p * m == 0); } return r; } \
W bool C04_mean_3d_o##o##__true(size_t level, int s, int j, int k) noexcept { U<0> u; U<1> v; prediction_op<3, Int>(level, Int{s, s + 1}, j, k)(Dim<3>{}, v, u, O<o>{}, T{}); \
 double r = 0; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int c = 0; c < 2; ++c) r += U<1>::el(level + 1, 2 * s + a, 2 * j + b, 2 * k + c); return r == 8 * U<0>::el(level, s, j, k); }
P3(0) P3(1)
// exactness on the averages of x y (cell size 1 on the coarse level)
struct XY { static double f(size_t, int s, int j, int) { return (s + 0.5) * (j + 0.5); } };
W double C04_mixed_2d__impl(size_t level) noexcept { PF<XY> u; U<1> v; prediction_op<2, Int>(level, Int{0, 1}, 0)(Dim<2>{}, v, u, O<1>{}, T{}); double r = U<1>::el(level + 1, 0, 0), o = U<1>::el(level + 1, 1, 0); U<1>::el(level + 1, 0, 0) = U<1>::el(level + 1, 1, 0) = U<1>::el(level + 1, 0, 1) = U<1>::el(level + 1, 1, 1) = 0; return r + 16 * o; }
W double C04_mixed_2d__spec(size_t level) noexcept { U<1>::el(level + 1, 0, 0) = U<1>::el(level + 1, 1, 0) = U<1>::el(level + 1, 0, 1) = U<1>::el(level + 1, 1, 1) = 0; return 0.25 * 0.25 + 16 * 0.75 * 0.25; }
// coefficient tables used by the other predictors (reconstruction, implicit assembly)
template <size_t o> inline bool tables(double) { auto e = interp_coeffs<2 * o + 1>(1.), d = interp_coeffs<2 * o + 1>(-1.); bool r = true; for (int a = -int(o); a <= int(o); ++a) r = r & (e[size_t(a + int(o))] == pw(o, a, 0)) & (d[size_t(a + int(o))] == pw(o, a, 1)); return r; }
W bool C04_tables__true(double x) noexcept { return tables<0>(x) & tables<1>(x) & tables<2>(x) & tables<3>(x) & tables<4>(x) & tables<5>(x); }
W void C04_variadic_1d__impl(size_t level, int s) noexcept { U<0> u; U<1> v; U<2> w; variadic_prediction_op<1, Int>(level, Int{s, s + 1})(Dim<1>{}, O<1>{}, T{}, u, v, w); }
W void C04_variadic_1d__spec(size_t level, int s) noexcept { U<0> u; U<1> v; U<2> w; prediction_op<1, Int> op(level, Int{s, s + 1}); op(Dim<1>{}, u, u, O<1>{}, T{}); op(Dim<1>{}, v, v, O<1>{}, T{}); op(Dim<1>{}, w, w, O<1>{}, T{}); }
W void C04_variadic_2d__impl(size_t level, int s, int j) noexcept { U<0> u; U<1> v; U<2> w; variadic_prediction_op<2, Int>(level, Int{s, s + 1}, j)(Dim<2>{}, O<1>{}, T{}, u, v, w); }
W void C04_variadic_2d__spec(size_t level, int s, int j) noexcept { U<0> u; U<1> v; U<2> w; prediction_op<2, Int> op(level, Int{s, s + 1}, j); op(Dim<2>{}, u, u, O<1>{}, T{}); op(Dim<2>{}, v, v, O<1>{}, T{}); op(Dim<2>{}, w, w, O<1>{}, T{}); }
W void C04_variadic_3d__impl(size_t level, int s, int j, int k) noexcept { U<0> u; U<1> v; variadic_prediction_op<3, Int>(level, Int{s, s + 1}, j, k)(Dim<3>{}, O<1>{}, T{}, u, v); }
W void C04_variadic_3d__spec(size_t level, int s, int j, int k) noexcept { U<0> u; U<1> v; prediction_op<3, Int> op(level, Int{s, s + 1}, j, k); op(Dim<3>{}, u, u, O<1>{}, T{}); op(Dim<3>{}, v, v, O<1>{}, T{}); }
