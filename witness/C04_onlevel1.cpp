#include "wfield.hpp"
#include <samurai/numeric/prediction.hpp>
#include "predspec.hpp"
using namespace samurai;
template <size_t o> using O = std::integral_constant<size_t, o>;
using F = std::integral_constant<bool, false>; using T = std::integral_constant<bool, true>;
// a run of n fine cells starting at 2q + par, written from the coarse level
#define L1(o, n, par) \
W void C04_onlevel_1d_o##o##_n##n##_p##par##__impl(size_t level, int q) noexcept { RF<0> u; RF<1> v; int s = 2 * q + par; prediction_op<1, Int>(level + 1, Int{s, s + n})(Dim<1>{}, v, u, O<o>{}, F{}); } \
W void C04_onlevel_1d_o##o##_n##n##_p##par##__spec(size_t level, int q) noexcept { for (int e = 0; e < n; ++e) { int c = par + e; RF<1>::el(level + 1, 2 * q + c) = pred1<o, RF<0>>(level, q + (c >> 1), c & 1); } }
L1(0, 1, 0) L1(0, 1, 1) L1(0, 2, 0) L1(0, 3, 1)
L1(1, 1, 0) L1(1, 1, 1) L1(1, 2, 0) L1(1, 2, 1) L1(1, 3, 0) L1(1, 3, 1)
L1(2, 3, 0) L1(2, 3, 1)
