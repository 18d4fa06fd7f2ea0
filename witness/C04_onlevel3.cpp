#include "wfield.hpp"
#include <samurai/numeric/prediction.hpp>
#include "predspec.hpp"
using namespace samurai;
template <size_t o> using O = std::integral_constant<size_t, o>;
using F = std::integral_constant<bool, false>; using T = std::integral_constant<bool, true>;
// the fine-level form writes the same values as the coarse-level form
#define L2(o, n, par, pj) \
W void C04_onlevel_2d_o##o##_n##n##_p##par##pj##__impl(size_t level, int q, int j) noexcept { RF<0> u; RF<1> v; int s = 2 * q + par; prediction_op<2, Int>(level + 1, Int{s, s + n}, 2 * j + pj)(Dim<2>{}, v, u, O<o>{}, F{}); } \
W void C04_onlevel_2d_o##o##_n##n##_p##par##pj##__spec(size_t level, int q, int j) noexcept { for (int e = 0; e < n; ++e) { int c = par + e; RF<1>::el(level + 1, 2 * q + c, 2 * j + pj) = child2<o, RF<0>>(level, q + (c >> 1), j, c & 1, pj); } }

#define L3(o, n, par, pj, pk) \
W void C04_onlevel_3d_o##o##_n##n##_p##par##pj##pk##__impl(size_t level, int q, int j, int k) noexcept { RF<0> u; RF<1> v; int s = 2 * q + par; prediction_op<3, Int>(level + 1, Int{s, s + n}, 2 * j + pj, 2 * k + pk)(Dim<3>{}, v, u, O<o>{}, F{}); } \
W void C04_onlevel_3d_o##o##_n##n##_p##par##pj##pk##__spec(size_t level, int q, int j, int k) noexcept { for (int e = 0; e < n; ++e) { int c = par + e; RF<1>::el(level + 1, 2 * q + c, 2 * j + pj, 2 * k + pk) = child3<o, RF<0>>(level, q + (c >> 1), j, k, c & 1, pj, pk); } }
L3(1, 2, 0, 0, 0) L3(1, 2, 1, 0, 1) L3(1, 2, 1, 1, 0) L3(1, 2, 0, 1, 1) L3(0, 2, 0, 1, 1)
