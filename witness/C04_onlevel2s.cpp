#include "wfield.hpp"
#include <samurai/numeric/prediction.hpp>
#include "predspec.hpp"
using namespace samurai;
template <size_t o> using O = std::integral_constant<size_t, o>;
using F = std::integral_constant<bool, false>; using T = std::integral_constant<bool, true>;
// the fine-level form writes the same values as the coarse-level form
#define L2(o, n, par, pj) \
W void C04_onlevel_2d_o##o##_n##n##_p##par##pj##__impl(size_t level, int q, int j) noexcept { RF<0> u; RF<1> v; int s = 2 * q + par; prediction_op<2, Int>(level + 1, Int{s, s + n}, 2 * j + pj)(Dim<2>{}, v, u, O<o>{}, F{}); } \
W void C04_onlevel_2d_o##o##_n##n##_p##par##pj##__spec(size_t level, int q, int j) noexcept { for (int e = 0; e < n; ++e) { int c = par + e; RF<1>::el(level + 1, 2 * q + c, 2 * j + pj) = child2<o, RF<0>>(level, q + (c >> 1), j, c & 1, pj); } }

#define L2S(o, n, par, pj) \
W void C04_onlevel_2d_soa_o##o##_n##n##_p##par##pj##__impl(size_t level, int q, int j) noexcept { RS<0> u; RS<1> v; int s = 2 * q + par; prediction_op<2, Int>(level + 1, Int{s, s + n}, 2 * j + pj)(Dim<2>{}, v, u, O<o>{}, F{}); } \
W void C04_onlevel_2d_soa_o##o##_n##n##_p##par##pj##__spec(size_t level, int q, int j) noexcept { for (int e = 0; e < n; ++e) { int c = par + e; RS<1>::el(0, level + 1, 2 * q + c, 2 * j + pj) = child2<o, RS<0>::comp<0>>(level, q + (c >> 1), j, c & 1, pj); RS<1>::el(1, level + 1, 2 * q + c, 2 * j + pj) = child2<o, RS<0>::comp<1>>(level, q + (c >> 1), j, c & 1, pj); } }
L2S(1, 2, 0, 0) L2S(1, 2, 1, 1) L2S(1, 3, 0, 1) L2S(1, 3, 1, 0)
