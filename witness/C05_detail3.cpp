#include "wfield.hpp"
#include <samurai/mr/operators.hpp>
#include "predspec.hpp"
using namespace samurai;
// detail of a cell = its value minus the value predicted from the coarser level; at level + 1 for all children, at level itself when a coarser level exists

#define D3(o, n, p, pj, pk) \
W void C05_detail_3d_o##o##_n##n##_p##p##pj##pk##__impl(size_t level, int q, int r, int t) noexcept { RF<0, o> u; RF<1, o> d; int s = 2 * q + p, j = 2 * r + pj, k = 2 * t + pk; compute_detail_op<3, Int>(level, Int{s, s + n}, j, k)(Dim<3>{}, d, u); } \
W void C05_detail_3d_o##o##_n##n##_p##p##pj##pk##__spec(size_t level, int q, int r, int t) noexcept { int j = 2 * r + pj, k = 2 * t + pk; for (int e = 0; e < n; ++e) { int s = 2 * q + p + e; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int c = 0; c < 2; ++c) RF<1>::el(level + 1, 2 * s + a, 2 * j + b, 2 * k + c) = RF<0>::el(level + 1, 2 * s + a, 2 * j + b, 2 * k + c) - child3<o, RF<0>>(level, s, j, k, a, b, c); \
  if (level >= 1) RF<1>::el(level, s, j, k) = RF<0>::el(level, s, j, k) - child3<o, RF<0>>(level - 1, q + ((p + e) >> 1), r, t, (p + e) & 1, pj, pk); } }
D3(1, 1, 0, 0, 1)
