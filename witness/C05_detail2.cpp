#include "wfield.hpp"
#include <samurai/mr/operators.hpp>
#include "predspec.hpp"
using namespace samurai;
// detail of a cell = its value minus the value predicted from the coarser level; at level + 1 for all children, at level itself when a coarser level exists

#define D2(o, n, p, pj) \
W void C05_detail_2d_o##o##_n##n##_p##p##pj##__impl(size_t level, int q, int r) noexcept { RF<0, o> u; RF<1, o> d; int s = 2 * q + p, j = 2 * r + pj; compute_detail_op<2, Int>(level, Int{s, s + n}, j)(Dim<2>{}, d, u); } \
W void C05_detail_2d_o##o##_n##n##_p##p##pj##__spec(size_t level, int q, int r) noexcept { int j = 2 * r + pj; for (int e = 0; e < n; ++e) { int s = 2 * q + p + e; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) RF<1>::el(level + 1, 2 * s + a, 2 * j + b) = RF<0>::el(level + 1, 2 * s + a, 2 * j + b) - child2<o, RF<0>>(level, s, j, a, b); \
  if (level >= 1) RF<1>::el(level, s, j) = RF<0>::el(level, s, j) - child2<o, RF<0>>(level - 1, q + ((p + e) >> 1), r, (p + e) & 1, pj); } }
D2(1, 1, 0, 0) D2(1, 1, 1, 1) D2(1, 2, 0, 1)
