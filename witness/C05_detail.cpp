#include "wfield.hpp"
#include <samurai/mr/operators.hpp>
#include "predspec.hpp"
using namespace samurai;
// detail of a cell = its value minus the value predicted from the coarser level; at level + 1 for all children, at level itself when a coarser level exists
#define D1(o, n, p) \
W void C05_detail_1d_o##o##_n##n##_p##p##__impl(size_t level, int q) noexcept { RF<0, o> u; RF<1, o> d; int s = 2 * q + p; compute_detail_op<1, Int>(level, Int{s, s + n})(Dim<1>{}, d, u); } \
W void C05_detail_1d_o##o##_n##n##_p##p##__spec(size_t level, int q) noexcept { for (int e = 0; e < n; ++e) { int s = 2 * q + p + e; for (int a = 0; a < 2; ++a) RF<1>::el(level + 1, 2 * s + a) = RF<0>::el(level + 1, 2 * s + a) - pred1<o, RF<0>>(level, s, a); \
  if (level >= 1) RF<1>::el(level, s) = RF<0>::el(level, s) - pred1<o, RF<0>>(level - 1, q + ((p + e) >> 1), (p + e) & 1); } }
D1(1, 1, 0) D1(1, 1, 1) D1(1, 2, 0) D1(1, 2, 1) D1(2, 1, 0) D1(2, 2, 1)
// largest magnitude per level
W void C05_max_1d__impl(double* mx, size_t level, int s) noexcept { U<1> d; compute_max_detail_op_<1, Int>(level, Int{s, s + 1})(Dim<1>{}, d, mx); }
W void C05_max_1d__spec(double* mx, size_t level, int s) noexcept { double a = U<1>::el(level, s); a = a < 0 ? -a : a; mx[level] = mx[level] < a ? a : mx[level]; }
