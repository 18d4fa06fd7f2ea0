#include "wfield.hpp"
#include <samurai/mr/criteria.hpp>
using namespace samurai;
// in one dimension the details of two siblings are opposite (their mean is the parent)
struct D1 { static constexpr size_t size = 1; static constexpr bool is_soa = false; using S = xt::xtensor_fixed<double, xt::xshape<1>>;
  S operator()(size_t l, const Int& i) const { return S{el(l, i.start)}; }
  static double el(size_t l, int s) { int p = s >> 1; double v = U<1>::el(l, 2 * p); return (s & 1) ? -v : v; } };
static inline double ab(double x) { return __builtin_fabs(x); }
// coarsening: all children of a parent are marked coarsenable exactly when every detail is below the threshold and the level is above the minimum
W void C06_coarsen_1d__impl(size_t level, int s, double eps, size_t lev_min) noexcept { D1 d; FL<0> t; to_coarsen_mr_op<1, Int>(level, Int{s, s + 1})(Dim<1>{}, d, t, eps, lev_min); }
W void C06_coarsen_1d__spec(size_t level, int s, double eps, size_t lev_min) noexcept { if (level + 1 > lev_min && ab(D1::el(level + 1, 2 * s)) < eps) for (int a = 0; a < 2; ++a) FL<0>::el(level + 1, 2 * s + a) = 2; }
W void C06_coarsen_2d__impl(size_t level, int s, int j, double eps, size_t lev_min) noexcept { U<1> d; FL<0> t; to_coarsen_mr_op<2, Int>(level, Int{s, s + 1}, j)(Dim<2>{}, d, t, eps, lev_min); }
W void C06_coarsen_2d__spec(size_t level, int s, int j, double eps, size_t lev_min) noexcept { bool m = level + 1 > lev_min; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) m = m & (ab(U<1>::el(level + 1, 2 * s + a, 2 * j + b)) < eps);
 if (m) for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) FL<0>::el(level + 1, 2 * s + a, 2 * j + b) = 2; }
W void C06_coarsen_3d__impl(size_t level, int s, int j, int k, double eps, size_t lev_min) noexcept { U<1> d; FL<0> t; to_coarsen_mr_op<3, Int>(level, Int{s, s + 1}, j, k)(Dim<3>{}, d, t, eps, lev_min); }
W void C06_coarsen_3d__spec(size_t level, int s, int j, int k, double eps, size_t lev_min) noexcept { bool m = level + 1 > lev_min; for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int c = 0; c < 2; ++c) m = m & (ab(U<1>::el(level + 1, 2 * s + a, 2 * j + b, 2 * k + c)) < eps);
 if (m) for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int c = 0; c < 2; ++c) FL<0>::el(level + 1, 2 * s + a, 2 * j + b, 2 * k + c) = 2; }
// refinement: a large detail of the parent keeps all its children; a large own detail marks the child for refinement unless it is at the maximum level
#define R(dim, ARGS, LOOP, IDX, PIDX, CTOR) \
W void C06_refine_##dim##d__impl ARGS noexcept { WF<double, 1, dim> d; WF<int, 0, dim> t; to_refine_mr_op<dim, Int> CTOR (Dim<dim>{}, d, t, eps, lev_max); } \
W void C06_refine_##dim##d__spec ARGS noexcept { bool g = ab(U<1>::el PIDX) > eps / (1 << dim); LOOP { if (g) FL<0>::el IDX |= 1; if (level + 1 < lev_max && ab(U<1>::el IDX) > eps) FL<0>::el IDX = 4; } }
#define L1 for (int a = 0; a < 2; ++a)
#define L2 L1 for (int b = 0; b < 2; ++b)
#define L3 L2 for (int c = 0; c < 2; ++c)
R(1, (size_t level, int s, double eps, size_t lev_max), L1, (level + 1, 2 * s + a), (level, s), (level, Int{s, s + 1}))
R(2, (size_t level, int s, int j, double eps, size_t lev_max), L2, (level + 1, 2 * s + a, 2 * j + b), (level, s, j), (level, Int{s, s + 1}, Y1{j}))
R(3, (size_t level, int s, int j, int k, double eps, size_t lev_max), L3, (level + 1, 2 * s + a, 2 * j + b, 2 * k + c), (level, s, j, k), (level, Int{s, s + 1}, Y2{j, k}))
