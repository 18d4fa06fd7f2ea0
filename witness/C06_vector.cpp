// PARTS: 2
#include "wfield.hpp"
#include <samurai/mr/criteria.hpp>
using namespace samurai;
static inline double ab(double x) { return __builtin_fabs(x); }
#define L1 for (int a = 0; a < 2; ++a)
#define L2 L1 for (int b = 0; b < 2; ++b)
#define L3 L2 for (int e = 0; e < 2; ++e)
#define I1 2 * s + a
#define I2 I1, 2 * j + b
#define I3 I2, 2 * k + e
#define M1 s
#define M2 s, j
#define M3 s, j, k
#define P1 size_t level, int s
#define P2 P1, int j
#define P3 P2, int k
#define K1 (level, Int{s, s + 1})
#define K2 (level, Int{s, s + 1}, Y1{j})
#define K3 (level, Int{s, s + 1}, Y2{j, k})
// fields with several components: every component of every child must be small to coarsen, any large component refines
#define T(name, soa, d, nc, Det) \
W void C06_coarsen_##d##d_vec_##name##__impl(P##d, double eps, size_t lev_min) noexcept { Det<1, soa, d, nc> f; WF<int, 0, d> t; to_coarsen_mr_op<d, Int> K##d (Dim<d>{}, f, t, eps, lev_min); } \
W void C06_coarsen_##d##d_vec_##name##__spec(P##d, double eps, size_t lev_min) noexcept { bool m = level + 1 > lev_min; for (int c = 0; c < nc; ++c) L##d m = m & (ab(Det<1, soa, d, nc>::el(c, level + 1, I##d)) < eps); if (m) L##d FL<0>::el(level + 1, I##d) = 2; } \
W void C06_refine_##d##d_vec_##name##__impl(P##d, double eps, size_t lev_max) noexcept { VF<1, soa, d, nc> f; WF<int, 0, d> t; to_refine_mr_op<d, Int> K##d (Dim<d>{}, f, t, eps, lev_max); } \
W void C06_refine_##d##d_vec_##name##__spec(P##d, double eps, size_t lev_max) noexcept { using V = VF<1, soa, d, nc>; bool g = false; for (int c = 0; c < nc; ++c) g = g | (ab(V::el(c, level, M##d)) > eps / (1 << d)); \
  L##d { if (g) FL<0>::el(level + 1, I##d) |= 1; bool m = false; for (int c = 0; c < nc; ++c) m = m | (ab(V::el(c, level + 1, I##d)) > eps); if (level + 1 < lev_max && m) FL<0>::el(level + 1, I##d) = 4; } }
// in one dimension the details of two siblings are opposite
template <int id, bool soa, size_t dmax, size_t nc> struct O1 { static constexpr size_t size = nc; static constexpr bool is_soa = soa; using value_type = double; using V = VF<id, soa, dmax, nc>; using S = typename V::S;
  S operator()(size_t l, const Int& i) const { S r; for (size_t c = 0; c < nc; ++c) (soa ? r(c, 0) : r(0, c)) = el(int(c), l, i.start); return r; }
  static double el(int c, size_t l, int s) { double v = V::el(c, l, 2 * (s >> 1)); return (s & 1) ? -v : v; } };
#if VP_PART == 0
T(aos, false, 2, 2, VF) T(soa, true, 2, 2, VF) T(aos1, false, 1, 3, O1) T(soa1, true, 1, 2, O1)
#endif
#if VP_PART == 1
T(aos3, false, 2, 3, VF) T(soa3, true, 2, 3, VF) T(aosd, false, 3, 2, VF) T(soad, true, 3, 3, VF)
#endif
