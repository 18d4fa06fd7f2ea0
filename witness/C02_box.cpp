#include "vp.hpp"
#include <samurai/box.hpp>
using namespace samurai;
#define DIM(d) \
static Box<double, d> mk##d(const double* a, const double* b) { typename Box<double, d>::point_t p, q; for (int k = 0; k < d; ++k) { p[k] = a[k]; q[k] = b[k]; } return Box<double, d>(p, q); } \
W void C02_box_ctor_##d##d__impl(double* out, const double* a, const double* b) noexcept { auto x = mk##d(a, b); const auto& y = x; for (int k = 0; k < d; ++k) { out[k] = x.min_corner()[k]; out[k + d] = x.max_corner()[k]; out[k + 2 * d] = y.min_corner()[k]; out[k + 3 * d] = y.max_corner()[k]; } } \
W void C02_box_ctor_##d##d__spec(double* out, const double* a, const double* b) noexcept { for (int k = 0; k < d; ++k) { out[k] = out[k + 2 * d] = a[k]; out[k + d] = out[k + 3 * d] = b[k]; } } \
W void C02_box_len_##d##d__impl(double* out, const double* a, const double* b) noexcept { auto x = mk##d(a, b); auto l = xt::eval(x.length()); for (int k = 0; k < d; ++k) out[k] = l[k]; } \
W void C02_box_len_##d##d__spec(double* out, const double* a, const double* b) noexcept { for (int k = 0; k < d; ++k) out[k] = b[k] - a[k]; } \
W double C02_box_minlen_##d##d__impl(const double* a, const double* b) noexcept { auto x = mk##d(a, b); return x.min_length(); } \
W double C02_box_minlen_##d##d__spec(const double* a, const double* b) noexcept { double r = b[0] - a[0]; for (int k = 1; k < d; ++k) r = (b[k] - a[k] < r) ? b[k] - a[k] : r; return r; } \
W bool C02_box_valid_##d##d__impl(const double* a, const double* b) noexcept { return mk##d(a, b).is_valid(); } \
W bool C02_box_valid_##d##d__spec(const double* a, const double* b) noexcept { bool r = true; for (int k = 0; k < d; ++k) r = r && a[k] < b[k]; return r; } \
W void C02_box_scale_##d##d__impl(double* out, const double* a, const double* b, double v) noexcept { auto x = mk##d(a, b) * v; auto z = v * mk##d(a, b); for (int k = 0; k < d; ++k) { out[k] = x.min_corner()[k]; out[k + d] = x.max_corner()[k]; out[k + 2 * d] = z.min_corner()[k]; out[k + 3 * d] = z.max_corner()[k]; } } \
W void C02_box_scale_##d##d__spec(double* out, const double* a, const double* b, double v) noexcept { for (int k = 0; k < d; ++k) { out[k] = out[k + 2 * d] = a[k] * v; out[k + d] = out[k + 3 * d] = b[k] * v; } } \
/* approximate_box with a given subdivision: anchored at the same corner, whole number of subdivisions, encloses the box by less than one subdivision */ \
W void C02_box_approx_##d##d__impl(double* out, const double* a, const double* b, double tol, double pos_sub) noexcept { __builtin_assume(pos_sub > 0); double sub = pos_sub; auto x = approximate_box(mk##d(a, b), tol, sub); for (int k = 0; k < d; ++k) { out[k] = x.min_corner()[k]; out[k + d] = x.max_corner()[k]; } out[2 * d] = sub; } \
W void C02_box_approx_##d##d__spec(double* out, const double* a, const double* b, double tol, double pos_sub) noexcept { for (int k = 0; k < d; ++k) { out[k] = a[k]; out[k + d] = a[k] + std::ceil((b[k] - a[k]) / pos_sub) * pos_sub; } out[2 * d] = pos_sub; }
DIM(1) DIM(2) DIM(3)

// approximate_box choosing the subdivision itself: the shortest side halved until every side is matched within the tolerance
#define APX(nm, d, A, B, C, tol, sub0, sub) \
W void C02_box_auto_##nm##__impl(double* out, const double* a) noexcept { const double len[3] = {A, B, C}; double b[3]; for (int k = 0; k < d; ++k) b[k] = a[k] + len[k]; double s = sub0; auto x = approximate_box(mk##d(a, b), tol, s); for (int k = 0; k < d; ++k) { out[k] = x.min_corner()[k]; out[k + d] = x.max_corner()[k]; } out[2 * d] = s; } \
W void C02_box_auto_##nm##__spec(double* out, const double* a) noexcept { const double len[3] = {A, B, C}; for (int k = 0; k < d; ++k) { out[k] = a[k]; int n = 0; while (n * sub < len[k]) ++n; out[k + d] = a[k] + n * sub; } out[2 * d] = sub; }
APX(1d, 1, 1.5, 0, 0, 0.05, 0, 1.5) APX(square, 2, 2, 2, 0, 0.05, 0, 2) APX(strip, 2, 2.25, 1, 0, 0.0625, 0, 0.25) APX(edge, 2, 2.5, 1, 0, 0.25, 0, 1) APX(loose, 2, 2.5, 1, 0, 0.125, -1, 0.5) APX(box, 3, 1, 1.75, 3, 0.0625, 0, 0.25) APX(tall, 3, 2, 1, 2.5, 0.5, 0, 1)
