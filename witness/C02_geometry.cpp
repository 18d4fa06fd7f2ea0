#include "vp.hpp"
#include <samurai/box.hpp>
using namespace samurai;
template <size_t d> using C = Cell<d, Int>;
struct CI { double o[3]; double s; size_t level; int i[3]; long idx; };
template <size_t d> static C<d> mk(const double* o, double s, size_t level, const int* i, long idx) {
  typename C<d>::coords_t oo; typename C<d>::indices_t ii; for (size_t k = 0; k < d; ++k) { oo[k] = o[k]; ii[k] = i[k]; } return C<d>(oo, s, level, ii, idx); }
template <size_t d> static C<d> mk2(const double* o, double s, size_t level, const int* i, long idx) {
  typename C<d>::coords_t oo; xt::xtensor_fixed<int, xt::xshape<d - 1>> ii; for (size_t k = 0; k < d; ++k) { oo[k] = o[k]; } for (size_t k = 1; k < d; ++k) ii[k - 1] = i[k];
  return C<d>(oo, s, level, i[0], ii, idx); }
static double len(double s, size_t level) { return s / (double)(1L << level); }
#define A const double* o, double s, size_t level, const int* i_i, long idx
#define B o, s, level, i_i, idx
W double C02_cell_length__impl(double s, size_t level) noexcept { return cell_length(s, level); }
W double C02_cell_length__spec(double s, size_t level) noexcept { return len(s, level); }
W bool C02_cell_length_half__true(double s, size_t level) noexcept { return cell_length(s, level + 1) == cell_length(s, level) / 2; }
#define DIM(d) \
W void C02_ctor_##d##d__impl(double* out, int* i_out, A) noexcept { auto c = mk<d>(B); for (int k = 0; k < d; ++k) { out[k] = c.origin_point[k]; i_out[k] = c.indices[k]; } out[d] = c.length; i_out[d] = c.level; i_out[d + 1] = c.index; } \
W void C02_ctor_##d##d__spec(double* out, int* i_out, A) noexcept { for (int k = 0; k < d; ++k) { out[k] = o[k]; i_out[k] = i_i[k]; } out[d] = len(s, level); i_out[d] = level; i_out[d + 1] = idx; } \
W void C02_ctorb_##d##d__impl(double* out, int* i_out, A) noexcept { auto c = mk2<d>(B); for (int k = 0; k < d; ++k) { out[k] = c.origin_point[k]; i_out[k] = c.indices[k]; } out[d] = c.length; i_out[d] = c.level; i_out[d + 1] = c.index; } \
W void C02_ctorb_##d##d__spec(double* out, int* i_out, A) noexcept { for (int k = 0; k < d; ++k) { out[k] = o[k]; i_out[k] = i_i[k]; } out[d] = len(s, level); i_out[d] = level; i_out[d + 1] = idx; } \
W void C02_corner_##d##d__impl(double* out, A) noexcept { auto c = mk<d>(B); auto r = c.corner(); for (int k = 0; k < d; ++k) { out[k] = r[k]; out[k + d] = c.corner(k); } } \
W void C02_corner_##d##d__spec(double* out, A) noexcept { for (int k = 0; k < d; ++k) out[k] = out[k + d] = o[k] + len(s, level) * i_i[k]; } \
W void C02_center_##d##d__impl(double* out, A) noexcept { auto c = mk<d>(B); auto r = c.center(); for (int k = 0; k < d; ++k) { out[k] = r[k]; out[k + d] = c.center(k); } } \
W void C02_center_##d##d__spec(double* out, A) noexcept { for (int k = 0; k < d; ++k) out[k] = out[k + d] = o[k] + len(s, level) * (i_i[k] + 0.5); } \
W void C02_face_##d##d__impl(double* out, const int* i_v, A) noexcept { auto c = mk<d>(B); IX<d> w; for (int k = 0; k < d; ++k) w[k] = i_v[k]; auto r = c.face_center(w); for (int k = 0; k < d; ++k) out[k] = r[k]; } \
W void C02_face_##d##d__spec(double* out, const int* i_v, A) noexcept { for (int k = 0; k < d; ++k) out[k] = o[k] + len(s, level) * (i_i[k] + 0.5) + 0.5 * len(s, level) * i_v[k]; } \
W bool C02_eq_##d##d__impl(const double* o, double s, size_t level, const int* i_i, long idx, double s2, size_t level2, const int* i_i2, long idx2) noexcept { return mk<d>(o, s, level, i_i, idx) == mk<d>(o, s2, level2, i_i2, idx2); } \
W bool C02_eq_##d##d__spec(const double* o, double s, size_t level, const int* i_i, long idx, double s2, size_t level2, const int* i_i2, long idx2) noexcept { bool r = level == level2 && idx == idx2 && len(s, level) == len(s2, level2); for (int k = 0; k < d; ++k) r = r && i_i[k] == i_i2[k]; return r; } \
W bool C02_ne_##d##d__true(const double* o, double s, size_t level, const int* i_i, long idx, double s2, size_t level2, const int* i_i2, long idx2) noexcept { auto a = mk<d>(o, s, level, i_i, idx), b = mk<d>(o, s2, level2, i_i2, idx2); return (a != b) == !(a == b); }
DIM(1) DIM(2) DIM(3)
/* the 2^d children of a cell tile it exactly */
W bool C02_children_1d__true(A) noexcept { auto c = mk<1>(B); bool ok = true; for (int a = 0; a < 2; ++a) { int j[1] = {2 * i_i[0] + a}; auto k = mk<1>(o, s, level + 1, j, 0); ok = ok && k.length * 2 == c.length && k.corner(0) == c.corner(0) + a * k.length; } return ok; }
W bool C02_children_2d__true(A) noexcept { auto c = mk<2>(B); bool ok = true; for (int a = 0; a < 4; ++a) { int j[2] = {2 * i_i[0] + (a & 1), 2 * i_i[1] + (a >> 1)}; auto k = mk<2>(o, s, level + 1, j, 0); ok = ok && k.length * 2 == c.length && k.corner(0) == c.corner(0) + (a & 1) * k.length && k.corner(1) == c.corner(1) + (a >> 1) * k.length; } return ok; }
