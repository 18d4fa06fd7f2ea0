// FLAGS: -fno-access-control -DFLUX_CONTAINER_xtensor
// PARTS: 4
// cell-based operators, and the equations of the boundary ghosts
#include "mkflux.hpp"
#include <samurai/schemes/fv.hpp>
extern "C" {
double wgt(int i) PURE; double cell_len() PURE; double bval(int i) PURE; double ug(int x, int y, int z, int j) PURE;
}
using namespace samurai;
template <size_t d, size_t n> using F = Field<mk::QMesh<d, 1, 1>, double, n, false>;
template <class Fn> struct Hold { using T = decltype(std::declval<Fn>()()); alignas(T) unsigned char b[sizeof(T)]; Hold(Fn f) { new (b) T(f()); } T& get() { return *reinterpret_cast<T*>(b); } };
template <class A> double item(const A& a, size_t i, size_t j) { if constexpr (std::is_floating_point_v<A>) return a; else return a(i, j); }
// what a cell-based scheme computes at the origin from the neighbours (center = offset of the cell the result belongs to)
template <class S> double cellv(S& s) { using cfg = typename S::cfg_t; constexpr size_t d = cfg::input_field_t::dim, sz = cfg::stencil_size, no = cfg::output_field_size, ni = cfg::input_field_t::size; double r = 0; auto q = s.coefficients(cell_len());
  int c0[3] = {0, 0, 0}; for (size_t k = 0; k < d; ++k) c0[k] = s.stencil()(cfg::center_index, k);
  for (size_t c = 0; c < sz; ++c) { int p[3] = {0, 0, 0}; for (size_t k = 0; k < d; ++k) p[k] = s.stencil()(c, k) - c0[k]; for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < ni; ++j) r += wgt(int(i)) * item(q[c], i, j) * ug(p[0], p[1], p[2], int(j)); }
  return r; }
#define OB(nm, make, ...) W double C12_##nm##__impl() { auto mk_ = [&] { return make; }; Hold<decltype(mk_)> s(mk_); return cellv(s.get()); } W double C12_##nm##__spec() { double r = 0; __VA_ARGS__; return r; }
#define ID(D, N) OB(identity_##D##N, (make_identity<F<D, N>>()), for (int i = 0; i < N; ++i) r += wgt(i) * ug(0, 0, 0, i))
#define ZE(D, N) OB(zero_##D##N, (make_zero_operator<F<D, N>>()), ;)
#define OLD(D, N) OB(diffusion_star_##D##N, (make_diffusion_old<F<D, N>>()), for (int i = 0; i < N; ++i) for (int k = 0; k < D; ++k) { int e[3] = {k == 0, k == 1, k == 2}; r += wgt(i) * (2 * ug(0, 0, 0, i) - ug(e[0], e[1], e[2], i) - ug(-e[0], -e[1], -e[2], i)) / (cell_len() * cell_len()); })
#if VP_PART == 0
ID(1, 1) ID(2, 1) ID(2, 2) ID(3, 3) ZE(1, 1) ZE(2, 2) OLD(1, 1) OLD(2, 1) OLD(3, 1) OLD(2, 2)
#endif
// the ghost value the equation of the boundary in direction e prescribes, with the inner values and the boundary value given
template <class C, size_t d, size_t n> double ghost(const C& c, const DirectionVector<d>& e, int* ok) {
  auto& q = c.equations[0]; auto co = q.get_stencil_coeffs(cell_len()); auto rh = q.get_rhs_coeffs(cell_len()); double r = 0; size_t g = q.ghost_index;
  for (size_t k = 0; k < d; ++k) if (c.directional_stencil.direction(k) != e(k) || c.directional_stencil.stencil(g, k) != e(k)) *ok = 0;
  for (size_t i = 0; i < n; ++i) { double s = 0; for (size_t j = 0; j < n; ++j) { s += item(rh, i, j) * bval(int(j)); for (size_t x = 0; x < 3; ++x) { int p[3] = {0, 0, 0}; for (size_t k = 0; k < d; ++k) p[k] = c.directional_stencil.stencil(x, k); if (x != g) s -= item(co[x], i, j) * ug(p[0], p[1], p[2], int(j)); else if (i != j && item(co[x], i, j) != 0) *ok = 0; } } r += wgt(int(i)) * s / item(co[g], i, i); }
  return r; }
template <size_t d> DirectionVector<d> dir(int k, int s) { DirectionVector<d> e; for (size_t q = 0; q < d; ++q) e(q) = int(q) == k ? s : 0; return e; }
#define BC(nm, make, D, N, K, SG) \
  W double C12_dirichlet_##nm##__impl() { auto mk_ = [&] { return make; }; Hold<decltype(mk_)> s(mk_); int ok = 1; auto e = dir<D>(K, SG); double r = ghost<std::decay_t<decltype(std::as_const(s.get()).dirichlet_config(e))>, D, N>(std::as_const(s.get()).dirichlet_config(e), e, &ok); return ok ? r : -1; } \
  W double C12_dirichlet_##nm##__spec() { double r = 0; for (int i = 0; i < N; ++i) r += wgt(i) * (2 * bval(i) - ug(0, 0, 0, i)); return r; } \
  W double C12_neumann_##nm##__impl() { auto mk_ = [&] { return make; }; Hold<decltype(mk_)> s(mk_); int ok = 1; auto e = dir<D>(K, SG); double r = ghost<std::decay_t<decltype(std::as_const(s.get()).neumann_config(e))>, D, N>(std::as_const(s.get()).neumann_config(e), e, &ok); return ok ? r : -1; } \
  W double C12_neumann_##nm##__spec() { double r = 0; for (int i = 0; i < N; ++i) r += wgt(i) * (ug(0, 0, 0, i) + cell_len() * bval(i)); return r; }
#if VP_PART == 1
BC(identity1l, (make_identity<F<1, 1>>()), 1, 1, 0, -1) BC(identity2r, (make_identity<F<2, 1>>()), 2, 1, 0, 1) BC(identity2t, (make_identity<F<2, 2>>()), 2, 2, 1, 1) BC(identity3b, (make_identity<F<3, 1>>()), 3, 1, 2, -1) BC(divergence, (make_divergence_order2<F<1, 1>>()), 1, 1, 0, 1)
#endif
#if VP_PART == 2
BC(diffusion1, (make_diffusion_order2<F<1, 1>>()), 1, 1, 0, 1) BC(diffusion2l, (make_diffusion_order2<F<2, 1>>()), 2, 1, 0, -1) BC(diffusion2b, (make_diffusion_order2<F<2, 2>>()), 2, 2, 1, -1) BC(diffusion3, (make_diffusion_order2<F<3, 1>>()), 3, 1, 2, 1)
#endif
#if VP_PART == 3
BC(star1, (make_diffusion_old<F<1, 1>>()), 1, 1, 0, 1) BC(star2, (make_diffusion_old<F<2, 1>>()), 2, 1, 1, 1) BC(star2v, (make_diffusion_old<F<2, 2>>()), 2, 2, 0, -1)
// the ghost equations of the diffusion keep the matrix symmetric: coefficient of the inner cell = coefficient of the ghost in the inner cell's row
#define SY(nm, make) W double C12_symmetric_##nm##__impl() { auto mk_ = [&] { return make; }; Hold<decltype(mk_)> s(mk_); auto& d = std::as_const(s.get()).dirichlet_config(dir<2>(1, 1)); auto& n = std::as_const(s.get()).neumann_config(dir<2>(1, 1)); double h = cell_len(); auto cd = d.equations[0].get_stencil_coeffs(h), cn = n.equations[0].get_stencil_coeffs(h); return cd[0] * 3 + cn[0]; } \
  W double C12_symmetric_##nm##__spec() { double h = cell_len(); return -4 / (h * h); }
SY(diffusion, (make_diffusion_order2<F<2, 1>>())) SY(star, (make_diffusion_old<F<2, 1>>()))
#endif
