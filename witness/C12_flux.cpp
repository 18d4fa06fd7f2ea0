// FLAGS: -fno-access-control -DFLUX_CONTAINER_xtensor
// PARTS: 9
// discrete operators: the normal flux every make_* function defines, through the right face of the generic cell (x, y, z)
#include "mkflux.hpp"
#include <samurai/schemes/fv.hpp>
extern "C" {
double kval(long long index, int comp) PURE;
double wgt(int i) PURE;
double dirw(int k) PURE;
double par(int k) PURE;
double cell_len() PURE;
int at_level() PURE; int at_x() PURE; int at_y() PURE; int at_z() PURE;
}
using namespace samurai;
template <size_t d, size_t n> using F = Field<mk::QMesh<d, 1, 1>, double, n, false>;
// a field of coefficients (velocity or diffusion tensor), read by cell
template <size_t d, size_t n> struct KF { static constexpr size_t dim = d, size = n; using V = xt::xtensor_fixed<double, xt::xshape<n>>; using value_type = double; V operator[](const Cell<d, mk::Iv>& c) const { V v; for (size_t k = 0; k < n; ++k) v(k) = kval(c.index, int(k)); return v; } };
template <size_t d> struct KT { static constexpr size_t dim = d, size = 1; using V = DiffCoeff<d>; using value_type = V; V operator[](const Cell<d, mk::Iv>& c) const { V v; for (size_t k = 0; k < d; ++k) v(k) = kval(c.index, int(k)); return v; } };
template <class Fn> struct Hold { using T = decltype(std::declval<Fn>()()); alignas(T) unsigned char b[sizeof(T)]; Hold(Fn f) { new (b) T(f()); } T& get() { return *reinterpret_cast<T*>(b); } };
template <class A> double item(const A& a, size_t i, size_t j) { if constexpr (std::is_floating_point_v<A>) return a; else return a(i, j); }
template <class A> double item(const A& a, size_t i) { if constexpr (std::is_floating_point_v<A>) return a; else return a(i); }
// the normal flux of the scheme in direction k as a function of the unknowns
template <class S> double flux(S& s, size_t k) {
  using cfg = typename S::cfg_t; constexpr size_t d = cfg::dim, sz = cfg::stencil_size, no = cfg::output_field_size; using f_t = typename cfg::input_field_t; constexpr size_t ni = f_t::size; using C = Cell<d, mk::Iv>;
  auto& fd = s.flux_definition()[k]; std::array<C, sz> cells; double r = 0;
  int b[3] = {at_x(), at_y(), at_z()};
  for (size_t c = 0; c < sz; ++c) { int p[3] = {0, 0, 0}; for (size_t q = 0; q < d; ++q) { p[q] = b[q] + fd.stencil(c, q); cells[c].indices[q] = p[q]; } cells[c].level = size_t(at_level()); cells[c].length = cell_len(); cells[c].index = YF<d, 1, 1>::idx(at_level(), p[0], p[1], p[2]); }
  typename f_t::mesh_t m; f_t f(m);
  for (size_t q = 0; q < d; ++q) r += dirw(int(q)) * fd.direction(q);
  if constexpr (cfg::scheme_type == SchemeType::NonLinear) { auto v = fd.cons_flux_function(cells, f); for (size_t i = 0; i < no; ++i) r += wgt(int(i)) * item(v, i); }
  else { auto q = [&] { if constexpr (cfg::scheme_type == SchemeType::LinearHomogeneous) return fd.cons_flux_function(cell_len()); else return fd.cons_flux_function(cells); }();
    for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < ni; ++j) r += wgt(int(i)) * item(q[c], i, j) * uidx(cells[c].index, int(j)); }
  return r; }
// index of the cell at offset o in direction k
template <size_t d> long long ci(int k, int o) { return YF<d, 1, 1>::idx(at_level(), at_x() + (k == 0) * o, at_y() + (d > 1 && k == 1) * o, d > 2 ? at_z() + (k == 2) * o : 0); }
template <> long long ci<1>(int k, int o) { return YF<1, 1, 1>::idx(at_level(), at_x() + o, 0, 0); }
template <size_t d> VelocityVector<d> vec() { VelocityVector<d> v; for (size_t k = 0; k < d; ++k) v(k) = par(int(k)); return v; }
static double up(double v, double l, double r) { return v >= 0 ? v * l : v * r; }
#define OB(nm, make, k, ...) W double C12_##nm##__impl() { auto mk_ = [&] { return make; }; Hold<decltype(mk_)> s(mk_); return flux(s.get(), k); } W double C12_##nm##__spec() { double r = dirw(k); __VA_ARGS__; return r; }
#define C_ wgt(i)
#define U(o, j) uidx(ci<D>(K, o), j)
#define DIFF(D_, N_, K_) OB(diffusion_##D_##N_##K_, (make_diffusion_order2<F<D_, N_>>(vec<D_>())), K_, constexpr int D = D_, K = K_; for (int i = 0; i < N_; ++i) r -= wgt(i) * par(K) * (U(1, i) - U(0, i)) / cell_len())
#define DIFFS(D_, N_, K_) OB(diffusion_same_##D_##N_##K_, (make_diffusion_order2<F<D_, N_>>(par(0))), K_, constexpr int D = D_, K = K_; for (int i = 0; i < N_; ++i) r -= wgt(i) * par(0) * (U(1, i) - U(0, i)) / cell_len())
#define DIFF1(D_, N_, K_) OB(diffusion_unit_##D_##N_##K_, (make_diffusion_order2<F<D_, N_>>()), K_, constexpr int D = D_, K = K_; for (int i = 0; i < N_; ++i) r -= wgt(i) * (U(1, i) - U(0, i)) / cell_len())
#define LAPL(D_, N_, K_) OB(laplacian_##D_##N_##K_, (make_laplacian_order2<F<D_, N_>>()), K_, constexpr int D = D_, K = K_; for (int i = 0; i < N_; ++i) r += wgt(i) * (U(1, i) - U(0, i)) / cell_len())
#define MDIFF(D_, N_, K_) OB(multi_diffusion_##D_##N_##K_, (make_multi_diffusion_order2<F<D_, N_>>(vec<N_>())), K_, constexpr int D = D_, K = K_; for (int i = 0; i < N_; ++i) r -= wgt(i) * par(i) * (U(1, i) - U(0, i)) / cell_len())
#define HDIFF(D_, N_, K_) OB(het_diffusion_##D_##N_##K_, (make_diffusion_order2<F<D_, N_>>(kt<D_>)), K_, constexpr int D = D_, K = K_; for (int i = 0; i < N_; ++i) r -= wgt(i) * kval(ci<D>(K, 0), K) * (U(1, i) - U(0, i)) / cell_len())
#define GRAD(D_, K_) OB(gradient_##D_##K_, (make_gradient_order2<F<D_, 1>>()), K_, constexpr int D = D_, K = K_; r += wgt(K) * (U(0, 0) + U(1, 0)) / 2)
#define DIV(D_, K_) OB(divergence_##D_##K_, (make_divergence_order2<F<D_, D_>>()), K_, constexpr int D = D_, K = K_; r += wgt(0) * (U(0, K) + U(1, K)) / 2)
#define UPC(D_, N_, K_) OB(upwind_const_##D_##N_##K_, (make_convection_upwind<F<D_, N_>>(vec<D_>())), K_, constexpr int D = D_, K = K_; for (int i = 0; i < N_; ++i) r += wgt(i) * up(par(K), U(0, i), U(1, i)))
#define UPF(D_, N_, K_) OB(upwind_field_##D_##N_##K_, (make_convection_upwind<F<D_, N_>>(kf<D_>)), K_, constexpr int D = D_, K = K_; for (int i = 0; i < N_; ++i) r += wgt(i) * up(kval(ci<D>(K, 0), K), U(0, i), U(1, i)))
#define UPN(D_, N_, K_) OB(upwind_nonlin_##D_##N_##K_, (make_convection_upwind<F<D_, N_>>()), K_, constexpr int D = D_, K = K_, E = N_ == 1 ? 0 : K_; for (int i = 0; i < N_; ++i) r += wgt(i) * (U(0, E) >= 0 ? U(0, E) * U(0, i) : U(1, E) * U(1, i)))
template <size_t d> KT<d> kt; template <size_t d> KF<d, d> kf;
#if VP_PART == 0
DIFF(1, 1, 0) DIFF(2, 1, 0) DIFF(2, 1, 1) DIFF(3, 1, 2) DIFF(2, 2, 1) DIFF(3, 2, 1) DIFFS(2, 1, 1) DIFFS(1, 2, 0) DIFF1(2, 1, 0) DIFF1(3, 1, 1) LAPL(1, 1, 0) LAPL(2, 2, 1)
#endif
#if VP_PART == 1
MDIFF(1, 1, 0) MDIFF(2, 2, 0) MDIFF(2, 2, 1) MDIFF(3, 3, 2) MDIFF(2, 3, 1) HDIFF(1, 1, 0) HDIFF(2, 1, 0) HDIFF(2, 1, 1) HDIFF(2, 2, 1) HDIFF(3, 1, 2)
#endif
#if VP_PART == 2
GRAD(1, 0) GRAD(2, 0) GRAD(2, 1) GRAD(3, 1) GRAD(3, 2) DIV(1, 0) DIV(2, 0) DIV(2, 1) DIV(3, 0) DIV(3, 2)
#endif
#if VP_PART == 3
UPC(1, 1, 0) UPC(2, 1, 0) UPC(2, 1, 1) UPC(3, 1, 2) UPC(2, 2, 0) UPC(2, 2, 1) UPC(3, 2, 1) UPF(1, 1, 0) UPF(2, 1, 0) UPF(2, 1, 1) UPF(2, 2, 1) UPF(3, 1, 2)
#endif
#if VP_PART == 4
UPN(1, 1, 0) UPN(2, 1, 1) UPN(2, 2, 0) UPN(2, 2, 1) UPN(3, 3, 2)
#endif
// ---- WENO5 (Jiang and Shu): candidate fluxes weighted by their smoothness
static double sq(double x) { return x * x; }
static double jiang_shu(double a, double b, double c, double d, double e) {
  double q0 = (2 * a - 7 * b + 11 * c) / 6, q1 = (-b + 5 * c + 2 * d) / 6, q2 = (2 * c + 5 * d - e) / 6;
  double s0 = 13. / 12 * sq(a - 2 * b + c) + sq(a - 4 * b + 3 * c) / 4, s1 = 13. / 12 * sq(b - 2 * c + d) + sq(b - d) / 4, s2 = 13. / 12 * sq(c - 2 * d + e) + sq(3 * c - 4 * d + e) / 4;
  double w0 = 0.1 / sq(1e-6 + s0), w1 = 0.6 / sq(1e-6 + s1), w2 = 0.3 / sq(1e-6 + s2);
  return (w0 * q0 + w1 * q1 + w2 * q2) / (w0 + w1 + w2); }
template <int D, int K> static double wn(double v, int i) { return v >= 0 ? jiang_shu(v * U(-2, i), v * U(-1, i), v * U(0, i), v * U(1, i), v * U(2, i)) : jiang_shu(v * U(3, i), v * U(2, i), v * U(1, i), v * U(0, i), v * U(-1, i)); }
template <int D, int K, int E> static double wnn(double v, int i) { auto g = [&](int o) { return U(o, E) * U(o, i); }; return v >= 0 ? jiang_shu(g(-2), g(-1), g(0), g(1), g(2)) : jiang_shu(g(3), g(2), g(1), g(0), g(-1)); }
#define WC(D_, N_, K_) OB(weno_const_##D_##N_##K_, (make_convection_weno5<F<D_, N_>>(vec<D_>())), K_, for (int i = 0; i < N_; ++i) r += wgt(i) * wn<D_, K_>(par(K_), i))
#define WF_(D_, N_, K_) OB(weno_field_##D_##N_##K_, (make_convection_weno5<F<D_, N_>>(kf<D_>)), K_, for (int i = 0; i < N_; ++i) r += wgt(i) * wn<D_, K_>(kval(ci<D_>(K_, 0), K_), i))
#define WN(D_, N_, K_) OB(weno_nonlin_##D_##N_##K_, (make_convection_weno5<F<D_, N_>>()), K_, constexpr int D = D_, K = K_, E = N_ == 1 ? 0 : K_; for (int i = 0; i < N_; ++i) r += wgt(i) * wnn<D, K, E>(U(0, E), i))
#if VP_PART == 5
WC(1, 1, 0) WC(2, 1, 0) WC(2, 1, 1) WC(3, 1, 2) WC(2, 2, 1)
#endif
#if VP_PART == 6
WF_(1, 1, 0) WF_(2, 1, 0) WF_(2, 1, 1) WF_(3, 1, 2) WF_(2, 2, 1)
#endif
#if VP_PART == 7
WN(1, 1, 0) WN(2, 1, 1) WN(2, 2, 0) WN(2, 2, 1) WN(3, 1, 2)
#endif
// the parameters are copied: changing the caller's vector after the scheme was built changes nothing
#define LT(nm, call, N, k, ...) W double C12_param_##nm##__impl() { auto v = vec<N>(); auto mk_ = [&] { return call; }; Hold<decltype(mk_)> s(mk_); for (int i = 0; i < N; ++i) v(i) = par(10 + i); return flux(s.get(), k); } W double C12_param_##nm##__spec() { double r = dirw(k); __VA_ARGS__; return r; }
#if VP_PART == 8
LT(upwind2, (make_convection_upwind<F<2, 1>>(v)), 2, 1, constexpr int D = 2, K = 1; r += wgt(0) * up(par(1), U(0, 0), U(1, 0)))
LT(upwind1, (make_convection_upwind<F<1, 2>>(v)), 1, 0, constexpr int D = 1, K = 0; for (int i = 0; i < 2; ++i) r += wgt(i) * up(par(0), U(0, i), U(1, i)))
LT(weno2, (make_convection_weno5<F<2, 1>>(v)), 2, 0, r += wgt(0) * wn<2, 0>(par(0), 0))
LT(diffusion2, (make_diffusion_order2<F<2, 1>>(v)), 2, 1, constexpr int D = 2, K = 1; r -= wgt(0) * par(1) * (U(1, 0) - U(0, 0)) / cell_len())
LT(multi2, (make_multi_diffusion_order2<F<2, 2>>(v)), 2, 0, constexpr int D = 2, K = 0; for (int i = 0; i < 2; ++i) r -= wgt(i) * par(i) * (U(1, i) - U(0, i)) / cell_len())
#endif
