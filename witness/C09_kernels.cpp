// ghost formulas of the boundary conditions
#include "wbc.hpp"
using namespace samurai;
template <size_t d, size_t N> std::array<Cell<d, Int>, N> row_cells(size_t lev) { std::array<Cell<d, Int>, N> c; for (size_t k = 0; k < N; ++k) { c[k].index = int(k); c[k].level = lev; } return c; }
template <class B, class F, class V, size_t N> void run(const V& v, size_t lev) {
  const LevelCellArray<F::dim, Int>* dom = nullptr;
  F u;
  B bc(*dom, ConstantBc<F>(), true);
  typename F::cell_t dummy;
  xt::xtensor_fixed<int, xt::xshape<F::dim>> dir; dir.fill(0); dir[0] = 1;
  auto cells = row_cells<F::dim, N>(lev);
  auto f = bc.get_apply_function(std::integral_constant<size_t, N>(), dir);
  f(u, cells, v); }
#define DIR(o) W void C09_dirichlet##o##__impl(double v, size_t lev) { run<DirichletImpl<o, mk::BField<1>>, mk::BField<1>, double, 2 * o>(v, lev); }
DIR(1) DIR(2) DIR(3) DIR(4)
// the ghost values lie on the polynomial of degree `order` through the inner cells (abscissae 0..o-1) and the boundary value at o-1/2 (Lagrange form)
template <int o> double lag(const double* w, double v, double x) {
  double s = 0;
  for (int a = 0; a <= o; ++a) { double xa = a < o ? a : o - 0.5, p = a < o ? w[a] : v; for (int b = 0; b <= o; ++b) if (b != a) { double xb = b < o ? b : o - 0.5; p *= (x - xb) / (xa - xb); } s += p; }
  return s; }
template <int o> void dspec(double v) { double* w = cellv(1); double r[o]; for (int g = 0; g < o; ++g) r[g] = lag<o>(w, v, o + g); for (int g = 0; g < o; ++g) w[o + g] = r[g]; }
#define DSP(o) W void C09_dirichlet##o##__spec(double v, size_t lev) { dspec<o>(v); }
DSP(1) DSP(2) DSP(3) DSP(4)
// vector field: every component separately
W void C09_dirichlet1_vec__impl(double v0, double v1, size_t lev) { using F = mk::BField<2, 2>; typename BcValue<F>::value_t v{v0, v1}; run<DirichletImpl<1, F>, F, typename BcValue<F>::value_t, 2>(v, lev); }
W void C09_dirichlet1_vec__spec(double v0, double v1, size_t lev) { double* w = cellv(1); double a = 2 * v0 - w[0], b = 2 * v1 - w[1]; w[2] = a; w[3] = b; }
W void C09_neumann__impl(double v, size_t lev) { run<NeumannImpl<1, mk::BField<1>>, mk::BField<1>, double, 2>(v, lev); }
W void C09_neumann__spec(double v, size_t lev) { double* w = cellv(1); w[1] = w[0] + mesh_cell_length(lev) * v; }
W void C09_neumann_vec__impl(double v0, double v1, size_t lev) { using F = mk::BField<2, 2>; typename BcValue<F>::value_t v{v0, v1}; run<NeumannImpl<1, F>, F, typename BcValue<F>::value_t, 2>(v, lev); }
W void C09_neumann_vec__spec(double v0, double v1, size_t lev) { double* w = cellv(1); double h = mesh_cell_length(lev); double a = w[0] + h * v0, b = w[1] + h * v1; w[2] = a; w[3] = b; }
#define EX(n) W void C09_extrap##n##__impl(double v, size_t lev) { run<PolynomialExtrapolation<mk::BField<1>, n>, mk::BField<1>, double, n>(v, lev); }
EX(2) EX(4) EX(6)
template <int n> void espec() { double* w = cellv(1); double s = 0; for (int a = 0; a < n - 1; ++a) { double p = w[a]; for (int b = 0; b < n - 1; ++b) if (b != a) p *= double(n - 1 - b) / (a - b); s += p; } w[n - 1] = s; }
#define ES(n) W void C09_extrap##n##__spec(double v, size_t lev) { espec<n>(); }
ES(2) ES(4) ES(6)
// the stencil a condition asks for: the line of 2*order cells around the face, in order, origin = last inner cell
template <class B, class F, size_t N> void stc(int* i_out) { const LevelCellArray<F::dim, Int>* dom = nullptr; B bc(*dom, ConstantBc<F>(), true); auto s = bc.get_stencil(std::integral_constant<size_t, N>()); for (size_t a = 0; a < N; ++a) for (size_t b = 0; b < F::dim; ++b) i_out[a * F::dim + b] = s(a, b); i_out[60] = int(bc.stencil_size()); }
template <size_t d, int N> void stcs(int* i_out) { for (int a = 0; a < N; ++a) for (int b = 0; b < int(d); ++b) i_out[a * int(d) + b] = b == 0 ? a - (N / 2 - 1) : 0; i_out[60] = N; }
#define ST(nm, d, N, ...) W void C09_stencil_##nm##__impl(int* i_out) { using F = mk::BField<d>; stc<__VA_ARGS__, F, N>(i_out); } W void C09_stencil_##nm##__spec(int* i_out) { stcs<d, N>(i_out); }
ST(d1_1, 1, 2, DirichletImpl<1, F>) ST(d1_2, 2, 4, DirichletImpl<2, F>) ST(d3_3, 3, 6, DirichletImpl<3, F>) ST(d4_2, 2, 8, DirichletImpl<4, F>) ST(n_2, 2, 2, NeumannImpl<1, F>) ST(n_3, 3, 2, NeumannImpl<1, F>)
ST(e2, 1, 2, PolynomialExtrapolation<F, 2>) ST(e4, 2, 4, PolynomialExtrapolation<F, 4>) ST(e6, 3, 6, PolynomialExtrapolation<F, 6>)
