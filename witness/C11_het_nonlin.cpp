// FLAGS: -fno-access-control -isystem $VERIF/witness/stub/omp
// PARTS: 6
// heterogeneous and nonlinear fluxes: what every face adds to its two cells
#if VP_PART == 2 || VP_PART == 5
#define MK_LEN 4
#define MK_X0(L) (2 * probe(0, L))
#endif
#if VP_PART == 5
#define SAMURAI_WITH_OPENMP
#endif
#if VP_PART == 4
#define FLUX_CONTAINER_array
#else
#define FLUX_CONTAINER_xtensor
#endif
#include "mkflux.hpp"
#include <samurai/schemes/fv.hpp>
extern "C" {
double coefh(int dir, int c, int i, int j, double cells) PURE;
double fluxn(int dir, int side, int i, double cells) PURE;
double jac(int dir, int side, int c, int i, int j, double cells) PURE;
double ccell(int level, int x, int y, int z, long long index, double length) PURE;
double sig(double s, double cell) PURE;
double dcoef(long long index, int i, long long col, int j) PURE;
}
using namespace samurai;
template <class A> double all(const A& a) { double s = 0; for (auto& c : a) { int p[3] = {0, 0, 0}; for (size_t k = 0; k < std::decay_t<decltype(c)>::dim; ++k) p[k] = c.indices[k]; s = sig(s, ccell(int(c.level), p[0], p[1], p[2], c.index, c.length)); } return s; }
template <size_t d, int MN, int MX, size_t ni, size_t no, size_t sz> struct T {
  using M = mk::QMesh<d, MN, MX>; using F = Field<M, double, ni, false>; using G = Field<M, double, no, false>; using Z = YF<d, MN, MX>;
  static double cells(int k, int L, int x, int y, int z) { double s = 0; for (int c = 0; c < int(sz); ++c) { int o = c + 1 - int(sz) / 2, X = x + (k == 0) * o, Y = y + (k == 1) * o, Q = z + (k == 2) * o; s = sig(s, ccell(L, X, Y, Q, Z::idx(L, X, Y, Q), mesh_cell_length(size_t(L)))); } return s; }
  static long long col(int k, int c, int L, int x, int y, int z) { int o = c + 1 - int(sz) / 2; return Z::idx(L, x + (k == 0) * o, y + (k == 1) * o, z + (k == 2) * o); }
  // linear, coefficients depending on the cells
  using hcfg = FluxConfig<SchemeType::LinearHeterogeneous, no, sz, F>;
  template <int k> static FluxStencilCoeffs<hcfg> co(StencilCells<hcfg>& cs) { FluxStencilCoeffs<hcfg> r; for (size_t c = 0; c < sz; ++c) { if constexpr (ni == 1 && no == 1) r[c] = coefh(k, int(c), 0, 0, all(cs)); else for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < ni; ++j) r[c](i, j) = coefh(k, int(c), int(i), int(j), all(cs)); } return r; }
  static double het_impl(int k, bool bd) {
    M m; F f(m); G g(m); mk::NoDtor<FluxDefinition<hcfg>> fd; fd.get()[0].cons_flux_function = co<0>; if constexpr (d > 1) fd.get()[1].cons_flux_function = co<1>; if constexpr (d > 2) fd.get()[2].cons_flux_function = co<2>;
    mk::NoDtor<FluxBasedScheme<hcfg, BoundaryConfigFV<1>>> s(fd.get()); s.get().include_boundary_fluxes(bd);
    auto ex = make_explicit(s.get()); ex.apply(size_t(k), g, f); return g.acc; }
  static double het_spec(int k, bool bd) {
    auto flux = [&](int L, int x, int y, int z, int side, int i) { double s = 0; for (int c = 0; c < int(sz); ++c) for (int j = 0; j < int(ni); ++j) s += coefh(k, c, i, j, cells(k, L, x, y, z)) * uidx(col(k, c, L, x, y, z), j); return side ? -s : s; };
    return Z::interior(k, int(no), flux) + (bd ? Z::border(k, int(no), flux) : 0); }
  // nonlinear, conservative or with one value per side
  using ncfg = FluxConfig<SchemeType::NonLinear, no, sz, F>;
  template <int k> static FluxValue<ncfg> fl(StencilCells<ncfg>& cs, const F&) { FluxValue<ncfg> r; if constexpr (no == 1) r = fluxn(k, 0, 0, all(cs)); else for (size_t i = 0; i < no; ++i) r(i) = fluxn(k, 0, int(i), all(cs)); return r; }
  template <int k> static FluxValuePair<ncfg> fp(StencilCells<ncfg>& cs, const F&) { FluxValuePair<ncfg> r; for (int s = 0; s < 2; ++s) { if constexpr (no == 1) r[size_t(s)] = fluxn(k, s, 0, all(cs)); else for (size_t i = 0; i < no; ++i) r[size_t(s)](i) = fluxn(k, s, int(i), all(cs)); } return r; }
  template <int k> static StencilJacobian<ncfg> jc(StencilCells<ncfg>& cs, const F&) { StencilJacobian<ncfg> r; for (size_t c = 0; c < sz; ++c) { if constexpr (ni == 1 && no == 1) r[c] = jac(k, 0, int(c), 0, 0, all(cs)); else for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < ni; ++j) r[c](i, j) = jac(k, 0, int(c), int(i), int(j), all(cs)); } return r; }
  template <int k> static StencilJacobianPair<ncfg> jp(StencilCells<ncfg>& cs, const F&) { StencilJacobianPair<ncfg> r; for (int s = 0; s < 2; ++s) for (size_t c = 0; c < sz; ++c) r[size_t(s)][c] = jac(k, s, int(c), 0, 0, all(cs)); return r; }
  static void def(FluxDefinition<ncfg>& fd, bool cons) {
    if (cons) { fd[0].cons_flux_function = fl<0>; fd[0].cons_jacobian_function = jc<0>; if constexpr (d > 1) { fd[1].cons_flux_function = fl<1>; fd[1].cons_jacobian_function = jc<1>; } if constexpr (d > 2) { fd[2].cons_flux_function = fl<2>; fd[2].cons_jacobian_function = jc<2>; } }
    else if constexpr (ni == 1 && no == 1) { fd[0].flux_function = fp<0>; fd[0].jacobian_function = jp<0>; if constexpr (d > 1) { fd[1].flux_function = fp<1>; fd[1].jacobian_function = jp<1>; } if constexpr (d > 2) { fd[2].flux_function = fp<2>; fd[2].jacobian_function = jp<2>; } } }
  static double non_impl(int k, bool bd, bool cons) {
    M m; F f(m); G g(m); mk::NoDtor<FluxDefinition<ncfg>> fd; def(fd.get(), cons);
    mk::NoDtor<FluxBasedScheme<ncfg, BoundaryConfigFV<1>>> s(fd.get()); s.get().include_boundary_fluxes(bd);
    auto ex = make_explicit(s.get()); ex.apply(size_t(k), g, f); return g.acc; }
  static double non_spec(int k, bool bd, bool cons) {
    auto flux = [&](int L, int x, int y, int z, int side, int i) { double c = cells(k, L, x, y, z); return cons ? (side ? -fluxn(k, 0, i, c) : fluxn(k, 0, i, c)) : fluxn(k, side, i, c); };
    return Z::interior(k, int(no), flux) + (bd ? Z::border(k, int(no), flux) : 0); }
  // the coefficients handed to the assembly are the derivatives of the same sums
  static double jac_impl(bool cons) {
    M m; F f(m); mk::NoDtor<FluxDefinition<ncfg>> fd; def(fd.get(), cons); mk::NoDtor<FluxBasedScheme<ncfg, BoundaryConfigFV<1>>> s(fd.get()); double r = 0;
    auto add = [&](auto& cell, auto& cs, auto& q) { for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < ni; ++j) r += mk::vp_cur_mask * s.get().cell_coeff(q, c, i, j) * dcoef(cell.index, int(i), cs[c].index, int(j)); };
    s.get().for_each_interior_interface_and_coeffs(f, [&](auto& ic, auto& cs, auto& a, auto& b) { add(ic[0], cs, a); add(ic[1], cs, b); });
    s.get().for_each_boundary_interface_and_coeffs(f, [&](auto& c, auto& cs, auto& a) { add(c, cs, a); });
    return r; }
  static double jac_spec(bool cons) {
    double r = 0;
    for (int k = 0; k < int(d); ++k) { int e[3] = {k == 0, k == 1, k == 2};
      auto J = [&](int L, int x, int y, int z, int side, long long row, double w) { double q = cells(k, L, x, y, z); for (int c = 0; c < int(sz); ++c) for (int i = 0; i < int(no); ++i) for (int j = 0; j < int(ni); ++j) r += w * (cons ? (side ? -jac(k, 0, c, i, j, q) : jac(k, 0, c, i, j, q)) : jac(k, side, c, i, j, q)) * dcoef(row, i, col(k, c, L, x, y, z), j); };
      for (int L = MN; L <= MX; ++L) { int x = Z::p(0, L), y = Z::p(1, L), z = Z::p(2, L), w = 1 << (MX - L); bool here = Z::in(100, L, L, 0, 0, 0); double q = Z::ratio(L, L);
        double m = Z::mask(here & Z::in(100, L, L, -e[0], -e[1], -e[2])) * q, a = Z::mask(here & !Z::in(151, L, MX, -w * e[0], -w * e[1], -w * e[2])) * q, b = Z::mask(here & !Z::in(151, L, MX, w * e[0], w * e[1], w * e[2])) * q;
        J(L, x, y, z, 0, Z::idx(L, x, y, z), m); J(L, x, y, z, 1, Z::idx(L, x + e[0], y + e[1], z + e[2]), m);
        J(L, x, y, z, 0, Z::idx(L, x, y, z), a); J(L, x - e[0], y - e[1], z - e[2], 1, Z::idx(L, x, y, z), b);
        if (L > MN) { int l = L - 1; bool co = Z::in(100, L, l, 0, 0, 0); double t = Z::ratio(L, l), u = Z::mask(co & Z::in(100, L, L, -e[0], -e[1], -e[2])), v = Z::mask(co & Z::in(100, L, L, e[0], e[1], e[2])); long long ci = Z::idx(l, x >> 1, y >> 1, z >> 1);
          J(L, x, y, z, 0, ci, u * t); J(L, x, y, z, 1, Z::idx(L, x + e[0], y + e[1], z + e[2]), u * q);
          J(L, x - e[0], y - e[1], z - e[2], 0, Z::idx(L, x - e[0], y - e[1], z - e[2]), v * q); J(L, x - e[0], y - e[1], z - e[2], 1, ci, v * t); } } }
    return r; }
};
#define HT(nm, k, bd, ...) W double C11_het_##nm##__impl() { return T<__VA_ARGS__>::het_impl(k, bd); } W double C11_het_##nm##__spec() { return T<__VA_ARGS__>::het_spec(k, bd); }
#define NL(nm, k, bd, cons, ...) W double C11_nonlin_##nm##__impl() { return T<__VA_ARGS__>::non_impl(k, bd, cons); } W double C11_nonlin_##nm##__spec() { return T<__VA_ARGS__>::non_spec(k, bd, cons); }
#define JC(nm, cons, ...) W double C11_jacobian_##nm##__impl() { return T<__VA_ARGS__>::jac_impl(cons); } W double C11_jacobian_##nm##__spec() { return T<__VA_ARGS__>::jac_spec(cons); }
#if VP_PART == 0
HT(1, 0, true, 1, 1, 3, 1, 1, 2) HT(2x, 0, false, 2, 1, 2, 1, 1, 4) HT(2y, 1, true, 2, 1, 2, 2, 2, 2) HT(3z, 2, true, 3, 1, 2, 1, 1, 2)
#endif
#if VP_PART == 1
NL(1, 0, true, true, 1, 1, 3, 1, 1, 2) NL(1n, 0, true, false, 1, 1, 2, 1, 1, 4) NL(2x, 0, false, true, 2, 1, 2, 1, 1, 2) NL(2v, 1, true, true, 2, 1, 2, 2, 2, 2) NL(3y, 1, true, false, 3, 1, 2, 1, 1, 2)
#endif
#if VP_PART == 2
NL(2i, 1, true, true, 2, 1, 2, 1, 1, 2) NL(3i, 2, true, false, 3, 1, 2, 1, 1, 2) HT(2i, 1, true, 2, 1, 2, 1, 1, 2)
#endif
#if VP_PART == 3
JC(1, true, 1, 1, 2, 1, 1, 2) JC(1n, false, 1, 1, 2, 1, 1, 4) JC(2, true, 2, 1, 2, 1, 1, 2) JC(2v, true, 2, 1, 1, 2, 2, 2) JC(3n, false, 3, 1, 2, 1, 1, 2)
#endif
#if VP_PART == 4
NL(a2v, 1, true, true, 2, 1, 2, 2, 2, 2) NL(a1, 0, true, true, 1, 1, 2, 1, 3, 2) HT(a2, 0, true, 2, 1, 2, 2, 1, 2)
#endif
#if VP_PART == 5
NL(omp2, 1, true, true, 2, 1, 2, 1, 1, 2) HT(omp2, 1, true, 2, 1, 2, 1, 1, 2)
#endif
