// FLAGS: -fno-access-control -DFLUX_CONTAINER_xtensor -isystem $VERIF/witness/stub/omp
// PARTS: 6
// what a linear homogeneous flux adds to the cells on both sides of every face
#if VP_PART == 2 || VP_PART == 5
#define MK_LEN 4
#define MK_X0(L) (2 * probe(0, L))
#endif
#if VP_PART >= 4
#define SAMURAI_WITH_OPENMP
#endif
#include "mkflux.hpp"
#include <samurai/schemes/fv.hpp>
extern "C" double coef(int dir, int c, int i, int j, double h) PURE;
using namespace samurai;
template <size_t d, int MN, int MX, size_t ni, size_t no, size_t sz> struct T {
  using M = mk::QMesh<d, MN, MX>; using F = Field<M, double, ni, false>; using G = Field<M, double, no, false>; using cfg = FluxConfig<SchemeType::LinearHomogeneous, no, sz, F>;
  template <int k> static FluxStencilCoeffs<cfg> co(double h) { FluxStencilCoeffs<cfg> r; for (size_t c = 0; c < sz; ++c) { if constexpr (ni == 1 && no == 1) r[c] = coef(k, int(c), 0, 0, h); else for (size_t i = 0; i < no; ++i) for (size_t j = 0; j < ni; ++j) r[c](i, j) = coef(k, int(c), int(i), int(j), h); } return r; }
  static double impl(int k, bool bd) {
    M m; F f(m); G g(m); mk::NoDtor<FluxDefinition<cfg>> fd; fd.get()[0].cons_flux_function = co<0>; if constexpr (d > 1) fd.get()[1].cons_flux_function = co<1>; if constexpr (d > 2) fd.get()[2].cons_flux_function = co<2>;
    mk::NoDtor<FluxBasedScheme<cfg, BoundaryConfigFV<1>>> s(fd.get()); s.get().include_boundary_fluxes(bd);
    auto ex = make_explicit(s.get()); if (k < 0) ex.apply(g, f); else ex.apply(size_t(k), g, f); return g.acc; }
  static double spec1(int k, bool bd) {
    auto flux = [&](int L, int x, int y, int z, int side, int i) { double s = 0; for (int c = 0; c < int(sz); ++c) { int o = c + 1 - int(sz) / 2; for (int j = 0; j < int(ni); ++j) s += coef(k, c, i, j, mesh_cell_length(size_t(L))) * uidx(YF<d, MN, MX>::idx(L, x + (k == 0) * o, y + (k == 1) * o, z + (k == 2) * o), j); } return side ? -s : s; };
    return YF<d, MN, MX>::interior(k, int(no), flux) + (bd ? YF<d, MN, MX>::border(k, int(no), flux) : 0); }
  static double spec(int k, bool bd) { if (k >= 0) return spec1(k, bd); double r = 0; for (int q = 0; q < int(d); ++q) r += spec1(q, bd); return r; }
};
#define LH(nm, k, bd, ...) W double C11_linhom_##nm##__impl() { return T<__VA_ARGS__>::impl(k, bd); } W double C11_linhom_##nm##__spec() { return T<__VA_ARGS__>::spec(k, bd); }
#if VP_PART == 0
LH(1, 0, true, 1, 1, 3, 1, 1, 2) LH(1n, 0, false, 1, 1, 2, 1, 1, 4) LH(2x, 0, true, 2, 1, 2, 1, 1, 2) LH(2y, 1, true, 2, 1, 2, 1, 1, 4) LH(1v, 0, true, 1, 1, 2, 2, 2, 2)
#endif
#if VP_PART == 1
LH(3x, 0, true, 3, 1, 2, 1, 1, 2) LH(3y, 1, true, 3, 1, 2, 1, 1, 2) LH(3z, 2, false, 3, 1, 2, 1, 1, 2) LH(2v, 1, true, 2, 1, 2, 1, 2, 2)
#endif
#if VP_PART == 2
LH(2i, 1, true, 2, 1, 2, 1, 1, 2) LH(3i, 2, true, 3, 1, 2, 1, 1, 2)
#endif
#if VP_PART == 3
LH(2all, -1, true, 2, 1, 2, 1, 1, 2) LH(2w, 1, true, 2, 1, 2, 2, 1, 2) LH(3all, -1, true, 3, 1, 1, 1, 1, 2)
#endif
#if VP_PART == 4
LH(omp1, 0, true, 1, 1, 2, 1, 1, 2) LH(omp2x, 0, true, 2, 1, 2, 1, 1, 2)
#endif
#if VP_PART == 5
LH(omp2y, 1, true, 2, 1, 2, 1, 1, 2) LH(omp3z, 2, true, 3, 1, 2, 2, 1, 2)
#endif
