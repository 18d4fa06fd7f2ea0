// FLAGS: -fno-access-control -DFLUX_CONTAINER_xtensor
// PARTS: 3
// calling a scheme: the output starts from zero, apply() adds to the output, direction by direction
#include "mkflux.hpp"
#include "notext.hpp"
#include <samurai/schemes/fv.hpp>
extern "C" {
double cof(int which, int c, double h) PURE; double fun(int which, double cells) PURE; double flc(int which, int dir, int c, double h) PURE; double flx(int which, int dir, double cells) PURE;
double ccell(long long index) PURE; double sig(double s, double cell) PURE;
}
using namespace samurai;
template <class Fn> struct Hold { using T = decltype(std::declval<Fn>()()); alignas(T) unsigned char b[sizeof(T)]; Hold(Fn f) { new (b) T(f()); } T& get() { return *reinterpret_cast<T*>(b); } };
#define HOLD(v, e) auto v##_ = [&] { return e; }; Hold<decltype(v##_)> v##h(v##_); auto& v = v##h.get()
#define LH SchemeType::LinearHomogeneous
#define LT SchemeType::LinearHeterogeneous
#define NL SchemeType::NonLinear
template <class A> double all(const A& a) { double s = 0; for (auto& c : a) s = sig(s, ccell(c.index)); return s; }
template <size_t d, SchemeType ty> struct X { static constexpr int MN = 1, MX = 2; using M = mk::QMesh<d, MN, MX>; using F = Field<M, double, 1, false>; using cfg = FluxConfig<ty, 1, 2, F>; using Sc = FluxBasedScheme<cfg, BoundaryConfigFV<1>>; using Z = YF<d, MN, MX>;
  template <int w, int k> static void set(FluxDefinition<cfg>& fd) {
    if constexpr (ty == LH) fd[k].cons_flux_function = [](double h) { FluxStencilCoeffs<cfg> r; for (size_t c = 0; c < 2; ++c) r[c] = flc(w, k, int(c), h); return r; };
    else if constexpr (ty == LT) fd[k].cons_flux_function = [](auto& cs) { FluxStencilCoeffs<cfg> r; for (size_t c = 0; c < 2; ++c) r[c] = flc(w, k, int(c), all(cs)); return r; };
    else fd[k].cons_flux_function = [](auto& cs, const F&) { return flx(w, k, all(cs)); }; }
  template <int w> static Sc make() { FluxDefinition<cfg> fd; set<w, 0>(fd); if constexpr (d > 1) set<w, 1>(fd); return Sc(fd); }
  static double of(int w, int only = -1) { double r = 0; for (int k = 0; k < int(d); ++k) if (only < 0 || only == k) { auto flux = [&](int L, int x, int y, int z, int side, int) { double s = 0, g = 0; long long i[2]; for (int c = 0; c < 2; ++c) { i[c] = Z::idx(L, x + (k == 0) * c, y + (k == 1) * c, z); g = sig(g, ccell(i[c])); }
        if (ty == NL) s = flx(w, k, g); else for (int c = 0; c < 2; ++c) s += flc(w, k, c, ty == LT ? g : mesh_cell_length(size_t(L))) * uidx(i[c], 0); return side ? -s : s; }; r += Z::interior(k, 1, flux) + Z::border(k, 1, flux); } return r; } };
template <size_t d> struct C { static constexpr int MN = 1, MX = 2; using M = mk::QMesh<d, MN, MX>; using F = Field<M, double, 1, false>; using cfg = StarStencilSchemeConfig<LH, 1, 1, F>; using Sc = CellBasedScheme<cfg, BoundaryConfigFV<1>>; using Z = YF<d, MN, MX>;
  template <int w> static Sc make() { Sc s; s.coefficients_func() = [](double h) { StencilCoeffs<cfg> r; for (size_t c = 0; c < cfg::stencil_size; ++c) r[c] = cof(w, int(c), h); return r; }; return s; }
  static double of(int w) { double r = 0; for (int L = MN; L <= MX; ++L) { double m = Z::mask(Z::in(100, L, L, 0, 0, 0)); int x = Z::p(0, L), y = Z::p(1, L), z = Z::p(2, L); int off[13][3] = {}; int k = 0; for (int a = -1; a <= 1; ++a) off[k++][0] = a; for (int q = 1; q < int(d); ++q) for (int a = -1; a <= 1; ++a) if (a) off[k++][q] = a;
      for (int c = 0; c < k; ++c) r += m * delta(Z::idx(L, x, y, z), 0) * cof(w, c, mesh_cell_length(size_t(L))) * uidx(Z::idx(L, x + off[c][0], y + off[c][1], z + off[c][2]), 0); } return r; } };
// s(f), s.apply(g, f), s(k, f), s.apply(k, g, f)
#define CALL(nm, ...) W double C13_call_##nm##__impl() { using Q = __VA_ARGS__; HOLD(s, Q::template make<1>()); typename Q::M m; typename Q::F f(m); HOLD(g, s(f)); return g.acc; } W double C13_call_##nm##__spec() { return __VA_ARGS__::of(1); } \
  W double C13_addto_##nm##__impl(double x) { using Q = __VA_ARGS__; HOLD(s, Q::template make<1>()); typename Q::M m; typename Q::F f(m), g(m); g.acc = x; s.apply(g, f); return g.acc; } W double C13_addto_##nm##__spec(double x) { return x + __VA_ARGS__::of(1); }
#define DIR(nm, k, ...) W double C13_dir_##nm##__impl() { using Q = __VA_ARGS__; HOLD(s, Q::template make<1>()); typename Q::M m; typename Q::F f(m); HOLD(g, s(k, f)); return g.acc; } W double C13_dir_##nm##__spec() { return __VA_ARGS__::of(1, k); } \
  W double C13_diradd_##nm##__impl(double x) { using Q = __VA_ARGS__; HOLD(s, Q::template make<1>()); typename Q::M m; typename Q::F f(m), g(m); g.acc = x; s.apply(k, g, f); return g.acc; } W double C13_diradd_##nm##__spec(double x) { return x + __VA_ARGS__::of(1, k); }
#if VP_PART == 0
CALL(lin1, X<1, LH>) CALL(lin2, X<2, LH>) CALL(cell1, C<1>) CALL(cell2, C<2>) DIR(lin1_0, 0, X<1, LH>) DIR(lin2_0, 0, X<2, LH>) DIR(lin2_1, 1, X<2, LH>)
#endif
#if VP_PART == 1
CALL(het1, X<1, LT>) CALL(het2, X<2, LT>) CALL(non1, X<1, NL>) CALL(non2, X<2, NL>) DIR(het2_0, 0, X<2, LT>) DIR(het2_1, 1, X<2, LT>) DIR(non2_0, 0, X<2, NL>) DIR(non2_1, 1, X<2, NL>)
#endif
#if VP_PART == 2
// sums
W double C13_callsum__impl() { using P = X<2, LH>; using Q = C<2>; HOLD(a, P::make<1>()); HOLD(b, Q::make<2>()); HOLD(s, (a + b)); typename P::M m; typename P::F f(m); HOLD(g, s(f)); return g.acc; }
W double C13_callsum__spec() { return X<2, LH>::of(1) + C<2>::of(2); }
W double C13_addsum__impl(double x) { using P = X<1, NL>; using Q = C<1>; HOLD(a, P::make<1>()); HOLD(b, Q::make<2>()); HOLD(s, (b + a)); typename P::M m; typename P::F f(m), g(m); g.acc = x; s.apply(g, f); return g.acc; }
W double C13_addsum__spec(double x) { return x + X<1, NL>::of(1) + C<1>::of(2); }
W double C13_dirsum__impl(double x) { using P = X<2, LH>; using Q = X<2, NL>; HOLD(a, P::make<1>()); HOLD(b, Q::make<2>()); HOLD(s, (a + b)); typename P::M m; typename P::F f(m), g(m); g.acc = x; auto e = make_explicit(s); e.apply(1, g, f); return g.acc; }
W double C13_dirsum__spec(double x) { return x + X<2, LH>::of(1, 1) + X<2, NL>::of(2, 1); }
#endif
