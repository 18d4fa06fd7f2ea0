// FLAGS: -fno-access-control -DFLUX_CONTAINER_xtensor
// PARTS: 7
// algebra of cell-based schemes and of sums of schemes; explicit application of cell-based schemes
#include "mkflux.hpp"
#include "notext.hpp"
#include <samurai/schemes/fv.hpp>
extern "C" {
double cof(int which, int c, int i, int j, double h) PURE;
double fun(int which, int i, double cells) PURE;
double jac(int which, int c, int i, int j, double cells) PURE;
double flc(int which, int dir, int c, int i, int j, double h) PURE;
double ccell(long long index, double len) PURE; double sig(double s, double cell) PURE;
double wgt(int side, int c, int i, int j) PURE; double lenh() PURE; long long cidx(int c) PURE;
}
using namespace samurai;
template <class A> double all(const A& a) { if constexpr (std::is_class_v<A> && !std::is_same_v<A, Cell<1, mk::Iv>> && !std::is_same_v<A, Cell<2, mk::Iv>> && !std::is_same_v<A, Cell<3, mk::Iv>>) { double s = 0; for (auto& c : a) s = sig(s, ccell(c.index, c.length)); return s; } else return sig(0, ccell(a.index, a.length)); }
template <class A> double& item(A& a, size_t i, size_t j) { if constexpr (std::is_floating_point_v<A>) return a; else return a(i, j); }
template <class A> double& item(A& a, size_t i) { if constexpr (std::is_floating_point_v<A>) return a; else return a(i); }
template <class Fn> struct Hold { using T = decltype(std::declval<Fn>()()); alignas(T) unsigned char b[sizeof(T)]; Hold(Fn f) { new (b) T(f()); } T& get() { return *reinterpret_cast<T*>(b); } };
#define HOLD(v, e) auto v##_ = [&] { return e; }; Hold<decltype(v##_)> v##h(v##_); auto& v = v##h.get()
#define LH SchemeType::LinearHomogeneous
#define NL SchemeType::NonLinear
template <SchemeType ty, size_t d, size_t n, size_t nw, int MN = 1, int MX = 1> struct C {
  using M = mk::QMesh<d, MN, MX>; using F = Field<M, double, n, false>; using cfg = StarStencilSchemeConfig<ty, n, nw, F>; using Sc = CellBasedScheme<cfg, BoundaryConfigFV<1>>; static constexpr size_t sz = cfg::stencil_size;
  template <int w> static void set(Sc& s, bool j = true) {
    if constexpr (ty == LH) s.coefficients_func() = [](double h) { StencilCoeffs<cfg> r; for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < n; ++i) for (size_t q = 0; q < n; ++q) item(r[c], i, q) = cof(w, int(c), int(i), int(q), h); return r; };
    else { s.scheme_function() = [](auto& cs, const F&) { SchemeValue<cfg> r; for (size_t i = 0; i < n; ++i) item(r, i) = fun(w, int(i), all(cs)); return r; };
      if (j) s.jacobian_function() = [](auto& cs, const F&) { StencilJacobian<cfg> r; for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < n; ++i) for (size_t q = 0; q < n; ++q) item(r[c], i, q) = jac(w, int(c), int(i), int(q), all(cs)); return r; }; } }
  template <int w> static Sc make(bool j = true) { Sc s; set<w>(s, j); return s; }
  template <class S> static double eval(S& s, bool j = true) { double r = 0;
    if constexpr (ty == LH) { auto q = s.coefficients(lenh()); for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < n; ++i) for (size_t m = 0; m < n; ++m) r += wgt(0, int(c), int(i), int(m)) * item(q[c], i, m); }
    else { M mesh; F f(mesh); std::array<Cell<d, mk::Iv>, sz> cs; for (size_t c = 0; c < sz; ++c) { cs[c].index = cidx(int(c)); cs[c].length = lenh(); } auto& a = [&]() -> auto& { if constexpr (sz == 1) return cs[0]; else return cs; }();
      auto v = s.scheme_function()(a, f); for (size_t i = 0; i < n; ++i) r += wgt(1, 0, int(i), 0) * item(v, i);
      if (j) { auto q = s.jacobian_function()(a, f); for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < n; ++i) for (size_t m = 0; m < n; ++m) r += wgt(2, int(c), int(i), int(m)) * item(q[c], i, m); } }
    return r; }
  static double of(int w, bool j = true) { double r = 0, s = 0;
    if (ty == LH) { for (int c = 0; c < int(sz); ++c) for (int i = 0; i < int(n); ++i) for (int m = 0; m < int(n); ++m) r += wgt(0, c, i, m) * cof(w, c, i, m, lenh()); return r; }
    for (size_t c = 0; c < sz; ++c) s = sig(s, ccell(cidx(int(c)), lenh()));
    for (int i = 0; i < int(n); ++i) r += wgt(1, 0, i, 0) * fun(w, i, s);
    if (j) for (int c = 0; c < int(sz); ++c) for (int i = 0; i < int(n); ++i) for (int m = 0; m < int(n); ++m) r += wgt(2, c, i, m) * jac(w, c, i, m, s);
    return r; }
  // what the scheme w adds to the field on the abstract mesh
  static double applied(int w) { using Z = YF<d, MN, MX>; double r = 0;
    for (int L = MN; L <= MX; ++L) { double m = Z::mask(Z::in(100, L, L, 0, 0, 0)); int x = Z::p(0, L), y = Z::p(1, L), z = Z::p(2, L); double len = mesh_cell_length(size_t(L));
      // star stencil: -w..w along x (the centre is number w), then the other directions
      int off[13][3] = {}; int k = 0; for (int a = -int(nw); a <= int(nw); ++a) off[k++][0] = a; for (int q = 1; q < int(d); ++q) for (int a = -int(nw); a <= int(nw); ++a) if (a) off[k++][q] = a;
      if (ty == LH) { for (int c = 0; c < int(sz); ++c) for (int i = 0; i < int(n); ++i) for (int j = 0; j < int(n); ++j) r += m * delta(Z::idx(L, x, y, z), i) * cof(w, c, i, j, len) * uidx(Z::idx(L, x + off[c][0], y + off[c][1], z + off[c][2]), j); }
      else { double s = 0; for (int c = 0; c < int(sz); ++c) s = sig(s, ccell(Z::idx(L, x + off[c][0], y + off[c][1], z + off[c][2]), len)); for (int i = 0; i < int(n); ++i) r += m * delta(Z::idx(L, x, y, z), i) * fun(w, i, s); } }
    return r; }
};
#define OB(nm, j, expr, spec, ...) W double C13_##nm##__impl(double x) { using Q = C<__VA_ARGS__>; HOLD(a, Q::make<1>(j)); HOLD(b, Q::make<2>(j)); HOLD(r, (expr)); Q::template set<7>(a, j); Q::template set<8>(b, j); return Q::eval(r, j); } \
  W double C13_##nm##__spec(double x) { using Q = C<__VA_ARGS__>; double A = Q::of(1, j), B = Q::of(2, j); return spec; }
#if VP_PART == 0
OB(cell_mul_lin1, true, x * a, x * A, LH, 1, 1, 1) OB(cell_mul_lin2, true, x * a, x * A, LH, 2, 2, 1) OB(cell_mul_loc, true, x * a, x * A, LH, 2, 2, 0) OB(cell_neg_lin, true, -a, -A, LH, 3, 1, 1) OB(cell_add_lin, true, a + b, A + B, LH, 2, 1, 1) OB(cell_add_loc, true, a + b, A + B, LH, 1, 2, 0) OB(cell_sub_lin, true, a - b, A - B, LH, 1, 1, 1) OB(cell_comb_lin, true, x * a - 2. * b, x * A - 2 * B, LH, 2, 1, 0)
#endif
#if VP_PART == 1
OB(cell_mul_non1, true, x * a, x * A, NL, 1, 1, 1) OB(cell_mul_non2, true, x * a, x * A, NL, 2, 2, 0) OB(cell_neg_non, false, -a, -A, NL, 2, 1, 1) OB(cell_add_non1, true, a + b, A + B, NL, 1, 1, 0) OB(cell_add_non2, true, a + b, A + B, NL, 2, 2, 1) OB(cell_sub_non, true, a - b, A - B, NL, 1, 2, 0) OB(cell_add_nojac, false, a + b, A + B, NL, 2, 1, 0)
#endif
// linear + nonlinear, one cell each: value and jacobian
#define MIX(nm, n, d, jj) W double C13_mix_##nm##__impl() { using Q = C<NL, d, n, 0>; using R = C<LH, d, n, 0>; HOLD(a, R::make<1>()); HOLD(b, Q::make<2>(jj)); HOLD(r, (a + b)); R::template set<7>(a); Q::template set<8>(b, jj); return Q::eval(r, jj); } \
  W double C13_mix_##nm##__spec() { using Q = C<NL, d, n, 0>; double r = Q::of(2, jj); for (int i = 0; i < n; ++i) for (int m = 0; m < n; ++m) { r += wgt(1, 0, i, 0) * cof(1, 0, i, m, lenh()) * uidx(cidx(0), m); if (jj) r += wgt(2, 0, i, m) * cof(1, 0, i, m, lenh()); } return r; }
#if VP_PART == 2
MIX(1, 1, 1, true) MIX(2, 2, 2, true) MIX(1n, 1, 2, false)
#endif
// explicit application
#define AP(nm, ...) W double C13_apply_##nm##__impl() { using Q = C<__VA_ARGS__>; HOLD(a, Q::make<1>()); typename Q::M m; typename Q::F f(m), g(m); auto ex = make_explicit(a); ex.apply(g, f); return g.acc; } W double C13_apply_##nm##__spec() { return C<__VA_ARGS__>::applied(1); }
#if VP_PART == 3
AP(lin1, LH, 1, 1, 1, 1, 3) AP(lin2, LH, 2, 1, 1, 1, 2) AP(lin2v, LH, 2, 2, 0, 1, 2) AP(lin3, LH, 3, 1, 1, 1, 2) AP(non1, NL, 1, 1, 1, 1, 3) AP(non2, NL, 2, 2, 1, 1, 2) AP(non3, NL, 3, 1, 0, 1, 2)
#endif
// sums that cannot be merged: the operators are applied one after the other
template <size_t d, int MN, int MX> struct X { using M = mk::QMesh<d, MN, MX>; using F = Field<M, double, 1, false>; using cfg = FluxConfig<LH, 1, 2, F>; using Sc = FluxBasedScheme<cfg, BoundaryConfigFV<1>>; using Z = YF<d, MN, MX>;
  template <int w, int k> static void set(FluxDefinition<cfg>& fd) { fd[k].cons_flux_function = [](double h) { FluxStencilCoeffs<cfg> r; for (size_t c = 0; c < 2; ++c) r[c] = flc(w, k, int(c), 0, 0, h); return r; }; }
  template <int w> static Sc make() { FluxDefinition<cfg> fd; set<w, 0>(fd); if constexpr (d > 1) set<w, 1>(fd); return Sc(fd); }
  static double applied(int w, int only = -1) { double r = 0; for (int k = 0; k < int(d); ++k) if (only < 0 || only == k) { auto flux = [&](int L, int x, int y, int z, int side, int) { double s = 0; for (int c = 0; c < 2; ++c) s += flc(w, k, c, 0, 0, mesh_cell_length(size_t(L))) * uidx(Z::idx(L, x + (k == 0) * c, y + (k == 1) * c, z), 0); return side ? -s : s; }; r += Z::interior(k, 1, flux) + Z::border(k, 1, flux); } return r; } };
#define SUM(nm, expr, spec) W double C13_sum_##nm##__impl(double x) { using P = X<1, 1, 2>; using Q = C<LH, 1, 1, 1, 1, 2>; using R = C<LH, 1, 1, 0, 1, 2>; using S = C<NL, 1, 1, 0, 1, 2>; HOLD(a, P::make<1>()); HOLD(b, Q::make<2>()); HOLD(c, R::make<3>()); HOLD(e, S::make<4>()); HOLD(g2, Q::make<5>()); HOLD(r, (expr)); typename P::M m; typename P::F f(m), g(m); auto ex = make_explicit(r); ex.apply(g, f); return g.acc; } \
  W double C13_sum_##nm##__spec(double x) { double A = X<1, 1, 2>::applied(1), B = C<LH, 1, 1, 1, 1, 2>::applied(2), K = C<LH, 1, 1, 0, 1, 2>::applied(3), E = C<NL, 1, 1, 0, 1, 2>::applied(4), G = C<LH, 1, 1, 1, 1, 2>::applied(5); return spec; }
#if VP_PART == 4
SUM(flux_cell, a + b, A + B) SUM(cell_flux, b + a, A + B) SUM(flux_minus_cell, a - b, A - B) SUM(cell_minus_flux, b - a, B - A) SUM(cells, b + c, B + K) SUM(three, (a + b) + c, A + B + K) SUM(front, c + (a + b), A + B + K)
#endif
#if VP_PART == 5
SUM(scaled, x * (a + b), (x * A) + x * B) SUM(nonlin, a + e, A + E) SUM(three_minus, (a + b) - c, A + B - K)
// adding to a sum does not change the sum
W double C13_sum_merge__impl() { using P = X<1, 1, 2>; using Q = C<LH, 1, 1, 1, 1, 2>; HOLD(a, P::make<1>()); HOLD(b, Q::make<2>()); HOLD(g2, Q::make<5>()); HOLD(s, (a + b)); HOLD(r, (s + g2)); typename P::M m; typename P::F f(m), g(m); auto ex = make_explicit(r); ex.apply(g, f); return g.acc; }
W double C13_sum_merge__spec() { return X<1, 1, 2>::applied(1) + C<LH, 1, 1, 1, 1, 2>::applied(2) + C<LH, 1, 1, 1, 1, 2>::applied(5); }
W double C13_sum_keep__impl() { using P = X<1, 1, 2>; using Q = C<LH, 1, 1, 1, 1, 2>; HOLD(a, P::make<1>()); HOLD(b, Q::make<2>()); HOLD(g2, Q::make<5>()); HOLD(s, (a + b)); HOLD(r, (s + g2)); (void)r; typename P::M m; typename P::F f(m), g(m); auto ex = make_explicit(s); ex.apply(g, f); return g.acc; }
W double C13_sum_keep__spec() { return X<1, 1, 2>::applied(1) + C<LH, 1, 1, 1, 1, 2>::applied(2); }
#endif
#if VP_PART == 6
SUM(minus_three, c - (a + b), K - A - B) SUM(merge_left, g2 + (a + b), G + A + B) SUM(merge_minus, (a + b) - g2, A + B - G)
// scaling a named sum gives a new one
#define SCALE(nm, ret, spec) W double C13_sum_##nm##__impl(double x) { using P = X<1, 1, 2>; using Q = C<LH, 1, 1, 1, 1, 2>; HOLD(a, P::make<1>()); HOLD(b, Q::make<2>()); HOLD(s, (a + b)); HOLD(r, (x * s)); typename P::M m; typename P::F f(m), g(m); auto ex = make_explicit(ret); ex.apply(g, f); return g.acc; } \
  W double C13_sum_##nm##__spec(double x) { double A = X<1, 1, 2>::applied(1), B = C<LH, 1, 1, 1, 1, 2>::applied(2); return spec; }
SCALE(scale_named, r, x * A + x * B) SCALE(scale_keep, s, A + B)
#endif
