// FLAGS: -fno-access-control -DFLUX_CONTAINER_xtensor
// PARTS: 5
// algebra of flux-based schemes: the flux of c*A, -A, A+B as functions of the fluxes of A and B (uninterpreted)
#include "mkflux.hpp"
#include "notext.hpp"
#include <samurai/schemes/fv.hpp>
extern "C" {
double cof(int which, int dir, int c, int i, int j, double arg) PURE;
double flx(int which, int dir, int side, int i, double cells) PURE;
double jac(int which, int dir, int side, int c, int i, int j, double cells) PURE;
double ccell(long long index) PURE; double sig(double s, double cell) PURE;
double wgt(int side, int c, int i, int j) PURE; double lenh() PURE; long long cidx(int c) PURE;
}
using namespace samurai;
template <class A> double all(const A& a) { double s = 0; for (auto& c : a) s = sig(s, ccell(c.index)); return s; }
template <class A> double& item(A& a, size_t i, size_t j) { if constexpr (std::is_floating_point_v<A>) return a; else return a(i, j); }
template <class A> double& item(A& a, size_t i) { if constexpr (std::is_floating_point_v<A>) return a; else return a(i); }
template <class Fn> struct Hold { using T = decltype(std::declval<Fn>()()); alignas(T) unsigned char b[sizeof(T)]; Hold(Fn f) { new (b) T(f()); } T& get() { return *reinterpret_cast<T*>(b); } };
#define HOLD(v, e) auto v##_ = [&] { return e; }; Hold<decltype(v##_)> v##h(v##_); auto& v = v##h.get()
template <SchemeType ty, size_t d, size_t ni, size_t no, size_t sz> struct T {
  using F = Field<mk::QMesh<d, 1, 1>, double, ni, false>; using cfg = FluxConfig<ty, no, sz, F>; using Sc = FluxBasedScheme<cfg, BoundaryConfigFV<sz / 2>>; static constexpr bool nl = ty == SchemeType::NonLinear;
  template <int w, int k> static void set(FluxDefinition<cfg>& fd, bool cons, bool j) {
    if constexpr (ty == SchemeType::LinearHomogeneous) fd[k].cons_flux_function = [](double h) { FluxStencilCoeffs<cfg> r; for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < no; ++i) for (size_t q = 0; q < ni; ++q) item(r[c], i, q) = cof(w, k, int(c), int(i), int(q), h); return r; };
    else if constexpr (ty == SchemeType::LinearHeterogeneous) fd[k].cons_flux_function = [](auto& cs) { FluxStencilCoeffs<cfg> r; for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < no; ++i) for (size_t q = 0; q < ni; ++q) item(r[c], i, q) = cof(w, k, int(c), int(i), int(q), all(cs)); return r; };
    else { if (cons) { fd[k].cons_flux_function = [](auto& cs, const F&) { FluxValue<cfg> r; for (size_t i = 0; i < no; ++i) item(r, i) = flx(w, k, 0, int(i), all(cs)); return r; };
        if (j) fd[k].cons_jacobian_function = [](auto& cs, const F&) { StencilJacobian<cfg> r; for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < no; ++i) for (size_t q = 0; q < ni; ++q) item(r[c], i, q) = jac(w, k, 0, int(c), int(i), int(q), all(cs)); return r; }; }
      else { fd[k].flux_function = [](auto& cs, const F&) { FluxValuePair<cfg> r; for (int s = 0; s < 2; ++s) for (size_t i = 0; i < no; ++i) item(r[size_t(s)], i) = flx(w, k, s, int(i), all(cs)); return r; };
        if (j) fd[k].jacobian_function = [](auto& cs, const F&) { StencilJacobianPair<cfg> r; for (int s = 0; s < 2; ++s) for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < no; ++i) for (size_t q = 0; q < ni; ++q) item(r[size_t(s)][c], i, q) = jac(w, k, s, int(c), int(i), int(q), all(cs)); return r; }; } } }
  template <int w> static Sc make(bool cons = true, bool j = true) { FluxDefinition<cfg> fd; set<w, 0>(fd, cons, j); if constexpr (d > 1) set<w, 1>(fd, cons, j); if constexpr (d > 2) set<w, 2>(fd, cons, j); return Sc(fd); }
  // everything the scheme computes on one face in direction k, weighted
  template <class S> static double eval(S& s, size_t k, bool cons, bool j) { auto& fd = s.flux_definition()[k]; double r = 0; std::array<Cell<d, mk::Iv>, sz> cs; for (size_t c = 0; c < sz; ++c) cs[c].index = cidx(int(c));
    if constexpr (!nl) { auto q = [&] { if constexpr (ty == SchemeType::LinearHomogeneous) return fd.cons_flux_function(lenh()); else return fd.cons_flux_function(cs); }(); for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < no; ++i) for (size_t m = 0; m < ni; ++m) r += wgt(0, int(c), int(i), int(m)) * item(q[c], i, m); }
    else { mk::QMesh<d, 1, 1> mesh; F f(mesh);
      if (cons) { auto v = fd.cons_flux_function(cs, f); for (size_t i = 0; i < no; ++i) r += wgt(0, 0, int(i), 0) * item(v, i); } else { auto v = fd.flux_function(cs, f); for (int t = 0; t < 2; ++t) for (size_t i = 0; i < no; ++i) r += wgt(t, 0, int(i), 0) * item(v[size_t(t)], i); }
      if (j && cons) { auto v = fd.cons_jacobian_function(cs, f); for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < no; ++i) for (size_t m = 0; m < ni; ++m) r += wgt(2, int(c), int(i), int(m)) * item(v[c], i, m); }
      if (j && !cons) { auto v = fd.jacobian_function(cs, f); for (int t = 0; t < 2; ++t) for (size_t c = 0; c < sz; ++c) for (size_t i = 0; i < no; ++i) for (size_t m = 0; m < ni; ++m) r += wgt(2 + t, int(c), int(i), int(m)) * item(v[size_t(t)][c], i, m); } }
    return r; }
  static double of(int w, int k, bool cons = true, bool j = true) { double r = 0, s = 0; for (size_t c = 0; c < sz; ++c) s = sig(s, ccell(cidx(int(c))));
    if (!nl) { double a = ty == SchemeType::LinearHomogeneous ? lenh() : s; for (int c = 0; c < int(sz); ++c) for (int i = 0; i < int(no); ++i) for (int m = 0; m < int(ni); ++m) r += wgt(0, c, i, m) * cof(w, k, c, i, m, a); }
    else { for (int t = 0; t < (cons ? 1 : 2); ++t) for (int i = 0; i < int(no); ++i) r += wgt(t, 0, i, 0) * flx(w, k, t, i, s);
      if (j) for (int t = 0; t < (cons ? 1 : 2); ++t) for (int c = 0; c < int(sz); ++c) for (int i = 0; i < int(no); ++i) for (int m = 0; m < int(ni); ++m) r += wgt(2 + t, c, i, m) * jac(w, k, t, c, i, m, s); }
    return r; }
};
#define LH SchemeType::LinearHomogeneous
#define LT SchemeType::LinearHeterogeneous
#define NL SchemeType::NonLinear
#define OB(nm, k, cons, j, expr, spec, ...) W double C13_##nm##__impl(double x) { using Q = T<__VA_ARGS__>; HOLD(a, Q::make<1>(cons, j)); HOLD(b, Q::make<2>(cons, j)); HOLD(r, (expr)); \
  Q::template set<7, 0>(a.flux_definition(), cons, j); Q::template set<8, 0>(b.flux_definition(), cons, j); return Q::eval(r, k, cons, j); } \
  W double C13_##nm##__spec(double x) { using Q = T<__VA_ARGS__>; double A = Q::of(1, k, cons, j), B = Q::of(2, k, cons, j); return spec; }
// the operands are not modified
#define KEEP(nm, k, cons, j, expr, ...) W double C13_keep_##nm##__impl(double x) { using Q = T<__VA_ARGS__>; HOLD(a, Q::make<1>(cons, j)); HOLD(b, Q::make<2>(cons, j)); HOLD(r, (expr)); (void)r; return Q::eval(a, k, cons, j) + 3 * Q::eval(b, k, cons, j); } \
  W double C13_keep_##nm##__spec(double x) { using Q = T<__VA_ARGS__>; return Q::of(1, k, cons, j) + 3 * Q::of(2, k, cons, j); }
#if VP_PART == 0
OB(flux_mul_lin1, 0, true, true, x * a, x * A, LH, 1, 1, 1, 2) OB(flux_mul_lin2, 1, true, true, x * a, x * A, LH, 2, 2, 1, 2) OB(flux_mul_lin3, 2, true, true, x * a, x * A, LH, 3, 1, 1, 4) OB(flux_neg_lin, 1, true, true, -a, -A, LH, 2, 1, 2, 2)
OB(flux_add_lin1, 0, true, true, a + b, A + B, LH, 1, 1, 1, 2) OB(flux_add_lin2, 1, true, true, a + b, A + B, LH, 2, 2, 2, 2) OB(flux_comb_lin, 0, true, true, x * a + 2. * b, (x * A) + 2 * B, LH, 2, 1, 1, 2) KEEP(lin, 0, true, true, x * a + b, LH, 2, 1, 1, 2)
#endif
#if VP_PART == 1
OB(flux_mul_het1, 0, true, true, x * a, x * A, LT, 1, 1, 1, 2) OB(flux_mul_het2, 1, true, true, x * a, x * A, LT, 2, 2, 1, 2) OB(flux_neg_het, 2, true, true, -a, -A, LT, 3, 1, 1, 2) OB(flux_add_het1, 0, true, true, a + b, A + B, LT, 1, 1, 1, 4) OB(flux_add_het2, 1, true, true, a + b, A + B, LT, 2, 2, 2, 2) KEEP(het, 1, true, true, x * a + b, LT, 2, 1, 1, 2)
#endif
#if VP_PART == 2
OB(flux_mul_non1, 0, true, true, x * a, x * A, NL, 1, 1, 1, 2) OB(flux_mul_non2, 1, true, true, x * a, x * A, NL, 2, 2, 2, 2) OB(flux_mul_pair, 0, false, true, x * a, x * A, NL, 1, 1, 1, 2) OB(flux_mul_pair2, 1, false, true, x * a, x * A, NL, 2, 1, 1, 2) OB(flux_neg_non, 1, true, false, -a, -A, NL, 2, 1, 1, 6)
#endif
#if VP_PART == 3
OB(flux_add_non1, 0, true, true, a + b, A + B, NL, 1, 1, 1, 2) OB(flux_add_non2, 1, true, true, a + b, A + B, NL, 2, 2, 2, 2) OB(flux_add_nojac, 1, true, false, a + b, A + B, NL, 2, 1, 1, 6)
#endif
#if VP_PART == 4
OB(flux_add_pair, 0, false, true, a + b, A + B, NL, 1, 1, 1, 2) OB(flux_add_pair2, 1, false, false, a + b, A + B, NL, 2, 1, 1, 2) KEEP(non, 1, true, true, a + b, NL, 2, 1, 1, 2)
#endif
