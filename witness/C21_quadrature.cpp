// PARTS: 4
// Gauss-Legendre quadrature on a cell, and the error norms built on it
#define VP_DCAP 64
#include "notimer.hpp"
#include <fmt/format.h>
#include <iostream>
#include <iomanip>
#include <sstream>
#define endl flush
#include "store.hpp"
#include <samurai/field.hpp>
#include <samurai/numeric/gauss_legendre.hpp>
#include <samurai/numeric/error.hpp>
using namespace samurai; using namespace st;
using I = default_config::interval_t;
extern "C" double at_x(int d) PURE; extern "C" double len_h() PURE; extern "C" double cf(int a, int b, int c, int n) PURE; extern "C" double exact(int lev, int a, int b) PURE; extern "C" double valc(int i, int c) PURE;
template <int d> static Cell<d, I> cell() { Cell<d, I> c; c.level = 0; c.index = 3; c.length = 2 * len_h(); for (int k = 0; k < d; ++k) { c.origin_point[k] = at_x(k); c.indices[k] = 0; } return c; }
static double pw(double x, int n) { double r = 1; for (int i = 0; i < n; ++i) r *= x; return r; }
static double mom(int n) { return n % 2 ? 0. : 2. / (n + 1); } // integral of t^n over [-1, 1]
// one dimension: every monomial up to the degree asked for, for every rule
template <int P> static double q1() { auto c = cell<1>(); GaussLegendre<P> g; double r = 0; for (int k = 0; k <= P; ++k) r += cf(k, 0, 0, P) * g.template quadrature<1>(c, [&](const auto& x) { return pw(x[0] - at_x(0) - len_h(), k); }); return r; }
template <int P> static double s1() { double r = 0; for (int k = 0; k <= P; ++k) r += cf(k, 0, 0, P) * mom(k) * pw(len_h(), k + 1); return r; }
#define D1(P) W double C21_line##P##__impl() { return q1<P>(); } W double C21_line##P##__spec() { return s1<P>(); }
#if VP_PART == 0
D1(0) D1(1) D1(2) D1(3) D1(4) D1(5) D1(6) D1(7) D1(8) D1(9) D1(10) D1(11) D1(12) D1(13) D1(14) D1(15) D1(17) D1(18) D1(19)
#endif
#if VP_PART == 1
D1(21) D1(23) D1(25) D1(27) D1(29) D1(31) D1(33) D1(35) D1(37) D1(39)
#endif
#if VP_PART == 2
// product rules in two and three dimensions, scalar and vector valued
template <int P> static double q2() { auto c = cell<2>(); GaussLegendre<P> g; double r = 0; for (int a = 0; a <= P; ++a) for (int b = 0; b <= P; ++b) r += cf(a, b, 0, P) * g.template quadrature<1>(c, [&](const auto& x) { return pw(x[0] - at_x(0) - len_h(), a) * pw(x[1] - at_x(1) - len_h(), b); }); return r; }
template <int P> static double s2() { double r = 0; for (int a = 0; a <= P; ++a) for (int b = 0; b <= P; ++b) r += cf(a, b, 0, P) * mom(a) * mom(b) * pw(len_h(), a + b + 2); return r; }
template <int P> static double q3() { auto c = cell<3>(); GaussLegendre<P> g; double r = 0; for (int a = 0; a <= P; ++a) for (int b = 0; b <= P; ++b) for (int e = 0; e <= P; ++e) r += cf(a, b, e, P) * g.template quadrature<1>(c, [&](const auto& x) { return pw(x[0] - at_x(0) - len_h(), a) * pw(x[1] - at_x(1) - len_h(), b) * pw(x[2] - at_x(2) - len_h(), e); }); return r; }
template <int P> static double s3() { double r = 0; for (int a = 0; a <= P; ++a) for (int b = 0; b <= P; ++b) for (int e = 0; e <= P; ++e) r += cf(a, b, e, P) * mom(a) * mom(b) * mom(e) * pw(len_h(), a + b + e + 3); return r; }
#define D2(P) W double C21_plane##P##__impl() { return q2<P>(); } W double C21_plane##P##__spec() { return s2<P>(); }
#define D3(P) W double C21_cube##P##__impl() { return q3<P>(); } W double C21_cube##P##__spec() { return s3<P>(); }
// the rule with unequal weights, in three dimensions
static const int es[3] = {0, 1, 4};
W double C21_cube5__impl() { auto c = cell<3>(); GaussLegendre<5> g; double r = 0; for (int a : es) for (int b : es) for (int e : es) r += cf(a, b, e, 5) * g.template quadrature<1>(c, [&](const auto& x) { return pw(x[0] - at_x(0) - len_h(), a) * pw(x[1] - at_x(1) - len_h(), b) * pw(x[2] - at_x(2) - len_h(), e); }); return r; }
W double C21_cube5__spec() { double r = 0; for (int a : es) for (int b : es) for (int e : es) r += cf(a, b, e, 5) * mom(a) * mom(b) * mom(e) * pw(len_h(), a + b + e + 3); return r; }
D2(0) D2(1) D2(3) D2(5) D3(0) D3(1) D3(3)
W double C21_vector__impl() { auto c = cell<2>(); GaussLegendre<3> g; auto q = g.quadrature<2>(c, [&](const auto& x) { xt::xtensor_fixed<double, xt::xshape<2>> v; v[0] = pw(x[0] - at_x(0) - len_h(), 2) + cf(0, 0, 0, 0); v[1] = pw(x[1] - at_x(1) - len_h(), 3) + cf(1, 0, 0, 0) * (x[0] - at_x(0)); return v; }); return q[0] * wgt(0) + q[1] * wgt(1); }
W double C21_vector__spec() { double h = len_h(); return (4. / 3 * h * h * h * h + 4 * h * h * cf(0, 0, 0, 0)) * wgt(0) + cf(1, 0, 0, 0) * 4 * h * h * h * wgt(1); }
#endif
#if VP_PART == 3
// errors: over the cells of the mesh only, weighted by their volume
template <int d> struct Msh { enum class mesh_id_t { reference, cells }; struct config { using mesh_id_t = Msh::mesh_id_t; }; using interval_t = I; using ca_type = CellArray<d, I, 3>; static constexpr size_t dim = d; ca_type c, o; const ca_type& operator[](mesh_id_t m) const { return m == mesh_id_t::cells ? c : o; } size_t nb_cells() const { return o.nb_cells(); } auto& origin_point() const { return c.origin_point(); } double scaling_factor() const { return c.scaling_factor(); } template <class... A> auto& get_interval(size_t l, const I& i, A... a) const { return o.get_interval(l, i, a...); } };
struct Rw { int lev, y, x, len; }; static const Rw rw[3] = {{1, 0, 0, 4}, {1, 1, 0, 3}, {2, 4, 8, 3}};
template <int d> static bool in(int k) { return d > 1 || k != 1; }
template <int d> static Msh<d> mesh() { Msh<d> m; for (int p = 0; p < 2; ++p) { CellList<d, I, 3> l; for (int k = 0; k < 3; ++k) if (in<d>(k)) { xt::xtensor_fixed<int, xt::xshape<d - 1>> y; for (int q = 1; q < d; ++q) y[q - 1] = rw[k].y; l[rw[k].lev][y].add_interval({rw[k].x + p, rw[k].x + rw[k].len}); } (p ? m.c : m.o) = CellArray<d, I, 3>(l); } for_each_interval(m.c, [&](size_t l, auto& i, auto& y) { i.index = m.o[l].get_interval(i, y).index; }); return m; }
template <class X> static double ex(const X& x, int c) { int q[3] = {0, 0, 0}; for (size_t k = 0; k < x.size(); ++k) q[k] = int(x[k] * 8); return exact(q[0], q[1] + 1000 * c, q[2]); }
template <int d> static double ref(bool sol, int nc) { double r = 0; int n = 0; for (int k = 0; k < 3; ++k) if (in<d>(k)) for (int j = 0; j < rw[k].len; ++j, ++n) if (j) { double h = rw[k].lev == 1 ? 0.5 : 0.25, v = d == 1 ? h : d == 2 ? h * h : h * h * h, x[3] = {h * (rw[k].x + j + 0.5), d > 1 ? h * (rw[k].y + 0.5) : 0, d > 2 ? h * (rw[k].y + 0.5) : 0}; for (int c = 0; c < nc; ++c) { double e = exact(int(x[0] * 8), int(x[1] * 8) + 1000 * c, int(x[2] * 8)); if (!sol) e -= valc(n, c); r += e * e * v; } } return std::sqrt(r); }
template <int d> static int total() { int n = 0; for (int k = 0; k < 3; ++k) if (in<d>(k)) n += rw[k].len; return n; }
#define L2(d) \
W double C21_l2_##d##__impl() { auto m = mesh<d>(); Field<Msh<d>, double, 1, false> f("u", m); for (int i = 0; i < total<d>(); ++i) f.array()[i] = valc(i, 0); return L2_error(f, [](const auto& x) { return ex(x, 0); }); } \
W double C21_l2_##d##__spec() { return ref<d>(false, 1); } \
W double C21_rel_##d##__impl() { auto m = mesh<d>(); Field<Msh<d>, double, 1, false> f("u", m); for (int i = 0; i < total<d>(); ++i) f.array()[i] = valc(i, 0); return L2_error<true>(f, [](const auto& x) { return ex(x, 0); }); } \
W double C21_rel_##d##__spec() { return ref<d>(false, 1) / ref<d>(true, 1); }
L2(1) L2(2) L2(3)
template <bool rel> static double vec() { auto m = mesh<2>(); Field<Msh<2>, double, 2, false> f("u", m); for (int i = 0; i < total<2>(); ++i) for (int c = 0; c < 2; ++c) f.array()(i, c) = valc(i, c); return L2_error<rel>(f, [](const auto& x) { xt::xtensor_fixed<double, xt::xshape<2>> v; v[0] = ex(x, 0); v[1] = ex(x, 1); return v; }); }
W double C21_l2_vector__impl() { return vec<false>(); } W double C21_l2_vector__spec() { return ref<2>(false, 2); }
W double C21_rel_vector__impl() { return vec<true>(); } W double C21_rel_vector__spec() { return ref<2>(false, 2) / ref<2>(true, 2); }
W double C21_make__impl() { auto m = mesh<2>(); GaussLegendre<1> g; auto f = make_field<1>("u", m, [](const auto& x) { return wgt(0) * x[0] + wgt(1) * x[1] + wgt(2); }, g); double r = 0; for (int i = 0; i < total<2>(); ++i) r += f.array()[i] * valc(i, 0); return r; }
W double C21_make__spec() { double r = 0; int n = 0; for (int k = 0; k < 3; ++k) for (int j = 0; j < rw[k].len; ++j, ++n) if (j) { double h = rw[k].lev == 1 ? 0.5 : 0.25; r += (wgt(0) * h * (rw[k].x + j + 0.5) + wgt(1) * h * (rw[k].y + 0.5) + wgt(2)) * valc(n, 0); } return r; }
W double C21_order__impl(double h1, double e1, double h2, double e2) { return convergence_order(h1, e1, h2, e2) * wgt(0) + compute_error_bound_hidden_constant<2>(h1, e1) * wgt(1) + theoretical_error_bound<3>(e1, h2) * wgt(2); }
W double C21_order__spec(double h1, double e1, double h2, double e2) { return std::log(e2 / e1) / std::log(h2 / h1) * wgt(0) + e1 / (h1 * h1) * wgt(1) + e1 * (h2 * h2 * h2) * wgt(2); }
#endif
