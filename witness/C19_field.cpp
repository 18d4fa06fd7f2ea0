// PARTS: 9
// fields: every access path designates the value of the right cell
#define VP_DCAP 64
#include "notimer.hpp"
#include <fmt/format.h>
#include <fmt/color.h>
#include <iostream>
#include <iomanip>
#include <sstream>
#define endl flush // no locale machinery in the analysed code
#include "store.hpp"
#include <samurai/field.hpp>
using namespace samurai; using namespace st;
extern "C" double val(int i) PURE; extern "C" double valc(int i, int c) PURE; extern "C" double vw(int k, int i) PURE; extern "C" double sc(int k) PURE;
using I = default_config::interval_t;
template <int n> using X = xt::xtensor_fixed<int, xt::xshape<n>>;
template <int d> using CA = CellArray<d, I, 3>;
template <int d> static X<d - 1> at(int a, int b) { X<d - 1> y; if constexpr (d > 1) y[0] = crd_y() + a; if constexpr (d > 2) y[1] = crd_z() + b; return y; }
// stored rows (reference): level, y, z, row symbol, length; the cells of the mesh are the inner ones (one cell less on each side)
struct Row { int lev, y, z, r, len, first; };
static const Row rows[4] = {{1, 0, 0, 0, 4, 0}, {1, 1, 0, 1, 3, 4}, {2, 0, 0, 2, 5, 7}, {2, 3, 1, 3, 4, 12}};
template <int d> static bool in(int k) { return d > 1 || k == 0 || k == 2; }
template <int d> static int base(int k) { int n = 0; for (int j = 0; j < k; ++j) if (in<d>(j)) n += rows[j].len; return n; }
template <int d> static int total() { return base<d>(4); }
template <int d> struct Msh { enum class mesh_id_t { reference, cells }; struct config { using mesh_id_t = Msh::mesh_id_t; }; using interval_t = I; using ca_type = CA<d>; static constexpr size_t dim = d; CA<d> c, o; const CA<d>& operator[](mesh_id_t m) const { return m == mesh_id_t::cells ? c : o; } template <class... A> auto& get_interval(size_t l, const I& i, A... a) const { return o.get_interval(l, i, a...); } auto& get_interval(size_t l, const I& i, const X<d - 1>& a) const { return o.get_interval(l, i, a); } auto& origin_point() const { return c.origin_point(); } double scaling_factor() const { return c.scaling_factor(); } size_t nb_cells() const { return o.nb_cells(); } bool operator!=(const Msh& m) const { return this != &m; } };
template <int d> static Msh<d> mesh() { Msh<d> m; for (int p = 0; p < 2; ++p) { CellList<d, I, 3> l; for (int k = 3; k >= 0; --k) if (in<d>(k)) l[rows[k].lev][at<d>(rows[k].y, d > 2 ? rows[k].z : 0)].add_interval({crd_row(rows[k].r) + p, crd_row(rows[k].r) + rows[k].len - p}); (p ? m.c : m.o) = CA<d>(l); }
  for_each_interval(m.c, [&](size_t l, auto& i, auto& y) { i.index = m.o[l].get_interval(i, y).index; }); return m; }
template <class F> static void fill(F& f, int n) { if constexpr (F::size == 1) { for (int i = 0; i < n; ++i) f.array()[i] = val(i); } else { for (int i = 0; i < n; ++i) for (int c = 0; c < (int)F::size; ++c) { if constexpr (F::is_soa) f.array()(c, i) = valc(i, c); else f.array()(i, c) = valc(i, c); } } }
template <int d, int n, bool soa> using Fd = Field<Msh<d>, double, n, soa>;
template <int d, class F, class G> static auto with(F& f, const Row& w, int b, int e, int s, G&& g) { I i{crd_row(w.r) + b, crd_row(w.r) + e}; i.step = s; if constexpr (d == 1) return g(f, w.lev, i); else if constexpr (d == 2) return g(f, w.lev, i, crd_y() + w.y); else return g(f, w.lev, i, crd_y() + w.y, crd_z() + w.z); }
#define DIMS(F) F(1) F(2) F(3)
#if VP_PART == 0
#define SC(d) \
W double C19_scalar##d##__impl() { Msh<d> m = mesh<d>(); Fd<d, 1, false> f("u", m); fill(f, total<d>()); const auto& cf = f; double r = double(f.array().size()) * wgt(0); \
  for (int k = 0; k < 4; ++k) { if (!in<d>(k)) continue; auto& w = rows[k]; with<d>(f, w, 1, w.len - 1, 1, [&](auto& g, auto... a) { auto v = g(a...); for (size_t j = 0; j < v.size(); ++j) r += v(j) * vw(k, j); }); with<d>(cf, w, 0, w.len, 2, [&](auto& g, auto... a) { auto v = g(a...); for (size_t j = 0; j < v.size(); ++j) r += v(j) * vw(10 + k, j); }); \
    X<d> c; c[0] = crd_row(w.r) + 1; if (d > 1) c[d > 1 ? 1 : 0] = crd_y() + w.y; if (d > 2) c[d > 2 ? 2 : 0] = crd_z() + w.z; auto cell = m.o.get_cell(w.lev, c); r += f[cell] * vw(20 + k, 0) + cf[cell] * vw(20 + k, 1) + f[cell.index] * vw(20 + k, 2) + cf[cell.index] * vw(20 + k, 3) + f(size_t(k)) * vw(20 + k, 4) + cf(size_t(k)) * vw(20 + k, 5); \
    with<d>(f, w, 2, 3, 1, [&](auto& g, auto... a) { g(a...) = sc(k); return 0; }); f[cell] = sc(10 + k); } \
  for (int i = 0; i < total<d>(); ++i) r += f.array()[i] * vw(30, i); return r; } \
W double C19_scalar##d##__spec() { double r = total<d>() * wgt(0); for (int k = 0; k < 4; ++k) { if (!in<d>(k)) continue; auto& w = rows[k]; int b = base<d>(k); for (int j = 0; j < w.len - 2; ++j) r += val(b + 1 + j) * vw(k, j); for (int j = 0; 2 * j < w.len; ++j) r += val(b + 2 * j) * vw(10 + k, j); for (int q = 0; q < 4; ++q) r += val(b + 1) * vw(20 + k, q); } \
  double now[20]; for (int i = 0; i < total<d>(); ++i) now[i] = val(i); for (int k = 0; k < 4; ++k) { if (!in<d>(k)) continue; r += now[k] * (vw(20 + k, 4) + vw(20 + k, 5)); now[base<d>(k) + 2] = sc(k); now[base<d>(k) + 1] = sc(10 + k); } for (int i = 0; i < total<d>(); ++i) r += now[i] * vw(30, i); return r; }
DIMS(SC)
#endif
#if VP_PART == 1
// vector fields, both layouts
#define VC(d, soa) \
W double C19_vector##d##_##soa##__impl() { Msh<d> m = mesh<d>(); Fd<d, 3, soa> f("u", m); fill(f, total<d>()); const auto& cf = f; double r = double(f.array().size()) * wgt(0); auto el = [](auto& v, size_t j, size_t c) { if constexpr (soa) return double(v(c, j)); else return double(v(j, c)); }; \
  for (int k = 0; k < 4; ++k) { if (!in<d>(k)) continue; auto& w = rows[k]; with<d>(f, w, 1, w.len - 1, 1, [&](auto& g, auto... a) { auto v = g(a...); for (int j = 0; j < w.len - 2; ++j) for (int c = 0; c < 3; ++c) r += el(v, j, c) * vw(k, 10 * j + c); auto q = g(size_t(1), a...); for (int j = 0; j < w.len - 2; ++j) r += q(j) * vw(k, 100 + j); auto p = g(size_t(1), size_t(3), a...); for (int j = 0; j < w.len - 2; ++j) for (int c = 0; c < 2; ++c) r += el(p, j, c) * vw(k, 200 + 10 * j + c); }); \
    with<d>(cf, w, 0, w.len, 2, [&](auto& g, auto... a) { auto v = g(a...); auto q = g(size_t(2), a...); auto p = g(size_t(0), size_t(2), a...); for (int j = 0; 2 * j < w.len; ++j) { for (int c = 0; c < 3; ++c) r += el(v, j, c) * vw(10 + k, 10 * j + c); r += q(j) * vw(10 + k, 100 + j); for (int c = 0; c < 2; ++c) r += el(p, j, c) * vw(10 + k, 200 + 10 * j + c); } }); \
    auto cell = m.o.get_cell(w.lev, crd_row(w.r) + 1, at<d>(w.y, d > 2 ? w.z : 0)); for (int c = 0; c < 3; ++c) r += f[cell](c) * vw(20 + k, c) + cf[cell](c) * vw(20 + k, 10 + c) + f[cell.index](c) * vw(20 + k, 20 + c) + cf[cell.index](c) * vw(20 + k, 30 + c) + f(size_t(k))(c) * vw(20 + k, 40 + c) + cf(size_t(k))(c) * vw(20 + k, 50 + c); \
    with<d>(f, w, 2, 3, 1, [&](auto& g, auto... a) { g(size_t(1), a...) = sc(k); return 0; }); f[cell] = sc(10 + k); } \
  for (int i = 0; i < total<d>(); ++i) for (int c = 0; c < 3; ++c) r += (soa ? f.array()(c, i) : f.array()(i, c)) * vw(30 + c, i); return r; } \
W double C19_vector##d##_##soa##__spec() { double r = 3 * total<d>() * wgt(0); for (int k = 0; k < 4; ++k) { if (!in<d>(k)) continue; auto& w = rows[k]; int b = base<d>(k); for (int j = 0; j < w.len - 2; ++j) { for (int c = 0; c < 3; ++c) r += valc(b + 1 + j, c) * vw(k, 10 * j + c); r += valc(b + 1 + j, 1) * vw(k, 100 + j); for (int c = 0; c < 2; ++c) r += valc(b + 1 + j, 1 + c) * vw(k, 200 + 10 * j + c); } for (int j = 0; 2 * j < w.len; ++j) { for (int c = 0; c < 3; ++c) r += valc(b + 2 * j, c) * vw(10 + k, 10 * j + c); r += valc(b + 2 * j, 2) * vw(10 + k, 100 + j); for (int c = 0; c < 2; ++c) r += valc(b + 2 * j, c) * vw(10 + k, 200 + 10 * j + c); } for (int q = 0; q < 4; ++q) for (int c = 0; c < 3; ++c) r += valc(b + 1, c) * vw(20 + k, 10 * q + c); } \
  double now[20][3]; for (int i = 0; i < total<d>(); ++i) for (int c = 0; c < 3; ++c) now[i][c] = valc(i, c); for (int k = 0; k < 4; ++k) { if (!in<d>(k)) continue; for (int c = 0; c < 3; ++c) r += now[k][c] * (vw(20 + k, 40 + c) + vw(20 + k, 50 + c)); now[base<d>(k) + 2][1] = sc(k); for (int c = 0; c < 3; ++c) now[base<d>(k) + 1][c] = sc(10 + k); } for (int i = 0; i < total<d>(); ++i) for (int c = 0; c < 3; ++c) r += now[i][c] * vw(30 + c, i); return r; }
VC(1, false) VC(1, true) VC(2, false) VC(2, true)
#endif
#if VP_PART == 6
// every interval overload, mutable and const, with and without a step; full-index expression forms
#define ST(d, soa) \
W double C19_steps##d##_##soa##__impl() { Msh<d> m = mesh<d>(); Fd<d, 3, soa> f("u", m); fill(f, total<d>()); const auto& cf = f; double r = 0; auto el = [](auto& v, size_t j, size_t c) { if constexpr (soa) return double(v(c, j)); else return double(v(j, c)); }; \
  for (int k = 0; k < 4; ++k) { if (!in<d>(k)) continue; auto& w = rows[k]; auto all = [&](auto& g, int n, int b, int q0, auto... a) { auto v = g(a...); auto q = g(size_t(2), a...); auto p = g(size_t(1), size_t(3), a...); r += double(v.size()) * vw(b + k, q0 + 500) + double(q.size()) * vw(b + k, q0 + 501) + double(p.size()) * vw(b + k, q0 + 502); for (int j = 0; j < n; ++j) { for (int c = 0; c < 3; ++c) r += el(v, j, c) * vw(b + k, q0 + 10 * j + c); r += q(j) * vw(b + k, q0 + 100 + j); for (int c = 0; c < 2; ++c) r += el(p, j, c) * vw(b + k, q0 + 200 + 10 * j + c); } }; \
    with<d>(f, w, 1, w.len, 2, [&](auto& g, auto... a) { all(g, w.len / 2, 10, 0, a...); }); with<d>(cf, w, 1, w.len, 1, [&](auto& g, auto... a) { all(g, w.len - 1, 20, 1000, a...); }); } return r; } \
W double C19_steps##d##_##soa##__spec() { double r = 0; for (int k = 0; k < 4; ++k) { if (!in<d>(k)) continue; auto& w = rows[k]; int b = base<d>(k); for (int z = 0; z < 2; ++z) { int n = z ? w.len - 1 : w.len / 2, wb = z ? 20 : 10, q0 = z ? 1000 : 0; r += 3 * n * vw(wb + k, q0 + 500) + n * vw(wb + k, q0 + 501) + 2 * n * vw(wb + k, q0 + 502); } auto one = [&](int i, int j, int wb, int q0) { for (int c = 0; c < 3; ++c) r += valc(i, c) * vw(wb + k, q0 + 10 * j + c); r += valc(i, 2) * vw(wb + k, q0 + 100 + j); for (int c = 0; c < 2; ++c) r += valc(i, 1 + c) * vw(wb + k, q0 + 200 + 10 * j + c); }; \
    for (int j = 0; 1 + 2 * j < w.len; ++j) one(b + 1 + 2 * j, j, 10, 0); for (int j = 0; j < w.len - 1; ++j) one(b + 1 + j, j, 20, 1000); } return r; }
ST(2, false) ST(2, true)
W double C19_steps2__impl() { Msh<2> m = mesh<2>(); Fd<2, 1, false> f("u", m); fill(f, total<2>()); const auto& cf = f; double r = 0; for (int k = 0; k < 4; ++k) { auto& w = rows[k]; with<2>(f, w, 1, w.len, 2, [&](auto& g, auto... a) { auto v = g(a...); for (int j = 0; j < w.len / 2; ++j) r += v(j) * vw(k, j); }); with<2>(cf, w, 1, w.len, 1, [&](auto& g, auto... a) { auto v = g(a...); for (int j = 0; j < w.len - 1; ++j) r += v(j) * vw(10 + k, j); }); with<2>(f, w, 0, w.len, 2, [&](auto& g, auto... a) { g(a...) = sc(k); }); } for (int i = 0; i < total<2>(); ++i) r += f.array()[i] * vw(20, i); return r; }
W double C19_steps2__spec() { double r = 0; for (int k = 0; k < 4; ++k) { auto& w = rows[k]; int b = base<2>(k); for (int j = 0; 1 + 2 * j < w.len; ++j) r += val(b + 1 + 2 * j) * vw(k, j); for (int j = 0; j < w.len - 1; ++j) r += val(b + 1 + j) * vw(10 + k, j); for (int j = 0; j < w.len; ++j) r += (j % 2 ? val(b + j) : sc(k)) * vw(20, b + j); } return r; }
#endif
#if VP_PART == 7
// equality: the tolerance, and meshes
static bool eq(double d) { Msh<1> m = mesh<1>(); Fd<1, 1, false> a("a", m), b("b", m); a.fill(0.); b.fill(0.); b.array()[2] = d; return a == b; }
W int C19_equal_eps__impl() { Msh<1> m = mesh<1>(), m2 = mesh<1>(); Fd<1, 1, false> a("a", m), b("b", m2); a.fill(0.); b.fill(0.); return eq(0.5e-15) + 2 * eq(2e-15) + 4 * eq(-2e-15) + 8 * (a == b) + 16 * (a != b); }
W int C19_equal_eps__spec() { return 1 + 16; }
#endif
#if VP_PART == 2
// expressions: pointwise over the cells of the mesh, nothing else written
#define EX(d) \
W double C19_expr##d##__impl() { Msh<d> m = mesh<d>(); Fd<d, 1, false> a("a", m), b("b", m), f("f", m); int n = total<d>(); for (int i = 0; i < n; ++i) { a.array()[i] = valc(i, 0); b.array()[i] = valc(i, 1); f.array()[i] = valc(i, 2); } f = sc(0) * a - b / sc(1) + a * b + sc(2); double r = 0; for (int i = 0; i < n; ++i) r += f.array()[i] * vw(0, i) + a.array()[i] * vw(1, i); a = a + f; for (int i = 0; i < n; ++i) r += a.array()[i] * vw(2, i); Fd<d, 1, false> g = -b + f; for (int k = 0; k < 4; ++k) if (in<d>(k)) for (int j = 1; j < rows[k].len - 1; ++j) r += g.array()[base<d>(k) + j] * vw(3, base<d>(k) + j); return r + double(g.array().size()) * wgt(1); } \
W double C19_expr##d##__spec() { double r = 0; int n = total<d>(); for (int k = 0; k < 4; ++k) if (in<d>(k)) for (int j = 0; j < rows[k].len; ++j) { int i = base<d>(k) + j; bool c = j > 0 && j < rows[k].len - 1; double a = valc(i, 0), b = valc(i, 1), f = c ? sc(0) * a - b / sc(1) + a * b + sc(2) : valc(i, 2); r += f * vw(0, i) + a * vw(1, i) + (c ? a + f : a) * vw(2, i); if (c) r += (f - b) * vw(3, i); } return r + n * wgt(1); }
DIMS(EX)
#define EXV(d, soa) \
W double C19_exprv##d##_##soa##__impl() { Msh<d> m = mesh<d>(); Fd<d, 2, soa> a("a", m), f("f", m); int n = total<d>(); fill(a, n); f.fill(sc(9)); f = sc(0) * a + a * a; double r = 0; for (int i = 0; i < n; ++i) for (int c = 0; c < 2; ++c) r += (soa ? f.array()(c, i) : f.array()(i, c)) * vw(c, i); return r; } \
W double C19_exprv##d##_##soa##__spec() { double r = 0; for (int k = 0; k < 4; ++k) if (in<d>(k)) for (int j = 0; j < rows[k].len; ++j) for (int c = 0; c < 2; ++c) { int i = base<d>(k) + j; double a = valc(i, c); r += (j > 0 && j < rows[k].len - 1 ? sc(0) * a + a * a : sc(9)) * vw(c, i); } return r; }
EXV(1, false) EXV(2, true)
#endif
#if VP_PART == 3
// copies, fill, make_field
W double C19_copy__impl() { Msh<1> m = mesh<1>(), m2; Fd<1, 1, false> a("a", m); int n = total<1>(); fill(a, n); Fd<1, 1, false> b(a), c("c", m); c = a; a.fill(sc(0)); b.array()[1] = sc(1); double r = 0; for (int i = 0; i < n; ++i) r += a.array()[i] * vw(0, i) + b.array()[i] * vw(1, i) + c.array()[i] * vw(2, i); Fd<1, 1, false> e(std::move(c)); for (int i = 0; i < n; ++i) r += e.array()[i] * vw(3, i); r += (&b.mesh() == &m) * wgt(0) + (&e.mesh() == &m) * wgt(1); return r; }
W double C19_copy__spec() { double r = 0; int n = total<1>(); for (int i = 0; i < n; ++i) r += sc(0) * vw(0, i) + (i == 1 ? sc(1) : val(i)) * vw(1, i) + val(i) * (vw(2, i) + vw(3, i)); return r + wgt(0) + wgt(1); }
W double C19_copyv__impl() { Msh<2> m = mesh<2>(); Fd<2, 2, false> a("a", m); int n = total<2>(); fill(a, n); Fd<2, 2, false> b(a), c("c", m); c = b; a.fill(sc(0)); double r = 0; for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) r += a.array()(i, k) * vw(k, i) + b.array()(i, k) * vw(2 + k, i) + c.array()(i, k) * vw(4 + k, i); return r; }
W double C19_copyv__spec() { double r = 0; for (int i = 0; i < total<2>(); ++i) for (int k = 0; k < 2; ++k) r += sc(0) * vw(k, i) + valc(i, k) * (vw(2 + k, i) + vw(4 + k, i)); return r; }
W double C19_make__impl() { Msh<2> m = mesh<2>(); auto a = make_field<double, 1>("a", m, sc(0)); auto b = make_field<1>("b", m, sc(1)); auto c = make_field<2, true>("c", m, sc(2)); auto f = make_field<1>("f", m, [](const auto& x) { return sc(5) * x[0] + sc(6) * x[1]; }); double r = 0; for (int i = 0; i < total<2>(); ++i) r += a.array()[i] * vw(0, i) + b.array()[i] * vw(1, i) + c.array()(0, i) * vw(2, i) + c.array()(1, i) * vw(3, i) + f.array()[i] * vw(4, i); return r; }
W double C19_make__spec() { double r = 0; for (int k = 0; k < 4; ++k) for (int j = 0; j < rows[k].len; ++j) { int i = base<2>(k) + j; double h = rows[k].lev == 1 ? 0.5 : 0.25; r += sc(0) * vw(0, i) + sc(1) * vw(1, i) + sc(2) * (vw(2, i) + vw(3, i)); if (j > 0 && j < rows[k].len - 1) r += (sc(5) * h * (crd_row(rows[k].r) + j + 0.5) + sc(6) * h * (crd_y() + rows[k].y + 0.5)) * vw(4, i); } return r; }
#endif
#if VP_PART == 4
// iterators: one slice per run of cells, in both directions
W double C19_iter__impl() { Msh<2> m = mesh<2>(); Fd<2, 1, false> f("u", m); fill(f, total<2>()); double r = 0; int n = 0; for (auto it = f.begin(); it != f.end(); ++it, ++n) { auto v = *it; for (size_t j = 0; j < v.size(); ++j) r += v(j) * vw(n, j); } n = 0; const auto& g = f; for (auto it = g.cbegin(); it != g.cend(); ++it, ++n) { auto v = *it; for (size_t j = 0; j < v.size(); ++j) r += v(j) * vw(10 + n, j); } n = 0; for (auto it = f.rbegin(); it != f.rend(); ++it, ++n) { auto v = *it; for (size_t j = 0; j < v.size(); ++j) r += v(j) * vw(20 + n, j); } return r; }
W double C19_iter__spec() { double r = 0; for (int k = 0; k < 4; ++k) for (int j = 1; j < rows[k].len - 1; ++j) r += val(base<2>(k) + j) * (vw(k, j - 1) + vw(10 + k, j - 1) + vw(20 + 3 - k, j - 1)); return r; }
W bool C19_equal__impl(int w) { Msh<1> m = mesh<1>(), m2 = mesh<1>(); Fd<1, 1, false> a("a", m), b("b", m); a.fill(0); b.fill(0); for (int k = 0; k < 4; ++k) if (in<1>(k)) for (int j = 0; j < rows[k].len; ++j) { a.array()[base<1>(k) + j] = val(base<1>(k) + j); b.array()[base<1>(k) + j] = valc(base<1>(k) + j, 0); } return a == b; }
W bool C19_equal__spec(int w) { bool r = true; for (int k = 0; k < 4; ++k) if (in<1>(k)) for (int j = 1; j < rows[k].len - 1; ++j) r &= !(std::abs(val(base<1>(k) + j) - valc(base<1>(k) + j, 0)) > 1e-15); return r; }
#endif
#if VP_PART == 5
// an interval that sticks out of its row is refused
static double reach(int b, int e, int s) { Msh<2> m = mesh<2>(); Fd<2, 1, false> f("u", m); fill(f, total<2>()); I i{crd_row(1) + b, crd_row(1) + e}; i.step = s; auto v = f(1, i, crd_y() + 1); return v(0); }
template <bool soa, int k, bool cst> static double reachv(int b, int e) { Msh<2> m = mesh<2>(); Fd<2, 2, soa> f0("u", m); fill(f0, total<2>()); std::conditional_t<cst, const Fd<2, 2, soa>, Fd<2, 2, soa>>& f = f0; I i{crd_row(1) + b, crd_row(1) + e}; int y = crd_y() + 1; if constexpr (k == 0) return f(1, i, y)(0, 0); else if constexpr (k == 1) return f(size_t(1), 1, i, y)(0); else return f(size_t(0), size_t(1), 1, i, y)(0, 0); }
W double C19_reach_ok__impl() { return reach(0, 3, 1) * vw(0, 0) + reach(1, 2, 1) * vw(1, 0) + reach(1, 3, 2) * vw(2, 0); }
W double C19_reach_ok__spec() { return val(4) * vw(0, 0) + val(5) * vw(1, 0) + val(5) * vw(2, 0); }
W double C19_reach_end__impl() { return reach(1, 4, 1); }
W double C19_reach_end__spec() { __builtin_trap(); }
#define REFUSED(n, ...) W double C19_reach_##n##__impl() { return __VA_ARGS__; } W double C19_reach_##n##__spec() { __builtin_trap(); }
REFUSED(missing, reach(7, 9, 1))
REFUSED(v0, (reachv<false, 0, false>(1, 4))) REFUSED(v1, (reachv<false, 1, true>(1, 4))) REFUSED(v2, (reachv<false, 2, true>(1, 4))) REFUSED(v3, (reachv<true, 0, true>(1, 4))) REFUSED(v4, (reachv<true, 1, false>(1, 4))) REFUSED(v5, (reachv<true, 2, false>(1, 4)))
#endif

#if VP_PART == 8
// boundary conditions travel with the field: every copy has its own equal conditions, assignment replaces the old ones
using FB = Fd<1, 1, false>;
namespace samurai { template <> class Bc<FB> { public: int tag; Bc(int t) : tag(t) {} virtual ~Bc() = default; virtual std::unique_ptr<Bc> clone() const { return std::make_unique<Bc>(tag); } }; }
extern "C" int bt(int k) PURE;
W double C19_bc__impl() { Msh<1> m = mesh<1>(); FB a("a", m), c("c", m); fill(a, 9); fill(c, 9); a.attach_bc(Bc<FB>(bt(0))); a.attach_bc(Bc<FB>(bt(1))); c.attach_bc(Bc<FB>(bt(2))); FB b(a); c = a; b.attach_bc(Bc<FB>(bt(3))); double r = double(a.get_bc().size()) * wgt(0) + double(b.get_bc().size()) * wgt(1) + double(c.get_bc().size()) * wgt(2); for (int k = 0; k < 2; ++k) r += a.get_bc()[k]->tag * vw(0, k) + b.get_bc()[k]->tag * vw(1, k) + c.get_bc()[k]->tag * vw(2, k) + (a.get_bc()[k].get() == b.get_bc()[k].get()) * vw(3, k) + (a.get_bc()[k].get() == c.get_bc()[k].get()) * vw(4, k); return r + b.get_bc()[2]->tag * vw(5, 0); }
W double C19_bc__spec() { double r = 2 * wgt(0) + 3 * wgt(1) + 2 * wgt(2); for (int k = 0; k < 2; ++k) r += bt(k) * (vw(0, k) + vw(1, k) + vw(2, k)); return r + bt(3) * vw(5, 0); }
#endif
