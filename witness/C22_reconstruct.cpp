// PARTS: 10
// FLAGS: -fno-threadsafe-statics
// reconstruction on finer levels
#define VP_DCAP 64
#include "notimer.hpp"
#include "hashmap.hpp"
#include <fmt/format.h>
#include <iostream>
#include <iomanip>
#include <sstream>
#define endl flush
#include "store.hpp"
#include "wfield.hpp"
#include <samurai/reconstruction.hpp>
using namespace samurai; using namespace st;
extern "C" double pv(int i, int j, int k) PURE;
constexpr double pw(int o, int m, int par) { if (m == 0) return 1; int a = m < 0 ? -m : m; double c = o == 1 ? 1. / 8 : o == 2 ? (a == 1 ? 22. / 128 : -3. / 128) : (a == 1 ? 201. / 1024 : a == 2 ? -44. / 1024 : 5. / 1024); double v = m < 0 ? c : -c; return par ? -v : v; }
template <int o, int lev, class F> static double ref(int i, int j, int k, int d, F&& f) { if constexpr (lev == 0) return f(i, j, k); else { double r = 0; int bj = d > 1 ? o : 0, bk = d > 2 ? o : 0; for (int a = -o; a <= o; ++a) for (int b = -bj; b <= bj; ++b) for (int c = -bk; c <= bk; ++c) r += pw(o, a, i & 1) * pw(o, b, j & 1) * pw(o, c, k & 1) * ref<o, lev - 1>((i >> 1) + a, (j >> 1) + b, (k >> 1) + c, d, f); return r; } }
#if VP_PART == 0
template <int o, int lev> static double impl1() { double r = 0; for (int i = -1; i < (1 << lev) + 1; ++i) { auto p = prediction<o, int>(lev, i); for (auto& c : p.coeff) r += wgt(i) * c.second * pv(c.first[0], 0, 0); } return r; }
template <int o, int lev> static double spec1() { double r = 0; for (int i = -1; i < (1 << lev) + 1; ++i) r += wgt(i) * ref<o, lev>(i, 0, 0, 1, [](int a, int b, int c) { return pv(a, b, c); }); return r; }
#define P1(o, l) W double C22_coef1_##o##_##l##__impl() { return impl1<o, l>(); } W double C22_coef1_##o##_##l##__spec() { return spec1<o, l>(); }
P1(1, 0) P1(1, 1) P1(1, 2) P1(1, 3) P1(2, 1) P1(2, 2) P1(3, 1)
#endif

#if VP_PART == 1
template <int o, int lev, int d> static double impln(int step) { double r = 0; for (int i = 0; i < (1 << lev); i += step) for (int j = 0; j < (1 << lev); j += step) for (int k = 0; k < (d > 2 ? 1 << lev : 1); k += step) { auto put = [&](auto p) { for (auto& c : p.coeff) r += wgt(100 * i + 10 * j + k) * c.second * pv(c.first[0], c.first[1], d > 2 ? c.first[d - 1] : 0); }; if constexpr (d == 2) put(prediction<o, int>(lev, i, j)); else put(prediction<o, int>(lev, i, j, k)); } return r; }
template <int o, int lev, int d> static double specn(int step) { double r = 0; for (int i = 0; i < (1 << lev); i += step) for (int j = 0; j < (1 << lev); j += step) for (int k = 0; k < (d > 2 ? 1 << lev : 1); k += step) r += wgt(100 * i + 10 * j + k) * ref<o, lev>(i, j, k, d, [](int a, int b, int c) { return pv(a, b, c); }); return r; }
#define PN(d, o, l, st) W double C22_coef##d##_##o##_##l##__impl() { return impln<o, l, d>(st); } W double C22_coef##d##_##o##_##l##__spec() { return specn<o, l, d>(st); }
PN(2, 1, 1, 1) PN(2, 1, 2, 3) PN(2, 2, 1, 1) PN(3, 1, 1, 1)
// constants are preserved, and the average of the children is the parent value
#endif
#if VP_PART == 2 || VP_PART == 3 || VP_PART == 7
extern "C" double src(int el, size_t level, int i, int j, int k) PURE;
struct QF { using interval_t = Int; struct mesh_t { struct config { static constexpr size_t prediction_order = 1; }; }; using S2 = xt::xtensor_fixed<double, xt::xshape<2>>;
  S2 operator()(size_t l, const Int& i, int j = 0, int k = 0) const { S2 r; r[0] = src(-1, l, i.start, j, k); r[1] = src(-1, l, i.start + 1, j, k); return r; }
  S2 operator()(size_t e, size_t l, const Int& i, int j = 0, int k = 0) const { S2 r; r[0] = src(int(e), l, i.start, j, k); r[1] = src(int(e), l, i.start + 1, j, k); return r; } };
template <class R> static double two(const R& r, int w) { return r[0] * wgt(2 * w) + r[1] * wgt(2 * w + 1); }
template <int o, int lev> static double rf(int el, size_t l, int i, int j, int k, int d, int w, int a0, int a1, int b0 = 0, int b1 = 1, int c0 = 0, int c1 = 1) { double r = 0; for (int t = 0; t < 2; ++t) for (int a = a0; a < a1; ++a) for (int b = b0; b < b1; ++b) for (int c = c0; c < c1; ++c) r += wgt(2 * w + t) * ref<o, lev>(a, b, c, d, [&](int x, int y, int z) { return src(el, l, i + t + x, j + y, k + z); }); return r; }
#endif
#if VP_PART == 2
W double C22_portion1__impl(size_t l, int i) { QF f; Int I{i, i + 2}; return two(portion(f, 1, l, I, 1, 1), 0) + two(portion<1>(f, 0, l, I, 2, 3), 1) + two(portion(f, l, I, 1, 0), 2) + two(portion<2>(f, l, I, 1, 1), 3) + two(portion(f, l, I, 2, Int{1, 3}), 4) + two(portion(f, l, I, 2, -1), 5); }
W double C22_portion1__spec(size_t l, int i) { return rf<1, 1>(1, l, i, 0, 0, 1, 0, 1, 2) + rf<1, 2>(0, l, i, 0, 0, 1, 1, 3, 4) + rf<1, 1>(-1, l, i, 0, 0, 1, 2, 0, 1) + rf<2, 1>(-1, l, i, 0, 0, 1, 3, 1, 2) + rf<1, 2>(-1, l, i, 0, 0, 1, 4, 1, 3) + rf<1, 2>(-1, l, i, 0, 0, 1, 5, -1, 0); }
W double C22_portion2__impl(size_t l, int i, int j) { QF f; Int I{i, i + 2}; return two(portion(f, 1, l, I, j, 1, 1, 0), 0) + two(portion<1>(f, 0, l, I, j, 1, 0, 1), 1) + two(portion(f, l, I, j, 1, 0, 1), 2) + two(portion<1>(f, l, I, j, 1, 1, 1), 3) + two(portion(f, l, I, j, 1, Int{0, 2}, Int{1, 2}), 4) + two(portion<1>(f, l, I, j, 1, Int{1, 2}, Int{0, 2}), 5) + two(portion(f, 2, l, I, j, 1, Int{0, 2}, Int{1, 2}), 6) + two(portion<1>(f, 3, l, I, j, 1, Int{1, 2}, Int{0, 2}), 7); }
W double C22_portion2__spec(size_t l, int i, int j) { return rf<1, 1>(1, l, i, j, 0, 2, 0, 1, 2, 0, 1) + rf<1, 1>(0, l, i, j, 0, 2, 1, 0, 1, 1, 2) + rf<1, 1>(-1, l, i, j, 0, 2, 2, 0, 1, 1, 2) + rf<1, 1>(-1, l, i, j, 0, 2, 3, 1, 2, 1, 2) + rf<1, 1>(-1, l, i, j, 0, 2, 4, 0, 2, 1, 2) + rf<1, 1>(-1, l, i, j, 0, 2, 5, 1, 2, 0, 2) + rf<1, 1>(2, l, i, j, 0, 2, 6, 0, 2, 1, 2) + rf<1, 1>(3, l, i, j, 0, 2, 7, 1, 2, 0, 2); }
// what was asked for before does not matter
W double C22_again1__impl(size_t l, int i) { QF f; Int I{i, i + 2}; return two(portion(f, l, I, 1, Int{0, 2}), 0) + two(portion(f, l, I, 2, Int{0, 2}), 1) + two(portion(f, l, I, 1, Int{0, 2}), 2) + two(portion(f, l + 1, I, 1, Int{0, 2}), 3) + two(portion(f, l, I, 1, 1), 4) + two(portion<2>(f, l, I, 1, 1), 5) + two(portion(f, l, I, 2, 1), 6) + two(detail::portion_impl<1>(f, 0, l, I, 1, Int{0, 2}), 7) + two(detail::portion_impl<1>(f, 0, l, I, 2, Int{0, 2}), 8) + two(detail::portion_impl<1>(f, 0, l, I, 1, Int{0, 2}), 9); }
W double C22_again1__spec(size_t l, int i) { return rf<1, 1>(-1, l, i, 0, 0, 1, 0, 0, 2) + rf<1, 2>(-1, l, i, 0, 0, 1, 1, 0, 2) + rf<1, 1>(-1, l, i, 0, 0, 1, 2, 0, 2) + rf<1, 1>(-1, l + 1, i, 0, 0, 1, 3, 0, 2) + rf<1, 1>(-1, l, i, 0, 0, 1, 4, 1, 2) + rf<2, 1>(-1, l, i, 0, 0, 1, 5, 1, 2) + rf<1, 2>(-1, l, i, 0, 0, 1, 6, 1, 2) + rf<1, 1>(0, l, i, 0, 0, 1, 7, 0, 2) + rf<1, 2>(0, l, i, 0, 0, 1, 8, 0, 2) + rf<1, 1>(0, l, i, 0, 0, 1, 9, 0, 2); }
W double C22_again2__impl(int i, int j) { QF f; Int I{i, i + 2}; return two(portion(f, 3, I, j, 1, Int{0, 1}, Int{0, 2}), 0) + two(portion(f, 3, I, j, 2, Int{0, 1}, Int{0, 2}), 1) + two(portion(f, 0, 3, I, j, 1, Int{0, 1}, Int{0, 2}), 2) + two(portion(f, 0, 3, I, j, 2, Int{0, 1}, Int{0, 2}), 3) + two(portion(f, 3, I, j, 1, Int{0, 1}, Int{0, 2}), 4) + two(portion(f, 0, 3, I, j, 2, Int{0, 1}, Int{0, 2}), 5); }
W double C22_again2__spec(int i, int j) { return rf<1, 1>(-1, 3, i, j, 0, 2, 0, 0, 1, 0, 2) + rf<1, 2>(-1, 3, i, j, 0, 2, 1, 0, 1, 0, 2) + rf<1, 1>(0, 3, i, j, 0, 2, 2, 0, 1, 0, 2) + rf<1, 2>(0, 3, i, j, 0, 2, 3, 0, 1, 0, 2) + rf<1, 1>(-1, 3, i, j, 0, 2, 4, 0, 1, 0, 2) + rf<1, 2>(0, 3, i, j, 0, 2, 5, 0, 1, 0, 2); }
#endif
#if VP_PART == 3
W double C22_portion3__impl(size_t l, int i, int j, int k) { QF f; Int I{i, i + 2}; return two(portion(f, 1, l, I, j, k, 1, 1, 0, 1), 0) + two(portion<1>(f, 0, l, I, j, k, 1, 0, 1, 0), 1) + two(portion(f, l, I, j, k, 1, 0, 1, 1), 2) + two(portion<1>(f, l, I, j, k, 1, 1, 1, 0), 3); }
W double C22_portion3__spec(size_t l, int i, int j, int k) { return rf<1, 1>(1, l, i, j, k, 3, 0, 1, 2, 0, 1, 1, 2) + rf<1, 1>(0, l, i, j, k, 3, 1, 0, 1, 1, 2, 0, 1) + rf<1, 1>(-1, l, i, j, k, 3, 2, 0, 1, 1, 2, 1, 2) + rf<1, 1>(-1, l, i, j, k, 3, 3, 1, 2, 1, 2, 0, 1); }
W double C22_portion3i__impl(size_t l, int i, int j, int k) { QF f; Int I{i, i + 2}; return two(portion(f, l, I, j, k, 1, Int{0, 2}, Int{1, 2}, Int{0, 1}), 4) + two(portion<1>(f, l, I, j, k, 1, Int{1, 2}, Int{0, 2}, Int{0, 1}), 5) + two(portion(f, 2, l, I, j, k, 1, Int{0, 1}, Int{1, 2}, Int{0, 2}), 6) + two(portion<1>(f, 3, l, I, j, k, 1, Int{1, 2}, Int{0, 2}, Int{1, 2}), 7); }
W double C22_portion3i__spec(size_t l, int i, int j, int k) { return rf<1, 1>(-1, l, i, j, k, 3, 4, 0, 2, 1, 2, 0, 1) + rf<1, 1>(-1, l, i, j, k, 3, 5, 1, 2, 0, 2, 0, 1) + rf<1, 1>(2, l, i, j, k, 3, 6, 0, 1, 1, 2, 0, 2) + rf<1, 1>(3, l, i, j, k, 3, 7, 1, 2, 0, 2, 1, 2); }
W double C22_again3__impl(int i, int j, int k) { QF f; Int I{i, i + 2}; return two(portion(f, 3, I, j, k, 1, Int{1, 2}, Int{0, 1}, Int{0, 1}), 0) + two(portion(f, 3, I, j, k, 0, Int{1, 2}, Int{0, 1}, Int{0, 1}), 1) + two(portion(f, 0, 3, I, j, k, 1, Int{1, 2}, Int{0, 1}, Int{0, 1}), 2) + two(portion(f, 0, 3, I, j, k, 0, Int{1, 2}, Int{0, 1}, Int{0, 1}), 3) + two(portion(f, 3, I, j, k, 0, Int{1, 2}, Int{0, 1}, Int{0, 1}), 4) + two(portion(f, 0, 3, I, j, k, 0, Int{1, 2}, Int{0, 1}, Int{0, 1}), 5); }
W double C22_again3__spec(int i, int j, int k) { return rf<1, 1>(-1, 3, i, j, k, 3, 0, 1, 2) + rf<1, 0>(-1, 3, i, j, k, 3, 1, 1, 2) + rf<1, 1>(0, 3, i, j, k, 3, 2, 1, 2) + rf<1, 0>(0, 3, i, j, k, 3, 3, 1, 2) + rf<1, 0>(-1, 3, i, j, k, 3, 4, 1, 2) + rf<1, 0>(0, 3, i, j, k, 3, 5, 1, 2); }
#endif

#if VP_PART >= 4 && VP_PART != 7
using I = default_config::interval_t;
extern "C" double val(int l, int i, int j, int k) PURE; // value of the cell at (i, j, k), counted from the unknown origin of the level
template <int d> struct Msh { enum class mesh_id_t { reference, cells }; struct config { using mesh_id_t = Msh::mesh_id_t; static constexpr size_t prediction_order = VP_PART == 9 ? 9 : 1; }; using interval_t = I; using ca_type = CellArray<d, I, 4>; static constexpr size_t dim = d; ca_type c, o; LevelCellArray<d, I> dom; const ca_type& operator[](mesh_id_t m) const { return m == mesh_id_t::cells ? c : o; } size_t nb_cells() const { return o.nb_cells(); } auto& origin_point() const { return c.origin_point(); } double scaling_factor() const { return c.scaling_factor(); } size_t min_level() const { return c.min_level(); } size_t max_level() const { return c.max_level(); } const auto& domain() const { return dom; } template <class... A> auto& get_interval(size_t l, const I& i, A... a) const { return o.get_interval(l, i, a...); } };
struct Bk { int l, x0, x1, y0, y1; };
template <int d> static int org(int c, int l) { int b[3] = {crd_row(0), d > 1 ? crd_y() : 0, d > 2 ? crd_z() : 0}; return b[c] * (1 << l); }
template <int d> static CellArray<d, I, 4> arr(const Bk* b, int n) { CellList<d, I, 4> l; for (int k = 0; k < n; ++k) for (int y = b[k].y0; y < (d > 1 ? b[k].y1 : b[k].y0 + 1); ++y) for (int z = b[k].y0; z < (d > 2 ? b[k].y1 : b[k].y0 + 1); ++z) { xt::xtensor_fixed<int, xt::xshape<d - 1>> v; if constexpr (d > 1) v[0] = org<d>(1, b[k].l) + y; if constexpr (d > 2) v[1] = org<d>(2, b[k].l) + z; l[b[k].l][v].add_interval({org<d>(0, b[k].l) + b[k].x0, org<d>(0, b[k].l) + b[k].x1}); } return CellArray<d, I, 4>(l); }
template <int d, class F> static void each(const Bk* b, int n, F&& f) { for (int k = 0; k < n; ++k) for (int z = b[k].y0; z < (d > 2 ? b[k].y1 : b[k].y0 + 1); ++z) for (int y = b[k].y0; y < (d > 1 ? b[k].y1 : b[k].y0 + 1); ++y) for (int x = b[k].x0; x < b[k].x1; ++x) f(b[k].l, x, d > 1 ? y : 0, d > 2 ? z : 0); }
// storage is by level, then row, then x: blocks are listed in that order within a level and rows are contiguous, so index by search through the real array
template <int d> static double& ref(Field<Msh<d>, double, 1, false>& f, int l, int x, int y, int z) { xt::xtensor_fixed<int, xt::xshape<d>> c; c[0] = org<d>(0, l) + x; if constexpr (d > 1) c[1] = org<d>(1, l) + y; if constexpr (d > 2) c[2] = org<d>(2, l) + z; return f.array()[f.mesh().o[l].get_index(c)]; }
template <int d> static void mesh(Msh<d>& m, const Bk* cells, int nc, const Bk* all, int na) { m.c = arr<d>(cells, nc); m.o = arr<d>(all, na); for_each_interval(m.c, [&](size_t l, auto& i, auto& y) { i.index = m.o[l].get_interval(i, y).index; }); }
template <int d, int lev> static double up(int l, int x, int y, int z, int i, int j, int k) { return ::ref<1, lev>(i, j, k, d, [&](int a, int b, int c) { return val(l, x + a, y + b, z + c); }); }
#endif
#if VP_PART == 4
static const Bk sc1[] = {{1, 0, 2}, {1, 4, 6}, {1, 8, 10}, {2, 4, 8}, {3, 24, 32}}, sa1[] = {{1, -2, 12}, {2, 4, 8}, {3, 24, 32}}, dc1[] = {{1, 2, 8}, {2, 0, 4}, {3, 32, 40}};
W double C22_transfer1__impl() { Msh<1> m, n; mesh<1>(m, sc1, 5, sa1, 3); mesh<1>(n, dc1, 3, dc1, 3); Field<Msh<1>, double, 1, false> s("s", m), t("t", n); each<1>(sa1, 3, [&](int l, int x, int y, int z) { ref<1>(s, l, x, y, z) = val(l, x, y, z); }); t.fill(wgt(0)); transfer(s, t); double r = 0; int q = 0; each<1>(dc1, 3, [&](int l, int x, int y, int z) { r += wgt(q++) * ref<1>(t, l, x, y, z); }); return r; }
W double C22_transfer1__spec() { double r = 0; int q = 0; each<1>(dc1, 3, [&](int l, int x, int, int) { int u = x >> l; double v = 0; if (u == 2) v = val(l, x, 0, 0); else if (u == 1) v = (val(2, 2 * x, 0, 0) + val(2, 2 * x + 1, 0, 0)) / 2; else if (u == 3) v = (val(3, 4 * x, 0, 0) + val(3, 4 * x + 1, 0, 0) + val(3, 4 * x + 2, 0, 0) + val(3, 4 * x + 3, 0, 0)) / 4; else if (u == 0) v = up<1, 1>(1, x >> 1, 0, 0, x & 1, 0, 0); else v = up<1, 2>(1, x >> 2, 0, 0, x & 3, 0, 0); r += wgt(q++) * v; }); return r; }
static const Bk rc1[] = {{1, 0, 2}, {2, 4, 8}, {3, 16, 24}}, ra1[] = {{1, -2, 4}, {2, 3, 9}, {3, 16, 24}};
W double C22_whole1__impl() { Msh<1> m; mesh<1>(m, rc1, 3, ra1, 3); Bk b{3, 0, 24}; m.dom = arr<1>(&b, 1)[3]; Field<Msh<1>, double, 1, false> s("s", m); each<1>(ra1, 3, [&](int l, int x, int y, int z) { ref<1>(s, l, x, y, z) = val(l, x, y, z); }); auto t = reconstruction(s); double r = 0; for (int q = 0; q < 24; ++q) r += wgt(q) * t.array()[q]; return r + 100 * double(t.array().size()); }
W double C22_whole1__spec() { double r = 0; for (int q = 0; q < 24; ++q) r += wgt(q) * (q < 8 ? up<1, 2>(1, q >> 2, 0, 0, q & 3, 0, 0) : q < 16 ? up<1, 1>(2, q >> 1, 0, 0, q & 1, 0, 0) : val(3, q, 0, 0)); return r + 2400; }
#endif
#if VP_PART == 5
static const Bk sc2[] = {{1, 0, 2, 0, 2}, {1, 4, 6, 0, 2}, {2, 4, 8, 0, 4}}, sa2[] = {{1, -1, 6, -1, 3}, {2, 4, 8, 0, 4}}, dc2[] = {{1, 2, 6, 0, 2}, {2, 0, 4, 0, 4}};
W double C22_transfer2__impl() { Msh<2> m, n; mesh<2>(m, sc2, 3, sa2, 2); mesh<2>(n, dc2, 2, dc2, 2); Field<Msh<2>, double, 1, false> s("s", m), t("t", n); each<2>(sa2, 2, [&](int l, int x, int y, int z) { ref<2>(s, l, x, y, z) = val(l, x, y, z); }); t.fill(wgt(0)); transfer(s, t); double r = 0; int q = 0; each<2>(dc2, 2, [&](int l, int x, int y, int z) { r += wgt(q++) * ref<2>(t, l, x, y, z); }); return r; }
W double C22_transfer2__spec() { double r = 0; int q = 0; each<2>(dc2, 2, [&](int l, int x, int y, int) { int u = x >> l; double v = 0; if (u == 2) v = val(l, x, y, 0); else if (u == 1) v = (val(2, 2 * x, 2 * y, 0) + val(2, 2 * x + 1, 2 * y, 0) + val(2, 2 * x, 2 * y + 1, 0) + val(2, 2 * x + 1, 2 * y + 1, 0)) / 4; else v = up<2, 1>(1, x >> 1, y >> 1, 0, x & 1, y & 1, 0); r += wgt(q++) * v; }); return r; }
// two levels apart
static const Bk sj2[] = {{1, 0, 1, 0, 1}, {3, 4, 8, 4, 8}}, sb2[] = {{1, -2, 3, -2, 3}, {3, 4, 8, 4, 8}}, dj2[] = {{1, 1, 2, 1, 2}, {3, 0, 2, 1, 3}};
W double C22_jump2__impl() { Msh<2> m, n; mesh<2>(m, sj2, 2, sb2, 2); mesh<2>(n, dj2, 2, dj2, 2); Field<Msh<2>, double, 1, false> s("s", m), t("t", n); each<2>(sb2, 2, [&](int l, int x, int y, int z) { ref<2>(s, l, x, y, z) = val(l, x, y, z); }); t.fill(wgt(0)); transfer(s, t); double r = 0; int q = 0; each<2>(dj2, 2, [&](int l, int x, int y, int z) { r += wgt(q++) * ref<2>(t, l, x, y, z); }); return r; }
W double C22_jump2__spec() { double r = 0; int q = 0; each<2>(dj2, 2, [&](int l, int x, int y, int) { double v = 0; if (l == 1) { for (int a = 0; a < 16; ++a) v += val(3, 4 * x + a % 4, 4 * y + a / 4, 0) / 16; } else v = up<2, 2>(1, x >> 2, y >> 2, 0, x & 3, y & 3, 0); r += wgt(q++) * v; }); return r; }
static const Bk rc2[] = {{1, 0, 2, 0, 2}, {2, 4, 8, 0, 4}}, ra2[] = {{1, -1, 3, -1, 3}, {2, 4, 8, 0, 4}};
W double C22_whole2__impl() { Msh<2> m; mesh<2>(m, rc2, 2, ra2, 2); Bk b{2, 0, 8, 0, 4}; m.dom = arr<2>(&b, 1)[2]; Field<Msh<2>, double, 1, false> s("s", m); each<2>(ra2, 2, [&](int l, int x, int y, int z) { ref<2>(s, l, x, y, z) = val(l, x, y, z); }); auto t = reconstruction(s); double r = 0; for (int q = 0; q < 32; ++q) r += wgt(q) * t.array()[q]; return r + 100 * double(t.array().size()); }
W double C22_whole2__spec() { double r = 0; for (int q = 0; q < 32; ++q) { int x = q % 8, y = q / 8; r += wgt(q) * (x < 4 ? up<2, 1>(1, x >> 1, y >> 1, 0, x & 1, y & 1, 0) : val(2, x, y, 0)); } return r + 3200; }
#endif
#if VP_PART == 6
static const Bk sc3[] = {{1, 0, 2, 0, 1}, {1, 2, 3, 0, 1}, {2, 6, 8, 0, 2}}, sa3[] = {{1, -1, 4, -1, 2}, {2, 6, 8, 0, 2}}, dc3[] = {{1, 2, 4, 0, 1}, {2, 2, 4, 0, 2}};
W double C22_transfer3__impl() { Msh<3> m, n; mesh<3>(m, sc3, 3, sa3, 2); mesh<3>(n, dc3, 2, dc3, 2); Field<Msh<3>, double, 1, false> s("s", m), t("t", n); each<3>(sa3, 2, [&](int l, int x, int y, int z) { ref<3>(s, l, x, y, z) = val(l, x, y, z); }); t.fill(wgt(0)); transfer(s, t); double r = 0; int q = 0; each<3>(dc3, 2, [&](int l, int x, int y, int z) { r += wgt(q++) * ref<3>(t, l, x, y, z); }); return r; }
W double C22_transfer3__spec() { double r = 0; int q = 0; each<3>(dc3, 2, [&](int l, int x, int y, int z) { double v = 0; if (l == 1 && x == 2) v = val(l, x, y, z); else if (l == 1) { for (int a = 0; a < 8; ++a) v += val(2, 2 * x + (a & 1), 2 * y + (a >> 1 & 1), 2 * z + (a >> 2)) / 8; } else v = up<3, 1>(1, x >> 1, y >> 1, z >> 1, x & 1, y & 1, z & 1); r += wgt(q++) * v; }); return r; }
static const Bk rc3[] = {{1, 0, 1, 0, 1}, {2, 2, 4, 0, 2}}, ra3[] = {{1, -1, 2, -1, 2}, {2, 2, 4, 0, 2}};
W double C22_whole3__impl() { Msh<3> m; mesh<3>(m, rc3, 2, ra3, 2); Bk b{2, 0, 4, 0, 2}; m.dom = arr<3>(&b, 1)[2]; Field<Msh<3>, double, 1, false> s("s", m); each<3>(ra3, 2, [&](int l, int x, int y, int z) { ref<3>(s, l, x, y, z) = val(l, x, y, z); }); auto t = reconstruction(s); double r = 0; for (int q = 0; q < 16; ++q) r += wgt(q) * t.array()[q]; return r + 100 * double(t.array().size()); }
W double C22_whole3__spec() { double r = 0; for (int q = 0; q < 16; ++q) { int x = q % 4, y = q / 4 % 2, z = q / 8; r += wgt(q) * (x < 2 ? up<3, 1>(1, x >> 1, y >> 1, z >> 1, x & 1, y & 1, z & 1) : val(2, x, y, z)); } return r + 1600; }
#endif
#if VP_PART == 7
// asked twice for the same, two levels apart; and for the same part with another order
W double C22_twice1__impl(size_t l, int i) { QF f; Int I{i, i + 2}; return two(portion(f, l, I, 2, Int{1, 3}), 0) + two(portion(f, l, I, 2, Int{1, 3}), 1) + two(detail::portion_impl<2>(f, 0, l, I, 1, Int{0, 2}), 2) + two(detail::portion_impl<2>(f, 0, l, I, 1, Int{0, 2}), 3) + two(detail::portion_impl<1>(f, 0, l, I, 2, Int{0, 3}), 4) + two(detail::portion_impl<1>(f, 0, l, I, 2, Int{0, 3}), 5); }
W double C22_twice1__spec(size_t l, int i) { return rf<1, 2>(-1, l, i, 0, 0, 1, 0, 1, 3) + rf<1, 2>(-1, l, i, 0, 0, 1, 1, 1, 3) + rf<2, 1>(0, l, i, 0, 0, 1, 2, 0, 2) + rf<2, 1>(0, l, i, 0, 0, 1, 3, 0, 2) + rf<1, 2>(0, l, i, 0, 0, 1, 4, 0, 3) + rf<1, 2>(0, l, i, 0, 0, 1, 5, 0, 3); }
W double C22_twice2__impl(int i, int j) { QF f; Int I{i, i + 2}; return two(portion(f, 3, I, j, 2, Int{0, 1}, Int{1, 3}), 0) + two(portion(f, 3, I, j, 2, Int{0, 1}, Int{1, 3}), 1) + two(portion(f, 3, I, j, 2, Int{1, 3}, Int{0, 1}), 2) + two(portion(f, 0, 3, I, j, 2, Int{0, 1}, Int{1, 3}), 3) + two(portion(f, 0, 3, I, j, 2, Int{0, 1}, Int{1, 3}), 4); }
W double C22_twice2__spec(int i, int j) { return rf<1, 2>(-1, 3, i, j, 0, 2, 0, 0, 1, 1, 3) + rf<1, 2>(-1, 3, i, j, 0, 2, 1, 0, 1, 1, 3) + rf<1, 2>(-1, 3, i, j, 0, 2, 2, 1, 3, 0, 1) + rf<1, 2>(0, 3, i, j, 0, 2, 3, 0, 1, 1, 3) + rf<1, 2>(0, 3, i, j, 0, 2, 4, 0, 1, 1, 3); }
#endif
#if VP_PART == 8
// three levels apart
static const Bk rd1[] = {{1, 0, 2}, {4, 16, 24}}, rx1[] = {{1, -2, 4}, {4, 16, 24}};
W double C22_deep1__impl() { Msh<1> m; mesh<1>(m, rd1, 2, rx1, 2); Bk b{4, 0, 24}; m.dom = arr<1>(&b, 1)[4]; Field<Msh<1>, double, 1, false> s("s", m); each<1>(rx1, 2, [&](int l, int x, int y, int z) { ref<1>(s, l, x, y, z) = val(l, x, y, z); }); auto t = reconstruction(s); double r = 0; for (int q = 0; q < 24; ++q) r += wgt(q) * t.array()[q]; return r + 100 * double(t.array().size()); }
W double C22_deep1__spec() { double r = 0; for (int q = 0; q < 24; ++q) r += wgt(q) * (q < 16 ? up<1, 3>(1, q >> 3, 0, 0, q & 7, 0, 0) : val(4, q, 0, 0)); return r + 2400; }
static const Bk td1[] = {{1, 0, 1}, {4, 8, 16}}, tx1[] = {{1, -2, 3}, {4, 8, 16}}, tn1[] = {{1, 1, 2}, {4, 0, 8}};
W double C22_far1__impl() { Msh<1> m, n; mesh<1>(m, td1, 2, tx1, 2); mesh<1>(n, tn1, 2, tn1, 2); Field<Msh<1>, double, 1, false> s("s", m), t("t", n); each<1>(tx1, 2, [&](int l, int x, int y, int z) { ref<1>(s, l, x, y, z) = val(l, x, y, z); }); t.fill(wgt(0)); transfer(s, t); double r = 0; int q = 0; each<1>(tn1, 2, [&](int l, int x, int y, int z) { r += wgt(q++) * ref<1>(t, l, x, y, z); }); return r; }
W double C22_far1__spec() { double r = 0; int q = 0; each<1>(tn1, 2, [&](int l, int x, int, int) { double v = 0; if (l == 1) { for (int a = 0; a < 8; ++a) v += val(4, 8 * x + a, 0, 0) / 8; } else v = up<1, 3>(1, x >> 3, 0, 0, x & 7, 0, 0); r += wgt(q++) * v; }); return r; }
#endif
#if VP_PART == 9
// all fine cells of a coarse cell, three levels apart; the weights of the prediction (order 9) are left open
namespace samurai { template <> auto prediction<9, int>(std::size_t level, int i, int j) -> prediction_map<2, int> { prediction_map<2, int> p{{i - 3, 5 - j}}; p *= wgt(1000 + 64 * int(level) + 8 * i + j); return p; } }
static const Bk rd2[] = {{1, 0, 1, 0, 1}}, rx2[] = {{1, -3, 5, -2, 6}};
W double C22_deep2__impl() { Msh<2> m; mesh<2>(m, rd2, 1, rx2, 1); Bk b{4, 0, 8, 0, 8}; m.dom = arr<2>(&b, 1)[4]; Field<Msh<2>, double, 1, false> s("s", m); each<2>(rx2, 1, [&](int l, int x, int y, int z) { ref<2>(s, l, x, y, z) = val(l, x, y, z); }); auto t = reconstruction(s); double r = 0; for (int q = 0; q < 64; ++q) r += wgt(q) * t.array()[q]; return r + 100 * double(t.array().size()); }
W double C22_deep2__spec() { double r = 0; for (int q = 0; q < 64; ++q) { int x = q % 8, y = q / 8; r += wgt(q) * wgt(1000 + 64 * 3 + 8 * x + y) * val(1, x - 3, 5 - y, 0); } return r + 6400; }
namespace samurai { template <> auto prediction<9, int>(std::size_t level, int i, int j, int k) -> prediction_map<3, int> { prediction_map<3, int> p{{i % 3 - 1, 1 - j % 3, k % 3 - 1}}; p *= wgt(1000 + 64 * int(level) + 16 * i + 4 * j + k); return p; } }
static const Bk rd3[] = {{1, 0, 1, 0, 1}}, rx3[] = {{1, -1, 2, -1, 2}};
W double C22_deep3__impl() { Msh<3> m; mesh<3>(m, rd3, 1, rx3, 1); Bk b{3, 0, 4, 0, 4}; m.dom = arr<3>(&b, 1)[3]; Field<Msh<3>, double, 1, false> s("s", m); each<3>(rx3, 1, [&](int l, int x, int y, int z) { ref<3>(s, l, x, y, z) = val(l, x, y, z); }); auto t = reconstruction(s); double r = 0; for (int q = 0; q < 64; ++q) r += wgt(q) * t.array()[q]; return r + 100 * double(t.array().size()); }
W double C22_deep3__spec() { double r = 0; for (int q = 0; q < 64; ++q) { int x = q % 4, y = q / 4 % 4, z = q / 16; r += wgt(q) * wgt(1000 + 64 * 2 + 16 * x + 4 * y + z) * val(1, x % 3 - 1, 1 - y % 3, z % 3 - 1); } return r + 6400; }
#endif
