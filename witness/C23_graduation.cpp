// PARTS: 3
// FLAGS: -fno-threadsafe-statics
// graduation of a set of leaves
#define VP_DCAP 64
#include "notimer.hpp"
#include <fmt/format.h>
#include <iostream>
#include <iomanip>
#include <sstream>
#define endl flush
#include "store.hpp"
#include <samurai/graduation.hpp>
using namespace samurai; using namespace st;
#include "window.hpp"
template <int d, int N> constexpr Win<d, N> star(const Win<d, N>& w, int k = 1) { auto r = w; for (int e = 0; e < d; ++e) for (int a = 1; a <= k; ++a) r = r | w.move(a, e) | w.move(-a, e); return r; }
template <int d, int N> constexpr Lev<d, N> bad(const Lev<d, N>& c, int k = 1) { Lev<d, N> r{}; for (int l = 0; l < 5; ++l) for (int m = l + 2; m < 5; ++m) r[l] = r[l] | (star(c[m], k).down(m - l) & c[l]); return r; }
template <int d, int N> constexpr bool any(const Lev<d, N>& c) { for (int l = 0; l < 5; ++l) for (auto& z : c[l].b) for (auto& y : z) if (y) return true; return false; }
template <int d, int N> constexpr Lev<d, N> fix(Lev<d, N> c, int wd = 1) { for (int k = 0; k < 20; ++k) { auto t = bad(c, wd); if (!any(t)) break; for (int l = 4; l > 0; --l) c[l] = (c[l] - t[l]) | t[l - 1].up(1); c[0] = c[0] - t[0]; } return c; }
template <int d> static CellArray<d, I, 4> arr(const Bk* b, int n) { CellList<d, I, 4> l; fill<d>(l, b, n); return CellArray<d, I, 4>(l); }
template <int d, class CA> static double cnt(const CA& ca) { double r = 0; for_each_interval(ca, [&](size_t l, const auto& i, const auto& y) { if constexpr (d == 1) r += Ev4(0, int(l), i.start, i.end - i.start, 0, 0); else if constexpr (d == 2) r += Ev4(0, int(l), i.start, i.end - i.start, y[0], 0); else r += Ev4(0, int(l), i.start, i.end - i.start, y[0], y[1]); }); return r; }
template <int d, int N> static double tellS(const Lev<d, N>& a) { double r = 0; using V = Win<d, N>; for (int l = 0; l < 5; ++l) for (int z = 0; z < V::NZ; ++z) for (int y = 0; y < V::NY; ++y) { auto u = a[l].b[z][y]; if (u) for (int x = 0; x < N; ++x) if ((u >> x & 1) && !(x && (u >> (x - 1) & 1))) { int e = x; while (e < N && (u >> e & 1)) ++e; r += Ev4(0, l, org<d>(0, l) + x - V::O, e - x, d > 1 ? org<d>(1, l) + y - V::OY : 0, d > 2 ? org<d>(2, l) + z - V::OZ : 0); } } return r; }
#define GRAD(nm, d, N, ...) static constexpr Bk nm##_b[] = {__VA_ARGS__}; constexpr int nm##_n = sizeof(nm##_b) / sizeof(Bk); static constexpr auto nm##_c = cells<d, N>(nm##_b, nm##_n), nm##_f = fix<d, N>(nm##_c); constexpr bool nm##_was = !any(bad(nm##_c)); \
 W double C23_##nm##__impl() { auto m = arr<d>(nm##_b, nm##_n); double r = wgt(0) * (is_graduated(m) ? 1 : 0); make_graduation(m); return r + wgt(1) * (is_graduated(m) ? 1 : 0) + cnt<d>(m); } \
 W double C23_##nm##__spec() { return wgt(0) * (nm##_was ? 1 : 0) + wgt(1) + tellS<d, N>(nm##_f); }
// a wider neighbourhood
#define WIDE(nm, d, N, k, ...) static constexpr Bk nm##_b[] = {__VA_ARGS__}; constexpr int nm##_n = sizeof(nm##_b) / sizeof(Bk); static constexpr auto nm##_c = cells<d, N>(nm##_b, nm##_n), nm##_f = fix<d, N>(nm##_c, k); constexpr bool nm##_was = !any(bad(nm##_c, k)); \
 W double C23_##nm##__impl() { auto m = arr<d>(nm##_b, nm##_n); using M = decltype(m); double r = wgt(0) * (is_graduated<M, k>(m, star_stencil<d, k>()) ? 1 : 0); make_graduation<M, k>(m, star_stencil<d, k>()); return r + wgt(1) * (is_graduated<M, k>(m, star_stencil<d, k>()) ? 1 : 0) + cnt<d>(m); } \
 W double C23_##nm##__spec() { return wgt(0) * (nm##_was ? 1 : 0) + wgt(1) + tellS<d, N>(nm##_f); }
// the cells stay where they were in space
template <int d> static CellArray<d, I, 4> put(const Bk* b, int n) { xt::xtensor_fixed<double, xt::xshape<d>> o; for (int i = 0; i < d; ++i) o[i] = ::org(i); CellList<d, I, 4> l(o, wgt(90)); fill<d>(l, b, n); return CellArray<d, I, 4>(l); }
#define PLACE(nm, d, N, ...) static constexpr Bk nm##_b[] = {__VA_ARGS__}; constexpr int nm##_n = sizeof(nm##_b) / sizeof(Bk); \
 W double C23_##nm##__impl() { auto m = put<d>(nm##_b, nm##_n); make_graduation(m); double r = wgt(91) * m.scaling_factor(); for (int i = 0; i < d; ++i) r += wgt(92 + i) * m.origin_point()[i]; for (size_t l = 0; l < 4; ++l) { r += wgt(100 + l) * m[l].scaling_factor(); for (int i = 0; i < d; ++i) r += wgt(110 + 3 * l + i) * m[l].origin_point()[i]; } return r; } \
 W double C23_##nm##__spec() { double r = wgt(91) * wgt(90); for (int i = 0; i < d; ++i) r += wgt(92 + i) * ::org(i); for (size_t l = 0; l < 4; ++l) { r += wgt(100 + l) * wgt(90); for (int i = 0; i < d; ++i) r += wgt(110 + 3 * l + i) * ::org(i); } return r; }
#if VP_PART == 0
WIDE(wide1, 1, 64, 2, {0, 0, 1}, {1, 2, 3}, {2, 6, 8})
WIDE(wide1b, 1, 64, 2, {2, 0, 2}, {1, 1, 2}, {0, 1, 2})
WIDE(wide1ok, 1, 64, 2, {0, 0, 1}, {1, 2, 3}, {2, 8, 9})
PLACE(place1, 1, 64, {0, 0, 1}, {2, 4, 6})
PLACE(stay1, 1, 64, {0, 0, 1}, {1, 4, 6})
GRAD(flat1, 1, 64, {2, 0, 4})
GRAD(good1, 1, 64, {0, 0, 1}, {1, 2, 4}, {2, 8, 12}, {1, 6, 7})
GRAD(jump1, 1, 64, {0, 0, 1}, {2, 4, 6}, {1, 3, 4})
GRAD(left1, 1, 64, {2, 0, 4}, {0, 1, 2})
GRAD(deep1, 1, 64, {0, -1, 0}, {3, 0, 2}, {2, 1, 2}, {1, 1, 2})
GRAD(apart1, 1, 64, {0, -2, -1}, {3, 0, 2}, {0, 2, 3}, {1, 8, 10})
#endif
#if VP_PART == 1
WIDE(wide2, 2, 24, 2, {0, 0, 1, 0, 1}, {2, 0, 1, 5, 6})
PLACE(place2, 2, 24, {0, 0, 1, 0, 1}, {2, 4, 6, 0, 1})
GRAD(good2, 2, 24, {0, 0, 1, 0, 1}, {1, 2, 4, 0, 2})
GRAD(jump2, 2, 24, {0, 0, 1, 0, 1}, {2, 4, 6, 0, 1})
GRAD(up2, 2, 24, {0, 0, 1, 0, 1}, {2, 1, 2, 4, 5})
GRAD(diag2, 2, 24, {0, 0, 1, 0, 1}, {2, 4, 6, 4, 5})
#endif
#if VP_PART == 2
GRAD(jump3, 3, 16, {0, 0, 1, 0, 1, 0, 1}, {2, 0, 1, 1, 2, 4, 5})
GRAD(good3, 3, 16, {0, 0, 1, 0, 1, 0, 1}, {1, 0, 1, 2, 3, 0, 1})
#endif
