// PARTS: 4
// arrays of all levels: levels, numbering over all levels, search, walking over levels (also over empty ones)
#include "store.hpp"
using namespace samurai; using namespace st;
using I = default_config::interval_t;
template <int n> using X = xt::xtensor_fixed<int, xt::xshape<n>>;
template <int n> using XD = xt::xtensor_fixed<double, xt::xshape<n>>;
template <int d> using CL = CellList<d, I, 4>;
template <int d> using CA = CellArray<d, I, 4>;
template <int d> static XD<d> origin() { XD<d> o; for (int k = 0; k < d; ++k) o[k] = org(k); return o; }
// rows 0.. of level lo and hi: lo has rows y, y+2 ; hi has row y+5 with two runs
static CA<2> two(size_t lo, size_t hi, bool upd) { CL<2> l(origin<2>(), pos_scale()); X<1> y; y[0] = crd_y() + 5; l[hi][y].add_interval({px(2, 2), px(2, 3)}); l[hi][y].add_interval({px(2, 0), px(2, 1)}); y[0] = crd_y() + 2; l[lo][y].add_interval({px(1, 0), px(1, 1)}); y[0] = crd_y(); l[lo][y].add_interval({px(0, 0), px(0, 1)}); return CA<2>(l, upd); }
static const int rr[4] = {0, 1, 2, 2}, tt[4] = {0, 0, 0, 2}, yy[4] = {0, 2, 5, 5};
static int sz(int n) { return px(rr[n], tt[n] + 1) - px(rr[n], tt[n]); }
#if VP_PART == 0
static double num(size_t lo, size_t hi, int k) { const CA<2> a = two(lo, hi, true); double r = Ev(k, 0, (long long)a.min_level(), (long long)a.max_level()) + Ev(k, 1, (long long)a.nb_cells(), 0); for (size_t l = 0; l <= 4; ++l) r += Ev4(k, 2 + l, (long long)a.nb_cells(l), (long long)a[l].level(), a[l].empty(), 0) + a[l].scaling_factor() * wgt(k) + a[l].origin_point()[1] * wgt(k + 1) + a.cell_length(l) * wgt(k + l); r += a.scaling_factor() * wgt(2) + a.origin_point()[0] * wgt(3);
  for (int n = 0; n < 4; ++n) { size_t l = n < 2 ? lo : hi; int y = crd_y() + yy[n], b = px(rr[n], tt[n]), e = px(rr[n], tt[n] + 1) - 1; X<1> o; o[0] = y; X<2> c; c[0] = e; c[1] = y; r += Ev4(k, 100 + n, a[l][0][n < 2 ? n : n - 2].index, a.get_index(l, b, y), a.get_index(l, b, o), a.get_index(l, c)); auto g = a.get_cell(l, b, y); auto h = a.get_cell(l, b, o); auto q = a.get_cell(l, c); r += Ev4(k, 200 + n, g.indices[0], g.indices[1], g.index, (long long)g.level) + Ev4(k, 300 + n, h.index, q.index, (long long)h.level, q.indices[0]) + g.length * wgt(10);
    r += Ev3(k, 400 + n, a.get_interval(l, {b, b + 1}, y).end, a.get_interval(l, {b, b + 1}, o).start, a.get_interval(l, c).start); } return r; }
static double nums(size_t lo, size_t hi, int k) { int n0 = sz(0) + sz(1), n1 = sz(2) + sz(3); double r = Ev(k, 0, lo, hi) + Ev(k, 1, n0 + n1, 0); for (size_t l = 0; l <= 4; ++l) r += Ev4(k, 2 + l, l == lo ? n0 : l == hi ? n1 : 0, l, l != lo && l != hi, 0) + pos_scale() * wgt(k) + org(1) * wgt(k + 1) + pos_scale() / (1 << l) * wgt(k + l); r += pos_scale() * wgt(2) + org(0) * wgt(3); int acc = 0;
  for (int n = 0; n < 4; ++n) { size_t l = n < 2 ? lo : hi; int y = crd_y() + yy[n], b = px(rr[n], tt[n]), e = px(rr[n], tt[n] + 1) - 1, last = acc + sz(n) - 1; r += Ev4(k, 100 + n, acc - b, acc, acc, last) + Ev4(k, 200 + n, b, y, acc, l) + Ev4(k, 300 + n, acc, last, l, e) + pos_scale() / (1 << l) * wgt(10) + Ev3(k, 400 + n, e + 1, b, b); acc += sz(n); } return r; }
W double C16_levels__impl() { return num(1, 2, 0) + num(0, 4, 1000); }
W double C16_levels__spec() { return nums(1, 2, 0) + nums(0, 4, 1000); }
#endif
#if VP_PART == 1
W double C16_walkl__impl() { double r = 0; for (int c = 0; c < 3; ++c) { size_t lo = c == 2 ? 0 : 1, hi = c == 0 ? 2 : c == 1 ? 3 : 4; CA<2> a = two(lo, hi, false); const CA<2>& b = a; int n = 0; for (auto it = b.cbegin(); it != b.cend(); ++it) r += Ev4(c, n++, it->start, (*it).end, it.index()[0], (long long)it.level()); n = 0; for (auto it = a.begin(); it != a.end(); ++it) r += Ev4(c, 10 + n++, it->start, it->end, it.index()[0], (long long)it.level()); n = 0; for (auto it = b.rbegin(); it != b.rend(); ++it) r += Ev4(c, 20 + n++, it->start, it->end, it.index()[0], (long long)it.level());
    auto j = b.cbegin(); j += 3; auto i = j; j -= 2; r += Ev4(c, 40, j->start, i->start, j < i, i < j); } return r; }
W double C16_walkl__spec() { double r = 0; for (int c = 0; c < 3; ++c) { size_t lo = c == 2 ? 0 : 1, hi = c == 0 ? 2 : c == 1 ? 3 : 4; for (int n = 0; n < 4; ++n) { int b = px(rr[n], tt[n]), e = px(rr[n], tt[n] + 1), y = crd_y() + yy[n]; size_t l = n < 2 ? lo : hi; r += Ev4(c, n, b, e, y, l) + Ev4(c, 10 + n, b, e, y, l) + Ev4(c, 20 + 3 - n, b, e, y, l); } r += Ev4(c, 40, px(1, 0), px(2, 2), true, false); } return r; }
#endif
#if VP_PART == 2
W double C16_empties__impl() { CL<2> l(origin<2>(), pos_scale()), d; CA<2> a(l), b; double r = Ev4(0, 0, (long long)a.min_level(), (long long)a.max_level(), (long long)a.nb_cells(), 0) + Ev4(0, 1, (long long)b.min_level(), (long long)b.max_level(), (long long)b.nb_cells(), 0); for (size_t k = 0; k <= 4; ++k) r += Ev4(1, k, (long long)l[k].level(), (long long)d[k].level(), (long long)a[k].level(), (long long)b[k].level()) + (l[k].scaling_factor() + 2 * d[k].scaling_factor() + 3 * b[k].scaling_factor()) * wgt(k) + l[k].origin_point()[1] * wgt(10 + k);
  b.set_scaling_factor(pos_scale()); b.set_origin_point(origin<2>()); for (size_t k = 0; k <= 4; ++k) r += b[k].scaling_factor() * wgt(20 + k) + b[k].origin_point()[0] * wgt(30 + k); return r + l.scaling_factor() * wgt(50) + l.origin_point()[0] * wgt(51); }
W double C16_empties__spec() { double r = Ev4(0, 0, 5, 0, 0, 0) + Ev4(0, 1, 5, 0, 0, 0); for (int k = 0; k <= 4; ++k) r += Ev4(1, k, k, k, k, k) + (pos_scale() + 5) * wgt(k) + org(1) * wgt(10 + k) + pos_scale() * wgt(20 + k) + org(0) * wgt(30 + k); return r + pos_scale() * wgt(50) + org(0) * wgt(51); }
static CA<1> one(size_t lo, size_t hi, int a, int b, int c, int d) { CL<1> l; X<0> y; l[lo][y].add_interval({a, b}); l[hi][y].add_interval({c, d}); return CA<1>(l); }
W bool C16_equall__impl(int a, int b, int c, int d, int e, int f, int g, int h, bool p, bool q) { vp_assume(a < b); vp_assume(c < d); vp_assume(e < f); vp_assume(g < h); CA<1> x = one(1, 3, a, b, c, d); if (p) return x == one(q ? 2 : 1, 3, e, f, g, h); return x == one(1, q ? 2 : 4, e, f, g, h); }
W bool C16_equall__spec(int a, int b, int c, int d, int e, int f, int g, int h, bool p, bool q) { vp_assume(a < b); vp_assume(c < d); vp_assume(e < f); vp_assume(g < h); return p & !q & (a == e) & (b == f) & (c == g) & (d == h); }
#endif
#if VP_PART == 3
// three dimensions, three levels, middle one empty or not
static CA<3> three(bool mid) { CL<3> l(origin<3>(), pos_scale()); X<2> y; for (int k = 0; k < 3; ++k) { if (k == 1 && !mid) continue; y[0] = crd_y() + k; y[1] = crd_z() - k; l[k + 1][y].add_interval({px(k, 0), px(k, 1)}); y[1] = crd_z() + 1; l[k + 1][y].add_interval({px(k + 3, 0), px(k + 3, 1)}); } return CA<3>(l); }
W double C16_levels3__impl() { double r = 0; for (int m = 0; m < 2; ++m) { CA<3> a = three(m); int n = 0; for (auto it = a.cbegin(); it != a.cend(); ++it, ++n) r += Ev4(m, n, it->start, it->end, it.index()[0], it.index()[1]) + Ev(m, 10 + n, it->index, (long long)it.level()); n = 0; for (auto it = a.rcbegin(); it != a.rcend(); ++it, ++n) r += Ev4(m, 20 + n, it->start, it->end, it.index()[0], (long long)it.level()); r += Ev(m, 50, (long long)a.nb_cells(), (long long)a.nb_cells(2)); for (int k = 0; k < 3; ++k) if (k != 1 || m) r += Ev(m, 60 + k, a.get_index(k + 1, px(k + 3, 0), crd_y() + k, crd_z() + 1), 0); } return r; }
W double C16_levels3__spec() { double r = 0; for (int m = 0; m < 2; ++m) { int n = 0, acc = 0, tot = m ? 6 : 4; for (int k = 0; k < 3; ++k) { if (k == 1 && !m) continue; for (int h = 0; h < 2; ++h, ++n) { int b = px(k + 3 * h, 0), e = px(k + 3 * h, 1); r += Ev4(m, n, b, e, crd_y() + k, h ? crd_z() + 1 : crd_z() - k) + Ev(m, 10 + n, acc - b, k + 1) + Ev4(m, 20 + tot - 1 - n, b, e, crd_y() + k, k + 1); if (h) r += Ev(m, 60 + k, acc, 0); acc += e - b; } } r += Ev(m, 50, acc, m ? px(1, 1) - px(1, 0) + px(4, 1) - px(4, 0) : 0); } return r; }
#endif
