// PARTS: 6
// arrays of cells built from lists: structure, numbering, search, traversal in both directions
#include "store.hpp"
using namespace samurai; using namespace st;
using I = default_config::interval_t;
template <int d> using L = LevelCellList<d, I>;
template <int d> using A = LevelCellArray<d, I>;
template <int n> using X = xt::xtensor_fixed<int, xt::xshape<n>>;
template <int n> using XD = xt::xtensor_fixed<double, xt::xshape<n>>;
template <int d> static XD<d> origin() { XD<d> o; for (int k = 0; k < d; ++k) o[k] = org(k); return o; }
static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
template <int d> static double dump(const A<d>& a, int k) { double r = 0; for (int e = 0; e < d; ++e) { int n = 0; for (auto& i : a[e]) { r += Ev4(k, 100 * e + n, i.start, i.end, e ? i.index : 0, i.step); ++n; } r += Ev(k, 1000 + e, n, 0); if (e) { n = 0; for (auto o : a.offsets(e)) { r += Ev(k, 2000 + 100 * e + n, (long long)o, 0); ++n; } r += Ev(k, 3000 + e, n, 0); } } r += Ev(k, 4000, (long long)a.level(), a.empty()) + a.scaling_factor() * wgt(k); for (int e = 0; e < d; ++e) r += (e + 2) * a.origin_point()[e] * wgt(k); return r; }
#if VP_PART == 0
// 1D
static A<1> row1() { L<1> l(5, origin<1>(), pos_scale()); X<0> y; l[y].add_interval({px(0, 2), px(0, 3)}); l[y].add_interval({px(0, 0), px(0, 1)}); return A<1>(l); }
W double C16_build1__impl() { return dump<1>(row1(), 0); }
W double C16_build1__spec() { return Ev4(0, 0, px(0, 0), px(0, 1), 0, 1) + Ev4(0, 1, px(0, 2), px(0, 3), 0, 1) + Ev(0, 1000, 2, 0) + Ev(0, 4000, 5, false) + pos_scale() * wgt(0) + 2 * org(0) * wgt(0); }
W double C16_empty1__impl() { L<1> l(5, origin<1>(), pos_scale()); A<1> a(l), b(std::size_t(4)), c(std::size_t(3), origin<1>(), pos_scale()); return dump<1>(a, 0) + 3 * dump<1>(b, 1) + 5 * dump<1>(c, 2) + (l.empty() ? 1 : 0) + double(a.nb_cells()); }
W double C16_empty1__spec() { return Ev(0, 1000, 0, 0) + Ev(0, 4000, 5, true) + pos_scale() * wgt(0) + 2 * org(0) * wgt(0) + 3 * (Ev(1, 1000, 0, 0) + Ev(1, 4000, 4, true) + wgt(1)) + 5 * (Ev(2, 1000, 0, 0) + Ev(2, 4000, 3, true) + pos_scale() * wgt(2) + 2 * org(0) * wgt(2)) + 1; }
W double C16_number1__impl() { A<1> a = row1(); a.update_index(); double r = Ev(0, 0, a[0][0].index, a[0][1].index) + Ev(0, 1, (long long)a.nb_cells(), 0); auto m = a.minmax_indices(); r += Ev(0, 2, m[0].first, m[0].second);
  X<1> c; c[0] = px(0, 3) - 1; r += Ev(0, 3, a.get_index(px(0, 1) - 1), a.get_index(c)); auto e = a.get_cell(px(0, 2)); r += Ev4(0, 4, e.indices[0], (long long)e.level, e.index, 0) + e.length * wgt(3) + e.origin_point[0] * wgt(4); auto g = a.get_cell(c); r += Ev4(0, 5, g.indices[0], (long long)g.level, g.index, 0); return r; }
W double C16_number1__spec() { int n0 = px(0, 1) - px(0, 0), n1 = px(0, 3) - px(0, 2); return Ev(0, 0, -px(0, 0), n0 - px(0, 2)) + Ev(0, 1, n0 + n1, 0) + Ev(0, 2, px(0, 0), px(0, 3)) + Ev(0, 3, n0 - 1, n0 + n1 - 1) + Ev4(0, 4, px(0, 2), 5, n0, 0) + pos_scale() / 32 * wgt(3) + org(0) * wgt(4) + Ev4(0, 5, px(0, 3) - 1, 5, n0 + n1 - 1, 0); }
W double C16_find1__impl() { A<1> a = row1(); double r = 0; int n = 0; for (int t = 0; t < 4; ++t) for (int s = -1; s <= 0; ++s) { X<1> c; c[0] = px(0, t) + s; r += Ev(1, n++, find(a, c), 0); } return r; }
W double C16_find1__spec() { double r = 0; int n = 0; const int e[8] = {-1, 0, 0, -1, -1, 1, 1, -1}; for (; n < 8; ++n) r += Ev(1, n, e[n], 0); return r; }
#endif
#if VP_PART == 1 || VP_PART == 2
// 2D: rows y, y+1 and y+3; the first has two runs
static const int yo[3] = {0, 1, 3};
static A<2> rows2(int p) { L<2> l(4, origin<2>(), pos_scale()); for (int m = 0; m < 3; ++m) { int k = perm[p][m]; X<1> y; y[0] = crd_y() + yo[k]; if (k == 0) l[y].add_interval({px(0, 2), px(0, 3)}); l[y].add_interval({px(k, 0), px(k, 1)}); } return A<2>(l); }
#endif
#if VP_PART == 1
W double C16_build2__impl() { double r = 0; for (int p = 0; p < 6; ++p) r += dump<2>(rows2(p), p); return r; }
W double C16_build2__spec() { double r = 0; for (int p = 0; p < 6; ++p) { r += Ev4(p, 0, px(0, 0), px(0, 1), 0, 1) + Ev4(p, 1, px(0, 2), px(0, 3), 0, 1) + Ev4(p, 2, px(1, 0), px(1, 1), 0, 1) + Ev4(p, 3, px(2, 0), px(2, 1), 0, 1) + Ev(p, 1000, 4, 0) + Ev4(p, 100, crd_y(), crd_y() + 2, -crd_y(), 1) + Ev4(p, 101, crd_y() + 3, crd_y() + 4, 2 - (crd_y() + 3), 1) + Ev(p, 1001, 2, 0);
  const int o[4] = {0, 2, 3, 4}; for (int n = 0; n < 4; ++n) r += Ev(p, 2100 + n, o[n], 0); r += Ev(p, 3001, 4, 0) + Ev(p, 4000, 4, false) + pos_scale() * wgt(p) + (2 * org(0) + 3 * org(1)) * wgt(p); } return r; }
// adding cells one by one
W double C16_cells2__impl() { double r = 0; for (int p = 0; p < 6; ++p) { L<2> l(4); for (int m = 0; m < 3; ++m) { X<2> c; c[0] = crd_row(0) + (perm[p][m] == 1); c[1] = crd_y() + (perm[p][m] == 2); l.add_cell(Cell<2, I>(origin<2>(), pos_scale(), 4, c, 0)); } r += dump<2>(A<2>(l), p); } return r; }
W double C16_cells2__spec() { double r = 0; for (int p = 0; p < 6; ++p) r += Ev4(p, 0, crd_row(0), crd_row(0) + 2, 0, 1) + Ev4(p, 1, crd_row(0), crd_row(0) + 1, 0, 1) + Ev(p, 1000, 2, 0) + Ev4(p, 100, crd_y(), crd_y() + 2, -crd_y(), 1) + Ev(p, 1001, 1, 0) + Ev(p, 2100, 0, 0) + Ev(p, 2101, 1, 0) + Ev(p, 2102, 2, 0) + Ev(p, 3001, 3, 0) + Ev(p, 4000, 4, false) + wgt(p); return r; }
#endif
#if VP_PART == 2
static const int yy[4] = {0, 0, 1, 3}, rr[4] = {0, 0, 1, 2}, tt[4] = {0, 2, 0, 0};
static int sz(int n) { return px(rr[n], tt[n] + 1) - px(rr[n], tt[n]); }
W double C16_number2__impl() { A<2> a = rows2(3); a.update_index(); double r = Ev(0, 1, (long long)a.nb_cells(), (long long)a.nb_intervals()); auto s = a.shape(); r += Ev(0, 2, (long long)s[0], (long long)s[1]);
  for (int n = 0; n < 4; ++n) { int y = crd_y() + yy[n], b = px(rr[n], tt[n]), e = px(rr[n], tt[n] + 1) - 1; X<1> o; o[0] = y; X<2> c; c[0] = e; c[1] = y; r += Ev(1, n, a[0][n].index, a.get_index(b, y)) + Ev(2, n, a.get_index(e, o), a.get_index(c)); auto g = a.get_cell(e, y); auto h = a.get_cell(b, o); auto q = a.get_cell(c);
    r += Ev4(3, n, g.indices[0], g.indices[1], g.index, (long long)g.level) + Ev4(4, n, h.indices[0], h.indices[1], h.index, (long long)h.level) + Ev4(5, n, q.indices[0], q.indices[1], q.index, (long long)q.level) + g.length * wgt(n) + h.origin_point[1] * wgt(10 + n) + q.length * wgt(20 + n);
    auto& iv = a.get_interval({b, b + 1}, y); auto& iw = a.get_interval({e, e + 1}, o); auto& iz = a.get_interval(c); r += Ev4(6, n, iv.start, iv.end, iw.start, iz.end); } return r; }
W double C16_number2__spec() { double r = Ev(0, 1, sz(0) + sz(1) + sz(2) + sz(3), 6) + Ev(0, 2, 4, 2); int acc = 0;
  for (int n = 0; n < 4; ++n) { int y = crd_y() + yy[n], b = px(rr[n], tt[n]), e = px(rr[n], tt[n] + 1) - 1, last = acc + sz(n) - 1; r += Ev(1, n, acc - b, acc) + Ev(2, n, last, last) + Ev4(3, n, e, y, last, 4) + Ev4(4, n, b, y, acc, 4) + Ev4(5, n, e, y, last, 4) + pos_scale() / 16 * (wgt(n) + wgt(20 + n)) + org(1) * wgt(10 + n) + Ev4(6, n, b, e + 1, b, e + 1); acc += sz(n); } return r; }
W double C16_find2__impl() { A<2> a = rows2(5); double r = 0; for (int y = -1; y <= 4; ++y) for (int t = 0; t < 4; ++t) for (int s = -1; s <= 0; ++s) { X<2> c; int row = y == 1 ? 1 : y == 3 ? 2 : 0; c[0] = px(row, t) + s; c[1] = crd_y() + y; r += Ev(y, 2 * t + s, find(a, c), 0); } return r; }
W double C16_find2__spec() { double r = 0; for (int y = -1; y <= 4; ++y) for (int t = 0; t < 4; ++t) for (int s = -1; s <= 0; ++s) { int e = -1; bool first = t == 0 && s == 0 || t == 1 && s == -1, second = t == 2 && s == 0 || t == 3 && s == -1; if (y == 0) e = first ? 0 : second ? 1 : -1; if (y == 1 && first) e = 2; if (y == 3 && first) e = 3; r += Ev(y, 2 * t + s, e, 0); } return r; }
W double C16_walk2__impl() { A<2> a = rows2(1); double r = 0; int n = 0; for (auto it = a.begin(); it != a.end(); ++it) r += Ev4(0, n++, it->start, (*it).end, it.index()[0], (long long)it.level()); n = 0; for (auto it = a.cbegin(); it != a.cend(); ++it) r += Ev4(1, n++, it->start, (*it).end, it.index()[0], (long long)it.level());
  const A<2>& ca = a; n = 0; for (auto it = ca.rbegin(); it != ca.rend(); ++it) r += Ev4(2, n++, it->start, it->end, it.index()[0], (long long)it.level()); n = 0; for (auto it = a.rbegin(); it != a.rend(); ++it) r += Ev4(3, n++, it->start, it->end, it.index()[0], (long long)it.level());
  auto j = a.cbegin(); j += 3; j -= 2; r += Ev4(4, 0, j->start, j->end, j.index()[0], j - a.cbegin()); return r; }
W double C16_walk2__spec() { double r = 0; for (int n = 0; n < 4; ++n) { int b = px(rr[n], tt[n]), e = px(rr[n], tt[n] + 1), y = crd_y() + yy[n]; r += Ev4(0, n, b, e, y, 4) + Ev4(1, n, b, e, y, 4) + Ev4(2, 3 - n, b, e, y, 4) + Ev4(3, 3 - n, b, e, y, 4); if (n == 1) r += Ev4(4, 0, b, e, y, 1); } return r; }
#endif
#if VP_PART == 3
// 3D: slabs z, z+1, z+3; rows (z: y, y+2), (z+1: y), (z+3: y+1, y+2)
static const int zo[5] = {0, 0, 1, 3, 3}, yo3[5] = {0, 2, 0, 1, 2};
static A<3> rows3(int p) { L<3> l(4, origin<3>(), pos_scale()); for (int m = 0; m < 3; ++m) { int s = perm[p][m]; for (int k = 4; k >= 0; --k) if ((zo[k] == 0) == (s == 0) && (zo[k] == 1) == (s == 1)) { X<2> y; y[0] = crd_y() + yo3[k]; y[1] = crd_z() + zo[k]; l[y].add_interval({px(k, 0), px(k, 1)}); } } return A<3>(l); }
W double C16_build3__impl() { double r = 0; for (int p = 0; p < 6; ++p) r += dump<3>(rows3(p), p); return r; }
W double C16_build3__spec() { double r = 0; int y = crd_y(), z = crd_z(); for (int p = 0; p < 6; ++p) { for (int k = 0; k < 5; ++k) r += Ev4(p, k, px(k, 0), px(k, 1), 0, 1); r += Ev(p, 1000, 5, 0);
  r += Ev4(p, 100, y, y + 1, -y, 1) + Ev4(p, 101, y + 2, y + 3, 1 - (y + 2), 1) + Ev4(p, 102, y, y + 1, 2 - y, 1) + Ev4(p, 103, y + 1, y + 3, 3 - (y + 1), 1) + Ev(p, 1001, 4, 0); for (int n = 0; n < 6; ++n) r += Ev(p, 2100 + n, n, 0); r += Ev(p, 3001, 6, 0);
  r += Ev4(p, 200, z, z + 2, -z, 1) + Ev4(p, 201, z + 3, z + 4, 2 - (z + 3), 1) + Ev(p, 1002, 2, 0) + Ev(p, 2200, 0, 0) + Ev(p, 2201, 2, 0) + Ev(p, 2202, 3, 0) + Ev(p, 2203, 4, 0) + Ev(p, 3002, 4, 0) + Ev(p, 4000, 4, false) + pos_scale() * wgt(p) + (2 * org(0) + 3 * org(1) + 4 * org(2)) * wgt(p); } return r; }
W double C16_walk3__impl() { A<3> a = rows3(4); double r = 0; int n = 0; for (auto it = a.cbegin(); it != a.cend(); ++it, ++n) r += Ev4(0, n, it->start, it->end, it.index()[0], it.index()[1]); n = 0; for (auto it = a.rcbegin(); it != a.rcend(); ++it, ++n) r += Ev4(1, n, it->start, it->end, it.index()[0], it.index()[1]); return r; }
W double C16_walk3__spec() { double r = 0; for (int k = 0; k < 5; ++k) { int b = px(k, 0), e = px(k, 1), y = crd_y() + yo3[k], z = crd_z() + zo[k]; r += Ev4(0, k, b, e, y, z) + Ev4(1, 4 - k, b, e, y, z); } return r; }
W double C16_number3__impl() { A<3> a = rows3(4); a.update_index(); double r = 0; for (int k = 0; k < 5; ++k) { int y = crd_y() + yo3[k], z = crd_z() + zo[k]; r += Ev(2, k, a.get_index(px(k, 1) - 1, y, z), a.get_index(px(k, 0), y, z)) + Ev(3, k, a[0][k].index, 0); } return r; }
W double C16_number3__spec() { double r = 0; int acc = 0; for (int k = 0; k < 5; ++k) { int b = px(k, 0), e = px(k, 1); r += Ev(2, k, acc + e - b - 1, acc) + Ev(3, k, acc - b, 0); acc += e - b; } return r; }
W double C16_cell3__impl() { A<3> a = rows3(3); a.update_index(); double r = 0; for (int k = 0; k < 5; ++k) { X<3> c; c[0] = px(k, 0); c[1] = crd_y() + yo3[k]; c[2] = crd_z() + zo[k]; auto g = a.get_cell(c); r += Ev4(4, k, g.indices[0], g.indices[1], g.indices[2], g.index) + Ev(5, k, a.get_index(c), a.get_interval(c).end); } return r; }
W double C16_cell3__spec() { double r = 0; int acc = 0; for (int k = 0; k < 5; ++k) { int b = px(k, 0), e = px(k, 1); r += Ev4(4, k, b, crd_y() + yo3[k], crd_z() + zo[k], acc) + Ev(5, k, acc, e); acc += e - b; } return r; }
W double C16_find3__impl() { A<3> a = rows3(2); double r = 0; for (int z = -1; z <= 4; ++z) for (int y = -1; y <= 3; ++y) { int row = -1; for (int k = 0; k < 5; ++k) if (zo[k] == z && yo3[k] == y) row = k; for (int s = -1; s < 2; ++s) { X<3> c; c[0] = (s == 1 ? px(row < 0 ? 0 : row, 1) : px(row < 0 ? 0 : row, 0) + s); c[1] = crd_y() + y; c[2] = crd_z() + z; r += Ev(10 * z + y, s, find(a, c), 0); } } return r; }
W double C16_find3__spec() { double r = 0; for (int z = -1; z <= 4; ++z) for (int y = -1; y <= 3; ++y) { int row = -1; for (int k = 0; k < 5; ++k) if (zo[k] == z && yo3[k] == y) row = k; for (int s = -1; s < 2; ++s) r += Ev(10 * z + y, s, s == 0 ? row : -1, 0); } return r; }
#endif
#if VP_PART == 4
// boxes: all cells between the corners
template <int d> static Box<int, d> box(int h) { X<d> a, b; a[0] = crd_row(0); b[0] = crd_row(0) + 3; if constexpr (d > 1) { a[1] = crd_y(); b[1] = crd_y() + h; } if constexpr (d > 2) { a[2] = crd_z(); b[2] = crd_z() + 2; } return {a, b}; }
W double C16_box1__impl() { A<1> a(3, box<1>(0)); return dump<1>(a, 0) - a.scaling_factor() * wgt(0) + Ev(9, 0, a[0][0].index, 0); }
W double C16_box1__spec() { int x = crd_row(0); return Ev4(0, 0, x, x + 3, 0, 1) + Ev(0, 1000, 1, 0) + Ev(0, 4000, 3, false) + 2 * double(x) * wgt(0) + Ev(9, 0, -x, 0); }
W double C16_box2__impl() { A<2> a(3, box<2>(3)); double r = dump<2>(a, 0) - a.scaling_factor() * wgt(0); for (int k = 0; k < 3; ++k) r += Ev(9, k, a[0][k].index, a.get_index(crd_row(0) + 1, crd_y() + k)); return r; }
W double C16_box2__spec() { int x = crd_row(0), y = crd_y(); double r = 0; for (int k = 0; k < 3; ++k) r += Ev4(0, k, x, x + 3, 0, 1) + Ev(9, k, 3 * k - x, 3 * k + 1); for (int k = 0; k < 4; ++k) r += Ev(0, 2100 + k, k, 0); return r + Ev(0, 1000, 3, 0) + Ev4(0, 100, y, y + 3, -y, 1) + Ev(0, 1001, 1, 0) + Ev(0, 3001, 4, 0) + Ev(0, 4000, 3, false) + (2 * double(x) + 3 * double(y)) * wgt(0); }
W double C16_box3__impl() { A<3> a(3, box<3>(3)); double r = dump<3>(a, 0) - a.scaling_factor() * wgt(0); for (int k = 0; k < 6; ++k) r += Ev(9, k, a[0][k].index, a.get_index(crd_row(0) + 2, crd_y() + k % 3, crd_z() + k / 3)); return r; }
W double C16_box3__spec() { int x = crd_row(0), y = crd_y(), z = crd_z(); double r = 0; for (int k = 0; k < 6; ++k) r += Ev4(0, k, x, x + 3, 0, 1) + Ev(9, k, 3 * k - x, 3 * k + 2); for (int k = 0; k < 7; ++k) r += Ev(0, 2100 + k, k, 0); for (int k = 0; k < 3; ++k) r += Ev(0, 2200 + k, k, 0); return r + Ev(0, 1000, 6, 0) + Ev4(0, 100, y, y + 3, -y, 1) + Ev4(0, 101, y, y + 3, 3 - y, 1) + Ev(0, 1001, 2, 0) + Ev(0, 3001, 7, 0) + Ev4(0, 200, z, z + 2, -z, 1) + Ev(0, 1002, 1, 0) + Ev(0, 3002, 3, 0) + Ev(0, 4000, 3, false) + (2 * double(x) + 3 * double(y) + 4 * double(z)) * wgt(0); }
#endif
#if VP_PART == 5
// the same runs, rows and columns, but distributed differently over the rows
static A<2> dist(int n) { L<2> l(3); for (int k = 0; k < 4; ++k) { X<1> y; y[0] = crd_y() + (k >= n); l[y].add_interval({crd_row(0) + 3 * k, crd_row(0) + 3 * k + 2}); } return A<2>(l); }
W double C16_equaldist__impl() { double r = 0; for (int i = 1; i < 4; ++i) for (int j = 1; j < 4; ++j) r += (dist(i) == dist(j)) * wgt(3 * i + j); return r; }
W double C16_equaldist__spec() { double r = 0; for (int i = 1; i < 4; ++i) for (int j = 1; j < 4; ++j) r += (i == j) * wgt(3 * i + j); return r; }
static int mn(int a, int b) { return a < b ? a : b; }
static int mx(int a, int b) { return a > b ? a : b; }
W double C16_bounds2__impl() { L<2> l(3); for (int k = 0; k < 3; ++k) { X<1> y; y[0] = crd_y() + 2 * k; l[y].add_interval({px(k, 0), px(k, 1)}); } A<2> a(l); auto lo = a.min_indices(); auto hi = a.max_indices(); auto b = a.minmax_indices(); return Ev4(0, 0, lo[0], lo[1], hi[0], hi[1]) + Ev4(0, 1, b[0].first, b[1].first, b[0].second, b[1].second); }
W double C16_bounds2__spec() { int lo = mn(px(0, 0), mn(px(1, 0), px(2, 0))), hi = mx(px(0, 1), mx(px(1, 1), px(2, 1))); return Ev4(0, 0, lo, crd_y(), hi, crd_y() + 5) + Ev4(0, 1, lo, crd_y(), hi, crd_y() + 5); }
// equality compares level and all cells
static A<2> two(size_t lev, int a, int b, int y) { L<2> l(lev); X<1> yy; yy[0] = y; l[yy].add_interval({a, b}); yy[0] = y + 1; l[yy].add_interval({px(5, 0), px(5, 1)}); return A<2>(l); }
W bool C16_equal__impl(int a, int b, int c, int d, int y, int z, bool same) { vp_assume(a < b); vp_assume(c < d); return two(3, a, b, y) == two(same ? 3 : 4, c, d, z); }
W bool C16_equal__spec(int a, int b, int c, int d, int y, int z, bool same) { vp_assume(a < b); vp_assume(c < d); return (a == c) & (b == d) & (y == z) & same; }
// from a set expression
W double C16_fromset__impl() { A<2> a = two(3, px(0, 0), px(0, 2), crd_y()), b = two(3, px(0, 1), px(0, 3), crd_y()); A<2> u = union_(a, b), i = intersection(a, b), d = difference(a, b); double r = 0; r += dump<2>(u, 0) + dump<2>(i, 1) + dump<2>(d, 2); for (int k = 0; k < 3; ++k) { auto& s = k == 0 ? u : k == 1 ? i : d; r -= s.scaling_factor() * wgt(k) + (2 * s.origin_point()[0] + 3 * s.origin_point()[1]) * wgt(k); } return r; }
W double C16_fromset__spec() { double r = 0; int y = crd_y(); for (int k = 0; k < 3; ++k) { int h = k == 2 ? 1 : 2; r += Ev4(k, 0, px(0, k == 1 ? 1 : 0), px(0, k == 0 ? 3 : k == 1 ? 2 : 1), 0, 1); if (h == 2) r += Ev4(k, 1, px(5, 0), px(5, 1), 0, 1); r += Ev(k, 1000, h, 0) + Ev4(k, 100, y, y + h, -y, 1) + Ev(k, 1001, 1, 0); for (int n = 0; n <= h; ++n) r += Ev(k, 2100 + n, n, 0); r += Ev(k, 3001, h + 1, 0) + Ev(k, 4000, 3, false); } return r; }
#endif
