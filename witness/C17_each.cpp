// PARTS: 5
// traversals visit exactly the cells / intervals / levels of what they are given, each once, with the right coordinates and storage index
#include "store.hpp"
#include <samurai/mesh_holder.hpp>
#include <samurai/mesh_interval.hpp>
using namespace samurai; using namespace st;
using I = default_config::interval_t;
template <int n> using X = xt::xtensor_fixed<int, xt::xshape<n>>;
template <int n> using XD = xt::xtensor_fixed<double, xt::xshape<n>>;
template <int d> using CL = CellList<d, I, 4>;
template <int d> using CA = CellArray<d, I, 4>;
template <int d> using LA = LevelCellArray<d, I>;
template <int d> static XD<d> origin() { XD<d> o; for (int k = 0; k < d; ++k) o[k] = org(k); return o; }
template <int d> static X<d - 1> at(int a, int b) { X<d - 1> y; if constexpr (d > 1) y[0] = crd_y() + a; if constexpr (d > 2) y[1] = crd_z() + b; return y; }
// row k of the test set: level, y, z, first cell, number of cells
struct Row { int lev, y, z, r, off, len; };
static const Row rows[6] = {{1, 0, 0, 0, 0, 2}, {1, 0, 0, 0, 4, 1}, {1, 2, 0, 1, 0, 3}, {3, 0, 0, 2, 0, 2}, {3, 1, 1, 3, 0, 1}, {3, 2, 1, 4, 0, 2}};
template <int d> static bool in(int k) { return d > 1 || k == 0 || k == 1 || k == 3; }
static int x0(const Row& w) { return crd_row(w.r) + w.off; }
template <int d> static CA<d> make() { CL<d> l(origin<d>(), pos_scale()); for (int k = 5; k >= 0; --k) if (in<d>(k)) l[rows[k].lev][at<d>(rows[k].y, d > 2 ? rows[k].z : 0)].add_interval({x0(rows[k]), x0(rows[k]) + rows[k].len}); return CA<d>(l); }
template <int d> struct Msh { enum class mesh_id_t { other, cells }; struct config { using mesh_id_t = Msh::mesh_id_t; }; using interval_t = I; static constexpr size_t dim = d; CA<d> c, o; const CA<d>& operator[](mesh_id_t m) const { return m == mesh_id_t::cells ? c : o; } template <class... A> auto get_index(A&&... a) const { return c.get_index(a...); } auto& origin_point() const { return c.origin_point(); } double scaling_factor() const { return c.scaling_factor(); } };
template <int d> static Msh<d> mesh() { Msh<d> m; m.c = make<d>(); return m; }
template <int d, class C> static double cell(int k, const C& c) { double r = Ev4(k, 1 + (int)c.level, c.index, c.indices[0], d > 1 ? c.indices[d > 1 ? 1 : 0] : 0, d > 2 ? c.indices[d > 2 ? 2 : 0] : 0) + c.length * wgt(k); for (int e = 0; e < d; ++e) r += c.origin_point[e] * wgt(k + e + 1); return r; }
template <int d> static double cells(int k, int lev, int from = 0, int to = 6) { double r = 0; int acc = 0; for (int n = 0; n < 6; ++n) { if (!in<d>(n)) continue; auto& w = rows[n]; for (int i = 0; i < w.len; ++i, ++acc) if ((lev < 0 || lev == w.lev) && n >= from && n < to) { r += Ev4(k, 1 + w.lev, acc, x0(w) + i, d > 1 ? crd_y() + w.y : 0, d > 2 ? crd_z() + w.z : 0) + pos_scale() / (1 << w.lev) * wgt(k); for (int e = 0; e < d; ++e) r += org(e) * wgt(k + e + 1); } } return r; }
template <int d, class V, class Y> static double itv(int k, size_t lev, const V& i, const Y& y) { double r = Ev4(k, 1 + (int)lev, i.start, i.end, d > 1 ? y[d > 1 ? 0 : 0] : 0, d > 2 ? y[d > 2 ? 1 : 0] : 0); return r; }
template <int d> static double itvs(int k, int lev) { double r = 0; for (int n = 0; n < 6; ++n) if (in<d>(n) && (lev < 0 || lev == rows[n].lev)) r += Ev4(k, 1 + rows[n].lev, x0(rows[n]), x0(rows[n]) + rows[n].len, d > 1 ? crd_y() + rows[n].y : 0, d > 2 ? crd_z() + rows[n].z : 0); return r; }
#define DIMS(F) F(1) F(2) F(3)
#if VP_PART == 0
#define CELLS(d) \
W double C17_lca##d##__impl() { const CA<d> a = make<d>(); double r = 0; for_each_cell(a[3], [&](auto& c) { r += cell<d>(0, c); }); for_each_cell<Run::Parallel>(a[3], [&](auto& c) { r += cell<d>(10, c); }); for_each_cell<Run::Sequential>(a[1], [&](auto& c) { r += cell<d>(20, c); }); parallel_for_each_cell(a[1], [&](auto& c) { r += cell<d>(30, c); }); return r; } \
W double C17_lca##d##__spec() { return cells<d>(0, 3) + cells<d>(10, 3) + cells<d>(20, 1) + cells<d>(30, 1); } \
W double C17_ca##d##__impl() { const CA<d> a = make<d>(); double r = 0; for_each_cell(a, [&](auto& c) { r += cell<d>(0, c); }); for_each_cell<Run::Parallel>(a, [&](auto& c) { r += cell<d>(10, c); }); return r; } \
W double C17_ca##d##__spec() { return cells<d>(0, -1) + cells<d>(10, -1); }
DIMS(CELLS)
#endif
#if VP_PART == 1
#define MESH(d) \
W double C17_mesh##d##__impl() { const Msh<d> m = mesh<d>(); double r = 0; for_each_cell(m, [&](auto& c) { r += cell<d>(0, c); }); for_each_cell<Run::Parallel>(m, [&](auto& c) { r += cell<d>(10, c); }); for_each_interval(m, [&](size_t l, auto& i, auto& y) { r += itv<d>(20, l, i, y); }); return r; } \
W double C17_mesh##d##__spec() { return cells<d>(0, -1) + cells<d>(10, -1) + itvs<d>(20, -1); } \
W double C17_hold##d##__impl() { Msh<d> m = mesh<d>(); auto h = holder(m); double r = 0; for_each_cell(h, [&](auto& c) { r += cell<d>(0, c); }); return r; } \
W double C17_hold##d##__spec() { return cells<d>(0, -1); } \
W double C17_run##d##__impl() { const Msh<d> m = mesh<d>(); double r = 0; int n = 0; for (int k = 0; k < 6; ++k) if (in<d>(k)) for_each_cell(m, rows[k].lev, I{x0(rows[k]), x0(rows[k]) + rows[k].len}, at<d>(rows[k].y, rows[k].z), [&](auto& c) { r += cell<d>(k * 10, c); }); return r; } \
W double C17_run##d##__spec() { double r = 0; for (int k = 0; k < 6; ++k) if (in<d>(k)) r += cells<d>(k * 10, -1, k, k + 1); return r; }
DIMS(MESH)
#endif
#if VP_PART == 2
#define ITV(d) \
W double C17_itv##d##__impl() { CA<d> a = make<d>(); const CA<d>& b = a; double r = 0; for_each_interval(b, [&](size_t l, auto& i, auto& y) { r += itv<d>(0, l, i, y); }); for_each_interval(a, [&](size_t l, auto& i, auto& y) { r += itv<d>(10, l, i, y); }); for_each_interval(b[3], [&](size_t l, auto& i, auto& y) { r += itv<d>(20, l, i, y); }); for_each_interval(a[1], [&](size_t l, auto& i, auto& y) { r += itv<d>(30, l, i, y); }); for_each_interval(a[2], [&](size_t l, auto& i, auto& y) { r += itv<d>(30, l, i, y); }); for_each_interval(b[0], [&](size_t l, auto& i, auto& y) { r += itv<d>(30, l, i, y); }); return r; } \
W double C17_itv##d##__spec() { return itvs<d>(0, -1) + itvs<d>(10, -1) + itvs<d>(20, 3) + itvs<d>(30, 1); } \
W double C17_mi##d##__impl() { const CA<d> a = make<d>(); double r = 0; for_each_meshinterval(a, [&](const auto& m) { r += itv<d>(0, m.level, m.i, m.index) + double(m.i.index) * wgt(m.level); }); for_each_meshinterval(a[3], [&](const auto& m) { r += itv<d>(10, m.level, m.i, m.index); }); return r; } \
W double C17_mi##d##__spec() { double r = 0; int acc = 0; for (int n = 0; n < 6; ++n) if (in<d>(n)) { r += double(acc - x0(rows[n])) * wgt(rows[n].lev); acc += rows[n].len; } return r + itvs<d>(0, -1) + itvs<d>(10, 3); }
DIMS(ITV)
// levels
W double C17_levels__impl() { const CA<2> a = make<2>(), e; const Msh<2> m = mesh<2>(); double r = 0; for_each_level(a, [&](size_t l) { r += Ev(0, l, 0, 0); }); for_each_level(a, [&](size_t l) { r += Ev(1, l, 0, 0); }, true); for_each_level(m, [&](size_t l) { r += Ev(2, l, 0, 0); }); for_each_level(m, [&](size_t l) { r += Ev(3, l, 0, 0); }, true); for_each_level(e, [&](size_t l) { r += Ev(4, l, 0, 0); }, true); return r; }
W double C17_levels__spec() { return Ev(0, 1, 0, 0) + Ev(0, 3, 0, 0) + Ev(1, 1, 0, 0) + Ev(1, 2, 0, 0) + Ev(1, 3, 0, 0) + Ev(2, 1, 0, 0) + Ev(2, 3, 0, 0) + Ev(3, 1, 0, 0) + Ev(3, 2, 0, 0) + Ev(3, 3, 0, 0); }
// empty arrays
#define EMPTY(d) \
W double C17_empty##d##__impl() { const CA<d> e; CA<d> g; double r = 0; for_each_cell(e, [&](auto& c) { r += wgt(0); }); for_each_cell<Run::Parallel>(e[2], [&](auto& c) { r += wgt(1); }); for_each_cell(e[2], [&](auto& c) { r += wgt(2); }); for_each_meshinterval(e, [&](const auto& c) { r += wgt(3); }); for_each_meshinterval(e[1], [&](const auto& c) { r += wgt(4); }); for_each_interval(e, [&](size_t, auto& c, auto&) { r += wgt(5); }); for_each_interval(g, [&](size_t, auto& c, auto&) { r += wgt(6); }); return r; } \
W double C17_empty##d##__spec() { return 0; }
DIMS(EMPTY)
#endif
#if VP_PART == 3 || VP_PART == 4
// sets: cells of the intersection of the array with one shifted part of itself
template <int d> static LA<d> part() { LevelCellList<d, I> l(3); for (int k = 5; k >= 3; --k) if (in<d>(k)) l[at<d>(rows[k].y, d > 2 ? rows[k].z : 0)].add_interval({x0(rows[k]) + rows[k].len - 1, x0(rows[k]) + rows[k].len}); return LA<d>(l); }
template <int d> static double parts(int k) { double r = 0; int acc = 0; for (int n = 0; n < 6; ++n) { if (!in<d>(n)) continue; auto& w = rows[n]; acc += w.len; if (n < 3) continue; r += Ev4(k, 1 + w.lev, acc - 1, x0(w) + w.len - 1, d > 1 ? crd_y() + w.y : 0, d > 2 ? crd_z() + w.z : 0) + pos_scale() / (1 << w.lev) * wgt(k); for (int e = 0; e < d; ++e) r += org(e) * wgt(k + e + 1); } return r; }
template <int d> static double partsi(int k) { double r = 0; for (int n = 3; n < 6; ++n) if (in<d>(n)) r += Ev4(k, 4, x0(rows[n]) + rows[n].len - 1, x0(rows[n]) + rows[n].len, d > 1 ? crd_y() + rows[n].y : 0, d > 2 ? crd_z() + rows[n].z : 0); return r; }
using MI1 = MeshInterval<1, I>; using MI2 = MeshInterval<2, I>; using MI3 = MeshInterval<3, I>;
#endif
#define SETC(d) \
W double C17_set##d##__impl() { const Msh<d> m = mesh<d>(); LA<d> p = part<d>(); double r = 0; auto s = intersection(p, m.c[3]); for_each_cell(m, s, [&](auto& c) { r += cell<d>(0, c); }); for_each_cell(m.c[3], intersection(p, m.c[3]), [&](auto& c) { r += cell<d>(10, c); }); return r; } \
W double C17_set##d##__spec() { return parts<d>(0) + parts<d>(10); }
#define SETI(d) \
W double C17_seti##d##__impl() { const CA<d> a = make<d>(); LA<d> p = part<d>(); double r = 0; auto s = intersection(p, a[3]); for_each_interval(s, [&](size_t l, auto& i, auto& y) { r += itv<d>(0, l, i, y); }); for_each_meshinterval<MI##d>(s, [&](const auto& m) { r += itv<d>(10, m.level, m.i, m.index); }); for_each_meshinterval<MI##d, Run::Parallel>(s, [&](const auto& m) { r += itv<d>(20, m.level, m.i, m.index); }); for_each_meshinterval<MI##d, Run::Sequential>(s, [&](const auto& m) { r += itv<d>(30, m.level, m.i, m.index); }); return r; } \
W double C17_seti##d##__spec() { return partsi<d>(0) + partsi<d>(10) + partsi<d>(20) + partsi<d>(30); }
#if VP_PART == 3
DIMS(SETC)
#endif
#if VP_PART == 4
DIMS(SETI)
#endif
