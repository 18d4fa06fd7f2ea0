// FLAGS: -fno-access-control
// stencils: what they contain, how they are oriented, and how they are moved over the cells
#define MK_LEN 3
#include "mkset.hpp"
#include <samurai/stencil.hpp>
extern "C" {
void emits_v(int id, int x, int y, int z);
void emit_v(int id, int x, int y, int z);
void emitu_st(double cells);
double ccell(int level, int x, int y, int z, long long index, double length) PURE;
double sig(double s, double cell) PURE;
long long rowoff(int level, int y, int z) PURE;
double mesh_cell_length(size_t l) PURE;
}
using namespace samurai;
template <size_t n, size_t d> void set_out(const Stencil<n, d>& s, int id = 0) { for (size_t i = 0; i < n; ++i) { int v[3] = {0, 0, 0}; for (size_t k = 0; k < d; ++k) v[k] = s(i, k); emits_v(id, v[0], v[1], v[2]); } }
template <size_t n, size_t d> void seq_out(const Stencil<n, d>& s, int id = 0) { for (size_t i = 0; i < n; ++i) { int v[3] = {0, 0, 0}; for (size_t k = 0; k < d; ++k) v[k] = s(i, k); emit_v(id, v[0], v[1], v[2]); } }
// star: the centre and w neighbours on each side in each direction
#define STAR(d, w) W void C10_star_##d##_##w##__impl() { set_out<1 + 2 * d * w, d>(star_stencil<d, w>()); } W void C10_star_##d##_##w##__spec() { emits_v(0, 0, 0, 0); for (int k = 0; k < d; ++k) for (int a = 1; a <= w; ++a) { int v[3] = {0, 0, 0}; v[k] = a; emits_v(0, v[0], v[1], v[2]); emits_v(0, -v[0], -v[1], -v[2]); } }
STAR(1, 0) STAR(2, 0) STAR(3, 0) STAR(1, 1) STAR(2, 1) STAR(3, 1) STAR(1, 2) STAR(2, 2) STAR(3, 2)
#define CART(d) W void C10_cart_##d##__impl() { set_out<2 * d, d>(cartesian_directions<d>()); seq_out<d, d>(positive_cartesian_directions<d>(), 1); } W void C10_cart_##d##__spec() { for (int k = 0; k < d; ++k) { int v[3] = {0, 0, 0}; v[k] = 1; emits_v(0, v[0], v[1], v[2]); emits_v(0, -v[0], -v[1], -v[2]); emit_v(1, v[0], v[1], v[2]); } }
CART(1) CART(2) CART(3)
// directional: centre, inner cells from the nearest, outer cells from the nearest
template <int d, int w> void directional() { auto t = directional_stencils<d, w>(); for (int k = 0; k < d; ++k) for (int s = -1; s < 2; s += 2) { int n = 0; for (auto& x : t) { int e[3] = {0, 0, 0}; for (int q = 0; q < d; ++q) e[q] = x.direction[q]; int f[3] = {0, 0, 0}; f[k] = s; if (e[0] == f[0] && e[1] == f[1] && e[2] == f[2]) { ++n; seq_out<1 + 2 * w, d>(x.stencil, n); } } } }
#define DIRS(d, w) W void C10_directional_##d##_##w##__impl() { directional<d, w>(); } W void C10_directional_##d##_##w##__spec() { for (int k = 0; k < d; ++k) for (int s = -1; s < 2; s += 2) { int e[3] = {0, 0, 0}; e[k] = s; emit_v(1, 0, 0, 0); for (int a = 1; a <= w; ++a) emit_v(1, -a * e[0], -a * e[1], -a * e[2]); for (int a = 1; a <= w; ++a) emit_v(1, a * e[0], a * e[1], a * e[2]); } }
DIRS(1, 1) DIRS(2, 1) DIRS(3, 1) DIRS(1, 2) DIRS(2, 2) DIRS(3, 2)
// lines
#define LINE(d, k, n) W void C10_line_##d##k##n##__impl(int a) { seq_out<n, d>(line_stencil_from<d, k, n>(a)); seq_out<n, d>(line_stencil<d, k, n>()); seq_out<3, d>(line_stencil<d, k>(a, 2, -a)); } \
  W void C10_line_##d##k##n##__spec(int a) { for (int i = 0; i < n; ++i) emit_v(0, k == 0 ? a + i : 0, k == 1 ? a + i : 0, k == 2 ? a + i : 0); for (int i = 0; i < n; ++i) { int b = i + 1 - n / 2; emit_v(0, k == 0 ? b : 0, k == 1 ? b : 0, k == 2 ? b : 0); } int v[3] = {a, 2, -a}; for (int b : v) emit_v(0, k == 0 ? b : 0, k == 1 ? b : 0, k == 2 ? b : 0); }
LINE(1, 0, 2) LINE(2, 0, 4) LINE(2, 1, 2) LINE(3, 0, 2) LINE(3, 1, 4) LINE(3, 2, 6)
// in_out
#define INOUT(d) W void C10_inout_##d##__impl(int a, int b, int c) { DirectionVector<d> v; int e[3] = {a, b, c}; for (int k = 0; k < d; ++k) v[k] = e[k]; seq_out<2, d>(in_out_stencil<d>(v)); } W void C10_inout_##d##__spec(int a, int b, int c) { emit_v(0, 0, 0, 0); emit_v(0, a, d > 1 ? b : 0, d > 2 ? c : 0); }
INOUT(1) INOUT(2) INOUT(3)
// orientation: a line along x becomes the same line along the direction, for every direction and every line
template <size_t d, size_t n> void conv_impl(const int* e, const int* a) { DirectionVector<d> v; for (size_t k = 0; k < d; ++k) v[k] = e[k]; Stencil<n, d> s; s.fill(0); for (size_t i = 0; i < n; ++i) s(i, 0) = a[i]; seq_out<n, d>(convert_for_direction(s, v)); }
#define CONV(d, ID, X, Y, Z) W void C10_orient_##d##_##ID##__impl(int a, int b, int c) { int e[3] = {X, Y, Z}, l[3] = {a, b, c}; conv_impl<d, 3>(e, l); } W void C10_orient_##d##_##ID##__spec(int a, int b, int c) { int l[3] = {a, b, c}; for (int q : l) emit_v(0, q * (X), q * (Y), q * (Z)); }
CONV(1, l, -1, 0, 0) CONV(1, r, 1, 0, 0)
CONV(2, l, -1, 0, 0) CONV(2, r, 1, 0, 0) CONV(2, b, 0, -1, 0) CONV(2, t, 0, 1, 0) CONV(2, rt, 1, 1, 0) CONV(2, rb, 1, -1, 0) CONV(2, lt, -1, 1, 0) CONV(2, lb, -1, -1, 0)
CONV(3, l, -1, 0, 0) CONV(3, r, 1, 0, 0) CONV(3, f, 0, -1, 0) CONV(3, k, 0, 1, 0) CONV(3, b, 0, 0, -1) CONV(3, t, 0, 0, 1)
CONV(3, e1, 1, 1, 0) CONV(3, e2, 1, 0, -1) CONV(3, e3, 0, -1, 1) CONV(3, e4, 0, 1, 1) CONV(3, e5, -1, 0, 1) CONV(3, c1, 1, 1, 1) CONV(3, c2, -1, 1, -1) CONV(3, c3, -1, -1, -1)
// searches
W int C10_origin__impl(int a, int b, int c, int e, int f, int g) { Stencil<3, 2> s; int t[3][2] = {{a, b}, {c, e}, {f, g}}; for (size_t i = 0; i < 3; ++i) for (size_t k = 0; k < 2; ++k) s(i, k) = t[i][k]; return find_stencil_origin(s); }
W int C10_origin__spec(int a, int b, int c, int e, int f, int g) { return a == 0 && b == 0 ? 0 : c == 0 && e == 0 ? 1 : f == 0 && g == 0 ? 2 : -1; }
W int C10_find__impl(int a, int b, int c, int e, int p, int q) { Stencil<2, 2> s; int t[2][2] = {{a, b}, {c, e}}; for (size_t i = 0; i < 2; ++i) for (size_t k = 0; k < 2; ++k) s(i, k) = t[i][k]; DirectionVector<2> v; v[0] = p; v[1] = q; return find(s, v); }
W int C10_find__spec(int a, int b, int c, int e, int p, int q) { return a == p && b == q ? 0 : c == p && e == q ? 1 : -1; }
W bool C10_iscart2__impl(int a, int b) { DirectionVector<2> v; v[0] = a; v[1] = b; return is_cartesian(v); }
W bool C10_iscart2__spec(int a, int b) { return (a < 0 ? -a : a) + (b < 0 ? -b : b) == 1; }
W bool C10_isline2__impl(int a, int b, int c, int e) { Stencil<2, 2> s; s(0, 0) = a; s(0, 1) = b; s(1, 0) = c; s(1, 1) = e; return is_line_stencil(s); }
W bool C10_isline2__spec(int a, int b, int c, int e) { return (a == 0 && c == 0) || (b == 0 && e == 0); }
// moving over the cells
namespace mk {
  enum class QId { cells, reference };
  template <size_t d, int MN, int MX> struct QMesh {
    static constexpr size_t dim = d;
    struct config { static constexpr size_t dim = d; using interval_t = Iv; };
    using mesh_id_t = QId; using interval_t = Iv; using value_t = int; using cell_t = Cell<d, Iv>; using mesh_interval_t = MeshInterval<d, Iv>; using ca_type = CellArray<d, Iv, 20>;
    ca_type c{100, MN, MX}, r{104, MN, MX};
    const ca_type& operator[](QId i) const { return i == QId::cells ? c : r; }
    size_t nb_cells() const { return ~size_t(0) >> 1; }
    double cell_length(size_t l) const { return mesh_cell_length(l); }
    auto origin_point() const { xt::xtensor_fixed<double, xt::xshape<d>> o; o.fill(0); return o; }
    template <class V> long long get_index(size_t level, const V& v) const { int p[3] = {0, 0, 0}; for (size_t k = 0; k < d; ++k) p[k] = v[k]; return rowoff(int(level), p[1], p[2]) + p[0]; }
  };
  template <size_t d, class F> void for_each_meshinterval(const LevelCellArray<d, Iv>& s, F&& f) { int L = s.lv, px = pr<d>(0, L); if (s.member(L, px, pr<d>(1, L), pr<d>(2, L))) f(MeshInterval<d, Iv>(size_t(L), Iv(px, px + MK_LEN), probe_yz<d>(L))); }
}
template <class A> double all(const A& a) { double s = 0; for (auto& c : a) { int p[3] = {0, 0, 0}; for (size_t k = 0; k < std::decay_t<decltype(c)>::dim; ++k) p[k] = c.indices[k]; s = sig(s, ccell(int(c.level), p[0], p[1], p[2], c.index, c.length)); } return s; }
template <size_t d, size_t n> Stencil<n, d> sv(const int (&s)[n][3]) { Stencil<n, d> v; for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < d; ++k) v(i, k) = s[i][k]; return v; }
constexpr int s1[3][3] = {{2, 0, 0}, {0, 0, 0}, {-1, 0, 0}}, s2[5][3] = {{-1, 0, 0}, {1, 1, 0}, {0, 0, 0}, {0, -1, 0}, {3, 0, 0}}, s3[5][3] = {{0, 0, 0}, {0, 0, 1}, {-1, -1, 0}, {0, 1, -1}, {-2, 0, 0}};
template <size_t d, size_t n> void stspec(int L, const int (&st)[n][3], bool second) {
  mk::Set<d> a(100, L), b(300, L + 1); int X = mk::pr<d>(0, L), y = mk::pr<d>(1, L), z = mk::pr<d>(2, L);
  if (second ? a.member(L, X, y, z) & b.member(L, X, y, z) : a.member(L, X, y, z)) for (int t = 0; t < MK_LEN; ++t) { double s = 0; for (auto& v : st) s = sig(s, ccell(L, X + t + v[0], y + v[1], z + v[2], rowoff(L, y + v[1], z + v[2]) + X + t + v[0], mesh_cell_length(size_t(L)))); emitu_st(s); } }
#define EACH(d, st) W void C10_each_##d##__impl() { mk::QMesh<d, 1, 2> m; for_each_stencil(m, sv<d>(st), [](auto& c) { emitu_st(all(c)); }); } W void C10_each_##d##__spec() { stspec<d>(1, st, false); stspec<d>(2, st, false); } \
  W void C10_eachset_##d##__impl() { mk::QMesh<d, 1, 3> m; mk::Set<d> o(300, 3); auto s = mk::intersection(m[mk::QId::cells][2], o).on(2); for_each_stencil(m, s, sv<d>(st), [](auto& c) { emitu_st(all(c)); }); } W void C10_eachset_##d##__spec() { stspec<d>(2, st, true); }
EACH(1, s1) EACH(2, s2) EACH(3, s3)
