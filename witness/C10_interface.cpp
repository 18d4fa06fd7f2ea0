// FLAGS: -fno-access-control -isystem $VERIF/witness/stub/omp
// PARTS: 8
// which interfaces are visited, with which cells
#if VP_PART == 7
#define SAMURAI_WITH_OPENMP
#endif
#if VP_PART >= 4 && VP_PART <= 6
#define MK_LEN 4
#define MK_X0(L) (2 * probe(0, L))
#endif
#include "mkset.hpp"
#include <samurai/interface.hpp>
extern "C" {
void emitu_face(double a, double b, double comput);
double ccell(int level, int x, int y, int z, long long index, double length, double ox, double oy, double oz) PURE;
double sig(double s, double cell) PURE;
long long rowoff(int level, int y, int z) PURE;
double mesh_cell_length(size_t l) PURE;
double orig(int k) PURE;
int omp_thread() PURE;
}
using namespace samurai;
namespace mk {
  enum class QId { cells, reference };
  template <size_t d, int MN, int MX> struct QMesh {
    static constexpr size_t dim = d; static constexpr int lmin = MN, lmax = MX;
    struct config { static constexpr size_t dim = d; using interval_t = Iv; };
    using mesh_id_t = QId; using interval_t = Iv; using value_t = int; using cell_t = Cell<d, Iv>; using mesh_interval_t = MeshInterval<d, Iv>; using ca_type = CellArray<d, Iv, 20>;
    ca_type c{100, MN, MX}, r{104, MN, MX}; Set<d> sub{151, MX};
    const ca_type& operator[](QId i) const { return i == QId::cells ? c : r; }
    size_t min_level() const { return MN; }
    size_t max_level() const { return MX; }
    size_t nb_cells() const { return ~size_t(0) >> 1; }
    const Set<d>& subdomain() const { return sub; }
    const Set<d>& domain() const { return sub; }
    double cell_length(size_t l) const { return mesh_cell_length(l); }
    auto origin_point() const { xt::xtensor_fixed<double, xt::xshape<d>> o; for (size_t k = 0; k < d; ++k) o[k] = orig(int(k)); return o; }
    template <class V> long long get_index(size_t level, const V& v) const { int p[3] = {0, 0, 0}; for (size_t k = 0; k < d; ++k) p[k] = v[k]; return rowoff(int(level), p[1], p[2]) + p[0]; }
  };
}
template <class C> double cc(const C& c) { int p[3] = {0, 0, 0}; double o[3] = {0, 0, 0}; for (size_t k = 0; k < C::dim; ++k) { p[k] = c.indices[k]; o[k] = c.origin_point[k]; } return ccell(int(c.level), p[0], p[1], p[2], c.index, c.length, o[0], o[1], o[2]); }
template <class A> double all(const A& a) { double s = 0; for (auto& c : a) s = sig(s, cc(c)); return s; }
// ---- specification ----
template <size_t d, int MN, int MX> struct Y {
  static int p(int a, int L) { return mk::pr<d>(a, L); }
  static double cell(int L, int x, int y, int z) { return ccell(L, x, y, z, rowoff(L, y, z) + x, mesh_cell_length(size_t(L)), orig(0), d > 1 ? orig(1) : 0, d > 2 ? orig(2) : 0); }
  static bool in(int L, int m, int a, int b, int c) { mk::Set<d> s(100, m); s.s[0] = a; s.s[1] = b; s.s[2] = c; return s.member(L, p(0, L), p(1, L), p(2, L)); }
  // the whole stencil, seen from the cell on the left of the interface
  template <size_t n> static double comp(int L, int x, int y, int z, const int (&st)[n][3]) { double s = 0; for (auto& v : st) s = sig(s, cell(L, x + v[0], y + v[1], z + v[2])); return s; }
  template <size_t n> static void same(int L, const int (&e)[3], const int (&st)[n][3]) {
    if (in(L, L, 0, 0, 0) & in(L, L, -e[0], -e[1], -e[2]))
      for (int t = 0; t < MK_LEN; ++t) { int x = p(0, L) + t, y = p(1, L), z = p(2, L); emitu_face(cell(L, x, y, z), cell(L, x + e[0], y + e[1], z + e[2]), comp(L, x, y, z, st)); } }
  template <size_t n> static void jump(int l, const int (&e)[3], const int (&st)[n][3], bool dir, bool opp) {
    if (l >= MX) return; int L = l + 1;
    // a: cell of level l whose right neighbour has level l + 1
    if (dir) if (in(L, l, 0, 0, 0) & in(L, L, -e[0], -e[1], -e[2]))
      for (int t = 0; t < MK_LEN; ++t) { int x = p(0, L) + t, y = p(1, L), z = p(2, L); int X = MK_LEN == 1 ? x >> 1 : probe(0, L) + t / 2; emitu_face(cell(l, X, y >> 1, z >> 1), cell(L, x + e[0], y + e[1], z + e[2]), comp(L, x, y, z, st)); }
    // b: cell of level l whose left neighbour has level l + 1
    if (opp) if (in(L, l, 0, 0, 0) & in(L, L, e[0], e[1], e[2]))
      for (int t = 0; t < MK_LEN; ++t) { int x = p(0, L) + t, y = p(1, L), z = p(2, L); int X = MK_LEN == 1 ? x >> 1 : probe(0, L) + t / 2; emitu_face(cell(L, x - e[0], y - e[1], z - e[2]), cell(l, X, y >> 1, z >> 1), comp(L, x - e[0], y - e[1], z - e[2], st)); } }
  static bool bd(int L, const int (&e)[3]) { mk::Set<d> s(151, MX); int w = 1 << (MX - L); for (int k = 0; k < 3; ++k) s.s[k] = -w * e[k]; return in(L, L, 0, 0, 0) & !s.member(L, p(0, L), p(1, L), p(2, L)); }
  template <size_t n> static void border(int L, const int (&e)[3], const int (&st)[n][3], bool dir, bool opp) {
    const int m[3] = {-e[0], -e[1], -e[2]};
    if (dir) if (bd(L, e)) for (int t = 0; t < MK_LEN; ++t) { int x = p(0, L) + t, y = p(1, L), z = p(2, L); emitu_face(cell(L, x, y, z), 0, comp(L, x, y, z, st)); }
    if (opp) if (bd(L, m)) for (int t = 0; t < MK_LEN; ++t) { int x = p(0, L) + t, y = p(1, L), z = p(2, L); emitu_face(cell(L, x, y, z), 0, comp(L, x - e[0], y - e[1], z - e[2], st)); } }
};
template <size_t d> DirectionVector<d> dv(const int (&e)[3]) { DirectionVector<d> v; for (size_t k = 0; k < d; ++k) v[k] = e[k]; return v; }
template <size_t d, size_t n> Stencil<n, d> sv(const int (&s)[n][3]) { Stencil<n, d> v; for (size_t i = 0; i < n; ++i) for (size_t k = 0; k < d; ++k) v(i, k) = s[i][k]; return v; }
constexpr int ex[3] = {1, 0, 0}, ey[3] = {0, 1, 0}, ez[3] = {0, 0, 1};
constexpr int sx2[2][3] = {{0, 0, 0}, {1, 0, 0}}, sy2[2][3] = {{0, 0, 0}, {0, 1, 0}}, sz2[2][3] = {{0, 0, 0}, {0, 0, 1}};
constexpr int sx4[4][3] = {{-1, 0, 0}, {0, 0, 0}, {1, 0, 0}, {2, 0, 0}}, sy4[4][3] = {{0, -1, 0}, {0, 0, 0}, {0, 1, 0}, {0, 2, 0}}, sx6[6][3] = {{1, 0, 0}, {1, 1, 0}, {1, -1, 0}, {0, 0, 0}, {0, 1, 0}, {0, -1, 0}};
static auto face = [](auto& ic, auto& cs) { emitu_face(cc(ic[0]), cc(ic[1]), all(cs)); };
static auto edge = [](auto& c, auto& cs) { emitu_face(cc(c), 0, all(cs)); };
#define SAME(nm, d, L, e, st) W void C10_same_##nm##__impl() { mk::QMesh<d, 1, 3> m; for_each_interior_interface__same_level(m, L, dv<d>(e), sv<d>(st), face); } W void C10_same_##nm##__spec() { Y<d, 1, 3>::same(L, e, st); }
#define JUMP(nm, d, L, e, st) W void C10_jump_##nm##__impl() { mk::QMesh<d, 1, 3> m; for_each_interior_interface__level_jump_direction(m, L, dv<d>(e), sv<d>(st), face); } W void C10_jump_##nm##__spec() { Y<d, 1, 3>::jump(L, e, st, true, false); } \
  W void C10_jumpopp_##nm##__impl() { mk::QMesh<d, 1, 3> m; for_each_interior_interface__level_jump_opposite_direction(m, L, dv<d>(e), sv<d>(st), face); } W void C10_jumpopp_##nm##__spec() { Y<d, 1, 3>::jump(L, e, st, false, true); }
#define BORD(nm, d, L, e, st) W void C10_border_##nm##__impl() { mk::QMesh<d, 1, 3> m; for_each_boundary_interface__direction(m, L, dv<d>(e), sv<d>(st), edge); } W void C10_border_##nm##__spec() { Y<d, 1, 3>::border(L, e, st, true, false); } \
  W void C10_borderopp_##nm##__impl() { mk::QMesh<d, 1, 3> m; for_each_boundary_interface__opposite_direction(m, L, dv<d>(e), sv<d>(st), edge); } W void C10_borderopp_##nm##__spec() { Y<d, 1, 3>::border(L, e, st, false, true); }
#if VP_PART == 0
SAME(1, 1, 2, ex, sx2) SAME(2x, 2, 3, ex, sx4) SAME(2y, 2, 1, ey, sy2) SAME(2k, 2, 2, ex, sx6) SAME(3x, 3, 2, ex, sx4) SAME(3y, 3, 2, ey, sy4) SAME(3z, 3, 2, ez, sz2)
#endif
#if VP_PART == 1
JUMP(1, 1, 2, ex, sx2) JUMP(1w, 1, 1, ex, sx4) JUMP(1t, 1, 3, ex, sx2) JUMP(2x, 2, 2, ex, sx6) JUMP(2y, 2, 1, ey, sy4)
#endif
#if VP_PART == 2
JUMP(3x, 3, 1, ex, sx4) JUMP(3y, 3, 2, ey, sy2) JUMP(3z, 3, 1, ez, sz2)
BORD(1, 1, 2, ex, sx4) BORD(2x, 2, 1, ex, sx6) BORD(2y, 2, 3, ey, sy4) BORD(3z, 3, 2, ez, sz2) BORD(3x, 3, 1, ex, sx2)
#endif
// over the whole mesh: every level, every direction, no interface twice
#if VP_PART == 3
W void C10_all1__impl() { mk::QMesh<1, 1, 3> m; for_each_interior_interface(m, face); }
W void C10_all1__spec() { for (int l = 1; l <= 3; ++l) { Y<1, 1, 3>::same(l, ex, sx2); Y<1, 1, 3>::jump(l, ex, sx2, true, true); } }
W void C10_all2__impl() { mk::QMesh<2, 1, 2> m; for_each_interior_interface(m, face); }
W void C10_all2__spec() { for (int l = 1; l <= 2; ++l) { Y<2, 1, 2>::same(l, ex, sx2); Y<2, 1, 2>::jump(l, ex, sx2, true, true); Y<2, 1, 2>::same(l, ey, sy2); Y<2, 1, 2>::jump(l, ey, sy2, true, true); } }
W void C10_all3__impl() { mk::QMesh<3, 1, 2> m; for_each_interior_interface(m, face); }
W void C10_all3__spec() { for (int l = 1; l <= 2; ++l) { Y<3, 1, 2>::same(l, ex, sx2); Y<3, 1, 2>::jump(l, ex, sx2, true, true); Y<3, 1, 2>::same(l, ey, sy2); Y<3, 1, 2>::jump(l, ey, sy2, true, true); Y<3, 1, 2>::same(l, ez, sz2); Y<3, 1, 2>::jump(l, ez, sz2, true, true); } }
W void C10_allborder2__impl() { mk::QMesh<2, 1, 2> m; for_each_boundary_interface(m, edge); }
W void C10_allborder2__spec() { for (int l = 1; l <= 2; ++l) { Y<2, 1, 2>::border(l, ex, sx2, true, true); Y<2, 1, 2>::border(l, ey, sy2, true, true); } }
W void C10_allborder3__impl() { mk::QMesh<3, 1, 2> m; for_each_boundary_interface(m, edge); }
W void C10_allborder3__spec() { for (int l = 1; l <= 2; ++l) { Y<3, 1, 2>::border(l, ex, sx2, true, true); Y<3, 1, 2>::border(l, ey, sy2, true, true); Y<3, 1, 2>::border(l, ez, sz2, true, true); } }
W void C10_dirborder2__impl() { mk::QMesh<2, 1, 2> m; for_each_boundary_interface__direction(m, dv<2>(ey), edge); }
W void C10_dirborder2__spec() { for (int l = 1; l <= 2; ++l) Y<2, 1, 2>::border(l, ey, sy2, true, false); }
#endif
// along an interval of several cells the cells move together; the coarse side moves once every two fine cells
#if VP_PART == 4
SAME(1i, 1, 2, ex, sx4) SAME(2i, 2, 3, ey, sy4) SAME(3i, 3, 2, ez, sz2) BORD(2i, 2, 2, ey, sy2)
#endif
#if VP_PART == 5
JUMP(2i, 2, 2, ey, sy4) JUMP(3i, 3, 1, ez, sz2)
#endif
// by intervals: the iterators are positioned on the first cells and carry the interval
#if VP_PART == 6
static auto facei = [](auto& ii, auto& ci) { for (size_t t = 0; t < ii.interval().size(); ++t) { emitu_face(cc(ii.cells()[0]), cc(ii.cells()[1]), all(ci.cells())); ii.move_next(); ci.move_next(); } };
static auto edgei = [](auto& c, auto& ci) { auto c0 = c; for (size_t t = 0; t < ci.interval().size(); ++t) { emitu_face(cc(c0), 0, all(ci.cells())); c0.index++; c0.indices[0]++; ci.move_next(); } };
#define INTV(nm, d, L, e, st) W void C10_byint_##nm##__impl() { mk::QMesh<d, 1, 3> m; for_each_interior_interface<Run::Sequential, Get::Intervals>(m, L, dv<d>(e), sv<d>(st), facei); } W void C10_byint_##nm##__spec() { Y<d, 1, 3>::same(L, e, st); Y<d, 1, 3>::jump(L, e, st, true, true); }
INTV(2, 2, 2, ey, sy4) INTV(3, 3, 1, ez, sz2)
W void C10_byint_b2__impl() { mk::QMesh<2, 1, 3> m; for_each_boundary_interface__both_directions<Run::Sequential, Get::Intervals>(m, 2, dv<2>(ey), sv<2>(sy4), edgei); }
W void C10_byint_b2__spec() { Y<2, 1, 3>::border(2, ey, sy4, true, true); }
#endif
// the OpenMP build, seen from one of its threads
#if VP_PART == 7
#define PAR(nm, d, L, e, st) W void C10_omp_##nm##__impl() { mk::QMesh<d, 1, 3> m; for_each_interior_interface<Run::Sequential, Get::Cells>(m, L, dv<d>(e), sv<d>(st), face); } W void C10_omp_##nm##__spec() { Y<d, 1, 3>::same(L, e, st); Y<d, 1, 3>::jump(L, e, st, true, true); }
PAR(1, 1, 2, ex, sx4) PAR(2, 2, 2, ey, sy2)
W void C10_omp_b2__impl() { mk::QMesh<2, 1, 3> m; for_each_boundary_interface__both_directions(m, 2, dv<2>(ey), sv<2>(sy4), edge); }
W void C10_omp_b2__spec() { Y<2, 1, 3>::border(2, ey, sy4, true, true); }
#endif
