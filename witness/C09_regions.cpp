// FLAGS: -fno-access-control
// the cells a condition is attached to
#include "mkset.hpp"
#include <samurai/bc.hpp>
#include <samurai/boundary.hpp>
extern "C" {
void emits_region(int dx, int dy, int dz, double id, int level);
void emits_cell(int level, int x, int y, int z, double h);
bool sel_face(double x, double y, double z) PURE;
double mesh_cell_length(size_t l) PURE;
double domx(int k) PURE;
}
using namespace samurai;
namespace mk {
  // the cells of a set expression visited with the geometry of the array given first
  template <size_t d, class O, class A, class B, class F> void for_each_cell(const Set<d>& s, Ex<O, A, B>& e, F&& f) {
    int L = e.lv; samurai::Cell<d, Iv> c; c.level = size_t(L); c.length = mesh_cell_length(size_t(L));
    for (size_t k = 0; k < d; ++k) { c.indices[k] = probe(int(k), L); c.origin_point[k] = domx(int(k)); }
    if (e.member_at_probe()) f(c); }
}
template <size_t d, class R> void out(const R& r) {
  for (size_t k = 0; k < r.first.size(); ++k) { int v[3] = {0, 0, 0}, n = 0; for (size_t q = 0; q < d; ++q) { v[q] = r.first[k][q]; n += v[q] * v[q]; } if (n == 1) emits_region(v[0], v[1], v[2], vp_boxd(r.second[k].id), int(r.second[k].level())); } }
constexpr int T = 3;
static bool dm(int D, int a = 0, int b = 0, int c = 0) { int p[3] = {probe(0, T), D > 1 ? probe(1, T) : 0, D > 2 ? probe(2, T) : 0}; return in_set(150, T, p[0] - a, p[1] - b, p[2] - c); }
static void one(int D, int a, int b, int c) { emits_region(a, b, c, vp_boxd(set_of(vp_boxb(dm(D) & !dm(D, -a, -b, -c)))), T); }
#define EV(d) W void C09_everywhere##d##__impl() { mk::Set<d> dom(150, T); out<d>(Everywhere<d, mk::Iv>().get_region(dom)); } \
  W void C09_everywhere##d##__spec() { for (int s = -1; s < 2; s += 2) { one(d, s, 0, 0); if (d > 1) one(d, 0, s, 0); if (d > 2) one(d, 0, 0, s); } }
EV(1) EV(2) EV(3)
// on given directions
W void C09_ondirection1__impl() { mk::Set<1> dom(150, T); DirectionVector<1> a{-1}; out<1>(make_bc_region<1, mk::Iv>(a).get_region(dom)); }
W void C09_ondirection1__spec() { one(1, -1, 0, 0); }
W void C09_ondirection2__impl() { mk::Set<2> dom(150, T); DirectionVector<2> a{0, 1}, b{-1, 0}; out<2>(make_bc_region<2, mk::Iv>(a, b).get_region(dom)); }
W void C09_ondirection2__spec() { one(2, 0, 1, 0); one(2, -1, 0, 0); }
W void C09_ondirection3__impl() { mk::Set<3> dom(150, T); DirectionVector<3> a{0, 0, -1}, b{0, 1, 0}, c{1, 0, 0}; out<3>(make_bc_region<3, mk::Iv>(a, b, c).get_region(dom)); }
W void C09_ondirection3__spec() { one(3, 0, 0, -1); one(3, 0, 1, 0); one(3, 1, 0, 0); }
// where a predicate of the coordinates of the outer face holds
template <int d> void coords() { mk::Set<d> dom(150, T); out<d>(CoordsRegion<d, mk::Iv>([](const auto& x) { double q[3] = {0, 0, 0}; for (size_t k = 0; k < d; ++k) q[k] = x[k]; return sel_face(q[0], q[1], q[2]); }).get_region(dom)); }
static void cone(int D, int a, int b, int c) {
  int v[3] = {a, b, c}; double x[3] = {0, 0, 0}, h = mesh_cell_length(T), acc = 0; for (int k = 0; k < D; ++k) x[k] = domx(k) + h * (probe(k, T) + 0.5) + h / 2 * v[k];
  if (dm(D) & !dm(D, -a, -b, -c)) if (sel_face(x[0], x[1], x[2])) acc += cell_term(probe(0, T), D > 1 ? probe(1, T) : 0, D > 2 ? probe(2, T) : 0);
  emits_region(a, b, c, vp_boxd(vp_boxd(acc)), T); }
#define CO(d) W void C09_coordsregion##d##__impl() { coords<d>(); } W void C09_coordsregion##d##__spec() { for (int s = -1; s < 2; s += 2) { cone(d, s, 0, 0); if (d > 1) cone(d, 0, s, 0); if (d > 2) cone(d, 0, 0, s); } }
CO(1) CO(2) CO(3)
// the boundary cells of a level in a direction
namespace mk { template <size_t d> struct DMesh { static constexpr size_t dim = d; enum class mesh_id_t { cells }; Set<d> c, s; samurai::CellArray<d, Iv, 20> ca{100, 1, 4}; Set<d> dom{151, 4}; const auto& operator[](mesh_id_t) const { return ca; } const Set<d>& subdomain() const { return dom; } const Set<d>& domain() const { return dom; } }; }
#define BD(d, L) W bool C09_boundary##d##_##L##__impl(int a, int b, int c) { mk::DMesh<d> m; DirectionVector<d> v; int q[3] = {a, b, c}; for (size_t k = 0; k < d; ++k) v[k] = q[k]; auto s = boundary(m, L, v); return s.member_at_probe() & (s.level() == L); } \
  W bool C09_boundary##d##_##L##__spec(int a, int b, int c) { int w = 1 << (4 - L); int p[3] = {probe(0, L), d > 1 ? probe(1, L) : 0, d > 2 ? probe(2, L) : 0}, q[3] = {a, d > 1 ? b : 0, d > 2 ? c : 0}; bool in = in_set(100, L, p[0], p[1], p[2]); \
    bool nb = L == 4 ? in_set(151, 4, p[0] + w * q[0], p[1] + w * q[1], p[2] + w * q[2]) : in_proj(151, 4, L, p[0], p[1], p[2], -w * q[0], -w * q[1], -w * q[2]); return in & !nb; }
BD(1, 4) BD(2, 3) BD(3, 1)
