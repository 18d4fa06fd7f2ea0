// PARTS: 9
// FLAGS: -fno-threadsafe-statics
// construction of the sub-meshes from the leaves
#include "notimer.hpp"
#include <fmt/format.h>
#include <iostream>
#include <iomanip>
#include <sstream>
#define endl flush
#include "store.hpp"
#include <samurai/mr/mesh.hpp>
#include <samurai/amr/mesh.hpp>
#include <samurai/uniform_mesh.hpp>
using namespace samurai; using namespace st;
#if VP_PART >= 7
#define VP_ORG0
#endif
#include "window.hpp"
// what a mesh contains: its runs, with position, length and storage offset
template <int d, class CA> static double look(int id, const CA& ca) { double r = 0; for_each_interval(ca, [&](size_t l, const auto& i, const auto& y) { double e; if constexpr (d == 1) e = Ev4(id, int(l), i.start, i.end - i.start, 0, i.start + i.index); else if constexpr (d == 2) e = Ev4(id, int(l), i.start, i.end - i.start, y[0], i.start + i.index); else e = Ev4(id + 16 * int(l), y[1], i.start, i.end - i.start, y[0], i.start + i.index); r += e; }); return r; }
struct Rn { int l, x, n, y, z, off; }; // off: number of cells of the reference mesh before
struct Runs { int n = 0; Rn r[160] = {}; };
template <int d, int N> constexpr Runs runs(const Lev<d, N>& a, const Lev<d, N>& ref) { Runs R{}; int off = 0; using V = Win<d, N>; for (int l = 0; l < 5; ++l) for (int z = 0; z < V::NZ; ++z) for (int y = 0; y < V::NY; ++y) { auto u = a[l].b[z][y], v = ref[l].b[z][y]; if (u | v) for (int x = 0; x < N; ++x) { if (u >> x & 1) { if (!x || !(u >> (x - 1) & 1)) R.r[R.n++] = Rn{l, x - V::O, 0, y - V::OY, z - V::OZ, off}; R.r[R.n - 1].n++; } if (v >> x & 1) ++off; } } return R; }
template <int d> static double tell(int id, const Runs& R, bool idx = true) { double r = 0; for (int k = 0; k < R.n; ++k) { const Rn& q = R.r[k]; long long o = idx ? q.off : 0; if constexpr (d == 1) r += Ev4(id, q.l, org<1>(0, q.l) + q.x, q.n, 0, o); else if constexpr (d == 2) r += Ev4(id, q.l, org<2>(0, q.l) + q.x, q.n, org<2>(1, q.l) + q.y, o); else r += Ev4(id + 16 * q.l, org<3>(2, q.l) + q.z, org<3>(0, q.l) + q.x, q.n, org<3>(1, q.l) + q.y, o); } return r; }
template <int d, int N> struct Sub { Lev<d, N> c, u, g, p, q, a; Win<d, N> s; };
template <int d, int N> constexpr Sub<d, N> common(const Bk* b, int n, int lo, int hi) { Sub<d, N> S{}; S.c = cells<d, N>(b, n); for (int l = hi; l >= (lo == 0 ? 1 : lo); --l) S.u[l - 1] = (S.c[l] | S.u[l]).down(1); for (int l = 0; l <= hi; ++l) S.s = S.s | S.c[l].up(hi - l); return S; }
// multiresolution: stencil neighbours of the leaves; what is needed to predict those not covered by finer cells; what is needed to predict a leaf from two levels below; periodic images; children of covered cells
template <int d, int N> constexpr Sub<d, N> mr(const Bk* b, int n, int lo, int hi, int sw, int po, int per = 0, const Bk* dom = nullptr) {
  Sub<d, N> S = common<d, N>(b, n, lo, hi); int mn = 4, mx = 0; for (int k = 0; k < n; ++k) { mn = b[k].l < mn ? b[k].l : mn; mx = b[k].l > mx ? b[k].l : mx; }
  for (int l = 0; l <= mx; ++l) { S.g[l] = S.c[l].grow(sw); S.a[l] = S.a[l] | S.g[l]; }
  if (lo == hi) return S;
  for (int l = mx; l >= (mn == 0 ? 1 : mn); --l) { S.a[l - 1] = S.a[l - 1] | (S.g[l] - S.u[l]).down(1).grow(po); if (l > 1) S.a[l - 2] = S.a[l - 2] | S.c[l].down(2).grow(po); }
  int gw = sw > po ? sw : po;
  if (per) for (int l = 0; l <= mx; ++l) for (int e = 0; e < d; ++e) if (per >> e & 1) { int dl = dom->l - l; int m0[3] = {dom->x0 >> dl, dom->y0 >> dl, dom->z0 >> dl}, m1[3] = {dom->x1 >> dl, dom->y1 >> dl, dom->z1 >> dl}; int a0[3] = {m0[0] - gw, m0[1] - gw, m0[2] - gw}, a1[3] = {m1[0] + gw, m1[1] + gw, m1[2] + gw}; a1[e] = m0[e] + gw; auto B1 = Win<d, N>::box(a0, a1); a0[e] = m1[e] - gw; a1[e] = m1[e] + gw; auto B2 = Win<d, N>::box(a0, a1); auto A = S.a[l]; S.a[l] = A | (A & B1).move(m1[e] - m0[e], e) | (A & B2).move(m0[e] - m1[e], e); }
  for (int l = 0; l < mx; ++l) { S.p[l] = S.a[l] & S.u[l]; S.a[l + 1] = S.a[l + 1] | S.p[l].up(1); }
  return S; }
template <int d, class M> static double seeMR(const M& m) { using id = typename M::mesh_id_t; double r = look<d>(0, m[id::cells]) + look<d>(1, m[id::cells_and_ghosts]) + look<d>(2, m[id::proj_cells]) + look<d>(4, m[id::reference]) + look<d>(5, m[id::union_cells]); for_each_interval(m.get_union(), [&](size_t l, const auto& i, const auto&) { r += Ev4(6, int(l), i.start, i.end, 0, 0); }); for_each_interval(m.subdomain(), [&](size_t l, const auto& i, const auto&) { r += Ev4(7, int(l), i.start, i.end, 0, 0); }); for_each_interval(m.domain(), [&](size_t l, const auto& i, const auto&) { r += Ev4(8, int(l), i.start, i.end, 0, 0); }); return r + wgt(0) * double(m.min_level()) + wgt(1) * double(m.max_level()) + wgt(2) * double(m.nb_cells()); }
template <int d, int N> static double tellMR(const Sub<d, N>& S, const Runs& c, const Runs& g, const Runs& p, const Runs& a, const Runs& u, const Runs& s, int lo, int hi) { double r = tell<d>(0, c) + tell<d>(1, g) + tell<d>(2, p) + tell<d>(4, a); for (int k = 0; k < u.n; ++k) r += Ev4(6, u.r[k].l, org<d>(0, u.r[k].l) + u.r[k].x, org<d>(0, u.r[k].l) + u.r[k].x + u.r[k].n, 0, 0); for (int t = 7; t < 9; ++t) for (int k = 0; k < s.n; ++k) r += Ev4(t, hi, org<d>(0, hi) + s.r[k].x, org<d>(0, hi) + s.r[k].x + s.r[k].n, 0, 0); int cnt = 0; for (int k = 0; k < a.n; ++k) cnt += a.r[k].n; return r + wgt(0) * lo + wgt(1) * hi + wgt(2) * cnt; }
#define MRCASE(nm, d, N, SW, PO, lo, hi, ...) static constexpr Bk nm##_b[] = {__VA_ARGS__}; constexpr int nm##_n = sizeof(nm##_b) / sizeof(Bk); static constexpr auto nm##_s = mr<d, N>(nm##_b, nm##_n, lo, hi, SW, PO); constexpr Lev<d, N> nm##_sub() { Lev<d, N> r{}; r[hi] = nm##_s.s; return r; } \
 static constexpr auto nm##_c = runs<d, N>(nm##_s.c, nm##_s.a), nm##_g = runs<d, N>(nm##_s.g, nm##_s.a), nm##_p = runs<d, N>(nm##_s.p, nm##_s.a), nm##_a = runs<d, N>(nm##_s.a, nm##_s.a), nm##_u = runs<d, N>(nm##_s.u, nm##_s.a), nm##_d = runs<d, N>(nm##_sub(), nm##_s.a); \
 W double C18_##nm##__impl() { CellList<d, I, 4> cl; fill<d>(cl, nm##_b, nm##_n); MRMesh<MRConfig<d, SW, 1, PO, 4, I>> m(cl, lo, hi); return seeMR<d>(m); } \
 W double C18_##nm##__spec() { return tellMR<d, N>(nm##_s, nm##_c, nm##_g, nm##_p, nm##_a, nm##_u, nm##_d, lo, hi); }
#if VP_PART == 0
MRCASE(mr1_grad, 1, 64, 1, 1, 0, 2, {0, 0, 1}, {1, 2, 4}, {2, 8, 12})
MRCASE(mr1_holes, 1, 64, 1, 1, 1, 3, {1, -3, -2}, {1, 0, 1}, {2, 2, 3}, {3, 6, 8}, {3, 13, 15})
MRCASE(mr1_flat, 1, 64, 2, 1, 2, 2, {2, 1, 4}, {2, 9, 10})
MRCASE(mr1_under, 1, 64, 1, 1, 0, 3, {1, 0, 2}, {2, 4, 8})
#endif
#if VP_PART == 1
MRCASE(mr1_wide, 1, 64, 3, 1, 1, 3, {1, 0, 2}, {2, 4, 6}, {3, 12, 16}, {2, 8, 9})
MRCASE(mr1_order, 1, 64, 1, 2, 1, 3, {1, 0, 2}, {2, 4, 6}, {3, 12, 16}, {2, 8, 9})
MRCASE(mr1_jump, 1, 64, 2, 1, 1, 4, {1, -2, 0}, {4, 0, 4}, {3, 2, 3})
#endif
#if VP_PART == 2
MRCASE(mr2_two, 2, 24, 1, 1, 0, 1, {0, 0, 1, 0, 1}, {1, 2, 4, 0, 2})
MRCASE(mr2_alone, 2, 24, 1, 1, 0, 2, {2, 2, 3, 3, 4})
#endif
#if VP_PART == 3
MRCASE(mr2_three, 2, 32, 1, 1, 0, 2, {1, 0, 1, 1, 2}, {2, 2, 4, 2, 4})
#endif
#if VP_PART == 4
MRCASE(mr3_two, 3, 16, 1, 1, 0, 1, {0, 0, 1, 0, 1, 0, 1}, {1, 2, 3, 0, 1, 1, 2})
#endif

// adaptive mesh refinement
template <int d, int N> constexpr Sub<d, N> amr_(const Bk* b, int n, int lo, int hi, int gw, int po) {
  Sub<d, N> S = common<d, N>(b, n, lo, hi); int mn = 4, mx = 0; for (int k = 0; k < n; ++k) { mn = b[k].l < mn ? b[k].l : mn; mx = b[k].l > mx ? b[k].l : mx; }
  Lev<d, N> g{}; for (int l = 0; l <= mx; ++l) g[l] = S.c[l].grow(gw);
  S.g = g;
  for (int l = mn + 1; l <= mx; ++l) { S.p[l] = (((g[l - 1] & S.u[l - 1]) | S.p[l - 1]) - S.c[l - 1]).up(1); S.q[l] = (g[l] - (S.u[l] | S.c[l])) & S.s.down(hi - l); S.g[l - 1] = S.g[l - 1] | S.q[l].down(1).grow(po); }
  for (int l = mn; l <= mx; ++l) S.a[l] = S.g[l] | S.p[l];
  return S; }
#define AMRCASE(nm, d, N, SW, PO, lo, hi, ...) static constexpr Bk nm##_b[] = {__VA_ARGS__}; constexpr int nm##_n = sizeof(nm##_b) / sizeof(Bk); static constexpr auto nm##_s = amr_<d, N>(nm##_b, nm##_n, lo, hi, (SW > PO ? SW : PO), PO); \
 static constexpr auto nm##_c = runs<d, N>(nm##_s.c, nm##_s.a), nm##_g = runs<d, N>(nm##_s.g, nm##_s.a), nm##_p = runs<d, N>(nm##_s.p, nm##_s.a), nm##_a = runs<d, N>(nm##_s.a, nm##_s.a), nm##_q = runs<d, N>(nm##_s.q, nm##_s.a); \
 W double C18_##nm##__impl() { CellList<d, I, 4> cl; fill<d>(cl, nm##_b, nm##_n); using M = amr::Mesh<amr::Config<d, SW, 1, 4, PO, I>>; M m(cl, lo, hi); using id = M::mesh_id_t; return look<d>(0, m[id::cells]) + look<d>(1, m[id::cells_and_ghosts]) + look<d>(2, m[id::proj_cells]) + look<d>(3, m[id::pred_cells]) + look<d>(4, m[id::reference]); } \
 W double C18_##nm##__spec() { return tell<d>(0, nm##_c) + tell<d>(1, nm##_g) + tell<d>(2, nm##_p) + tell<d>(3, nm##_q) + tell<d>(4, nm##_a); }
#if VP_PART == 5
AMRCASE(amr1_grad, 1, 64, 1, 1, 1, 3, {1, 0, 1}, {2, 2, 4}, {3, 8, 12}, {2, 6, 7})
AMRCASE(amr1_wide, 1, 64, 2, 1, 1, 3, {1, 0, 2}, {2, 4, 6}, {3, 12, 16}, {1, 4, 5})
AMRCASE(amr1_order, 1, 64, 1, 2, 1, 3, {1, 0, 2}, {2, 4, 6}, {3, 12, 16}, {1, 4, 5})
AMRCASE(amr1_zero, 1, 64, 1, 1, 0, 2, {0, 0, 2}, {1, 4, 5}, {2, 10, 12})
#endif
#if VP_PART == 6
AMRCASE(amr2, 2, 24, 1, 1, 1, 2, {1, 0, 1, 0, 1}, {2, 2, 4, 0, 2})
#endif
// boxes, periodic domains, meshes built on another one
template <int d> static Box<double, d> box(double lx, double ly = 1) { xt::xtensor_fixed<double, xt::xshape<d>> a, b; for (int i = 0; i < d; ++i) { a[i] = ::org(i); b[i] = ::org(i) + (i == 0 ? lx : ly); } return Box<double, d>(a, b); }
template <int d, class L> static double place(int k, const L& l) { double r = wgt(100 + k) * l.scaling_factor(); for (int i = 0; i < d; ++i) r += wgt(110 + 10 * k + i) * l.origin_point()[i]; return r; }
template <int d, class M> static double places(const M& m) { using id = typename M::mesh_id_t; double r = place<d>(0, m[id::cells]) + place<d>(1, m[id::cells_and_ghosts]) + place<d>(2, m[id::reference]) + place<d>(3, m.get_union()) + place<d>(4, m.domain()) + place<d>(5, m.subdomain()) + place<d>(6, m); for (int l = 0; l < 4; ++l) r += wgt(200 + l) * m.cell_length(size_t(l)); for (int i = 0; i < d; ++i) r += wgt(210 + i) * (m.is_periodic(size_t(i)) ? 1 : 0) + wgt(220 + i) * (m.periodicity()[size_t(i)] ? 1 : 0); return r; }
template <int d> static double placesS(double sc, int per) { double r = 0; for (int k = 0; k < 7; ++k) { r += wgt(100 + k) * sc; for (int i = 0; i < d; ++i) r += wgt(110 + 10 * k + i) * ::org(i); } for (int l = 0; l < 4; ++l) r += wgt(200 + l) * (sc / (1 << l)); for (int i = 0; i < d; ++i) r += (wgt(210 + i) + wgt(220 + i)) * (per >> i & 1); return r; }
template <int d, class M> static double seeBox(const M& m) { using id = typename M::mesh_id_t; double r = look<d>(0, m[id::cells]) + look<d>(1, m[id::cells_and_ghosts]) + look<d>(2, m[id::proj_cells]) + look<d>(4, m[id::reference]); for_each_interval(m.domain(), [&](size_t l, const auto& i, const auto&) { r += Ev4(8, int(l), i.start, i.end, 0, 0); }); for_each_interval(m.subdomain(), [&](size_t l, const auto& i, const auto&) { r += Ev4(7, int(l), i.start, i.end, 0, 0); }); return r; }
template <int d, int N> constexpr Lev<d, N> lone(const Win<d, N>& w, int l) { Lev<d, N> r{}; r[l] = w; return r; }
#define BOXSPEC(nm, d, N, SW, PO, lo, hi, per, dx, dy, ...) static constexpr Bk nm##_b[] = {__VA_ARGS__}, nm##_D{hi, 0, dx, 0, dy}; constexpr int nm##_n = sizeof(nm##_b) / sizeof(Bk); static constexpr auto nm##_s = mr<d, N>(nm##_b, nm##_n, lo, hi, SW, PO, per, &nm##_D); \
 static constexpr auto nm##_c = runs<d, N>(nm##_s.c, nm##_s.a), nm##_g = runs<d, N>(nm##_s.g, nm##_s.a), nm##_p = runs<d, N>(nm##_s.p, nm##_s.a), nm##_a = runs<d, N>(nm##_s.a, nm##_s.a), nm##_d = runs<d, N>(lone(nm##_s.s, hi), nm##_s.a); \
 static double nm##_tell() { double r = tell<d>(0, nm##_c) + tell<d>(1, nm##_g) + tell<d>(2, nm##_p) + tell<d>(4, nm##_a); for (int k = 0; k < (d > 1 ? dy : 1); ++k) r += Ev4(8, hi, 0, dx, 0, 0); for (int k = 0; k < nm##_d.n; ++k) r += Ev4(7, hi, nm##_d.r[k].x, nm##_d.r[k].x + nm##_d.r[k].n, 0, 0); return r; }
#if VP_PART == 7
BOXSPEC(box1, 1, 64, 1, 1, 1, 2, 0, 4, 1, {2, 0, 4})
W double C18_box1__impl() { using M = MRMesh<MRConfig<1, 1, 1, 1, 4, I>>; M m(box<1>(1.), 1, 2, 0.05, 1.); return seeBox<1>(m) + places<1>(m); }
W double C18_box1__spec() { return box1_tell() + placesS<1>(1., 0); }
BOXSPEC(per1, 1, 64, 1, 1, 1, 3, 1, 8, 1, {3, 0, 8})
W double C18_per1__impl() { using M = MRMesh<MRConfig<1, 1, 1, 1, 4, I>>; M m(box<1>(1.), 1, 3, std::array<bool, 1>{true}, 0.05, 1.); return seeBox<1>(m) + places<1>(m); }
W double C18_per1__spec() { return per1_tell() + placesS<1>(1., 1); }
BOXSPEC(ada1, 1, 64, 1, 1, 1, 3, 1, 8, 1, {1, 0, 1}, {2, 2, 3}, {3, 6, 8})
W double C18_ada1__impl() { using M = MRMesh<MRConfig<1, 1, 1, 1, 4, I>>; M m(box<1>(1.), 1, 3, std::array<bool, 1>{true}, 0.05, 1.); CellList<1, I, 4> cl; fill<1>(cl, ada1_b, ada1_n); M n(cl, m); return seeBox<1>(n) + places<1>(n); }
W double C18_ada1__spec() { return ada1_tell() + placesS<1>(1., 1); }
// swapping exchanges everything
W double C18_swap1__impl() { using M = MRMesh<MRConfig<1, 1, 1, 1, 4, I>>; M m(box<1>(1.), 1, 3, std::array<bool, 1>{true}, 0.05, 1.), n(box<1>(1.), 1, 2, 0.05, 1.); m.swap(n); return seeBox<1>(n) + places<1>(n) + wgt(0) * n.max_level() + wgt(1) * n.min_level() + wgt(4) * m.max_level() + wgt(2) * (seeBox<1>(m) + places<1>(m)); }
W double C18_swap1__spec() { return per1_tell() + placesS<1>(1., 1) + wgt(0) * 3 + wgt(1) + wgt(4) * 2 + wgt(2) * (box1_tell() + placesS<1>(1., 0)); }
static constexpr int nref(const Rn* r, int n) { int k = 0; for (int i = 0; i < n; ++i) k += r[i].n; return k; }
W double C18_ask1__impl() { using M = MRMesh<MRConfig<1, 1, 1, 1, 4, I>>; using id = M::mesh_id_t; CellList<1, I, 4> cl; fill<1>(cl, ada1_b, ada1_n); M m(cl, 1, 3), n(cl, 1, 3); CellList<1, I, 4> c2; fill<1>(c2, ada1_b, 2); M k(c2, 1, 3); return wgt(0) * double(m.nb_cells(id::cells)) + wgt(1) * double(m.nb_cells(3, id::cells)) + wgt(2) * double(m.nb_cells(2, id::cells)) + wgt(3) * double(m.get_index(3, 6) - m.get_cell(3, 7).index) + wgt(4) * m.get_cell(2, 2).level + wgt(5) * m.get_cell(2, 2).indices[0] + wgt(6) * (m.get_interval(3, I{6, 7}).index + 6 - m.get_index(3, 6)) + wgt(7) * (m == n ? 1 : 0) + wgt(8) * (m == k ? 1 : 0) + wgt(9) * (m != k ? 1 : 0); }
W double C18_ask1__spec() { return wgt(0) * 4 + wgt(1) * 2 + wgt(2) - wgt(3) + wgt(4) * 2 + wgt(5) * 2 + wgt(7) + wgt(9); }
// equal: same bounds of levels and same cells
W double C18_same1__impl() { using M = MRMesh<MRConfig<1, 1, 1, 1, 4, I>>; CellList<1, I, 4> cl, c2; fill<1>(cl, ada1_b, ada1_n); fill<1>(c2, ada1_b, 2); M m[4] = {M(cl, 1, 3), M(cl, 1, 4), M(cl, 0, 3), M(c2, 1, 3)}; double r = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r += wgt(10 * i + j) * (m[i] == m[j] ? 1 : 0) + wgt(100 + 10 * i + j) * (m[i] != m[j] ? 1 : 0); return r; }
W double C18_same1__spec() { double r = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r += i == j ? wgt(10 * i + j) : wgt(100 + 10 * i + j); return r; }
W double C18_scale1__impl() { using M = MRMesh<MRConfig<1, 1, 1, 1, 4, I>>; M m(box<1>(1.), 1, 2, 0.05, 1.); m.scale_domain(wgt(9)); return places<1>(m); }
W double C18_scale1__spec() { return placesS<1>(wgt(9), 0); }
#endif
#if VP_PART == 8
template <int d, int GW> static double seeU(const UniformMesh<UniformConfig<d, GW, I>>& m) { using id = UniformMeshId; return look<d>(0, m[id::cells]) + look<d>(1, m[id::cells_and_ghosts]) + place<d>(0, m) + place<d>(1, m[id::cells]) + place<d>(2, m[id::reference]) + wgt(3) * m.cell_length(3) + wgt(4) * m.nb_cells() + wgt(5) * m.nb_cells(id::cells); }
template <int d> static double tellU(const Runs& c, const Runs& g, int n0, int n1) { double r = tell<d>(0, c) + tell<d>(1, g) + wgt(3) * (wgt(90) / 8) + wgt(4) * n1 + wgt(5) * n0; for (int k = 0; k < 3; ++k) { r += wgt(100 + k) * wgt(90); for (int i = 0; i < d; ++i) r += wgt(110 + 10 * k + i) * ::org(i); } return r; }
static constexpr Bk uni1_b[] = {{2, 0, 3}, {2, 5, 6}, {2, 12, 13}}, uni2_b[] = {{2, 0, 3, 0, 1}, {2, 1, 2, 3, 5}};
static constexpr auto uni1_c = cells<1, 64>(uni1_b, 3), uni1_g = lone(cells<1, 64>(uni1_b, 3)[2].grow(2), 2); static constexpr auto uni2_c = cells<2, 24>(uni2_b, 2), uni2_g = lone(cells<2, 24>(uni2_b, 2)[2].grow(1), 2);
static constexpr auto uni1_rc = runs(uni1_c, uni1_g), uni1_rg = runs(uni1_g, uni1_g), uni2_rc = runs(uni2_c, uni2_g), uni2_rg = runs(uni2_g, uni2_g);
static constexpr int count(const Runs& r) { int n = 0; for (int k = 0; k < r.n; ++k) n += r.r[k].n; return n; }
template <int d> static LevelCellList<d, I> lst(const Bk* b, int n) { xt::xtensor_fixed<double, xt::xshape<d>> o; for (int i = 0; i < d; ++i) o[i] = ::org(i); LevelCellList<d, I> l(2, o, wgt(90)); for (int k = 0; k < n; ++k) for (int y = b[k].y0; y < (d > 1 ? b[k].y1 : b[k].y0 + 1); ++y) { xt::xtensor_fixed<int, xt::xshape<d - 1>> v; if constexpr (d > 1) v[0] = y; l[v].add_interval({b[k].x0, b[k].x1}); } return l; }
W double C18_uni1__impl() { UniformMesh<UniformConfig<1, 2, I>> m(lst<1>(uni1_b, 3)); return seeU<1, 2>(m) + wgt(6) * double(m.get_index(5)); }
W double C18_uni1__spec() { return tellU<1>(uni1_rc, uni1_rg, count(uni1_rc), count(uni1_rg)) + wgt(6) * 7; }
W double C18_uni2__impl() { UniformMesh<UniformConfig<2, 1, I>> m(lst<2>(uni2_b, 2)); return seeU<2, 1>(m); }
W double C18_uni2__spec() { return tellU<2>(uni2_rc, uni2_rg, count(uni2_rc), count(uni2_rg)); }
W double C18_unibox__impl() { UniformMesh<UniformConfig<1, 1, I>> m(box<1>(1.), 2, 0.05, 1.), n(m), k(box<1>(1.), 3, 0.05, 1.); bool e = n == m; n.swap(k); return seeU<1, 1>(m) + wgt(7) * (e ? 1 : 0) + wgt(8) * (n == m ? 1 : 0) + wgt(9) * (k == m ? 1 : 0); }
W double C18_unibox__spec() { double r = Ev4(0, 2, 0, 4, 0, 1) + Ev4(1, 2, -1, 6, 0, 0) + wgt(3) / 8 + wgt(4) * 6 + wgt(5) * 4 + wgt(7) + wgt(9); for (int k = 0; k < 3; ++k) r += wgt(100 + k) + wgt(110 + 10 * k) * ::org(0); return r; }
BOXSPEC(per2, 2, 24, 1, 1, 0, 1, 3, 2, 2, {1, 0, 2, 0, 2})
W double C18_per2__impl() { using M = MRMesh<MRConfig<2, 1, 1, 1, 4, I>>; M m(box<2>(1.), 0, 1, std::array<bool, 2>{true, true}, 0.05, 1.); return seeBox<2>(m) + places<2>(m); }
W double C18_per2__spec() { return per2_tell() + placesS<2>(1., 3); }
#endif
